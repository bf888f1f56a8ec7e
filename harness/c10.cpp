// C10: headroom. The policies built on the least common denominator are exact
// whenever the operands brought to it (and the result over it) are
// representable; the input-reducing policies are exact whenever that holds of
// the operands in lowest terms.
#include "domains.hpp"
#include "policies.hpp"

using namespace mc;
using namespace ref;

#include "rep.hpp"

namespace {

template <typename F>
void same(F const& r, i128 n, i128 d, char const* policy, char const* what)
{
  ++transitions;
  Q const want = reduced(n, d), got = reduced(r.num(), r.den());
  if (i128(r.den()) != 0 && want.n == got.n && want.d == got.d)
    return;
  fail(std::string(policy) + " " + pol::rep_name<Rep>() + " " + what + " gave "
       + pol::show(r) + ", exact value " + str(want.n) + "/" + str(want.d));
}

struct Operand {
  i128 n, d;
};

// What the result of each operator over the denominators used would be;
// ok[i] says that everything on the way to it is representable.
struct Plan {
  bool ok[5];
  i128 n[5], d[5];
};

Plan plan(Operand x, Operand y, bool lcd)
{
  Plan p {};
  i128 l = 0;
  if (lcd)
    l = mul<Rep>(iabs(x.d) / gcd(x.d, y.d), iabs(y.d));
  else
    l = mul<Rep>(x.d, y.d);
  if (fits<Rep>(l))
  {
    i128 const u = mul<Rep>(l / x.d, x.n), v = mul<Rep>(l / y.d, y.n);
    if (all_fit<Rep>(u, v, l / x.d, l / y.d))
    {
      p.ok[0] = fits<Rep>(u + v);
      p.n[0] = u + v;
      p.ok[1] = fits<Rep>(u - v);
      p.n[1] = u - v;
      p.ok[4] = v != 0;
      if (v != 0)
        p.n[4] = u % v;
      p.d[0] = p.d[1] = p.d[4] = l;
    }
  }
  p.n[2] = mul<Rep>(x.n, y.n);
  p.d[2] = mul<Rep>(x.d, y.d);
  p.ok[2] = all_fit<Rep>(p.n[2], p.d[2]);
  p.n[3] = mul<Rep>(x.n, y.d);
  p.d[3] = mul<Rep>(x.d, y.n);
  p.ok[3] = all_fit<Rep>(p.n[3], p.d[3]) && y.n != 0;
  return p;
}

template <typename L, typename R>
void five(L const& l, R const& r, Plan const& e, char const* p)
{
  if (e.ok[0])
    same(l + r, e.n[0], e.d[0], p, "operator+");
  if (e.ok[1])
    same(l - r, e.n[1], e.d[1], p, "operator-");
  if (e.ok[2])
    same(l * r, e.n[2], e.d[2], p, "operator*");
  if (e.ok[3])
    same(l / r, e.n[3], e.d[3], p, "operator/");
  if (e.ok[4])
    same(l % r, e.n[4], e.d[4], p, "operator%");
}

template <typename L, typename R>
void six(L const& l, R const& r, int c, char const* p)
{
  transitions += 6;
  if ((l == r) != (c == 0) || (l != r) != (c != 0) || (l < r) != (c < 0)
      || (l <= r) != (c <= 0) || (l > r) != (c > 0) || (l >= r) != (c >= 0))
    fail(std::string(p) + " " + pol::rep_name<Rep>() + " a comparison of unreduced operands is wrong");
}

u64 beyond = 0; // plans that the cross products alone would not allow

void tuple(i128 a, i128 b, i128 c, i128 d)
{
  if (b == 0 || d == 0 || !all_fit<Rep>(a, b, c, d))
    return;
  i128 const g = gcd(a, b), h = gcd(c, d);
  Operand const x {a, b}, y {c, d}, xr {a / g, b / g}, yr {c / h, d / h};
  Plan const plain = plan(x, y, false), lcd = plan(x, y, true),
             lcd_reduced = plan(xr, yr, true), cross_reduced = plan(xr, yr, false);
  bool const cross = all_fit<Rep>(mul<Rep>(a, d), mul<Rep>(c, b));
  bool const cross_of_reduced = all_fit<Rep>(mul<Rep>(xr.n, yr.d), mul<Rep>(yr.n, xr.d));
  int const order = compare(a, b, c, d);
  bool some = cross_of_reduced && !cross;
  for (int i = 0; i < 5; ++i)
    some = some || ((lcd.ok[i] || lcd_reduced.ok[i] || cross_reduced.ok[i])
                    && !plain.ok[i]);
  if (!some) // nothing here that C01 does not decide
    return;
  begin("(a/b) op (c/d), a,b,c,d =", a, b, c, d);
  ++states;
  for (int i = 0; i < 5; ++i)
    beyond += !plain.ok[i] && lcd_reduced.ok[i];
  pol::each_policy([&](auto t) {
    using Ops = typename decltype(t)::type;
    using F = ieme::fraction<Rep, Ops>;
    Plan const& e = pol::is_fast<Ops>
                      ? (pol::reduces_input<Ops> ? cross_reduced : plain)
                      : (pol::reduces_input<Ops> ? lcd_reduced : lcd);
    ++traces;
    F const f {Rep(a), Rep(b)}, k {Rep(c), Rep(d)};
    five(f, k, e, pol::name<Ops>());
    if (d == 1)
      five(f, Rep(c), e, pol::name<Ops>());
    if (b == 1)
      five(Rep(a), k, e, pol::name<Ops>());
    if (pol::reduces_input<Ops> && (cross_of_reduced || !pol::is_fast<Ops>))
    {
      six(f, k, order, pol::name<Ops>());
      if (d == 1)
        six(f, Rep(c), order, pol::name<Ops>());
      if (b == 1)
        six(Rep(a), k, order, pol::name<Ops>());
    }
    if (want_sample())
      sample(std::string(pol::name<Ops>()) + " " + pol::show(f) + " and "
             + pol::show(k));
  });
}

void flush() { note("operator applications beyond the reach of cross products", beyond); }

[[maybe_unused]] int const registered = [] {
  bool const big = thorough();
  dom::Bounds b {};
  b.edge = big ? 1 : 0;
  b.wide = big ? 2 : 1;
  b.few = big ? 8 : 4;
  dom::pairs<Rep>(b, tuple);
  for (std::size_t s = 0; s < dom::slices; ++s)
  {
    // common denominators k*p, k*q with k up to the limit
    add("lcd/" + std::to_string(s), [=] {
      auto const ks = magnitudes<Rep>(big ? 2 : 1);
      for (std::size_t i = s; i < ks.size(); i += dom::slices)
        for (int p = 1; p <= (big ? 9 : 6); ++p)
          for (int q = 1; q <= (big ? 9 : 6); ++q)
            for (int a = 0; a <= (big ? 9 : 5); ++a)
              for (int c = 0; c <= (big ? 9 : 5); ++c)
                for (int m = 0; m < (std::is_signed_v<Rep> ? 16 : 1); ++m)
                  tuple(m & 1 ? -a : a, m & 2 ? -ks[i] * p : ks[i] * p,
                        m & 4 ? -c : c, m & 8 ? -ks[i] * q : ks[i] * q);
      flush();
    });
    // unreduced operands (k*a)/(k*b), (m*c)/(m*d) with k, m up to the limit
    add("unreduced/" + std::to_string(s), [=] {
      auto const ks = magnitudes<Rep>(big ? 2 : 1);
      auto const ms = magnitudes<Rep>(big ? 1 : 0);
      int const n = big ? 5 : 3;
      for (std::size_t i = s; i < ks.size(); i += dom::slices)
        for (i128 m : ms)
          if (m != 0 && ks[i] != 0)
            for (int a = 0; a <= n; ++a)
              for (int x = 1; x <= n; ++x)
                for (int c = 0; c <= n; ++c)
                  for (int y = 1; y <= n; ++y)
                    for (int z = 0; z < (std::is_signed_v<Rep> ? 4 : 1); ++z)
                    {
                      i128 const k = ks[i];
                      tuple((z & 1 ? -k : k) * a, k * x, m * c,
                            (z & 2 ? -m : m) * y);
                      tuple(m * c, (z & 2 ? -m : m) * y, (z & 1 ? -k : k) * a,
                            k * x);
                    }
      flush();
    });
  }
  return 0;
}();

} // namespace

MC_MAIN
