// C02: the six comparison operators are the order of the rational numbers.
#include "domains.hpp"
#include "policies.hpp"

using namespace mc;
using namespace ref;

#include "rep.hpp"

namespace {

// A value the library can put over a positive denominator.
bool usable(i128 n, i128 d)
{
  return d > 0 || (fits<Rep>(n) && fits<Rep>(d));
}

template <typename L, typename R>
inline void six(L const& l, R const& r, int c, char const* policy,
                char const* shape)
{
  transitions += 6;
  bool const got[6] = {l == r, l != r, l < r, l <= r, l > r, l >= r};
  bool const want[6] = {c == 0, c != 0, c < 0, c <= 0, c > 0, c >= 0};
  static char const* const name[6] = {"==", "!=", "<", "<=", ">", ">="};
  for (int i = 0; i < 6; ++i)
    if (got[i] != want[i])
      fail(std::string(policy) + " " + pol::rep_name<Rep>() + " " + shape
           + " operator" + name[i] + " answered " + (got[i] ? "true" : "false"));
}

void tuple(i128 a, i128 b, i128 c, i128 d)
{
  if (b == 0 || d == 0 || !usable(a, b) || !usable(c, d))
    return;
  bool const cross = all_fit<Rep>(a, b, c, d, mul<Rep>(a, d), mul<Rep>(c, b));
  i128 const g = gcd(a, b), h = gcd(c, d);
  bool const reduced_cross = all_fit<Rep>(a / g, b / g, c / h, d / h,
                                          mul<Rep>(a / g, d / h), mul<Rep>(c / h, b / g));
  int const cmp = compare(a, b, c, d);
  begin("comparing a/b with c/d, a,b,c,d =", a, b, c, d);
  ++states;
  pol::each_policy([&](auto t) {
    using Ops = typename decltype(t)::type;
    if (pol::is_fast<Ops> && !(pol::reduces_input<Ops> ? reduced_cross : cross))
      return;
    using F = ieme::fraction<Rep, Ops>;
    ++traces;
    F const x {Rep(a), Rep(b)}, y {Rep(c), Rep(d)};
    six(x, y, cmp, pol::name<Ops>(), "fraction-fraction");
    if (d == 1)
      six(x, Rep(c), cmp, pol::name<Ops>(), "fraction-scalar");
    if (b == 1)
      six(Rep(a), y, cmp, pol::name<Ops>(), "scalar-fraction");
    if (want_sample())
      sample(std::string(pol::name<Ops>()) + " " + pol::show(x)
             + (x < y ? " < " : x == y ? " == " : " > ") + pol::show(y));
  });
}

// Near misses: a/b against its neighbours (n-1)/d, n/d, (n+1)/d with n/d the
// closest fraction of denominator d, for large a, b, d. This is where an
// approximate or overflowing comparison goes wrong.
void near(i128 a, i128 b, i128 d)
{
  if (b == 0 || d == 0 || !fits<Rep>(a) || !fits<Rep>(b))
    return;
  i128 p = 0;
  if (__builtin_mul_overflow(a, d, &p))
    return;
  i128 const n = floor_div(p, b);
  for (i128 k = -1; k <= 2; ++k)
    if (fits<Rep>(n + k))
    {
      tuple(a, b, n + k, d);
      tuple(n + k, d, a, b);
    }
}

[[maybe_unused]] int const registered = [] {
  bool const big = thorough();
  dom::Bounds b {};
  b.box = PART == 0 ? (big ? 32 : 13) : PART == 2 ? (big ? 20 : 7) : (big ? 40 : 12);
  b.edge = big ? 1 : 0;
  b.wide = big ? 2 : 1;
  b.few = big ? 6 : 3;
  b.square = PART == 0 ? (big ? 500 : 80) : 0;
  b.lattice = true;
  dom::pairs<Rep>(b, tuple);
  for (std::size_t s = 0; s < dom::slices; ++s)
  {
    add("near/" + std::to_string(s), [=] {
      auto const v = pool<Rep>(1);
      auto const w = big ? v : pool<Rep>(0);
      for (std::size_t i = s; i < v.size(); i += dom::slices)
        for (i128 a : v)
          for (i128 d : w)
            near(a, v[i], d);
    });
    add("lowest/" + std::to_string(s), [=] {
      if (!std::is_signed_v<Rep>)
        return;
      auto v = pool<Rep>(1);
      v.push_back(lowest<Rep>());
      for (std::size_t i = s; i < v.size(); i += dom::slices)
        for (i128 c : v)
          for (i128 d : {1, 2, 3, 7})
          {
            tuple(lowest<Rep>(), d, c, v[i]);
            tuple(c, v[i], lowest<Rep>(), d);
          }
    });
  }
  return 0;
}();

} // namespace

MC_MAIN
