// C09: the output-reducing policies return results in lowest terms, with a
// positive denominator unless they were told to ignore signs.
#include "domains.hpp"
#include "policies.hpp"

using namespace mc;
using namespace ref;

#include "rep.hpp"

namespace {

template <typename F>
void form(F const& r, bool canonical, char const* policy, char const* what)
{
  ++transitions;
  i128 const n = r.num(), d = r.den();
  bool const lowest_terms = d != 0 && gcd(n, d) == 1;
  if (lowest_terms && (!canonical || d > 0) && (!canonical || is_reduced(r)))
    return;
  fail(std::string(policy) + " " + pol::rep_name<Rep>() + " " + what + " gave "
       + pol::show(r) + ", which is not "
       + (canonical ? "in canonical form" : "in lowest terms"));
}

template <typename L, typename R>
void five(L const& l, R const& r, bool const (&ok)[5], bool canonical,
          char const* p, char const* shape)
{
  auto what = [&](char const* o) { return std::string(shape) + " operator" + o; };
  if (ok[0])
    form(l + r, canonical, p, what("+").c_str());
  if (ok[1])
    form(l - r, canonical, p, what("-").c_str());
  if (ok[2])
    form(l * r, canonical, p, what("*").c_str());
  if (ok[3])
    form(l / r, canonical, p, what("/").c_str());
  if (ok[4])
    form(l % r, canonical, p, what("%").c_str());
}

template <typename F, typename R>
void compound(F const& l, R const& r, bool const (&ok)[5], bool canonical,
              char const* p)
{
  F x = l;
  if (ok[0])
    form(x += r, canonical, p, "+=");
  x = l;
  if (ok[1])
    form(x -= r, canonical, p, "-=");
  x = l;
  if (ok[2])
    form(x *= r, canonical, p, "*=");
  x = l;
  if (ok[3])
    form(x /= r, canonical, p, "/=");
  x = l;
  if (ok[4])
    form(x %= r, canonical, p, "%=");
}

void tuple(i128 a, i128 b, i128 c, i128 d)
{
  if (b == 0 || d == 0)
    return;
  i128 const ad = mul<Rep>(a, d), cb = mul<Rep>(c, b), bd = mul<Rep>(b, d),
             ac = mul<Rep>(a, c);
  if (!all_fit<Rep>(a, b, c, d))
    return;
  bool const add = all_fit<Rep>(ad, cb, bd);
  bool const ok[5] = {add && fits<Rep>(ad + cb), add && fits<Rep>(ad - cb),
                      all_fit<Rep>(ac, bd), all_fit<Rep>(ad, cb) && c != 0,
                      add && c != 0};
  if (!(ok[0] || ok[1] || ok[2] || ok[3] || ok[4]))
    return;
  begin("(a/b) op (c/d), a,b,c,d =", a, b, c, d);
  ++states;
  pol::each_policy([&](auto t) {
    using Ops = typename decltype(t)::type;
    constexpr bool canonical = pol::canonical_output<Ops>;
    if constexpr (!canonical && !std::is_same_v<Ops, pol::ro_ign>)
      return;
    else
    {
      using F = ieme::fraction<Rep, Ops>;
      auto const p = pol::name<Ops>();
      ++traces;
      F const x {Rep(a), Rep(b)}, y {Rep(c), Rep(d)};
      five(x, y, ok, canonical, p, "fraction-fraction");
      compound(x, y, ok, canonical, p);
      if (d == 1)
      {
        five(x, Rep(c), ok, canonical, p, "fraction-scalar");
        compound(x, Rep(c), ok, canonical, p);
      }
      if (b == 1)
        five(Rep(a), y, ok, canonical, p, "scalar-fraction");
      if (fits<Rep>(-a))
        form(-x, canonical, p, "unary -");
      if (want_sample())
        sample(std::string(p) + " " + pol::show(x) + " * " + pol::show(y) + " = "
               + pol::show(x * y));
    }
  });
}

[[maybe_unused]] int const registered = [] {
  bool const big = thorough();
  dom::Bounds b {};
  b.box = PART == 0 ? (big ? 30 : 10) : PART == 2 ? (big ? 20 : 6) : (big ? 40 : 10);
  b.edge = big ? 1 : PART >= 2 ? -1 : 0;
  b.wide = big || PART >= 2 ? 1 : 0;
  b.few = big ? 6 : PART >= 2 ? 4 : 2;
  b.square = PART == 0 ? (big ? 500 : 60) : 0;
  b.lattice = true;
  dom::pairs<Rep>(b, tuple);
  return 0;
}();

} // namespace

MC_MAIN
