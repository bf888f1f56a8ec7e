// C05: every query answers the mathematical question, over the full range.
#include "domains.hpp"
#include "policies.hpp"

using namespace mc;
using namespace ref;

#include "rep.hpp"

namespace {

using raw = ieme::raw_fraction<Rep>;

void is(bool got, bool want, char const* kind, char const* what)
{
  ++transitions;
  if (got != want)
    fail(std::string(pol::rep_name<Rep>()) + " " + kind + " " + what
         + " answered " + (got ? "true" : "false"));
}

template <typename F>
void all(F const& x, i128 a, i128 b, char const* k)
{
  bool const d = b != 0;
  int const s = d ? sgn(a) * sgn(b) : 0;
  is(is_defined(x), d, k, "is_defined");
  is(is_undefined(x), !d, k, "is_undefined");
  is(is_positive(x), d && s > 0, k, "is_positive");
  is(is_non_negative(x), d && s >= 0, k, "is_non_negative");
  is(is_zero(x), d && s == 0, k, "is_zero");
  is(is_non_positive(x), d && s <= 0, k, "is_non_positive");
  is(is_negative(x), d && s < 0, k, "is_negative");
  is(is_integer(x), d && a % b == 0, k, "is_integer");
  is(is_unit_fraction(x), d && a != 0 && b % a == 0, k, "is_unit_fraction");
  bool const coprime = d && gcd(a, b) == 1;
  is(is_reduced_ignore_signs(x), coprime, k, "is_reduced_ignore_signs");
  is(is_reduced(x), coprime && b > 0, k, "is_reduced");
  if (d)
  {
    is(is_proper(x), iabs(a) < iabs(b), k, "is_proper");
    is(is_improper(x), iabs(a) >= iabs(b), k, "is_improper");
  }
}

void single(i128 a, i128 b)
{
  if (a > hi<Rep>() || b > hi<Rep>() || a < lowest<Rep>() || b < lowest<Rep>())
    return;
  begin("the fraction a/b, a,b =", a, b);
  ++states;
  ++traces;
  all(raw {Rep(a), Rep(b)}, a, b, "raw");
  auto fraction = [&](auto t) {
    using Ops = typename decltype(t)::type;
    ieme::fraction<Rep, Ops> const x {Rep(a), Rep(b)};
    ++traces;
    all(x, a, b, pol::name<Ops>());
    if (want_sample())
      sample(pol::show(x) + (is_proper(x) ? " proper" : " improper")
             + (is_reduced(x) ? ", reduced" : ", not reduced"));
  };
  fraction(pol::tag<ieme::ops::safe_reduced_io> {});
  fraction(pol::tag<ieme::ops::fast> {});
}

void two(i128 a, i128 b, i128 c, i128 d)
{
  if (a > hi<Rep>() || b > hi<Rep>() || c > hi<Rep>() || d > hi<Rep>())
    return;
  begin("identity of a/b and c/d, a,b,c,d =", a, b, c, d);
  ++states;
  ++traces;
  bool const same = a == c && b == d;
  raw const r {Rep(a), Rep(b)}, q {Rep(c), Rep(d)};
  is(are_identical(r, q), same, "raw", "are_identical");
  is(are_different(r, q), !same, "raw", "are_different");
  ieme::fraction<Rep> const x {Rep(a), Rep(b)}, y {Rep(c), Rep(d)};
  is(are_identical(x, y), same, "default", "are_identical");
  is(are_different(x, y), !same, "default", "are_different");
  ieme::fraction<Rep, ieme::ops::fast> const u {Rep(a), Rep(b)},
    v {Rep(c), Rep(d)};
  is(are_identical(u, v), same, "fast", "are_identical");
  is(are_different(u, v), !same, "fast", "are_different");
}

[[maybe_unused]] int const registered = [] {
  bool const big = thorough();
  dom::singles<Rep>(PART == 0 ? (big ? 3000 : 700) : (big ? 1000 : 250), 2,
                    big ? 1000000 : 40000, single);
  dom::Bounds b {};
  b.box = big ? 12 : 8;
  b.edge = -1;
  b.wide = 0;
  b.few = 2;
  dom::pairs<Rep>(b, two);
  return 0;
}();

} // namespace

MC_MAIN
