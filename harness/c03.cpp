// C03: undefined (zero-denominator) fractions propagate through everything and
// never trap; dividing or taking a remainder by zero gives an undefined fraction.
#include "domains.hpp"
#include "policies.hpp"

#include <cmath>

using namespace mc;
using namespace ref;

#include "rep.hpp"

namespace {

template <typename F>
void undef(F const& r, char const* policy, char const* what)
{
  ++transitions;
  if (i128(r.den()) != 0)
    fail(std::string(policy) + " " + pol::rep_name<Rep>() + " " + what + " gave "
         + pol::show(r) + " instead of an undefined fraction");
}

void expect(bool got, bool want, char const* policy, char const* what)
{
  ++transitions;
  if (got != want)
    fail(std::string(policy) + " " + pol::rep_name<Rep>() + " " + what
         + " answered " + (got ? "true" : "false"));
}

template <typename L, typename R>
void arithmetic(L const& l, R const& r, char const* p, char const* shape)
{
  undef(l + r, p, (std::string(shape) + " +").c_str());
  undef(l - r, p, (std::string(shape) + " -").c_str());
  undef(l * r, p, (std::string(shape) + " *").c_str());
  undef(l / r, p, (std::string(shape) + " /").c_str());
  undef(l % r, p, (std::string(shape) + " %").c_str());
}

template <typename F, typename R>
void compound(F const& l, R const& r, char const* p)
{
  F x = l;
  undef(x += r, p, "+=");
  x = l;
  undef(x -= r, p, "-=");
  x = l;
  undef(x *= r, p, "*=");
  x = l;
  undef(x /= r, p, "/=");
  x = l;
  undef(x %= r, p, "%=");
}

template <typename L, typename R>
void comparisons(L const& l, R const& r, char const* p)
{
  expect(l == r, false, p, "==");
  expect(l != r, true, p, "!=");
  expect(l < r, false, p, "<");
  expect(l <= r, false, p, "<=");
  expect(l > r, false, p, ">");
  expect(l >= r, false, p, ">=");
}

void tuple(i128 a, i128 b, i128 c, i128 d)
{
  if (!all_fit<Rep>(a, b, c, d))
    return;
  if (b != 0 && d != 0)
  {
    if (c != 0)
      return;
    // a defined dividend by zero
    begin("dividing a/b by c/d = zero, a,b,c,d =", a, b, c, d);
    ++states;
    pol::each_policy([&](auto t) {
      using Ops = typename decltype(t)::type;
      using F = ieme::fraction<Rep, Ops>;
      auto const p = pol::name<Ops>();
      ++traces;
      F const x {Rep(a), Rep(b)}, y {Rep(c), Rep(d)};
      undef(x / y, p, "division by a zero fraction");
      undef(x % y, p, "remainder by a zero fraction");
      undef(x / Rep(0), p, "division by zero");
      undef(x % Rep(0), p, "remainder by zero");
      F z = x;
      undef(z /= y, p, "/= zero fraction");
      z = x;
      undef(z %= y, p, "%= zero fraction");
      z = x;
      undef(z /= Rep(0), p, "/= zero");
      z = x;
      undef(z %= Rep(0), p, "%= zero");
      if (b == 1)
      {
        undef(Rep(a) / y, p, "scalar divided by a zero fraction");
        undef(Rep(a) % y, p, "scalar remainder by a zero fraction");
      }
      if (want_sample())
        sample(std::string(p) + " " + pol::show(x) + " % " + pol::show(y) + " = "
               + pol::show(x % y));
    });
    return;
  }
  begin("operands a/b and c/d, a,b,c,d =", a, b, c, d);
  ++states;
  pol::each_policy([&](auto t) {
    using Ops = typename decltype(t)::type;
    using F = ieme::fraction<Rep, Ops>;
    auto const p = pol::name<Ops>();
    ++traces;
    F const x {Rep(a), Rep(b)}, y {Rep(c), Rep(d)};
    arithmetic(x, y, p, "fraction-fraction");
    compound(x, y, p);
    comparisons(x, y, p);
    if (d == 1)
    {
      arithmetic(x, Rep(c), p, "fraction-scalar");
      compound(x, Rep(c), p);
      comparisons(x, Rep(c), p);
    }
    if (b == 1)
    {
      arithmetic(Rep(a), y, p, "scalar-fraction");
      comparisons(Rep(a), y, p);
    }
    if (want_sample())
      sample(std::string(p) + " " + pol::show(x) + " + " + pol::show(y) + " = "
             + pol::show(x + y));
  });
}

// One undefined fraction n/0 through everything that takes one fraction, and
// every chain of three operations on it.
void single(i128 n)
{
  if (!fits<Rep>(n))
    return;
  begin("the undefined fraction n/0, n =", n);
  ++states;
  using raw = ieme::raw_fraction<Rep>;
  raw const r {Rep(n), Rep(0)};
  auto queries = [](auto const& x, char const* p) {
    expect(is_defined(x), false, p, "is_defined");
    expect(is_undefined(x), true, p, "is_undefined");
    expect(is_positive(x), false, p, "is_positive");
    expect(is_non_negative(x), false, p, "is_non_negative");
    expect(is_zero(x), false, p, "is_zero");
    expect(is_non_positive(x), false, p, "is_non_positive");
    expect(is_negative(x), false, p, "is_negative");
    expect(is_integer(x), false, p, "is_integer");
    expect(is_unit_fraction(x), false, p, "is_unit_fraction");
    expect(is_reduced(x), false, p, "is_reduced");
    expect(is_reduced_ignore_signs(x), false, p, "is_reduced_ignore_signs");
  };
  queries(r, "raw");
  for (auto const& u :
       {reduce(r), reduce(r, ieme::reduce_mode::ignore_signs),
        reduce_normalize_signs(r), reduce_ignore_signs(r), normalize_signs(r)})
  {
    ++transitions;
    if (u.denominator != 0)
      fail("reducing or normalising an undefined raw fraction defined it");
  }
  pol::each_policy([&](auto t) {
    using Ops = typename decltype(t)::type;
    using F = ieme::fraction<Rep, Ops>;
    auto const p = pol::name<Ops>();
    ++traces;
    F const x {Rep(n), Rep(0)};
    queries(x, p);
    undef(+x, p, "unary +");
    undef(-x, p, "unary -");
    undef(abs(x), p, "abs");
    undef(reduce(x), p, "reduce");
    undef(reduce(x, ieme::reduce_mode::ignore_signs), p, "reduce(ignore_signs)");
    undef(reduce_normalize_signs(x), p, "reduce_normalize_signs");
    undef(reduce_ignore_signs(x), p, "reduce_ignore_signs");
    undef(normalize_signs(x), p, "normalize_signs");
    undef(reciprocal(F {Rep(0), Rep(n)}), p, "reciprocal of zero");
    undef(F {ieme::fraction<Rep, Ops>(x)}, p, "copy");
    undef(ieme::fraction<long long, Ops>(x), p, "conversion");
    ++transitions;
    if (!std::isnan(to_float(x)) || !std::isnan(to_double(x))
        || !std::isnan(to_long_double(x)))
      fail(std::string(p) + ": the floating-point value of an undefined fraction "
                            "is not a NaN");
    ieme::mixed_number<Rep, Rep, Ops> const m(x);
    undef(m.fractional(), p, "mixed number made from it");
    undef(m.as_fraction(), p, "mixed number made from it, as a fraction");
    for (int w = 0; w <= 2; ++w)
    {
      ieme::mixed_number<Rep, Rep, Ops> const m2(Rep(w), x);
      undef(m2.fractional(), p, "mixed number with it as fractional part");
      undef(m2.as_fraction(), p, "mixed number with it, as a fraction");
      ieme::mixed_number<Rep, Rep, Ops> const ok(Rep(1), F {Rep(1), Rep(3)});
      undef((m2 + ok).as_fraction(), p, "mixed sum");
      undef((ok + m2).as_fraction(), p, "mixed sum");
      undef((ok + x).as_fraction(), p, "mixed + undefined fraction");
      undef((x + ok).as_fraction(), p, "undefined fraction + mixed");
      undef((m2 + Rep(1)).as_fraction(), p, "undefined mixed + whole");
      undef((Rep(1) + m2).as_fraction(), p, "whole + undefined mixed");
    }
    expect(x == x, false, p, "== itself");
    expect(x != x, true, p, "!= itself");
    ieme::hash(x);
    // histories: once undefined, always undefined
    std::vector<F> const with {F {Rep(0), Rep(1)}, F {Rep(1), Rep(2)},
                               F {Rep(3), Rep(0)}, F {Rep(7), Rep(5)}};
    auto step = [&](F& y, int o) {
      F const& w = with[std::size_t(o) / 5 % with.size()];
      switch (o % 5)
      {
        case 0: y += w; break;
        case 1: y -= w; break;
        case 2: y *= w; break;
        case 3: y /= w; break;
        case 4: y %= w; break;
      }
    };
    int const ops = 5 * int(with.size());
    int const deep = thorough() ? ops : 1;
    for (int i = 0; i < ops; ++i)
      for (int j = 0; j < ops; ++j)
        for (int k = 0; k < ops; ++k)
          for (int l = 0; l < deep; ++l)
          {
            F y = x;
            step(y, i);
            undef(y, p, "a history of compound assignments");
            step(y, j);
            undef(y, p, "a history of compound assignments");
            step(y, k);
            undef(y, p, "a history of compound assignments");
            if (deep > 1)
            {
              step(y, l);
              undef(y, p, "a history of compound assignments");
            }
          }
  });
}

[[maybe_unused]] int const registered = [] {
  bool const big = thorough();
  dom::Bounds b {};
  b.box = big ? 16 : 8;
  b.edge = 0;
  b.wide = big ? 2 : 1;
  b.few = 3;
  dom::pairs<Rep>(b, tuple);
  for (std::size_t s = 0; s < 4; ++s)
    add("single/" + std::to_string(s), [=] {
      auto const v = pool<Rep>(big ? 1 : 0);
      for (std::size_t i = s; i < v.size(); i += 4)
        single(v[i]);
    });
  return 0;
}();

} // namespace

MC_MAIN
