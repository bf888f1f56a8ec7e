// C06: trunc, floor, ceil and round (and to_whole) give the mathematical result.
#include "domains.hpp"
#include "policies.hpp"

using namespace mc;
using namespace ref;

#include "rep.hpp"

namespace {

void is(i128 got, i128 want, char const* policy, char const* what)
{
  ++transitions;
  if (got != want)
    fail(std::string(policy) + " " + pol::rep_name<Rep>() + " " + what + " gave "
         + str(got) + ", expected " + str(want));
}

void single(i128 a, i128 b)
{
  if (b == 0 || !all_fit<Rep>(a, b))
    return;
  begin("rounding a/b, a,b =", a, b);
  ++states;
  i128 const t = trunc_div(a, b), f = floor_div(a, b), c = ceil_div(a, b),
             r = round_div(a, b);
  auto fraction = [&](auto tag) {
    using Ops = typename decltype(tag)::type;
    using ieme::round_mode;
    ieme::fraction<Rep, Ops> const x {Rep(a), Rep(b)};
    auto const p = pol::name<Ops>();
    ++traces;
    is(trunc(x), t, p, "trunc");
    is(floor(x), f, p, "floor");
    is(ceil(x), c, p, "ceil");
    is(round(x), r, p, "round");
    is(to_whole(x, round_mode::trunc), t, p, "to_whole(trunc)");
    is(to_whole(x, round_mode::floor), f, p, "to_whole(floor)");
    is(to_whole(x, round_mode::ceil), c, p, "to_whole(ceil)");
    is(to_whole(x, round_mode::round), r, p, "to_whole(round)");
    is(to_whole(x), r, p, "to_whole");
    if (want_sample())
      sample(pol::show(x) + ": floor " + str(floor(x)) + ", ceil " + str(ceil(x))
             + ", round " + str(round(x)));
  };
  fraction(pol::tag<ieme::ops::safe_reduced_io> {});
  fraction(pol::tag<ieme::ops::safe> {});
  fraction(pol::tag<ieme::ops::fast> {});
  fraction(pol::tag<ieme::ops::fast_reduced_o> {});
  fraction(pol::tag<pol::ri_norm> {});
}

// the neighbourhood of every half-integer and integer with denominator b
void around(i128 b)
{
  if (b == 0 || !fits<Rep>(b))
    return;
  for (i128 q : {0, 1, 2, 3, 7, 100, 32767})
    for (i128 e = -2; e <= 2; ++e)
      for (int s = 0; s < (std::is_signed_v<Rep> ? 2 : 1); ++s)
      {
        i128 const n1 = q * b + e, n2 = q * b + b / 2 + e;
        single(s ? -n1 : n1, b);
        single(s ? -n2 : n2, b);
      }
}

[[maybe_unused]] int const registered = [] {
  bool const big = thorough();
  dom::singles<Rep>(PART == 0 ? (big ? 3000 : 700) : (big ? 1000 : 250), 2,
                    big ? 1000000 : 30000, single);
  for (std::size_t s = 0; s < dom::slices; ++s)
    add("halves/" + std::to_string(s), [=] {
      auto const v = pool<Rep>(2);
      for (std::size_t i = s; i < v.size(); i += dom::slices)
        around(v[i]);
      i128 const n = big ? 200000 : 10000;
      for (i128 d = 1 + (i128)s; d <= n; d += dom::slices)
      {
        around(d);
        if (std::is_signed_v<Rep>)
          around(-d);
        around(hi<Rep>() - d);
      }
    });
  return 0;
}();

} // namespace

MC_MAIN
