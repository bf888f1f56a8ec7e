// C07: redenominating rounds to the stated multiple of 1/denominator.
#include "domains.hpp"
#include "policies.hpp"

using namespace mc;
using namespace ref;

#include "rep.hpp"

namespace {

template <typename F>
void is(F const& got, i128 n, i128 k, char const* policy, char const* what)
{
  ++transitions;
  if (i128(got.num()) != n || i128(got.den()) != k)
    fail(std::string(policy) + " " + pol::rep_name<Rep>() + " " + what + " gave "
         + pol::show(got) + ", expected " + str(n) + "/" + str(k));
}

void single(i128 a, i128 b, i128 k)
{
  if (b == 0 || k == 0)
    return;
  i128 const p = mul<Rep>(a, k);
  if (!all_fit<Rep>(a, b, k, p))
    return;
  begin("a/b over the new denominator k; a,b,k =", a, b, k);
  ++states;
  // n/k is a multiple of 1/|k|; for k < 0 "at most" and "at least" swap on n
  i128 const t = trunc_div(p, b);
  i128 const f = k > 0 ? floor_div(p, b) : ceil_div(p, b);
  i128 const c = k > 0 ? ceil_div(p, b) : floor_div(p, b);
  // nearest: exact for k > 0 (ties up); for k < 0 a tie may go either way
  i128 const r = round_div(p, b);
  auto fraction = [&](auto tag) {
    using Ops = typename decltype(tag)::type;
    using ieme::round_mode;
    ieme::fraction<Rep, Ops> const x {Rep(a), Rep(b)};
    Rep const d = Rep(k);
    auto const q = pol::name<Ops>();
    ++traces;
    is(trunc_redenominate(x, d), t, k, q, "trunc_redenominate");
    is(redenominate(x, d, round_mode::trunc), t, k, q, "redenominate(trunc)");
    is(floor_redenominate(x, d), f, k, q, "floor_redenominate");
    is(redenominate(x, d, round_mode::floor), f, k, q, "redenominate(floor)");
    is(ceil_redenominate(x, d), c, k, q, "ceil_redenominate");
    is(redenominate(x, d, round_mode::ceil), c, k, q, "redenominate(ceil)");
    for (int i = 0; i < 3; ++i)
    {
      auto const got = i == 0   ? round_redenominate(x, d)
                       : i == 1 ? redenominate(x, d, round_mode::round)
                                : redenominate(x, d);
      bool const tie = iabs(2 * (i128(got.num()) * b - p)) == iabs(b);
      if (k < 0 && tie && i128(got.den()) == k)
      {
        ++transitions;
        continue;
      }
      is(got, r, k, q,
         i == 0   ? "round_redenominate"
         : i == 1 ? "redenominate(round)"
                  : "redenominate");
    }
    if (want_sample())
      sample(pol::show(x) + " over " + str(k) + ": round "
             + pol::show(redenominate(x, d)));
  };
  fraction(pol::tag<ieme::ops::safe_reduced_io> {});
  fraction(pol::tag<ieme::ops::safe> {});
  fraction(pol::tag<ieme::ops::fast> {});
  fraction(pol::tag<ieme::ops::fast_reduced_io> {});
  fraction(pol::tag<pol::ro_ign> {});
}

[[maybe_unused]] int const registered = [] {
  bool const big = thorough();
  for (std::size_t s = 0; s < dom::slices; ++s)
  {
    auto const suffix = "/" + std::to_string(s);
    add("box" + suffix, [=] {
      auto const v = box<Rep>(PART == 0 ? (big ? 120 : 48) : (big ? 60 : 28));
      for (std::size_t i = s; i < v.size(); i += dom::slices)
        for (i128 a : v)
          for (i128 k : v)
            single(a, v[i], k);
    });
    add("edge" + suffix, [=] {
      auto const v = pool<Rep>(big ? 2 : 1);
      for (std::size_t i = s; i < v.size(); i += dom::slices)
        for (i128 a : v)
          for (i128 k : v)
            single(a, v[i], k);
    });
    add("common" + suffix, [=] {
      for (i128 k : {10, 12, 60, 64, 100, 360, 1000, 1000000})
        for (int b = 1 + int(s); b <= (big ? 2000 : 300); b += dom::slices)
          for (int a = 0; a <= (big ? 2000 : 300); ++a)
          {
            single(a, b, k);
            if (std::is_signed_v<Rep>)
              single(-a, b, k);
          }
    });
  }
  return 0;
}();

} // namespace

MC_MAIN
