// C08: pow2 and pow are exact for every exponent whose power is representable.
#include "domains.hpp"
#include "policies.hpp"

#include <climits>

using namespace mc;
using namespace ref;

#include "rep.hpp"

namespace {

template <typename F>
void is(F const& got, i128 n, i128 d, char const* policy, char const* what)
{
  ++transitions;
  i128 const gn = got.num(), gd = got.den();
  bool const ok = d == 0 ? gd == 0 : gd != 0 && compare(gn, gd, n, d) == 0;
  if (!ok)
    fail(std::string(policy) + " " + pol::rep_name<Rep>() + " " + what + " gave "
         + pol::show(got) + ", expected the value of " + str(n) + "/" + str(d));
}

// base^|e| in 128 bits, or false when it is not representable
bool power(i128 base, i128 e, i128& out)
{
  out = 1;
  e = iabs(e);
  if (base == 0 || base == 1 || base == -1)
  {
    out = base == 0 ? (e == 0) : base == 1 ? 1 : (e % 2 ? -1 : 1);
    return true;
  }
  for (i128 i = 0; i < e; ++i)
  {
    out = mul<Rep>(out, base);
    if (!fits<Rep>(out))
      return false;
  }
  return true;
}

void one(i128 base, i128 e)
{
  i128 v = 0;
  if (!fits<Rep>(base) || !power(base, e, v) || !fits<Rep>(v)
      || (std::is_unsigned_v<Rep> && v < 0))
    return;
  // the exponent itself travels as a Rep
  begin("base to the power of exponent; base, exponent =", base, e);
  ++states;
  auto check = [&](auto t) {
    using Ops = typename decltype(t)::type;
    auto const p = pol::name<Ops>();
    ++traces;
    auto const got = ieme::pow<Rep, Ops>(Rep(base), int(e));
    is(got, e >= 0 ? v : 1, e >= 0 ? 1 : v, p, "pow");
    if (base == 2)
      is(ieme::pow2<Rep, Ops>(int(e)), e >= 0 ? v : 1, e >= 0 ? 1 : v, p, "pow2");
    if (want_sample())
      sample("pow(" + str(base) + "," + str(e) + ") = " + pol::show(got));
  };
  check(pol::tag<ieme::ops::safe_reduced_io> {});
  check(pol::tag<ieme::ops::fast> {});
  check(pol::tag<ieme::ops::safe> {});
  // the default policy argument
  ++transitions;
  if (!are_identical(ieme::pow<Rep>(Rep(base), int(e)),
                     ieme::pow<Rep, ieme::ops::defaults>(Rep(base), int(e))))
    fail("pow without a policy differs from pow with the default policy");
}

[[maybe_unused]] int const registered = [] {
  bool const big = thorough();
  for (std::size_t s = 0; s < dom::slices; ++s)
  {
    add("bases/" + std::to_string(s), [=] {
      i128 const n = big ? 3000000 : 100000;
      for (i128 b = (i128)s; b <= n; b += dom::slices)
        for (int e = -64; e <= 64; ++e)
        {
          if (b > 1500 && (e > 6 || e < -6))
            continue;
          one(b, e);
          if (std::is_signed_v<Rep>)
            one(-b, e);
        }
    });
    add("edge/" + std::to_string(s), [=] {
      auto const v = pool<Rep>(2);
      for (std::size_t i = s; i < v.size(); i += dom::slices)
        for (int e = -64; e <= 64; ++e)
          one(v[i], e);
    });
  }
  add("unit-bases", [=] {
    for (i128 b : {0, 1, -1})
    {
      if (!fits<Rep>(b))
        continue;
      for (i128 e = 0; e <= 5000; ++e)
      {
        one(b, e);
        one(b, -e);
      }
      // the largest exponents there are; one call per case, for such an implementation
      for (int e : {INT_MIN, INT_MIN + 1, INT_MAX})
      {
        begin("base to the power of exponent; base, exponent =", b, e);
        ++states;
        ++traces;
        i128 const v = b == 0 ? 0 : b == 1 || e % 2 == 0 ? 1 : -1;
        is(ieme::pow<Rep, ieme::ops::fast>(Rep(b), e), e >= 0 ? v : 1, e >= 0 ? 1 : v, "fast", "pow");
      }
      // not too large for an implementation that multiplies that often
      for (i128 e : {32767, 32768, 32769, 65535, 65536, 65537, 1000001, 16777217})
      {
        one(b, e);
        one(b, -e);
      }
    }
  });
  return 0;
}();

} // namespace

MC_MAIN
