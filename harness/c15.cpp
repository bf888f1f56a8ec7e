// C15: to_float, to_double and to_long_double round correctly. -DPART selects
// the representation.
#include "domains.hpp"
#include "policies.hpp"

#include <cmath>

using namespace mc;
using namespace ref;

#include "rep.hpp"

namespace {

// n / d > 0 rounded to nearest even with p bits: m * 2^e, by long division.
struct Rounded {
  u64 m;
  int e;
};

Rounded divide(u64 n, u64 d, int p)
{
  // normalise so that 1 <= n/d < 2, both as 128-bit numbers
  u128 N = n, D = d;
  int e = 0;
  while (N < D)
  {
    N <<= 1;
    --e;
  }
  while (N >= (D << 1))
  {
    D <<= 1;
    ++e;
  }
  u128 q = 0;
  for (int i = 0; i < p; ++i)
  {
    q <<= 1;
    if (N >= D)
    {
      q |= 1;
      N -= D;
    }
    N <<= 1;
  }
  // the remainder, doubled: compare with D for the rounding
  bool const up = N > D || (N == D && (q & 1));
  q += up;
  e -= p - 1;
  if (q >> p)
  {
    q >>= 1;
    ++e;
  }
  return {(u64)q, e};
}

template <typename Float>
constexpr int precision = std::numeric_limits<Float>::digits;

// exactly representable in Float
template <typename Float>
bool exact(i128 v)
{
  u64 m = (u64)iabs(v);
  if (m)
    m >>= __builtin_ctzll(m);
  return precision<Float> >= 64 || (m >> (precision<Float> % 64)) == 0;
}

template <typename Float, typename F, typename Call>
inline void check(F const& f, i128 n, i128 d, Call call, char const* name)
{
  ++transitions;
  Float const r = call(f);
  static_assert(std::is_same_v<decltype(call(f)), Float>);
  bool ok;
  Float expected = 0;
  if (n == 0)
    ok = r == 0;
  else
  {
    Rounded const q = divide((u64)iabs(n), (u64)iabs(d), precision<Float>);
    expected = std::ldexp((Float)q.m, q.e);
    if (n < 0)
      expected = -expected;
    if (exact<Float>(n) && exact<Float>(d))
      ok = r == expected;
    else
    {
      Float const ulp = std::ldexp((Float)1, q.e);
      ok = r >= expected - 3 * ulp && r <= expected + 3 * ulp;
    }
  }
  if (ok)
    return;
  char t[160];
  std::snprintf(t, sizeof t, "%s gave %La, correctly rounded %La", name, (long double)r,
                (long double)expected);
  fail(std::string(pol::rep_name<Rep>()) + " " + pol::show(f) + ": " + t);
}

// to_fraction of what was exactly represented, and back
template <typename Float, typename Ops>
inline void round_trip(Float x)
{
  auto const f = ieme::to_fraction<Rep, Ops>(x);
  ++transitions;
  Float back;
  if constexpr (sizeof(Float) == 4)
    back = to_float(f);
  else
    back = to_double(f);
  if (back == x)
    return;
  char t[160];
  std::snprintf(t, sizeof t, "%a became %s and then %a", (double)x, pol::show(f).c_str(),
                (double)back);
  fail(std::string(pol::rep_name<Rep>()) + " round trip: " + t);
}

void one(i128 a, i128 b)
{
  if (!all_fit<Rep>(a, b))
    return;
  begin("to_float/to_double/to_long_double of a/b =", a, b);
  ++states;
  Q const q = reduced(a, b);
  pol::each_policy([&](auto t) {
    using Ops = typename decltype(t)::type;
    if constexpr (std::is_same_v<Ops, ieme::ops::defaults> || std::is_same_v<Ops, ieme::ops::fast>)
    {
      using F = ieme::fraction<Rep, Ops>;
      ++traces;
      F const f {Rep(a), Rep(b)};
      if (b == 0)
      {
        transitions += 3;
        if (to_float(f) == to_float(f) || to_double(f) == to_double(f)
            || to_long_double(f) == to_long_double(f))
          fail("an undefined fraction did not become a NaN: " + pol::show(f));
        return;
      }
      check<float>(f, q.n, q.d, [](F const& v) { return to_float(v); }, "to_float");
      check<double>(f, q.n, q.d, [](F const& v) { return to_double(v); }, "to_double");
      check<long double>(f, q.n, q.d, [](F const& v) { return to_long_double(v); },
                         "to_long_double");
      if ((q.d & (q.d - 1)) == 0) // dyadic
      {
        if (exact<double>(q.n))
          round_trip<double, Ops>(to_double(f));
        if (exact<float>(q.n))
          round_trip<float, Ops>(to_float(f));
      }
      if (want_sample())
      {
        char s[64];
        std::snprintf(s, sizeof s, " -> %.17g", to_double(f));
        sample(pol::show(f) + s);
      }
    }
  });
}

[[maybe_unused]] int const registered = [] {
  bool const big = thorough();
  dom::singles<Rep>(big ? 1200 : 180, 2, big ? 200000 : 12000, one);
  return 0;
}();

} // namespace

MC_MAIN
