// C14: to_fraction of floats and doubles is exact; NaN and infinities give an
// undefined fraction. -DPART selects the representation.
#include "policies.hpp"

#include <cstring>

using namespace mc;
using namespace ref;

#include "rep.hpp"

namespace {

// the value as sign * m * 2^e with m odd (or zero), from the bits alone
struct Dyadic {
  bool special = false, negative = false;
  u64 m = 0;
  int e = 0;
};

template <int Mant, int Exp>
Dyadic decode(u64 bits)
{
  Dyadic r;
  u64 const mant = bits & ((1ull << Mant) - 1);
  int const ex = int((bits >> Mant) & ((1u << Exp) - 1));
  r.negative = (bits >> (Mant + Exp)) & 1;
  if (ex == (1 << Exp) - 1)
  {
    r.special = true;
    return r;
  }
  int const bias = (1 << (Exp - 1)) - 1;
  r.m = ex ? mant | (1ull << Mant) : mant;
  r.e = (ex ? ex : 1) - bias - Mant;
  if (r.m == 0)
  {
    r.e = 0;
    return r;
  }
  int const z = __builtin_ctzll(r.m);
  r.m >>= z;
  r.e += z;
  return r;
}

// -> true when representable, with the parts in lowest terms
bool parts(Dyadic const& v, i128& n, i128& d)
{
  if (v.e > 64 || v.e < -64)
    return false;
  n = v.m;
  d = 1;
  if (v.e >= 0)
  {
    if (v.e + (64 - __builtin_clzll(v.m | 1)) > 66)
      return false;
    n <<= v.e;
  }
  else
    d <<= -v.e;
  if (v.negative)
    n = -n;
  return all_fit<Rep>(n, d);
}

template <typename Float, typename Bits, int Mant, int Exp, typename Ops>
inline void one(u64 bits)
{
  Dyadic const v = decode<Mant, Exp>(bits);
  i128 n = 0, d = 0;
  if (!v.special && !parts(v, n, d))
    return;
  begin(sizeof(Float) == 4 ? "to_fraction(float with the bits" : "to_fraction(double with the bits", (i128)bits);
  ++states;
  ++traces;
  ++transitions;
  Bits const b = Bits(bits);
  Float x;
  std::memcpy(&x, &b, sizeof x);
  auto const r = ieme::to_fraction<Rep, Ops>(x);
  static_assert(std::is_same_v<decltype(r), ieme::fraction<Rep, Ops> const>);
  if (v.special ? i128(r.den()) == 0
                : i128(r.den()) != 0 && compare(r.num(), r.den(), n, d) == 0)
  {
    if (want_sample())
    {
      char t[64];
      std::snprintf(t, sizeof t, "%.17g -> ", double(x));
      sample(t + pol::show(r));
    }
    return;
  }
  char t[64];
  std::snprintf(t, sizeof t, "%a", double(x));
  fail(std::string(pol::name<Ops>()) + " " + pol::rep_name<Rep>() + ": to_fraction of " + t
       + " gave " + pol::show(r) + ", expected "
       + (v.special ? "an undefined fraction" : str(n) + "/" + str(d)));
}

// every float (double) with these mantissas, all signs and exponents
template <typename Float, typename Bits, int Mant, int Exp, typename Ops>
void sweep(std::vector<u64> const& mants, std::size_t slice)
{
  for (int ex = 0; ex < (1 << Exp); ++ex)
  {
    // exponents far from any representable value need no long look
    int const unb = ex - ((1 << (Exp - 1)) - 1);
    if (ex != 0 && ex != (1 << Exp) - 1 && (unb > 70 || unb < -70))
      continue;
    for (u64 sign = 0; sign < 2; ++sign)
      for (std::size_t i = slice; i < mants.size(); i += 8)
        one<Float, Bits, Mant, Exp, Ops>((sign << (Mant + Exp)) | ((u64)ex << Mant)
                                         | mants[i]);
  }
}

// structured mantissas: all with at most three ones or zeros, all runs, the
// small and the large ones, and every value in the top `top` bits
std::vector<u64> mantissas(int bits, int top, int low)
{
  std::vector<u64> v;
  u64 const all = (1ull << bits) - 1;
  auto add = [&](u64 x) {
    v.push_back(x & all);
    v.push_back(~x & all);
  };
  add(0);
  for (int i = 0; i < bits; ++i)
  {
    add(1ull << i);
    for (int j = 0; j < i; ++j)
    {
      add((1ull << i) | (1ull << j));
      add((1ull << i) - (1ull << j)); // a run of ones
      if (bits <= 23)
        for (int k = 0; k < j; ++k)
          add((1ull << i) | (1ull << j) | (1ull << k));
    }
  }
  for (u64 i = 0; i < (1ull << top); ++i)
    v.push_back(i << (bits - top));
  for (u64 i = 0; i < (1ull << low); ++i)
    add(i);
  std::sort(v.begin(), v.end());
  v.erase(std::unique(v.begin(), v.end()), v.end());
  return v;
}

[[maybe_unused]] int const registered = [] {
  bool const big = thorough();
  for (std::size_t s = 0; s < 8; ++s)
  {
    auto const suffix = "/" + std::to_string(s);
    add("float-structured" + suffix, [=] {
      auto const m = mantissas(23, big ? 16 : 12, big ? 14 : 10);
      pol::each_policy([&](auto t) {
        sweep<float, std::uint32_t, 23, 8, typename decltype(t)::type>(m, s);
      });
    });
    add("double-structured" + suffix, [=] {
      auto const m = mantissas(52, big ? 16 : 11, big ? 14 : 10);
      pol::each_policy([&](auto t) {
        sweep<double, std::uint64_t, 52, 11, typename decltype(t)::type>(m, s);
      });
    });
    if (big) // every float there is, under the default policy
      add("float-all" + suffix, [=] {
        for (u64 b = s; b < (1ull << 32); b += 8)
          one<float, std::uint32_t, 23, 8, ieme::ops::defaults>(b);
      });
    else // every float whose lower mantissa bits are zero or the exponent special
      add("float-top" + suffix, [=] {
        for (u64 b = s; b < (1ull << 24); b += 8)
          one<float, std::uint32_t, 23, 8, ieme::ops::defaults>(b << 8);
      });
  }
  // integers of the representation as doubles and floats
  add("integers", [=] {
    int const run = big ? 2000000 : 100000;
    for (int i = 0; i < run; ++i)
      for (int s : {1, -1})
      {
        double const x = s * double(i);
        float const y = float(x);
        u64 b;
        std::uint32_t c;
        std::memcpy(&b, &x, 8);
        std::memcpy(&c, &y, 4);
        one<double, std::uint64_t, 52, 11, ieme::ops::defaults>(b);
        one<float, std::uint32_t, 23, 8, ieme::ops::defaults>(c);
      }
  });
  return 0;
}();

} // namespace

MC_MAIN
