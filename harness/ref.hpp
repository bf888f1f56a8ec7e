// The reference model: rationals as pairs of 128-bit integers, written the
// boring way. Nothing here includes or imitates the code under test.
#ifndef REF_HPP
#define REF_HPP

#include "mc.hpp"
#include "num.hpp"

#include <limits>
#include <type_traits>

namespace ref {

using mc::i128;
using mc::i64;
using mc::u64;

inline i128 gcd(i128 a, i128 b)
{
  a = iabs(a);
  b = iabs(b);
  while (b)
  {
    if (a <= (i128)~0ull && b <= (i128)~0ull)
    { // the common case, on hardware division
      u64 x = (u64)a, y = (u64)b;
      while (y)
      {
        u64 t = x % y;
        x = y;
        y = t;
      }
      return x;
    }
    i128 t = a % b;
    a = b;
    b = t;
  }
  return a;
}

// A rational, or undefined (d == 0). When defined, d > 0.
struct Q {
  i128 n = 0, d = 1;
  bool defined() const { return d != 0; }
};

inline Q make(i128 n, i128 d)
{
  if (d == 0)
    return {0, 0};
  return d > 0 ? Q {n, d} : Q {-n, -d};
}

inline Q reduced(i128 n, i128 d)
{
  if (d == 0)
    return {0, 0};
  i128 g = gcd(n, d);
  if (d < 0)
    g = -g;
  return {n / g, d / g};
}

inline int sgn(i128 v) { return v < 0 ? -1 : v > 0; }

inline i128 floor_div(i128 n, i128 d) // d != 0
{
  i128 q = n / d, r = n % d;
  return (r != 0 && ((r < 0) != (d < 0))) ? q - 1 : q;
}

inline i128 ceil_div(i128 n, i128 d) { return -floor_div(-n, d); }

inline i128 trunc_div(i128 n, i128 d) { return n / d; }

// nearest, ties towards +infinity
inline i128 round_div(i128 n, i128 d)
{
  if (d < 0)
  {
    n = -n;
    d = -d;
  }
  return floor_div(2 * n + d, 2 * d);
}

// -1, 0, +1; both defined; parts up to 2^64 - 1, so that the products of
// magnitudes fit 128 unsigned bits
inline int compare(i128 an, i128 ad, i128 bn, i128 bd)
{
  Q a = make(an, ad), b = make(bn, bd);
  if (sgn(a.n) != sgn(b.n))
    return sgn(a.n) < sgn(b.n) ? -1 : 1;
  mc::u128 l = (mc::u128)iabs(a.n) * (mc::u128)b.d;
  mc::u128 r = (mc::u128)iabs(b.n) * (mc::u128)a.d;
  int c = l < r ? -1 : l > r;
  return a.n < 0 ? -c : c;
}

// Interesting magnitudes: small numbers, highly composite ones, primes, powers
// of two and ten and their neighbours, and the neighbourhood of max, max/2, ...
template <typename Rep>
std::vector<i128> magnitudes(int detail)
{
  std::vector<i128> v;
  auto add = [&](i128 x) {
    if (x >= 0 && x <= hi<Rep>())
      v.push_back(x);
  };
  int const small = detail >= 2 ? 40 : detail == 1 ? 16 : 6;
  for (int i = 0; i <= small; ++i)
    add(i);
  int const bits = std::numeric_limits<Rep>::digits;
  int const step = detail >= 2 ? 1 : detail == 1 ? 4 : 8;
  for (int k = 4; k < bits; k += step)
    for (int e = -1; e <= 1; ++e)
      add(((i128)1 << k) + e);
  i128 p = 10;
  for (int k = 1; k < 19; ++k, p *= 10)
    if (detail >= 2 || (detail == 1 && k % 3 == 1) || (k % 4 == 0))
      add(p);
  for (i128 x : {(i128)60, (i128)97, (i128)360, (i128)2310, (i128)5040,
                 (i128)30030, (i128)32749, (i128)46340, (i128)46341,
                 (i128)65521, (i128)720720, (i128)1000003, (i128)2147483629})
    if (detail >= 1 || x == 60 || x == 46340 || x == 46341)
      add(x);
  for (int k = 0; k <= (detail >= 1 ? 3 : 1); ++k)
    add(hi<Rep>() - k);
  for (int k = 2; k <= (detail >= 1 ? 4 : 2); ++k)
  {
    add(hi<Rep>() / k);
    if (detail >= 1)
      add(hi<Rep>() / k + 1);
  }
  std::sort(v.begin(), v.end());
  v.erase(std::unique(v.begin(), v.end()), v.end());
  return v;
}

// ... and their negatives, simplest first.
template <typename Rep>
std::vector<i128> pool(int detail)
{
  std::vector<i128> out;
  for (i128 m : magnitudes<Rep>(detail))
  {
    out.push_back(m);
    if (std::is_signed_v<Rep> && m != 0)
      out.push_back(-m);
  }
  return out;
}

// 0, 1, -1, 2, -2, ... n, -n (non-negative only for an unsigned Rep)
template <typename Rep>
std::vector<i128> box(int n)
{
  std::vector<i128> out {0};
  for (int i = 1; i <= n; ++i)
  {
    out.push_back(i);
    if (std::is_signed_v<Rep>)
      out.push_back(-i);
  }
  return out;
}

} // namespace ref

#endif
