// Wide integers and what fits a representation: all that the harnesses which are
// also compiled for other machines need from the reference model.
#ifndef NUM_HPP
#define NUM_HPP

#include <cstddef>
#include <cstdint>
#include <limits>
#include <type_traits>

namespace mc {

#ifdef NARROW // a machine of 16 bits, asked about its int
using i128 = long long;
using u128 = unsigned long long;
#elif defined __SIZEOF_INT128__
using i128 = __int128;
using u128 = unsigned __int128;
#else
using i128 = _BitInt(128);
using u128 = unsigned _BitInt(128);
#endif
using i64 = std::int64_t;
using u64 = std::uint64_t;

} // namespace mc

namespace ref {

using mc::i128;
using mc::i64;
using mc::u64;

// Beyond every representation.
constexpr i128 far_away = (i128)1 << (sizeof(i128) * 8 - 28);

constexpr i128 iabs(i128 v) { return v < 0 ? -v : v; }

// A product, saturated to something that fits no representation.
template <typename Rep>
constexpr i128 mul(i128 a, i128 b)
{
  if constexpr (sizeof(Rep) <= 4)
    return a * b;
  else
  {
    i128 r = 0;
    bool const over = __builtin_mul_overflow(a, b, &r);
    return over || r > far_away || r < -far_away ? far_away : r;
  }
}

template <typename Rep>
constexpr i128 hi()
{
#ifdef NARROW // machines of 16 bits and machines of 32 asked the same
  return 32767;
#else
  return std::numeric_limits<Rep>::max();
#endif
}

template <typename Rep>
constexpr i128 lowest()
{
#ifdef NARROW
  return std::is_signed_v<Rep> ? -32768 : 0;
#else
  return std::numeric_limits<Rep>::min();
#endif
}

// Representable, and so is its negation when Rep has negatives.
template <typename Rep>
constexpr bool fits(i128 v)
{
  return v <= hi<Rep>() && v >= (std::is_signed_v<Rep> ? -hi<Rep>() : 0);
}

template <typename Rep, typename... Ts>
constexpr bool all_fit(Ts... vs)
{
  return (fits<Rep>(vs) && ...);
}

} // namespace ref

#endif
