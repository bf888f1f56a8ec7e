// C30: what is not constexpr, on machines of another byte order. The program is
// compiled for such a machine and its intermediate code interpreted as that machine
// would execute it (lib/environments.py); it can only say whether all is well
// (argc == 1), or which case is not: seven bits of its number per argument.
#include <ieme/floating_point.hpp>

namespace {

constexpr int widest = 30;
constexpr int per_mantissa = 2 * (2 * widest + 1);

// The case's value is sign * mantissa * 2^exponent, which is exact in both types.
template <typename Rep, typename Float>
bool right(int i)
{
  long long const mantissa = 2 * (i / per_mantissa) + 1;
  int const exponent = i % per_mantissa / 2 - widest;
  long long const sign = i % 2 ? -1 : 1;
  volatile Float hidden = Float(sign * mantissa);
  Float x = hidden;
  long long num = sign * mantissa, den = 1;
  for (int k = 0; k < exponent; ++k)
  {
    x = x * 2;
    num = num * 2;
  }
  for (int k = 0; k > exponent; --k)
  {
    x = x / 2;
    den = den * 2;
  }
  if (num != (long long)Rep(num) || den != (long long)Rep(den))
    return true; // outside the scope
  hidden = x;
  x = hidden;
  auto const f = ieme::to_fraction<Rep>(x);
  return f.num() == Rep(num) && f.den() == Rep(den);
}

template <typename Rep, typename Float>
bool special(int i)
{
  volatile Float zero = 0;
  volatile Float one = 1;
  switch (i)
  {
    case 0: return ieme::to_fraction<Rep>(zero * one) == ieme::fraction<Rep>(0);
    case 1: return ieme::to_fraction<Rep>(-zero * one) == ieme::fraction<Rep>(0);
    case 2: return !ieme::is_defined(ieme::to_fraction<Rep>(Float(one / zero)));
    case 3: return !ieme::is_defined(ieme::to_fraction<Rep>(Float(-one / zero)));
    case 4: return !ieme::is_defined(ieme::to_fraction<Rep>(Float(zero / zero)));
  }
  return true;
}

constexpr int regular = per_mantissa * MANTISSAS;

template <typename Rep, typename Float>
bool good(int i)
{
  return i < regular ? right<Rep, Float>(i) : special<Rep, Float>(i - regular);
}

bool all_good(int i)
{
  return good<long long, double>(i) && good<long long, float>(i) && good<int, double>(i) && good<int, float>(i);
}

} // namespace

int main(int argc, char**)
{
  int i = 0;
  while (i < regular + 5 && all_good(i))
    ++i;
  if (argc == 1)
    return i == regular + 5 ? 0 : 1;
  return i >> (7 * (argc - 2)) & 127;
}
