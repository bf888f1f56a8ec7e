// What the C++ grammar says about a floating-point literal. Nothing here includes
// or imitates the code under test.
#ifndef LITERAL_HPP
#define LITERAL_HPP

#include "num.hpp"

#include <string>
#include <vector>

namespace lit {

using mc::i128;
using namespace ref;

// The grammar, by recursive descent on [lex.fcon], without the sign and suffix.
struct Literal {
  bool ok = false;
  int base = 10;
  i128 digits = 0;      // all digits as one integer (saturated)
  int fraction_digits = 0;
  i128 exponent = 0;    // saturated
};

constexpr i128 huge = far_away;

constexpr int digit(char c, int base)
{
  int v = c >= '0' && c <= '9'   ? c - '0'
          : c >= 'a' && c <= 'f' ? c - 'a' + 10
          : c >= 'A' && c <= 'F' ? c - 'A' + 10
                                 : 99;
  return v < base ? v : -1;
}

// digit ('? digit)*; leaves i after it; how many digits, 0 when there is none
constexpr int sequence(char const* s, std::size_t n, std::size_t& i, int base, i128& value)
{
  int count = 0;
  if (i >= n || digit(s[i], base) < 0)
    return 0;
  for (;;)
  {
    value = value > huge ? huge : value * base + digit(s[i], base);
    ++count;
    ++i;
    if (i < n && digit(s[i], base) >= 0)
      continue;
    if (i + 1 < n && s[i] == '\'' && digit(s[i + 1], base) >= 0)
    {
      ++i;
      continue;
    }
    return count;
  }
}

constexpr Literal parse(char const* s, std::size_t n)
{
  Literal r;
  std::size_t i = 0;
  if (n >= 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X'))
  {
    r.base = 16;
    i = 2;
  }
  int const whole = sequence(s, n, i, r.base, r.digits);
  bool point = false;
  if (i < n && s[i] == '.')
  {
    point = true;
    ++i;
    r.fraction_digits = sequence(s, n, i, r.base, r.digits);
  }
  if (whole + r.fraction_digits == 0)
    return r;
  bool exponent = false;
  if (i < n && (r.base == 10 ? s[i] == 'e' || s[i] == 'E' : s[i] == 'p' || s[i] == 'P'))
  {
    exponent = true;
    ++i;
    bool negative = false;
    if (i < n && (s[i] == '+' || s[i] == '-'))
      negative = s[i++] == '-';
    if (sequence(s, n, i, 10, r.exponent) == 0)
      return r;
    if (negative)
      r.exponent = -r.exponent;
  }
  if (i != n)
    return r;
  r.ok = r.base == 16 ? exponent : point || exponent;
  return r;
}

// v * base^k, or huge
constexpr i128 scaled(i128 v, i128 base, i128 k)
{
  for (; k > 0 && v != 0 && v < huge; --k)
    v *= base;
  return v;
}

// The value of a literal, when every step towards it is representable.
struct Value {
  bool known = false;
  i128 n = 0, d = 1;
};

template <typename Rep>
constexpr Value value(Literal const& l)
{
  i128 const eb = l.base == 10 ? 10 : 2;
  i128 const k = l.exponent < 0 ? -l.exponent : l.exponent;
  if (k > 2000000000)
    return {};
  i128 const den = scaled(1, l.base, l.fraction_digits);
  i128 const power = scaled(1, eb, k);
  if (!all_fit<Rep>(l.digits, den, power))
    return {};
  i128 const num = l.exponent < 0 ? l.digits : mul<Rep>(l.digits, power);
  i128 const d = l.exponent < 0 ? mul<Rep>(den, power) : den;
  if (!all_fit<Rep>(num, d))
    return {};
  return {true, num, d};
}

// every string over the alphabet of this length, with the first character fixed
template <typename Fn>
void strings(std::string const& alphabet, int length, std::size_t first, char* text, Fn fn)
{
  std::vector<std::size_t> idx(length, 0);
  idx[0] = first;
  for (int i = 0; i < length; ++i)
    text[i] = alphabet[idx[i]];
  for (;;)
  {
    fn(text, std::size_t(length));
    int p = length - 1;
    while (p > 0 && ++idx[p] == alphabet.size())
    {
      idx[p] = 0;
      text[p] = alphabet[0];
      --p;
    }
    if (p == 0)
      return;
    text[p] = alphabet[idx[p]];
  }
}

} // namespace lit

#endif
