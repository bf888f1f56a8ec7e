// Every operation on a tuple of operands, its answers in a row; usable in constant
// expressions. The conditions keep undefined behaviour out: what a policy may not
// be asked is not asked. Rep is the representation.
#ifndef ROWS_HPP
#define ROWS_HPP

#include "literal.hpp"
#include "num.hpp"

#ifdef NARROW // <chrono> is for machines with 32 bits or more
#  include <ieme/floating_point.hpp>
#  include <ieme/fraction.hpp>
#  include <ieme/fraction_literals.hpp>
#  include <ieme/fraction_math.hpp>
#  include <ieme/fraction_queries.hpp>
#  include <ieme/limits.hpp>
#  include <ieme/mixed_number.hpp>
#  include <ieme/ops.hpp>
#  include <ieme/raw_fraction.hpp>
#  include <ieme/raw_fraction_math.hpp>
#  include <ieme/raw_fraction_queries.hpp>
#else
#  include <ieme/ieme.hpp>

#  include <chrono>
#endif

#include <array>
#include <bit>
#include <concepts>
#include <string_view>

using namespace mc;
using namespace ref;

#include "rep.hpp"

namespace {

namespace ops = ieme::ops;

template <typename Ops>
constexpr bool is_fast = std::is_same_v<Ops, ops::fast> || std::is_same_v<Ops, ops::fast_reduced_i>
                         || std::is_same_v<Ops, ops::fast_reduced_o> || std::is_same_v<Ops, ops::fast_reduced_io>;

struct Row {
  u64 v[48] = {};
  int n = 0;
  template <std::integral I>
  constexpr void put(I x)
  {
    v[n++] = u64(x);
#ifdef ROW_HOOK
    if (!std::is_constant_evaluated())
      ROW_HOOK();
#endif
  }
  template <typename R, typename O>
  constexpr void put(ieme::fraction<R, O> const& f)
  {
    put(u64(f.num()));
    put(u64(f.den()));
  }
  template <typename R>
  constexpr void put(ieme::raw_fraction<R> const& f)
  {
    put(u64(f.numerator));
    put(u64(f.denominator));
  }
  template <typename W, typename F, typename O>
  constexpr void put(ieme::mixed_number<W, F, O> const& m)
  {
    put(u64(m.whole()));
    put(m.fractional());
  }
#ifndef NARROW
  constexpr void put(double x)
  {
    put(std::bit_cast<u64>(x));
  }
#endif
};

struct Tuple {
  Rep a = 0, b = 0, c = 0, d = 0;
};

constexpr Rep hi_ = Rep(hi<Rep>());

constexpr bool small(i128 v)
{
#ifdef NARROW
  return v < 90 && v > -90;
#else
  return v < 1000 && v > -1000;
#endif
}

// ------------------------------------------------------- pairs of fractions

template <typename F>
constexpr void assign(Row& r, F x, F const& y, int op)
{
  switch (op)
  {
    case 0: x += y; break;
    case 1: x -= y; break;
    case 2: x *= y; break;
    case 3: x /= y; break;
    default: x %= y;
  }
  r.put(x);
}

template <typename Ops>
constexpr Row binary(Tuple t)
{
  Row r;
  using F = ieme::fraction<Rep, Ops>;
  i128 const a = t.a, b = t.b, c = t.c, d = t.d;
  F const x {t.a, t.b}, y {t.c, t.d};
  bool const undefined = (b == 0 || d == 0) && small(a) && small(b) && small(c) && small(d);
  bool const defined = b != 0 && d != 0 && all_fit<Rep>(a, b, c, d);
  i128 const ad = mul<Rep>(a, d), cb = mul<Rep>(c, b), bd = mul<Rep>(b, d), ac = mul<Rep>(a, c);
  bool const cross = defined && all_fit<Rep>(ad, cb, bd);
  bool const positive = std::is_signed_v<Rep>;
  if (undefined || (cross && fits<Rep>(ad + cb)))
  {
    r.put(x + y);
    assign(r, x, y, 0);
    if (d == 1)
      r.put(x + t.c);
    if (b == 1)
      r.put(t.a + y);
  }
  if ((undefined && positive) || (cross && fits<Rep>(ad - cb)))
  {
    r.put(x - y);
    assign(r, x, y, 1);
    if (d == 1)
      r.put(x - t.c);
    if (b == 1)
      r.put(t.a - y);
  }
  if (undefined || (defined && all_fit<Rep>(ac, bd)))
  {
    r.put(x * y);
    assign(r, x, y, 2);
    if (d == 1)
      r.put(x * t.c);
    if (b == 1)
      r.put(t.a * y);
  }
  if (undefined || (defined && all_fit<Rep>(ad, cb)))
  {
    r.put(x / y);
    assign(r, x, y, 3);
    if (d == 1)
      r.put(x / t.c);
    if (b == 1)
      r.put(t.a / y);
  }
  if (undefined || cross)
  {
    r.put(x % y);
    assign(r, x, y, 4);
    if (d == 1)
      r.put(x % t.c);
    if (b == 1)
      r.put(t.a % y);
  }
  if (undefined || (is_fast<Ops> ? cross : defined))
  {
    r.put((x == y) | (x != y) << 1 | (x < y) << 2 | (x <= y) << 3 | (x > y) << 4 | (x >= y) << 5);
    if (d == 1)
      r.put((x == t.c) | (x != t.c) << 1 | (x < t.c) << 2 | (x <= t.c) << 3 | (x > t.c) << 4 | (x >= t.c) << 5);
    if (b == 1)
      r.put((t.a == y) | (t.a != y) << 1 | (t.a < y) << 2 | (t.a <= y) << 3 | (t.a > y) << 4 | (t.a >= y) << 5);
  }
  return r;
}

#ifndef BOX
#  define BOX (std::is_signed_v<Rep> ? 2 : 4)
#endif
constexpr int box_size = BOX;

// all of a small box, then boundary values in two of the four places
constexpr auto tuples()
{
  constexpr int w = std::is_signed_v<Rep> ? 2 * box_size + 1 : box_size + 1;
#ifdef NARROW // whose objects are small
  constexpr i128 edge[] {0, 1, 6, 181, 16384, 32767};
#else
  constexpr i128 edge[] {0, 1, 2, 6, 46340, 46341, 65536, i128(hi_) / 3 + 1, i128(hi_) / 2, i128(hi_) / 2 + 1,
                         i128(hi_) - 1, i128(hi_)};
#endif
  constexpr i128 few[] {1, 2, 3};
  constexpr int e = sizeof edge / sizeof *edge, f = 3, s = std::is_signed_v<Rep> ? 4 : 1;
  std::array<Tuple, w * w * w * w + 2 * e * f * f * e * s> out {};
  std::size_t k = 0;
  int const low = std::is_signed_v<Rep> ? -box_size : 0;
  for (int a = low; a <= box_size; ++a)
    for (int b = low; b <= box_size; ++b)
      for (int c = low; c <= box_size; ++c)
        for (int d = low; d <= box_size; ++d)
          out[k++] = {Rep(a), Rep(b), Rep(c), Rep(d)};
  for (i128 p : edge)
    for (i128 q : edge)
      for (i128 m : few)
        for (i128 n : few)
          for (int g = 0; g < s; ++g)
          {
            i128 const x = g & 1 ? -p : p, y = g & 2 ? -q : q;
            out[k++] = {Rep(x), Rep(m), Rep(y), Rep(n)};
            out[k++] = {Rep(x), Rep(m), Rep(n), Rep(y)};
          }
  return out;
}

// ---------------------------------------------------------- single fractions

template <typename Ops>
constexpr Row single(Tuple t)
{
  using namespace ieme;
  Row r;
  using F = fraction<Rep, Ops>;
  F const x {t.a, t.b};
  raw_fraction<Rep> const raw {t.a, t.b};
  i128 const a = t.a, b = t.b;
  r.put(is_defined(x) | is_undefined(x) << 1 | is_positive(x) << 2 | is_non_negative(x) << 3 | is_zero(x) << 4
        | is_non_positive(x) << 5 | is_negative(x) << 6 | is_integer(x) << 7 | is_unit_fraction(x) << 8
        | is_reduced(x) << 9 | is_reduced_ignore_signs(x) << 10 | is_proper(x) << 11 | is_improper(x) << 12
        | are_identical(x, x) << 13 | are_different(x, x) << 14);
  r.put(is_defined(raw) | is_undefined(raw) << 1 | is_positive(raw) << 2 | is_zero(raw) << 4 | is_negative(raw) << 6
        | is_integer(raw) << 7 | is_reduced(raw) << 9 | is_proper(raw) << 11 | are_identical(raw, raw) << 13);
  F m;
  m.num() = x.num();
  m.den() = x.den();
  m.numerator() = m.raw().numerator;
  m.denominator() = m.raw().denominator;
  r.put(m);
  r.put(fraction<long long, Ops>(x));
  r.put(F(raw));
  r.put(F(x.raw()));
  r.put(reciprocal(x));
  if (all_fit<Rep>(a, b))
  {
    r.put(reduce(x));
    r.put(reduce(x, reduce_mode::ignore_signs));
    r.put(reduce_normalize_signs(x));
    r.put(reduce_ignore_signs(x));
    r.put(normalize_signs(x));
    r.put(reduce(raw));
    r.put(+x);
    if (std::is_signed_v<Rep>)
      r.put(-x);
    r.put(abs(x));
    if (b != 0)
    {
      r.put(u64(trunc(x)));
      r.put(u64(ceil(x)));
      r.put(u64(floor(x)));
      r.put(u64(round(x)));
      r.put(u64(to_whole(x)));
      r.put(u64(to_whole(x, round_mode::floor)));
#ifndef NARROW // where double may have 32 bits
      r.put(to_double(x));
      r.put(double(to_float(x)));
#  ifdef PORTABLE // long double is as wide as the machine makes it
      if (small(a) && (b & (b - 1)) == 0)
#  endif
        r.put(double(to_long_double(x)));
#endif
    }
  }
  return r;
}

template <typename Ops>
constexpr Row derived(Tuple t)
{
  using namespace ieme;
  Row r;
  using F = fraction<Rep, Ops>;
  using M = mixed_number<Rep, Rep, Ops>;
  F const x {t.a, t.b};
  i128 const a = t.a, b = t.b, k = t.c;
  if (!all_fit<Rep>(a, b))
    return r;
  if (b != 0 && k != 0 && fits<Rep>(mul<Rep>(a, k)))
  {
    r.put(redenominate(x, t.c));
    r.put(trunc_redenominate(x, t.c));
    r.put(ceil_redenominate(x, t.c));
    r.put(floor_redenominate(x, t.c));
    r.put(round_redenominate(x, t.c));
    r.put(redenominate(x, t.c, round_mode::ceil));
  }
  // mixed numbers, well inside the representation
  if (a < i128(hi_) / 16 && a > -i128(hi_) / 16 && small(b) && small(k))
  {
    if (std::is_unsigned_v<Rep> || b != 0)
    {
      M const m(x);
      r.put(m);
      r.put(m.as_fraction());
      r.put(fraction<Rep, Ops>(m));
    }
    M const n(t.c, F {Rep(k), Rep(7)});
    r.put(n);
    r.put(n.as_fraction());
    r.put(+n);
    if (std::is_signed_v<Rep>)
      r.put(-n);
    if (small(a))
    {
      r.put(n + M(x));
      r.put(n + x);
      r.put(x + n);
      r.put(n + t.c);
      r.put(t.c + n);
    }
  }
  return r;
}

constexpr auto singles()
{
  constexpr int n = 5;
  constexpr int w = std::is_signed_v<Rep> ? 2 * n + 1 : n + 1;
#ifdef NARROW
  constexpr i128 edge[] {0, 1, 2, 3, 6, 255, 181, 10923, 16383, 16384, 32767};
  constexpr Rep ks[] {1, 7, -1, 100};
#else
  constexpr i128 edge[] {0, 1, 2, 3, 6, 255, 46341, 65536, i128(hi_) / 3 + 1, i128(hi_) / 2, i128(hi_) / 2 + 1,
                         i128(hi_) - 1, i128(hi_)};
  constexpr Rep ks[] {1, 2, 7, Rep(-1), Rep(-6), Rep(100)};
#endif
  constexpr int e = sizeof edge / sizeof *edge, s = std::is_signed_v<Rep> ? 4 : 1;
  std::array<Tuple, (w * w + e * e * s + 2 * e) * sizeof ks / sizeof *ks> out {};
  std::size_t i = 0;
  int const low = std::is_signed_v<Rep> ? -n : 0;
  for (Rep k : ks)
  {
    if (std::is_unsigned_v<Rep> && k > 1000)
      k = 12;
    for (int a = low; a <= n; ++a)
      for (int b = low; b <= n; ++b)
        out[i++] = {Rep(a), Rep(b), k, 0};
    for (i128 p : edge)
      for (i128 q : edge)
        for (int g = 0; g < s; ++g)
          out[i++] = {Rep(g & 1 ? -p : p), Rep(g & 2 ? -q : q), k, 0};
    for (i128 p : edge)
    { // the lowest value
      out[i++] = {Rep(lowest<Rep>()), Rep(p), k, 0};
      out[i++] = {Rep(p), Rep(lowest<Rep>()), k, 0};
    }
  }
  return out;
}

template <typename Ops>
constexpr Row powers(Tuple t)
{
  Row r;
  int const e = int(t.b) - 70 * int(t.d);
  i128 v = 1;
  for (int i = 0; i < (e < 0 ? -e : e) && v != far_away; ++i)
  {
    v = mul<Rep>(v, t.a);
    if (!fits<Rep>(v))
      return r;
  }
  r.put(ieme::pow<Rep, Ops>(t.a, e));
  if (t.a == 2)
    r.put(ieme::pow2<Rep, Ops>(e));
  return r;
}

constexpr auto power_cases()
{
#ifdef NARROW
  constexpr i128 bases[] {0, 1, 2, 3, 5, 6, 7, 10, 16, 181, 32767};
#else
  constexpr i128 bases[] {0, 1, 2, 3, 5, 6, 7, 10, 16, 215, 1290, 46340, 65535, i128(hi_), i128(hi_) - 1};
#endif
  constexpr int n = sizeof bases / sizeof *bases;
  std::array<Tuple, n * 2 * 141> out {};
  std::size_t k = 0;
  for (i128 b : bases)
    for (int g = 0; g < 2; ++g)
      for (int e = -70; e <= 70; ++e)
        out[k++] = {Rep(g && std::is_signed_v<Rep> ? -b : b), Rep(e < 0 ? e + 70 : e), 0, Rep(e < 0)};
  return out;
}

// ------------------------------------------------------------------- strings

struct Text {
  char s[24] = {};
  int n = 0;
};

constexpr Row parsed(Text t)
{
  Row r;
  lit::Literal const l = lit::parse(t.s, std::size_t(t.n));
  bool const known = !l.ok || lit::value<Rep>(l).known;
  if (!known)
    return r;
  // a buffer of exactly this size: nothing may be read past it
  char* const exact = new char[std::size_t(t.n ? t.n : 1)];
  for (int i = 0; i < t.n; ++i)
    exact[i] = t.s[i];
  std::string_view const view(exact, std::size_t(t.n));
  r.put(ieme::floating_point_string_to_fraction<Rep>(view));
  r.put(ieme::floating_point_string_to_fraction<Rep, ops::fast>(view));
  delete[] exact;
#ifndef NARROW
  if (l.ok && lit::value<std::intmax_t>(l).known)
    r.put(ieme::literals::operator""_dec(t.s));
#endif
  return r;
}

constexpr std::string_view alphabet = "01aE.px'-";

constexpr auto strings_up_to_4()
{
  constexpr int w = 9;
#ifdef NARROW
  constexpr int length = 3;
  std::array<Text, w + w * w + w * w * w + 1> out {};
#else
  constexpr int length = 4;
  std::array<Text, w + w * w + w * w * w + w * w * w * w + 1> out {};
#endif
  std::size_t k = 1; // the first is empty
  int total = 1;
  for (int n = 1; n <= length; ++n)
  {
    total *= w;
    for (int i = 0; i < total; ++i)
    {
      int v = i;
      for (int j = 0; j < n; ++j, v /= w)
        out[k].s[j] = alphabet[std::size_t(v % w)];
      out[k++].n = n;
    }
  }
  return out;
}

constexpr auto longer_strings()
{
  constexpr std::string_view whole[] {"", "0", "9", "2147483647", "1'000", "0x", "0xA", "0x7fff"};
  constexpr std::string_view rest[] {".", ".5", ".25", ".0'5", ".F", ".8", ".99999"};
  constexpr std::string_view exps[] {"", "e1", "E-3", "e+2", "p4", "P-10", "e", "p", "e-", "e0'1", "e'1", "p30", "e9", "e18"};
  std::array<Text, 8 * 7 * 14> out {};
  std::size_t k = 0;
  for (auto a : whole)
    for (auto b : rest)
      for (auto c : exps)
      {
        for (auto part : {a, b, c})
          for (char ch : part)
            out[k].s[out[k].n++] = ch;
        ++k;
      }
  return out;
}

// ----------------------------------------------- durations, limits, literals

template <typename Ops>
constexpr Row timed(Tuple t)
{
  using namespace ieme;
  Row r;
  if (t.b == 0 || t.d == 0 || !small(t.a) || !small(t.b) || !small(t.c) || !small(t.d))
    return r;
  if (std::is_unsigned_v<Rep> && t.a < t.c)
    return r;
  using F = fraction<Rep, Ops>;
  F const x {t.a, t.b}, y {t.c, t.d};
#ifndef NARROW
  using MS = std::chrono::duration<F, std::milli>;
  using S = std::chrono::duration<F>;
  r.put((MS(x) + MS(y)).count());
  r.put(MS(S(x)).count());
  r.put(S(MS(y)).count());
  r.put((S(x) + MS(y)).count());
  r.put((S(x) * t.c).count());
  r.put(S(x) < MS(y));
  r.put(chrono::to_fractional(std::chrono::duration<Rep, std::milli>(t.a)).count());
  using TP = std::chrono::time_point<std::chrono::system_clock, std::chrono::duration<Rep, std::milli>>;
  r.put(chrono::to_fractional(TP(std::chrono::duration<Rep, std::milli>(t.a))).time_since_epoch().count());
#endif
  if (!is_fast<Ops>)
    r.put(limits<F>::max() >= x);
  if (t.d > 0)
  {
    auto const den = literals::operator""_fr((unsigned long long)t.d);
    r.put(t.a / den);
    r.put(t.a / +den);
    if (std::is_signed_v<Rep>)
      r.put(t.a / -den);
    r.put(fraction<Rep>(t.a, t.b) / den);
  }
  r.put(F(std::ratio<3, 7> {}));
  r.put(x + F(y));
  r.put(fraction<long long, ops::fast>(x));
  return r;
}

// The bounds, a few at a time.
constexpr auto bound_cases()
{
  std::array<Tuple, 4> out {};
  for (int i = 0; i < 4; ++i)
    out[i].a = Rep(i);
  return out;
}

template <typename T>
constexpr void bounds_of(Row& r)
{
  r.put(ieme::limits<T>::max());
  r.put(ieme::limits<T>::min());
  r.put(ieme::limits<T>::smallest());
  r.put(ieme::limits<T>::undefined());
}

template <typename T>
constexpr void numeric_bounds_of(Row& r)
{
  using N = std::numeric_limits<T>;
  r.put(N::max());
  r.put(N::min());
  r.put(N::lowest());
  r.put(N::epsilon());
  r.put(N::round_error());
  r.put(N::infinity());
  r.put(N::quiet_NaN());
  r.put(N::signaling_NaN());
  r.put(N::denorm_min());
}

template <typename Ops>
constexpr Row bounds(Tuple t)
{
  Row r;
  using F = ieme::fraction<Rep, Ops>;
  using M = ieme::mixed_number<Rep, Rep, Ops>;
  switch (int(t.a))
  {
    case 0: bounds_of<F>(r); break;
    case 1: bounds_of<M>(r); break;
    case 2: numeric_bounds_of<F>(r); break;
    default: numeric_bounds_of<M>(r);
  }
  return r;
}

} // namespace

#endif
