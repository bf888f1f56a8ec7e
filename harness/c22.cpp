// C22: the _fr and _dec literals denote the fraction written.
// -DPART selects the numerator's type (and cuts the strings for _dec).
#include "literal.hpp"
#include "policies.hpp"

#include <cstring>

using namespace mc;
using namespace ref;
using namespace ieme::literals;

#include "rep.hpp"

namespace {

template <typename F>
void is(F const& got, i128 n, i128 d, char const* what)
{
  ++transitions;
  if (i128(got.num()) != n || i128(got.den()) != d)
    fail(std::string(pol::rep_name<Rep>()) + " " + what + ": got " + pol::show(got) + ", written " + str(n) + "/"
         + str(d));
}

template <typename F>
void worth(F const& got, i128 n, i128 d, char const* what)
{
  ++transitions;
  if (d == 0 ? got.den() != 0
             : got.den() == 0 || compare(got.num(), got.den(), n, d) != 0)
    fail(std::string(pol::rep_name<Rep>()) + " " + what + ": got " + pol::show(got) + ", value " + str(n) + "/"
         + str(d));
}

constexpr i128 llmax = std::numeric_limits<long long>::max();

// n/d_fr with every placement of signs; n fits Rep, d >= 0
template <typename Literal>
void with_signs(Rep n, Literal literal, i128 d)
{
  ++traces;
  static_assert(std::is_same_v<decltype(n / literal), ieme::fraction<Rep, ieme::ops::defaults>>);
  bool const positive = d <= hi<Rep>();
  bool const negative = std::is_signed_v<Rep> && d <= llmax && fits<Rep>(-d);
  if (positive)
  {
    is(n / literal, n, d, "n/d_fr");
    is(n / +literal, n, d, "n/+d_fr");
    is(n / + +literal, n, d, "n/+ +d_fr");
    if (d <= llmax)
    {
      is(n / -(-literal), n, d, "n/- -d_fr");
      is(n / -(-(+literal)), n, d, "n/- - +d_fr");
    }
  }
  if (negative)
  {
    is(n / -literal, n, -d, "n/-d_fr");
    is(n / +(-literal), n, -d, "n/+ -d_fr");
    is(n / -(-(-literal)), n, -d, "n/- - -d_fr");
  }
  if constexpr (std::is_signed_v<Rep>)
    if (fits<Rep>(-i128(n)))
    {
      if (positive)
        is(-n / literal, -i128(n), d, "-n/d_fr");
      if (negative)
        is(-n / -literal, -i128(n), -d, "-n/-d_fr");
    }
}

// a fraction divided by the denominator
template <typename Ops>
void fraction_over(i128 a, i128 b, i128 d)
{
  using F = ieme::fraction<Rep, Ops>;
  ++traces;
  F const x {Rep(a), Rep(b)};
  ieme::denominator_literal<false, Ops> const u((unsigned long long)d);
  i128 const bd = mul<Rep>(b, d);
  if (!fits<Rep>(bd) || !fits<Rep>(d))
    return;
  static_assert(std::is_same_v<decltype(x / u), F>);
  worth(x / u, a, b ? bd : 0, "fraction/d_fr");
  worth(x / +u, a, b ? bd : 0, "fraction/+d_fr");
  if constexpr (std::is_signed_v<Rep>)
    if (d <= llmax)
      worth(x / -u, a, b ? -bd : 0, "fraction/-d_fr");
  ieme::denominator_literal<true, Ops> const s((long long)(d <= llmax ? d : 0));
  if (d <= llmax)
    worth(x / s, a, b ? bd : 0, "fraction/signed d_fr");
}

void fr(i128 n, i128 d)
{
  if (!fits<Rep>(n) || d < 0)
    return;
  begin("n/d_fr, with n, d =", n, d);
  ++states;
  auto const literal = ieme::literals::operator""_fr((unsigned long long)d);
  with_signs(Rep(n), literal, d);
  if (d <= hi<Rep>())
  { // as a written fraction over a literal, value by value
    fraction_over<ieme::ops::defaults>(n, 1, d);
    fraction_over<ieme::ops::defaults>(n, 3, d);
    fraction_over<ieme::ops::safe>(n, 2, d);
    fraction_over<ieme::ops::fast>(n, 6, d);
    fraction_over<ieme::ops::defaults>(n, 0, d);
    if (std::is_signed_v<Rep>)
      fraction_over<ieme::ops::fast_reduced_io>(n, -4, d);
  }
  // the denominator alone keeps its value and signedness
  transitions += 3;
  if (literal.value() != (unsigned long long)d || literal.is_signed || (+literal).value() != literal.value())
    fail("d_fr does not keep its value");
  if (d <= llmax && ((-literal).value() != -(long long)d || !(-literal).is_signed))
    fail("-d_fr is not the negated denominator");
  if (want_sample())
    sample(str(n) + "/" + str(d) + "_fr");
}

// The literals as they are written, tokens and all.
void tokens()
{
#define T(D)                                                                   \
  begin("written literal n/" #D "_fr", D);                                     \
  ++states;                                                                    \
  {                                                                            \
    auto const literal = D##_fr;                                               \
    for (i128 n : pool<Rep>(0))                                                \
      with_signs(Rep(n), literal, D);                                          \
    constexpr auto half = Rep(1) / D##_fr;                                     \
    is(half, 1, D, "1/" #D "_fr as a constant");                               \
  }
#define T10(D) T(D##0) T(D##1) T(D##2) T(D##3) T(D##4) T(D##5) T(D##6) T(D##7) T(D##8) T(D##9)
  T(0) T(1) T(2) T(3) T(4) T(5) T(6) T(7) T(8) T(9)
  T10(1) T10(2) T10(3) T10(4) T10(5) T10(6) T10(7) T10(8) T10(9)
  T10(10) T10(25) T10(99) T10(6553)
  T(2147483647)
  T(0x10) T(0b101) T(017) T(1'000) T(0xFFFF) T(0x7fff'ffff) T(1'0)
  sample("tokens 0_fr .. 109_fr, 25x, 99x, 6553x, hexadecimal, octal, binary, separated");
#undef T
  // precedence and evaluation as written
  begin("expressions of literals");
  is(Rep(3) / 4_fr, 3, 4, "3/4_fr");
  worth(Rep(1) / 2_fr + Rep(1) / 3_fr, 5, 6, "1/2_fr + 1/3_fr");
  worth(Rep(5) / 2_fr - Rep(1) / 3_fr, 13, 6, "5/2_fr - 1/3_fr");
  worth(Rep(2) * Rep(3) / 4_fr, 6, 4, "2*3/4_fr");
  worth(Rep(3) / 4_fr / 5_fr, 3, 20, "3/4_fr/5_fr");
  worth(Rep(3) / 4_fr / Rep(5), 3, 20, "3/4_fr/5");
  if constexpr (std::is_signed_v<Rep>)
  {
    worth(-Rep(3) / 4_fr / -5_fr, 3, 20, "-3/4_fr/-5_fr");
    worth(-(Rep(3) / 4_fr), -3, 4, "-(3/4_fr)");
    is(-Rep(3) / -4_fr, -3, -4, "-3/-4_fr");
  }
}

void dec_tokens()
{
#define D(TOKEN, N, DEN)                                                       \
  {                                                                            \
    begin("written literal " #TOKEN "_dec");                                   \
    ++states;                                                                  \
    ++transitions;                                                             \
    constexpr auto c = TOKEN##_dec;                                            \
    static_assert(std::is_same_v<decltype(c), ieme::fraction<std::intmax_t, ieme::ops::defaults> const>); \
    auto const v = TOKEN##_dec;                                                \
    if (c.den() == 0 || i128(c.num()) * (DEN) != i128(N) * c.den()             \
        || !are_identical(c, v))                                               \
      fail(#TOKEN "_dec is " + pol::show(c));                                  \
  }
  D(0.0, 0, 1) D(1.0, 1, 1) D(.5, 1, 2) D(5., 5, 1) D(0.125, 1, 8) D(3.14159, 314159, 100000)
  D(1e0, 1, 1) D(1e5, 100000, 1) D(1E-5, 1, 100000) D(2.5e3, 2500, 1) D(2.5e-3, 1, 400)
  D(0x1p0, 1, 1) D(0x1p4, 16, 1) D(0x1p-4, 1, 16) D(0x1.8p1, 3, 1) D(0xA.8p0, 21, 2)
  D(0X.8P1, 1, 1) D(0xAB.CDp-2, 43981, 1024) D(1'000.5, 2001, 2) D(1'2.3'4, 1234, 100)
  D(00.10, 1, 10) D(1.e1, 10, 1) D(.1e1, 1, 1) D(0x1.p1, 2, 1) D(123456789.123456789, 123456789123456789, 1000000000)
  D(1e18, 1000000000000000000, 1) D(1e-18, 1, 1000000000000000000) D(0xe.ep0, 238, 16) D(0x1e1p1, 962, 1)
  sample("written _dec tokens, decimal and hexadecimal, as constants and at run time");
#undef D
}

char text[64];

void dec(char const* s, std::size_t n)
{
  begin_text("operator\"\"_dec", s, n);
  ++states;
  ++traces;
  ++transitions;
  char z[64];
  std::memcpy(z, s, n);
  z[n] = 0;
  lit::Literal const l = lit::parse(s, n);
  bool threw = false;
  ieme::fraction<std::intmax_t> r;
  try
  {
    r = ieme::literals::operator""_dec(z);
  }
  catch (...)
  {
    threw = true;
  }
  if (!l.ok)
  {
    if (!threw)
      fail("_dec accepted it and gave " + pol::show(r));
    return;
  }
  if (!threw && r.den() == 0)
    fail("_dec produced an undefined value instead of throwing");
  auto const v = lit::value<std::intmax_t>(l);
  if (!v.known)
    return;
  if (threw)
    fail("_dec threw for a literal");
  if (compare(r.num(), r.den(), v.n, v.d) != 0)
    fail("_dec gave " + pol::show(r) + ", expected " + str(v.n) + "/" + str(v.d));
  if (want_sample())
    sample(std::string(s, n) + "_dec is " + pol::show(r));
}

[[maybe_unused]] int const registered = [] {
  bool const big = thorough();
  int const n = big ? 1200 : 300;
  for (std::size_t s = 0; s < std::size_t(12); ++s)
    add("box/" + std::to_string(s), [=] {
      auto const v = box<Rep>(n);
      for (i128 d = (i128)s; d <= n; d += std::size_t(12))
        for (i128 a : v)
          fr(a, d);
    });
  add("edge", [=] {
    auto const v = pool<Rep>(2);
    auto const w = magnitudes<unsigned long long>(2);
    for (i128 a : v)
      for (i128 d : w)
        fr(a, d);
  });
  add("tokens", tokens);
  if (PART == 0)
    add("dec-tokens", dec_tokens);
  std::string const full = "019aeEpxX.'+-";
  for (std::size_t f = 0; f < full.size(); ++f)
    if (f % 4 == PART)
      add("dec/" + std::to_string(f), [=] {
        for (int k = 1; k <= (big ? 6 : 5); ++k)
          lit::strings(full, k, f, text, dec);
      });
  if (PART == 3)
    add("dec-empty", [] { dec("", 0); });
  return 0;
}();

} // namespace

MC_MAIN
