// C26: what each public header declares, used completely. Compiled once per
// configuration of #include directives: the configuration's source includes the
// headers, defines USE_<header> for each, and only then includes this file, so
// that nothing here can supply what a header forgot.
//
// use(say) calls say(text) for every answer that is not the expected one, and
// counts what it asked.
#ifndef C26_USE_HPP
#define C26_USE_HPP

#include <chrono>
#include <functional>
#include <limits>
#include <ratio>
#include <sstream>
#include <string>
#include <string_view>
#include <type_traits>
#include <unordered_set>

#ifdef USE_ieme
#  define USE_chrono
#  define USE_floating_point
#  define USE_fraction
#  define USE_fraction_literals
#  define USE_fraction_math
#  define USE_fraction_queries
#  define USE_hash
#  define USE_limits
#  define USE_math_utilities
#  define USE_mixed_number
#  define USE_ops
#  define USE_raw_fraction
#  define USE_raw_fraction_math
#  define USE_raw_fraction_queries
#  define USE_reduce_mode
#endif

#ifndef WANT
#  define WANT safe_reduced_io
#endif

namespace {

struct Asked {
  void (*say)(char const*);
  unsigned long n = 0;
  void operator()(bool good, char const* text)
  {
    ++n;
    if (!good)
      say(text);
  }
};

#define ASK(...) ask((__VA_ARGS__), #__VA_ARGS__)
#define SAME(T, ...) ask(std::is_same_v<std::remove_cvref_t<T>, __VA_ARGS__>, #T " is " #__VA_ARGS__)

#ifdef USE_numbers
template <typename Rep>
void use_numbers(Asked& ask)
{
  ASK(ieme::_0<Rep> == Rep(0) && ieme::_1<Rep> == Rep(1) && ieme::_2<Rep> == Rep(2) && ieme::_10<Rep> == Rep(10));
  ASK(ieme::number<7, Rep> == Rep(7));
  SAME(decltype(ieme::_0<Rep>), Rep);
}
#endif

#ifdef USE_reduce_mode
void use_reduce_mode(Asked& ask)
{
  ASK(ieme::reduce_mode::normalize_signs != ieme::reduce_mode::ignore_signs);
}
#endif

#ifdef USE_math_utilities
template <typename Rep>
void use_math_utilities(Asked& ask)
{
  namespace m = ieme::math_utilities;
  ASK(m::abs(Rep(5)) == Rep(5) && m::abs(Rep(0)) == Rep(0));
  if constexpr (std::is_signed_v<Rep>)
  {
    ASK(m::abs(Rep(-5)) == Rep(5));
    ASK(m::magnitude(Rep(-5)) == 5U);
    ASK(m::magnitude(std::numeric_limits<Rep>::min())
        == static_cast<std::make_unsigned_t<Rep>>(std::numeric_limits<Rep>::max()) + 1U);
    ASK(m::pow(Rep(-3), Rep(3)) == Rep(-27));
  }
  ASK(m::magnitude(Rep(5)) == 5U);
  ASK(m::pow2(Rep(0)) == Rep(1) && m::pow2(Rep(10)) == Rep(1024));
  ASK(m::pow(Rep(3), Rep(0)) == Rep(1) && m::pow(Rep(3), Rep(5)) == Rep(243));
}
#endif

#ifdef USE_raw_fraction
template <typename Rep>
void use_raw_fraction(Asked& ask)
{
  ieme::raw_fraction<Rep> const none;
  ASK(none.numerator == Rep(0) && none.denominator == Rep(0));
  ieme::raw_fraction<Rep> a {Rep(6), Rep(4)};
  ASK(a.numerator == Rep(6) && a.denominator == Rep(4));
  a.numerator = Rep(7);
  ieme::raw_fraction<long long> const wide = a;
  ASK(wide.numerator == 7 && wide.denominator == 4);
  std::stringstream s;
  s << a;
  ASK(s.str() == "7/4");
  s.str("11/13");
  s >> a;
  ASK(a.numerator == Rep(11) && a.denominator == Rep(13));
}
#endif

#ifdef USE_raw_fraction_queries
template <typename Rep>
void use_raw_fraction_queries(Asked& ask)
{
  using R = ieme::raw_fraction<Rep>;
  R const half(1, 2), one(4, 4), zero(0, 3), none(1, 0), big(6, 4);
  ASK(is_defined(half) && !is_defined(none));
  ASK(is_undefined(none) && !is_undefined(half));
  ASK(is_positive(half) && !is_positive(zero) && !is_positive(none));
  ASK(is_non_negative(half) && is_non_negative(zero) && !is_non_negative(none));
  ASK(is_zero(zero) && !is_zero(half) && !is_zero(R(0, 0)));
  ASK(is_non_positive(zero) && !is_non_positive(half));
  ASK(!is_negative(half) && !is_negative(zero));
  ASK(is_integer(one) && is_integer(zero) && !is_integer(half) && !is_integer(none));
  ASK(is_unit_fraction(half) && is_unit_fraction(one) && !is_unit_fraction(big) && !is_unit_fraction(zero));
  ASK(is_reduced(half) && !is_reduced(one) && !is_reduced(none));
  ASK(is_reduced_ignore_signs(half) && !is_reduced_ignore_signs(big));
  ASK(is_proper(half) && !is_proper(one) && !is_proper(big));
  ASK(is_improper(big) && !is_improper(half));
  ASK(are_identical(half, R(1, 2)) && !are_identical(half, R(2, 4)));
  ASK(are_different(half, R(2, 4)) && !are_different(half, R(1, 2)));
  if constexpr (std::is_signed_v<Rep>)
  {
    R const minus(1, -2);
    ASK(is_negative(minus) && is_non_positive(minus) && !is_non_negative(minus) && !is_positive(minus));
    ASK(is_reduced_ignore_signs(minus) && !is_reduced(minus) && is_proper(minus));
  }
}
#endif

#ifdef USE_raw_fraction_math
template <typename Rep>
void use_raw_fraction_math(Asked& ask)
{
  using R = ieme::raw_fraction<Rep>;
  auto const is = [](R const& r, Rep n, Rep d) { return r.numerator == n && r.denominator == d; };
  ASK(is(reduce(R(6, 4)), Rep(3), Rep(2)));
  ASK(is(reduce(R(0, 4)), Rep(0), Rep(1)));
  ASK(is(reduce(R(6, 4), ieme::reduce_mode::ignore_signs), Rep(3), Rep(2)));
  ASK(is(reduce_ignore_signs(R(6, 4)), Rep(3), Rep(2)));
  ASK(is(reduce_normalize_signs(R(6, 4)), Rep(3), Rep(2)));
  ASK(is(normalize_signs(R(6, 4)), Rep(6), Rep(4)));
  ASK(is(reciprocal(R(6, 4)), Rep(4), Rep(6)));
  ASK(reduce(R(6, 0)).denominator == Rep(0));
  if constexpr (std::is_signed_v<Rep>)
  {
    ASK(is(reduce(R(6, -4)), Rep(-3), Rep(2)));
    ASK(is(reduce_ignore_signs(R(6, -4)), Rep(3), Rep(-2)));
    ASK(is(normalize_signs(R(6, -4)), Rep(-6), Rep(4)));
  }
}
#endif

#ifdef USE_ops
template <typename Rep, typename Ops>
void use_one_ops(Asked& ask)
{
  using R = ieme::raw_fraction<Rep>;
  auto const is = [](R const& r, Rep n, Rep d) { return r.denominator != Rep(0) && r.numerator * d == r.denominator * n; };
  ASK(is(Ops::plus(R(1, 2), R(1, 3)), Rep(5), Rep(6)) && is(Ops::plus(R(1, 2), Rep(3)), Rep(7), Rep(2)));
  ASK(is(Ops::minus(R(1, 2), R(1, 3)), Rep(1), Rep(6)) && is(Ops::minus(Rep(3), R(1, 2)), Rep(5), Rep(2)));
  ASK(is(Ops::multiplies(R(1, 2), R(2, 3)), Rep(1), Rep(3)) && is(Ops::multiplies(R(1, 2), Rep(3)), Rep(3), Rep(2)));
  ASK(is(Ops::divides(R(1, 2), R(2, 3)), Rep(3), Rep(4)) && is(Ops::divides(Rep(3), R(1, 2)), Rep(6), Rep(1)));
  ASK(is(Ops::modulus(R(7, 2), R(2, 3)), Rep(1), Rep(6)) && is(Ops::modulus(R(7, 2), Rep(2)), Rep(3), Rep(2)));
  ASK(Ops::equal_to(R(1, 2), R(2, 4)) && !Ops::not_equal_to(R(1, 2), R(2, 4)) && Ops::equal_to(R(4, 2), Rep(2)));
  ASK(Ops::less(R(1, 3), R(1, 2)) && Ops::less_equal(R(1, 3), R(1, 2)) && Ops::less(Rep(0), R(1, 2)));
  ASK(!Ops::greater(R(1, 3), R(1, 2)) && !Ops::greater_equal(R(1, 3), R(1, 2)) && Ops::greater(R(1, 2), Rep(0)));
}

template <typename Rep>
void use_ops(Asked& ask)
{
  namespace o = ieme::ops;
  SAME(o::defaults, o::WANT);
  use_one_ops<Rep, o::safe>(ask);
  use_one_ops<Rep, o::safe_reduced_i>(ask);
  use_one_ops<Rep, o::safe_reduced_o>(ask);
  use_one_ops<Rep, o::safe_reduced_io>(ask);
  use_one_ops<Rep, o::fast>(ask);
  use_one_ops<Rep, o::fast_reduced_i>(ask);
  use_one_ops<Rep, o::fast_reduced_o>(ask);
  use_one_ops<Rep, o::fast_reduced_io>(ask);
  use_one_ops<Rep, o::defaults>(ask);
}
#endif

#ifdef USE_fraction
template <typename F>
void use_one_fraction(Asked& ask)
{
  using Rep = typename F::rep_type;
  auto const is = [](F const& f, int n, int d) { return f.den() != Rep(0) && f.num() * Rep(d) == f.den() * Rep(n); };
  F const half(1, 2), third(1, 3), three(3);
  ASK(F().numerator() == Rep(0) && F().denominator() == Rep(1) && three.numerator() == Rep(3) && three.denominator() == Rep(1));
  ASK(F(std::ratio<3, 7>()).num() == Rep(3) && F(std::ratio<3, 7>()).den() == Rep(7));
  ASK(F(typename F::raw_fraction_type(Rep(3), Rep(7))).raw().denominator == Rep(7));
  ASK(is(+half, 1, 2) && is(half + third, 5, 6) && is(half - third, 1, 6) && is(half * third, 1, 6) && is(half / third, 3, 2));
  ASK(is(half % third, 1, 6) && is(half + Rep(3), 7, 2) && is(Rep(3) + half, 7, 2) && is(Rep(3) - half, 5, 2));
  ASK(is(half * Rep(3), 3, 2) && is(Rep(3) * half, 3, 2) && is(half / Rep(3), 1, 6) && is(Rep(3) / half, 6, 1));
  ASK(is(F(7, 2) % Rep(2), 3, 2) && is(Rep(2) % F(3, 2), 1, 2) && is(F(7, 2) - Rep(2), 3, 2));
  F x = half;
  ASK(is(x += third, 5, 6));
  ASK(is(x -= third, 1, 2));
  ASK(is(x *= third, 1, 6));
  ASK(is(x /= third, 1, 2));
  ASK(is(x %= third, 1, 6));
  ASK(is(x += Rep(3), 19, 6));
  ASK(is(x -= Rep(2), 7, 6));
  ASK(is(x *= Rep(2), 7, 3));
  ASK(is(x /= Rep(2), 7, 6));
  ASK(is(x %= Rep(1), 1, 6));
  ASK(half == F(2, 4) && half != third && third < half && third <= half && half > third && half >= third);
  ASK(half != Rep(1) && Rep(0) < half && half <= Rep(1) && Rep(1) > half && half >= Rep(0) && F(4, 2) == Rep(2));
  if constexpr (std::is_signed_v<Rep>)
  {
    ASK(is(-half, -1, 2) && is(third - half, -1, 6) && F(1, -2) < third && F(-1, -2) == half);
  }
  x.numerator() = Rep(5);
  x.denominator() = Rep(8);
  ASK(is(x, 5, 8) && (x.num() = Rep(3)) == Rep(3) && (x.den() = Rep(4)) == Rep(4) && is(x, 3, 4));
  std::stringstream s;
  s << x;
  ASK(s.str() == "3/4");
  s.str("11/13");
  s >> x;
  ASK(is(x, 11, 13));
  ieme::fraction<long long, typename F::ops_type> const wide = x;
  ASK(wide == ieme::fraction<long long, typename F::ops_type>(11, 13));
}

template <typename Rep>
void use_fraction(Asked& ask)
{
  namespace o = ieme::ops;
  SAME(typename ieme::fraction<Rep>::ops_type, o::WANT);
  use_one_fraction<ieme::fraction<Rep>>(ask);
  use_one_fraction<ieme::fraction<Rep, o::safe>>(ask);
  use_one_fraction<ieme::fraction<Rep, o::fast>>(ask);
  use_one_fraction<ieme::fraction<Rep, o::fast_reduced_io>>(ask);
  use_one_fraction<ieme::fraction<Rep, o::safe_reduced_io>>(ask);
  ASK(ieme::fraction<Rep, o::safe>(ieme::fraction<Rep, o::fast>(3, 4)).den() == Rep(4));
  ASK(!std::is_convertible_v<ieme::fraction<Rep, o::fast>, ieme::fraction<Rep, o::safe>>);
}
#endif

#ifdef USE_fraction_queries
template <typename Rep>
void use_fraction_queries(Asked& ask)
{
  using F = ieme::fraction<Rep>;
  F const half(1, 2), one(4, 4), zero(0, 3), none(1, 0), big(6, 4);
  ASK(is_defined(half) && !is_defined(none));
  ASK(is_undefined(none) && !is_undefined(half));
  ASK(is_positive(half) && !is_positive(zero) && !is_positive(none));
  ASK(is_non_negative(half) && is_non_negative(zero) && !is_non_negative(none));
  ASK(is_zero(zero) && !is_zero(half));
  ASK(is_non_positive(zero) && !is_non_positive(half));
  ASK(!is_negative(half) && !is_negative(zero));
  ASK(is_integer(one) && is_integer(zero) && !is_integer(half) && !is_integer(none));
  ASK(is_unit_fraction(half) && is_unit_fraction(one) && !is_unit_fraction(big) && !is_unit_fraction(zero));
  ASK(is_reduced(half) && !is_reduced(one) && !is_reduced(none));
  ASK(is_reduced_ignore_signs(half) && !is_reduced_ignore_signs(big));
  ASK(is_proper(half) && !is_proper(one) && !is_proper(big));
  ASK(is_improper(big) && !is_improper(half));
  ASK(are_identical(half, F(1, 2)) && !are_identical(half, F(2, 4)));
  ASK(are_different(half, F(2, 4)) && !are_different(half, F(1, 2)));
  ASK(are_identical(half, ieme::fraction<Rep, ieme::ops::fast>(1, 2)));
}
#endif

#ifdef USE_fraction_math
template <typename F>
void use_one_fraction_math(Asked& ask)
{
  using Rep = typename F::rep_type;
  auto const is = [](F const& f, int n, int d) { return f.num() == Rep(n) && f.den() == Rep(d); };
  auto const eq = [](F const& f, int n, int d) { return f.den() != Rep(0) && f.num() * Rep(d) == f.den() * Rep(n); };
  F const x(14, 4);
  ASK(is(reduce(x), 7, 2) && is(reduce(x, ieme::reduce_mode::ignore_signs), 7, 2));
  ASK(is(reduce_normalize_signs(x), 7, 2) && is(reduce_ignore_signs(x), 7, 2));
  ASK(is(normalize_signs(x), 14, 4) && is(reciprocal(x), 4, 14) && eq(abs(x), 7, 2));
  ASK(trunc(x) == Rep(3) && ceil(x) == Rep(4) && floor(x) == Rep(3) && round(x) == Rep(4) && round(F(10, 4)) == Rep(3));
  ASK(to_whole(x) == Rep(4) && to_whole(x, ieme::round_mode::trunc) == Rep(3));
  ASK(to_whole(x, ieme::round_mode::ceil) == Rep(4) && to_whole(x, ieme::round_mode::floor) == Rep(3));
  ASK(is(redenominate(x, Rep(3)), 11, 3) && is(redenominate(x, Rep(3), ieme::round_mode::floor), 10, 3));
  ASK(is(trunc_redenominate(x, Rep(3)), 10, 3) && is(ceil_redenominate(x, Rep(3)), 11, 3));
  ASK(is(floor_redenominate(x, Rep(3)), 10, 3) && is(round_redenominate(x, Rep(3)), 11, 3));
  using Ops = typename F::ops_type;
  ASK(eq((ieme::pow2<Rep, Ops>(3)), 8, 1) && eq((ieme::pow2<Rep, Ops>(-3)), 1, 8));
  ASK(eq((ieme::pow<Rep, Ops>(Rep(3), 3)), 27, 1) && eq((ieme::pow<Rep, Ops>(Rep(3), -3)), 1, 27));
  if constexpr (std::is_signed_v<Rep>)
  {
    F const y(14, -4);
    ASK(is(reduce(y), -7, 2) && is(reduce_ignore_signs(y), 7, -2) && eq(abs(y), 7, 2));
    ASK(trunc(y) == Rep(-3) && ceil(y) == Rep(-3) && floor(y) == Rep(-4) && round(y) == Rep(-3));
  }
}

template <typename Rep>
void use_fraction_math(Asked& ask)
{
  namespace o = ieme::ops;
  use_one_fraction_math<ieme::fraction<Rep>>(ask);
  use_one_fraction_math<ieme::fraction<Rep, o::safe>>(ask);
  use_one_fraction_math<ieme::fraction<Rep, o::fast>>(ask);
  SAME(decltype(ieme::pow2<Rep>(1)), ieme::fraction<Rep, o::WANT>);
  SAME(decltype(ieme::pow<Rep>(Rep(1), 1)), ieme::fraction<Rep, o::WANT>);
}
#endif

#ifdef USE_parse_utilities
void use_parse_utilities(Asked& ask)
{
  namespace p = ieme::parse_utilities;
  auto const r = p::scan_floating_point_string("1'2.34e-5");
  ASK(r.has_value());
  ASK(r && r->base == 10 && r->whole == "1'2" && r->fractional == "34" && r->fractional_precision == 2);
  ASK(r && r->exponent_sign == p::sign::negative && r->exponent == "5");
  ASK(!p::scan_floating_point_string("12") && !p::scan_floating_point_string("x.y"));
  auto const h = p::scan_floating_point_string("0xA.8p1");
  ASK(h && h->base == 16 && h->whole == "A" && h->exponent_sign == p::sign::positive);
  ASK(p::is_valid_digit_sequence("1'2", 10) && !p::is_valid_digit_sequence("'12", 10));
  ASK(p::is_valid_digit_sequence("fF", 16) && !p::is_valid_digit_sequence("f", 10));
  ASK(p::digit_sequence_to_int("1'234", 10) == 1234 && p::digit_sequence_to_int("fF", 16LL) == 255LL);
}
#endif

#ifdef USE_limits
template <typename Rep>
void use_limits(Asked& ask)
{
  using F = ieme::fraction<Rep>;
  using L = ieme::limits<F>;
  using N = std::numeric_limits<F>;
  using R = std::numeric_limits<Rep>;
  auto const is = [](F const& f, Rep n, Rep d) { return f.num() == n && f.den() == d; };
  ASK(is(L::max(), R::max(), Rep(1)) && is(L::min(), R::min(), Rep(1)) && is(L::smallest(), Rep(1), R::max()));
  ASK(L::undefined().den() == Rep(0));
  SAME(typename L::ops_type, ieme::ops::WANT);
  ASK(N::is_specialized && N::is_signed == R::is_signed && !N::is_integer && N::is_exact && !N::has_infinity);
  ASK(N::has_quiet_NaN && N::is_bounded && N::digits == R::digits && N::radix == R::radix);
  ASK(is(N::max(), R::max(), Rep(1)) && is(N::lowest(), R::min(), Rep(1)) && is(N::min(), R::min(), Rep(1)));
  ASK(N::quiet_NaN().den() == Rep(0));
  using M = ieme::mixed_number<Rep>;
  using K = std::numeric_limits<M>;
  ASK(ieme::limits<M>::max().whole() == R::max() && ieme::limits<M>::min().whole() == R::min());
  ASK(is(ieme::limits<M>::smallest().fractional(), Rep(1), R::max()) && ieme::limits<M>::undefined().fractional().den() == Rep(0));
  ASK(K::is_specialized && K::has_quiet_NaN && K::max().whole() == R::max() && K::lowest().whole() == R::min());
}
#endif

#ifdef USE_hash
template <typename Rep>
void use_hash(Asked& ask)
{
  using F = ieme::fraction<Rep>;
  using R = ieme::raw_fraction<Rep>;
  using M = ieme::mixed_number<Rep>;
  ASK(ieme::hash(F(1, 2)) == ieme::hash(F(2, 4)) && std::hash<F>()(F(1, 2)) == std::hash<F>()(F(2, 4)));
  ASK(ieme::hash(R(1, 2)) == ieme::hash(R(1, 2)) && std::hash<R>()(R(1, 2)) == std::hash<R>()(R(1, 2)));
  ASK(ieme::hash(M(1, F(1, 2))) == ieme::hash(M(1, F(2, 4))) && std::hash<M>()(M(1, F(1, 2))) == std::hash<M>()(M(1, F(2, 4))));
  std::unordered_set<F> s;
  s.insert(F(1, 2));
  s.insert(F(2, 4));
  s.insert(F(1, 3));
  ASK(s.size() == 2 && s.count(F(3, 6)) == 1 && s.count(F(3, 7)) == 0);
}
#endif

#ifdef USE_mixed_number
template <typename Rep>
void use_mixed_number(Asked& ask)
{
  using F = ieme::fraction<Rep>;
  using M = ieme::mixed_number<Rep>;
  SAME(typename M::ops_type, ieme::ops::WANT);
  auto const is = [](M const& m, int w, int n, int d) {
    return m.whole() == Rep(w) && m.fractional().num() * Rep(d) == m.fractional().den() * Rep(n);
  };
  ASK(is(M(), 0, 0, 1) && is(M(Rep(3)), 3, 0, 1) && is(M(Rep(3), F(1, 2)), 3, 1, 2) && is(M(Rep(3), F(5, 2)), 5, 1, 2));
  ASK(is(M(F(7, 2)), 3, 1, 2) && M(F(7, 2)).as_fraction() == F(7, 2) && F(M(F(7, 2))) == F(7, 2));
  ASK(is(+M(F(7, 2)), 3, 1, 2) && is(M(F(7, 2)) + M(F(5, 2)), 6, 0, 1));
  ASK(is(M(F(7, 2)) + F(5, 2), 6, 0, 1) && is(F(5, 2) + M(F(7, 2)), 6, 0, 1));
  ASK(is(M(F(7, 2)) + Rep(2), 5, 1, 2) && is(Rep(2) + M(F(7, 2)), 5, 1, 2));
  ASK(is(M(ieme::fraction<Rep, ieme::ops::fast>(7, 2)), 3, 1, 2));
  if constexpr (std::is_signed_v<Rep>)
  {
    ASK(is(-M(F(7, 2)), -3, -1, 2) && is(M(F(-7, 2)), -3, -1, 2) && is(M(Rep(3), F(-1, 2)), 2, 1, 2));
  }
}
#endif

#ifdef USE_floating_point
template <typename Rep>
void use_floating_point(Asked& ask)
{
  using F = ieme::fraction<Rep>;
  auto const is = [](F const& f, int n, int d) { return f.den() != Rep(0) && f.num() * Rep(d) == f.den() * Rep(n); };
  ASK(is(ieme::to_fraction<Rep>(1.75), 7, 4) && is(ieme::to_fraction<Rep>(1.75f), 7, 4));
  ASK(is(ieme::to_fraction<Rep>(0.0), 0, 1) && ieme::to_fraction<Rep>(1e300 * 1e300).den() == Rep(0));
  ASK(ieme::to_float(F(7, 4)) == 1.75f && ieme::to_double(F(7, 4)) == 1.75 && ieme::to_long_double(F(7, 4)) == 1.75L);
  ASK(is(ieme::floating_point_string_to_fraction<Rep>("12.5e1"), 125, 1));
  ASK(is(ieme::floating_point_string_to_fraction<Rep>("0x1.8p-1"), 3, 4));
  ASK(ieme::floating_point_string_to_fraction<Rep>("12").den() == Rep(0));
  SAME(decltype(ieme::to_fraction<Rep>(1.5)), ieme::fraction<Rep, ieme::ops::WANT>);
  SAME(decltype(ieme::to_fraction<Rep>(1.5f)), ieme::fraction<Rep, ieme::ops::WANT>);
  SAME(decltype(ieme::floating_point_string_to_fraction<Rep>("1.5")), ieme::fraction<Rep, ieme::ops::WANT>);
  if constexpr (std::is_signed_v<Rep>)
  {
    ASK(is(ieme::to_fraction<Rep>(-1.75), -7, 4) && ieme::to_double(F(7, -4)) == -1.75);
  }
}
#endif

#ifdef USE_fraction_literals
void use_fraction_literals(Asked& ask)
{
  using namespace ieme::literals;
  using F = ieme::fraction<int, ieme::ops::WANT>;
  SAME(decltype(1 / 2_fr), F);
  SAME(decltype(1.5_dec), ieme::fraction<std::intmax_t, ieme::ops::WANT>);
  auto const is = [](auto const& f, int n, int d) { return f.num() == n && f.den() == d; };
  ASK(is(6 / 4_fr, 6, 4) && is(6 / -4_fr, 6, -4) && is(6 / +4_fr, 6, 4) && is(6LL / 4_fr, 6, 4));
  auto const eq = [](auto const& f, int n, int d) { return f.den() != 0 && f.num() * d == f.den() * n; };
  ASK(eq(F(1, 3) / 2_fr, 1, 6) && eq(1.5_dec, 3, 2) && eq(0x1.8p1_dec, 3, 1) && eq(1e2_dec, 100, 1));
}
#endif

#ifdef USE_chrono
struct Clock26 {
  using rep = long long;
  using period = std::milli;
  using duration = std::chrono::duration<rep, period>;
  using time_point = std::chrono::time_point<Clock26>;
  static constexpr bool is_steady = true;
  static time_point now() noexcept { return time_point(duration(3)); }
};

template <typename Rep>
void use_chrono(Asked& ask)
{
  namespace c = ieme::chrono;
  using F = ieme::fraction<Rep, ieme::ops::WANT>;
  using D = std::chrono::duration<Rep, std::milli>;
  using FD = std::chrono::duration<F, std::milli>;
  using TP = std::chrono::time_point<Clock26, D>;
  using CD = c::duration<Rep, std::milli>;
  SAME(CD, FD);
  SAME(c::duration_like<D>, FD);
  SAME(decltype(c::to_fractional(D(Rep(3)))), FD);
  SAME(c::time_point_like<TP>, std::chrono::time_point<Clock26, FD>);
  ASK(c::to_fractional(D(Rep(3))).count() == F(3) && c::to_fractional(TP(D(Rep(3)))).time_since_epoch().count() == F(3));
  using FS = c::duration<Rep, std::ratio<1>>;
  using FM = c::duration<Rep, std::ratio<60>>;
  FM const m = FS(F(90));
  ASK(m.count() == F(3, 2) && FS(m).count() == F(90));
  ASK((m + FS(F(30))).count() == F(120) && m < FS(F(100)) && (m / Rep(2)).count() == F(3, 4));
  using S = std::chrono::seconds::rep;
  ASK(c::hours(c::minutes(90)).count() == ieme::fraction<S>(3, 2));
  ASK(c::seconds(c::milliseconds(250)).count() == ieme::fraction<S>(1, 4));
  ASK(c::milliseconds(c::microseconds(c::nanoseconds(500000))).count() == ieme::fraction<S>(1, 2));
  using W = c::clock_wrapper<Clock26, std::ratio<1>>;
  ASK(W::is_steady && W::now().time_since_epoch().count() == ieme::fraction<long long>(3, 1000));
  ASK(c::clock_wrapper<Clock26>::now().time_since_epoch().count() == ieme::fraction<long long>(3));
  SAME(typename W::ops_type, ieme::ops::WANT);
}
#endif

unsigned long use(void (*say)(char const*))
{
  Asked ask {say};
#define EACH(f) (f<int>(ask), f<long long>(ask), f<unsigned>(ask))
#ifdef USE_numbers
  EACH(use_numbers);
#endif
#ifdef USE_reduce_mode
  use_reduce_mode(ask);
#endif
#ifdef USE_math_utilities
  EACH(use_math_utilities);
#endif
#ifdef USE_raw_fraction
  EACH(use_raw_fraction);
#endif
#ifdef USE_raw_fraction_queries
  EACH(use_raw_fraction_queries);
#endif
#ifdef USE_raw_fraction_math
  EACH(use_raw_fraction_math);
#endif
#ifdef USE_ops
  EACH(use_ops);
#endif
#ifdef USE_fraction
  EACH(use_fraction);
#endif
#ifdef USE_fraction_queries
  EACH(use_fraction_queries);
#endif
#ifdef USE_fraction_math
  EACH(use_fraction_math);
#endif
#ifdef USE_parse_utilities
  use_parse_utilities(ask);
#endif
#ifdef USE_limits
  EACH(use_limits);
#endif
#ifdef USE_hash
  EACH(use_hash);
#endif
#ifdef USE_mixed_number
  EACH(use_mixed_number);
#endif
#ifdef USE_floating_point
  EACH(use_floating_point);
#endif
#ifdef USE_fraction_literals
  use_fraction_literals(ask);
#endif
#ifdef USE_chrono
  EACH(use_chrono);
#endif
  return ask.n;
}

} // namespace

#endif
