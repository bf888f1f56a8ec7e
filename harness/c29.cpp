// C29: fractions cost two integers. Every operation of rows.hpp (and those that
// are not constant expressions) on complete sets of operands, while every way to
// allocate memory is counted and every exception caught; and what the compiler
// knows about the types: size, triviality, noexcept. -DPART selects Rep.
#include "policies.hpp"
#ifndef BOX
#  define BOX 4
#endif
#include "rows.hpp"

#include <atomic>
#include <new>
#include <string_view>
#include <utility>

namespace {

unsigned long allocations = 0;

} // namespace

extern "C" {
void* __libc_malloc(std::size_t);
void* __libc_calloc(std::size_t, std::size_t);
void* __libc_realloc(void*, std::size_t);
void* __libc_memalign(std::size_t, std::size_t);

void* malloc(std::size_t n)
{
  ++allocations;
  return __libc_malloc(n);
}
void* calloc(std::size_t n, std::size_t m)
{
  ++allocations;
  return __libc_calloc(n, m);
}
void* realloc(void* p, std::size_t n)
{
  ++allocations;
  return __libc_realloc(p, n);
}
void* aligned_alloc(std::size_t a, std::size_t n)
{
  ++allocations;
  return __libc_memalign(a, n);
}
}

namespace {

std::string show(Tuple const& t)
{
  return str((i128)t.a) + "," + str((i128)t.b) + "," + str((i128)t.c) + "," + str((i128)t.d);
}

std::string show(Text const& t)
{
  return "\"" + std::string(t.s, std::size_t(t.n)) + "\"";
}

// ------------------------------------------------------ at run time, all cases

template <auto Cases, auto Fn, unsigned long Own = 0>
void check(std::string const& name)
{
  add(name, [=] {
    static auto (*volatile make)() = +Cases;
    static auto const cases = make();
    for (std::size_t i = 0; i < cases.size(); ++i)
    {
      begin("case number", i);
      ++states;
      ++traces;
      Row r;
      bool threw = false;
      allocations = 0;
      try
      {
        r = Fn(cases[i]);
      }
      catch (...)
      {
        threw = true;
      }
      unsigned long const n = allocations;
      transitions += u64(r.n);
      if (threw)
        fail(name + " on " + show(cases[i]) + ": an operation threw");
      if (n > Own)
        fail(name + " on " + show(cases[i]) + ": " + std::to_string(n - Own) + " allocations");
      if (want_sample() && r.n)
        sample(name + " on " + show(cases[i]) + ": " + std::to_string(r.n) + " answers without an allocation");
    }
  });
}

template <typename Ops>
Row at_run_time(Tuple t)
{
  Row r;
  using F = ieme::fraction<Rep, Ops>;
  using M = ieme::mixed_number<Rep, Rep, Ops>;
  i128 const a = t.a, b = t.b;
  if (!all_fit<Rep>(a, b))
    return r;
  F x {t.a, t.b};
  r.put(std::hash<ieme::raw_fraction<Rep>>()(x.raw()));
  r.put(ieme::hash(x));
  r.put(std::hash<F>()(x));
  if (b != 0 && small(a) && small(b))
  {
    r.put(ieme::hash(M(x)));
    r.put(std::hash<M>()(M(x)));
  }
  // parts of every magnitude
  if (b > 1 && a > i128(std::numeric_limits<Rep>::min()))
  {
    r.put(ieme::hash(M(x)));
    r.put(std::hash<M>()(M(t.a, F(Rep(1), t.b))));
    r.put(ieme::hash(M(t.a, F(Rep(t.b - 1), t.b))));
  }
  F y = x;
  F z = std::move(y);
  std::swap(x, z);
  y = z;
  r.put(y);
  if (small(a) && b >= 0 && b <= 8)
  {
    double const v = double(t.a) / double(1 << int(t.b));
    r.put(ieme::to_fraction<Rep, Ops>(v));
    r.put(ieme::to_fraction<Rep, Ops>(float(v)));
    r.put(ieme::to_fraction<Rep, Ops>(v / 3));
    r.put(ieme::to_fraction<Rep, Ops>(1e300 * v));
    r.put(ieme::to_fraction<Rep, Ops>(1e-310 * v));
  }
  using T = std::chrono::duration<F, std::milli>;
  T const d(x);
  r.put(d.count());
  return r;
}

// numbers too long, too large, malformed: what only parsing meets
Row refused(Text t)
{
  Row r;
  char text[128];
  for (int times : {1, 2, 5})
  {
    int n = 0;
    for (int k = 0; k < times; ++k)
      for (int i = 0; i < t.n; ++i)
        text[n++] = t.s[i];
    // malformed for certain
    text[n++] = 'z';
    r.put(ieme::floating_point_string_to_fraction<Rep>(std::string_view(text, std::size_t(n))));
    r.put(bool(ieme::parse_utilities::scan_floating_point_string(std::string_view(text, std::size_t(n)))));
    r.put(ieme::parse_utilities::is_valid_digit_sequence(std::string_view(text, std::size_t(n)), 10));
  }
  return r;
}

// texts of any length: leading zeros, separators, long fractional parts
struct Form {
  int zeros, digits, exponent_zeros, style;
};

constexpr auto forms()
{
  std::array<Form, 6 * 20 * 4 * 12> out {};
  std::size_t k = 0;
  for (int zeros : {0, 1, 10, 20, 33, 70})
    for (int digits = 0; digits < 20; ++digits)
      for (int exponent_zeros : {0, 1, 20, 50})
        for (int style = 0; style < 12; ++style)
          out[k++] = {zeros, digits, exponent_zeros, style};
  return out;
}

std::string show(Form const& f)
{
  return std::to_string(f.zeros) + " zeros, " + std::to_string(f.digits) + " fractional digits, "
         + std::to_string(f.exponent_zeros) + " zeros in the exponent, style " + std::to_string(f.style);
}

Row written(Form f)
{
  Row r;
  char text[400];
  int n = 0;
  bool const hex = f.style & 1, separated = f.style & 2;
  if (hex)
    text[n++] = '0', text[n++] = 'x';
  auto const digit = [&](char c, bool last) {
    text[n++] = c;
    if (separated && !last)
      text[n++] = '\'';
  };
  for (int i = 0; i < f.zeros; ++i)
    digit('0', false);
  digit('7', true);
  text[n++] = '.';
  // only as many as the representation can have
  int const fractional = std::min(f.digits, hex ? std::numeric_limits<Rep>::digits / 4 - 1 : std::numeric_limits<Rep>::digits10 - 1);
  for (int i = 0; i < fractional; ++i)
    digit(f.style & 8 && i + 1 == fractional ? '5' : '0', i + 1 == fractional);
  if (hex || f.style & 4)
  {
    text[n++] = hex ? 'p' : 'E';
    text[n++] = f.style & 8 ? '-' : '+';
    for (int i = 0; i < f.exponent_zeros; ++i)
      digit('0', false);
    digit('0', true);
  }
  std::string_view const all(text, std::size_t(n));
  r.put(ieme::floating_point_string_to_fraction<Rep>(all));
  r.put(ieme::floating_point_string_to_fraction<Rep, ops::fast>(all));
  r.put(bool(ieme::parse_utilities::scan_floating_point_string(all)));
  // and malformed
  text[n++] = 'z';
  r.put(ieme::floating_point_string_to_fraction<Rep>(std::string_view(text, std::size_t(n))));
  return r;
}

// ------------------------------------------------------ what the compiler knows

void need(bool good, char const* what)
{
  begin(what);
  ++states;
  ++transitions;
  ++traces;
  if (!good)
    fail(what);
}

#define NEED(...) need((__VA_ARGS__), #__VA_ARGS__)
#define QUIET(...) need(noexcept(__VA_ARGS__), "noexcept(" #__VA_ARGS__ ")")

template <typename T>
void plain()
{
  NEED(std::is_trivially_copyable_v<T>);
  NEED(std::is_trivially_destructible_v<T>);
  NEED(std::is_standard_layout_v<T>);
  NEED(!std::is_polymorphic_v<T>);
  NEED(std::is_nothrow_default_constructible_v<T>);
  NEED(std::is_nothrow_copy_constructible_v<T> && std::is_nothrow_copy_assignable_v<T>);
  NEED(std::is_nothrow_move_constructible_v<T> && std::is_nothrow_move_assignable_v<T>);
  NEED(std::is_nothrow_swappable_v<T>);
}

template <typename Ops>
void known()
{
  using namespace ieme;
  using F = fraction<Rep, Ops>;
  using M = mixed_number<Rep, Rep, Ops>;
  using R = raw_fraction<Rep>;
  F x(1, 2);
  F const y(1, 3);
  Rep s(2);
  M m(y);
  R q(1, 2);
  NEED(sizeof(F) == 2 * sizeof(Rep) && sizeof(R) == 2 * sizeof(Rep));
  NEED(alignof(F) == alignof(Rep) && alignof(R) == alignof(Rep));
  NEED(sizeof(M) == 3 * sizeof(Rep) && alignof(M) == alignof(Rep));
  NEED(sizeof(chrono::duration<Rep, std::milli, Ops>) == 2 * sizeof(Rep));
  plain<F>();
  plain<M>();
  plain<R>();
  QUIET(F(s));
  QUIET(F(s, s));
  QUIET(F(q));
  QUIET(F(std::ratio<1, 2>()));
  QUIET(fraction<long long, Ops>(y));
  QUIET(fraction<Rep, ops::fast>(y));
  QUIET(x.num() = y.num());
  QUIET(x.denominator() = y.denominator());
  QUIET(x.raw() = y.raw());
#define OPERATOR(op) QUIET(x op y), QUIET(x op s), QUIET(s op y)
  OPERATOR(+), OPERATOR(-), OPERATOR(*), OPERATOR(/), OPERATOR(%);
  OPERATOR(==), OPERATOR(!=), OPERATOR(<), OPERATOR(<=), OPERATOR(>), OPERATOR(>=);
#undef OPERATOR
#define ASSIGN(op) QUIET(x op y), QUIET(x op s)
  ASSIGN(+=), ASSIGN(-=), ASSIGN(*=), ASSIGN(/=), ASSIGN(%=);
#undef ASSIGN
  QUIET(+y);
  QUIET(-y);
#define FUNCTION(f) QUIET(f(y))
  FUNCTION(is_defined), FUNCTION(is_undefined), FUNCTION(is_positive), FUNCTION(is_non_negative), FUNCTION(is_zero),
    FUNCTION(is_non_positive), FUNCTION(is_negative), FUNCTION(is_integer), FUNCTION(is_unit_fraction),
    FUNCTION(is_reduced), FUNCTION(is_reduced_ignore_signs), FUNCTION(is_proper), FUNCTION(is_improper);
  FUNCTION(reduce), FUNCTION(reduce_normalize_signs), FUNCTION(reduce_ignore_signs), FUNCTION(normalize_signs),
    FUNCTION(reciprocal), FUNCTION(abs), FUNCTION(trunc), FUNCTION(ceil), FUNCTION(floor), FUNCTION(round),
    FUNCTION(to_whole), FUNCTION(to_float), FUNCTION(to_double), FUNCTION(to_long_double), FUNCTION(ieme::hash);
#undef FUNCTION
#define RAW(f) QUIET(f(q))
  RAW(is_defined), RAW(is_undefined), RAW(is_positive), RAW(is_non_negative), RAW(is_zero), RAW(is_non_positive),
    RAW(is_negative), RAW(is_integer), RAW(is_unit_fraction), RAW(is_reduced), RAW(is_reduced_ignore_signs),
    RAW(is_proper), RAW(is_improper), RAW(reduce), RAW(reduce_normalize_signs), RAW(reduce_ignore_signs),
    RAW(normalize_signs), RAW(reciprocal), RAW(ieme::hash);
#undef RAW
  QUIET(are_identical(q, q));
  QUIET(are_different(q, q));
  QUIET(reduce(q, reduce_mode::ignore_signs));
  QUIET(R(s, s));
  QUIET(raw_fraction<long long>(q));
  QUIET(std::hash<R>()(q));
  QUIET(std::hash<M>()(m));
  QUIET(ieme::hash(m));
  QUIET(reduce(y, reduce_mode::ignore_signs));
  QUIET(to_whole(y, round_mode::ceil));
  QUIET(redenominate(y, s));
  QUIET(redenominate(y, s, round_mode::floor));
  QUIET(trunc_redenominate(y, s));
  QUIET(ceil_redenominate(y, s));
  QUIET(floor_redenominate(y, s));
  QUIET(round_redenominate(y, s));
  QUIET(are_identical(y, y));
  QUIET(are_different(y, y));
  QUIET(ieme::pow<Rep, Ops>(s, 3));
  QUIET(ieme::pow2<Rep, Ops>(3));
  QUIET(to_fraction<Rep, Ops>(1.5));
  QUIET(to_fraction<Rep, Ops>(1.5f));
  QUIET(floating_point_string_to_fraction<Rep, Ops>(std::string_view("1.5")));
  QUIET(m + m);
  QUIET(m + y);
  QUIET(y + m);
  QUIET(m + s);
  QUIET(s + m);
  QUIET(+m);
  QUIET(-m);
  QUIET(M(s, y));
  QUIET(F(m));
  QUIET(m.as_fraction());
  QUIET(m.whole());
  QUIET(m.fractional());
  QUIET(limits<F>::max());
  QUIET(limits<F>::smallest());
  QUIET(limits<F>::min());
  QUIET(limits<M>::min());
  QUIET(limits<M>::max());
  QUIET(limits<M>::undefined());
  QUIET(limits<M>::smallest());
  QUIET(M());
  QUIET(M(s));
  QUIET(M(fraction<Rep, ops::fast_reduced_io>(y)));
  QUIET(limits<F>::undefined());
  QUIET(std::numeric_limits<F>::lowest());
  std::chrono::duration<Rep, std::milli> const whole(s);
  QUIET(chrono::to_fractional(whole));
  std::chrono::time_point<std::chrono::system_clock, std::chrono::duration<Rep, std::milli>> const point(whole);
  QUIET(chrono::to_fractional(point));
  QUIET(std::hash<F>()(y));
}

template <typename Ops>
void policy()
{
  std::string const n = pol::name<Ops>();
  check<tuples, binary<Ops>>("pairs/" + n);
  check<singles, single<Ops>>("single/" + n);
  check<singles, derived<Ops>>("derived/" + n);
  check<power_cases, powers<Ops>>("powers/" + n);
  check<tuples, timed<Ops>>("durations, conversions/" + n);
  check<bound_cases, bounds<Ops>>("bounds/" + n);
  check<singles, at_run_time<Ops>>("run time only/" + n);
  add("types/" + n, known<Ops>);
}

[[maybe_unused]] int const registered = [] {
  pol::each_policy([](auto t) { policy<typename decltype(t)::type>(); });
  check<strings_up_to_4, parsed, 1>("strings");
  check<longer_strings, parsed, 1>("longer strings");
  check<longer_strings, refused>("malformed strings");
  check<forms, written>("long numbers");
  // the counter counts
  add("counter", [] {
    begin("an allocation by new is counted");
    ++states;
    allocations = 0;
    delete new int volatile(3);
    if (allocations == 0)
      fail("this check cannot see allocations here");
  });
  return 0;
}();

} // namespace

MC_MAIN
