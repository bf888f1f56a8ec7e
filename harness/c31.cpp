// C31: no operation takes long. Every operation of rows.hpp (and those that are not
// constant expressions) on complete sets of operands, the worst for known
// algorithms among them, with every basic block executed counted (gcc's
// -fsanitize-coverage=trace-pc calls the function below) and a limit on each answer:
// a multiple of the number of bits, plus one of the length of a text.
// -DPART selects Rep.
#include "policies.hpp"
#ifndef BOX
#  define BOX 3
#endif

namespace {

// volatile: the compiler believes its call below leaves our variables alone
unsigned long volatile steps = 0, most = 0, limit = ~0ul;
bool volatile counting = false;
unsigned long longest = 0;

[[gnu::no_sanitize_coverage]] inline void answered()
{
  unsigned long const n = steps;
  if (n > most)
    most = n;
  steps = 0;
}

[[gnu::no_sanitize_coverage, gnu::noinline]] void too_long();

} // namespace

extern "C" [[gnu::no_sanitize_coverage]] void __sanitizer_cov_trace_pc()
{
  unsigned long const n = steps + 1;
  steps = n;
  if (n > limit && counting)
    too_long();
}

#define ROW_HOOK answered
#include "rows.hpp"

#include <cmath>
#include <string_view>
#include <vector>

namespace {

std::string (*volatile described)() = nullptr;
bool volatile trial = false; // seeing whether the limit works

void too_long()
{
  counting = false;
  if (trial)
    return;
  fail(described() + ": no answer within " + std::to_string(limit) + " steps");
}

void const* volatile now = nullptr; // the case

template <typename T>
std::string describe_now();

constexpr unsigned long bits = std::numeric_limits<Rep>::digits + std::is_signed_v<Rep>;

std::string show(Tuple const& t)
{
  return str((i128)t.a) + "," + str((i128)t.b) + "," + str((i128)t.c) + "," + str((i128)t.d);
}

// (declared here, for show() of the types below)
struct Power;
struct Quotient;
std::string show(Power const&);
std::string show(Quotient const&);

template <typename T>
std::string describe_now()
{
  return show(*static_cast<T const*>(now));
}

// Fn answers within per_bit * bits (+ per_character * length) steps each time.
// (what the answers take now is a tenth of that; compiled without optimisation, which
// could turn one algorithm into another)
constexpr unsigned long base_steps = 1000, per_bit = 800, per_character = 100, per_exponent = 50;

template <auto Cases, auto Fn>
void check(std::string const& name)
{
  add(name, [=] {
    static auto (*volatile make)() = +Cases;
    static auto const cases = make();
    u64 number = 0;
    for (auto const& c : cases)
    {
      begin(name.c_str(), number++);
      ++states;
      ++traces;
      now = &c;
      described = describe_now<std::decay_t<decltype(c)>>;
      limit = base_steps + per_bit * bits;
      steps = 0;
      most = 0;
      counting = true;
      Row const r = Fn(c);
      counting = false;
      transitions += u64(r.n);
      longest = std::max<unsigned long>(longest, +most);
      if (want_sample() && r.n)
        sample(name + " on " + show(c) + ": " + std::to_string(r.n) + " answers, none after more than "
               + std::to_string(most) + " steps");
    }
    samples.push_back("the longest answer of " + name + " took " + std::to_string(longest) + " of " + std::to_string(limit) + " steps");
  });
}

// ------------------------------------------------------------------ operands

// Neighbouring Fibonacci numbers (Euclid's worst case), 1 and the largest values
// (subtraction's), powers of two and of three, near half of the bits (so that
// products fit) and near all of them.
constexpr auto worst()
{
  std::vector<i128> out;
  i128 const top = hi_;
#ifdef DEEP
  for (int part : {4, 3, 2, 1})
#else
  for (int part : {2, 1})
#endif
  {
    i128 const bound = part == 1 ? top : (i128(1) << (std::numeric_limits<Rep>::digits / part)) - 1;
    i128 x = 1, y = 2, two = 1, three = 1;
    while (x + y <= bound)
    {
      i128 const z = x + y;
      x = y;
      y = z;
    }
    while (two * 2 <= bound)
      two *= 2;
    while (three * 3 <= bound)
      three *= 3;
    // large ones first: what takes long should not do so often
    for (i128 v : {bound, y, bound - 1, x, three, two, bound / 2 + 1, bound / 2, bound / 3})
      out.push_back(v);
  }
  for (i128 v : {i128(3), i128(2), i128(1), i128(0)})
    out.push_back(v);
  return out;
}

constexpr auto worst_pairs()
{
  auto const w = worst();
  std::size_t const s = std::is_signed_v<Rep> ? 3 : 1;
  std::vector<Tuple> out;
  for (i128 a : w)
    for (i128 b : w)
      for (i128 c : w)
        for (i128 d : w)
          for (std::size_t g = 0; g < s; ++g)
            out.push_back({Rep(g == 1 ? -a : a), Rep(g == 2 ? -b : b), Rep(g ? -c : c), Rep(d)});
  return out;
}

constexpr auto worst_singles()
{
  auto const w = worst();
  std::vector<Tuple> out;
  for (i128 a : w)
    for (i128 b : w)
      for (i128 k : w)
        for (int g = 0; g < (std::is_signed_v<Rep> ? 8 : 1); ++g)
          out.push_back({Rep(g & 1 ? -a : a), Rep(g & 2 ? -b : b), Rep(g & 4 ? -k : k), 0});
  // the lowest value
  for (i128 a : w)
  {
    out.push_back({Rep(lowest<Rep>()), Rep(a), 3, 0});
    out.push_back({Rep(a), Rep(lowest<Rep>()), 3, 0});
  }
  return out;
}

// ---------------------------------------------------------------- operations

template <typename Ops>
Row more(Tuple t)
{
  Row r;
  using F = ieme::fraction<Rep, Ops>;
  using M = ieme::mixed_number<Rep, Rep, Ops>;
  i128 const a = t.a, b = t.b;
  F const x {t.a, t.b};
  r.put(std::hash<ieme::raw_fraction<Rep>>()(x.raw()));
  // undefined fractions of any numerator, in whatever order
  if (!all_fit<Rep>(a, b))
    return r;
  r.put(ieme::hash(x));
  r.put(std::hash<F>()(x));
  if (b > 1 && a > i128(std::numeric_limits<Rep>::min()))
  {
    M const m(x), n(t.a, F(Rep(1), t.b));
    r.put(m);
    r.put(ieme::hash(m));
    r.put(std::hash<M>()(n));
    if (fits<Rep>(a / b * b))
      r.put(m.as_fraction());
    // carries as much as there is
    if (iabs(t.c) < 4 && a < i128(hi_) / 4 && a > -i128(hi_) / 4 && b < i128(hi_) / 8)
    {
      M const carried(t.c, x);
      r.put(carried);
      if (std::is_signed_v<Rep>)
        r.put(-carried);
    }
    if (t.c == 1 && a < i128(hi_) / 4 && a > -i128(hi_) / 4)
      r.put(m + m.whole());
  }
  return r;
}

template <typename Ops>
Row in_time(Tuple t)
{
  Row r;
  using F = ieme::fraction<Rep, Ops>;
  i128 const a = t.a, b = t.b;
  if (b == 0 || !all_fit<Rep>(a, b) || !fits<Rep>(mul<Rep>(a, 28657)) || !fits<Rep>(mul<Rep>(b, 28657)))
    return r;
  using T = std::chrono::duration<F, std::ratio<1, 17711>>;
  using U = std::chrono::duration<F, std::ratio<28657>>;
  F const x {t.a, t.b};
  if (fits<Rep>(mul<Rep>(b, 17711)))
    r.put(std::chrono::duration<F>(T(x)).count());
  r.put(std::chrono::duration<F>(U(x)).count());
  r.put(U(x) == U(x));
  r.put(ieme::chrono::to_fractional(std::chrono::duration<Rep, std::nano>(t.a)).count());
  return r;
}

// Powers of what stays small, and those that fit, with exponents of every magnitude.
struct Power {
  int a, b;
};

std::string show(Power const& p)
{
  return std::to_string(p.a) + "," + std::to_string(p.b);
}

// per_exponent * |exponent| steps are fine, too
template <typename Ops>
Row power(Power p)
{
  limit = limit + per_exponent * (unsigned long)std::abs(p.b);
  Row r;
  r.put(ieme::pow<Rep, Ops>(Rep(p.a), p.b));
  return r;
}

constexpr auto exponents()
{
  std::vector<Power> out;
  for (int e = -4100; e <= 4100; ++e)
    for (int base : {1, 0, -1})
      if (!(base == 0 && e < 0) && !(base < 0 && std::is_unsigned_v<Rep>))
        out.push_back({base, e});
  return out;
}

struct Quotient {
  int a, b, c, d;
};

// a/b * 2^c as floating-point values, d says which type
constexpr auto floats()
{
  std::vector<Quotient> out;
  for (int a : {0, 1, -1, 3, 5, 4095, 1000003, 16777215, -16777215})
    for (int b : {1, 3, 7, 10, 1000})
      for (int c = -1080; c <= 1030; ++c)
        for (int d = 0; d < 2; ++d)
          if (!(a < 0 && std::is_unsigned_v<Rep>))
            out.push_back({a, b, c, d});
  return out;
}

std::string show(Quotient const& q)
{
  return std::to_string(q.a) + "/" + std::to_string(q.b) + "*2^" + std::to_string(q.c);
}

// Those the representation has, and those (not a number, infinite) none has.
Row from_float(Quotient q)
{
  Row r;
  double v = std::ldexp(double(q.a) / q.b, q.c);
  if (q.d)
    v = float(v);
  bool const special = !(v - v == 0);
  int e = 0;
  double m = special ? 0 : std::frexp(v, &e); // v = m * 2^e, 0.5 <= |m| < 1
  while (m != double(i64(m)))
    m *= 2, --e;
  i64 const n = i64(m);
  bool const one = n == 0 || special;
  constexpr int digits = std::numeric_limits<Rep>::digits;
  if (!one && !(e >= 0 ? e < digits && fits<Rep>(i128(n) << e) : -e < digits && fits<Rep>(n)))
    return r;
  steps = 0;
  if (q.d)
    r.put(ieme::to_fraction<Rep>(float(v)));
  else
    r.put(ieme::to_fraction<Rep>(v));
  return r;
}

// --------------------------------------------------------------------- texts

struct Form {
  int zeros, fraction_zeros, exponent_zeros, style;
};

void texts()
{
  std::string text;
  for (int zeros : {0, 1, 10, 300, 4000})
    for (int fraction_zeros : {0, 1, 8, 300, 4000})
      for (int exponent_zeros : {0, 1, 300, 4000})
        for (int style = 0; style < 32; ++style)
        {
          bool const hex = style & 1, separated = style & 2, malformed = style & 16;
          text.clear();
          auto const digits = [&](int n, char last) {
            for (int i = 0; i < n; ++i)
            {
              text += '0';
              if (separated)
                text += '\'';
            }
            text += last;
          };
          if (hex)
            text += "0x";
          digits(zeros, hex ? 'F' : '7');
          text += '.';
          // more than the representation has is for malformed texts only
          if (fraction_zeros > 8 && !malformed)
            continue;
          digits(fraction_zeros > 3 && bits < 64 && !malformed ? 3 : fraction_zeros, '1');
          if (hex || style & 4)
          {
            text += hex ? 'p' : 'E';
            text += style & 8 ? '-' : '+';
            digits(exponent_zeros, '1');
          }
          if (malformed)
            text += style & 8 ? 'z' : '\'';
          begin_text("text", text.data(), text.size());
          ++states;
          ++traces;
          described = [] { return std::string("a text"); };
          limit = base_steps + per_bit * bits + per_character * text.size();
          Row r;
          steps = 0;
      most = 0;
          counting = true;
          r.put(ieme::floating_point_string_to_fraction<Rep>(text));
          r.put(ieme::floating_point_string_to_fraction<Rep, ops::fast>(text));
          r.put(bool(ieme::parse_utilities::scan_floating_point_string(text)));
          r.put(ieme::parse_utilities::is_valid_digit_sequence(text, 16));
          if (sizeof(Rep) == 8 && std::is_signed_v<Rep> && !malformed) // which throws
            r.put(ieme::literals::operator""_dec(text.c_str()));
          counting = false;
          transitions += u64(r.n);
          longest = std::max<unsigned long>(longest, +most);
          if (want_sample())
            sample("a text of " + std::to_string(text.size()) + " characters: none of the answers took more than "
                   + std::to_string(most) + " steps");
        }
  samples.push_back("the longest answer took " + std::to_string(longest) + " steps");
}

template <typename Ops>
void policy()
{
  std::string const n = pol::name<Ops>();
  check<tuples, binary<Ops>>("pairs/" + n);
  check<worst_pairs, binary<Ops>>("worst pairs/" + n);
  check<singles, single<Ops>>("single/" + n);
  check<worst_singles, single<Ops>>("worst single/" + n);
  check<singles, derived<Ops>>("derived/" + n);
  check<worst_singles, derived<Ops>>("worst derived/" + n);
  check<worst_singles, more<Ops>>("worst hashes and mixed numbers/" + n);
  check<worst_singles, in_time<Ops>>("worst durations/" + n);
  check<tuples, timed<Ops>>("durations, conversions/" + n);
  check<power_cases, powers<Ops>>("powers/" + n);
  check<exponents, power<Ops>>("large exponents/" + n);
  check<bound_cases, bounds<Ops>>("bounds/" + n);
}

[[maybe_unused]] int const registered = [] {
  pol::each_policy([](auto t) { policy<typename decltype(t)::type>(); });
  check<floats, from_float>("floating-point values");
  add("texts", texts);
  // the counter counts
  add("counter", [] {
    begin("a loop is counted");
    ++states;
    steps = 0;
    for (int volatile i = 0; i < 1000;)
    {
      i = i + 1;
    }
    if (steps < 1000)
      fail("this check cannot see steps here");
    trial = counting = true;
    limit = 1500;
    for (int volatile i = 0; i < 1000;)
    {
      i = i + 1;
    }
    if (counting)
      fail("this check does not notice what takes long here");
  });
  return 0;
}();

} // namespace

MC_MAIN
