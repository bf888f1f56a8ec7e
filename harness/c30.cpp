// C30: the same answers in every environment. The operations of rows.hpp on whole
// case sets, folded into one number per unit. Built natively with many compilers
// and options, the program prints the numbers; for other machines the compiler
// evaluates the same units in constant expressions and names the numbers in its
// diagnostics. -DPART selects the representation; nothing is random.
#define PORTABLE
#include "rows.hpp"

#include <utility>

namespace {

struct Sum {
  u64 v = 14695981039346656037ull;
  u64 cases = 0;
  u64 answers = 0;
  constexpr void mix(u64 x)
  {
    v = (v ^ x) * 1099511628211ull;
    v ^= v >> 29;
  }
};

template <auto Cases, auto Fn>
constexpr Sum fold(std::size_t first, std::size_t last)
{
  Sum s;
  auto const cases = Cases();
  for (std::size_t i = first; i < cases.size() && i < last; ++i)
  {
    Row const r = Fn(cases[i]);
    ++s.cases;
    s.answers += u64(r.n);
    s.mix(u64(r.n));
    for (int j = 0; j < r.n; ++j)
      s.mix(r.v[j]);
  }
  return s;
}

} // namespace

#define UNITS(X)                                                               \
  X(0, tuples, binary<ops::safe_reduced_io>, "arithmetic and comparisons, safe_reduced_io")   \
  X(1, tuples, binary<ops::fast>, "arithmetic and comparisons, fast")          \
  X(2, singles, single<ops::defaults>, "queries, reduction, rounding, conversions, default policy") \
  X(3, singles, derived<ops::defaults>, "redenominating, mixed numbers, default policy")      \
  X(4, power_cases, powers<ops::defaults>, "powers")                           \
  X(5, strings_up_to_4, parsed, "strings of up to four characters")            \
  X(6, longer_strings, parsed, "longer strings")                               \
  X(7, tuples, timed<ops::defaults>, "durations, literals, conversions")       \
  X(8, tuples, binary<ops::safe>, "arithmetic and comparisons, safe")          \
  X(9, tuples, binary<ops::fast_reduced_io>, "arithmetic and comparisons, fast_reduced_io")   \
  X(10, singles, single<ops::fast>, "queries, reduction, rounding, conversions, fast")        \
  X(11, singles, derived<ops::fast>, "redenominating, mixed numbers, fast")    \
  X(12, tuples, binary<ops::safe_reduced_i>, "arithmetic and comparisons, safe_reduced_i")    \
  X(13, tuples, binary<ops::safe_reduced_o>, "arithmetic and comparisons, safe_reduced_o")

#ifdef ELSEWHERE // another machine: the compiler tells what it computed

template <int Unit, u64 Digest, u64 Cases, u64 Answers>
struct answer;
template <std::size_t Case, long long... Answers>
struct answers;

template <int Unit>
struct chosen;

#define X(N, CASES, FN, NAME)                                                  \
  template <>                                                                  \
  struct chosen<N> {                                                           \
    static constexpr Sum sum(std::size_t first, std::size_t last) { return fold<CASES, FN>(first, last); } \
    static constexpr Row row(std::size_t i) { return FN(CASES()[i]); }         \
  };
UNITS(X)

#ifdef CASE // all answers of one case
constexpr Row row_of_it = chosen<UNIT>::row(CASE);
template <std::size_t... I>
answers<CASE, (long long)row_of_it.v[I]...> told(std::index_sequence<I...>);
auto const the_answers = sizeof(told(std::make_index_sequence<row_of_it.n> {}));
#else
constexpr Sum sum_of_it = chosen<UNIT>::sum(FIRST, LAST);
answer<UNIT, sum_of_it.v, sum_of_it.cases, sum_of_it.answers> the_answer;
#endif

#else // here

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sstream>
#include <vector>

namespace {

// What is not constexpr: streams, and floating-point numbers to fractions.
Row streamed(Tuple t)
{
  Row r;
  using F = ieme::fraction<Rep>;
  F const x {t.a, t.b};
  std::ostringstream o;
  o << x << ' ' << x.raw();
  for (char c : o.str())
    if (r.n < 47)
      r.put(int(c));
  return r;
}

Row read(Tuple t)
{
  Row r;
  std::istringstream i(std::to_string(t.a) + "/" + std::to_string(t.b) + " " + std::to_string(t.b) + "/x");
  ieme::fraction<Rep> x(3, 4);
  i >> x;
  r.put(x);
  r.put(bool(i));
  ieme::raw_fraction<Rep> y(5, 6);
  i >> y;
  r.put(bool(i));
  return r;
}

Row floating(Tuple t)
{
  Row r;
  if (!small(t.a) || t.b < 0 || t.b > 8)
    return r;
  double const x = double(t.a) / double(1 << int(t.b));
  r.put(ieme::to_fraction<Rep>(x));
  r.put(ieme::to_fraction<Rep, ops::fast>(x));
  r.put(ieme::to_fraction<Rep>(float(x)));
  return r;
}

#ifndef NARROW
Row hashed(Tuple t)
{
  Row r;
  using F = ieme::fraction<Rep>;
  i128 const a = t.a, b = t.b;
  if (b == 0 || !all_fit<Rep>(a, b, a * 2, b * 2))
    return r;
  r.put(std::hash<F>()(F(t.a, t.b)) == std::hash<F>()(F(Rep(t.a * 2), Rep(t.b * 2))));
  r.put(ieme::hash(F(t.a, t.b)) == ieme::hash(F(Rep(t.a * 2), Rep(t.b * 2))));
  return r;
}
#endif

struct Unit {
  int number;
  char const* name;
  Sum (*sum)(std::size_t, std::size_t);
  Row (*row)(std::size_t);
  std::string (*operands)(std::size_t);
};

std::string show(Tuple const& t)
{
  return std::to_string(t.a) + "," + std::to_string(t.b) + "," + std::to_string(t.c) + "," + std::to_string(t.d);
}

std::string show(Text const& t)
{
  return "'" + std::string(t.s, std::size_t(t.n)) + "'";
}

// operands the optimiser cannot see
template <auto Cases>
auto const& cases_of()
{
  static auto (*volatile make)() = +Cases;
  static auto const& cases = *new auto(make());
  return cases;
}

template <auto Cases, auto Fn>
constexpr Unit unit(int number, char const* name)
{
  return {number, name,
          [](std::size_t first, std::size_t last) {
            Sum s;
            auto const& cases = cases_of<Cases>();
            for (std::size_t i = first; i < cases.size() && i < last; ++i)
            {
              Row const r = Fn(cases[i]);
              ++s.cases;
              s.answers += u64(r.n);
              s.mix(u64(r.n));
              for (int j = 0; j < r.n; ++j)
                s.mix(r.v[j]);
            }
            return s;
          },
          [](std::size_t i) { return Fn(cases_of<Cases>()[i]); },
          [](std::size_t i) { return show(cases_of<Cases>()[i]); }};
}

Unit const all_units[] = {
#define X(N, CASES, FN, NAME) unit<CASES, FN>(N, NAME),
  UNITS(X)
#ifndef NARROW
  X(14, singles, streamed, "stream output")
  X(15, singles, read, "stream input")
  X(16, singles, floating, "floating-point numbers to fractions")
  X(17, singles, hashed, "hashes")
#endif
};

} // namespace

// c30                    every unit: number, name, digest, cases, answers
// c30 N FIRST LAST       the digest of these cases of a unit
// c30 N CASE             the operands and answers of one case
int main(int argc, char** argv)
{
  if (argc == 1)
    for (auto const& u : all_units)
    {
      Sum const s = u.sum(0, 1000000);
      std::printf("%d\t%s\t%llu\t%llu\t%llu\n", u.number, u.name, (unsigned long long)s.v,
                  (unsigned long long)s.cases, (unsigned long long)s.answers);
      std::fflush(stdout);
    }
  for (auto const& u : all_units)
    if (argc > 1 && u.number == std::atoi(argv[1]))
    {
      auto const first = std::strtoull(argv[2], nullptr, 10);
      if (argc > 3)
      {
        std::printf("%llu\n", (unsigned long long)u.sum(first, std::strtoull(argv[3], nullptr, 10)).v);
        continue;
      }
      std::printf("(%s):", u.operands(first).c_str());
      Row const r = u.row(first);
      for (int j = 0; j < r.n; ++j)
        std::printf(" %lld", (long long)r.v[j]);
      std::puts("");
    }
}

#endif
