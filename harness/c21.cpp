// C21: what the compiler computes is what the program computes, without
// undefined behaviour. Every case is evaluated twice by the same function: in a
// constant expression, where the compiler diagnoses undefined behaviour and
// anything that is not constexpr (this file then does not compile), and at run
// time on operands the optimiser cannot see, with traps on overflow and on bad
// shifts. -DPART selects the representation, -DGROUP the operations.
#include "policies.hpp"
#include "rows.hpp"

namespace {

// ------------------------------------------------------------------ the check

template <auto Cases, auto Fn>
constexpr auto at_compile_time()
{
  auto const cases = Cases();
  std::array<Row, std::tuple_size_v<decltype(cases)>> out {};
  for (std::size_t i = 0; i < out.size(); ++i)
    out[i] = Fn(cases[i]);
  return out;
}

std::string show(Tuple const& t)
{
  return str((i128)t.a) + "," + str((i128)t.b) + "," + str((i128)t.c) + "," + str((i128)t.d);
}

std::string show(Text const& t)
{
  return "\"" + std::string(t.s, std::size_t(t.n)) + "\"";
}

template <typename T>
T unseen(T const& t)
{
  T volatile const* p = &t;
  T out;
  auto const* from = reinterpret_cast<unsigned char const volatile*>(p);
  auto* to = reinterpret_cast<unsigned char*>(&out);
  for (std::size_t i = 0; i < sizeof(T); ++i)
    to[i] = from[i];
  return out;
}

template <auto Cases, auto Fn>
void check(std::string const& name)
{
  add(name, [=] {
    static constexpr auto table = at_compile_time<Cases, Fn>();
    static auto const cases = Cases();
    for (std::size_t i = 0; i < table.size(); ++i)
    {
      begin("case number", i);
      ++states;
      ++traces;
      auto const c = unseen(cases[i]);
      Row const r = Fn(c);
      transitions += u64(r.n);
      if (r.n != table[i].n)
        fail(name + " on " + show(c) + ": other answers at compile time than at run time");
      for (int j = 0; j < r.n; ++j)
        if (r.v[j] != table[i].v[j])
          fail(name + " on " + show(c) + ": answer " + std::to_string(j) + " is " + std::to_string(table[i].v[j])
               + " at compile time and " + std::to_string(r.v[j]) + " at run time");
      if (want_sample() && r.n)
        sample(name + " on " + show(c) + ": " + std::to_string(r.n) + " answers agree");
    }
  });
}

[[maybe_unused]] int const registered = [] {
#if GROUP == 0
  check<tuples, binary<ops::safe_reduced_io>>("binary/safe_reduced_io");
#elif GROUP == 1
  check<tuples, binary<ops::fast>>("binary/fast");
  check<tuples, binary<ops::fast_reduced_o>>("binary/fast_reduced_o");
#elif GROUP == 2
  check<tuples, binary<ops::safe>>("binary/safe");
  check<power_cases, powers<ops::defaults>>("powers");
#elif GROUP == 3
  check<singles, single<ops::defaults>>("single/defaults");
  check<singles, single<ops::fast>>("single/fast");
#elif GROUP == 4
  check<singles, derived<ops::defaults>>("derived/defaults");
  check<singles, derived<ops::fast>>("derived/fast");
#elif GROUP == 5
  check<strings_up_to_4, parsed>("strings");
  check<longer_strings, parsed>("longer strings");
#elif GROUP == 6
  check<tuples, timed<ops::defaults>>("durations, limits, literals/defaults");
  check<tuples, timed<ops::fast_reduced_i>>("durations, limits, literals/fast_reduced_i");
  check<bound_cases, bounds<ops::defaults>>("bounds/defaults");
  check<bound_cases, bounds<ops::safe>>("bounds/safe");
  check<bound_cases, bounds<ops::fast>>("bounds/fast");
  check<bound_cases, bounds<ops::fast_reduced_io>>("bounds/fast_reduced_io");
#elif GROUP == 7
  check<tuples, binary<ops::safe_reduced_o>>("binary/safe_reduced_o");
  check<tuples, binary<pol::ri_norm>>("binary/reduced_input<safe,normalize_signs>");
#else
  check<tuples, binary<ops::fast_reduced_io>>("binary/fast_reduced_io");
  check<tuples, binary<ops::safe_reduced_i>>("binary/safe_reduced_i");
#endif
  return 0;
}();

} // namespace

MC_MAIN
