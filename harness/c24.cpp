// C24: the default policy is the one selected. Compiled once per configuration:
// the IEME_DEFAULT_OPS_* macro (or none) comes from the command line, WANT names
// the policy it must select and WANT_INDEX its place in the list.
#include "policies.hpp"

#include <chrono>
#include <set>
#include <typeindex>
#include <typeinfo>

using namespace mc;
using namespace ref;
using namespace std::literals;

namespace {

namespace ops = ieme::ops;
using Want = ops::WANT;

template <typename T, typename U>
void same_type(char const* what)
{
  begin(what);
  ++states;
  ++transitions;
  if (!std::is_same_v<std::remove_cvref_t<T>, U>)
    fail(std::string(what) + " does not have the selected policy");
}

struct Clock {
  using rep = long long;
  using period = std::milli;
  using duration = std::chrono::duration<rep, period>;
  using time_point = std::chrono::time_point<Clock>;
  static constexpr bool is_steady = true;
  static time_point now() noexcept { return time_point(duration(3)); }
};

template <typename Rep>
void types_of()
{
  using F = ieme::fraction<Rep, Want>;
  same_type<ieme::fraction<Rep>, F>("fraction<Rep>");
  same_type<decltype(ieme::fraction {Rep(1), Rep(2)}), F>("fraction {n, d}");
  same_type<decltype(ieme::fraction(Rep(1))), F>("fraction(n)");
  same_type<decltype(ieme::fraction<Rep>(1, 2) + ieme::fraction<Rep>(1, 2)), F>("sum of fractions");
  same_type<decltype(ieme::pow<Rep>(Rep(2), 3)), F>("pow");
  same_type<decltype(ieme::pow2<Rep>(3)), F>("pow2");
  same_type<decltype(ieme::to_fraction<Rep>(1.5f)), F>("to_fraction(float)");
  same_type<decltype(ieme::to_fraction<Rep>(1.5)), F>("to_fraction(double)");
  same_type<decltype(ieme::floating_point_string_to_fraction<Rep>("1.5")), F>("floating_point_string_to_fraction");
  same_type<ieme::mixed_number<Rep>, ieme::mixed_number<Rep, Rep, Want>>("mixed_number<Rep>");
  same_type<ieme::mixed_number<Rep, long long>, ieme::mixed_number<Rep, long long, Want>>("mixed_number<Rep, Rep>");
  same_type<decltype(ieme::mixed_number<Rep>().as_fraction()), F>("mixed_number::as_fraction");
  same_type<decltype(ieme::mixed_number<Rep>().fractional()), F>("mixed_number::fractional");
  using D = std::chrono::duration<Rep, std::milli>;
  using FD = std::chrono::duration<F, std::milli>;
  same_type<ieme::chrono::duration<Rep, std::milli>, FD>("chrono::duration");
  same_type<ieme::chrono::duration_like<D>, FD>("chrono::duration_like");
  same_type<decltype(ieme::chrono::to_fractional(D(Rep(1)))), FD>("to_fractional(duration)");
  using TP = std::chrono::time_point<Clock, D>;
  using FTP = std::chrono::time_point<Clock, FD>;
  same_type<ieme::chrono::time_point<Clock, Rep, std::milli>, FTP>("chrono::time_point");
  same_type<ieme::chrono::time_point_like<TP>, FTP>("chrono::time_point_like");
  same_type<decltype(ieme::chrono::to_fractional(TP(D(Rep(1))))), FTP>("to_fractional(time_point)");
  // what does not depend on the default must not follow it
  same_type<ieme::fraction<Rep, ops::fast>, ieme::fraction<Rep, ops::fast>>("explicit policy");
  begin("explicit policies");
  if (std::is_same_v<ieme::fraction<Rep, ops::fast>, ieme::fraction<Rep, ops::safe>>)
    fail("explicitly named policies are one and the same");
}

void types()
{
  same_type<ops::defaults, Want>("ops::defaults");
  types_of<int>();
  types_of<unsigned>();
  types_of<long long>();
  types_of<unsigned long long>();
  using namespace ieme::literals;
  same_type<decltype(1 / 2_fr), ieme::fraction<int, Want>>("1 / 2_fr");
  same_type<decltype(1 / -2_fr), ieme::fraction<int, Want>>("1 / -2_fr");
  same_type<decltype(1 / +2_fr), ieme::fraction<int, Want>>("1 / +2_fr");
  same_type<decltype(1u / 2_fr), ieme::fraction<unsigned, Want>>("1u / 2_fr");
  same_type<decltype(1ll / 2_fr), ieme::fraction<long long, Want>>("1ll / 2_fr");
  same_type<decltype(ieme::fraction<int>(1, 3) / 2_fr), ieme::fraction<int, Want>>("fraction / 2_fr");
  same_type<decltype(2_fr)::ops_type, Want>("2_fr");
  same_type<decltype(1.5_dec), ieme::fraction<std::intmax_t, Want>>("1.5_dec");
  same_type<decltype(0x1.8p1_dec), ieme::fraction<std::intmax_t, Want>>("0x1.8p1_dec");
  same_type<ieme::chrono::seconds::rep, ieme::fraction<std::chrono::seconds::rep, Want>>("chrono::seconds");
  same_type<ieme::chrono::nanoseconds::rep, ieme::fraction<std::chrono::nanoseconds::rep, Want>>("chrono::nanoseconds");
  same_type<ieme::chrono::microseconds::rep, ieme::fraction<std::chrono::microseconds::rep, Want>>("chrono::microseconds");
  same_type<ieme::chrono::milliseconds::rep, ieme::fraction<std::chrono::milliseconds::rep, Want>>("chrono::milliseconds");
  same_type<ieme::chrono::minutes::rep, ieme::fraction<std::chrono::minutes::rep, Want>>("chrono::minutes");
  same_type<ieme::chrono::hours::rep, ieme::fraction<std::chrono::hours::rep, Want>>("chrono::hours");
  using W = ieme::chrono::clock_wrapper<Clock>;
  same_type<W::rep, ieme::fraction<long long, Want>>("clock_wrapper::rep");
  same_type<W::ops_type, Want>("clock_wrapper::ops_type");
  same_type<W::duration::rep, ieme::fraction<long long, Want>>("clock_wrapper::duration");
  same_type<decltype(W::now())::rep, ieme::fraction<long long, Want>>("clock_wrapper::now");
  // the eight names are eight policies
  begin("the names of the policies");
  std::set<std::type_index> const names {
    typeid(ops::safe*), typeid(ops::safe_reduced_i*), typeid(ops::safe_reduced_o*), typeid(ops::safe_reduced_io*),
    typeid(ops::fast*), typeid(ops::fast_reduced_i*), typeid(ops::fast_reduced_o*), typeid(ops::fast_reduced_io*)};
  ++states;
  ++transitions;
  if (names.size() != 8)
    fail("two names of policies denote one policy");
  sample("default policy: " + std::string(pol::name<ops::defaults>()));
}

// Every result with the default policy, next to the same with the policy named
// and to the exact value.
template <typename Rep>
void values(i128 n)
{
  using F = ieme::fraction<Rep>;
  using G = ieme::fraction<Rep, Want>;
  auto const v = box<Rep>(n);
  for (i128 b : v)
    for (i128 d : v)
      for (i128 a : v)
        for (i128 c : v)
        {
          if (b == 0 || d == 0)
            continue;
          begin("a/b and c/d under the default policy; a,b,c,d =", a, b, c, d);
          ++states;
          ++traces;
          F const x {Rep(a), Rep(b)}, y {Rep(c), Rep(d)};
          G const u {Rep(a), Rep(b)}, w {Rep(c), Rep(d)};
          auto is = [&](auto const& got, auto const& named, i128 en, i128 ed, char const* what) {
            ++transitions;
            if (got.num() != named.num() || got.den() != named.den())
              fail(std::string(what) + ": default gave " + pol::show(got) + ", the policy named " + pol::show(named));
            if (ed == 0 ? got.den() != 0 : got.den() == 0 || i128(got.num()) * ed != en * i128(got.den()))
              fail(std::string(what) + ": gave " + pol::show(got) + ", exact value " + str(en) + "/" + str(ed));
          };
          if (std::is_signed_v<Rep> || (a * d + c * b >= 0))
            is(x + y, u + w, a * d + c * b, b * d, "+");
          if (std::is_signed_v<Rep> || (a * d - c * b >= 0))
            is(x - y, u - w, a * d - c * b, b * d, "-");
          is(x * y, u * w, a * c, b * d, "*");
          is(x / y, u / w, c ? a * d : 0, c ? b * c : 0, "/");
          is(x % y, u % w, c ? (a * d) % (c * b) : 0, c ? b * d : 0, "%");
          ++transitions;
          int const k = compare(a, b, c, d);
          if ((x == y) != (k == 0) || (x < y) != (k < 0) || (x >= y) != (k >= 0) || (x != y) != (k != 0)
              || (x > y) != (k > 0) || (x <= y) != (k <= 0))
            fail("a comparison is wrong");
          // reduced output exactly under the policies that reduce it
          if (pol::canonical_output<Want>)
          {
            auto const p = x * y;
            Q const q = reduced(a * c, b * d);
            ++transitions;
            if (i128(p.num()) != q.n || i128(p.den()) != q.d)
              fail("a product is not reduced although the selected policy reduces output: " + pol::show(p));
          }
          if (d == 1 && c >= 0)
          { // literals, mixed numbers, durations of this value
            using namespace ieme::literals;
            auto const lit = x / ieme::operator""_fr((unsigned long long)(c + 1));
            is(lit, u / Rep(c + 1), a, b * (c + 1), "fraction / _fr");
            ieme::mixed_number<Rep> const m(x);
            ieme::mixed_number<Rep, Rep, Want> const e(u);
            is(m.fractional(), e.fractional(), a % b, b, "mixed number");
            using D = ieme::chrono::duration<Rep, std::ratio<1>>;
            using E = std::chrono::duration<G, std::ratio<1>>;
            is((D(x) + D(F(Rep(c)))).count(), (E(u) + E(G(Rep(c)))).count(), a + b * c, b, "sum of durations");
          }
        }
}

[[maybe_unused]] int const registered = [] {
  add("types", types);
  int const n = thorough() ? 14 : 6;
  add("values/int", [=] { values<int>(n); });
  add("values/unsigned", [=] { values<unsigned>(n + 2); });
  add("values/long long", [=] { values<long long>(n); });
  add("values/unsigned long long", [=] { values<unsigned long long>(n + 2); });
  return 0;
}();

} // namespace

MC_MAIN
