// C11: operators on different representations act on the common type;
// conversions and constructions keep both parts. -DPART selects the left
// representation, -DGROUP the policies.
#include "policies.hpp"

#include <ratio>

using namespace mc;
using namespace ref;

#if PART == 0
using Left = int;
#elif PART == 1
using Left = unsigned;
#elif PART == 2
using Left = long;
#elif PART == 3
using Left = long long;
#elif PART == 4
using Left = unsigned long long;
#else
using Left = unsigned long;
#endif

namespace {

template <typename T>
bool holds(i128 v)
{
  return v <= std::numeric_limits<T>::max() && v >= std::numeric_limits<T>::min();
}

template <typename T>
std::vector<i128> values(int few)
{
  std::vector<i128> v = box<T>(few);
  if constexpr (sizeof(T) >= 4)
  {
    for (i128 x : {(i128)46340, (i128)65536, (i128)2147483647, (i128)4294967295, (i128)3000000000,
                   (i128)1 << 40, hi<T>() / 2, hi<T>() - 1, hi<T>()})
      if (x <= hi<T>())
      {
        v.push_back(x);
        if (std::is_signed_v<T>)
          v.push_back(-x);
      }
  }
  else
    v.push_back(hi<T>());
  std::sort(v.begin(), v.end());
  v.erase(std::unique(v.begin(), v.end()), v.end());
  return v;
}

template <typename R>
constexpr char const* scalar_name()
{
  if constexpr (std::is_same_v<R, short>)
    return "short";
  else if constexpr (std::is_same_v<R, unsigned short>)
    return "unsigned short";
  else if constexpr (std::is_same_v<R, signed char>)
    return "signed char";
  else if constexpr (std::is_same_v<R, unsigned char>)
    return "unsigned char";
  else
    return pol::rep_name<R>();
}

template <typename Ops, typename C, typename R>
struct Tester {
  i128 a, b, c, d;
  char const* shape;

  [[noreturn]] void bad(char const* op, std::string const& got, std::string const& want) const
  {
    fail(std::string(pol::name<Ops>()) + " " + shape + " " + scalar_name<Left>() + " and "
         + scalar_name<R>() + " operator" + op + ": got " + got + ", expected " + want);
  }

  template <typename F>
  void value(F const& r, char const* op, i128 n, i128 den) const
  {
    ++transitions;
    if constexpr (!std::is_same_v<F, ieme::fraction<C, Ops>>)
      bad(op, "another type", "the common representation and the same policy");
    else if (i128(r.den()) == 0 || compare(r.num(), r.den(), n, den) != 0)
      bad(op, pol::show(r), str(n) + "/" + str(den));
  }

  void truth(bool got, char const* op, bool want) const
  {
    ++transitions;
    if (got != want)
      bad(op, got ? "true" : "false", want ? "true" : "false");
  }

  template <typename X, typename Y>
  void all(X const& x, Y const& y) const
  {
    i128 const ad = mul<C>(a, d), cb = mul<C>(c, b), bd = mul<C>(b, d), ac = mul<C>(a, c);
    bool const add = all_fit<C>(ad, cb, bd);
    if (add && fits<C>(ad + cb))
      value(x + y, "+", ad + cb, bd);
    if (add && fits<C>(ad - cb))
      value(x - y, "-", ad - cb, bd);
    if (all_fit<C>(ac, bd))
      value(x * y, "*", ac, bd);
    if (all_fit<C>(ad, cb) && c != 0)
      value(x / y, "/", ad, cb);
    if (add && c != 0)
      value(x % y, "%", ad % cb, bd);
    if (add)
    {
      int const k = ref::compare(a, b, c, d);
      truth(x == y, "==", k == 0);
      truth(x != y, "!=", k != 0);
      truth(x < y, "<", k < 0);
      truth(x <= y, "<=", k <= 0);
      truth(x > y, ">", k > 0);
      truth(x >= y, ">=", k >= 0);
    }
  }
};

template <typename L, typename R, typename Ops>
void pair_of_fractions(i128 a, i128 b, i128 c, i128 d)
{
  using C = std::common_type_t<L, R>;
  ++traces;
  ieme::fraction<L, Ops> const x {L(a), L(b)};
  ieme::fraction<R, Ops> const y {R(c), R(d)};
  Tester<Ops, C, R> {a, b, c, d, "fraction-fraction"}.all(x, y);
}

template <typename L, typename R, typename Ops>
void with_scalar(i128 a, i128 b, i128 c)
{
  using C = std::common_type_t<L, R>;
  ++traces;
  ieme::fraction<L, Ops> const x {L(a), L(b)};
  Tester<Ops, C, R> {a, b, c, 1, "fraction-scalar"}.all(x, R(c));
  Tester<Ops, C, R> {c, 1, a, b, "scalar-fraction"}.all(R(c), x);
}

template <typename F>
void group(F&& f)
{
  namespace o = ieme::ops;
#if GROUP == 0
  f(pol::tag<o::safe_reduced_io> {});
  f(pol::tag<o::safe> {});
  f(pol::tag<o::fast> {});
#elif GROUP == 1
  f(pol::tag<o::fast_reduced_io> {});
  f(pol::tag<o::safe_reduced_o> {});
  f(pol::tag<o::fast_reduced_i> {});
#else
  f(pol::tag<o::safe_reduced_i> {});
  f(pol::tag<o::fast_reduced_o> {});
  f(pol::tag<pol::ri_norm> {});
  f(pol::tag<pol::ro_ign> {});
#endif
}

template <typename R>
void fractions(std::size_t slice, int few)
{
  using C = std::common_type_t<Left, R>;
  auto const l = values<Left>(few), r = values<R>(few);
  std::size_t k = 0;
  for (i128 b : l)
    for (i128 d : r)
      if (k++ % 4 == slice && b != 0 && d != 0 && holds<C>(b) && holds<C>(d))
        for (i128 a : l)
          for (i128 c : r)
          {
            if (!all_fit<C>(a, b, c, d))
              continue;
            begin("(a/b) op (c/d) of different representations, a,b,c,d =", a, b, c, d);
            ++states;
            group([&](auto t) { pair_of_fractions<Left, R, typename decltype(t)::type>(a, b, c, d); });
            if (want_sample())
              sample(str(a) + "/" + str(b) + " with " + str(c) + "/" + str(d));
          }
}

template <typename R>
void scalars(int few)
{
  using C = std::common_type_t<Left, R>;
  auto const l = values<Left>(few), r = values<R>(few);
  for (i128 b : l)
    for (i128 a : l)
      for (i128 c : r)
      {
        if (b == 0 || !all_fit<C>(a, b, c))
          continue;
        begin("(a/b) op c of different representations, a,b,c =", a, b, c);
        ++states;
        group([&](auto t) { with_scalar<Left, R, typename decltype(t)::type>(a, b, c); });
      }
}

// -- conversions ---------------------------------------------------------------

template <typename F>
void keeps(F const& f, i128 n, i128 d, char const* how)
{
  ++transitions;
  if (i128(f.num()) != n || i128(f.den()) != d || i128(f.numerator()) != n
      || i128(f.denominator()) != d || i128(f.raw().numerator) != n || i128(f.raw().denominator) != d)
    fail(std::string(how) + " to " + pol::rep_name<typename F::rep_type>() + " gave " + pol::show(f));
}

template <typename R, typename Ops>
void convert(i128 a, i128 b)
{
  using From = ieme::fraction<Left, Ops>;
  using To = ieme::fraction<R, Ops>;
  ++traces;
  From const x {Left(a), Left(b)};
  keeps(x, a, b, "construction from two numbers");
  keeps(From(typename From::raw_fraction_type(Left(a), Left(b))), a, b, "construction from a raw fraction");
  keeps(From(x), a, b, "copy");
  keeps(From(Left(a)), a, 1, "construction from a whole number");
  From z;
  keeps(z, 0, 1, "default construction");
  z.num() = Left(a);
  z.den() = Left(b);
  keeps(z, a, b, "setting num() and den()");
  From w;
  w.numerator() = Left(a);
  w.denominator() = Left(b);
  keeps(w, a, b, "setting numerator() and denominator()");
  From v;
  v.raw() = x.raw();
  keeps(v, a, b, "setting raw()");
  From u;
  u = x;
  keeps(u, a, b, "assignment");
  if (!holds<R>(a) || !holds<R>(b))
    return;
  To const implicit = x;
  keeps(implicit, a, b, "implicit conversion");
  keeps(To(x), a, b, "conversion");
  To assigned;
  assigned = x;
  keeps(assigned, a, b, "assignment of another representation");
  ieme::raw_fraction<R> const raw = x.raw();
  ++transitions;
  if (i128(raw.numerator) != a || i128(raw.denominator) != b)
    fail("conversion of a raw fraction changed it");
  pol::each_policy([&](auto t) {
    using Other = typename decltype(t)::type;
    keeps(ieme::fraction<R, Other>(x), a, b, "explicit conversion to another policy");
    keeps(static_cast<ieme::fraction<Left, Other>>(x), a, b, "explicit conversion to another policy");
  });
}

template <typename R>
void conversions()
{
  auto l = values<Left>(8);
  l.push_back(lowest<Left>());
  for (i128 a : l)
    for (i128 b : l)
    {
      begin("conversion of a/b =", a, b);
      ++states;
      group([&](auto t) { convert<R, typename decltype(t)::type>(a, b); });
    }
}

template <typename Ratio>
void from_ratio()
{
  begin("construction from std::ratio", (i128)Ratio::num, (i128)Ratio::den);
  ++states;
  if (!holds<Left>(Ratio::num) || !holds<Left>(Ratio::den))
    return;
  group([&](auto t) {
    using F = ieme::fraction<Left, typename decltype(t)::type>;
    ++traces;
    F const explicit_ {Ratio {}};
    keeps(explicit_, Ratio::num, Ratio::den, "construction from std::ratio");
    F const implicit = Ratio {};
    keeps(implicit, Ratio::num, Ratio::den, "implicit construction from std::ratio");
    F assigned;
    assigned = Ratio {};
    keeps(assigned, Ratio::num, Ratio::den, "assignment from std::ratio");
  });
}

template <long long... N>
void ratios_of(std::integer_sequence<long long, N...>)
{
  (
    [] {
      from_ratio<std::ratio<N - 7, 1>>();
      from_ratio<std::ratio<N - 7, 2>>();
      from_ratio<std::ratio<N - 7, -3>>();
      from_ratio<std::ratio<N - 7, 12>>();
      from_ratio<std::ratio<3, N + 1>>();
      from_ratio<std::ratio<-4, N + 1>>();
    }(),
    ...);
}

template <typename R>
void register_right()
{
  bool const big = thorough();
  std::string const n = scalar_name<R>();
  if constexpr (sizeof(R) >= 4)
  {
    if constexpr (!std::is_same_v<R, Left>)
      for (std::size_t s = 0; s < 4; ++s)
        add("fractions/" + n + "/" + std::to_string(s), [=] { fractions<R>(s, big ? 12 : 3); });
    add("conversions/" + n, [=] { conversions<R>(); });
  }
  if constexpr (!std::is_same_v<R, Left>)
    add("scalars/" + n, [=] { scalars<R>(big ? 24 : 8); });
}

[[maybe_unused]] int const registered = [] {
  register_right<int>();
  register_right<unsigned>();
  register_right<long>();
  register_right<unsigned long>();
  register_right<long long>();
  register_right<unsigned long long>();
  register_right<short>();
  register_right<unsigned char>();
  add("ratios", [] {
    ratios_of(std::make_integer_sequence<long long, 16> {});
    from_ratio<std::milli>();
    from_ratio<std::kilo>();
    from_ratio<std::nano>();
    from_ratio<std::atto>();
    from_ratio<std::exa>();
    from_ratio<std::ratio<2147483647, 2147483646>>();
    from_ratio<std::ratio<-2147483647 - 1ll, 1>>();
    from_ratio<std::ratio<4294967295, 4294967294>>();
    from_ratio<std::ratio<9223372036854775807, 1>>();
    from_ratio<std::ratio<-9223372036854775807, 9223372036854775806>>();
  });
  return 0;
}();

} // namespace

MC_MAIN
