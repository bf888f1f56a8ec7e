// C28: a fraction does what its policy says, also when the policy is the user's
// own, and reduced_input / reduced_output do their part around any policy.
//
// `checked` is a policy a user might write: schoolbook formulas on the parts it
// is handed, and an undefined fraction as soon as a product or sum leaves the
// representation (or comes out as its lowest value). Whether an answer is defined therefore tells which operands
// the policy was handed (reduced or not), and that it was asked at all. The
// expected answers are computed a second time, in 128 bits, from the parts.
#include "domains.hpp"
#include "policies.hpp"

using namespace mc;
using namespace ref;

#include "rep.hpp"

namespace {

// ---------------------------------------------------------------- the policy
struct checked {
  template <typename R>
  using raw = ieme::raw_fraction<R>;

  template <typename R>
  static constexpr raw<R> give(bool bad, R n, R d)
  {
    return bad || d == 0 ? raw<R>(0, 0) : raw<R>(n, d);
  }

  // true where the result, or its negation, does not fit
  template <typename R>
  static constexpr bool unfit(bool over, R r)
  {
    return over || (std::is_signed_v<R> && r == std::numeric_limits<R>::min());
  }
  template <typename R>
  static constexpr bool product(R a, R b, R* r)
  {
    bool const over = __builtin_mul_overflow(a, b, r);
    return unfit(over, *r);
  }
  template <typename R>
  static constexpr bool sum(R a, R b, R* r)
  {
    bool const over = __builtin_add_overflow(a, b, r);
    return unfit(over, *r);
  }
  template <typename R>
  static constexpr bool less_by(R a, R b, R* r)
  {
    bool const over = __builtin_sub_overflow(a, b, r);
    return unfit(over, *r);
  }

  template <typename R>
  static constexpr raw<R> negate(raw<R> const& v) noexcept
  {
    R n = 0;
    bool const bad = less_by(R(0), v.numerator, &n);
    return give(bad, n, v.denominator);
  }

  template <typename R>
  static constexpr raw<R> plus(raw<R> const& a, raw<R> const& b) noexcept
  {
    R x = 0, y = 0, n = 0, d = 0;
    bool bad = product(a.numerator, b.denominator, &x);
    bad |= product(b.numerator, a.denominator, &y);
    bad |= product(a.denominator, b.denominator, &d);
    bad |= sum(x, y, &n);
    return give(bad, n, d);
  }
  template <typename R>
  static constexpr raw<R> minus(raw<R> const& a, raw<R> const& b) noexcept
  {
    R x = 0, y = 0, n = 0, d = 0;
    bool bad = product(a.numerator, b.denominator, &x);
    bad |= product(b.numerator, a.denominator, &y);
    bad |= product(a.denominator, b.denominator, &d);
    bad |= less_by(x, y, &n);
    return give(bad, n, d);
  }
  template <typename R>
  static constexpr raw<R> multiplies(raw<R> const& a, raw<R> const& b) noexcept
  {
    R n = 0, d = 0;
    bool bad = product(a.numerator, b.numerator, &n);
    bad |= product(a.denominator, b.denominator, &d);
    return give(bad, n, d);
  }
  template <typename R>
  static constexpr raw<R> divides(raw<R> const& a, raw<R> const& b) noexcept
  {
    R n = 0, d = 0;
    bool bad = a.denominator == 0 || b.denominator == 0;
    bad |= product(a.numerator, b.denominator, &n);
    bad |= product(a.denominator, b.numerator, &d);
    return give(bad, n, d);
  }
  template <typename R>
  static constexpr raw<R> modulus(raw<R> const& a, raw<R> const& b) noexcept
  {
    R x = 0, y = 0, d = 0;
    bool bad = product(a.numerator, b.denominator, &x);
    bad |= product(b.numerator, a.denominator, &y);
    bad |= product(a.denominator, b.denominator, &d);
    bad |= y == 0;
    return give(bad, bad || (std::is_signed_v<R> && y == R(-1)) ? R(0) : R(x % y), d);
  }

  // -1, 0, 1, or 2 where the answer would not fit
  template <typename R>
  static constexpr int order(raw<R> const& a, raw<R> const& b)
  {
    R x = 0, y = 0;
    bool bad = a.denominator == 0 || b.denominator == 0;
    bad |= product(a.numerator, b.denominator, &x);
    bad |= product(b.numerator, a.denominator, &y);
    if (bad)
      return 2;
    int const s = x < y ? -1 : x > y;
    return (a.denominator < 0) == (b.denominator < 0) ? s : -s;
  }
  template <typename R>
  static constexpr bool equal_to(raw<R> const& a, raw<R> const& b) noexcept { return order(a, b) == 0; }
  template <typename R>
  static constexpr bool not_equal_to(raw<R> const& a, raw<R> const& b) noexcept { return order(a, b) != 0; }
  template <typename R>
  static constexpr bool less(raw<R> const& a, raw<R> const& b) noexcept { return order(a, b) == -1; }
  template <typename R>
  static constexpr bool less_equal(raw<R> const& a, raw<R> const& b) noexcept { int const o = order(a, b); return o == -1 || o == 0; }
  template <typename R>
  static constexpr bool greater(raw<R> const& a, raw<R> const& b) noexcept { return order(a, b) == 1; }
  template <typename R>
  static constexpr bool greater_equal(raw<R> const& a, raw<R> const& b) noexcept { int const o = order(a, b); return o == 1 || o == 0; }

#define SCALARS(name, result)                                                        \
  template <typename R>                                                              \
  static constexpr result name(raw<R> const& a, R const& b) noexcept                 \
  {                                                                                  \
    return name(a, raw<R>(b, 1));                                                    \
  }                                                                                  \
  template <typename R>                                                              \
  static constexpr result name(R const& a, raw<R> const& b) noexcept                 \
  {                                                                                  \
    return name(raw<R>(a, 1), b);                                                    \
  }
  SCALARS(plus, raw<R>)
  SCALARS(minus, raw<R>)
  SCALARS(multiplies, raw<R>)
  SCALARS(divides, raw<R>)
  SCALARS(modulus, raw<R>)
  SCALARS(equal_to, bool)
  SCALARS(not_equal_to, bool)
  SCALARS(less, bool)
  SCALARS(less_equal, bool)
  SCALARS(greater, bool)
  SCALARS(greater_equal, bool)
#undef SCALARS
};

// -------------------------------------------------- what is expected, in i128
struct Parts {
  i128 n, d; // d == 0: undefined
};

template <typename R>
bool within(i128 v)
{
  return fits<R>(v);
}

// products of magnitudes up to 2^64 do not fit 127 bits: saturate
inline i128 times(i128 a, i128 b)
{
  i128 r = 0;
  return __builtin_mul_overflow(a, b, &r) ? (i128)1 << 126 : r;
}

template <typename R>
Parts arithmetic(char op, Parts a, Parts b)
{
  if (a.d == 0 || b.d == 0 || ((op == '/' || op == '%') && b.n == 0))
    return {0, 0};
  i128 const x = times(a.n, b.d), y = times(b.n, a.d), d = times(a.d, b.d), m = times(a.n, b.n);
  auto all = [](auto... v) { return (within<R>(v) && ...); };
  switch (op)
  {
    case '+': return all(x, y, d) && within<R>(x + y) ? Parts {x + y, d} : Parts {0, 0};
    case '-': return all(x, y, d) && within<R>(x - y) ? Parts {x - y, d} : Parts {0, 0};
    case '*': return all(m, d) ? Parts {m, d} : Parts {0, 0};
    case '/': return all(x, y) ? Parts {x, y} : Parts {0, 0};
    default: return all(x, y, d) ? Parts {x % y, d} : Parts {0, 0};
  }
}

template <typename R>
int order(Parts a, Parts b)
{
  if (a.d == 0 || b.d == 0)
    return 2;
  i128 const x = times(a.n, b.d), y = times(b.n, a.d);
  if (!within<R>(x) || !within<R>(y))
    return 2;
  int const s = x < y ? -1 : x > y;
  return (a.d < 0) == (b.d < 0) ? s : -s;
}

inline Parts lowest_terms(Parts p)
{
  if (p.d == 0)
    return {0, 0};
  i128 const g = gcd(p.n, p.d);
  return {p.n / g, p.d / g};
}

// the policies built from it
struct Shape {
  bool in, out, out_signs;
};

template <typename Policy>
constexpr Shape shape();
using ieme::reduce_mode;
using plain = checked;
using in_ign = ieme::ops::reduced_input<checked>;
using in_norm = ieme::ops::reduced_input<checked, reduce_mode::normalize_signs>;
using out_norm = ieme::ops::reduced_output<checked>;
using out_ign = ieme::ops::reduced_output<checked, reduce_mode::ignore_signs>;
using out_in = ieme::ops::reduced_output<in_ign>;
using in_out = ieme::ops::reduced_input<out_norm, reduce_mode::normalize_signs>;
template <> constexpr Shape shape<plain>() { return {false, false, false}; }
template <> constexpr Shape shape<in_ign>() { return {true, false, false}; }
template <> constexpr Shape shape<in_norm>() { return {true, false, false}; }
template <> constexpr Shape shape<out_norm>() { return {false, true, true}; }
template <> constexpr Shape shape<out_ign>() { return {false, true, false}; }
template <> constexpr Shape shape<out_in>() { return {true, true, true}; }
template <> constexpr Shape shape<in_out>() { return {true, true, true}; }

template <typename Policy, typename R>
void expect(ieme::fraction<R, Policy> const& got, Parts want, char const* name, char op, char const* form)
{
  ++transitions;
  constexpr Shape s = shape<Policy>();
  i128 const n = got.num(), d = got.den();
  bool ok = (d == 0) == (want.d == 0);
  if (ok && d != 0)
    ok = compare(n, d, want.n, want.d) == 0;
  if (ok && d != 0 && s.out)
    ok = gcd(n, d) == 1 && (!s.out_signs || d > 0);
  if (!ok)
    fail(std::string(name) + " " + pol::rep_name<R>() + " " + op + " (" + form + ") gave " + pol::show(got)
         + ", the policy says " + str(want.n) + "/" + str(want.d));
}

template <typename A, typename B>
void expect_order(A const& a, B const& b, int o, char const* name, char const* form)
{
  transitions += 6;
  bool const bad = (a == b) != (o == 0) || (a != b) != (o != 0) || (a < b) != (o == -1)
                   || (a <= b) != (o == -1 || o == 0) || (a > b) != (o == 1) || (a >= b) != (o == 1 || o == 0);
  if (bad)
    fail(std::string(name) + " " + pol::rep_name<Rep>() + " comparisons (" + form + "): ==,!=,<,<=,>,>= gave "
         + str(a == b) + str(a != b) + str(a < b) + str(a <= b) + str(a > b) + str(a >= b)
         + ", the policy orders them as " + str(o));
}

using Other = std::conditional_t<
  std::is_same_v<Rep, int>, long long,
  std::conditional_t<std::is_same_v<Rep, unsigned>, unsigned long long,
                     std::conditional_t<std::is_same_v<Rep, long long>, int, unsigned>>>;

template <typename Policy>
void with(char const* name, i128 a, i128 b, i128 c, i128 d)
{
  using F = ieme::fraction<Rep, Policy>;
  using G = ieme::fraction<Other, Policy>;
  using Wide = std::common_type_t<Rep, Other>;
  ++traces;
  F const x = F(Rep(a), Rep(b)), y = F(Rep(c), Rep(d));
  auto in = [](i128 n, i128 d_) { return shape<Policy>().in ? lowest_terms({n, d_}) : Parts {n, d_}; };
  Parts const p = in(a, b), q = in(c, d), left {a, 1}, right {c, 1};
  bool const mixed = fits<Other>(c) && fits<Other>(d), mixed_left = fits<Other>(a);

  auto each = [&](char op, auto f, auto compound) {
    Parts const both = arithmetic<Rep>(op, p, q);
    expect<Policy>(f(x, y), both, name, op, "fraction, fraction");
    expect<Policy>(f(x, Rep(c)), arithmetic<Rep>(op, p, right), name, op, "fraction, scalar");
    expect<Policy>(f(Rep(a), y), arithmetic<Rep>(op, left, q), name, op, "scalar, fraction");
    if (mixed)
    {
      Parts const wide = arithmetic<Wide>(op, p, q), with_scalar = arithmetic<Wide>(op, p, right);
      G const g = G(Other(c), Other(d));
      expect<Policy>(f(x, g), wide, name, op, "two representations");
      expect<Policy>(f(x, Other(c)), with_scalar, name, op, "fraction, scalar of another type");
      auto narrow = [&](auto const& r, Parts want, char const* form) {
        Parts const out = shape<Policy>().out ? lowest_terms(want) : want;
        if (!all_fit<Rep>(out.n, out.d))
          return;
        F z = x;
        compound(z, r);
        expect<Policy>(z, want, name, op, form);
      };
      narrow(g, wide, "compound, two representations");
      narrow(Other(c), with_scalar, "compound, scalar of another type");
    }
    if (mixed_left)
      expect<Policy>(f(Other(a), y), arithmetic<Wide>(op, left, q), name, op, "scalar of another type, fraction");
    F z = x;
    compound(z, y);
    expect<Policy>(z, both, name, op, "compound, fraction");
    z = x;
    compound(z, Rep(c));
    expect<Policy>(z, arithmetic<Rep>(op, p, right), name, op, "compound, scalar");
  };
  each('+', [](auto const& l, auto const& r) { return l + r; }, [](auto& l, auto const& r) { l += r; });
  each('-', [](auto const& l, auto const& r) { return l - r; }, [](auto& l, auto const& r) { l -= r; });
  each('*', [](auto const& l, auto const& r) { return l * r; }, [](auto& l, auto const& r) { l *= r; });
  each('/', [](auto const& l, auto const& r) { return l / r; }, [](auto& l, auto const& r) { l /= r; });
  each('%', [](auto const& l, auto const& r) { return l % r; }, [](auto& l, auto const& r) { l %= r; });
  expect_order(x, y, order<Rep>(p, q), name, "fraction, fraction");
  expect_order(x, Rep(c), order<Rep>(p, right), name, "fraction, scalar");
  expect_order(Rep(a), y, order<Rep>(left, q), name, "scalar, fraction");
  if (mixed)
  {
    expect_order(x, G(Other(c), Other(d)), order<Wide>(p, q), name, "two representations");
    expect_order(x, Other(c), order<Wide>(p, right), name, "fraction, scalar of another type");
  }
  if (mixed_left)
    expect_order(Other(a), y, order<Wide>(left, q), name, "scalar of another type, fraction");
  bool const defined = b != 0 && (std::is_signed_v<Rep> || p.n == 0);
  expect<Policy>(-x, defined ? Parts {-p.n, p.d} : Parts {0, 0}, name, '-', "unary");
  F const same = +x;
  ++transitions;
  if (same.num() != x.num() || same.den() != x.den())
    fail(std::string(name) + " unary + gave " + pol::show(same));
  if (want_sample())
    sample(std::string(name) + ": " + pol::show(x) + " + " + pol::show(y) + " = " + pol::show(x + y));
}

void tuple(i128 a, i128 b, i128 c, i128 d)
{
  if (!all_fit<Rep>(a, b, c, d))
    return;
  begin("the operands are a/b and c/d, or a or c alone; a,b,c,d =", a, b, c, d);
  ++states;
  with<plain>("own", a, b, c, d);
  with<in_ign>("reduced_input<own>", a, b, c, d);
  with<in_norm>("reduced_input<own, normalize_signs>", a, b, c, d);
  with<out_norm>("reduced_output<own>", a, b, c, d);
  with<out_ign>("reduced_output<own, ignore_signs>", a, b, c, d);
  with<out_in>("reduced_output<reduced_input<own>>", a, b, c, d);
  with<in_out>("reduced_input<reduced_output<own>, normalize_signs>", a, b, c, d);
}

// the policies' own functions, on raw fractions, agree with the operators
template <typename Policy>
void direct(char const* name, i128 a, i128 b, i128 c, i128 d)
{
  using F = ieme::fraction<Rep, Policy>;
  using R = ieme::raw_fraction<Rep>;
  R const x = R(Rep(a), Rep(b)), y = R(Rep(c), Rep(d));
  F const fx(x), fy(y);
  auto same = [&](R const& raw, F const& f, char const* what) {
    ++transitions;
    bool const ok = raw.denominator == 0 || f.den() == 0
                      ? (raw.denominator == 0) == (f.den() == 0)
                      : compare(raw.numerator, raw.denominator, f.num(), f.den()) == 0;
    if (!ok)
      fail(std::string(name) + " " + pol::rep_name<Rep>() + ": " + what + " gives " + str(raw.numerator) + "/"
           + str(raw.denominator) + ", the operator " + pol::show(f));
  };
  auto truth = [&](bool p, bool q, char const* what) {
    ++transitions;
    if (p != q)
      fail(std::string(name) + " " + pol::rep_name<Rep>() + ": " + what + " is " + str(p) + ", the operator "
           + str(q));
  };
  ++traces;
  // only where nothing can overflow
  auto const both = [&](auto const& l, auto const& r, auto const& fl, auto const& fr) {
    same(Policy::plus(l, r), fl + fr, "plus");
    if (std::is_signed_v<Rep>)
      same(Policy::minus(l, r), fl - fr, "minus");
    same(Policy::multiplies(l, r), fl * fr, "multiplies");
    same(Policy::divides(l, r), fl / fr, "divides");
    same(Policy::modulus(l, r), fl % fr, "modulus");
    truth(Policy::equal_to(l, r), fl == fr, "equal_to");
    truth(Policy::not_equal_to(l, r), fl != fr, "not_equal_to");
    truth(Policy::less(l, r), fl < fr, "less");
    truth(Policy::less_equal(l, r), fl <= fr, "less_equal");
    truth(Policy::greater(l, r), fl > fr, "greater");
    truth(Policy::greater_equal(l, r), fl >= fr, "greater_equal");
  };
  both(x, y, fx, fy);
  both(x, y.numerator, fx, y.numerator);
  both(x.numerator, y, x.numerator, fy);
  if (std::is_signed_v<Rep>)
    same(Policy::negate(x), -fx, "negate");
}

[[maybe_unused]] int const registered = [] {
  bool const big = thorough();
  dom::Bounds b {};
  b.box = std::is_signed_v<Rep> ? (big ? 7 : 4) : (big ? 14 : 8);
  b.edge = big ? 0 : -1;
  b.wide = big ? 1 : 0;
  b.few = 2;
  b.square = big ? 60 : 0;
  b.lattice = true;
  dom::pairs<Rep>(b, tuple);
  for (std::size_t s = 0; s < dom::slices; ++s)
    add("direct/" + std::to_string(s), [=] {
      auto const v = box<Rep>(std::is_signed_v<Rep> ? (big ? 7 : 4) : (big ? 14 : 8));
      dom::four(v, v, v, v, s, [](i128 a, i128 b_, i128 c, i128 d) {
        begin("the policies' functions on a/b and c/d; a,b,c,d =", a, b_, c, d);
        ++states;
        pol::each_policy([&](auto t) {
          using Ops = typename decltype(t)::type;
          direct<Ops>(pol::name<Ops>(), a, b_, c, d);
        });
        direct<plain>("own", a, b_, c, d);
        direct<in_ign>("reduced_input<own>", a, b_, c, d);
        direct<out_norm>("reduced_output<own>", a, b_, c, d);
      });
    });
  return 0;
}();

} // namespace

MC_MAIN
