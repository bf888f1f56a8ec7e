// C04: reduce, normalize_signs, reciprocal and abs: canonical form, same value.
#include "domains.hpp"
#include "policies.hpp"

using namespace mc;
using namespace ref;

#include "rep.hpp"

namespace {

using raw = ieme::raw_fraction<Rep>;

template <typename F>
i128 num(F const& f)
{
  return f.num();
}
template <typename F>
i128 den(F const& f)
{
  return f.den();
}
template <typename R>
i128 num(ieme::raw_fraction<R> const& f)
{
  return f.numerator;
}
template <typename R>
i128 den(ieme::raw_fraction<R> const& f)
{
  return f.denominator;
}

template <typename F>
void exactly(F const& f, i128 n, i128 d, char const* what)
{
  ++transitions;
  if (num(f) != n || den(f) != d)
    fail(std::string(pol::rep_name<Rep>()) + " " + what + " gave " + str(num(f)) + "/"
         + str(den(f)) + ", expected " + str(n) + "/" + str(d));
}

template <typename F>
void all(F const& x, i128 a, i128 b, i128 g, char const* kind)
{
  using ieme::reduce_mode;
  // the common factor of the lowest value and itself, or zero, is not
  // representable: then the signs cannot be left alone
  if (fits<Rep>(g))
  {
    exactly(reduce_ignore_signs(x), a / g, b / g,
            (std::string(kind) + " reduce_ignore_signs").c_str());
    exactly(reduce(x, reduce_mode::ignore_signs), a / g, b / g,
            (std::string(kind) + " reduce(ignore_signs)").c_str());
    auto const once = reduce_ignore_signs(x);
    exactly(reduce_ignore_signs(once), a / g, b / g,
            (std::string(kind) + " reduce_ignore_signs twice").c_str());
  }
  i128 const s = b < 0 ? -1 : 1;
  if (b > 0 || (fits<Rep>(a) && fits<Rep>(b)))
    exactly(normalize_signs(x), s * a, s * b,
            (std::string(kind) + " normalize_signs").c_str());
  if (s * a / g <= hi<Rep>() && s * b / g <= hi<Rep>())
  {
    exactly(reduce(x), s * a / g, s * b / g, (std::string(kind) + " reduce").c_str());
    exactly(reduce(x, reduce_mode::normalize_signs), s * a / g, s * b / g,
            (std::string(kind) + " reduce(normalize_signs)").c_str());
    exactly(reduce_normalize_signs(x), s * a / g, s * b / g,
            (std::string(kind) + " reduce_normalize_signs").c_str());
    exactly(reduce(reduce(x)), s * a / g, s * b / g,
            (std::string(kind) + " reduce twice").c_str());
    if (!is_reduced(reduce(x)))
      fail(std::string(kind) + " reduce(x) is not is_reduced");
  }
  exactly(reciprocal(x), b, a, (std::string(kind) + " reciprocal").c_str());
  exactly(reciprocal(reciprocal(x)), a, b,
          (std::string(kind) + " reciprocal twice").c_str());
}

void single(i128 a, i128 b)
{
  if (b == 0 || a > hi<Rep>() || b > hi<Rep>() || a < lowest<Rep>()
      || b < lowest<Rep>())
    return;
  i128 const g = gcd(a, b);
  begin("the fraction a/b, a,b =", a, b);
  ++states;
  ++traces;
  all(raw {Rep(a), Rep(b)}, a, b, g, "raw");
  auto fraction = [&](auto t) {
    using Ops = typename decltype(t)::type;
    using F = ieme::fraction<Rep, Ops>;
    F const x {Rep(a), Rep(b)};
    ++traces;
    all(x, a, b, g, pol::name<Ops>());
    // under the policies that reduce, in whatever form the negation takes
    if (fits<Rep>(a) && fits<Rep>(b))
    {
      auto const m = abs(x);
      ++transitions;
      if (i128(m.den()) == 0
          || compare(m.num(), m.den(), iabs(a), iabs(b)) != 0)
        fail(std::string(pol::name<Ops>()) + " abs gave " + pol::show(m));
    }
    if (i128(x.num()) != a || i128(x.den()) != b)
      fail("the operand was modified");
    if (want_sample())
      sample("reduce(" + pol::show(x) + ") = " + pol::show(reduce(x)));
  };
  fraction(pol::tag<ieme::ops::safe_reduced_io> {});
  fraction(pol::tag<ieme::ops::safe> {});
  fraction(pol::tag<ieme::ops::safe_reduced_i> {});
  fraction(pol::tag<ieme::ops::safe_reduced_o> {});
  fraction(pol::tag<ieme::ops::fast> {});
}

[[maybe_unused]] int const registered = [] {
  bool const big = thorough();
  dom::singles<Rep>(PART == 0 ? (big ? 2500 : 250) : (big ? 800 : 120), 2,
                    big ? 400000 : 5000, single);
  // multiples of small fractions by every factor that fits
  for (std::size_t s = 0; s < dom::slices; ++s)
    add("multiples/" + std::to_string(s), [=] {
      auto const gs = magnitudes<Rep>(2);
      for (std::size_t i = s; i < gs.size(); i += dom::slices)
        for (int p = 0; p <= 12; ++p)
          for (int q = 1; q <= 12; ++q)
          {
            i128 const a = gs[i] * p, b = gs[i] * q;
            if (gs[i] == 0 || !all_fit<Rep>(a, b))
              continue;
            single(a, b);
            if (std::is_signed_v<Rep>)
            {
              single(-a, b);
              single(a, -b);
              single(-a, -b);
            }
          }
    });
  return 0;
}();

} // namespace

MC_MAIN
