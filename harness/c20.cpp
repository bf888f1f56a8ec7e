// C20: the limits bound every value. -DPART selects the representation.
#include "domains.hpp"
#include "policies.hpp"

using namespace mc;
using namespace ref;

#include "rep.hpp"

namespace {

template <typename F>
void is(F const& f, i128 n, i128 d, char const* what)
{
  ++transitions;
  bool const ok = d == 0 ? i128(f.den()) == 0
                         : i128(f.den()) != 0 && ref::compare(f.num(), f.den(), n, d) == 0;
  if (!ok)
    fail(std::string(what) + " of fractions of " + pol::rep_name<Rep>() + " is " + pol::show(f));
}

void constants()
{
  pol::each_policy([](auto t) {
    using Ops = typename decltype(t)::type;
    using F = ieme::fraction<Rep, Ops>;
    using L = ieme::limits<F>;
    using N = std::numeric_limits<F>;
    using R = std::numeric_limits<Rep>;
    begin("the limits of fractions");
    ++states;
    ++traces;
    is(L::max(), hi<Rep>(), 1, "limits::max()");
    is(L::min(), lowest<Rep>(), 1, "limits::min()");
    is(L::smallest(), 1, hi<Rep>(), "limits::smallest()");
    is(L::undefined(), 0, 0, "limits::undefined()");
    is(N::max(), hi<Rep>(), 1, "numeric_limits::max()");
    is(N::min(), lowest<Rep>(), 1, "numeric_limits::min()");
    is(N::lowest(), lowest<Rep>(), 1, "numeric_limits::lowest()");
    is(N::epsilon(), 1, hi<Rep>(), "numeric_limits::epsilon()");
    is(N::quiet_NaN(), 0, 0, "numeric_limits::quiet_NaN()");
    transitions += 12;
    if (!N::is_specialized || N::is_signed != R::is_signed || N::is_integer || !N::is_exact || N::has_infinity
        || !N::has_quiet_NaN || N::has_signaling_NaN || N::is_iec559 || N::digits != R::digits || N::digits10 != R::digits10
        || N::radix != R::radix)
      fail("a numeric_limits constant does not describe the type");
    is(N::round_error(), i128(R::round_error()), 1, "numeric_limits::round_error()");
    is(N::denorm_min(), 0, 1, "numeric_limits::denorm_min()");
    static_assert(std::is_same_v<decltype(N::max()), F> && std::is_same_v<decltype(L::min()), F>);
  });
}

// Mixed numbers of one representation have the bounds of its fractions.
template <typename M>
void is_mixed(M const& m, i128 whole, i128 n, i128 d, char const* what)
{
  ++transitions;
  i128 const a = m.fractional().num(), b = m.fractional().den();
  bool const ok = d == 0 ? b == 0 : i128(m.whole()) == whole && b != 0 && ref::compare(a, b, n, d) == 0;
  if (!ok)
    fail(std::string(what) + " of mixed numbers of " + pol::rep_name<Rep>() + " is " + str(m.whole()) + " + "
         + pol::show(m.fractional()));
}

void mixed_constants()
{
  pol::each_policy([](auto t) {
    using Ops = typename decltype(t)::type;
    using M = ieme::mixed_number<Rep, Rep, Ops>;
    using L = ieme::limits<M>;
    using N = std::numeric_limits<M>;
    using F = std::numeric_limits<ieme::fraction<Rep, Ops>>;
    begin("the limits of mixed numbers");
    ++states;
    ++traces;
    is_mixed(L::max(), hi<Rep>(), 0, 1, "limits::max()");
    is_mixed(L::min(), lowest<Rep>(), 0, 1, "limits::min()");
    is_mixed(L::smallest(), 0, 1, hi<Rep>(), "limits::smallest()");
    is_mixed(L::undefined(), 0, 0, 0, "limits::undefined()");
    is_mixed(N::max(), hi<Rep>(), 0, 1, "numeric_limits::max()");
    is_mixed(N::min(), lowest<Rep>(), 0, 1, "numeric_limits::min()");
    is_mixed(N::lowest(), lowest<Rep>(), 0, 1, "numeric_limits::lowest()");
    is_mixed(N::epsilon(), 0, 1, hi<Rep>(), "numeric_limits::epsilon()");
    is_mixed(N::quiet_NaN(), 0, 0, 0, "numeric_limits::quiet_NaN()");
    transitions += 12;
    if (!N::is_specialized || N::is_signed != F::is_signed || N::is_integer || !N::is_exact || N::has_infinity
        || !N::has_quiet_NaN || N::has_signaling_NaN || N::is_iec559 || N::digits != F::digits || N::digits10 != F::digits10
        || N::radix != F::radix)
      fail("a numeric_limits constant does not describe the mixed number");
    static_assert(std::is_same_v<decltype(N::max()), M> && std::is_same_v<decltype(L::min()), M>);
  });
}

void one(i128 a, i128 b)
{
  if (b == 0 || (b < 0 && (a == lowest<Rep>() || b == lowest<Rep>())))
    return;
  begin("a/b against the limits, a,b =", a, b);
  ++states;
  int const s = sgn(a) * sgn(b);
  auto run = [&](auto t) {
    using Ops = typename decltype(t)::type;
    using F = ieme::fraction<Rep, Ops>;
    using L = ieme::limits<F>;
    using N = std::numeric_limits<F>;
    ++traces;
    transitions += 8;
    F const f {Rep(a), Rep(b)};
    if (!(f <= L::max()) || !(L::max() >= f) || L::max() < f)
      fail(std::string(pol::name<Ops>()) + ": " + pol::show(f) + " is not at most max()");
    if (!(f >= L::min()) || !(N::lowest() <= f) || f < L::min())
      fail(std::string(pol::name<Ops>()) + ": " + pol::show(f) + " is not at least min()");
    if (s > 0 && (!(f >= L::smallest()) || f < L::smallest()))
      fail(std::string(pol::name<Ops>()) + ": " + pol::show(f) + " is positive but below smallest()");
    if (s <= 0 && !(f < L::smallest()))
      fail(std::string(pol::name<Ops>()) + ": " + pol::show(f) + " is not positive but not below smallest()");
    if (f == L::undefined() || f < L::undefined() || f > L::undefined() || !(f != L::undefined()))
      fail(std::string(pol::name<Ops>()) + ": " + pol::show(f) + " compares with undefined()");
    if (want_sample())
      sample(pol::show(f) + " lies between " + pol::show(L::min()) + " and " + pol::show(L::max()));
  };
  run(pol::tag<ieme::ops::safe> {});
  run(pol::tag<ieme::ops::safe_reduced_o> {});
  // reducing an input normalises its sign, which the lowest value does not have room for
  if (a != lowest<Rep>() || !std::is_signed_v<Rep>)
  {
    run(pol::tag<ieme::ops::safe_reduced_io> {});
    run(pol::tag<ieme::ops::safe_reduced_i> {});
  }
}

[[maybe_unused]] int const registered = [] {
  bool const big = thorough();
  add("constants", constants);
  add("constants of mixed numbers", mixed_constants);
  dom::singles<Rep>(big ? 800 : 120, 2, big ? 50000 : 4000, one);
  return 0;
}();

} // namespace

MC_MAIN
