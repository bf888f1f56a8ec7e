// C19: fractional durations, time points and clocks are exact. -DPART selects
// the representation and policy.
#include "policies.hpp"

#include <chrono>

using namespace mc;
using namespace ref;

namespace ch = std::chrono;

#if PART == 0
using Rep = long;
using Ops = ieme::ops::defaults;
#elif PART == 1
using Rep = int;
using Ops = ieme::ops::defaults;
#elif PART == 2
using Rep = long;
using Ops = ieme::ops::safe;
#elif PART == 3
using Rep = long;
using Ops = ieme::ops::fast_reduced_io;
#elif PART == 4
using Rep = unsigned long;
using Ops = ieme::ops::defaults;
#else
using Rep = unsigned;
using Ops = ieme::ops::fast;
#endif

using F = ieme::fraction<Rep, Ops>;

namespace {

template <typename Period>
using D = ieme::chrono::duration<Rep, Period, Ops>;

using p_nano = std::nano;
using p_milli = std::milli;
using p_sec = std::ratio<1>;
using p_min = std::ratio<60>;
using p_hour = std::ratio<3600>;
using p_third = std::ratio<1, 3>;
using p_odd = std::ratio<7, 5>;

template <typename F_>
void each_period(F_&& f)
{
  f(pol::tag<p_nano> {});
  f(pol::tag<p_milli> {});
  f(pol::tag<p_sec> {});
  f(pol::tag<p_min> {});
  f(pol::tag<p_hour> {});
  f(pol::tag<p_third> {});
  f(pol::tag<p_odd> {});
}

template <typename A, typename B>
void same_type(char const* what)
{
  ++transitions;
  if constexpr (!std::is_same_v<A, B>)
    fail(std::string(what) + " has another type than it should");
}

std::string shown(F const& f) { return pol::show(f); }

// count() of a duration is exactly n/d of its periods (nothing said when the
// products are not representable)
template <typename Frac>
void is(Frac const& f, i128 n, i128 d, char const* what)
{
  ++transitions;
  if (i128(f.den()) == 0 || ref::compare(f.num(), f.den(), n, d) != 0)
    fail(std::string(what) + " gave " + pol::show(f) + ", expected " + str(n) + "/" + str(d));
}

std::vector<i128> counts(bool wide)
{
  auto v = box<Rep>(thorough() ? 40 : 14);
  if (wide)
  {
    // up to the limits, where a detour through floating point would round
    for (i128 x : {(i128)hi<Rep>(), (i128)hi<Rep>() / 60, (i128)hi<Rep>() / 1000, (i128)hi<Rep>() / 3600, (i128)hi<Rep>() / 1000000,
                   (i128)hi<Rep>() / 1000000000, (i128)1 << 24, (i128)1 << 53, (i128)1 << 60})
      for (i128 y : {x - 1, x, x + 1})
        for (i128 z : {y, -y})
          if (fits<Rep>(z))
            v.push_back(z);
  }
  if (wide)
    for (i128 x : {(i128)59, (i128)60, (i128)61, (i128)1000, (i128)3599, (i128)3600, (i128)86400, (i128)1000000, (i128)123456789})
    {
      v.push_back(x);
      v.push_back(-x);
    }
  return v;
}

std::vector<i128> dens()
{
  return thorough() ? std::vector<i128> {1, 2, 3, 4, 5, 6, 7, 8, 12, 60, 64, 1000, 3600, -1, -7}
                    : std::vector<i128> {1, 2, 3, 7, 12, 60, -5};
}

// n/d * num/den, is every product representable?
bool scaled(i128 n, i128 d, i128 num, i128 den, i128& rn, i128& rd)
{
  rn = mul<long>(n, num);
  rd = mul<long>(d, den);
  return all_fit<Rep>(n, d, num, den, rn, rd);
}

template <typename P, typename Q_>
void between()
{
  using Ratio = std::ratio_divide<P, Q_>;
  for (i128 d : dens())
    for (i128 n : counts(true))
    {
      i128 rn, rd;
      if (!scaled(n, d, Ratio::num, Ratio::den, rn, rd))
        continue;
      begin("conversion of a duration of n/d periods of p seconds to periods of q; n,d,p,q:", n, d, (i128)P::num, (i128)P::den, (i128)Q_::num, (i128)Q_::den);
      ++states;
      ++traces;
      D<P> const x {F(Rep(n), Rep(d))};
      D<Q_> const y = x; // implicit, both ways
      is(y.count(), rn, rd, "implicit conversion");
      i128 bn, bd;
      if (scaled(y.count().num(), y.count().den(), Ratio::den, Ratio::num, bn, bd))
      {
        D<P> const z = y;
        is(z.count(), n, d, "conversion there and back");
      }
      is(ch::duration_cast<D<Q_>>(x).count(), rn, rd, "duration_cast");
      D<Q_> w;
      w = x;
      is(w.count(), rn, rd, "assignment");
      ch::time_point<ch::system_clock, D<P>> const tp {x};
      ch::time_point<ch::system_clock, D<Q_>> const tq = tp;
      is(tq.time_since_epoch().count(), rn, rd, "conversion of a time point");
      if (d == 1)
      { // from a whole-number duration of the other period
        ch::duration<Rep, P> const i {Rep(n)};
        D<Q_> const v = i;
        is(v.count(), rn, rd, "conversion of a whole-number duration");
        auto const u = ieme::chrono::to_fractional(i);
        same_type<std::remove_cvref_t<decltype(u)>, ieme::chrono::duration<Rep, P>>("to_fractional of a duration");
        is(u.count(), n, 1, "to_fractional of a duration");
      }
      if (want_sample())
        sample(shown(x.count()) + " periods of " + str(P::num) + "/" + str(P::den) + " s = " + shown(y.count())
               + " periods of " + str(Q_::num) + "/" + str(Q_::den) + " s");
    }
}

template <typename P, typename Q_>
void arithmetic()
{
  using Common = std::common_type_t<D<P>, D<Q_>>;
  using CP = typename Common::period;
  using RP = std::ratio_divide<P, CP>;
  using RQ = std::ratio_divide<Q_, CP>;
  std::vector<i128> const few {0, 1, -1, 2, -3, 7, 60, -1000};
  for (i128 b : {1, 2, 3, 60, -7})
    for (i128 a : few)
      for (i128 d : {1, 2, 5, -3})
        for (i128 c : few)
        {
          // both in the common period, and everything on the way
          i128 n1, d1, n2, d2;
          if (!scaled(a, b, RP::num, RP::den, n1, d1) || !scaled(c, d, RQ::num, RQ::den, n2, d2))
            continue;
          i128 const x1 = mul<long>(n1, d2), x2 = mul<long>(n2, d1), dd = mul<long>(d1, d2);
          if (!all_fit<Rep>(a, b, c, d, x1, x2, dd) || !all_fit<Rep>(x1 + x2, x1 - x2))
            continue;
          begin("durations of a/b periods of p and c/d periods of q; a,b,c,d,p,q:", a, b, c, d, (i128)P::num, (i128)P::den, (i128)Q_::num, (i128)Q_::den);
          ++states;
          ++traces;
          D<P> const x {F(Rep(a), Rep(b))};
          D<Q_> const y {F(Rep(c), Rep(d))};
          is((x + y).count(), x1 + x2, dd, "the sum of two durations");
          is((x - y).count(), x1 - x2, dd, "the difference of two durations");
          same_type<std::remove_cvref_t<decltype((x + y).count())>, F>("the count of a sum");
          int const k = ref::compare(x1, dd, x2, dd);
          transitions += 6;
          if ((x == y) != (k == 0) || (x != y) != (k != 0) || (x < y) != (k < 0) || (x <= y) != (k <= 0)
              || (x > y) != (k > 0) || (x >= y) != (k >= 0))
            fail("a comparison of durations is wrong");
          if (x2 != 0)
          {
            auto const q = x / y;
            same_type<std::remove_cvref_t<decltype(q)>, F>("the quotient of two durations");
            is(q, x1, x2, "the quotient of two durations");
          }
          using Tp = ch::time_point<ch::steady_clock, D<P>>;
          using Tq = ch::time_point<ch::steady_clock, D<Q_>>;
          Tp const t {x};
          is((t + y).time_since_epoch().count(), x1 + x2, dd, "time point plus duration");
          is((y + t).time_since_epoch().count(), x1 + x2, dd, "duration plus time point");
          is((t - y).time_since_epoch().count(), x1 - x2, dd, "time point minus duration");
          is((t - Tq(y)).count(), x1 - x2, dd, "time point minus time point");
          transitions += 3;
          if ((t == Tq(y)) != (k == 0) || (t < Tq(y)) != (k < 0) || (t >= Tq(y)) != (k >= 0))
            fail("a comparison of time points is wrong");
        }
}

template <typename P>
void scaling()
{
  for (i128 b : dens())
    for (i128 a : counts(false))
      for (i128 k : {1, 2, -3, 60, 7})
        for (i128 l : {1, -2, 9})
        {
          if (!all_fit<Rep>(a, b, k, l, a * l - k * b, mul<long>(a, k), mul<long>(b, l), mul<long>(a, l), mul<long>(b, k)))
            continue;
          begin("a duration of a/b periods scaled by k/l; a,b,k,l:", a, b, k, l);
          ++states;
          ++traces;
          D<P> const x {F(Rep(a), Rep(b))};
          F const f {Rep(k), Rep(l)};
          is((x * f).count(), a * k, b * l, "duration times fraction");
          is((f * x).count(), a * k, b * l, "fraction times duration");
          is((x / f).count(), a * l, b * k, "duration by fraction");
          is((x * Rep(k)).count(), a * k, b, "duration times whole number");
          is((Rep(k) * x).count(), a * k, b, "whole number times duration");
          is((x / Rep(k)).count(), a, b * k, "duration by whole number");
          is((+x).count(), a, b, "plus");
          if constexpr (std::is_signed_v<Rep>)
            is((-x).count(), -a, b, "minus");
          D<P> m = x;
          m *= f;
          is(m.count(), a * k, b * l, "*=");
          m = x;
          m /= f;
          is(m.count(), a * l, b * k, "/=");
          m = x;
          m += D<P>(f);
          is(m.count(), a * l + k * b, b * l, "+=");
          m = x;
          m -= D<P>(f);
          is(m.count(), a * l - k * b, b * l, "-=");
          ch::time_point<ch::steady_clock, D<P>> t {x};
          t += D<P>(f);
          is(t.time_since_epoch().count(), a * l + k * b, b * l, "time point +=");
          t -= D<P>(f);
          is(t.time_since_epoch().count(), a, b, "time point -=");
        }
}

// A clock that reads out a script: each call takes the next entry.
template <typename R, typename P>
struct scripted {
  using rep = R;
  using period = P;
  using duration = ch::duration<R, P>;
  using time_point = ch::time_point<scripted>;
  static constexpr bool is_steady = std::is_same_v<P, std::milli>;
  static inline std::vector<R> script;
  static inline std::size_t at = 0;
  static time_point now() noexcept
  {
    R const v = at < script.size() ? script[at] : R(-1);
    ++at;
    return time_point(duration(v));
  }
};

template <typename P, typename Q_>
void clock()
{
  using C = scripted<Rep, P>;
  using Wrapper = ieme::chrono::clock_wrapper<C, Q_, Ops>;
  using Ratio = std::ratio_divide<P, Q_>;
  same_type<typename Wrapper::rep, F>("clock_wrapper::rep");
  same_type<typename Wrapper::duration, D<Q_>>("clock_wrapper::duration");
  same_type<typename Wrapper::period, typename Q_::type>("clock_wrapper::period");
  if (Wrapper::is_steady != C::is_steady)
    fail("clock_wrapper::is_steady differs from the clock's");
  std::vector<Rep> all;
  for (i128 v : counts(true))
  {
    i128 rn, rd;
    if (scaled(v, 1, Ratio::num, Ratio::den, rn, rd))
      all.push_back(Rep(v));
  }
  if (all.size() < 2)
    return;
  // every history of three readings from a small alphabet, then all values in turn
  std::size_t const m = std::min<std::size_t>(all.size(), 6);
  for (std::size_t i = 0; i <= m * m * m; ++i)
  {
    C::script = i == m * m * m ? all : std::vector<Rep> {all[i % m], all[i / m % m], all[i / m / m]};
    C::at = 0;
    ++states;
    for (std::size_t k = 0; k < C::script.size(); ++k)
    {
      begin("reading k of a clock with period p wrapped in periods of q; k,value,p,q:", (i128)k, (i128)C::script[k], (i128)P::num, (i128)P::den, (i128)Q_::num, (i128)Q_::den);
      ++traces;
      auto const t = Wrapper::now();
      same_type<std::remove_cvref_t<decltype(t)>, typename Wrapper::time_point>("now()");
      i128 rn, rd;
      scaled(C::script[k], 1, Ratio::num, Ratio::den, rn, rd);
      is(t.time_since_epoch().count(), rn, rd, "clock_wrapper::now()");
    }
    if (C::at != C::script.size())
      fail("clock_wrapper read the clock another number of times than it was asked for the time");
  }
  // time points of the wrapped clock
  for (Rep v : all)
  {
    begin("to_fractional of a time point", (i128)v);
    ++traces;
    typename C::time_point const tp {typename C::duration(v)};
    auto const f = ieme::chrono::to_fractional(tp);
    same_type<std::remove_cvref_t<decltype(f)>, ch::time_point<C, ieme::chrono::duration<Rep, P>>>("to_fractional of a time point");
    is(f.time_since_epoch().count(), v, 1, "to_fractional of a time point");
  }
}

[[maybe_unused]] int const registered = [] {
  each_period([](auto p) {
    using P = typename decltype(p)::type;
    std::string const n = std::to_string(P::num) + ":" + std::to_string(P::den);
    add("conversions/" + n, [] {
      each_period([](auto q) { between<P, typename decltype(q)::type>(); });
    });
    add("arithmetic/" + n, [] {
      each_period([](auto q) { arithmetic<P, typename decltype(q)::type>(); });
    });
    add("scaling/" + n, scaling<P>);
    add("clocks/" + n, [] {
      each_period([](auto q) { clock<P, typename decltype(q)::type>(); });
    });
  });
  // every representation, policy and pair of periods: conversions are implicit
  add("implicit", [] {
    auto const check = [](auto rep, auto ops) {
      using R = decltype(rep);
      using O = typename decltype(ops)::type;
      each_period([](auto p) {
        using P = typename decltype(p)::type;
        each_period([](auto q) {
          using Q_ = typename decltype(q)::type;
          using A = ieme::chrono::duration<R, P, O>;
          using B = ieme::chrono::duration<R, Q_, O>;
          begin("implicit conversion of durations; p, q =", (i128)P::num, (i128)P::den, (i128)Q_::num, (i128)Q_::den);
          ++states;
          transitions += 4;
          if (!std::is_convertible_v<A, B> || !std::is_convertible_v<ch::duration<R, P>, B>)
            fail(std::string(pol::name<O>()) + " durations do not convert implicitly");
          if (!std::is_convertible_v<ch::time_point<ch::system_clock, A>, ch::time_point<ch::system_clock, B>>
              || !std::is_convertible_v<ch::time_point<ch::system_clock, ch::duration<R, P>>, ch::time_point<ch::system_clock, B>>)
            fail(std::string(pol::name<O>()) + " time points do not convert implicitly");
        });
      });
    };
    pol::each_policy([&](auto t) {
      check(int {}, t);
      check(unsigned {}, t);
      check(long {}, t);
      check(ulong {}, t);
      check((long long) 0, t);
      check((unsigned long long)0, t);
    });
  });
  // the named types
  add("names", [] {
    begin("named durations");
    same_type<ieme::chrono::nanoseconds::period, std::nano>("nanoseconds");
    same_type<ieme::chrono::microseconds::period, std::micro>("microseconds");
    same_type<ieme::chrono::milliseconds::period, std::milli>("milliseconds");
    same_type<ieme::chrono::seconds::period, std::ratio<1>>("seconds");
    same_type<ieme::chrono::minutes::period, std::ratio<60>>("minutes");
    same_type<ieme::chrono::hours::period, std::ratio<3600>>("hours");
    is(ieme::chrono::hours(ieme::chrono::minutes(ieme::fraction<ieme::chrono::minutes::rep::rep_type>(90))).count(), 3, 2, "90 minutes in hours");
    ++traces;
  });
  return 0;
}();

} // namespace

MC_MAIN
