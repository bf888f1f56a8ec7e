// C13: mixed numbers keep their invariant and their value, along every history
// of additions and negations. -DPART selects the two representations.
#include "policies.hpp"

#include <set>

using namespace mc;
using namespace ref;

#if PART == 0
using W = int;
using FR = int;
using Other = long long;
#elif PART == 1
using W = unsigned;
using FR = unsigned;
using Other = unsigned long long;
#elif PART == 2
using W = long long;
using FR = long long;
using Other = int;
#elif PART == 3
using W = int;
using FR = long long;
using Other = long long;
#else
using W = long long;
using FR = int;
using Other = int;
#endif

using C = std::common_type_t<W, FR>;
constexpr bool is_signed = std::is_signed_v<W>;

namespace {

template <typename M>
std::string show(M const& m)
{
  return str((i128)m.whole()) + " + " + pol::show(m.fractional());
}

// the invariant and the exact value w + n/d (d != 0)
template <typename Ops, typename M>
inline void holds(M const& m, i128 n, i128 d, char const* how)
{
  ++transitions;
  i128 const w = m.whole(), p = m.fractional().num(), q = m.fractional().den();
  auto bad = [&](char const* what) {
    fail(std::string(pol::name<Ops>()) + " " + how + " gave " + show(m) + ": " + what + " (exact value "
         + str(n) + "/" + str(d) + ")");
  };
  if (q == 0)
    bad("undefined");
  if (iabs(p) >= iabs(q))
    bad("the fractional part is not proper");
  int const s = sgn(p) * sgn(q);
  if ((w > 0 && s < 0) || (w < 0 && s > 0))
    bad("the parts have opposite signs");
  // w + p/q = n/d, all within 64 bits: compare whole parts and remainders
  Q const v = make(n, d), f = make(p, q);
  i128 const fw = floor_div(v.n, v.d), fr = v.n - fw * v.d;
  i128 const gw = w + floor_div(f.n, f.d), gr = f.n - floor_div(f.n, f.d) * f.d;
  if (fw != gw || ref::compare(fr, v.d, gr, f.d) != 0)
    bad("another value");
}

template <typename Ops>
using Mixed = ieme::mixed_number<W, FR, Ops>;

// as_fraction and the conversion operator
template <typename Ops>
inline void back(Mixed<Ops> const& m, i128 n, i128 d)
{
  i128 const w = m.whole(), p = m.fractional().num(), q = m.fractional().den();
  if (!all_fit<C>(w, p, q, mul<C>(w, q)) || !fits<C>(mul<C>(w, q) + p))
    return;
  transitions += 2;
  auto const f = m.as_fraction();
  ieme::fraction<C, Ops> const g = m;
  static_assert(std::is_same_v<decltype(m.as_fraction()), ieme::fraction<C, Ops>>);
  if (f.den() == 0 || ref::compare(f.num(), f.den(), n, d) != 0 || !are_identical(f, g))
    fail(std::string(pol::name<Ops>()) + " as_fraction of " + show(m) + " gave " + pol::show(f)
         + " and the conversion " + pol::show(g));
}

// from a whole and a fractional part
template <typename Ops>
inline void from_parts(i128 w, i128 n, i128 d)
{
  i128 const total = w + n / d;
  if (!fits<W>(total) || !fits<W>(total + 1) || (is_signed && !fits<W>(total - 1)) || !fits<W>(n / d))
    return;
  i128 const exact_n = mul<long long>(w, d);
  if (iabs(exact_n) > hi<long long>())
    return;
  ++traces;
  Mixed<Ops> const m {W(w), ieme::fraction<FR, Ops>(FR(n), FR(d))};
  holds<Ops>(m, exact_n + n, d, "construction from whole and fractional parts");
  back<Ops>(m, exact_n + n, d);
  holds<Ops>(+m, exact_n + n, d, "unary +");
  if constexpr (is_signed)
    holds<Ops>(-m, -(exact_n + n), d, "unary -");
  if (n == 0)
  {
    holds<Ops>(Mixed<Ops>(W(w)), w, 1, "construction from a whole part");
    Mixed<Ops> const implicit = W(w);
    holds<Ops>(implicit, w, 1, "conversion of a whole part");
  }
}

// from a fraction of any representation and policy
template <typename Ops, typename R>
inline void from_fraction(i128 n, i128 d)
{
  if (!all_fit<R>(n, d) || !fits<W>(n / d) || !all_fit<FR>(n % d, d) || !fits<R>(n / d))
    return;
  ++traces;
  ieme::fraction<R, Ops> const f {R(n), R(d)};
  Mixed<Ops> const m = f;
  holds<Ops>(m, n, d, "construction from a fraction");
  back<Ops>(m, n, d);
  using Far = std::conditional_t<std::is_same_v<Ops, ieme::ops::fast>, ieme::ops::safe, ieme::ops::fast>;
  Mixed<Ops> const e {ieme::fraction<R, Far>(R(n), R(d))};
  holds<Ops>(e, n, d, "construction from a fraction of another policy");
}

void parts(i128 w, i128 n, i128 d)
{
  if (d == 0 || !all_fit<FR>(n, d) || !fits<W>(w))
    return;
  begin("mixed number from w + n/d, w,n,d =", w, n, d);
  ++states;
  pol::each_policy([&](auto t) { from_parts<typename decltype(t)::type>(w, n, d); });
  if (want_sample())
    sample(str(w) + " + " + str(n) + "/" + str(d) + " is "
           + show(Mixed<ieme::ops::defaults>(W(w), ieme::fraction<FR>(FR(n), FR(d)))));
}

void fraction(i128 n, i128 d)
{
  if (d == 0)
    return;
  begin("mixed number from n/d, n,d =", n, d);
  ++states;
  pol::each_policy([&](auto t) {
    using Ops = typename decltype(t)::type;
    from_fraction<Ops, FR>(n, d);
    from_fraction<Ops, Other>(n, d);
  });
}

// -- sums, and histories of them ------------------------------------------------

template <typename Ops>
struct Search {
  using M = Mixed<Ops>;
  using F = ieme::fraction<FR, Ops>;
  using State = std::array<i64, 6>;
  struct Node {
    M x, y;
    Q qx, qy;
    std::array<short, 10> path;
  };
  struct Act {
    int kind;
    i128 n, d;
  };
  enum { neg, plus, add_y, add_x, y_add, add_f, f_add, add_w, w_add, add_other_f, other_f_add, add_other_m, add_other_w, through, swap_xy };
  std::vector<Act> acts;
  std::set<State> seen;

  static State key(M const& x, M const& y)
  {
    return {(i64)x.whole(), (i64)x.fractional().num(), (i64)x.fractional().den(),
            (i64)y.whole(), (i64)y.fractional().num(), (i64)y.fractional().den()};
  }

  static std::string tell(Act const& a)
  {
    static char const* const t[] = {"-x", "+x", "x + y", "x + x", "y + x", "x + f", "f + x", "x + w", "w + x", "x + f'", "f' + x", "x + m'", "x + w'", "mixed(fraction(x))", "swap"};
    return std::string("x = ") + t[a.kind] + (a.kind >= add_f && a.kind <= add_other_w ? " with " + str(a.n) + "/" + str(a.d) : "");
  }

  static constexpr i128 small = 30000; // keeps every intermediate representable

  // the result in whatever type, its exact value checked, back in the register
  template <typename R>
  bool take(Node& n, R const& r, Q const& v)
  {
    holds<Ops>(r, v.n, v.d, "a sum or sign change along a history");
    n.x = M(W(r.whole()), ieme::fraction<FR, Ops>(r.fractional()));
    n.qx = reduced(v.n, v.d);
    holds<Ops>(n.x, v.n, v.d, "copying the parts");
    back<Ops>(n.x, v.n, v.d);
    return true;
  }

  bool step(Node& n, Act const& a)
  {
    auto sum = [](Q const& p, Q const& q) { return reduced(p.n * q.d + q.n * p.d, p.d * q.d); };
    Q const k = a.d ? reduced(a.n, a.d) : Q {};
    F const f {FR(a.n), FR(a.d ? a.d : 1)};
    ieme::fraction<Other, Ops> const g {Other(a.n), Other(a.d ? a.d : 1)};
    switch (a.kind)
    {
      case neg:
        if constexpr (is_signed)
          return take(n, -n.x, {-n.qx.n, n.qx.d});
        return false;
      case plus:
        return take(n, +n.x, n.qx);
      case add_y:
        return take(n, n.x + n.y, sum(n.qx, n.qy));
      case y_add:
        return take(n, n.y + n.x, sum(n.qx, n.qy));
      case add_x:
        return take(n, n.x + n.x, sum(n.qx, n.qx));
      case add_f:
        return take(n, n.x + f, sum(n.qx, k));
      case f_add:
        return take(n, f + n.x, sum(n.qx, k));
      case add_w:
        return take(n, n.x + W(a.n), sum(n.qx, k));
      case w_add:
        return take(n, W(a.n) + n.x, sum(n.qx, k));
      case add_other_f:
        return take(n, n.x + g, sum(n.qx, k));
      case other_f_add:
        return take(n, g + n.x, sum(n.qx, k));
      case add_other_m:
        return take(n, n.x + ieme::mixed_number<Other, Other, Ops>(g), sum(n.qx, k));
      case add_other_w:
        return take(n, n.x + Other(a.n), sum(n.qx, k));
      case through:
        return take(n, M(n.x.as_fraction()), n.qx);
      default:
        std::swap(n.x, n.y);
        std::swap(n.qx, n.qy);
        return true;
    }
  }

  void search(int depth)
  {
    for (int k : {neg, plus, add_y, add_x, y_add, through, swap_xy})
      acts.push_back({k, 0, 0});
    for (int k : {add_f, f_add, add_other_f, other_f_add, add_other_m})
      for (auto [n, d] : std::vector<std::pair<int, int>> {{1, 2}, {-2, 3}, {7, -4}, {-9, -6}, {5, 3}})
        if (is_signed || (n > 0 && d > 0))
          acts.push_back({k, n, d});
    for (int k : {add_w, w_add, add_other_w})
      for (int w : {1, -2})
        if (is_signed || w > 0)
          acts.push_back({k, w, 1});
    std::vector<Node> frontier, next;
    std::vector<std::pair<int, int>> const starts {{0, 1}, {3, 2}, {-5, 3}};
    for (auto [a, b] : starts)
      for (auto [c, d] : starts)
        if (is_signed || (a >= 0 && c >= 0))
        {
          Node n {M(F(FR(a), FR(b))), M(F(FR(c), FR(d))), reduced(a, b), reduced(c, d), {}};
          if (seen.insert(key(n.x, n.y)).second)
            frontier.push_back(n);
        }
    for (int level = 0; level < depth; ++level)
    {
      next.clear();
      for (Node const& from : frontier)
        for (std::size_t i = 0; i < acts.size(); ++i)
        {
          begin("mixed-number history; x = w + n/d, y = w + n/d, action:", (i128)from.x.whole(),
                (i128)from.x.fractional().num(), (i128)from.x.fractional().den(), (i128)from.y.whole(),
                (i128)from.y.fractional().num(), (i128)from.y.fractional().den(), i);
          Node n = from;
          if (!step(n, acts[i]))
            continue;
          ++traces;
          if (want_sample())
            sample(std::string(pol::name<Ops>()) + " x = " + show(from.x) + ": " + tell(acts[i]) + " -> " + show(n.x));
          i128 const q = n.x.fractional().den();
          if (iabs(q) > small || iabs(n.x.whole()) > small)
            continue;
          if (seen.insert(key(n.x, n.y)).second && level + 1 < depth)
            next.push_back(n);
        }
      frontier.swap(next);
    }
    states += seen.size();
  }
};

// Sums near the limits of the whole part: only the sums of the parts need to
// be representable, not the mixed numbers as fractions.
template <typename Ops>
inline void sums(i128 w, i128 p, i128 q, i128 v, i128 n, i128 d)
{
  i128 const whole = w + v + n / d;
  if (!all_fit<W>(whole - is_signed * 2, whole + 2, v, v + n / d, v + n / d + 1) || (is_signed && !fits<W>(v + n / d - 1)))
    return;
  ++traces;
  using M = Mixed<Ops>;
  using F = ieme::fraction<FR, Ops>;
  M const x {W(w), F(FR(p), FR(q))};
  F const f {FR(n), FR(d)};
  // (w + v) + p/q + n/d
  i128 const rn = mul<long long>(w + v, q * d) + p * d + n * q, rd = q * d;
  if (iabs(rn) > hi<long long>())
    return;
  M const y {W(v), f};
  holds<Ops>(x + y, rn, rd, "mixed + mixed near the limits");
  holds<Ops>(y + x, rn, rd, "mixed + mixed near the limits");
  if constexpr (is_signed)
  {
    holds<Ops>(-(x + y), -rn, rd, "-(mixed + mixed) near the limits");
    holds<Ops>(-x + -y, -rn, rd, "-mixed + -mixed near the limits");
  }
  if (v == 0)
  {
    holds<Ops>(x + f, rn, rd, "mixed + fraction near the limits");
    holds<Ops>(f + x, rn, rd, "fraction + mixed near the limits");
  }
  if (n == 0)
  {
    holds<Ops>(x + W(v), rn, rd, "mixed + whole near the limits");
    holds<Ops>(W(v) + x, rn, rd, "whole + mixed near the limits");
  }
}

void sum_near(i128 w, i128 p, i128 q, i128 v, i128 n, i128 d)
{
  begin("w + p/q plus v + n/d; w,p,q,v,n,d =", w, p, q, v, n, d);
  ++states;
  pol::each_policy([&](auto t) { sums<typename decltype(t)::type>(w, p, q, v, n, d); });
}

[[maybe_unused]] int const registered = [] {
  bool const big = thorough();
  for (std::size_t s = 0; s < 8; ++s)
  {
    auto const suffix = "/" + std::to_string(s);
    add("parts" + suffix, [=] {
      int const nw = big ? 20 : 7, nf = big ? 40 : 16;
      auto const ws = box<W>(nw), fs = box<FR>(nf);
      for (std::size_t i = s; i < fs.size(); i += 8)
        for (i128 w : ws)
          for (i128 n : fs)
            parts(w, n, fs[i]);
    });
    add("parts-edge" + suffix, [=] {
      auto const ws = pool<W>(0), fs = pool<FR>(big ? 1 : 0);
      for (std::size_t i = s; i < fs.size(); i += 8)
        for (i128 w : ws)
          for (i128 n : fs)
            parts(w, n, fs[i]);
    });
    add("sums-edge" + suffix, [=] {
      std::vector<i128> ws;
      for (i128 w : pool<W>(0))
        if (fits<W>(w + 3) && (!is_signed || fits<W>(w - 3)))
          ws.push_back(w);
      std::vector<std::pair<int, int>> const left {{0, 1}, {1, 3}, {2, 3}, {-1, 2}, {-4, 5}, {3, -4}};
      int const k = big ? 9 : 5;
      for (std::size_t i = s; i < ws.size(); i += 8)
        for (auto [p, q] : left)
          for (i128 v : ws)
            for (int d = 1; d <= k; ++d)
              for (int n = -2 * d; n <= 2 * d; ++n)
              {
                if (!is_signed && (p < 0 || q < 0 || n < 0))
                  continue;
                if (v != 0 && iabs(n) >= d && !big)
                  continue;
                sum_near(ws[i], p, q, v, n, d);
              }
    });
    add("fractions" + suffix, [=] {
      auto const v = box<FR>(big ? 600 : 150);
      for (std::size_t i = s; i < v.size(); i += 8)
        for (i128 n : v)
          fraction(n, v[i]);
    });
    add("fractions-edge" + suffix, [=] {
      auto const v = pool<FR>(2);
      for (std::size_t i = s; i < v.size(); i += 8)
        for (i128 n : v)
          fraction(n, v[i]);
      auto const u = pool<Other>(big ? 2 : 1);
      for (std::size_t i = s; i < u.size(); i += 8)
        for (i128 n : u)
          fraction(n, u[i]);
    });
  }
  pol::each_policy([&](auto t) {
    using Ops = typename decltype(t)::type;
    add(std::string("histories/") + pol::name<Ops>(), [=] {
      Search<Ops> s;
      s.search(big ? 5 : 4);
    });
  });
  add("default", [] {
    begin("the default mixed number");
    pol::each_policy([&](auto t) { holds<typename decltype(t)::type>(Mixed<typename decltype(t)::type> {}, 0, 1, "default construction"); });
  });
  return 0;
}();

} // namespace

MC_MAIN
