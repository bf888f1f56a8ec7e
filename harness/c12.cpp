// C12: compound assignment along histories. A breadth-first search over the
// states of two registers x, y of the real type: every action is one compound
// assignment (or copy) applied to the real objects, next to a model holding
// exact rationals. -DPART selects the representation.
#include "policies.hpp"

#include <algorithm>
#include <set>

using namespace mc;
using namespace ref;

#include "rep.hpp"

namespace {

// another representation for the right operand
#if PART == 0
using Other = long long;
using OtherScalar = short;
#elif PART == 1
using Other = unsigned long long;
using OtherScalar = unsigned short;
#elif PART == 2
using Other = int;
using OtherScalar = short;
#else
using Other = unsigned;
using OtherScalar = unsigned char;
#endif

char const* const op_name[5] = {"+=", "-=", "*=", "/=", "%="};

template <typename L, typename R>
L& apply(int op, L& l, R const& r)
{
  switch (op)
  {
    case 0:
      return l += r;
    case 1:
      return l -= r;
    case 2:
      return l *= r;
    case 3:
      return l /= r;
    default:
      return l %= r;
  }
}

// exact result of (a/b) op (c/d), if it is within the preconditions; false
// otherwise
template <typename R = Rep>
bool exact(int op, i128 a, i128 b, i128 c, i128 d, Q& out)
{
  if (b == 0 || d == 0)
  {
    out = {0, 0};
    return true;
  }
  i128 const ad = mul<R>(a, d), cb = mul<R>(c, b), bd = mul<R>(b, d), ac = mul<R>(a, c);
  if (!all_fit<R>(a, b, c, d))
    return false;
  bool const add = all_fit<R>(ad, cb, bd);
  switch (op)
  {
    case 0:
      out = reduced(ad + cb, bd);
      return add && fits<R>(ad + cb);
    case 1:
      out = reduced(ad - cb, bd);
      return add && fits<R>(ad - cb);
    case 2:
      out = reduced(ac, bd);
      return all_fit<R>(ac, bd);
    case 3:
      if (c == 0)
      {
        out = {0, 0};
        return true;
      }
      out = reduced(ad, cb);
      return all_fit<R>(ad, cb);
    default:
      if (c == 0)
      {
        out = {0, 0};
        return true;
      }
      out = reduced(ad % cb, bd);
      return add;
  }
}

enum Operand { with_y, with_x, with_numerator, with_denominator, with_fraction, with_scalar, with_other, with_other_scalar, copy_y, swap_xy };

struct Action {
  Operand operand;
  int op;
  i128 n, d;
};

template <typename Ops>
struct Search {
  using F = ieme::fraction<Rep, Ops>;
  using State = std::array<i64, 4>;

  struct Node {
    F x, y;
    Q qx, qy; // the model: exact values, reduced
    std::array<short, 8> path;
  };

  std::vector<Action> actions;
  std::set<State> seen;

  static State key(F const& x, F const& y)
  {
    return {(i64)x.num(), (i64)x.den(), (i64)y.num(), (i64)y.den()};
  }

  static bool is(F const& f, Q const& q)
  {
    if (q.d == 0)
      return i128(f.den()) == 0;
    return i128(f.den()) != 0 && compare(f.num(), f.den(), q.n, q.d) == 0;
  }

  std::string tell(Action const& a)
  {
    static char const* const names[] = {"y", "x", "x.num()", "x.den()", "", "", "", "", "x = y", "swap"};
    if (a.operand == copy_y || a.operand == swap_xy)
      return names[a.operand];
    std::string r = std::string("x ") + op_name[a.op] + " ";
    if (a.operand < with_fraction)
      return r + names[a.operand];
    return r + str(a.n) + (a.operand == with_fraction || a.operand == with_other ? "/" + str(a.d) : "")
           + (a.operand >= with_other ? " (of another type)" : "");
  }

  [[noreturn]] void bad(Node const& from, int depth, std::string const& what)
  {
    std::string path;
    for (int i = 0; i <= depth; ++i)
      path += (i ? "; " : "") + tell(actions[from.path[i]]);
    fail(std::string(pol::name<Ops>()) + " " + pol::rep_name<Rep>() + ", after " + path + " (x was "
         + pol::show(from.x) + ", y " + pol::show(from.y) + "): " + what);
  }

  // -> false: outside the preconditions, not taken
  bool step(Node& n, Action const& a, int depth)
  {
    Node const before = n;
    i128 const p = n.x.num(), q = n.x.den();
    auto check = [&](Q const& want, F const* returned) {
      ++transitions;
      if (!is(n.x, want))
        bad(n = before, depth, "x does not have the exact value of the operation; expected "
                                 + str(want.n) + "/" + str(want.d));
      if (returned != &n.x)
        bad(before, depth, "the expression does not refer to x");
      if (!are_identical(n.y, before.y))
        bad(before, depth, "another object changed");
      n.qx = want;
    };
    auto run = [&](auto const& right, i128 rn, i128 rd) {
      Q want;
      if (!exact(a.op, p, q, rn, rd, want))
        return false;
      F const& r = apply(a.op, n.x, right);
      F got = n.x;
      check(want, &r);
      (void)got;
      return true;
    };
    switch (a.operand)
    {
      case with_y:
        return run(n.y, n.y.num(), n.y.den());
      case with_x:
        return run(n.x, p, q);
      case with_numerator:
        return run(n.x.num(), p, 1);
      case with_denominator:
        return run(n.x.den(), q, 1);
      case with_fraction: {
        F const f {Rep(a.n), Rep(a.d)};
        F const copy = f;
        bool const done = run(f, a.n, a.d);
        if (!are_identical(f, copy))
          bad(before, depth, "the right operand changed");
        return done;
      }
      case with_scalar: {
        Rep const s = Rep(a.n);
        bool const done = run(s, a.n, 1);
        if (s != Rep(a.n))
          bad(before, depth, "the right operand changed");
        return done;
      }
      case with_other: {
        ieme::fraction<Other, Ops> const f {Other(a.n), Other(a.d)};
        bool const done = run(f, a.n, a.d);
        if (i128(f.num()) != a.n || i128(f.den()) != a.d)
          bad(before, depth, "the right operand changed");
        return done;
      }
      case with_other_scalar:
        return run(OtherScalar(a.n), a.n, 1);
      case copy_y:
        n.x = n.y;
        n.qx = n.qy;
        ++transitions;
        return true;
      default:
        std::swap(n.x, n.y);
        std::swap(n.qx, n.qy);
        ++transitions;
        return true;
    }
  }

  void search(int depth, std::vector<std::pair<i128, i128>> const& starts)
  {
    bool const sign = std::is_signed_v<Rep>;
    for (int op = 0; op < 5; ++op)
    {
      for (Operand o : {with_y, with_x, with_numerator, with_denominator})
        actions.push_back({o, op, 0, 0});
      for (auto [n, d] : std::vector<std::pair<int, int>> {{1, 2}, {-2, 3}, {6, -4}, {0, 5}, {7, 1}, {3, 0}})
        if (sign || (n >= 0 && d >= 0))
          actions.push_back({with_fraction, op, n, d});
      for (int s : {2, -3, 0})
        if (sign || s >= 0)
          actions.push_back({with_scalar, op, s, 1});
      actions.push_back({with_other, op, 4, 6});
      if (sign)
        actions.push_back({with_other, op, -5, 2});
      actions.push_back({with_other_scalar, op, 3, 1});
    }
    actions.push_back({copy_y, 0, 0, 0});
    actions.push_back({swap_xy, 0, 0, 0});

    std::vector<Node> frontier, next;
    for (auto [a, b] : starts)
      for (auto [c, d] : starts)
      {
        Node n {F(Rep(a), Rep(b)), F(Rep(c), Rep(d)), reduced(a, b), reduced(c, d), {}};
        if (seen.insert(key(n.x, n.y)).second)
          frontier.push_back(n);
      }
    for (int level = 0; level < depth; ++level)
    {
      next.clear();
      for (Node const& from : frontier)
        for (std::size_t i = 0; i < actions.size(); ++i)
        {
          begin("compound assignment; x, y and the action:", (i128)from.x.num(), (i128)from.x.den(),
                (i128)from.y.num(), (i128)from.y.den(), i);
          Node n = from;
          n.path[level] = short(i);
          if (!step(n, actions[i], level))
            continue;
          ++traces;
          if (want_sample())
            sample(std::string(pol::name<Ops>()) + " x = " + pol::show(from.x) + ", y = " + pol::show(from.y)
                   + ": " + tell(actions[i]) + " -> " + pol::show(n.x));
          if (seen.insert(key(n.x, n.y)).second && level + 1 < depth)
            next.push_back(n);
        }
      frontier.swap(next);
    }
    states += seen.size();
  }
};

// x op= y with y of another representation, both near the limits
template <typename Ops, typename O>
void others()
{
  using F = ieme::fraction<Rep, Ops>;
  std::vector<std::pair<i128, i128>> left, right;
  std::vector<i128> v;
  for (auto const& p : {pool<Rep>(0), pool<O>(0)})
    for (i128 x : p)
      if (fits<Rep>(x) && fits<O>(x) && std::find(v.begin(), v.end(), x) == v.end())
        v.push_back(x);
  for (i128 n : v)
    for (i128 d : v)
      right.push_back({n, d});
  for (auto [n, d] : std::vector<std::pair<int, int>> {{1, 1}, {0, 1}, {1, 2}, {-1, 1}, {5, -3}, {4, 6}, {1, 0}})
    if (fits<Rep>(n) && fits<Rep>(d))
      left.push_back({n, d});
  left.push_back({hi<Rep>(), 1});
  left.push_back({1, hi<Rep>()});
  for (auto [a, b] : left)
    for (auto [n, d] : right)
    {
      begin("compound assignment of another representation; a/b op= n/d; a,b,n,d =", a, b, n, d);
      ++states;
      for (int op = 0; op < 5; ++op)
      {
        auto one = [&](auto const& y, i128 rn, i128 rd, char const* kind) {
          Q want;
          if (!exact(op, a, b, rn, rd, want))
            return;
          ++traces;
          ++transitions;
          F x {Rep(a), Rep(b)};
          F& r = apply(op, x, y);
          if (&r != &x)
            fail("the expression does not refer to x");
          if (i128(x.den()) == 0 ? want.d != 0 : (want.d == 0 || compare(x.num(), x.den(), want.n, want.d) != 0))
            fail(std::string(pol::name<Ops>()) + " x " + op_name[op] + " " + kind + " gave " + pol::show(x)
                 + ", expected " + str(want.n) + "/" + str(want.d));
        };
        one(ieme::fraction<O, Ops>(O(n), O(d)), n, d, "fraction of another representation");
        if (d == 1)
          one(O(n), n, 1, "scalar of another type");
      }
    }
}

// x op= y with a y that x's own representation does not hold, although it holds
// the result: computed in the common type, as x op y is
template <typename Ops, typename O>
void wider()
{
  using C = std::common_type_t<Rep, O>;
  if constexpr (!std::is_same_v<C, Rep> && (std::is_signed_v<C> || std::is_unsigned_v<Rep>))
  {
    using F = ieme::fraction<Rep, Ops>;
    std::vector<std::pair<i128, i128>> left, right;
    auto add_right = [&](i128 n, i128 d) {
      if (fits<O>(n) && fits<O>(d) && !(fits<Rep>(n) && fits<Rep>(d)))
        right.push_back({n, d});
    };
    auto const v = pool<O>(0);
    for (i128 n : v)
      for (i128 d : v)
      {
        add_right(n, d);
        add_right(6 * n, 6 * d);
        add_right(6 * n, d);
      }
    auto const few = box<O>(6);
    for (i128 n : few)
      for (i128 d : few)
      {
        add_right(n, d);
        add_right(n * (hi<Rep>() + 2), d * (hi<Rep>() + 2));
      }
    for (auto [n, d] : std::vector<std::pair<i128, i128>> {{1, 1}, {0, 1}, {1, 2}, {-1, 1}, {5, -3}, {4, 6}, {7, 60}, {1, 0},
                                                           {hi<Rep>(), 1}, {1, hi<Rep>()}, {hi<Rep>() - 1, 2}})
      if (fits<Rep>(n) && fits<Rep>(d))
        left.push_back({n, d});
    for (auto [a, b] : left)
      for (auto [n, d] : right)
      {
        begin("compound assignment of a value that only the other representation holds; a/b op= n/d; a,b,n,d =", a, b, n, d);
        ++states;
        for (int op = 0; op < 5; ++op)
        {
          auto one = [&](auto const& y, i128 rd, char const* kind) {
            Q want;
            if (!exact<C>(op, a, b, n, rd, want))
              return;
            F x = F(Rep(a), Rep(b));
            auto const common = op == 0 ? x + y : op == 1 ? x - y : op == 2 ? x * y : op == 3 ? x / y : x % y;
            if (!fits<Rep>(common.num()) || !fits<Rep>(common.den()))
              return;
            ++traces;
            ++transitions;
            F& r = apply(op, x, y);
            if (&r != &x)
              fail("the expression does not refer to x");
            if (i128(x.den()) == 0 ? want.d != 0 : (want.d == 0 || compare(x.num(), x.den(), want.n, want.d) != 0))
              fail(std::string(pol::name<Ops>()) + " x " + op_name[op] + " " + kind + " gave " + pol::show(x)
                   + ", expected " + str(want.n) + "/" + str(want.d));
          };
          one(ieme::fraction<O, Ops>(O(n), O(d)), d, "fraction of a wider representation");
          if (d == 1)
            one(O(n), 1, "scalar of a wider type");
        }
      }
  }
}

[[maybe_unused]] int const registered = [] {
  pol::each_policy([&](auto t) {
    using Ops = typename decltype(t)::type;
    add(std::string("others/") + pol::name<Ops>(), [] {
      others<Ops, int>();
      others<Ops, unsigned>();
      others<Ops, long long>();
      others<Ops, unsigned long long>();
    });
    add(std::string("wider/") + pol::name<Ops>(), [] {
      wider<Ops, int>();
      wider<Ops, unsigned>();
      wider<Ops, long long>();
      wider<Ops, unsigned long long>();
    });
    add(std::string("histories/") + pol::name<Ops>(), [] {
      bool const sign = std::is_signed_v<Rep>;
      Search<Ops> s;
      std::vector<std::pair<i128, i128>> starts {{1, 3}, {4, 6}};
      if (sign)
        starts.push_back({-3, -2});
      s.search(thorough() ? 4 : 3, starts);
    });
    // near the limits of the representation, one step from every pair of these
    add(std::string("limits/") + pol::name<Ops>(), [] {
      Search<Ops> s;
      std::vector<std::pair<i128, i128>> starts;
      for (i128 a : pool<Rep>(0))
        for (i128 b : {(i128)1, (i128)2, hi<Rep>(), hi<Rep>() / 2, (i128)-3})
          if (b > 0 || std::is_signed_v<Rep>)
            starts.push_back({a, b});
      if (!thorough() && starts.size() > 120)
        starts.resize(120);
      s.search(thorough() ? 2 : 1, starts);
    });
  });
  return 0;
}();

} // namespace

MC_MAIN
