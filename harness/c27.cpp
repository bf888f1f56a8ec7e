// C27: fractions, raw fractions and mixed numbers are plain values. The states
// are the parts of two real objects x and y; every action is a write through one
// of the ways of reaching a part, an assignment, a copy, a move, a swap or a
// construction. The search runs until no new state appears; histories are also
// explored without merging states, to a depth. -DPART selects the representation.
#include "policies.hpp"

#include <deque>
#include <set>
#include <sstream>
#include <utility>

using namespace mc;
using namespace ref;

#include "rep.hpp"

namespace {

using Model = std::array<i128, 4>; // x's parts, y's parts

std::vector<Rep> values()
{
  std::vector<Rep> v {0, 1, 6};
  v.push_back(std::numeric_limits<Rep>::max());
  if (std::is_signed_v<Rep>)
    v.push_back(Rep(-4));
  if (thorough())
  {
    v.push_back(std::numeric_limits<Rep>::lowest() + Rep(std::is_unsigned_v<Rep> ? 2 : 0));
    v.push_back(9);
  }
  return v;
}

template <typename T>
struct Access;

template <typename Ops>
struct Access<ieme::fraction<Rep, Ops>> {
  using F = ieme::fraction<Rep, Ops>;
  static std::string name() { return std::string("fraction, ") + pol::name<Ops>(); }
  static constexpr int routes = 4;
  static Rep& top(F& f, int route)
  {
    switch (route)
    {
      case 0: return f.num();
      case 1: return f.numerator();
      case 2: return f.raw().numerator;
      default: { auto& raw = f.raw(); return raw.numerator; }
    }
  }
  static Rep& bottom(F& f, int route)
  {
    switch (route)
    {
      case 0: return f.den();
      case 1: return f.denominator();
      case 2: return f.raw().denominator;
      default: { auto& raw = f.raw(); return raw.denominator; }
    }
  }
  static bool is(F const& f, i128 n, i128 d)
  {
    F& writable = const_cast<F&>(f);
    return f.num() == Rep(n) && f.numerator() == Rep(n) && f.raw().numerator == Rep(n)
           && f.den() == Rep(d) && f.denominator() == Rep(d) && f.raw().denominator == Rep(d)
           && writable.num() == Rep(n) && writable.numerator() == Rep(n)
           && writable.den() == Rep(d) && writable.denominator() == Rep(d)
           && writable.raw().numerator == Rep(n) && writable.raw().denominator == Rep(d)
           && are_identical(f, F(Rep(n), Rep(d))) && is_defined(f) == (d != 0);
  }
  static bool one_object(F const& f)
  {
    // the same objects, not copies of them
    F& w = const_cast<F&>(f);
    return &w.num() == &w.numerator() && &w.num() == &w.raw().numerator && &w.den() == &w.denominator()
           && &w.den() == &w.raw().denominator;
  }
  // constructions, and what they make
  static constexpr int makes = 5;
  static F make(int how, Rep n, Rep d, i128& wn, i128& wd)
  {
    wn = n;
    wd = d;
    switch (how)
    {
      case 0: return F(n, d);
      case 1: return F(ieme::raw_fraction<Rep>(n, d));
      case 2: wd = 1; return F(n);
      case 3: { F f; wn = 0; wd = 1; return f; }
      default: return F {n, d};
    }
  }
};

template <>
struct Access<ieme::raw_fraction<Rep>> {
  using F = ieme::raw_fraction<Rep>;
  static std::string name() { return "raw_fraction"; }
  static constexpr int routes = 1;
  static Rep& top(F& f, int) { return f.numerator; }
  static Rep& bottom(F& f, int) { return f.denominator; }
  static bool is(F const& f, i128 n, i128 d)
  {
    return f.numerator == Rep(n) && f.denominator == Rep(d) && are_identical(f, F(Rep(n), Rep(d)));
  }
  static bool one_object(F const&) { return true; }
  static constexpr int makes = 3;
  static F make(int how, Rep n, Rep d, i128& wn, i128& wd)
  {
    wn = n;
    wd = d;
    switch (how)
    {
      case 0: return F(n, d);
      case 1: { F f; wn = wd = 0; return f; }
      default: { F f; f.numerator = n; f.denominator = d; return f; }
    }
  }
};

template <typename T>
struct Search {
  using A = Access<T>;
  struct Action {
    int kind, route;
    Rep n, d;
  };
  struct Node {
    T x, y;
    Model m;
    std::array<short, 8> path;
  };
  std::vector<Action> actions;

  enum { top, bottom, assign, copy, move, self, swap_std, swap_parts, round_trip, kinds };

  Search(bool few)
  {
    auto v = values();
    if (few)
      v.resize(3);
    for (int r = 0; r < A::routes; ++r)
      for (Rep a : v)
      {
        actions.push_back({top, r, a, 0});
        actions.push_back({bottom, r, a, 0});
      }
    for (int h = 0; h < A::makes; ++h)
      for (Rep a : v)
        for (Rep b : v)
          if (!few || (a == v[1] && b == v[2]))
            actions.push_back({assign, h, a, b});
    for (int k = copy; k < kinds; ++k)
      actions.push_back({k, 0, 0, 0});
  }

  static std::string tell(Action const& a)
  {
    static char const* const names[] = {"write x's numerator by way ", "write x's denominator by way ",
                                        "x = construction ", "x = y", "x = std::move(copy of y)", "x = x",
                                        "std::swap(x, y)", "swap parts of x", "x = copy of copy of x"};
    std::string s = names[a.kind];
    if (a.kind <= assign)
      s += std::to_string(a.route) + " (" + str(a.n) + (a.kind == assign ? "," + str(a.d) : "") + ")";
    return s;
  }

  [[noreturn]] void bad(Node const& n, int depth, char const* what)
  {
    std::string path;
    for (int i = 0; i <= depth && i < 8; ++i)
      path += (i ? "; " : "") + tell(actions[n.path[i]]);
    std::ostringstream got;
    got << n.x << " and " << n.y;
    fail(A::name() + " " + pol::rep_name<Rep>() + ", after " + path + ": " + what + "; x and y are "
         + got.str() + ", expected " + str(n.m[0]) + "/" + str(n.m[1]) + " and " + str(n.m[2]) + "/"
         + str(n.m[3]));
  }

  void step(Node& n, Action const& a, int depth)
  {
    auto& m = n.m;
    switch (a.kind)
    {
      case top:
        A::top(n.x, a.route) = a.n;
        m[0] = a.n;
        break;
      case bottom:
        A::bottom(n.x, a.route) = a.n;
        m[1] = a.n;
        break;
      case assign: {
        T& r = n.x = A::make(a.route, a.n, a.d, m[0], m[1]);
        if (&r != &n.x)
          bad(n, depth, "the assignment does not refer to x");
        break;
      }
      case copy:
        n.x = n.y;
        m[0] = m[2], m[1] = m[3];
        break;
      case move: {
        T source = n.y;
        n.x = std::move(source);
        m[0] = m[2], m[1] = m[3];
        break;
      }
      case self: {
        T& same = n.x;
        n.x = same;
        break;
      }
      case swap_std:
        if (depth & 1)
          std::swap(n.x, n.y);
        else
        {
          using std::swap;
          swap(n.x, n.y);
        }
        std::swap(m[0], m[2]);
        std::swap(m[1], m[3]);
        break;
      case swap_parts:
        std::swap(A::top(n.x, 0), A::bottom(n.x, 0));
        std::swap(m[0], m[1]);
        break;
      default: {
        T const first = n.x;
        T second(first);
        A::top(n.x, 0) = 77; // the copies must not notice
        A::bottom(second, 0) = 78;
        if (!A::is(first, m[0], m[1]))
          bad(n, depth, "a copy changed with what it was copied from");
        n.x = T(first);
      }
    }
    ++transitions;
    if (!A::is(n.x, m[0], m[1]))
      bad(n, depth, "x is not what was written");
    if (!A::is(n.y, m[2], m[3]))
      bad(n, depth, "y is not what was written");
    if (!A::one_object(n.x))
      bad(n, depth, "the ways of reaching a part reach different objects");
  }

  static Node start()
  {
    Node n {};
    n.x = T(Rep(0), Rep(1));
    n.y = T(Rep(6), Rep(1));
    n.m = {0, 1, 6, 1};
    return n;
  }

  // all states
  void closure()
  {
    std::deque<Node> todo {start()};
    std::set<Model> seen {todo.front().m};
    while (!todo.empty())
    {
      Node const from = todo.front();
      todo.pop_front();
      ++states;
      for (std::size_t i = 0; i < actions.size(); ++i)
      {
        begin("parts of x and y, action", from.m[0], from.m[1], from.m[2], from.m[3], i);
        ++traces;
        Node n = from;
        n.path[0] = short(i);
        step(n, actions[i], 0);
        if (seen.insert(n.m).second)
          todo.push_back(n);
        if (want_sample())
          sample(A::name() + ": " + tell(actions[i]) + " gives " + str(n.m[0]) + "/" + str(n.m[1]));
      }
    }
  }

  // all histories, the objects carried along without copying them
  void histories(int depth)
  {
    std::vector<int> path(depth, 0);
    for (;;)
    {
      begin("history of actions", path[0], path[1], depth > 2 ? path[2] : -1, depth > 3 ? path[3] : -1);
      ++states;
      ++traces;
      Node n = start();
      for (int i = 0; i < depth; ++i)
      {
        n.path[i] = short(path[i]);
        step(n, actions[path[i]], i);
      }
      int i = depth;
      while (i && ++path[i - 1] == int(actions.size()))
        path[--i] = 0;
      if (!i)
        return;
    }
  }
};

// mixed numbers: defaults, copies, assignments
template <typename Ops>
void mixed()
{
  using F = ieme::fraction<Rep, Ops>;
  using M = ieme::mixed_number<Rep, Rep, Ops>;
  auto is = [](M const& m, i128 w, i128 n, i128 d) {
    return i128(m.whole()) == w && i128(m.fractional().num()) == n && i128(m.fractional().den()) == d;
  };
  begin("a default-constructed mixed number");
  ++states;
  ++traces;
  M const nothing;
  M const braces {};
  transitions += 2;
  if (!is(nothing, 0, 0, 1) || !is(braces, 0, 0, 1))
    fail(std::string(pol::name<Ops>()) + " " + pol::rep_name<Rep>() + ": not zero");
  std::vector<M> all;
  std::vector<std::array<i128, 3>> parts;
  for (int w : {0, 1, 5})
    for (auto [n, d] : std::vector<std::pair<int, int>> {{0, 3}, {0, 5}, {1, 3}, {2, 6}, {2, 3}, {4, 6}, {1, 5}, {6, 7}})
      for (int s : {1, -1})
      {
        if (s < 0 && std::is_unsigned_v<Rep>)
          continue;
        all.push_back(M(Rep(s * w), F(Rep(s * n), Rep(d))));
        M const& m = all.back(); // C13's business: here, whatever they are, they stay
        parts.push_back({i128(m.whole()), i128(m.fractional().num()), i128(m.fractional().den())});
      }
  for (std::size_t i = 0; i < all.size(); ++i)
    for (std::size_t j = 0; j < all.size(); ++j)
    {
      begin("mixed numbers number i and j, copied, assigned and swapped", i, j);
      ++states;
      ++traces;
      auto const &p = parts[i], &q = parts[j];
      M x = all[i], y(all[j]);
      M const third = x;
      transitions += 7;
      auto check = [&](auto const& a, auto const& b, char const* what) {
        if (!is(x, a[0], a[1], a[2]) || !is(y, b[0], b[1], b[2]))
          fail(std::string(pol::name<Ops>()) + " " + pol::rep_name<Rep>() + ", mixed numbers: after " + what
               + " x is " + str(x.whole()) + " " + pol::show(x.fractional()) + ", y is " + str(y.whole()) + " "
               + pol::show(y.fractional()));
      };
      check(p, q, "copying");
      std::swap(x, y);
      check(q, p, "std::swap");
      M& r = x = y;
      if (&r != &x)
        fail("assignment does not refer to x");
      check(p, p, "x = y");
      M const& same = x;
      x = same;
      check(p, p, "x = x");
      x = M(all[j]);
      check(q, p, "x = a copy");
      y = M();
      check(q, std::array<i128, 3> {0, 0, 1}, "y = M()");
      x = x.whole();
      check(std::array<i128, 3> {q[0], 0, 1}, std::array<i128, 3> {0, 0, 1}, "x = x.whole()");
      if (!is(third, p[0], p[1], p[2]))
        fail("a copy changed with what it was copied from");
    }
}

template <typename T>
void types(std::string const& name)
{
  add("states/" + name, [] {
    Search<T> s(false);
    s.closure();
  });
  add("histories/" + name, [] {
    Search<T> s(true);
    s.histories(thorough() ? 4 : 3);
  });
}

[[maybe_unused]] int const registered = [] {
  types<ieme::raw_fraction<Rep>>("raw");
  pol::each_policy([](auto t) {
    using Ops = typename decltype(t)::type;
    types<ieme::fraction<Rep, Ops>>(pol::name<Ops>());
    add(std::string("mixed/") + pol::name<Ops>(), mixed<Ops>);
  });
  return 0;
}();

} // namespace

MC_MAIN
