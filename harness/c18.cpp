// C18: hashing agrees with equality, and unordered containers keyed by
// fractions behave as sets and maps of rationals. -DPART selects the representation.
#include "domains.hpp"
#include "policies.hpp"

#include <map>
#include <optional>
#include <set>
#include <unordered_map>
#include <unordered_set>

using namespace mc;
using namespace ref;

#include "rep.hpp"

namespace {

// The hash of every fraction equals that of its canonical form (computed the
// boring way), hence fractions that compare equal have equal hashes.
void one(i128 a, i128 b)
{
  if (b == 0 || !all_fit<Rep>(a, b))
    return;
  begin("hash of a/b =", a, b);
  ++states;
  Q const q = reduced(a, b);
  pol::each_policy([&](auto t) {
    using Ops = typename decltype(t)::type;
    using F = ieme::fraction<Rep, Ops>;
    ++traces;
    transitions += 3;
    F const f {Rep(a), Rep(b)}, c {Rep(q.n), Rep(q.d)};
    auto const h = std::hash<F>()(f);
    if (h != std::hash<F>()(c))
      fail(std::string(pol::name<Ops>()) + " " + pol::rep_name<Rep>() + ": " + pol::show(f) + " and "
           + pol::show(c) + " are equal but hash differently");
    if (h != ieme::hash(f) || h != std::hash<F>()(F(f)))
      fail("std::hash and ieme::hash differ, or the hash is not stable, for " + pol::show(f));
    if (want_sample())
      sample(pol::show(f) + " hashes to " + std::to_string(h));
  });
  using R = ieme::raw_fraction<Rep>;
  R const r {Rep(a), Rep(b)};
  R const copy = r;
  transitions += 2;
  if (std::hash<R>()(r) != std::hash<R>()(copy) || std::hash<R>()(r) != ieme::hash(r))
    fail("identical raw fractions hash differently");
  // mixed numbers whose parts are equal, from this fraction and from its
  // canonical form, under every policy
  if (iabs(a) < iabs(b) && iabs(b) <= hi<Rep>() / 2)
    pol::each_policy([&](auto t) {
      using Ops = typename decltype(t)::type;
      using M = ieme::mixed_number<Rep, Rep, Ops>;
      using F = ieme::fraction<Rep, Ops>;
      for (int const w : {-2, 0, 3})
      {
        if (!fits<Rep>(w))
          continue;
        M const x {Rep(w), F(Rep(a), Rep(b))}, y {Rep(w), F(Rep(q.n), Rep(q.d))};
        ++traces;
        transitions += 3;
        bool const equal_parts
          = x.whole() == y.whole()
            && compare(x.fractional().num(), x.fractional().den(), y.fractional().num(), y.fractional().den()) == 0;
        if (equal_parts
            && (std::hash<M>()(x) != std::hash<M>()(y) || std::hash<M>()(x) != ieme::hash(x)))
          fail(std::string(pol::name<Ops>()) + " " + pol::rep_name<Rep>() + ": mixed numbers with equal parts "
               + pol::show(x.fractional()) + " and " + pol::show(y.fractional()) + " hash differently");
      }
    });
  if constexpr (PART == 0 || PART == 2)
  {
    if (iabs(a) > hi<Rep>() / 4 || iabs(b) > hi<Rep>() / 4)
      return;
    using M = ieme::mixed_number<Rep, Rep>;
    M const m {ieme::fraction<Rep>(Rep(a), Rep(b))};
    M const same {m.whole(), m.fractional()};
    transitions += 2;
    bool const equal_parts
      = m.whole() == same.whole() && are_identical(m.fractional(), same.fractional());
    if (equal_parts
        && (std::hash<M>()(m) != std::hash<M>()(same) || std::hash<M>()(m) != ieme::hash(m)))
      fail("mixed numbers with equal parts hash differently");
  }
}

// Explicit-state search of histories of insert/erase/assign on an
// unordered_set and an unordered_map against ordered containers of rationals.
struct Action {
  int kind; // 0 insert, 1 erase, 2 map[key] += 1
  i128 n, d;
};

template <typename Ops>
void histories(int depth)
{
  using F = ieme::fraction<Rep, Ops>;
  std::vector<Action> actions;
  std::vector<std::pair<int, int>> keys {{1, 2}, {2, 4}, {3, 6}, {0, 1}, {0, 5}, {2, 1}, {6, 3}};
  if (std::is_signed_v<Rep>)
  {
    keys.push_back({-1, -2});
    keys.push_back({-1, 2});
    keys.push_back({2, -4});
  }
  for (int k = 0; k < 3; ++k)
    for (auto [n, d] : keys)
      actions.push_back({k, n, d});
  std::vector<std::size_t> at(depth, 0);
  auto run = [&](int length) {
    begin("history of container operations; indices", length, at[0], length > 1 ? at[1] : 0,
          length > 2 ? at[2] : 0, length > 3 ? at[3] : 0);
    ++traces;
    std::unordered_set<F> set;
    std::unordered_map<F, int> map;
    std::set<std::pair<i64, i64>> rset;
    std::map<std::pair<i64, i64>, int> rmap;
    for (int i = 0; i < length; ++i)
    {
      Action const& a = actions[at[i]];
      F const f {Rep(a.n), Rep(a.d)};
      Q const q = reduced(a.n, a.d);
      std::pair<i64, i64> const k {(i64)q.n, (i64)q.d};
      ++transitions;
      bool ok = true;
      if (a.kind == 0)
        ok = set.insert(f).second == rset.insert(k).second;
      else if (a.kind == 1)
        ok = set.erase(f) == rset.erase(k) && map.erase(f) == rmap.erase(k);
      else
        ok = ++map[f] == ++rmap[k];
      if (!ok || set.size() != rset.size() || map.size() != rmap.size())
        fail(std::string(pol::name<Ops>()) + ": step " + std::to_string(i)
             + " of the history differs from the same history on rationals");
    }
    for (auto [n, d] : keys)
    {
      F const f {Rep(n), Rep(d)};
      Q const q = reduced(n, d);
      std::pair<i64, i64> const k {(i64)q.n, (i64)q.d};
      ++transitions;
      if (set.count(f) != rset.count(k) || map.count(f) != rmap.count(k)
          || (map.count(f) && map.at(f) != rmap.at(k)))
        fail(std::string(pol::name<Ops>()) + ": lookup of " + pol::show(f) + " differs");
    }
    ++states;
  };
  for (int length = 1; length <= depth; ++length)
  {
    std::fill(at.begin(), at.end(), 0);
    for (;;)
    {
      run(length);
      int p = length - 1;
      while (p >= 0 && ++at[p] == actions.size())
        at[p--] = 0;
      if (p < 0)
        break;
    }
  }
}

// A hash that forgets a part is no hash: for every value of one part, different
// values of the other have different hashes among them.
template <typename T, typename Make>
void depends(std::string const& what, std::vector<i128> const& fixed, std::vector<i128> const& varied, Make make)
{
  for (i128 f : fixed)
  {
    begin(what.c_str(), f);
    ++states;
    std::set<std::size_t> seen;
    int n = 0;
    for (i128 v : varied)
      if (auto const made = make(f, v))
      {
        ++n;
        ++traces;
        transitions += 2;
        std::size_t const h = std::hash<T>()(*made);
        if (h != ieme::hash(*made))
          fail("std::hash and ieme::hash differ");
        seen.insert(h);
      }
    if (n > 1 && seen.size() == 1)
      fail(what + " " + str(f) + ": " + std::to_string(n) + " different values, one hash");
    if (want_sample())
      sample(what + " " + str(f) + ": " + std::to_string(n) + " different values, " + std::to_string(seen.size())
             + " hashes");
  }
}

template <typename Ops>
void both_parts(int k)
{
  using F = ieme::fraction<Rep, Ops>;
  using R = ieme::raw_fraction<Rep>;
  using M = ieme::mixed_number<Rep, Rep, Ops>;
  std::vector<i128> all, small;
  for (i128 v = std::is_signed_v<Rep> ? -k : 0; v <= k; ++v)
    all.push_back(v), small.push_back(v);
  for (i128 v = 0; v < k; ++v)
  {
    all.push_back(hi<Rep>() - v);
    all.push_back(hi<Rep>() / 2 - v);
    if (std::is_signed_v<Rep>)
      all.push_back(v - hi<Rep>());
  }
  auto const fraction = [](i128 n, i128 d) {
    return d > 0 && gcd(iabs(n), d) == 1 ? std::optional<F>(F(Rep(n), Rep(d))) : std::nullopt;
  };
  auto const raw = [](i128 n, i128 d) { return std::optional<R>(R(Rep(n), Rep(d))); };
  auto const mixed = [](i128 w, i128 d) {
    return d > 1 && w >= 0 && w < hi<Rep>() / 2 ? std::optional<M>(M(Rep(w), F(Rep(1), Rep(d)))) : std::nullopt;
  };
  auto const swapped = [](auto make) { return [make](i128 a, i128 b) { return make(b, a); }; };
  std::string const name = pol::name<Ops>();
  for (auto const& varied : {small, all})
  {
    depends<F>(name + ": fractions with the numerator", all, varied, fraction);
    depends<F>(name + ": fractions with the denominator", all, varied, swapped(fraction));
    depends<R>("raw fractions with the numerator", all, varied, raw);
    depends<R>("raw fractions with the denominator", all, varied, swapped(raw));
    depends<M>(name + ": mixed numbers with the whole part", all, varied, mixed);
    depends<M>(name + ": mixed numbers with the fractional part 1 /", all, varied, swapped(mixed));
  }
}

[[maybe_unused]] int const registered = [] {
  bool const big = thorough();
  dom::singles<Rep>(big ? 1000 : 120, big ? 2 : 1, big ? 50000 : 4000, one);
  pol::each_policy([=](auto t) {
    using Ops = typename decltype(t)::type;
    add(std::string("both parts/") + pol::name<Ops>(), [=] { both_parts<Ops>(big ? 200 : 40); });
  });
  add("containers-default", [=] { histories<ieme::ops::defaults>(big ? 4 : 3); });
  add("containers-safe", [=] { histories<ieme::ops::safe>(big ? 4 : 3); });
  add("containers-fast", [=] { histories<ieme::ops::fast>(big ? 4 : 3); });
  return 0;
}();

} // namespace

MC_MAIN
