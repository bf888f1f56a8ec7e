// C01: the five arithmetic operators and the two signs are exact under every
// policy, for every operand shape, wherever the cross products are representable.
// -DPART selects the representation.
#include "domains.hpp"
#include "policies.hpp"

using namespace mc;
using namespace ref;

#include "rep.hpp"

namespace {

// one tuple's exact results, shared by all policies
struct Expect {
  i128 ad, cb, bd, ac;
  bool ok[5];
  i128 n[5], d[5];
};

Expect expect(i128 a, i128 b, i128 c, i128 d)
{
  Expect e {};
  e.ad = mul<Rep>(a, d);
  e.cb = mul<Rep>(c, b);
  e.bd = mul<Rep>(b, d);
  e.ac = mul<Rep>(a, c);
  bool const add = all_fit<Rep>(a, b, c, d, e.ad, e.cb, e.bd);
  e.ok[0] = add && fits<Rep>(e.ad + e.cb);
  e.n[0] = e.ad + e.cb;
  e.d[0] = e.bd;
  e.ok[1] = add && fits<Rep>(e.ad - e.cb);
  e.n[1] = e.ad - e.cb;
  e.d[1] = e.bd;
  e.ok[2] = all_fit<Rep>(a, b, c, d, e.ac, e.bd);
  e.n[2] = e.ac;
  e.d[2] = e.bd;
  e.ok[3] = all_fit<Rep>(a, b, c, d, e.ad, e.cb) && c != 0;
  e.n[3] = e.ad;
  e.d[3] = e.cb;
  e.ok[4] = add && c != 0;
  if (e.ok[4])
  {
    e.n[4] = e.ad % e.cb;
    e.d[4] = e.bd;
  }
  return e;
}

char const* const op_name[5] = {"+", "-", "*", "/", "%"};

template <typename F>
inline void same(F const& r, Expect const& e, int op, char const* policy,
                 char const* shape)
{
  ++transitions;
  if (i128(r.den()) != 0 && u128(i128(r.num())) * u128(e.d[op]) == u128(e.n[op]) * u128(i128(r.den())))
    return;
  fail(std::string(policy) + " " + pol::rep_name<Rep>() + " " + shape
       + " operator" + op_name[op] + ": got " + pol::show(r) + ", exact value "
       + str(e.n[op]) + "/" + str(e.d[op]));
}

template <typename L, typename R>
inline void five(L const& l, R const& r, Expect const& e, char const* policy,
                 char const* shape)
{
  if (e.ok[0])
    same(l + r, e, 0, policy, shape);
  if (e.ok[1])
    same(l - r, e, 1, policy, shape);
  if (e.ok[2])
    same(l * r, e, 2, policy, shape);
  if (e.ok[3])
    same(l / r, e, 3, policy, shape);
  if (e.ok[4])
    same(l % r, e, 4, policy, shape);
}

bool any(Expect const& e)
{
  return e.ok[0] || e.ok[1] || e.ok[2] || e.ok[3] || e.ok[4];
}

void tuple(i128 a, i128 b, i128 c, i128 d)
{
  if (b == 0 || d == 0) // undefined operands: C03
    return;
  Expect const e = expect(a, b, c, d);
  if (!any(e))
    return;
  begin("(a/b) op (c/d), with a,b,c,d =", a, b, c, d);
  ++states;
  pol::each_policy([&](auto t) {
    using Ops = typename decltype(t)::type;
    using F = ieme::fraction<Rep, Ops>;
    ++traces;
    F const x {Rep(a), Rep(b)}, y {Rep(c), Rep(d)};
    five(x, y, e, pol::name<Ops>(), "fraction-fraction");
    if (d == 1)
      five(x, Rep(c), e, pol::name<Ops>(), "fraction-scalar");
    if (b == 1)
      five(Rep(a), y, e, pol::name<Ops>(), "scalar-fraction");
    if (c == 0 && d == 1)
    { // the unary signs, once per fraction
      auto const p = +x;
      ++transitions;
      if (u128(p.num()) * u128(b) != u128(a) * u128(p.den()) || i128(p.den()) == 0)
        fail(std::string(pol::name<Ops>()) + ": unary + changed the value to "
             + pol::show(p));
      if (fits<Rep>(-a))
      {
        auto const m = -x;
        ++transitions;
        if (u128(m.num()) * u128(b) != -u128(a) * u128(m.den()) || i128(m.den()) == 0)
          fail(std::string(pol::name<Ops>()) + ": unary - gave "
               + pol::show(m));
      }
    }
    if (e.ok[0] && want_sample())
      sample(std::string(pol::name<Ops>()) + " " + pol::show(x) + " and "
             + pol::show(y) + ": sum " + pol::show(x + y));
  });
}

[[maybe_unused]] int const registered = [] {
  bool const big = thorough();
  dom::Bounds b {};
  b.box = PART == 0 ? (big ? 40 : 16) : PART == 2 ? (big ? 24 : 8) : (big ? 48 : 14);
  b.edge = big ? 1 : 0;
  b.wide = big ? 2 : 1;
  b.few = big ? 6 : 3;
  b.square = PART == 0 ? (big ? 700 : 120) : 0;
  b.lattice = true;
  dom::pairs<Rep>(b, tuple);
  return 0;
}();

} // namespace

MC_MAIN
