// C25: policies never mix silently. Every ordered pair of ten policies, every
// operator, several pairs of representations and value categories: the compiler
// is asked whether the expression is well formed.
#include "policies.hpp"

using namespace mc;

namespace {

namespace ops = ieme::ops;

// one entry per operator: name, arithmetic/compound/comparison
#define OPERATORS(X)                                                           \
  X(plus, +, 0) X(minus, -, 0) X(times, *, 0) X(over, /, 0) X(rem, %, 0)       \
  X(plus_is, +=, 1) X(minus_is, -=, 1) X(times_is, *=, 1) X(over_is, /=, 1)    \
  X(rem_is, %=, 1) X(eq, ==, 2) X(ne, !=, 2) X(lt, <, 2) X(le, <=, 2)          \
  X(gt, >, 2) X(ge, >=, 2)

template <typename L, typename R>
using common = std::common_type_t<L, R>;

template <typename LR, typename RR, typename A, typename B>
void pair_of(char const* reps)
{
  using L = ieme::fraction<LR, A>;
  using R = ieme::fraction<RR, B>;
  constexpr bool same = std::is_same_v<A, B>;
  auto check = [&](bool accepted, char const* op, char const* form) {
    ++transitions;
    if (accepted != same)
      fail(std::string(pol::name<A>()) + " " + op + " " + pol::name<B>() + " on " + reps + " (" + form
           + ") is " + (accepted ? "accepted" : "rejected"));
  };
#define X(NAME, OP, KIND)                                                      \
  {                                                                            \
    begin("well-formedness of operator" #OP);                                  \
    ++states;                                                                  \
    ++traces;                                                                  \
    check(requires(L& l, R& r) { l OP r; }, #OP, "lvalues");                   \
    check(requires(L& l, R const& r) { l OP r; }, #OP, "const right");         \
    check(requires(L& l) { l OP R {}; }, #OP, "temporary right");              \
    if constexpr (KIND != 1)                                                   \
    {                                                                          \
      check(requires(L const& l, R const& r) { l OP r; }, #OP, "const");       \
      check(requires { L {} OP R {}; }, #OP, "temporaries");                   \
      check(requires { L {} OP R(1, 2); }, #OP, "constructed temporaries");    \
    }                                                                          \
    if constexpr (same)                                                        \
    {                                                                          \
      using T = decltype(std::declval<L&>() OP std::declval<R const&>());      \
      using Expected                                                           \
        = std::conditional_t<KIND == 0, ieme::fraction<common<LR, RR>, A>,     \
                             std::conditional_t<KIND == 1, L&, bool>>;         \
      ++transitions;                                                           \
      if (!std::is_same_v<T, Expected>)                                        \
        fail(std::string("operator" #OP " on ") + reps                         \
             + " has another type than documented");                           \
    }                                                                          \
    else if constexpr (KIND != 1)                                              \
    { /* converting explicitly makes the expression well formed */             \
      check(!(requires(L const& l, R const& r) { l OP ieme::fraction<RR, A>(r); }), #OP, \
            "explicitly converted right");                                     \
      check(!(requires(L const& l, R const& r) { ieme::fraction<LR, B>(l) OP r; }), #OP, \
            "explicitly converted left");                                      \
    }                                                                          \
  }
  OPERATORS(X)
#undef X
  // conversions
  auto conv = [&](bool got, bool want, char const* what) {
    begin("conversions");
    ++states;
    ++transitions;
    if (got != want)
      fail(std::string(pol::name<A>()) + " to " + pol::name<B>() + " on " + reps + ": " + what
           + (got ? " is accepted" : " is rejected"));
  };
  conv(std::is_convertible_v<L, R>, same, "implicit conversion");
  conv(std::is_convertible_v<L const&, R>, same, "implicit conversion of a const fraction");
  conv(std::is_convertible_v<L&, R const&>, same, "binding to a const reference");
  conv(std::is_constructible_v<R, L>, true, "explicit construction");
  conv(std::is_constructible_v<R, L const&>, true, "explicit construction from const");
  conv(requires(L const& l) { static_cast<R>(l); }, true, "static_cast");
  conv(requires(L const& l) { R(l); }, true, "functional cast");
  conv(requires(L const& l) { R {l}; }, true, "direct list initialisation");
  conv(std::is_assignable_v<R&, L>, same, "assignment");
  conv(std::is_assignable_v<R&, L const&>, same, "assignment from const");
  conv(requires(R (*f)(R), L const& l) { f(l); }, same, "argument passing");
  conv(requires(void (*f)(R), L const& l) { f({l}); }, same, "list-initialised argument");
  if constexpr (!same)
    conv(std::is_constructible_v<std::pair<R, int>, L, int>, true, "construction of a pair"); // explicit
  // into mixed numbers: implicitly for one's own policy only
  conv(std::is_convertible_v<L, ieme::mixed_number<RR, RR, B>>, same, "implicit conversion to a mixed number");
  conv(std::is_constructible_v<ieme::mixed_number<RR, RR, B>, L>, true, "explicit construction of a mixed number");
}

template <typename LR, typename RR>
void all(char const* reps)
{
  add(std::string("pairs of policies/") + reps, [=] {
    pol::each_policy([&](auto a) {
      pol::each_policy([&](auto b) {
        pair_of<LR, RR, typename decltype(a)::type, typename decltype(b)::type>(reps);
      });
    });
    // scalars, ratios and raw fractions carry no policy and convert to any
    pol::each_policy([&](auto a) {
      using A = typename decltype(a)::type;
      using L = ieme::fraction<LR, A>;
      begin("operands without a policy");
      ++states;
      transitions += 6;
      if (!std::is_convertible_v<LR, L> || !std::is_convertible_v<ieme::raw_fraction<LR>, L>
          || !std::is_convertible_v<std::ratio<1, 2>, L> || !(requires(L l, RR s) { l + s; s + l; l < s; l += s; })
          || !std::is_convertible_v<int, L> || !std::is_convertible_v<ieme::mixed_number<LR, LR, A>, L>)
        fail(std::string(pol::name<A>()) + ": an operand without a policy is rejected");
      sample(std::string(reps) + ": " + pol::name<A>() + " with ten policies, 16 operators");
    });
  });
}

[[maybe_unused]] int const registered = [] {
#if PART == 0
  all<int, int>("int, int");
#elif PART == 1
  all<int, long long>("int, long long");
#elif PART == 2
  all<unsigned, int>("unsigned, int");
#elif PART == 3
  all<long long, long long>("long long, long long");
#elif PART == 4
  all<unsigned long long, unsigned>("unsigned long long, unsigned");
#elif PART == 5
  all<long, int>("long, int");
#endif
  return 0;
}();

} // namespace

MC_MAIN
