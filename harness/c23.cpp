// C23: operations are pure and threads working on distinct fractions do not
// affect each other.
//
// Histories: every ordered pair (and triple) of operations, each from a fresh
// process, and one long walk through all of them in a single process; every
// result is compared with the operation's result on its own.
//
// Schedules: thread 1 runs A under single-stepping (the trap flag). At each of
// its instruction boundaries the process is forked; in the copy, thread 2 runs
// B from start to end on its own stack and thread-local storage, then thread 1
// finishes A. That is every schedule of A and B with one preemption, each from
// a fresh process. With two preemptions, B is stopped at each of its own
// instruction boundaries, A finishes and B resumes.
#include "policies.hpp"

#include <chrono>
#include <cstring>
#include <istream>
#include <linux/futex.h>
#include <ostream>
#include <pthread.h>
#include <sched.h>
#include <streambuf>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <ucontext.h>

using namespace mc;

namespace {

namespace ops = ieme::ops;

// ---------------------------------------------------------------- operations

struct Result {
  i128 v[8];
  int n;
};

inline void put(Result& r, bool v) { r.v[r.n++] = v; }
inline void put(Result& r, int v) { r.v[r.n++] = v; }
inline void put(Result& r, long long v) { r.v[r.n++] = v; }
inline void put(Result& r, long v) { r.v[r.n++] = v; }
inline void put(Result& r, std::size_t v) { r.v[r.n++] = (i128)v; }
inline void put(Result& r, double v)
{
  long long b;
  std::memcpy(&b, &v, sizeof b);
  r.v[r.n++] = b;
}
template <typename Rep>
void put(Result& r, ieme::raw_fraction<Rep> const& f)
{
  r.v[r.n++] = f.numerator;
  r.v[r.n++] = f.denominator;
}
template <typename Rep, typename Ops>
void put(Result& r, ieme::fraction<Rep, Ops> const& f)
{
  r.v[r.n++] = f.num();
  r.v[r.n++] = f.den();
}
template <typename W, typename F, typename Ops>
void put(Result& r, ieme::mixed_number<W, F, Ops> const& m)
{
  put(r, m.whole());
  put(r, m.fractional());
}

// Variants share components, so that state kept under too small a key collides.
constexpr int variants = 6;
struct In {
  int a, b, c, d, s;
  char const* text;
  double x;
};
volatile int in_a[variants] = {6, 6, 6, -6, 35, 6};
volatile int in_b[variants] = {4, 4, 8, 4, 4, 0};
volatile int in_c[variants] = {9, 9, 9, 15, 9, 9};
volatile int in_d[variants] = {10, -10, 10, 10, 14, 10};
volatile int in_s[variants] = {5, 3, 5, -5, 2, 7};
volatile double in_x[variants] = {0.75, 0.625, -0.75, 12.0, 3.5, 0.0};
char const* volatile in_text[variants] = {"12.5", "0x1.8p3", "1'0.25e-1", "12.5.", "12.75", "12.5e1"};
char const* volatile in_frac[variants] = {"6/4 ", "-6/4 ", "6/8 ", "35/4 ", "7", "6/4\n9/10"};

struct Text : std::streambuf {
  char b[64];
  std::size_t size() const { return std::size_t(pptr() - pbase()); }
  Text() { setp(b, b + sizeof b); }
  explicit Text(char const* s)
  {
    std::size_t const n = std::strlen(s);
    std::memcpy(b, s, n);
    setg(b, b, b + n);
  }
};

struct Op {
  char const* name;
  void (*run)(int variant, Result&);
  bool heavy; // thousands of instructions
};

template <typename F>
struct Operands {
  using Rep = typename F::rep_type;
  int v;
  F x, y;
  typename F::rep_type s;
  explicit Operands(int k) :
    v(k), x(Rep(in_a[k]), Rep(in_b[k])), y(Rep(in_c[k]), Rep(in_d[k])), s(Rep(in_s[k]))
  {
  }
  // const operands must come out as they went in
  void check(Result& r) const
  {
    put(r, x.num() == in_a[v] && x.den() == in_b[v] && y.num() == in_c[v] && y.den() == in_d[v] && s == in_s[v]);
  }
};

using D = ieme::fraction<int>;
using L = ieme::fraction<long long>;
using Fast = ieme::fraction<int, ops::fast>;
using Safe = ieme::fraction<int, ops::safe>;
using M = ieme::mixed_number<int>;

#define OP(NAME, F, EXPR)                                                      \
  Op {#NAME, [](int k, Result& r) {                                            \
        Operands<F> o(k);                                                      \
        auto const& x = o.x;                                                   \
        auto const& y = o.y;                                                   \
        auto const& s = o.s;                                                   \
        (void)x, (void)y, (void)s;                                             \
        put(r, EXPR);                                                          \
        o.check(r);                                                            \
      }, false}

template <typename F>
F compound(F x, F const& y)
{
  x += y;
  x *= y;
  x -= y;
  x /= y;
  return x;
}

template <typename F>
F self(F x)
{
  x += x;
  x *= x;
  return x;
}

struct Clock {
  using rep = int;
  using period = std::ratio<1>;
  using duration = std::chrono::duration<int>;
  using time_point = std::chrono::time_point<Clock>;
  static constexpr bool is_steady = true;
  static thread_local int ticks;
  static time_point now() noexcept { return time_point(duration(ticks)); }
};
thread_local int Clock::ticks = 0;

std::vector<Op> const& operations()
{
  using namespace ieme;
  using namespace ieme::literals;
  static std::vector<Op> const all {
    OP(plus, D, x + y), OP(minus, D, x - y), OP(times, D, x* y), OP(over, D, x / y), OP(rem, D, x % y),
    OP(plus fast, Fast, x + y), OP(rem fast, Fast, x % y), OP(minus safe, Safe, x - y), OP(times safe, Safe, x* y),
    OP(plus long long, L, x + y),
    OP(plus scalar, D, x + s), OP(scalar minus, D, s - x), OP(scalar over, D, s / x), OP(rem scalar, D, x % s),
    OP(negate, D, -x), OP(equal, D, x == y), OP(less, D, x < y), OP(less fast, Fast, x < y), OP(greater scalar, D, x > s),
    OP(less_equal safe, Safe, x <= y), OP(not_equal scalar, Safe, s != y),
    OP(mixed representations, D, x + L(y)), OP(compound, D, compound(x, y)), OP(self compound, D, self(y)),
    OP(is_reduced, D, is_reduced(x)), OP(is_integer, D, is_integer(y)), OP(is_unit_fraction, D, is_unit_fraction(x)),
    OP(is_proper, D, is_proper(x)), OP(is_negative, D, is_negative(y)), OP(is_positive, D, is_positive(y)),
    OP(reduce, D, reduce(x)), OP(reduce_ignore_signs, D, reduce_ignore_signs(y)), OP(normalize_signs, D, normalize_signs(y)),
    OP(reciprocal, D, reciprocal(y)), OP(abs, D, abs(x)),
    OP(trunc, D, trunc(y)), OP(ceil, D, ceil(y)), OP(floor, D, floor(y)), OP(round, D, round(y)),
    OP(to_whole, D, to_whole(y, round_mode(s & 3))),
    OP(redenominate, D, redenominate(y, s)), OP(floor_redenominate, D, floor_redenominate(y, s)),
    OP(pow, D, (pow<int>(s, s & 3))), OP(pow2, D, (pow2<int>(s))), OP(inverse pow, D, (pow<int>(s, -2))),
    OP(mixed number, D, M(y)), OP(mixed sum, D, M(s, y) + M(y)), OP(mixed negation, D, -M(s, y)),
    OP(mixed to fraction, D, M(s, y).as_fraction()), OP(mixed and fraction, D, M(s) + y),
    OP(to_fraction, L, to_fraction<long long>(double(in_x[o.v]))),
    OP(to_fraction float, D, to_fraction<int>(float(in_x[o.v]))),
    OP(to_double, D, to_double(y)),
    OP(parse, L, floating_point_string_to_fraction<long long>(in_text[o.v])),
    OP(denominator literal, D, s / operator""_fr((unsigned long long)(unsigned)(s + 9))),
    OP(hash, D, std::hash<D> {}(x)), OP(hash mixed, D, std::hash<M> {}(M(s, y))),
    OP(duration, D, (ieme::chrono::duration<int, std::milli>(x) + ieme::chrono::duration<int, std::ratio<1>>(s)).count()),
    OP(clock, D, (Clock::ticks = s, chrono::clock_wrapper<Clock>::now().time_since_epoch().count())),
    OP(limits, D, limits<D>::max() > x), OP(convert, D, static_cast<Fast>(L(y))),
    Op {"write", [](int k, Result& r) {
          Text t;
          std::ostream os(&t);
          Operands<D> const o(k);
          os << o.x << ' ' << o.y;
          put(r, t.size());
          for (std::size_t i = 0; i < t.size() && i < 4; ++i)
            put(r, int(t.b[i]));
        }, true},
    Op {"read", [](int k, Result& r) {
          Text t(in_frac[k]);
          std::istream is(&t);
          D x(1, 3);
          is >> x;
          put(r, bool(is));
          if (is)
            put(r, x);
        }, true},
  };
  return all;
}

// ------------------------------------------------------------------ plumbing

struct Shared {
  Result a, b, alone[128][variants];
  volatile int a_done, b_done, b_paused, b_go, blocked, bad_kind;
  u64 schedules, steps, blocked_schedules;
  long bad_i, bad_j, bad_st;
  Result bad_a, bad_b;
  volatile long steps_total;
};
Shared* sh;

void run(int op, int variant, Result& r)
{
  Result t {};
  operations()[op].run(variant, t);
  r = t;
}

bool same(Result const& l, Result const& r)
{
  if (l.n != r.n)
    return false;
  for (int i = 0; i < l.n; ++i)
    if (l.v[i] != r.v[i])
      return false;
  return true;
}

std::string show(Result const& r)
{
  std::string s = "(";
  for (int i = 0; i < r.n; ++i)
    s += (i ? "," : "") + str(r.v[i]);
  return s + ")";
}

void plain_signals()
{
  for (int s : {SIGFPE, SIGSEGV, SIGILL, SIGABRT, SIGBUS, SIGPROF, SIGTRAP})
    ::signal(s, SIG_DFL);
}

// Runs f in a copy of this process; false when it did not end well.
template <typename F>
bool in_fresh_process(F f)
{
  pid_t const p = ::fork();
  if (p < 0)
    fail("fork failed");
  if (p == 0)
  {
    plain_signals();
    ::prctl(PR_SET_PDEATHSIG, SIGKILL);
    ::alarm(300);
    f();
    _exit(0);
  }
  int st = 0;
  while (::waitpid(p, &st, 0) < 0)
    ;
  return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}

void setup()
{
  { // the standard streams' own one-time initialisation is not the subject; with
    // no second thread yet they would leave part of it for later
    pthread_t t;
    if (pthread_create(&t, nullptr, [](void*) -> void* { return nullptr; }, nullptr) == 0)
      pthread_join(t, nullptr);
  }
  {
    Text t, q("12 ");
    std::ostream os(&t);
    std::istream is(&q);
    int i = 0;
    os << 1 << '/' << 2ll;
    is >> i;
    is.ignore(1, '/');
  }
  sh = static_cast<Shared*>(
    ::mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  for (std::size_t i = 0; i < operations().size(); ++i)
    for (int k = 0; k < variants; ++k)
    {
      begin(operations()[i].name, k);
      if (!in_fresh_process([&] { run(int(i), k, sh->alone[i][k]); }))
        fail("the operation on its own does not return");
    }
}

// ------------------------------------------------------------------ histories

void compare(int op, int k, Result const& got, std::string const& after)
{
  ++transitions;
  if (!same(got, sh->alone[op][k]))
    fail(std::string(operations()[op].name) + " variant " + std::to_string(k) + " gave " + show(got) + " after "
         + after + ", but " + show(sh->alone[op][k]) + " on its own");
}

void pairs(std::size_t slice, std::size_t slices, int first_variants)
{
  setup();
  int const n = int(operations().size());
  std::size_t count = 0;
  for (int i = 0; i < n; ++i)
    for (int k = 0; k < first_variants; ++k)
      for (int j = 0; j < n; ++j)
        for (int m = 0; m < variants; ++m)
        {
          if (count++ % slices != slice)
            continue;
          if (i != j && k != 0 && m != 1 && !thorough())
            continue;
          begin("history of two operations (variants)", i, k, j, m);
          ++states;
          ++traces;
          if (!in_fresh_process([&] {
                run(i, k, sh->a);
                run(j, m, sh->b);
              }))
            fail(std::string(operations()[j].name) + " does not return after " + operations()[i].name);
          compare(i, k, sh->a, "nothing");
          compare(j, m, sh->b, std::string(operations()[i].name) + " variant " + std::to_string(k));
        }
  sample("every ordered pair of operations, from a fresh process");
}

// The same function three times, every choice of variants.
void triples(std::size_t slice, std::size_t slices)
{
  setup();
  int const n = int(operations().size());
  std::size_t count = 0;
  for (int i = 0; i < n; ++i)
    for (int k = 0; k < variants; ++k)
      for (int m = 0; m < variants; ++m)
      {
        if (count++ % slices != slice)
          continue;
        if (k == m)
          continue;
        for (int q = 0; q < variants; ++q)
        {
          if (q == m)
            continue;
          begin("history of three calls of one operation (variants)", i, k, m, q);
          ++states;
          ++traces;
          if (!in_fresh_process([&] {
                Result r;
                run(i, k, r);
                run(i, m, r);
                run(i, q, sh->a);
              }))
            fail(std::string(operations()[i].name) + " does not return");
          compare(i, q, sh->a, "two more calls of it");
        }
      }
  sample("every operation three times, over six operand variants");
}

// All ordered triples, one after the other, in one process.
void walk(std::size_t slice, std::size_t slices)
{
  setup();
  int const n = int(operations().size()) * variants;
  auto step = [&](int x, std::string const& after) {
    Result r;
    run(x / variants, x % variants, r);
    ++transitions;
    if (!same(r, sh->alone[x / variants][x % variants]))
      compare(x / variants, x % variants, r, after);
  };
  int const stride = thorough() ? 1 : 3;
  for (int x = int(slice); x < n; x += int(slices))
    for (int y = 0; y < n; ++y)
    {
      begin("walk through all triples of operations; x, y =", x, y);
      ++states;
      for (int z = (x + y) % stride; z < n; z += stride)
      {
        ++traces;
        step(x, "a long history");
        step(y, "a long history");
        step(z, "a long history");
      }
    }
}

// ------------------------------------------------------------------ schedules

long sys(long n, long a = 0, long b = 0, long c = 0, long d = 0)
{
  return ::syscall(n, a, b, c, d, 0, 0);
}

inline bool wait_for(volatile int& word, int ms)
{
  for (int i = 0; i < 200 && !word; ++i)
    __builtin_ia32_pause();
  timespec ts {ms / 1000, (ms % 1000) * 1000000L};
  while (!word)
    if (sys(SYS_futex, (long)&word, FUTEX_WAIT, 0, (long)&ts) < 0 && errno == ETIMEDOUT)
      return word != 0;
  return true;
}

inline void post(volatile int& word)
{
  word = 1;
  sys(SYS_futex, (long)&word, FUTEX_WAKE, 1);
}

char* thread2_stack;
std::size_t const stack_size = 1 << 18;
unsigned long thread2_tls;
volatile int never = 0;
thread_local int role = 1; // 2 on thread 2
volatile int pos_a, var_a, pos_b, var_b;
volatile bool copy_process;       // this is the forked copy, past its preemption
volatile long step_a, step_b, stop_b; // stop_b: where B is preempted (-1: nowhere)
volatile int blocked_in_a_row;
volatile bool give_up;

void* thread2_sleep(void*)
{
  role = 2;
  asm volatile("mov %%fs:0, %0" : "=r"(thread2_tls));
  post(sh->b_paused);
  for (;;) // until the process ends
    sys(SYS_futex, (long)&never, FUTEX_WAIT, 0, 0);
}

inline void trap_on()
{
  asm volatile("sub $128, %%rsp; pushf; orl $0x100, (%%rsp); popf; add $128, %%rsp" ::: "memory", "cc");
}

inline void trap_off()
{
  asm volatile("sub $128, %%rsp; pushf; andl $~0x100, (%%rsp); popf; add $128, %%rsp" ::: "memory", "cc");
}

// thread 2, on its own stack and thread-local storage
int thread2(void*)
{
  if (stop_b >= 0)
  {
    // it inherits the mask of the handler it was started from
    unsigned long const traps = 1ul << (SIGTRAP - 1);
    sys(SYS_rt_sigprocmask, SIG_UNBLOCK, (long)&traps, 0, sizeof traps);
    trap_on();
  }
  run(pos_b, var_b, sh->b);
  if (stop_b >= 0)
    trap_off();
  post(sh->b_done);
  if (!sh->b_paused)
    post(sh->b_paused);
  sys(SYS_exit, 0);
  return 0;
}

pid_t start_thread2()
{
  sh->b_done = 0;
  sh->b_paused = 0;
  sh->b_go = 0;
  return ::clone(thread2, thread2_stack + stack_size, CLONE_VM | CLONE_FS | CLONE_FILES | CLONE_SETTLS | SIGCHLD,
                 nullptr, nullptr, thread2_tls, nullptr);
}

volatile pid_t thread2_pid;

void judge(long i, long j)
{
  ++sh->schedules;
  bool const ok_a = same(sh->a, sh->alone[pos_a][var_a]);
  bool const ok_b = same(sh->b, sh->alone[pos_b][var_b]);
  if ((ok_a && ok_b) || sh->bad_kind)
    return;
  sh->bad_kind = ok_a ? 2 : 1;
  sh->bad_i = i;
  sh->bad_j = j;
  sh->bad_a = sh->a;
  sh->bad_b = sh->b;
}

// In the original: one copy per preemption point (and per point of B).
// Returns in the copy only, to let it finish A.
bool branch(ucontext_t* u, long j)
{
  sh->a_done = 0;
  sh->blocked = 0;
  stop_b = j;
  step_b = 0;
  pid_t const p = ::_Fork();
  if (p == 0)
  {
    copy_process = true;
    u->uc_mcontext.gregs[REG_EFL] &= ~0x100ll;
    thread2_pid = start_thread2();
    bool const arrived = j < 0 ? wait_for(sh->b_done, 100) : wait_for(sh->b_paused, 100);
    if (!arrived)
    {
      int st = 0;
      if (::waitpid(thread2_pid, &st, WNOHANG) == thread2_pid)
        _exit(WIFSIGNALED(st) ? 100 + WTERMSIG(st) : 99); // B crashed
      // B waits for something A holds: not a schedule of this kind
      ::kill(thread2_pid, SIGKILL);
      sh->blocked = 1;
      _exit(0);
    }
    if (j < 0)
    {
      int st;
      ::waitpid(thread2_pid, &st, 0);
    }
    return true; // finish A
  }
  int st = 0;
  while (::waitpid(p, &st, 0) < 0)
    ;
  if (sh->blocked)
  {
    ++sh->blocked_schedules;
    if (++blocked_in_a_row > 20)
      give_up = true;
    return false;
  }
  blocked_in_a_row = 0;
  if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0))
  {
    if (!sh->bad_kind)
    {
      sh->bad_kind = 3;
      sh->bad_st = st;
      sh->bad_i = step_a;
      sh->bad_j = j;
    }
    ++sh->schedules;
    return false;
  }
  judge(step_a, j);
  return false;
}

volatile long length_b; // instructions of B, for two preemptions (0: one only)

void on_trap(int, siginfo_t*, void* context)
{
  auto* const u = static_cast<ucontext_t*>(context);
  if (role == 2)
  {
    if (step_b++ == stop_b)
    {
      post(sh->b_paused);
      wait_for(sh->b_go, 100000);
      u->uc_mcontext.gregs[REG_EFL] &= ~0x100ll;
    }
    return;
  }
  if (copy_process)
    return;
  if (!give_up && !sh->bad_kind)
  {
    if (length_b == 0)
    {
      if (branch(u, -1))
        return;
    }
    else
      for (long j = 0; j < length_b; ++j)
        if (branch(u, j))
          return;
  }
  step_a = step_a + 1;
}

void install_trap()
{
  struct sigaction sa {};
  sa.sa_sigaction = on_trap;
  sa.sa_flags = SA_SIGINFO;
  sigaction(SIGTRAP, &sa, nullptr);
}

// The whole exploration of one pair, in a fresh process.
void explore_pair()
{
  install_trap();
  thread2_stack = static_cast<char*>(
    ::mmap(nullptr, stack_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
  sh->b_paused = 0;
  pthread_t t;
  if (pthread_create(&t, nullptr, thread2_sleep, nullptr) != 0)
    _exit(3);
  wait_for(sh->b_paused, 10000);
  step_a = 0;
  Result r {};
  int const i = pos_a, k = var_a;
  auto const& op = operations()[i];
  trap_on();
  op.run(k, r);
  trap_off();
  if (copy_process)
  {
    sh->a = r;
    if (stop_b >= 0)
    {
      post(sh->b_go);
      if (!wait_for(sh->b_done, 2000))
      {
        int st = 0;
        if (::waitpid(thread2_pid, &st, WNOHANG) == thread2_pid)
          _exit(WIFSIGNALED(st) ? 100 + WTERMSIG(st) : 99);
        ::kill(thread2_pid, SIGKILL);
        sh->blocked = 1;
      }
      int st;
      ::waitpid(thread2_pid, &st, 0);
    }
    _exit(0);
  }
  sh->steps = u64(step_a);
}

// how many instructions an operation takes, on its own
long length_of(int op, int k)
{
  sh->steps_total = 0;
  in_fresh_process([&] {
    struct sigaction sa {};
    sa.sa_handler = [](int) { sh->steps_total = sh->steps_total + 1; };
    sigaction(SIGTRAP, &sa, nullptr);
    Result r {};
    auto const& o = operations()[op];
    trap_on();
    o.run(k, r);
    trap_off();
  });
  return sh->steps_total;
}

void interleave(int i, int k, int j, int m, bool two)
{
  begin(two ? "schedules with two preemptions of operations (variants)"
            : "schedules with one preemption of operations (variants)",
        i, k, j, m);
  sh->bad_kind = 0;
  sh->schedules = sh->blocked_schedules = 0;
  length_b = two ? length_of(j, m) : 0;
  pos_a = i;
  var_a = k;
  pos_b = j;
  var_b = m;
  if (!in_fresh_process(explore_pair))
    fail(std::string("exploring ") + operations()[i].name + " with " + operations()[j].name
         + " did not come to an end");
  states += sh->schedules;
  transitions += 2 * sh->schedules;
  traces += sh->schedules;
  note("blocked schedules", sh->blocked_schedules);

  if (sh->bad_kind)
  {
    std::string const where = std::string(operations()[i].name) + " variant " + std::to_string(k)
                              + " preempted after " + std::to_string(sh->bad_i) + " instructions by "
                              + operations()[j].name + " variant " + std::to_string(m)
                              + (sh->bad_j >= 0 ? ", itself preempted after " + std::to_string(sh->bad_j) : "");
    if (sh->bad_kind == 3)
      fail(where + ": crashed (wait status " + std::to_string(sh->bad_st) + ")");
    fail(where + ": gave " + show(sh->bad_a) + " and " + show(sh->bad_b) + ", alone they give "
         + show(sh->alone[i][k]) + " and " + show(sh->alone[j][m]));
  }
  if (want_sample())
    sample(std::string(operations()[i].name) + " preempted at each of " + std::to_string(sh->steps)
           + " instructions by " + operations()[j].name);
}

void schedules(std::size_t slice, std::size_t slices)
{
  setup();
  // the trap flag must work here, or nothing was explored
  if (length_of(0, 0) < 5)
    fail("single-stepping does not work in this sandbox");
  int const n = int(operations().size());
  std::size_t count = 0;
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j)
    {
      if (count++ % slices != slice)
        continue;
#ifdef UNOPTIMISED
      // here statics are really stored to and read back at each step
      if (i != j && !thorough())
        continue;
#endif
      bool const heavy = operations()[i].heavy;
      if (heavy && !operations()[j].heavy && !thorough())
        continue;
      interleave(i, 0, j, 1, false);
      if (i != j || heavy)
        continue;
#ifdef UNOPTIMISED
      if (heavy && !thorough())
        continue;
      int const limit = thorough() ? variants : 2;
#else
      int const limit = thorough() ? variants : 3;
#endif
      for (int k = 0; k < variants; ++k)
        for (int m = 0; m < limit; ++m)
          if (k != 0 || m != 1)
            if (k == m || (k + m) % 2 || thorough())
              interleave(i, k, j, m, false);
      // two preemptions, for as long as the product of the lengths is moderate
      long const a = length_of(i, 2), b = length_of(i, 1);
      if (a * b <= (thorough() ? 90000 : 25000))
        interleave(i, 2, i, 1, true);
      else
        note("pairs too long for two preemptions", 1);
    }
}

[[maybe_unused]] int const registered = [] {
  std::size_t const cut = 31; // prime to the number of operations plus one
  for (std::size_t s = 0; s < cut; ++s)
    add("schedules/" + std::to_string(s), [=] { schedules(s, cut); });
#ifndef UNOPTIMISED
  for (std::size_t s = 0; s < 8; ++s)
  {
    add("pairs/" + std::to_string(s), [=] { pairs(s, 8, thorough() ? variants : 2); });
    add("triples/" + std::to_string(s), [=] { triples(s, 8); });
    add("walk/" + std::to_string(s), [=] { walk(s, 8); });
  }
#endif
  return 0;
}();

} // namespace

MC_MAIN
