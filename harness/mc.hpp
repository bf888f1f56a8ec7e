// Exploration engine shared by all harnesses.
//
// A harness is a set of *units*. A unit is one deterministic, complete
// enumeration (or explicit-state search) over a stated finite space; the unit
// calls the real code on every element and compares each answer with the
// reference model. Units take no random choice: the same unit visits the same
// cases in the same order on every run, so "ordinal k of unit u" is a replay.
//
//   prog --list                    names of units, one per line
//   prog --unit NAME [--stop K]    explore a unit (only up to ordinal K)
#ifndef MC_HPP
#define MC_HPP

#include "num.hpp"

#include <algorithm>
#include <array>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <functional>
#include <string>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>
#include <vector>

namespace mc {

inline std::string str(i128 v)
{
  if (v == 0)
    return "0";
  bool neg = v < 0;
  u128 u = neg ? -(u128)v : (u128)v;
  std::string s;
  while (u)
  {
    s.insert(s.begin(), char('0' + int(u % 10)));
    u /= 10;
  }
  return neg ? "-" + s : s;
}

inline std::string json_escape(std::string const& in)
{
  std::string out;
  for (unsigned char c : in)
  {
    if (c == '"' || c == '\\')
    {
      out += '\\';
      out += char(c);
    }
    else if (c < 0x20 || c >= 0x7f)
    {
      char b[8];
      std::snprintf(b, sizeof b, "\\u%04x", c);
      out += b;
    }
    else
      out += char(c);
  }
  return out;
}

// The case being executed, kept in plain memory so that a signal handler can
// still say what it was.
struct Current {
  char const* what = "";
  char const* text = nullptr; // optional: a string operand
  std::size_t text_size = 0;
  int n = 0;
  i128 v[12] = {};
};

inline Current cur;
inline u64 ordinal = 0;      // cases begun so far in this unit
inline u64 stop_at = ~0ull;  // replay: the last ordinal to execute
inline u64 states = 0, transitions = 0, traces = 0;
inline std::string unit_name, out_path;
inline std::vector<std::string> samples;
inline std::vector<std::string> violations;
inline std::vector<std::pair<std::string, u64>> notes; // extra measured counts
inline u64 watchdog_last = ~0ull;
inline int watchdog_same = 0;
inline bool thorough()
{
  static bool const t = [] {
    char const* e = std::getenv("VERIF_TIER");
    return e && std::string(e) == "thorough";
  }();
  return t;
}

inline std::string describe()
{
  std::string s = cur.what;
  s += "(";
  if (cur.text)
    s += "\"" + std::string(cur.text, cur.text_size) + "\"" + (cur.n ? ", " : "");
  for (int i = 0; i < cur.n; ++i)
    s += (i ? "," : "") + str(cur.v[i]);
  return s + ")";
}

inline void note(std::string const& key, u64 add)
{
  for (auto& [k, v] : notes)
    if (k == key)
    {
      v += add;
      return;
    }
  notes.emplace_back(key, add);
}

[[noreturn]] inline void finish(int rc)
{
  std::string out = "{\"unit\":\"" + json_escape(unit_name) + "\"";
  out += ",\"cases\":" + std::to_string(ordinal);
  out += ",\"states\":" + std::to_string(states);
  out += ",\"transitions\":" + std::to_string(transitions);
  out += ",\"traces\":" + std::to_string(traces);
  out += ",\"samples\":[";
  for (std::size_t i = 0; i < samples.size(); ++i)
    out += (i ? ",\"" : "\"") + json_escape(samples[i]) + "\"";
  out += "],\"notes\":{";
  for (std::size_t i = 0; i < notes.size(); ++i)
    out += (i ? ",\"" : "\"") + json_escape(notes[i].first)
           + "\":" + std::to_string(notes[i].second);
  out += "},\"violations\":[";
  for (std::size_t i = 0; i < violations.size(); ++i)
    out += (i ? "," : "") + violations[i];
  out += "]}\n";
  int fd = out_path.empty() ? 1 : ::open(out_path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  std::size_t off = 0;
  while (off < out.size())
  {
    auto k = ::write(fd, out.data() + off, out.size() - off);
    if (k <= 0)
      break;
    off += std::size_t(k);
  }
  _exit(rc);
}

inline void record_violation(std::string const& what)
{
  violations.push_back("{\"ordinal\":" + std::to_string(ordinal)
                       + ",\"case\":\"" + json_escape(describe())
                       + "\",\"what\":\"" + json_escape(what) + "\"}");
}

[[noreturn]] inline void fail(std::string const& what)
{
  record_violation(what);
  finish(1);
}

inline void on_signal(int sig)
{
  char const* name = sig == SIGFPE    ? "SIGFPE (arithmetic trap)"
                     : sig == SIGSEGV ? "SIGSEGV"
                     : sig == SIGILL  ? "SIGILL"
                     : sig == SIGABRT ? "SIGABRT"
                     : sig == SIGBUS  ? "SIGBUS"
                                      : "signal";
  record_violation(std::string("the call did not return: ") + name);
  finish(1);
}

inline void on_tick(int)
{
  if (ordinal == watchdog_last)
  {
    if (++watchdog_same >= 15)
    {
      record_violation("the call does not return (15 s of CPU time)");
      finish(1);
    }
  }
  else
  {
    watchdog_last = ordinal;
    watchdog_same = 0;
  }
}

// Begin a case. The values are kept for the report only.
template <typename... Ts>
inline void begin(char const* what, Ts... vs)
{
  if (++ordinal > stop_at)
    finish(0);
  cur.what = what;
  cur.text = nullptr;
  cur.n = 0;
  ((cur.v[cur.n++] = static_cast<i128>(vs)), ...);
}

inline void begin_text(char const* what, char const* text, std::size_t size)
{
  if (++ordinal > stop_at)
    finish(0);
  cur.what = what;
  cur.text = text;
  cur.text_size = size;
  cur.n = 0;
}

inline void sample(std::string const& s)
{
  if (samples.size() < 3)
    samples.push_back(s);
}

inline bool want_sample()
{
  // a handful of spread-out cases of this run
  static u64 next = 1;
  if (samples.size() >= 3 || ordinal < next)
    return false;
  next = ordinal * 100 + 7;
  return true;
}

struct Unit {
  std::string name;
  std::function<void()> body;
};

inline std::vector<Unit>& units()
{
  static std::vector<Unit> u;
  return u;
}

inline int add(std::string name, std::function<void()> body)
{
  units().push_back({std::move(name), std::move(body)});
  return 0;
}

inline int main(int argc, char** argv)
{
  std::string unit;
  bool list = false;
  for (int i = 1; i < argc; ++i)
  {
    std::string a = argv[i];
    if (a == "--list")
      list = true;
    else if (a == "--unit" && i + 1 < argc)
      unit = argv[++i];
    else if (a == "--out" && i + 1 < argc)
      out_path = argv[++i];
    else if (a == "--stop" && i + 1 < argc)
      stop_at = std::strtoull(argv[++i], nullptr, 10);
  }
  if (list)
  {
    for (auto const& u : units())
      std::puts(u.name.c_str());
    return 0;
  }
  static char alt[1 << 16];
  stack_t ss {};
  ss.ss_sp = alt;
  ss.ss_size = sizeof alt;
  sigaltstack(&ss, nullptr);
  for (int s : {SIGFPE, SIGSEGV, SIGILL, SIGABRT, SIGBUS})
  {
    struct sigaction sa {};
    sa.sa_handler = on_signal;
    sa.sa_flags = SA_ONSTACK;
    sigaction(s, &sa, nullptr);
  }
  struct sigaction sa {};
  sa.sa_handler = on_tick;
  sa.sa_flags = SA_ONSTACK | SA_RESTART;
  sigaction(SIGPROF, &sa, nullptr);
  itimerval tv {{1, 0}, {1, 0}};
  setitimer(ITIMER_PROF, &tv, nullptr);
  for (auto const& u : units())
    if (u.name == unit)
    {
      unit_name = unit;
      u.body();
      finish(0);
    }
  std::fprintf(stderr, "no such unit: %s\n", unit.c_str());
  return 2;
}

} // namespace mc

#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b) MC_CAT2(a, b)
#define MC_MAIN                                                                \
  int main(int argc, char** argv)                                              \
  {                                                                            \
    return mc::main(argc, argv);                                               \
  }

#endif
