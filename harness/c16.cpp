// C16: floating_point_string_to_fraction accepts exactly the unsigned,
// unsuffixed C++ floating-point literals and gives their exact value.
// -DPART selects the representation.
#include "literal.hpp"
#include "policies.hpp"

using namespace mc;
using namespace ref;

#include "rep.hpp"
using namespace lit;

namespace {

template <typename Ops>
inline void one(char const* s, std::size_t n, Literal const& lit)
{
  ++traces;
  ++transitions;
  auto const r = ieme::floating_point_string_to_fraction<Rep, Ops>(std::string_view(s, n));
  static_assert(std::is_same_v<decltype(r), ieme::fraction<Rep, Ops> const>);
  auto bad = [&](std::string const& expected) {
    fail(std::string(pol::name<Ops>()) + " " + pol::rep_name<Rep>() + ": gave " + pol::show(r)
         + ", expected " + expected);
  };
  if (!lit.ok)
  {
    if (i128(r.den()) != 0)
      bad("an undefined fraction, for the string is not a literal");
    return;
  }
  Value const v = value<Rep>(lit);
  if (!v.known)
    return;
  if (i128(r.den()) == 0 || compare(r.num(), r.den(), v.n, v.d) != 0)
    bad(str(v.n) + "/" + str(v.d));
  if (want_sample())
    sample(std::string(s, n) + " -> " + pol::show(r));
}

char text[64];

void all_policies(char const* s, std::size_t n)
{
  begin_text("floating_point_string_to_fraction", s, n);
  ++states;
  Literal const lit = parse(s, n);
  pol::each_policy([&](auto t) { one<typename decltype(t)::type>(s, n, lit); });
}

void default_policy(char const* s, std::size_t n)
{
  begin_text("floating_point_string_to_fraction", s, n);
  ++states;
  one<ieme::ops::defaults>(s, n, parse(s, n));
}

// Every literal assembled from these pieces, and near-literals around them.
void structured(std::size_t slice)
{
  std::vector<std::string> const decimal {
    "", "0", "1", "9", "12", "00", "25", "1'0", "123", "007", "1'000", "4096", "65536", "2147483647",
    "999999999", "9223372036854775807", "18446744073709551615", "1'000'000'007", "000000000000000000000000001"};
  std::vector<std::string> const decimal_fraction {
    "", "0", "5", "25", "125", "00", "50", "0'5", "1'25", "001", "999", "0000001", "123456789",
    "000000000000000001", "1000000000", "100000000000000000"};
  std::vector<std::string> const hex {
    "", "0", "1", "A", "f", "1'F", "aB", "00", "7fffffff", "FFFFFFFF", "7FFFFFFFFFFFFFFF", "ffffffffffffffff",
    "e", "1e1", "dEaD", "0'0'1", "10000", "c0de"};
  std::vector<std::string> const hex_fraction {
    "", "0", "8", "4", "C", "fF", "0'8", "01", "e1", "8000", "000001", "00000000000001", "E'e"};
  std::vector<std::string> exponents {""};
  for (std::string sign : {"", "+", "-"})
    for (std::string e : {"0", "1", "2", "3", "00", "01", "002", "0'3", "1'0", "5", "8", "9", "10", "15", "17", "18",
                          "19", "20", "30", "31", "32", "40", "62", "63", "64", "0000000000000000002", "", "'1",
                          "1'", "1''0", "a", "1.", "--1"})
      exponents.push_back(sign + e);
  std::size_t k = 0;
  for (int base : {10, 16})
    for (auto const& w : base == 10 ? decimal : hex)
      for (auto const& f : base == 10 ? decimal_fraction : hex_fraction)
        if (k++ % 8 == slice)
          for (int point = 0; point < 2; ++point)
            if (point || f.empty())
              for (char e : {'e', 'E', 'p', 'P'})
                for (auto const& x : exponents)
                  for (std::string prefix : {"", "0x", "0X"})
                  {
                    if (prefix.empty() != (base == 10))
                      continue;
                    for (int with = 0; with < 2; ++with)
                    {
                      if (!with && (!x.empty() || e != 'e'))
                        continue;
                      std::string const s
                        = prefix + w + (point ? "." : "") + f + (with ? std::string(1, e) + x : "");
                      if (s.size() < sizeof text)
                      {
                        std::memcpy(text, s.data(), s.size());
                        all_policies(text, s.size());
                      }
                    }
                  }
}

// Every byte value in every place of some literals, inserted and substituted,
// and every prefix and suffix of them.
void mutations()
{
  for (std::string const& lit : std::vector<std::string> {"12.5", "1.5e2", "0x1.8p3", "1'0.2'5E-1", "0XaP+2", "5e1", ".5", "5."})
    for (std::size_t i = 0; i <= lit.size(); ++i)
    {
      auto run = [](std::string const& s) {
        std::memcpy(text, s.data(), s.size());
        all_policies(text, s.size());
      };
      run(lit.substr(0, i));
      run(lit.substr(i));
      for (int c = 0; c < 256; ++c)
      {
        run(lit.substr(0, i) + char(c) + lit.substr(i));
        if (i < lit.size())
          run(lit.substr(0, i) + char(c) + lit.substr(i + 1));
      }
    }
}

std::string const full = "019aFeEpPxX.'+-g";
std::string const core = "01ae.px'-";

[[maybe_unused]] int const registered = [] {
  bool const big = thorough();
  for (std::size_t s = 0; s < 8; ++s)
    add("structured/" + std::to_string(s), [=] { structured(s); });
  add("mutations", mutations);
  for (std::size_t f = 0; f < full.size(); ++f)
    add("strings/" + std::to_string(f), [=] {
      for (int n = 1; n <= (PART == 2 ? (big ? 7 : 6) : (big ? 6 : 5)); ++n)
        strings(full, n, f, text, default_policy);
      for (int n = 1; n <= (big ? 5 : 4); ++n)
        strings(full, n, f, text, all_policies);
    });
  for (std::size_t f = 0; f < core.size(); ++f)
    if (PART == 0 || big)
      add("core-strings/" + std::to_string(f), [=] {
        strings(core, big ? 9 : 7, f, text, default_policy);
      });
  return 0;
}();

} // namespace

MC_MAIN
