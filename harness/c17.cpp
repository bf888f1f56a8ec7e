// C17: stream output and input. The stream buffer is the scheduler and the
// fault injector here: every chunking of a text, every place where it ends,
// fails or throws. -DPART selects the representation.
#include "domains.hpp"
#include "policies.hpp"

#include <sstream>
#include <stdexcept>

using namespace mc;
using namespace ref;

#include "rep.hpp"

namespace {

constexpr bool is_signed = std::is_signed_v<Rep>;

// Delivers a text in chunks: bit i of cuts set means that a chunk ends after
// character i. Throws on the attempt to deliver character `throw_at`.
class chunked_source : public std::streambuf {
public:
  chunked_source(std::string text, u64 cuts, std::size_t throw_at = ~std::size_t(0)) :
    text_ {std::move(text)}, cuts_ {cuts}, throw_at_ {throw_at}
  {
    setg(text_.data(), text_.data(), text_.data());
  }

  std::size_t delivered() const { return std::size_t(egptr() - text_.data()); }

  std::string rest() const { return text_.substr(std::size_t(gptr() - text_.data())); }

protected:
  int_type underflow() override
  {
    std::size_t i = std::size_t(egptr() - text_.data());
    if (i >= throw_at_)
      throw std::runtime_error("delivery failed");
    if (i >= text_.size())
      return traits_type::eof();
    std::size_t e = i + 1;
    while (e < text_.size() && e < throw_at_ && !((cuts_ >> (e - 1)) & 1))
      ++e;
    setg(text_.data(), text_.data() + i, text_.data() + e);
    return traits_type::to_int_type(*gptr());
  }

private:
  std::string text_;
  u64 cuts_;
  std::size_t throw_at_;
};

// Takes at most `room` characters, then reports failure (or throws).
class limited_sink : public std::streambuf {
public:
  limited_sink(std::size_t room, bool throws) : room_ {room}, throws_ {throws} {}
  std::string got;

protected:
  int_type overflow(int_type c) override
  {
    if (got.size() >= room_)
    {
      if (throws_)
        throw std::runtime_error("no room");
      return traits_type::eof();
    }
    got += char(c);
    return c;
  }

private:
  std::size_t room_;
  bool throws_;
};

std::string text_of(i128 n, i128 d) { return str(n) + "/" + str(d); }

template <typename T>
T made(i128 n, i128 d)
{
  return T {Rep(n), Rep(d)};
}

i128 num(ieme::raw_fraction<Rep> const& f) { return f.numerator; }
i128 den(ieme::raw_fraction<Rep> const& f) { return f.denominator; }
template <typename O>
i128 num(ieme::fraction<Rep, O> const& f) { return f.num(); }
template <typename O>
i128 den(ieme::fraction<Rep, O> const& f) { return f.den(); }

template <typename T>
std::string shown(T const& f) { return str(num(f)) + "/" + str(den(f)); }

template <typename F>
void each_type(F&& f)
{
  f(pol::tag<ieme::fraction<Rep>> {});
  f(pol::tag<ieme::fraction<Rep, ieme::ops::fast>> {});
  f(pol::tag<ieme::raw_fraction<Rep>> {});
}

// written, and read back, one fraction
void one(i128 n, i128 d)
{
  begin("stream output and input of n/d =", n, d);
  ++states;
  each_type([&](auto t) {
    using T = typename decltype(t)::type;
    ++traces;
    std::string const want = text_of(n, d);
    T const f = made<T>(n, d);
    std::ostringstream out;
    std::ostream& returned = out << f;
    ++transitions;
    if (out.str() != want || !out || &returned != &out)
      fail("wrote \"" + out.str() + "\" for " + want);
    std::istringstream in(want);
    T g = made<T>(5, 7);
    std::istream& from = in >> g;
    ++transitions;
    if (!in || &from != &in || num(g) != n || den(g) != d)
      fail("read " + shown(g) + " from \"" + want + "\"");
    if (in.rdbuf()->in_avail() > 0)
      fail("did not read all of \"" + want + "\"");
    // in other bases, when the digits do not depend on the width of the type
    if (n >= 0 && d >= 0)
      for (auto base : {std::ios::hex, std::ios::oct})
        for (bool sign : {false, true})
        {
          std::stringstream s;
          s.setf(base, std::ios::basefield);
          if (sign)
            s.setf(std::ios::showpos);
          s << f;
          T h = made<T>(5, 7);
          s >> h;
          ++transitions;
          if (!s || num(h) != n || den(h) != d)
            fail("another base: read " + shown(h) + " back from \"" + s.str() + "\" for " + want);
        }
    // padded with blanks to a field width (after a sign, integers themselves
    // cannot be read back)
    for (int width : {1, 3, 20, 65, 130, 300})
      for (auto adjust : {std::ios::left, std::ios::right, std::ios::internal})
      {
        if (adjust == std::ios::internal && n < 0)
          continue;
        std::stringstream s;
        s.setf(adjust, std::ios::adjustfield);
        s.width(width);
        s << f;
        s << ' ';
        s << made<T>(3, 4);
        T h = made<T>(5, 7), k = made<T>(5, 7);
        s >> h >> k;
        transitions += 2;
        if (!s || num(h) != n || den(h) != d || num(k) != 3 || den(k) != 4)
          fail("padded to width " + std::to_string(width) + ": read " + shown(h) + " and "
               + shown(k) + " back from \"" + s.str() + "\" for " + want + " and 3/4");
      }
    // digits grouped
    {
      struct grouped : std::numpunct<char> {
        char do_thousands_sep() const override { return ','; }
        std::string do_grouping() const override { return "\3"; }
      };
      static std::locale const locale(std::locale::classic(), new grouped);
      std::stringstream s;
      s.imbue(locale);
      s << f;
      T h = made<T>(5, 7);
      s >> h;
      ++transitions;
      if (!s || num(h) != n || den(h) != d)
        fail("digits grouped: read " + shown(h) + " back from \"" + s.str() + "\" for " + want);
    }
  });
  if (want_sample())
    sample("\"" + text_of(n, d) + "\" written and read back");
}

// What the leading fraction of a text is, by hand. Exact: `int / int` with
// nothing in between; malformed: it certainly cannot be read; open: the
// property says nothing (blanks or other characters around the slash).
struct Expected {
  enum { exact, malformed, open } kind;
  i128 n, d;
  std::size_t end;
};

bool blank(char c) { return c == ' ' || c == '\n' || c == '\t'; }

// an integer of Rep at s[i]; leaves i after it
bool integer(std::string const& s, std::size_t& i, i128& v)
{
  bool neg = false;
  if (i < s.size() && (s[i] == '-' || s[i] == '+'))
    neg = s[i++] == '-';
  if (i >= s.size() || s[i] < '0' || s[i] > '9')
    return false;
  v = 0;
  while (i < s.size() && s[i] >= '0' && s[i] <= '9')
    if (v = v * 10 + (s[i++] - '0'); v > ((i128)1 << 90))
      v = (i128)1 << 90;
  if (neg)
    v = -v;
  return v <= hi<Rep>() && v >= lowest<Rep>();
}

Expected expected(std::string const& s)
{
  Expected e {Expected::malformed, 0, 0, 0};
  std::size_t i = 0;
  while (i < s.size() && blank(s[i]))
    ++i;
  if (!integer(s, i, e.n))
    return e;
  auto const slash = s.find('/', i);
  if (slash == std::string::npos)
    return e;
  std::size_t j = slash + 1;
  bool open = slash != i;
  while (j < s.size() && blank(s[j]))
  {
    ++j;
    open = true;
  }
  if (!integer(s, j, e.d))
    return e;
  e.kind = open ? Expected::open : Expected::exact;
  e.end = j;
  return e;
}

// one text delivered in one way, read as a sequence of fractions
template <typename T>
void read(std::string const& text, u64 cuts)
{
  ++traces;
  chunked_source source(text, cuts);
  std::istream in(&source);
  std::string rest = text;
  for (int k = 0; k < 4; ++k)
  {
    Expected const e = expected(rest);
    T f = made<T>(5, 7);
    in >> f;
    ++transitions;
    if (e.kind == Expected::open)
      return;
    if (e.kind == Expected::malformed)
    {
      if (!in.fail())
        fail("read " + shown(f) + " from the malformed \"" + rest + "\" (delivery " + std::to_string(cuts) + ")");
      return;
    }
    if (in.fail() || num(f) != e.n || den(f) != e.d)
      fail("read " + shown(f) + (in.fail() ? " and failed" : "") + " from \"" + rest + "\" (delivery " + std::to_string(cuts) + ")");
    rest = rest.substr(e.end);
    std::string const left = in.eof() ? "" : source.rest();
    if (left != rest)
      fail("after reading " + shown(f) + " the stream is at \"" + left + "\" instead of \"" + rest + "\" (delivery " + std::to_string(cuts) + ")");
  }
}

void deliveries(std::string const& text)
{
  ++states;
  u64 const n = text.empty() ? 1 : 1ull << (text.size() - 1);
  for (u64 cuts = 0; cuts < n; ++cuts)
  {
    begin_text("every delivery of", text.data(), text.size());
    each_type([&](auto t) { read<typename decltype(t)::type>(text, cuts); });
  }
}

// the source throws on the attempt to deliver character k, for every k
template <typename T>
void thrown(std::string const& text)
{
  Expected const e = expected(text);
  if (e.kind != Expected::exact)
    return;
  u64 const ways = 1ull << (text.size() - 1);
  for (u64 cuts = 0; cuts < ways; cuts += text.size() > 8 ? 37 : 1)
    for (std::size_t k = 0; k <= e.end; ++k)
    {
      begin_text("a delivery that throws, of", text.data(), text.size());
      ++traces;
      ++transitions;
      chunked_source source(text, cuts, k);
      std::istream in(&source);
      T f = made<T>(5, 7);
      in >> f;
      if (!in.fail())
        fail("the buffer threw at character " + std::to_string(k) + " but the stream did not fail");
    }
}

// the sink fails or throws after k characters, for every k
template <typename T>
void sink(i128 n, i128 d)
{
  std::string const want = text_of(n, d);
  for (bool throws : {false, true})
    for (std::size_t k = 0; k <= want.size() + 1; ++k)
    {
      begin("a sink that takes k characters of n/d; k,n,d =", (i128)k, n, d);
      ++traces;
      ++transitions;
      limited_sink to(k, throws);
      std::ostream out(&to);
      out << made<T>(n, d);
      if (to.got != want.substr(0, k))
        fail("\"" + to.got + "\" arrived of \"" + want + "\"");
      if (out.fail() != (k < want.size()))
        fail("the stream does not tell whether all was written");
    }
}

// A stream told to throw reports by throwing what it otherwise reports by its
// state; the read value is the same.
template <typename T>
void throwing_read(std::string const& text, std::size_t throw_at)
{
  ++traces;
  ++transitions;
  chunked_source plain_source(text, ~0ull, throw_at), source(text, ~0ull, throw_at);
  std::istream plain(&plain_source), in(&source);
  T f = made<T>(5, 7), g = made<T>(5, 7);
  plain >> f;
  bool thrown = false;
  in.exceptions(std::ios::failbit | std::ios::badbit);
  try
  {
    in >> g;
  }
  catch (...)
  {
    thrown = true;
  }
  if (thrown != plain.fail())
    fail(std::string("a stream told to throw ") + (thrown ? "threw" : "did not throw") + " although the same read "
         + (thrown ? "succeeds" : "fails"));
  if (in.fail() != plain.fail())
    fail("a stream told to throw is in another state than one that is not");
  if (!thrown && (num(f) != num(g) || den(f) != den(g)))
    fail("a stream told to throw read " + shown(g) + " instead of " + shown(f));
}

template <typename T>
void throwing_write(i128 n, i128 d)
{
  std::string const want = text_of(n, d);
  for (bool throws : {false, true})
    for (std::size_t k = 0; k <= want.size() + 1; ++k)
    {
      begin("a sink that takes k characters of n/d, of a stream told to throw; k,n,d =", (i128)k, n, d);
      ++traces;
      ++transitions;
      limited_sink to(k, throws);
      std::ostream out(&to);
      out.exceptions(std::ios::failbit | std::ios::badbit);
      bool thrown = false;
      try
      {
        out << made<T>(n, d);
      }
      catch (...)
      {
        thrown = true;
      }
      if (thrown != (k < want.size()) || out.fail() != thrown)
        fail("a stream told to throw does not tell whether all was written");
    }
}

// every string over the alphabet of up to n characters
template <typename Fn>
void strings(std::string const& alphabet, std::size_t n, std::size_t slice, Fn fn)
{
  for (std::size_t length = 1; length <= n; ++length)
  {
    std::vector<std::size_t> idx(length, 0);
    std::string s(length, alphabet[0]);
    for (;;)
    {
      if (idx[length - 1] % 8 == slice)
        fn(s);
      std::size_t p = 0;
      while (p < length && ++idx[p] == alphabet.size())
      {
        idx[p] = 0;
        s[p] = alphabet[0];
        ++p;
      }
      if (p == length)
        break;
      s[p] = alphabet[idx[p]];
    }
  }
}

std::string const alphabet = is_signed ? "1 /0-x+\n" : "1 /0x2\n9";

[[maybe_unused]] int const registered = [] {
  bool const big = thorough();
  dom::singles<Rep>(big ? 400 : 60, big ? 2 : 1, big ? 5000 : 0, one);
  for (std::size_t s = 0; s < 8; ++s)
  {
    add("texts/" + std::to_string(s), [=] {
      strings(alphabet, big ? 7 : 6, s, [](std::string const& x) {
        begin_text("text", x.data(), x.size());
        ++states;
        each_type([&](auto t) {
          read<typename decltype(t)::type>(x, 0);
          read<typename decltype(t)::type>(x, ~0ull);
        });
      });
    });
    add("deliveries/" + std::to_string(s), [=] {
      strings(alphabet, big ? 5 : 4, s, deliveries);
    });
  }
  add("deliveries-long", [=] {
    std::vector<std::string> const texts {
      "1/2", "12/345", " 7/8 ", "1/2 3/4", "10/20\n30/40", "1/2\t 3/4 5/6", "0/0 1/1", "123456/78", "1/2x", "1/2/3",
      is_signed ? "-1/-2 3/-4" : "1/2 3/4 5", is_signed ? "-12/34 -5/6" : "12/34 5/6", is_signed ? "+1/+2" : "1/22",
      str(hi<Rep>()).substr(0, 12) + "/3", "3/", "3", "1/2 3/", "1/2 3"};
    for (auto const& t : texts)
    {
      deliveries(t);
      for (std::size_t i = 0; i < t.size(); ++i)
        deliveries(t.substr(0, i)); // ending anywhere
    }
  });
  add("limits", [=] {
    for (i128 v : {hi<Rep>(), hi<Rep>() + 1, lowest<Rep>(), hi<Rep>() * 10, lowest<Rep>() - 1})
      if (v >= 0 || is_signed)
        for (std::string const& t : {text_of(v, 2), text_of(2, v), text_of(v, v), text_of(1, v) + " 1/2"})
        {
          begin_text("text", t.data(), t.size());
          ++states;
          each_type([&](auto ty) {
            for (u64 cuts : {0ull, ~0ull, 0x5555555555ull, 0x1249249249ull})
              read<typename decltype(ty)::type>(t, cuts);
          });
        }
  });
  add("throwing", [=] {
    for (std::string const& t : std::vector<std::string> {"1/2", "12/34", "  1/2", "123/4567", "1/2 3/4", is_signed ? "-1/-2" : "9/9"})
      each_type([&](auto ty) { thrown<typename decltype(ty)::type>(t); });
  });
  for (std::size_t s = 0; s < 8; ++s)
    add("told-to-throw/" + std::to_string(s), [=] {
      strings(alphabet, big ? 6 : 5, s, [](std::string const& x) {
        begin_text("reading with exceptions on", x.data(), x.size());
        ++states;
        each_type([&](auto t) {
          using T = typename decltype(t)::type;
          throwing_read<T>(x, ~std::size_t(0));
          if (x.size() < 5)
            for (std::size_t k = 0; k <= x.size(); ++k)
              throwing_read<T>(x, k);
        });
      });
    });
  add("told-to-throw", [=] {
    for (i128 n : box<Rep>(6))
      for (i128 d : {(i128)1, (i128)0, (i128)10, hi<Rep>()})
        each_type([&](auto ty) { throwing_write<typename decltype(ty)::type>(n, d); });
  });
  add("sinks", [=] {
    for (i128 n : box<Rep>(12))
      for (i128 d : {(i128)1, (i128)0, (i128)10, hi<Rep>()})
        each_type([&](auto ty) { sink<typename decltype(ty)::type>(n, d); });
  });
  return 0;
}();

} // namespace

MC_MAIN
