// The finite spaces of operand tuples (a/b, c/d) that several properties share.
// Each is cut into slices, one unit per slice, for the eight cores.
#ifndef DOMAINS_HPP
#define DOMAINS_HPP

#include "ref.hpp"

namespace dom {

using namespace mc;
using namespace ref;

constexpr std::size_t slices = 12;

template <typename Tuple>
void four(std::vector<i128> const& as, std::vector<i128> const& bs,
          std::vector<i128> const& cs, std::vector<i128> const& ds,
          std::size_t slice, Tuple tuple)
{
  std::size_t k = 0;
  for (i128 b : bs)
    for (i128 d : ds)
      if (k++ % slices == slice)
        for (i128 a : as)
          for (i128 c : cs)
            tuple(a, b, c, d);
}

struct Bounds {
  int box;       // every fraction with parts up to this, against every other
  int edge;      // detail of the boundary-value pool used in all four places
  int wide;      // detail of the pool paired with the few small values
  int few;       // those small values
  int square;    // a large square of fractions against a handful (0: none)
  bool lattice;  // multiples of small fractions by common factors
};

// Tuples with a zero denominator are included: the callback decides.
template <typename Rep, typename Tuple>
void pairs(Bounds const b, Tuple tuple)
{
  for (std::size_t s = 0; s < slices; ++s)
  {
    auto const suffix = "/" + std::to_string(s);
    if (b.box)
      add("box" + suffix, [=] {
        auto const v = box<Rep>(b.box);
        four(v, v, v, v, s, tuple);
      });
    if (b.edge >= 0)
      add("edge" + suffix, [=] {
        auto const v = pool<Rep>(0);
        auto const w = pool<Rep>(b.edge);
        four(w, v, v, w, s, tuple);
      });
    if (b.wide >= 0)
      add("wide" + suffix, [=] {
        auto const w = pool<Rep>(b.wide);
        auto const few = box<Rep>(b.few);
        four(w, few, few, w, s, tuple);
        four(few, w, w, few, s, tuple);
        four(w, few, w, few, s, tuple);
        four(few, w, few, w, s, tuple);
        four(w, w, few, {1, 2}, s, tuple);
        four(few, {1, 2}, w, w, s, tuple);
      });
    if (b.lattice)
      add("lattice" + suffix, [=] {
        std::vector<i128> const parts {1, 2, 3, 4, 6, 5, 9};
        std::vector<i128> const factors
          = sizeof(Rep) == 4 ? std::vector<i128> {1, 2, 6, 12, 35, 128}
                             : std::vector<i128> {1, 6, 35, 1024};
        std::size_t k = 0;
        for (i128 g : factors)
          for (i128 h : factors)
            for (i128 p : parts)
              for (i128 d : parts)
              {
                if (k++ % slices != s)
                  continue;
                for (i128 a : parts)
                  for (i128 c : parts)
                    for (int m = 0; m < (std::is_signed_v<Rep> ? 16 : 1); ++m)
                      tuple((m & 1 ? -g : g) * a, (m & 2 ? -g : g) * p,
                            (m & 4 ? -h : h) * c, (m & 8 ? -h : h) * d);
              }
      });
    if (b.square)
      add("square" + suffix, [=] {
        std::vector<i128> const cs {1, 2, 3, 7, 12, 60};
        std::vector<i128> const ds {1, 2, 3, 5, 12, 64};
        bool const sign = std::is_signed_v<Rep>;
        std::size_t k = 0;
        for (i128 q = 1; q <= b.square; ++q)
          for (i128 p = 0; p <= b.square; ++p)
          {
            if (k++ % slices != s)
              continue;
            int m = 0;
            for (i128 c : cs)
              for (i128 d : ds)
              {
                ++m;
                i128 const c1 = sign && (m & 1) ? -c : c;
                i128 const d1 = sign && (m & 2) ? -d : d;
                tuple(p, q, c1, d1);
                tuple(c1, d1, p, q);
                if (sign)
                {
                  tuple(-p, q, c1, d1);
                  tuple(c1, d1, p, -q);
                }
              }
          }
      });
  }
}

// Single fractions: a full square, boundary values in both places, and every
// numerator (denominator) of a long run under a few denominators (numerators).
template <typename Rep, typename Fn>
void singles(int square, int detail, int run, Fn fn)
{
  for (std::size_t s = 0; s < slices; ++s)
  {
    auto const suffix = "/" + std::to_string(s);
    add("square" + suffix, [=] {
      auto const v = box<Rep>(square);
      for (std::size_t i = s; i < v.size(); i += slices)
        for (i128 a : v)
          fn(a, v[i]);
    });
    add("edge" + suffix, [=] {
      auto v = pool<Rep>(detail);
      if (std::is_signed_v<Rep>)
        v.push_back(lowest<Rep>());
      for (std::size_t i = s; i < v.size(); i += slices)
        for (i128 a : v)
          fn(a, v[i]);
    });
    if (run)
      add("run" + suffix, [=] {
        auto const few = pool<Rep>(0);
        for (i128 i = (i128)s; i <= run; i += slices)
          for (i128 x : few)
          {
            fn(i, x);
            fn(x, i);
            fn(hi<Rep>() - i, x);
            fn(x, hi<Rep>() - i);
            if (std::is_signed_v<Rep>)
            {
              fn(-i, x);
              fn(x, -i);
              fn(i - hi<Rep>(), x);
            }
          }
      });
  }
}

} // namespace dom

#endif
