// The arithmetic policies under test and small helpers around the public API.
#ifndef POLICIES_HPP
#define POLICIES_HPP

#include "ref.hpp"

#include <ieme/ieme.hpp>

namespace pol {

namespace ops = ieme::ops;

using ri_norm = ops::reduced_input<ops::safe, ieme::reduce_mode::normalize_signs>;
using ro_ign = ops::reduced_output<ops::safe, ieme::reduce_mode::ignore_signs>;

template <typename T>
struct tag {
  using type = T;
};

template <typename Ops>
constexpr char const* name()
{
  if constexpr (std::is_same_v<Ops, ops::safe>)
    return "safe";
  else if constexpr (std::is_same_v<Ops, ops::safe_reduced_i>)
    return "safe_reduced_i";
  else if constexpr (std::is_same_v<Ops, ops::safe_reduced_o>)
    return "safe_reduced_o";
  else if constexpr (std::is_same_v<Ops, ops::safe_reduced_io>)
    return "safe_reduced_io";
  else if constexpr (std::is_same_v<Ops, ops::fast>)
    return "fast";
  else if constexpr (std::is_same_v<Ops, ops::fast_reduced_i>)
    return "fast_reduced_i";
  else if constexpr (std::is_same_v<Ops, ops::fast_reduced_o>)
    return "fast_reduced_o";
  else if constexpr (std::is_same_v<Ops, ops::fast_reduced_io>)
    return "fast_reduced_io";
  else if constexpr (std::is_same_v<Ops, ri_norm>)
    return "reduced_input<safe,normalize_signs>";
  else
    return "reduced_output<safe,ignore_signs>";
}

template <typename Ops>
constexpr bool is_fast = std::is_same_v<Ops, ops::fast>
                         || std::is_same_v<Ops, ops::fast_reduced_i>
                         || std::is_same_v<Ops, ops::fast_reduced_o>
                         || std::is_same_v<Ops, ops::fast_reduced_io>;

template <typename Ops>
constexpr bool reduces_input = std::is_same_v<Ops, ops::safe_reduced_i>
                               || std::is_same_v<Ops, ops::safe_reduced_io>
                               || std::is_same_v<Ops, ops::fast_reduced_i>
                               || std::is_same_v<Ops, ops::fast_reduced_io>
                               || std::is_same_v<Ops, ri_norm>;

// output reduced with signs normalised
template <typename Ops>
constexpr bool canonical_output = std::is_same_v<Ops, ops::safe_reduced_o>
                                  || std::is_same_v<Ops, ops::safe_reduced_io>
                                  || std::is_same_v<Ops, ops::fast_reduced_o>
                                  || std::is_same_v<Ops, ops::fast_reduced_io>;

template <typename F>
void each_policy(F&& f)
{
  f(tag<ops::safe_reduced_io> {});
  f(tag<ops::safe> {});
  f(tag<ops::safe_reduced_i> {});
  f(tag<ops::safe_reduced_o> {});
  f(tag<ops::fast> {});
  f(tag<ops::fast_reduced_i> {});
  f(tag<ops::fast_reduced_o> {});
  f(tag<ops::fast_reduced_io> {});
  f(tag<ri_norm> {});
  f(tag<ro_ign> {});
}

template <typename Rep>
constexpr char const* rep_name()
{
  if constexpr (std::is_same_v<Rep, int>)
    return "int";
  else if constexpr (std::is_same_v<Rep, unsigned>)
    return "unsigned";
  else if constexpr (std::is_same_v<Rep, long>)
    return "long";
  else if constexpr (std::is_same_v<Rep, unsigned long>)
    return "unsigned long";
  else if constexpr (std::is_same_v<Rep, long long>)
    return "long long";
  else
    return "unsigned long long";
}

template <typename F>
std::string show(F const& f)
{
  return mc::str((mc::i128)f.num()) + "/" + mc::str((mc::i128)f.den());
}

} // namespace pol

#endif
