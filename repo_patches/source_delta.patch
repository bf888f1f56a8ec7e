From 8e79e3a483b419d3157466c6211602d73722a4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:17 +0000
Subject: [PATCH 01/22] fix: safe comparisons against scalars ignored a
 negative denominator and overflowed when scaling

---
 include/ieme/ops.hpp | 77 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 60 insertions(+), 17 deletions(-)

diff --git a/include/ieme/ops.hpp b/include/ieme/ops.hpp
index 6feaece..efb62da 100644
--- a/include/ieme/ops.hpp
+++ b/include/ieme/ops.hpp
@@ -155,6 +155,14 @@ public:
   template <typename Rep>
   static constexpr bool greater_equal(Rep const& left,
                                       raw_fraction<Rep> const& right) noexcept;
+
+private:
+  // Three-way comparison of two defined fractions: negative, zero, or positive
+  // as left is less than, equal to, or greater than right. Nothing is scaled, so
+  // nothing can overflow.
+  template <typename Rep>
+  static constexpr int compare(raw_fraction<Rep> left,
+                               raw_fraction<Rep> right) noexcept;
 };
 
 
@@ -675,17 +683,14 @@ constexpr bool safe::equal_to(raw_fraction<Rep> const& left,
   if (is_undefined(left) || is_undefined(right))
     return false;
 
-  auto const lcm = std::lcm(left.denominator, right.denominator);
-
-  return lcm / left.denominator * left.numerator
-         == lcm / right.denominator * right.numerator;
+  return compare(left, right) == 0;
 }
 
 template <typename Rep>
 constexpr bool safe::equal_to(raw_fraction<Rep> const& left,
                               Rep const& right) noexcept
 {
-  return left.numerator == right * left.denominator && is_defined(left);
+  return equal_to(left, raw_fraction<Rep>(right, _1<Rep>));
 }
 
 template <typename Rep>
@@ -723,24 +728,21 @@ constexpr bool safe::less(raw_fraction<Rep> const& left,
   if (is_undefined(left) || is_undefined(right))
     return false;
 
-  auto const lcm = std::lcm(left.denominator, right.denominator);
-
-  return lcm / left.denominator * left.numerator
-         < lcm / right.denominator * right.numerator;
+  return compare(left, right) < 0;
 }
 
 template <typename Rep>
 constexpr bool safe::less(raw_fraction<Rep> const& left,
                           Rep const& right) noexcept
 {
-  return left.numerator < right * left.denominator && is_defined(left);
+  return less(left, raw_fraction<Rep>(right, _1<Rep>));
 }
 
 template <typename Rep>
 constexpr bool safe::less(Rep const& left,
                           raw_fraction<Rep> const& right) noexcept
 {
-  return left * right.denominator < right.numerator && is_defined(right);
+  return less(raw_fraction<Rep>(left, _1<Rep>), right);
 }
 
 template <typename Rep>
@@ -750,24 +752,21 @@ constexpr bool safe::less_equal(raw_fraction<Rep> const& left,
   if (is_undefined(left) || is_undefined(right))
     return false;
 
-  auto const lcm = std::lcm(left.denominator, right.denominator);
-
-  return lcm / left.denominator * left.numerator
-         <= lcm / right.denominator * right.numerator;
+  return compare(left, right) <= 0;
 }
 
 template <typename Rep>
 constexpr bool safe::less_equal(raw_fraction<Rep> const& left,
                                 Rep const& right) noexcept
 {
-  return left.numerator <= right * left.denominator && is_defined(left);
+  return less_equal(left, raw_fraction<Rep>(right, _1<Rep>));
 }
 
 template <typename Rep>
 constexpr bool safe::less_equal(Rep const& left,
                                 raw_fraction<Rep> const& right) noexcept
 {
-  return left * right.denominator <= right.numerator && is_defined(right);
+  return less_equal(raw_fraction<Rep>(left, _1<Rep>), right);
 }
 
 template <typename Rep>
@@ -812,6 +811,50 @@ constexpr bool safe::greater_equal(Rep const& left,
   return less_equal(right, left);
 }
 
+template <typename Rep>
+constexpr int safe::compare(raw_fraction<Rep> left,
+                            raw_fraction<Rep> right) noexcept
+{
+  left = normalize_signs(left);
+  right = normalize_signs(right);
+
+  // Compare the whole parts; if they're equal, compare the reciprocals of the
+  // remaining proper fractions, which have the opposite order.
+  for (auto order = 1;; order = -order)
+  {
+    auto left_whole = left.numerator / left.denominator;
+    auto right_whole = right.numerator / right.denominator;
+    auto left_remainder = left.numerator % left.denominator;
+    auto right_remainder = right.numerator % right.denominator;
+
+    if (left_remainder < _0<Rep>)
+    {
+      left_whole -= _1<Rep>;
+      left_remainder += left.denominator;
+    }
+
+    if (right_remainder < _0<Rep>)
+    {
+      right_whole -= _1<Rep>;
+      right_remainder += right.denominator;
+    }
+
+    if (left_whole != right_whole)
+      return (left_whole < right_whole) ? -order : order;
+
+    if (left_remainder == _0<Rep> || right_remainder == _0<Rep>)
+    {
+      if (left_remainder == right_remainder)
+        return 0;
+
+      return (left_remainder == _0<Rep>) ? -order : order;
+    }
+
+    left = {left.denominator, left_remainder};
+    right = {right.denominator, right_remainder};
+  }
+}
+
 
 template <typename Rep>
 constexpr raw_fraction<Rep>
-- 
2.43.0


From d5703627ac82fc07190bc4db9153352bfc89a820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:30 +0000
Subject: [PATCH 02/22] fix: fast comparisons reversed their answer for
 denominators of opposite signs

---
 include/ieme/ops.hpp | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/include/ieme/ops.hpp b/include/ieme/ops.hpp
index efb62da..2caf19e 100644
--- a/include/ieme/ops.hpp
+++ b/include/ieme/ops.hpp
@@ -1027,7 +1027,15 @@ template <typename Rep>
 constexpr bool fast::less(raw_fraction<Rep> const& left,
                           raw_fraction<Rep> const& right) noexcept
 {
-  return left.numerator * right.denominator < right.numerator * left.denominator
+  auto const scaled_left = left.numerator * right.denominator;
+  auto const scaled_right = right.numerator * left.denominator;
+
+  // Scaling by denominators of opposite signs reverses the order
+  auto const is_reversed
+    = (left.denominator < _0<Rep>) != (right.denominator < _0<Rep>);
+
+  return (is_reversed ? scaled_right < scaled_left
+                      : scaled_left < scaled_right)
          && is_defined(left) && is_defined(right);
 }
 
@@ -1035,22 +1043,29 @@ template <typename Rep>
 constexpr bool fast::less(raw_fraction<Rep> const& left,
                           Rep const& right) noexcept
 {
-  return left.numerator < right * left.denominator && is_defined(left);
+  return less(left, raw_fraction<Rep>(right, _1<Rep>));
 }
 
 template <typename Rep>
 constexpr bool fast::less(Rep const& left,
                           raw_fraction<Rep> const& right) noexcept
 {
-  return left * right.denominator < right.numerator && is_defined(right);
+  return less(raw_fraction<Rep>(left, _1<Rep>), right);
 }
 
 template <typename Rep>
 constexpr bool fast::less_equal(raw_fraction<Rep> const& left,
                                 raw_fraction<Rep> const& right) noexcept
 {
-  return left.numerator * right.denominator
-           <= right.numerator * left.denominator
+  auto const scaled_left = left.numerator * right.denominator;
+  auto const scaled_right = right.numerator * left.denominator;
+
+  // Scaling by denominators of opposite signs reverses the order
+  auto const is_reversed
+    = (left.denominator < _0<Rep>) != (right.denominator < _0<Rep>);
+
+  return (is_reversed ? scaled_right <= scaled_left
+                      : scaled_left <= scaled_right)
          && is_defined(left) && is_defined(right);
 }
 
@@ -1058,14 +1073,14 @@ template <typename Rep>
 constexpr bool fast::less_equal(raw_fraction<Rep> const& left,
                                 Rep const& right) noexcept
 {
-  return left.numerator <= right * left.denominator && is_defined(left);
+  return less_equal(left, raw_fraction<Rep>(right, _1<Rep>));
 }
 
 template <typename Rep>
 constexpr bool fast::less_equal(Rep const& left,
                                 raw_fraction<Rep> const& right) noexcept
 {
-  return left * right.denominator <= right.numerator && is_defined(right);
+  return less_equal(raw_fraction<Rep>(left, _1<Rep>), right);
 }
 
 template <typename Rep>
-- 
2.43.0


From 2ef2ba9d04a225e9ad663473f9fc0a58dcedb50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:41 +0000
Subject: [PATCH 03/22] fix: arithmetic on undefined fractions and remainders
 by zero trapped or gave a defined result

---
 include/ieme/ops.hpp | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/include/ieme/ops.hpp b/include/ieme/ops.hpp
index 2caf19e..dc0adc2 100644
--- a/include/ieme/ops.hpp
+++ b/include/ieme/ops.hpp
@@ -558,6 +558,9 @@ template <typename Rep>
 constexpr raw_fraction<Rep> safe::plus(raw_fraction<Rep> const& left,
                                        raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(left) || is_undefined(right))
+    return {_0<Rep>, _0<Rep>};
+
   auto const lcm = std::lcm(left.denominator, right.denominator);
 
   return {lcm / left.denominator * left.numerator
@@ -583,6 +586,9 @@ template <typename Rep>
 constexpr raw_fraction<Rep> safe::minus(raw_fraction<Rep> const& left,
                                         raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(left) || is_undefined(right))
+    return {_0<Rep>, _0<Rep>};
+
   auto const lcm = std::lcm(left.denominator, right.denominator);
 
   return {lcm / left.denominator * left.numerator
@@ -632,6 +638,9 @@ constexpr raw_fraction<Rep>
 safe::divides(raw_fraction<Rep> const& left,
               raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(right))
+    return {_0<Rep>, _0<Rep>};
+
   return {left.numerator * right.denominator,
           left.denominator * right.numerator};
 }
@@ -647,6 +656,9 @@ template <typename Rep>
 constexpr raw_fraction<Rep>
 safe::divides(Rep const& left, raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(right))
+    return {_0<Rep>, _0<Rep>};
+
   return {left * right.denominator, right.numerator};
 }
 
@@ -655,6 +667,9 @@ constexpr raw_fraction<Rep>
 safe::modulus(raw_fraction<Rep> const& left,
               raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(left) || is_undefined(right) || is_zero(right))
+    return {_0<Rep>, _0<Rep>};
+
   auto const lcm = std::lcm(left.denominator, right.denominator);
 
   return {(lcm / left.denominator * left.numerator)
@@ -666,6 +681,9 @@ template <typename Rep>
 constexpr raw_fraction<Rep> safe::modulus(raw_fraction<Rep> const& left,
                                           Rep const& right) noexcept
 {
+  if (is_undefined(left) || right == _0<Rep>)
+    return {_0<Rep>, _0<Rep>};
+
   return {left.numerator % (left.denominator * right), left.denominator};
 }
 
@@ -673,6 +691,9 @@ template <typename Rep>
 constexpr raw_fraction<Rep>
 safe::modulus(Rep const& left, raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(right) || is_zero(right))
+    return {_0<Rep>, _0<Rep>};
+
   return {(right.denominator * left) % right.numerator, right.denominator};
 }
 
@@ -937,6 +958,9 @@ constexpr raw_fraction<Rep>
 fast::divides(raw_fraction<Rep> const& left,
               raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(right))
+    return {_0<Rep>, _0<Rep>};
+
   return {left.numerator * right.denominator,
           left.denominator * right.numerator};
 }
@@ -952,6 +976,9 @@ template <typename Rep>
 constexpr raw_fraction<Rep>
 fast::divides(Rep const& left, raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(right))
+    return {_0<Rep>, _0<Rep>};
+
   return {left * right.denominator, right.numerator};
 }
 
@@ -960,6 +987,9 @@ constexpr raw_fraction<Rep>
 fast::modulus(raw_fraction<Rep> const& left,
               raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(left) || is_undefined(right) || is_zero(right))
+    return {_0<Rep>, _0<Rep>};
+
   return {(left.numerator * right.denominator)
             % (right.numerator * left.denominator),
           left.denominator * right.denominator};
@@ -969,6 +999,9 @@ template <typename Rep>
 constexpr raw_fraction<Rep> fast::modulus(raw_fraction<Rep> const& left,
                                           Rep const& right) noexcept
 {
+  if (is_undefined(left) || right == _0<Rep>)
+    return {_0<Rep>, _0<Rep>};
+
   return {left.numerator % (right * left.denominator), left.denominator};
 }
 
@@ -976,6 +1009,9 @@ template <typename Rep>
 constexpr raw_fraction<Rep>
 fast::modulus(Rep const& left, raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(right) || is_zero(right))
+    return {_0<Rep>, _0<Rep>};
+
   return {(left * right.denominator) % right.numerator, right.denominator};
 }
 
-- 
2.43.0


From 021cfd400c453577e9c84b37d0fb71d30aa7ec96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:21 +0000
Subject: [PATCH 04/22] fix: making a mixed number from an undefined fraction
 trapped

---
 include/ieme/mixed_number.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/ieme/mixed_number.hpp b/include/ieme/mixed_number.hpp
index 9562c6e..837f771 100644
--- a/include/ieme/mixed_number.hpp
+++ b/include/ieme/mixed_number.hpp
@@ -106,7 +106,7 @@ template <typename WRep, typename FRep, typename Ops>
 template <typename OtherFRep>
 constexpr mixed_number<WRep, FRep, Ops>::mixed_number(
   fraction<OtherFRep, ops_type> const& value) noexcept :
-  whole_ {whole_type(trunc(value))},
+  whole_ {is_defined(value) ? whole_type(trunc(value)) : _0<whole_type>},
   fractional_ {fractional_type(value - static_cast<OtherFRep>(whole_))}
 {
 }
@@ -152,6 +152,9 @@ constexpr auto mixed_number<WRep, FRep, Ops>::fractional() const noexcept
 template <typename WRep, typename FRep, typename Ops>
 constexpr void mixed_number<WRep, FRep, Ops>::fix() noexcept
 {
+  if (is_undefined(fractional_))
+    return;
+
   if (is_improper(fractional_))
   {
     auto const truncated_fractional = trunc(fractional_);
-- 
2.43.0


From 509689276c6561f5fb06fd9b2ebea6370c58ae03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:21 +0000
Subject: [PATCH 05/22] fix: is_reduced accepted positive numerators over
 negative denominators

---
 include/ieme/raw_fraction_queries.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/ieme/raw_fraction_queries.hpp b/include/ieme/raw_fraction_queries.hpp
index 4e84b7e..65dab3a 100644
--- a/include/ieme/raw_fraction_queries.hpp
+++ b/include/ieme/raw_fraction_queries.hpp
@@ -132,8 +132,7 @@ constexpr bool is_reduced_ignore_signs(raw_fraction<Rep> const& value) noexcept
 template <typename Rep>
 constexpr bool is_reduced(raw_fraction<Rep> const& value) noexcept
 {
-  auto const signs_are_normalized
-    = value.numerator > _0<Rep> || value.denominator > _0<Rep>;
+  auto const signs_are_normalized = value.denominator > _0<Rep>;
 
   return signs_are_normalized && is_reduced_ignore_signs(value);
 }
-- 
2.43.0


From 027b415979cd5a134391742c33163fb940721b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:11 +0000
Subject: [PATCH 06/22] fix: queries about fractions with the lowest
 representable value trapped or answered wrongly

---
 include/ieme/math_utilities.hpp       | 14 ++++++++++++++
 include/ieme/raw_fraction_queries.hpp | 16 ++++++++++------
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/include/ieme/math_utilities.hpp b/include/ieme/math_utilities.hpp
index 4d97345..d959f8b 100644
--- a/include/ieme/math_utilities.hpp
+++ b/include/ieme/math_utilities.hpp
@@ -13,6 +13,9 @@ namespace math_utilities {
 template <typename Int>
 constexpr Int abs(Int value) noexcept;
 
+template <typename Int>
+constexpr std::make_unsigned_t<Int> magnitude(Int value) noexcept;
+
 template <typename Int>
 constexpr Int pow2(Int exponent) noexcept;
 
@@ -29,6 +32,17 @@ constexpr Int abs(Int const value) noexcept
   return (value >= _0<Int>) ? value : -value;
 }
 
+// Unlike abs, this is also right for the lowest value of a signed type
+template <typename Int>
+constexpr std::make_unsigned_t<Int> magnitude(Int const value) noexcept
+{
+  using unsigned_type = std::make_unsigned_t<Int>;
+
+  return (value >= _0<Int>)
+           ? static_cast<unsigned_type>(value)
+           : _0<unsigned_type> - static_cast<unsigned_type>(value);
+}
+
 template <typename Int>
 constexpr Int pow2(Int const exponent) noexcept
 {
diff --git a/include/ieme/raw_fraction_queries.hpp b/include/ieme/raw_fraction_queries.hpp
index 65dab3a..cd0851e 100644
--- a/include/ieme/raw_fraction_queries.hpp
+++ b/include/ieme/raw_fraction_queries.hpp
@@ -111,15 +111,19 @@ constexpr bool is_negative(raw_fraction<Rep> const& value) noexcept
 template <typename Rep>
 constexpr bool is_integer(raw_fraction<Rep> const& value) noexcept
 {
-  return is_defined(value) && value.numerator % value.denominator == _0<Rep>;
+  using math_utilities::magnitude;
+
+  return is_defined(value)
+         && magnitude(value.numerator) % magnitude(value.denominator) == 0U;
 }
 
 template <typename Rep>
 constexpr bool is_unit_fraction(raw_fraction<Rep> const& value) noexcept
 {
-  return is_defined(value)
-         && value.numerator
-              != _0<Rep> && value.denominator % value.numerator == _0<Rep>;
+  using math_utilities::magnitude;
+
+  return is_defined(value) && value.numerator != _0<Rep>
+         && magnitude(value.denominator) % magnitude(value.numerator) == 0U;
 }
 
 template <typename Rep>
@@ -140,8 +144,8 @@ constexpr bool is_reduced(raw_fraction<Rep> const& value) noexcept
 template <typename Rep>
 constexpr bool is_proper(raw_fraction<Rep> const& value) noexcept
 {
-  return math_utilities::abs(value.numerator)
-         < math_utilities::abs(value.denominator);
+  return math_utilities::magnitude(value.numerator)
+         < math_utilities::magnitude(value.denominator);
 }
 
 template <typename Rep>
-- 
2.43.0


From cc545f560a5c1f9a8312643164193c5ca98da9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:42 +0000
Subject: [PATCH 07/22] fix: ceil and floor were off by one for values between
 -1 and 0

---
 include/ieme/fraction_math.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/ieme/fraction_math.hpp b/include/ieme/fraction_math.hpp
index 0e58a5d..0b790d3 100644
--- a/include/ieme/fraction_math.hpp
+++ b/include/ieme/fraction_math.hpp
@@ -162,8 +162,8 @@ constexpr Rep ceil(fraction<Rep, Ops> const& value) noexcept
 {
   auto const truncated = trunc(value);
 
-  return (is_integer(value) || truncated < _0<Rep>) ? truncated
-                                                    : truncated + _1<Rep>;
+  return (is_integer(value) || is_negative(value)) ? truncated
+                                                   : truncated + _1<Rep>;
 }
 
 template <typename Rep, typename Ops>
@@ -171,8 +171,8 @@ constexpr Rep floor(fraction<Rep, Ops> const& value) noexcept
 {
   auto const truncated = trunc(value);
 
-  return (is_integer(value) || truncated >= _0<Rep>) ? truncated
-                                                     : truncated - _1<Rep>;
+  return (is_integer(value) || is_positive(value)) ? truncated
+                                                   : truncated - _1<Rep>;
 }
 
 template <typename Rep, typename Ops>
-- 
2.43.0


From 89c7f0cbe9201e3266f1c375a518503802b48d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:16 +0000
Subject: [PATCH 08/22] fix: round overflowed for large numerators or
 denominators

---
 include/ieme/fraction_math.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/ieme/fraction_math.hpp b/include/ieme/fraction_math.hpp
index 0b790d3..bd54893 100644
--- a/include/ieme/fraction_math.hpp
+++ b/include/ieme/fraction_math.hpp
@@ -180,7 +180,16 @@ constexpr Rep round(fraction<Rep, Ops> const& value) noexcept
 {
   auto const floored = floor(value);
 
-  return (value - floored < fraction<Rep, Ops>(_1<Rep>, _2<Rep>))
+  auto const& denominator = value.denominator();
+  auto remainder = value.numerator() % denominator;
+
+  // What's left after flooring has the sign of the denominator
+  if (!is_integer(value) && is_negative(value))
+    remainder += denominator;
+
+  auto const rest = denominator - remainder;
+
+  return ((denominator > _0<Rep>) ? remainder < rest : remainder > rest)
            ? floored
            : floored + _1<Rep>;
 }
-- 
2.43.0


From b2abdf8a6a8b9fb1630f5562da9efca689d21b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:37 +0000
Subject: [PATCH 09/22] fix: to_fraction was wrong for zero, infinities and
 many representable values and did not compile for doubles and small
 representations

---
 include/ieme/floating_point.hpp | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/include/ieme/floating_point.hpp b/include/ieme/floating_point.hpp
index d481bc3..e6894df 100644
--- a/include/ieme/floating_point.hpp
+++ b/include/ieme/floating_point.hpp
@@ -184,29 +184,32 @@ fraction<Rep, Ops> floating_point_to_fraction(Float const value) noexcept
       extract_bit_field(offsets.mantissa_bits, num_mantissa_bits));
   }();
 
-  if (auto const is_NaN = exponent_part == make_repeating_1s(NumExponentBits)
-                          && mantissa_part != _0<UintRep>;
-      is_NaN)
+  if (auto const is_NaN_or_infinity
+      = exponent_part == make_repeating_1s(NumExponentBits);
+      is_NaN_or_infinity)
     return limits<fraction<Rep, Ops>>::undefined();
 
+  if (auto const is_zero
+      = exponent_part == _0<UintRep> && mantissa_part == _0<UintRep>;
+      is_zero)
+    return fraction<Rep, Ops>(_0<Rep>);
+
   auto const sign = (sign_part == _0<UintRep>) ? _1<Rep> : -_1<Rep>;
 
   static constexpr auto exponent_bias
     = math_utilities::pow2(number<NumExponentBits, int> - 1) - 1;
 
-  auto const exponent = static_cast<int>(exponent_part) - exponent_bias;
-
-  static constexpr auto mantissa_fraction_denominator
-    = math_utilities::pow2(number<NumMantissaBits, Rep>);
-
-  auto const mantissa_fraction_numerator = static_cast<Rep>(mantissa_part);
-
-  auto const mantissa_fraction = fraction<Rep, Ops>(
-    mantissa_fraction_numerator, mantissa_fraction_denominator);
+  // The value is sign * significand * 2^exponent. Dropping the trailing zeros
+  // of the significand puts that in lowest terms, so that nothing overflows if
+  // the value is representable.
+  auto significand = mantissa_part | (_1<UintRep> << NumMantissaBits);
+  auto exponent
+    = static_cast<int>(exponent_part) - exponent_bias - NumMantissaBits;
 
-  auto const mantissa = _1<Rep> + mantissa_fraction;
+  for (; significand % _2<UintRep> == _0<UintRep>; significand /= _2<UintRep>)
+    ++exponent;
 
-  return sign * mantissa * pow2<Rep, Ops>(exponent);
+  return sign * static_cast<Rep>(significand) * pow2<Rep, Ops>(exponent);
 }
 
 template <typename Float, typename Rep, typename Ops>
-- 
2.43.0


From 6aac1c3b657d6066d2d21e8c7b738aa2879f423e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:00 +0000
Subject: [PATCH 10/22] fix: floating_point.hpp used memcpy without including
 cstring

---
 include/ieme/floating_point.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/ieme/floating_point.hpp b/include/ieme/floating_point.hpp
index e6894df..abe42e5 100644
--- a/include/ieme/floating_point.hpp
+++ b/include/ieme/floating_point.hpp
@@ -9,6 +9,7 @@
 
 #include <bit>
 #include <cstdint>
+#include <cstring>
 #include <limits>
 #include <string>
 #include <string_view>
-- 
2.43.0


From 9c9fcae069a6e318532a7ff44a49e5de12c2af2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:46 +0000
Subject: [PATCH 11/22] fix: equal fractions had different hashes

---
 include/ieme/hash.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/ieme/hash.hpp b/include/ieme/hash.hpp
index b033e8b..15bb752 100644
--- a/include/ieme/hash.hpp
+++ b/include/ieme/hash.hpp
@@ -4,6 +4,7 @@
 #include <ieme/fraction.hpp>
 #include <ieme/mixed_number.hpp>
 #include <ieme/raw_fraction.hpp>
+#include <ieme/raw_fraction_math.hpp>
 
 #include <functional>
 
@@ -67,7 +68,8 @@ std::size_t hash(raw_fraction<Rep> const& value) noexcept
 template <typename Rep, typename Ops>
 std::size_t hash(fraction<Rep, Ops> const& value) noexcept
 {
-  return hash(value.raw());
+  // Fractions that are equal must have equal hashes
+  return hash(reduce(value.raw()));
 }
 
 template <typename WRep, typename FRep, typename Ops>
-- 
2.43.0


From fb466b887c9b329229b6ce6b1fb721e767d39f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:41 +0000
Subject: [PATCH 12/22] fix: floating-point literals without a radix point were
 rejected

---
 include/ieme/parse_utilities.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/ieme/parse_utilities.hpp b/include/ieme/parse_utilities.hpp
index 1ae63f8..1543d59 100644
--- a/include/ieme/parse_utilities.hpp
+++ b/include/ieme/parse_utilities.hpp
@@ -64,7 +64,15 @@ scan_floating_point_string(std::string_view const string) noexcept
 
   auto const radix_separator_pos = remaining_string.find('.');
 
-  results.whole = remaining_string.substr(0, radix_separator_pos);
+  auto const no_radix_separator = radix_separator_pos == std::string_view::npos;
+
+  // Without a radix separator the whole part ends at the exponent separator
+  auto const whole_end_pos
+    = no_radix_separator
+        ? remaining_string.find_first_of((results.base == 10) ? "eE" : "pP")
+        : radix_separator_pos;
+
+  results.whole = remaining_string.substr(0, whole_end_pos);
 
   auto const no_whole = results.whole.empty();
 
@@ -79,9 +87,9 @@ scan_floating_point_string(std::string_view const string) noexcept
     return std::nullopt;
   }
 
-  auto const no_radix_separator = radix_separator_pos == std::string_view::npos;
-
-  if (!no_radix_separator)
+  if (no_radix_separator)
+    remaining_string.remove_prefix(results.whole.size());
+  else
     remaining_string.remove_prefix(radix_separator_pos + 1);
 
   auto const exponent_separator_pos = [&]() {
-- 
2.43.0


From b3b0ccf84263ba8009d202760075ce2e2a1c398c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:05 +0000
Subject: [PATCH 13/22] fix: parsing as many digits as the representation holds
 overflowed

---
 include/ieme/parse_utilities.hpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/include/ieme/parse_utilities.hpp b/include/ieme/parse_utilities.hpp
index 1543d59..ff8dadf 100644
--- a/include/ieme/parse_utilities.hpp
+++ b/include/ieme/parse_utilities.hpp
@@ -193,25 +193,24 @@ constexpr Int digit_sequence_to_int(std::string_view const sequence,
                                     Int const base) noexcept
 {
   auto result = _0<Int>;
-  auto base_power = _1<Int>;
 
-  for (auto it = sequence.rbegin(); it != sequence.rend(); ++it)
+  for (auto const c : sequence)
   {
-    if (*it == '\'')
+    if (c == '\'')
       continue;
 
     auto const digit_as_int = [&]() {
-      if (*it >= 'A' && *it <= 'F')
-        return static_cast<Int>(*it - 'A' + 10);
+      if (c >= 'A' && c <= 'F')
+        return static_cast<Int>(c - 'A' + 10);
 
-      if (*it >= 'a' && *it <= 'f')
-        return static_cast<Int>(*it - 'a' + 10);
+      if (c >= 'a' && c <= 'f')
+        return static_cast<Int>(c - 'a' + 10);
 
-      return static_cast<Int>(*it - '0');
+      return static_cast<Int>(c - '0');
     }();
 
-    result += digit_as_int * base_power;
-    base_power *= base;
+    // Powers of the base could overflow even if the result is representable
+    result = result * base + digit_as_int;
   }
 
   return result;
-- 
2.43.0


From c7d92cbf2540314b30b60f29d252f35555a48be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:29 +0000
Subject: [PATCH 14/22] fix: reduction and is_reduced had undefined behaviour
 for the lowest value

---
 include/ieme/raw_fraction_math.hpp    | 7 ++++++-
 include/ieme/raw_fraction_queries.hpp | 5 ++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/ieme/raw_fraction_math.hpp b/include/ieme/raw_fraction_math.hpp
index 4c6fd85..06ea438 100644
--- a/include/ieme/raw_fraction_math.hpp
+++ b/include/ieme/raw_fraction_math.hpp
@@ -1,6 +1,7 @@
 #ifndef IEME_RAW_FRACTION_MATH_HPP
 #define IEME_RAW_FRACTION_MATH_HPP
 
+#include <ieme/math_utilities.hpp>
 #include <ieme/numbers.hpp>
 #include <ieme/raw_fraction.hpp>
 #include <ieme/reduce_mode.hpp>
@@ -79,7 +80,11 @@ reduce_ignore_signs(raw_fraction<Rep> const& value) noexcept
   if (is_undefined(value))
     return {_0<Rep>, _0<Rep>};
 
-  auto const gcd = std::gcd(value.numerator, value.denominator);
+  using math_utilities::magnitude;
+
+  // std::gcd is undefined for the lowest value of a signed type
+  auto const gcd = static_cast<Rep>(
+    std::gcd(magnitude(value.numerator), magnitude(value.denominator)));
 
   return {value.numerator / gcd, value.denominator / gcd};
 }
diff --git a/include/ieme/raw_fraction_queries.hpp b/include/ieme/raw_fraction_queries.hpp
index cd0851e..05bedb4 100644
--- a/include/ieme/raw_fraction_queries.hpp
+++ b/include/ieme/raw_fraction_queries.hpp
@@ -129,8 +129,11 @@ constexpr bool is_unit_fraction(raw_fraction<Rep> const& value) noexcept
 template <typename Rep>
 constexpr bool is_reduced_ignore_signs(raw_fraction<Rep> const& value) noexcept
 {
+  using math_utilities::magnitude;
+
   return is_defined(value)
-         && std::gcd(value.numerator, value.denominator) == _1<Rep>;
+         && std::gcd(magnitude(value.numerator), magnitude(value.denominator))
+              == 1U;
 }
 
 template <typename Rep>
-- 
2.43.0


From ed2418005c423fc702b18d789f71dab4a8cc58b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:34 +0000
Subject: [PATCH 15/22] fix: reading or writing a fraction terminated the
 program when the stream throws

---
 include/ieme/fraction.hpp     | 12 ++++++------
 include/ieme/raw_fraction.hpp |  8 ++++----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/ieme/fraction.hpp b/include/ieme/fraction.hpp
index 33b1062..abc0cad 100644
--- a/include/ieme/fraction.hpp
+++ b/include/ieme/fraction.hpp
@@ -18,11 +18,11 @@ class fraction;
 
 template <typename Rep, typename Ops>
 std::ostream& operator<<(std::ostream& stream,
-                         fraction<Rep, Ops> const& value) noexcept;
+                         fraction<Rep, Ops> const& value);
 
 template <typename Rep, typename Ops>
 std::istream& operator>>(std::istream& stream,
-                         fraction<Rep, Ops>& value) noexcept;
+                         fraction<Rep, Ops>& value);
 
 
 template <typename Rep, typename Ops = ops::defaults>
@@ -68,10 +68,10 @@ private:
   raw_fraction_type raw_ = {_0<rep_type>, _1<rep_type>};
 
   friend std::ostream& operator<< <>(std::ostream& stream,
-                                     fraction<Rep, Ops> const& value) noexcept;
+                                     fraction<Rep, Ops> const& value);
 
   friend std::istream& operator>><>(std::istream& stream,
-                                    fraction<Rep, Ops>& value) noexcept;
+                                    fraction<Rep, Ops>& value);
 };
 
 template <typename Rep, typename Ops>
@@ -498,14 +498,14 @@ operator>=(fraction<LeftRep, LeftOps> const& left,
 
 template <typename Rep, typename Ops>
 std::ostream& operator<<(std::ostream& stream,
-                         fraction<Rep, Ops> const& value) noexcept
+                         fraction<Rep, Ops> const& value)
 {
   return stream << value.raw_;
 }
 
 template <typename Rep, typename Ops>
 std::istream& operator>>(std::istream& stream,
-                         fraction<Rep, Ops>& value) noexcept
+                         fraction<Rep, Ops>& value)
 {
   return stream >> value.raw_;
 }
diff --git a/include/ieme/raw_fraction.hpp b/include/ieme/raw_fraction.hpp
index 86f96c1..e12cddd 100644
--- a/include/ieme/raw_fraction.hpp
+++ b/include/ieme/raw_fraction.hpp
@@ -27,11 +27,11 @@ struct raw_fraction {
 
 template <typename Rep>
 std::ostream& operator<<(std::ostream& stream,
-                         raw_fraction<Rep> const& value) noexcept;
+                         raw_fraction<Rep> const& value);
 
 template <typename Rep>
 std::istream& operator>>(std::istream& stream,
-                         raw_fraction<Rep>& value) noexcept;
+                         raw_fraction<Rep>& value);
 
 
 // =============================================================================
@@ -56,14 +56,14 @@ constexpr raw_fraction<Rep>::raw_fraction(
 
 template <typename Rep>
 std::ostream& operator<<(std::ostream& stream,
-                         raw_fraction<Rep> const& value) noexcept
+                         raw_fraction<Rep> const& value)
 {
   return stream << value.numerator << '/' << value.denominator;
 }
 
 template <typename Rep>
 std::istream& operator>>(std::istream& stream,
-                         raw_fraction<Rep>& value) noexcept
+                         raw_fraction<Rep>& value)
 {
   stream >> value.numerator;
   stream.ignore(std::numeric_limits<std::streamsize>::max(), '/');
-- 
2.43.0


From 14a66afceb32f2094cb977aaf23b6b2b9f743afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:41 +0000
Subject: [PATCH 16/22] fix: parse_utilities.hpp did not compile on its own
 (numbers.hpp was not included)

---
 include/ieme/parse_utilities.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/ieme/parse_utilities.hpp b/include/ieme/parse_utilities.hpp
index ff8dadf..03876c7 100644
--- a/include/ieme/parse_utilities.hpp
+++ b/include/ieme/parse_utilities.hpp
@@ -1,6 +1,8 @@
 #ifndef IEME_PARSE_UTILITIES_HPP
 #define IEME_PARSE_UTILITIES_HPP
 
+#include <ieme/numbers.hpp>
+
 #include <optional>
 #include <string_view>
 #include <utility>
-- 
2.43.0


From 25648307c316ffa604c0b2ffb748286e043f07cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:36 +0000
Subject: [PATCH 17/22] fix: reducing raw fractions did not compile with
 raw_fraction_math.hpp alone (raw_fraction_queries.hpp was not included)

---
 include/ieme/raw_fraction_math.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/ieme/raw_fraction_math.hpp b/include/ieme/raw_fraction_math.hpp
index 06ea438..93c50d3 100644
--- a/include/ieme/raw_fraction_math.hpp
+++ b/include/ieme/raw_fraction_math.hpp
@@ -4,6 +4,7 @@
 #include <ieme/math_utilities.hpp>
 #include <ieme/numbers.hpp>
 #include <ieme/raw_fraction.hpp>
+#include <ieme/raw_fraction_queries.hpp>
 #include <ieme/reduce_mode.hpp>
 
 #include <numeric>
-- 
2.43.0


From 938078472dd6892a74843a8ef0f7c3ce26ac65d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:41 +0000
Subject: [PATCH 18/22] fix: limits and numeric_limits of mixed numbers could
 not be instantiated

---
 include/ieme/limits.hpp | 71 +++++++++++++++++++++--------------------
 1 file changed, 36 insertions(+), 35 deletions(-)

diff --git a/include/ieme/limits.hpp b/include/ieme/limits.hpp
index 4e0389a..d421fb5 100644
--- a/include/ieme/limits.hpp
+++ b/include/ieme/limits.hpp
@@ -30,13 +30,13 @@ public:
 };
 
 template <typename Rep, typename Ops>
-class limits<mixed_number<Rep, Ops>> {
+class limits<mixed_number<Rep, Rep, Ops>> {
 
 public:
   using rep_type = Rep;
   using ops_type = Ops;
-  using mixed_number_type = mixed_number<Rep, Ops>;
-  using fraction_type = typename mixed_number_type::fraction_type;
+  using mixed_number_type = mixed_number<Rep, Rep, Ops>;
+  using fraction_type = typename mixed_number_type::fractional_type;
 
   static constexpr mixed_number_type min() noexcept;
   static constexpr mixed_number_type max() noexcept;
@@ -94,11 +94,11 @@ public:
 };
 
 template <typename Rep, typename Ops>
-class numeric_limits<ieme::mixed_number<Rep, Ops>> {
+class numeric_limits<ieme::mixed_number<Rep, Rep, Ops>> {
 
 public:
-  using mixed_number_type = ieme::mixed_number<Rep, Ops>;
-  using fraction_type = typename mixed_number_type::fraction_type;
+  using mixed_number_type = ieme::mixed_number<Rep, Rep, Ops>;
+  using fraction_type = typename mixed_number_type::fractional_type;
   using fraction_limits_type = numeric_limits<fraction_type>;
 
   static constexpr bool is_specialized = fraction_limits_type::is_specialized;
@@ -106,8 +106,9 @@ public:
   static constexpr bool is_integer = fraction_limits_type::is_integer;
   static constexpr bool is_exact = fraction_limits_type::is_exact;
   static constexpr bool has_infinity = fraction_limits_type::has_infinity;
-  static constexpr bool has_quiet_ = fraction_limits_type::has_quiet_;
-  static constexpr bool has_signaling_ = fraction_limits_type::has_signaling_;
+  static constexpr bool has_quiet_NaN = fraction_limits_type::has_quiet_NaN;
+  static constexpr bool has_signaling_NaN
+    = fraction_limits_type::has_signaling_NaN;
   static constexpr float_denorm_style has_denorm
     = fraction_limits_type::has_denorm;
   static constexpr bool has_denorm_loss = fraction_limits_type::has_denorm_loss;
@@ -173,28 +174,28 @@ constexpr auto limits<fraction<Rep, Ops>>::undefined() noexcept -> fraction_type
 }
 
 template <typename Rep, typename Ops>
-constexpr auto limits<mixed_number<Rep, Ops>>::max() noexcept
+constexpr auto limits<mixed_number<Rep, Rep, Ops>>::max() noexcept
   -> mixed_number_type
 {
   return limits<fraction_type>::max();
 }
 
 template <typename Rep, typename Ops>
-constexpr auto limits<mixed_number<Rep, Ops>>::min() noexcept
+constexpr auto limits<mixed_number<Rep, Rep, Ops>>::min() noexcept
   -> mixed_number_type
 {
   return limits<fraction_type>::min();
 }
 
 template <typename Rep, typename Ops>
-constexpr auto limits<mixed_number<Rep, Ops>>::smallest() noexcept
+constexpr auto limits<mixed_number<Rep, Rep, Ops>>::smallest() noexcept
   -> mixed_number_type
 {
   return limits<fraction_type>::smallest();
 }
 
 template <typename Rep, typename Ops>
-constexpr auto limits<mixed_number<Rep, Ops>>::undefined() noexcept
+constexpr auto limits<mixed_number<Rep, Rep, Ops>>::undefined() noexcept
   -> mixed_number_type
 {
   return limits<fraction_type>::undefined();
@@ -271,64 +272,64 @@ numeric_limits<ieme::fraction<Rep, Ops>>::denorm_min() noexcept
 }
 
 template <typename Rep, typename Ops>
-constexpr ieme::mixed_number<Rep, Ops>
-numeric_limits<ieme::mixed_number<Rep, Ops>>::min() noexcept
+constexpr ieme::mixed_number<Rep, Rep, Ops>
+numeric_limits<ieme::mixed_number<Rep, Rep, Ops>>::min() noexcept
 {
-  return ieme::limits<ieme::mixed_number<Rep, Ops>>::min();
+  return ieme::limits<ieme::mixed_number<Rep, Rep, Ops>>::min();
 }
 
 template <typename Rep, typename Ops>
-constexpr ieme::mixed_number<Rep, Ops>
-numeric_limits<ieme::mixed_number<Rep, Ops>>::lowest() noexcept
+constexpr ieme::mixed_number<Rep, Rep, Ops>
+numeric_limits<ieme::mixed_number<Rep, Rep, Ops>>::lowest() noexcept
 {
-  return ieme::limits<ieme::mixed_number<Rep, Ops>>::min();
+  return ieme::limits<ieme::mixed_number<Rep, Rep, Ops>>::min();
 }
 
 template <typename Rep, typename Ops>
-constexpr ieme::mixed_number<Rep, Ops>
-numeric_limits<ieme::mixed_number<Rep, Ops>>::max() noexcept
+constexpr ieme::mixed_number<Rep, Rep, Ops>
+numeric_limits<ieme::mixed_number<Rep, Rep, Ops>>::max() noexcept
 {
-  return ieme::limits<ieme::mixed_number<Rep, Ops>>::max();
+  return ieme::limits<ieme::mixed_number<Rep, Rep, Ops>>::max();
 }
 
 template <typename Rep, typename Ops>
-constexpr ieme::mixed_number<Rep, Ops>
-numeric_limits<ieme::mixed_number<Rep, Ops>>::epsilon() noexcept
+constexpr ieme::mixed_number<Rep, Rep, Ops>
+numeric_limits<ieme::mixed_number<Rep, Rep, Ops>>::epsilon() noexcept
 {
-  return ieme::limits<ieme::mixed_number<Rep, Ops>>::smallest();
+  return ieme::limits<ieme::mixed_number<Rep, Rep, Ops>>::smallest();
 }
 
 template <typename Rep, typename Ops>
-constexpr ieme::mixed_number<Rep, Ops>
-numeric_limits<ieme::mixed_number<Rep, Ops>>::round_error() noexcept
+constexpr ieme::mixed_number<Rep, Rep, Ops>
+numeric_limits<ieme::mixed_number<Rep, Rep, Ops>>::round_error() noexcept
 {
   return fraction_limits_type::round_error();
 }
 
 template <typename Rep, typename Ops>
-constexpr ieme::mixed_number<Rep, Ops>
-numeric_limits<ieme::mixed_number<Rep, Ops>>::infinity() noexcept
+constexpr ieme::mixed_number<Rep, Rep, Ops>
+numeric_limits<ieme::mixed_number<Rep, Rep, Ops>>::infinity() noexcept
 {
   return fraction_limits_type::infinity();
 }
 
 template <typename Rep, typename Ops>
-constexpr ieme::mixed_number<Rep, Ops>
-numeric_limits<ieme::mixed_number<Rep, Ops>>::quiet_NaN() noexcept
+constexpr ieme::mixed_number<Rep, Rep, Ops>
+numeric_limits<ieme::mixed_number<Rep, Rep, Ops>>::quiet_NaN() noexcept
 {
-  return ieme::limits<ieme::mixed_number<Rep, Ops>>::undefined();
+  return ieme::limits<ieme::mixed_number<Rep, Rep, Ops>>::undefined();
 }
 
 template <typename Rep, typename Ops>
-constexpr ieme::mixed_number<Rep, Ops>
-numeric_limits<ieme::mixed_number<Rep, Ops>>::signaling_NaN() noexcept
+constexpr ieme::mixed_number<Rep, Rep, Ops>
+numeric_limits<ieme::mixed_number<Rep, Rep, Ops>>::signaling_NaN() noexcept
 {
   return fraction_limits_type::signaling_NaN();
 }
 
 template <typename Rep, typename Ops>
-constexpr ieme::mixed_number<Rep, Ops>
-numeric_limits<ieme::mixed_number<Rep, Ops>>::denorm_min() noexcept
+constexpr ieme::mixed_number<Rep, Rep, Ops>
+numeric_limits<ieme::mixed_number<Rep, Rep, Ops>>::denorm_min() noexcept
 {
   return fraction_limits_type::denorm_min();
 }
-- 
2.43.0


From ebc6611992886a19052e8e86af2e7900f3666c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:34 +0000
Subject: [PATCH 19/22] fix: a power with the lowest exponent negated it in
 int, which overflows (0 to that power came out defined)

---
 include/ieme/fraction_math.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/ieme/fraction_math.hpp b/include/ieme/fraction_math.hpp
index bd54893..2424983 100644
--- a/include/ieme/fraction_math.hpp
+++ b/include/ieme/fraction_math.hpp
@@ -263,7 +263,9 @@ constexpr fraction<Rep, Ops> pow(Rep const& base, int const exponent) noexcept
            ? fraction<Rep, Ops>(
              math_utilities::pow(base, static_cast<Rep>(exponent)))
            : fraction<Rep, Ops>(
-             _1<Rep>, math_utilities::pow(base, static_cast<Rep>(-exponent)));
+             _1<Rep>,
+             base
+               * math_utilities::pow(base, static_cast<Rep>(-(exponent + 1))));
 }
 
 
-- 
2.43.0


From e9922e6e3ff4e19dd4b4900af58f1a452bcadca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:53 +0000
Subject: [PATCH 20/22] fix: compound assignment narrowed a right operand of a
 wider type before computing

---
 include/ieme/fraction.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/ieme/fraction.hpp b/include/ieme/fraction.hpp
index abc0cad..55f9da4 100644
--- a/include/ieme/fraction.hpp
+++ b/include/ieme/fraction.hpp
@@ -659,13 +659,26 @@ IEME_DEFINE_FRACTION_ARITHMETIC_OPS(*, multiplies)
 IEME_DEFINE_FRACTION_ARITHMETIC_OPS(/, divides)
 IEME_DEFINE_FRACTION_ARITHMETIC_OPS(%, modulus)
 
+// Whether compound assignment can compute in the common type, which then has to
+// hold every value of the left representation. Otherwise, the right operand is
+// converted to the left representation.
+template <typename LeftRep, typename RightRep>
+constexpr bool assigns_from_common_type() noexcept
+{
+  if constexpr (std::is_integral_v<LeftRep> && std::is_integral_v<RightRep>)
+    return std::is_unsigned_v<LeftRep>
+           || std::is_signed_v<std::common_type_t<LeftRep, RightRep>>;
+  else
+    return std::is_same_v<LeftRep, RightRep>;
+}
+
 #define IEME_DEFINE_FRACTION_COMPOUND_ASSIGNMENT_OPS(symbol)                   \
   template <typename LeftRep, typename RightRep, typename Ops, typename>       \
   constexpr fraction<LeftRep, Ops>& operator symbol##=(                        \
     fraction<LeftRep, Ops>& left,                                              \
     fraction<RightRep, Ops> const& right) noexcept                             \
   {                                                                            \
-    if constexpr (std::is_same_v<LeftRep, RightRep>)                           \
+    if constexpr (assigns_from_common_type<LeftRep, RightRep>())               \
       return left = left symbol right;                                         \
     else                                                                       \
       return left = left symbol fraction<LeftRep, Ops>(right);                 \
@@ -675,7 +688,7 @@ IEME_DEFINE_FRACTION_ARITHMETIC_OPS(%, modulus)
   constexpr fraction<LeftRep, Ops>& operator symbol##=(                        \
     fraction<LeftRep, Ops>& left, RightRep const& right) noexcept              \
   {                                                                            \
-    if constexpr (std::is_same_v<LeftRep, RightRep>)                           \
+    if constexpr (assigns_from_common_type<LeftRep, RightRep>())               \
       return left = left symbol right;                                         \
     else                                                                       \
       return left = left symbol static_cast<LeftRep>(right);                   \
-- 
2.43.0


From e89c4538a66a3764caed47d5c075814d443f7118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:24 +0000
Subject: [PATCH 21/22] fix: to_fraction of a floating-point value on
 big-endian machines

---
 include/ieme/floating_point.hpp | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/include/ieme/floating_point.hpp b/include/ieme/floating_point.hpp
index abe42e5..8a9b125 100644
--- a/include/ieme/floating_point.hpp
+++ b/include/ieme/floating_point.hpp
@@ -7,7 +7,6 @@
 #include <ieme/numbers.hpp>
 #include <ieme/parse_utilities.hpp>
 
-#include <bit>
 #include <cstdint>
 #include <cstring>
 #include <limits>
@@ -166,18 +165,10 @@ fraction<Rep, Ops> floating_point_to_fraction(Float const value) noexcept
       UintRep mantissa_bits = {};
     };
 
-    static constexpr auto offsets = []() -> bitfield_offsets {
-      switch (std::endian::native)
-      {
-        case std::endian::little:
-          return {num_mantissa_bits + num_exponent_bits,
-                  num_mantissa_bits,
-                  _0<UintRep>};
-        case std::endian::big:
-          return {
-            _0<UintRep>, num_sign_bits, num_sign_bits + num_exponent_bits};
-      }
-    }();
+    // The order of the bytes in memory is the same for both types, so that the
+    // sign is the most significant bit regardless of the endianness.
+    static constexpr auto offsets = bitfield_offsets {
+      num_mantissa_bits + num_exponent_bits, num_mantissa_bits, _0<UintRep>};
 
     return std::make_tuple(
       extract_bit_field(offsets.sign_bit, num_sign_bits),
-- 
2.43.0


From 99b2801c8a9dfd44e8af1df958f64c0c60722eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:54 +0000
Subject: [PATCH 22/22] fix: are_identical and are_different of raw fractions
 were not declared noexcept

---
 include/ieme/raw_fraction_queries.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/ieme/raw_fraction_queries.hpp b/include/ieme/raw_fraction_queries.hpp
index 05bedb4..7fee665 100644
--- a/include/ieme/raw_fraction_queries.hpp
+++ b/include/ieme/raw_fraction_queries.hpp
@@ -52,11 +52,11 @@ constexpr bool is_improper(raw_fraction<Rep> const& value) noexcept;
 
 template <typename Rep>
 constexpr bool are_identical(raw_fraction<Rep> const& left,
-                             raw_fraction<Rep> const& right);
+                             raw_fraction<Rep> const& right) noexcept;
 
 template <typename Rep>
 constexpr bool are_different(raw_fraction<Rep> const& left,
-                             raw_fraction<Rep> const& right);
+                             raw_fraction<Rep> const& right) noexcept;
 
 
 // =============================================================================
@@ -159,7 +159,7 @@ constexpr bool is_improper(raw_fraction<Rep> const& value) noexcept
 
 template <typename Rep>
 constexpr bool are_identical(raw_fraction<Rep> const& left,
-                             raw_fraction<Rep> const& right)
+                             raw_fraction<Rep> const& right) noexcept
 {
   return left.numerator == right.numerator
          && left.denominator == right.denominator;
@@ -167,7 +167,7 @@ constexpr bool are_identical(raw_fraction<Rep> const& left,
 
 template <typename Rep>
 constexpr bool are_different(raw_fraction<Rep> const& left,
-                             raw_fraction<Rep> const& right)
+                             raw_fraction<Rep> const& right) noexcept
 {
   return !are_identical(left, right);
 }
-- 
2.43.0

