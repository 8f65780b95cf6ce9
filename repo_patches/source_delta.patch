From 1b51db186cb4022c4d7d37d20e009897e98c3f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:46 +0000
Subject: [PATCH 01/63] fix: never split work in more blocks than threads plus
 one, nor empty arrays

index_ranges divided the size by the integer block size again, so that for
example 6 values and 4 threads gave 6 ranges, where at most 5 are promised.
A 2D array without columns gave empty ranges instead of no ranges.
---
 source/fern/algorithm/core/index_ranges.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/source/fern/algorithm/core/index_ranges.cc b/source/fern/algorithm/core/index_ranges.cc
index e0ef519..eaf0e35 100644
--- a/source/fern/algorithm/core/index_ranges.cc
+++ b/source/fern/algorithm/core/index_ranges.cc
@@ -30,7 +30,7 @@ std::vector<IndexRanges<1>> index_ranges(
     assert(nr_threads != 0);
 
     size_t const block_size = size / nr_threads;  // Integer division.
-    size_t const nr_blocks = block_size > 0 ? size / block_size : 0;
+    size_t const nr_blocks = block_size > 0 ? nr_threads : 0;
     std::vector<IndexRanges<1>> ranges(nr_blocks);
 
     size_t offset = 0;
@@ -70,11 +70,16 @@ std::vector<IndexRanges<2>> index_ranges(
 {
     assert(nr_threads != 0);
 
+    if(size2 == 0) {
+        // No columns, no values.
+        return std::vector<IndexRanges<2>>();
+    }
+
     // Assuming the last size is the size of the dimension whose elements
     // are adjacent to each other in memory.
     size_t const block_width = size2;
     size_t const block_height = size1 / nr_threads;  // Integer division.
-    size_t const nr_blocks = block_height > 0 ? size1 / block_height : 0;
+    size_t const nr_blocks = block_height > 0 ? nr_threads : 0;
     std::vector<IndexRanges<2>> ranges(nr_blocks);
 
     size_t row_offset = 0;
-- 
2.43.0


From 19863aab9334d0d13568902747fe7218091cbbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:57 +0000
Subject: [PATCH 02/63] fix: add: detect out of range of signed + unsigned and
 integer + float

---
 .../algorithm/algebra/elementary/detail/add.h    | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/source/fern/algorithm/algebra/elementary/detail/add.h b/source/fern/algorithm/algebra/elementary/detail/add.h
index 8869f4c..6987c88 100644
--- a/source/fern/algorithm/algebra/elementary/detail/add.h
+++ b/source/fern/algorithm/algebra/elementary/detail/add.h
@@ -7,6 +7,7 @@
 // from Geoneric (http://www.geoneric.eu/contact).
 // -----------------------------------------------------------------------------
 #pragma once
+#include <cmath>
 #include "fern/core/assert.h"
 #include "fern/core/type_traits.h"
 #include "fern/algorithm/policy/policies.h"
@@ -129,7 +130,8 @@ struct within_range<
         FERN_STATIC_ASSERT(std::is_same, typename fern::algorithm::Result<
             Value1, Value2>::type, Result)
 
-        return value1 > 0 ? result >= value1 : result <= value1;
+        // Value2 is not negative, so the result can only be too large.
+        return !(result < value1);
     }
 };
 
@@ -196,14 +198,12 @@ struct within_range<
     inline static constexpr bool calculate(
         Value1 const& /* value1 */,
         Value2 const& /* value2 */,
-        Result const& /* result */)
+        Result const& result)
     {
         FERN_STATIC_ASSERT(std::is_same,
             typename fern::algorithm::Result<Value1, Value2>::type, Result)
-        // assert(std::isfinite(result));
-
         // integral + float
-        return true;
+        return std::isfinite(result);
     }
 };
 
@@ -222,14 +222,12 @@ struct within_range<
     inline static constexpr bool calculate(
         Value1 const& /* value1 */,
         Value2 const& /* values2 */,
-        Result const& /* result */)
+        Result const& result)
     {
         FERN_STATIC_ASSERT(std::is_same,
             typename fern::algorithm::Result<Value1, Value2>::type, Result)
-        // assert(std::isfinite(result));
-
         // float + integral
-        return true;
+        return std::isfinite(result);
     }
 };
 
-- 
2.43.0


From 3a352d8171c9886664a119c97273177cecbfec04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:57 +0000
Subject: [PATCH 03/63] fix: subtract: mark infinite differences of mixed
 operands instead of aborting

---
 .../algebra/elementary/detail/subtract.h      | 23 ++++---------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/source/fern/algorithm/algebra/elementary/detail/subtract.h b/source/fern/algorithm/algebra/elementary/detail/subtract.h
index b989dfd..029e7eb 100644
--- a/source/fern/algorithm/algebra/elementary/detail/subtract.h
+++ b/source/fern/algorithm/algebra/elementary/detail/subtract.h
@@ -7,6 +7,7 @@
 // from Geoneric (http://www.geoneric.eu/contact).
 // -----------------------------------------------------------------------------
 #pragma once
+#include <cmath>
 #include "fern/core/assert.h"
 #include "fern/core/type_traits.h"
 #include "fern/algorithm/policy/policies.h"
@@ -202,20 +203,13 @@ struct within_range<
     inline static bool calculate(
         Value1 const& /* value1 */,
         Value2 const& /* value2 */,
-#ifndef NDEBUG
-        Result const& result
-#else
-        Result const& /* result */
-#endif
-        )
+        Result const& result)
     {
         FERN_STATIC_ASSERT(std::is_same,
             typename fern::algorithm::Result<Value1, Value2>::type, Result)
-        assert(std::isfinite(result));
 
         // integral - float
-        return true;
-        // return std::isfinite(result);
+        return std::isfinite(result);
     }
 };
 
@@ -234,20 +228,13 @@ struct within_range<
     inline static bool calculate(
         Value1 const& /* value1 */,
         Value2 const& /* values2 */,
-#ifndef NDEBUG
-        Result const& result
-#else
-        Result const& /* result */
-#endif
-        )
+        Result const& result)
     {
         FERN_STATIC_ASSERT(std::is_same,
             typename fern::algorithm::Result<Value1, Value2>::type, Result)
-        assert(std::isfinite(result));
 
         // float - integral
-        return true;
-        // return std::isfinite(result);
+        return std::isfinite(result);
     }
 };
 
-- 
2.43.0


From 12f928a562ee27b5d170d6fb8b158e19b9c01836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:57 +0000
Subject: [PATCH 04/63] fix: multiply: products equal to the smallest value are
 in range

---
 .../algebra/elementary/detail/multiply.h      | 22 ++++++++++++++-----
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/source/fern/algorithm/algebra/elementary/detail/multiply.h b/source/fern/algorithm/algebra/elementary/detail/multiply.h
index 37298ea..93ed55c 100644
--- a/source/fern/algorithm/algebra/elementary/detail/multiply.h
+++ b/source/fern/algorithm/algebra/elementary/detail/multiply.h
@@ -93,19 +93,22 @@ struct within_range<
             }
             else {
                 // value1 is positive, value2 is negative.
-                return -value1 >= max<Result>() / value2;
+                return value2 >= min<Result>() / value1;
             }
         }
-        else {
+        else if(value1 < Value1(0)) {
             if(value2 < Value2(0)) {
                 // value1 and value2 are negative.
                 return value1 >= max<Result>() / value2;
             }
             else {
-                // value1 is zero or negative, value2 is positive.
-                return value1 >= -max<Result>() / value2;
+                // value1 is negative, value2 is positive.
+                return value1 >= min<Result>() / value2;
             }
         }
+        else {
+            return true;
+        }
     }
 };
 
@@ -133,14 +136,21 @@ struct within_range<
         //      never happen.
 
         // unsigned * signed
+        // Compare magnitudes as unsigned values. The magnitude of the smallest
+        // result is one larger than the one of the largest result.
+        using Magnitude = typename std::make_unsigned<Result>::type;
+
         if(value2 == Value2(0)) {
             return true;
         }
         else if(value2 > 0) {
-            return value1 <= max<Result>() / value2;
+            return value1 <= static_cast<Magnitude>(max<Result>()) /
+                static_cast<Magnitude>(value2);
         }
         else {
-            return value1 <= -max<Result>() / value2;
+            return value1 <= static_cast<Magnitude>(min<Result>()) /
+                static_cast<Magnitude>(
+                    Magnitude(0) - static_cast<Magnitude>(value2));
         }
     }
 };
-- 
2.43.0


From 71a747c5ffb8a0ff265012e52638a48622e49316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:57 +0000
Subject: [PATCH 05/63] fix: divide: smallest value / -1 is out of range, and
 does not trap

---
 .../algebra/elementary/detail/divide.h        | 45 +++++++++++++++++--
 1 file changed, 41 insertions(+), 4 deletions(-)

diff --git a/source/fern/algorithm/algebra/elementary/detail/divide.h b/source/fern/algorithm/algebra/elementary/detail/divide.h
index 13b1821..1a03759 100644
--- a/source/fern/algorithm/algebra/elementary/detail/divide.h
+++ b/source/fern/algorithm/algebra/elementary/detail/divide.h
@@ -70,15 +70,15 @@ struct within_range<
     signed_integer_tag>
 {
     inline static constexpr bool calculate(
-        Value1 const& /* value1 */,
-        Value2 const& /* value2 */,
+        Value1 const& value1,
+        Value2 const& value2,
         Result const& /* result */)
     {
         FERN_STATIC_ASSERT(std::is_same,
             typename fern::algorithm::Result<Value1, Value2>::type, Result)
 
         // signed / signed
-        return true;
+        return !(value2 == Value2(-1) && value1 == min<Result>());
     }
 };
 
@@ -231,6 +231,41 @@ struct within_range<
     }
 };
 
+
+template<
+    typename R,
+    bool is_signed_integer>
+struct quotient
+{
+    inline static R calculate(
+        R const& value1,
+        R const& value2)
+    {
+        return value1 / value2;
+    }
+};
+
+
+template<
+    typename R>
+struct quotient<
+    R,
+    true>
+{
+    inline static R calculate(
+        R const& value1,
+        R const& value2)
+    {
+        // Dividing the smallest value by -1 is undefined. Negate it instead,
+        // as an unsigned value.
+        using Unsigned = typename std::make_unsigned<R>::type;
+
+        return value2 == R(-1)
+            ? static_cast<R>(Unsigned(0) - static_cast<Unsigned>(value1))
+            : value1 / value2;
+    }
+};
+
 } // namespace dispatch
 
 
@@ -251,7 +286,9 @@ struct Algorithm
         R& result) const
     {
         assert(is_not_equal(value2, Value2(0)));
-        result = static_cast<R>(value1) / static_cast<R>(value2);
+        result = dispatch::quotient<R,
+            std::is_integral<R>::value && std::is_signed<R>::value>::calculate(
+                static_cast<R>(value1), static_cast<R>(value2));
     }
 
 };
-- 
2.43.0


From 2278cf20ec8e97f7b0d821f56345d609fbbacf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:51 +0000
Subject: [PATCH 06/63] fix: factorial: integer factorials are exact

---
 .../algebra/elementary/detail/factorial.h     | 58 ++++++++++++++++++-
 1 file changed, 57 insertions(+), 1 deletion(-)

diff --git a/source/fern/algorithm/algebra/elementary/detail/factorial.h b/source/fern/algorithm/algebra/elementary/detail/factorial.h
index 2753d15..c3204a2 100644
--- a/source/fern/algorithm/algebra/elementary/detail/factorial.h
+++ b/source/fern/algorithm/algebra/elementary/detail/factorial.h
@@ -8,7 +8,9 @@
 // -----------------------------------------------------------------------------
 #pragma once
 #include <cmath>
+#include <cstdint>
 #include "fern/core/assert.h"
+#include "fern/core/base_class.h"
 #include "fern/core/math.h"
 #include "fern/algorithm/policy/policies.h"
 #include "fern/algorithm/core/unary_local_operation.h"
@@ -125,6 +127,58 @@ struct within_range<
 
 };
 
+
+template<
+    typename Value,
+    typename ArgumentNumberCategory>
+struct product
+{
+
+    static Value   calculate           (Value const& value);
+
+};
+
+
+template<
+    typename Value>
+struct product<
+    Value,
+    fern::integer_tag>
+{
+
+    inline static Value calculate(
+        Value const& value)
+    {
+        // The gamma function is only accurate to a number of digits. Larger
+        // factorials than this one don't fit in any of the integral types.
+        Value const largest_value{20};
+        uint64_t result{1};
+
+        for(Value i{2}; i <= value && i <= largest_value; ++i) {
+            result *= static_cast<uint64_t>(i);
+        }
+
+        return static_cast<Value>(result);
+    }
+
+};
+
+
+template<
+    typename Value>
+struct product<
+    Value,
+    fern::floating_point_tag>
+{
+
+    inline static Value calculate(
+        Value const& value)
+    {
+        return static_cast<Value>(std::round(std::tgamma(value + Value{1})));
+    }
+
+};
+
 } // namespace dispatch
 
 
@@ -141,7 +195,9 @@ struct Algorithm
     {
         FERN_STATIC_ASSERT(std::is_same, Result, Value)
 
-        result = static_cast<Value>(std::round(std::tgamma(value + Value{1})));
+        using value_tag = base_class<number_category<Value>, integer_tag>;
+
+        result = dispatch::product<Value, value_tag>::calculate(value);
     }
 
 };
-- 
2.43.0


From 2e2749c0f7ace4fd566f5c128e62c073f36f2455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:19 +0000
Subject: [PATCH 07/63] fix: combine second argument's own value type with
 one-dimensional arguments

---
 source/fern/algorithm/core/binary_local_operation.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/fern/algorithm/core/binary_local_operation.h b/source/fern/algorithm/core/binary_local_operation.h
index 6cca36b..68a3c18 100644
--- a/source/fern/algorithm/core/binary_local_operation.h
+++ b/source/fern/algorithm/core/binary_local_operation.h
@@ -169,7 +169,7 @@ void operation_0d_1d(
                 output_no_data_policy.mark_as_no_data(i);
             }
             else {
-                const_reference<Value1> v2(get(value2, i));
+                const_reference<Value2> v2(get(value2, i));
 
                 if(!OutOfDomainPolicy::within_domain(v1, v2)) {
                     // Input value is out of domain. Mark result value as
@@ -222,7 +222,7 @@ void operation_1d_1d(
         }
         else {
             const_reference<Value1> v1(get(value1, i));
-            const_reference<Value1> v2(get(value2, i));
+            const_reference<Value2> v2(get(value2, i));
 
             if(!OutOfDomainPolicy::within_domain(v1, v2)) {
                 // Input value is out of domain. Mark result value as
-- 
2.43.0


From bcd468a0482e97e4f29434f141f28a754ad78704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:24 +0000
Subject: [PATCH 08/63] fix: clamp: parallel execution with bounds of different
 dimensions

---
 source/fern/algorithm/core/detail/clamp.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/source/fern/algorithm/core/detail/clamp.h b/source/fern/algorithm/core/detail/clamp.h
index 8702d52..bc1b062 100644
--- a/source/fern/algorithm/core/detail/clamp.h
+++ b/source/fern/algorithm/core/detail/clamp.h
@@ -411,7 +411,7 @@ struct ClampByArgumentCategory<
             auto function = std::bind(
                 clamp_1d_1d_1d<
                     InputNoDataPolicy, OutputNoDataPolicy,
-                    Value, UpperBound, LowerBound, Result>,
+                    Value, LowerBound, UpperBound, Result>,
                 std::cref(input_no_data_policy),
                 std::ref(output_no_data_policy), std::cref(block_range),
                 std::cref(value), std::cref(lower_bound),
@@ -507,9 +507,9 @@ struct ClampByArgumentCategory<
 
         for(auto const& block_range: ranges) {
             auto function = std::bind(
-                clamp_1d_1d_1d<
+                clamp_1d_1d_0d<
                     InputNoDataPolicy, OutputNoDataPolicy,
-                    Value, UpperBound, LowerBound, Result>,
+                    Value, LowerBound, UpperBound, Result>,
                 std::cref(input_no_data_policy),
                 std::ref(output_no_data_policy), std::cref(block_range),
                 std::cref(value), std::cref(lower_bound),
@@ -605,9 +605,9 @@ struct ClampByArgumentCategory<
 
         for(auto const& block_range: ranges) {
             auto function = std::bind(
-                clamp_1d_1d_1d<
+                clamp_1d_0d_1d<
                     InputNoDataPolicy, OutputNoDataPolicy,
-                    Value, UpperBound, LowerBound, Result>,
+                    Value, LowerBound, UpperBound, Result>,
                 std::cref(input_no_data_policy),
                 std::ref(output_no_data_policy), std::cref(block_range),
                 std::cref(value), std::cref(lower_bound),
@@ -717,7 +717,7 @@ struct ClampByArgumentCategory<
             auto function = std::bind(
                 clamp_2d_2d_2d<
                     InputNoDataPolicy, OutputNoDataPolicy,
-                    Value, UpperBound, LowerBound, Result>,
+                    Value, LowerBound, UpperBound, Result>,
                 std::cref(input_no_data_policy),
                 std::ref(output_no_data_policy), std::cref(block_range),
                 std::cref(value), std::cref(lower_bound),
@@ -823,7 +823,7 @@ struct ClampByArgumentCategory<
             auto function = std::bind(
                 clamp_2d_2d_0d<
                     InputNoDataPolicy, OutputNoDataPolicy,
-                    Value, UpperBound, LowerBound, Result>,
+                    Value, LowerBound, UpperBound, Result>,
                 std::cref(input_no_data_policy),
                 std::ref(output_no_data_policy), std::cref(block_range),
                 std::cref(value), std::cref(lower_bound),
@@ -929,7 +929,7 @@ struct ClampByArgumentCategory<
             auto function = std::bind(
                 clamp_2d_0d_2d<
                     InputNoDataPolicy, OutputNoDataPolicy,
-                    Value, UpperBound, LowerBound, Result>,
+                    Value, LowerBound, UpperBound, Result>,
                 std::cref(input_no_data_policy),
                 std::ref(output_no_data_policy), std::cref(block_range),
                 std::cref(value), std::cref(lower_bound),
-- 
2.43.0


From 94402e0b93a284c5e659b6b3e836bd7a37a3d9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:24 +0000
Subject: [PATCH 09/63] fix: if_: don't require a scalar true value to have the
 condition's size

---
 source/fern/algorithm/core/detail/if.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/fern/algorithm/core/detail/if.h b/source/fern/algorithm/core/detail/if.h
index 2afbdbb..c199942 100644
--- a/source/fern/algorithm/core/detail/if.h
+++ b/source/fern/algorithm/core/detail/if.h
@@ -1299,7 +1299,7 @@ struct IfThenElseByArgumentCategory<
         FalseValue const& false_value,
         Result& result)
     {
-        assert(size(true_value) == size(condition));
+        assert(size(result) == size(condition));
 
         if_then_else_1d_0d_0d(input_no_data_policy, output_no_data_policy,
             IndexRanges<1>{IndexRange(0, size(condition))}, condition,
-- 
2.43.0


From a849229345d54807bfb9a6a1e489801d1839b379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:15 +0000
Subject: [PATCH 10/63] fix: copy: parallel execution given an empty range

---
 source/fern/algorithm/core/detail/copy.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/source/fern/algorithm/core/detail/copy.h b/source/fern/algorithm/core/detail/copy.h
index a095309..715a87e 100644
--- a/source/fern/algorithm/core/detail/copy.h
+++ b/source/fern/algorithm/core/detail/copy.h
@@ -160,8 +160,7 @@ struct CopyByArgumentCategory<
             };
         }
 
-        std::vector<Position> position_per_block(ranges.size());
-        position_per_block[0] = position;
+        std::vector<Position> position_per_block(ranges.size(), position);
 
         for(size_t i = 1; i < ranges.size(); ++i) {
             position_per_block[i] = get<0>(position_per_block[i - 1]) +
-- 
2.43.0


From 626694081cf1f222673fac7d53733c35cca57e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:45 +0000
Subject: [PATCH 11/63] fix: mean: support more values than the result type can
 count

---
 source/fern/algorithm/accumulator/mean.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/source/fern/algorithm/accumulator/mean.h b/source/fern/algorithm/accumulator/mean.h
index 347d974..58b7489 100644
--- a/source/fern/algorithm/accumulator/mean.h
+++ b/source/fern/algorithm/accumulator/mean.h
@@ -9,6 +9,8 @@
 #pragma once
 #include <cassert>
 #include <cstddef>
+#include <cstdint>
+#include <type_traits>
 #include "fern/algorithm/accumulator/count.h"
 #include "fern/algorithm/accumulator/sum.h"
 
@@ -175,8 +177,15 @@ inline Result Mean<Argument, Result>::operator()() const
     assert(_count() > 0);
 
     // _sum() returns result in Result. Dividing by _count may implicitly cast
-    // it to some other type.
-    return _sum() / static_cast<Result>(_count());
+    // it to some other type. The number of values may be larger than Result
+    // can hold.
+    using Divisor = typename std::conditional<
+        std::is_integral<Result>::value,
+        typename std::conditional<std::is_signed<Result>::value,
+            std::intmax_t, std::uintmax_t>::type,
+        Result>::type;
+
+    return static_cast<Result>(_sum() / static_cast<Divisor>(_count()));
 }
 
 
-- 
2.43.0


From 01e34af745cffc0e7e878c95d7bd5aa36936d37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:24 +0000
Subject: [PATCH 12/63] fix: count: find the first valid value in any row, and
 skip blocks without any

---
 .../core/binary_aggregate_operation.h         | 77 +++++++++++--------
 1 file changed, 47 insertions(+), 30 deletions(-)

diff --git a/source/fern/algorithm/core/binary_aggregate_operation.h b/source/fern/algorithm/core/binary_aggregate_operation.h
index 99cc065..ca508ed 100644
--- a/source/fern/algorithm/core/binary_aggregate_operation.h
+++ b/source/fern/algorithm/core/binary_aggregate_operation.h
@@ -53,7 +53,7 @@ template<
     typename OutputNoDataPolicy,
     typename Value,
     typename Result>
-void operation_1d(
+bool operation_1d(
     Algorithm const& algorithm,
     InputNoDataPolicy const& input_no_data_policy,
     OutputNoDataPolicy& output_no_data_policy,
@@ -107,9 +107,7 @@ void operation_1d(
         }
     }
 
-    if(!data_seen) {
-        output_no_data_policy.mark_as_no_data();
-    }
+    return data_seen;
 }
 
 
@@ -121,7 +119,7 @@ template<
     typename OutputNoDataPolicy,
     typename Value,
     typename Result>
-void operation_2d(
+bool operation_2d(
     Algorithm const& algorithm,
     InputNoDataPolicy const& input_no_data_policy,
     OutputNoDataPolicy& output_no_data_policy,
@@ -151,6 +149,7 @@ void operation_2d(
         // Initialize result.
         for(; i < end1; ++i) {
 
+            j = begin2;
             index_ = index(values, i, j);
 
             for(; j < end2; ++j) {
@@ -219,9 +218,7 @@ void operation_2d(
         }
     }
 
-    if(!data_seen) {
-        output_no_data_policy.mark_as_no_data();
-    }
+    return data_seen;
 }
 
 
@@ -392,10 +389,15 @@ struct BinaryAggregateOperation<
     {
         Algorithm algorithm;
 
-        operation_1d<OutOfDomainPolicy, OutOfRangePolicy>(algorithm,
+        bool const data_seen = operation_1d<OutOfDomainPolicy,
+            OutOfRangePolicy>(algorithm,
             input_no_data_policy, output_no_data_policy,
             IndexRanges<1>{IndexRange(0, size(values))},
             values, value, result);
+
+        if(!data_seen) {
+            output_no_data_policy.mark_as_no_data();
+        }
     }
 
 };
@@ -441,18 +443,12 @@ struct BinaryAggregateOperation<
         ThreadPool& pool(execution_policy.thread_pool());
         size_t const size_ = size(values);
         std::vector<IndexRanges<1>> ranges = index_ranges(pool.size(), size_);
-        std::vector<std::future<void>> futures;
+        std::vector<std::future<bool>> futures;
         futures.reserve(ranges.size());
         std::vector<Result> results_per_block(ranges.size(), Result(0));
 
         Algorithm algorithm;
 
-        // TODO OutputNoDataPolicy must be created ad-hoc here. It must have
-        //      an effect on the values in results_per_block.
-        //      This depends on whether or not results are masking. Probably
-        //      need to dispatch this whole function on that. First create a
-        //      failing unit test that fails: include a block with only
-        //      no-data and verify the result is not no-data.
         for(size_t i = 0; i < ranges.size(); ++i) {
             auto const& block_range(ranges[i]);
             auto function = std::bind(
@@ -467,8 +463,19 @@ struct BinaryAggregateOperation<
             futures.emplace_back(pool.submit(function));
         }
 
-        for(auto& future: futures) {
-            future.get();
+        // Blocks without valid values don't contribute to the result.
+        std::vector<Result> results;
+        results.reserve(ranges.size());
+
+        for(size_t i = 0; i < ranges.size(); ++i) {
+            if(futures[i].get()) {
+                results.emplace_back(results_per_block[i]);
+            }
+        }
+
+        if(results.empty()) {
+            output_no_data_policy.mark_as_no_data();
+            return;
         }
 
         Aggregator aggregator;
@@ -476,7 +483,7 @@ struct BinaryAggregateOperation<
         Aggregate<DataTypeTraits<Result>::is_masking>::template
             apply<OutOfRangePolicy>(
                 aggregator, output_no_data_policy, execution_policy,
-                results_per_block, result);
+                results, result);
     }
 
 };
@@ -585,12 +592,17 @@ struct BinaryAggregateOperation<
     {
         Algorithm algorithm;
 
-        operation_2d<OutOfDomainPolicy, OutOfRangePolicy>(algorithm,
+        bool const data_seen = operation_2d<OutOfDomainPolicy,
+            OutOfRangePolicy>(algorithm,
             input_no_data_policy, output_no_data_policy,
             IndexRanges<2>{
                 IndexRange(0, size(values, 0)),
                 IndexRange(0, size(values, 1))},
             values, value, result);
+
+        if(!data_seen) {
+            output_no_data_policy.mark_as_no_data();
+        }
     }
 
 };
@@ -631,18 +643,12 @@ struct BinaryAggregateOperation<
         size_t const size2 = size(values, 1);
         std::vector<IndexRanges<2>> ranges = index_ranges(pool.size(),
             size1, size2);
-        std::vector<std::future<void>> futures;
+        std::vector<std::future<bool>> futures;
         futures.reserve(ranges.size());
         std::vector<Result> results_per_block(ranges.size(), Result(0));
 
         Algorithm algorithm;
 
-        // TODO OutputNoDataPolicy must be created ad-hoc here. It must have
-        //      an effect on the values in results_per_block.
-        //      This depends on whether or not results are masking. Probably
-        //      need to dispatch this whole function on that. First create a
-        //      failing unit test that fails: include a block with only
-        //      no-data and verify the result is not no-data.
         for(size_t i = 0; i < ranges.size(); ++i) {
             auto const& block_range(ranges[i]);
             auto function = std::bind(
@@ -657,8 +663,19 @@ struct BinaryAggregateOperation<
             futures.emplace_back(pool.submit(function));
         }
 
-        for(auto& future: futures) {
-            future.get();
+        // Blocks without valid values don't contribute to the result.
+        std::vector<Result> results;
+        results.reserve(ranges.size());
+
+        for(size_t i = 0; i < ranges.size(); ++i) {
+            if(futures[i].get()) {
+                results.emplace_back(results_per_block[i]);
+            }
+        }
+
+        if(results.empty()) {
+            output_no_data_policy.mark_as_no_data();
+            return;
         }
 
         Aggregator aggregator;
@@ -666,7 +683,7 @@ struct BinaryAggregateOperation<
         Aggregate<DataTypeTraits<Result>::is_masking>::template
             apply<OutOfRangePolicy>(
                 aggregator, output_no_data_policy, execution_policy,
-                results_per_block, result);
+                results, result);
     }
 
 };
-- 
2.43.0


From bc417125310724cd66261f5b891a8b53da084155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:01 +0000
Subject: [PATCH 13/63] fix: accumulator: merging counts with a range policy
 adds the other's count

---
 source/fern/algorithm/accumulator/count.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/source/fern/algorithm/accumulator/count.h b/source/fern/algorithm/accumulator/count.h
index 1754768..016872a 100644
--- a/source/fern/algorithm/accumulator/count.h
+++ b/source/fern/algorithm/accumulator/count.h
@@ -173,10 +173,13 @@ template<
 template<
     template<typename, typename, typename> class OutOfRangePolicy>
 inline bool Count<Argument, Result>::operator|=(
-    Count const& /* other */)
+    Count const& other)
 {
-    // Value doesn't matter. We're counting, not summing.
-    return operator()<OutOfRangePolicy>(Argument{});
+    Result previous_count{_count};
+    _count += other._count;
+
+    return OutOfRangePolicy<Result, Result, Result>::within_range(
+        previous_count, other._count, _count);
 }
 
 
-- 
2.43.0


From 7239fdea679bea32cb0375a056d376999abee49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:01 +0000
Subject: [PATCH 14/63] fix: accumulator: merging sums with a range policy
 doesn't narrow to Argument

---
 source/fern/algorithm/accumulator/sum.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/fern/algorithm/accumulator/sum.h b/source/fern/algorithm/accumulator/sum.h
index a4fac1e..78f2bec 100644
--- a/source/fern/algorithm/accumulator/sum.h
+++ b/source/fern/algorithm/accumulator/sum.h
@@ -193,7 +193,11 @@ template<
 inline bool Sum<Argument, Result>::operator|=(
     Sum const& other)
 {
-    return operator()<OutOfRangePolicy>(other._sum);
+    Result previous_sum{_sum};
+    _sum += other._sum;
+
+    return OutOfRangePolicy<Result, Result, Result>::within_range(
+        previous_sum, other._sum, _sum);
 }
 
 
-- 
2.43.0


From 351e1ca19d4b21a9fc85ab5daf0a1a261d1ea468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:01 +0000
Subject: [PATCH 15/63] fix: accumulator: default constructed mode has no
 values

---
 source/fern/algorithm/accumulator/mode.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/fern/algorithm/accumulator/mode.h b/source/fern/algorithm/accumulator/mode.h
index d747d37..3f619c7 100644
--- a/source/fern/algorithm/accumulator/mode.h
+++ b/source/fern/algorithm/accumulator/mode.h
@@ -65,7 +65,7 @@ template<
     typename Result>
 inline Mode<Argument, Result>::Mode()
 
-    : _frequency_table(0)
+    : _frequency_table()
 
 {
 }
-- 
2.43.0


From 29916e979a75bbcf071dcebc74704aa8a80de2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:30 +0000
Subject: [PATCH 16/63] fix: accumulator: median of an even number of large
 values

---
 source/fern/algorithm/accumulator/median.h | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/source/fern/algorithm/accumulator/median.h b/source/fern/algorithm/accumulator/median.h
index 5a2e37b..e5433a1 100644
--- a/source/fern/algorithm/accumulator/median.h
+++ b/source/fern/algorithm/accumulator/median.h
@@ -146,9 +146,20 @@ inline Result Median<Argument, Result>::operator()() const
         result = static_cast<Result>(_values[center_index]);
     }
     else {
-        // Even. Return mean of two center values.
-        result = static_cast<Result>(_values[center_index - 1] +
-            _values[center_index]) / 2;
+        // Even. Return mean of two center values. Values with the same sign
+        // are not summed, because the sum may be out of range.
+        Result const low = static_cast<Result>(_values[center_index - 1]);
+        Result const high = static_cast<Result>(_values[center_index]);
+
+        if(low > 0) {
+            result = low + (high - low) / 2;
+        }
+        else if(high < 0) {
+            result = high - (high - low) / 2;
+        }
+        else {
+            result = (low + high) / 2;
+        }
     }
 
     return result;
-- 
2.43.0


From b7388bad64f1312cc9b69bd73c5fdb29900bd66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:43 +0000
Subject: [PATCH 17/63] fix: convolve: no-data surrounded by no-data has no
 focal average

---
 .../replace_no_data_by_focal_average.h          | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/source/fern/algorithm/convolution/replace_no_data_by_focal_average.h b/source/fern/algorithm/convolution/replace_no_data_by_focal_average.h
index 7578156..8ba0ed5 100644
--- a/source/fern/algorithm/convolution/replace_no_data_by_focal_average.h
+++ b/source/fern/algorithm/convolution/replace_no_data_by_focal_average.h
@@ -83,16 +83,13 @@ inline bool ReplaceNoDataByFocalAverage::value(
         }
     }
 
-    // At least the focal cell must be non-no-data. Otherwise it would have
-    // been skipped entirely and we wouldn't be here.
-    // -> But in case the radius of the convolution kernel is larger than 1,
-    // the focal cell is not surrounding cell row, col. It is possible that
-    // cell row, col is surrounded by only no-data.
-    // TODO Handle this once this assertion fails for the first time.
-    assert(nr_values_seen > 0u);
-    value = sum_of_values / static_cast<Value>(nr_values_seen);
-
-    return true;
+    // In case all surrounding cells contain no-data, there is no alternative
+    // value.
+    if(nr_values_seen > 0u) {
+        value = sum_of_values / static_cast<Value>(nr_values_seen);
+    }
+
+    return nr_values_seen > 0u;
 }
 
 } // namespace convolve
-- 
2.43.0


From 428b44b040504cb022ab5a7edd7dc87146adffa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:47 +0000
Subject: [PATCH 18/63] fix: convolve: averages out of images as small as twice
 the radius

---
 .../replace_out_of_image_by_focal_average.h   | 30 +++++++++++--------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/source/fern/algorithm/convolution/replace_out_of_image_by_focal_average.h b/source/fern/algorithm/convolution/replace_out_of_image_by_focal_average.h
index cd358b9..c80fb5d 100644
--- a/source/fern/algorithm/convolution/replace_out_of_image_by_focal_average.h
+++ b/source/fern/algorithm/convolution/replace_out_of_image_by_focal_average.h
@@ -218,8 +218,9 @@ inline bool ReplaceOutOfImageByFocalAverage::value_north_west(
                     size_t col = out_of_image_kernel_col - first_col_kernel >=
                         radius ? out_of_image_kernel_col - first_col_kernel -
                         radius : 0;
-                    size_t const last_col = out_of_image_kernel_col -
-                        first_col_kernel + radius;
+                    size_t const last_col = std::min(
+                        out_of_image_kernel_col - first_col_kernel + radius,
+                        size(source, 1) - 1);
 
                     index_ = index(source, row, col);
 
@@ -248,8 +249,9 @@ inline bool ReplaceOutOfImageByFocalAverage::value_north_west(
             size_t row = out_of_image_kernel_row - first_row_kernel >= radius
                 ? out_of_image_kernel_row -first_row_kernel - radius
                 : 0;
-            size_t const last_row = out_of_image_kernel_row -
-                first_row_kernel + radius;
+            size_t const last_row = std::min(
+                out_of_image_kernel_row - first_row_kernel + radius,
+                size(source, 0) - 1);
 
             for(; row <= last_row; ++row) {
                 size_t col = first_col_source;
@@ -353,7 +355,8 @@ inline bool ReplaceOutOfImageByFocalAverage::value_north_east(
 
                 for(; row <= last_row; ++row) {
 
-                    size_t col = col_source - radius;
+                    size_t col = radius > col_source ? 0 :
+                        col_source - radius;
                     size_t last_col = std::min(col_source + radius,
                         last_col_source);
                     index_ = index(source, row, col);
@@ -385,8 +388,9 @@ inline bool ReplaceOutOfImageByFocalAverage::value_north_east(
                     ? out_of_image_kernel_row - first_row_kernel - radius
                     : 0;
 
-            size_t const last_row = out_of_image_kernel_row -
-                first_row_kernel + radius;
+            size_t const last_row = std::min(
+                out_of_image_kernel_row - first_row_kernel + radius,
+                size(source, 0) - 1);
 
             for(; row <= last_row; ++row) {
 
@@ -494,8 +498,9 @@ inline bool ReplaceOutOfImageByFocalAverage::value_south_west(
                     size_t col = out_of_image_kernel_col - first_col_kernel >=
                         radius ? out_of_image_kernel_col - first_col_kernel -
                         radius : 0;
-                    size_t const last_col = out_of_image_kernel_col -
-                        first_col_kernel + radius;
+                    size_t const last_col = std::min(
+                        out_of_image_kernel_col - first_col_kernel + radius,
+                        size(source, 1) - 1);
 
                     index_ = index(source, row, col);
 
@@ -524,7 +529,7 @@ inline bool ReplaceOutOfImageByFocalAverage::value_south_west(
 
             size_t const row_source = first_row_source +
                 out_of_image_kernel_row;
-            size_t row = row_source - radius;
+            size_t row = radius > row_source ? 0 : row_source - radius;
             size_t last_row = std::min(row_source + radius, last_row_source);
 
             for(; row <= last_row; ++row) {
@@ -637,7 +642,8 @@ inline bool ReplaceOutOfImageByFocalAverage::value_south_east(
 
                 for(; row <= last_row; ++row) {
 
-                    size_t col = col_source - radius;
+                    size_t col = radius > col_source ? 0 :
+                        col_source - radius;
                     size_t last_col = std::min(col_source + radius,
                         last_col_source);
 
@@ -668,7 +674,7 @@ inline bool ReplaceOutOfImageByFocalAverage::value_south_east(
 
             size_t const row_source = first_row_source +
                 out_of_image_kernel_row;
-            size_t row = row_source - radius;
+            size_t row = radius > row_source ? 0 : row_source - radius;
             size_t last_row = std::min(row_source + radius, last_row_source);
 
             for(; row <= last_row; ++row) {
-- 
2.43.0


From 6191f98eeeacac960ec8fa35f033e74ad6fdada3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:29 +0000
Subject: [PATCH 19/63] fix: gradient: rasters of a single row or column

The cell's only neighbour in the direction of the gradient is outside the
raster on both sides: the gradient is zero. The border loops read the
cell next to the raster (or the next row's) instead.
---
 .../algebra/vector/detail/gradient.h          | 30 +++++++++++--------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/source/fern/algorithm/algebra/vector/detail/gradient.h b/source/fern/algorithm/algebra/vector/detail/gradient.h
index a21366a..a2d6cd0 100644
--- a/source/fern/algorithm/algebra/vector/detail/gradient.h
+++ b/source/fern/algorithm/algebra/vector/detail/gradient.h
@@ -55,7 +55,8 @@ static void gradient_x_2d(
         index_center = index(result, i, index_ranges[1].begin());
         index_right = index_center + 1;
 
-        for(size_t j = index_ranges[1].begin(); j < 1; ++j) {
+        for(size_t j = index_ranges[1].begin();
+                j < std::min<size_t>(1u, index_ranges[1].end()); ++j) {
 
             // Left cell of window lies outside of the raster. Consider it
             // no-data.
@@ -64,9 +65,9 @@ static void gradient_x_2d(
                 output_no_data_policy.mark_as_no_data(index_center);
             }
             else {
-                assert(j + 1 < size2);
-
-                if(!std::get<0>(input_no_data_policy).is_no_data(index_right)) {
+                if(j + 1 < size2 &&
+                        !std::get<0>(input_no_data_policy).is_no_data(
+                            index_right)) {
                     // x c r
                     get(result, index_center) = gradient(
                         get(value, index_center),
@@ -85,8 +86,10 @@ static void gradient_x_2d(
     }
 
 
-    // Handle right border, in case it is within the index range.
-    for(size_t i = index_ranges[0].begin(); i < index_ranges[0].end(); ++i) {
+    // Handle right border, in case it is within the index range. A single
+    // column is both the left and the right border and is already handled.
+    for(size_t i = index_ranges[0].begin();
+            size2 > 1 && i < index_ranges[0].end(); ++i) {
 
         index_center = index(result, i, size2 - 1);
         assert(index_center > 0);
@@ -201,7 +204,8 @@ static void gradient_y_2d(
     size_t index_top, index_center, index_bottom;
 
     // Handle top border, in case it is within the index range.
-    for(size_t i = index_ranges[0].begin(); i < 1; ++i) {
+    for(size_t i = index_ranges[0].begin();
+            i < std::min<size_t>(1u, index_ranges[0].end()); ++i) {
 
         index_center = index(result, i, index_ranges[1].begin());
         index_bottom = index(result, i + 1, index_ranges[1].begin());
@@ -216,10 +220,9 @@ static void gradient_y_2d(
                 output_no_data_policy.mark_as_no_data(index_center);
             }
             else {
-                assert(i + 1 < size1);
-
-                if(!std::get<0>(input_no_data_policy).is_no_data(
-                        index_bottom)) {
+                if(i + 1 < size1 &&
+                        !std::get<0>(input_no_data_policy).is_no_data(
+                            index_bottom)) {
                     // x c r
                     get(result, index_center) = gradient(
                         get(value, index_center),
@@ -238,8 +241,9 @@ static void gradient_y_2d(
     }
 
 
-    // Handle bottom border, in case it is within the index range.
-    for(size_t i = size1 - 1; i < index_ranges[0].end(); ++i) {
+    // Handle bottom border, in case it is within the index range. A single
+    // row is both the top and the bottom border and is already handled.
+    for(size_t i = size1 - 1; size1 > 1 && i < index_ranges[0].end(); ++i) {
 
         index_center = index(result, i, index_ranges[1].begin());
         index_top = index(result, i - 1, index_ranges[1].begin());
-- 
2.43.0


From 0b329fb920f834eda4fd68d65cd0f29e7114e8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:42 +0000
Subject: [PATCH 20/63] fix: DetectNoDataByValue detects NaN as the no-data
 value

NaN doesn't equal itself, so elements marked by MarkNoDataByValue with a
NaN marker value were never detected.
---
 .../policy/detect_no_data_by_value.h          | 26 ++++++++++++++++---
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/source/fern/algorithm/policy/detect_no_data_by_value.h b/source/fern/algorithm/policy/detect_no_data_by_value.h
index cb864ee..2b6e622 100644
--- a/source/fern/algorithm/policy/detect_no_data_by_value.h
+++ b/source/fern/algorithm/policy/detect_no_data_by_value.h
@@ -72,6 +72,8 @@ protected:
 
 private:
 
+    bool           is_no_data_value    (value_type const& value) const;
+
     Mask const&    _mask;
 
     value_type     _no_data_value;
@@ -106,12 +108,28 @@ inline DetectNoDataByValue<Mask>::
 }
 
 
+/*!
+    @brief      Return whether @a value is the special marker value.
+
+    NaN doesn't equal itself, but it is a marker value like any other.
+*/
+template<
+    typename Mask>
+inline bool DetectNoDataByValue<Mask>::is_no_data_value(
+    value_type const& value) const
+{
+    return is_equal(value, _no_data_value) || (
+        is_not_equal(value, value) &&
+        is_not_equal(_no_data_value, _no_data_value));
+}
+
+
 template<
     typename Mask>
 inline bool DetectNoDataByValue<Mask>
         ::is_no_data() const
 {
-    return get(_mask) == _no_data_value;
+    return is_no_data_value(get(_mask));
 }
 
 
@@ -120,7 +138,7 @@ template<
 inline bool DetectNoDataByValue<Mask>::is_no_data(
     size_t index) const
 {
-    return is_equal(get(_mask, index), _no_data_value);
+    return is_no_data_value(get(_mask, index));
 }
 
 
@@ -130,7 +148,7 @@ inline bool DetectNoDataByValue<Mask>::is_no_data(
     size_t index1,
     size_t index2) const
 {
-    return get(_mask, index1, index2) == _no_data_value;
+    return is_no_data_value(get(_mask, index1, index2));
 }
 
 
@@ -141,7 +159,7 @@ inline bool DetectNoDataByValue<Mask>::is_no_data(
     size_t index2,
     size_t index3) const
 {
-    return get(_mask, index1, index2, index3) == _no_data_value;
+    return is_no_data_value(get(_mask, index1, index2, index3));
 }
 
 } // namespace algorithm
-- 
2.43.0


From d49b5247e5d6bdc4470ba6be2e4739280521e2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:09 +0000
Subject: [PATCH 21/63] fix: raster: clone of three-dimensional rasters didn't
 compile

---
 source/fern/feature/core/data_customization_point/raster.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/fern/feature/core/data_customization_point/raster.h b/source/fern/feature/core/data_customization_point/raster.h
index 2f5d1e5..a253598 100644
--- a/source/fern/feature/core/data_customization_point/raster.h
+++ b/source/fern/feature/core/data_customization_point/raster.h
@@ -146,7 +146,7 @@ inline Raster<U, 3> clone(
     Raster<V, 3> const& raster)
 {
     return Raster<U, 3>(
-        extents[raster.shape()[0]][raster.shape()[1],raster.shape()[2]],
+        extents[raster.shape()[0]][raster.shape()[1]][raster.shape()[2]],
         raster.transformation());
 }
 
@@ -159,7 +159,7 @@ inline Raster<U, 3> clone(
     U const& value)
 {
     return Raster<U, 3>(
-        extents[raster.shape()[0]][raster.shape()[1],raster.shape()[2]],
+        extents[raster.shape()[0]][raster.shape()[1]][raster.shape()[2]],
         raster.transformation(), value);
 }
 
-- 
2.43.0


From c08fa4aa00afdc8c266899838236053df2869dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:28 +0000
Subject: [PATCH 22/63] fix: masked array: clone of three-dimensional arrays
 has the array's shape

---
 .../fern/feature/core/data_customization_point/masked_array.h   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/fern/feature/core/data_customization_point/masked_array.h b/source/fern/feature/core/data_customization_point/masked_array.h
index a936140..540c73b 100644
--- a/source/fern/feature/core/data_customization_point/masked_array.h
+++ b/source/fern/feature/core/data_customization_point/masked_array.h
@@ -124,7 +124,7 @@ inline MaskedArray<U, 3> clone(
     MaskedArray<V, 3> const& array)
 {
     return MaskedArray<U, 3>(
-        extents[array.shape()[0]][array.shape()[1]][array.shape()[1]]);
+        extents[array.shape()[0]][array.shape()[1]][array.shape()[2]]);
 }
 
 
-- 
2.43.0


From d8013d0366bf942074d2d757ba62fb3d8e9fc1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:17 +0000
Subject: [PATCH 23/63] fix: feature: number of attributes of the feature
 addressed by the path

---
 source/fern/language/feature/core/feature.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/fern/language/feature/core/feature.cc b/source/fern/language/feature/core/feature.cc
index 1c6f331..3a3c9c8 100644
--- a/source/fern/language/feature/core/feature.cc
+++ b/source/fern/language/feature/core/feature.cc
@@ -136,7 +136,9 @@ size_t Feature::nr_attributes() const
 size_t Feature::nr_attributes(
     Path const& path) const
 {
-    return parent_feature(path)->nr_attributes();
+    assert(contains_feature(path));
+
+    return feature(path)->nr_attributes();
 }
 
 
-- 
2.43.0


From d0a5bff740d2e064a0389cd613bb59133de86b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:17 +0000
Subject: [PATCH 24/63] fix: feature: asking for an absent attribute of a
 nested feature

---
 source/fern/language/feature/core/feature.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/source/fern/language/feature/core/feature.cc b/source/fern/language/feature/core/feature.cc
index 3a3c9c8..1f3aa1f 100644
--- a/source/fern/language/feature/core/feature.cc
+++ b/source/fern/language/feature/core/feature.cc
@@ -167,10 +167,18 @@ std::vector<std::string> Feature::attribute_names() const
 bool Feature::contains_attribute(
     Path const& path) const
 {
-    return path.parent_path().generic_string().empty()
-        ? _attributes.find(path.generic_string()) != _attributes.end()
-        : static_cast<bool>(attribute(path))
-        ;
+    if(path.parent_path().generic_string().empty()) {
+        return _attributes.find(path.generic_string()) != _attributes.end();
+    }
+
+    if(!contains_feature(path.parent_path())) {
+        return false;
+    }
+
+    auto const& attributes = feature(path.parent_path())->_attributes;
+
+    return attributes.find(path.filename().generic_string()) !=
+        attributes.end();
 }
 
 
-- 
2.43.0


From 902383bc706ffd89814c2eecfe40e810306ee0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:00 +0000
Subject: [PATCH 25/63] fix: feature: absolute paths to the feature's own
 features and attributes

---
 source/fern/language/feature/core/feature.cc | 37 ++++++++------------
 1 file changed, 14 insertions(+), 23 deletions(-)

diff --git a/source/fern/language/feature/core/feature.cc b/source/fern/language/feature/core/feature.cc
index 1f3aa1f..a556b21 100644
--- a/source/fern/language/feature/core/feature.cc
+++ b/source/fern/language/feature/core/feature.cc
@@ -56,10 +56,7 @@ std::vector<std::string> Feature::feature_names() const
 bool Feature::contains_feature(
     Path const& path) const
 {
-    return path.parent_path().generic_string().empty()
-        ? _features.find(path.generic_string()) != _features.end()
-        : static_cast<bool>(feature(path))
-        ;
+    return static_cast<bool>(feature(path));
 }
 
 
@@ -77,6 +74,7 @@ void Feature::add_feature(
     assert(!contains_attribute(path));
 
     Feature* parent_feature = this->parent_feature(path);
+    assert(parent_feature);
 
 #ifndef NDEBUG
     auto result =
@@ -167,18 +165,10 @@ std::vector<std::string> Feature::attribute_names() const
 bool Feature::contains_attribute(
     Path const& path) const
 {
-    if(path.parent_path().generic_string().empty()) {
-        return _attributes.find(path.generic_string()) != _attributes.end();
-    }
-
-    if(!contains_feature(path.parent_path())) {
-        return false;
-    }
-
-    auto const& attributes = feature(path.parent_path())->_attributes;
+    Feature const* parent_feature = this->parent_feature(path);
 
-    return attributes.find(path.filename().generic_string()) !=
-        attributes.end();
+    return parent_feature && parent_feature->_attributes.find(
+        path.filename().generic_string()) != parent_feature->_attributes.end();
 }
 
 
@@ -196,6 +186,7 @@ void Feature::add_attribute(
     assert(!contains_feature(path));
 
     Feature* parent_feature = this->parent_feature(path);
+    assert(parent_feature);
 
 #ifndef NDEBUG
     auto result =
@@ -214,6 +205,8 @@ void Feature::add_attribute(
 std::shared_ptr<Attribute> Feature::attribute(
     Path const& path) const
 {
+    assert(contains_attribute(path));
+
     return parent_feature(path)->_attributes.at(
         path.filename().generic_string());
 }
@@ -222,20 +215,18 @@ std::shared_ptr<Attribute> Feature::attribute(
 Feature* Feature::parent_feature(
     Path const& path)
 {
-    assert(path.parent_path().generic_string().empty() ||
-        contains_feature(path.parent_path()));
-    return path.parent_path().generic_string().empty()
-        ? this : feature(path.parent_path()).get();
+    auto names(path.parent_path().names());
+
+    return names.empty() ? this : feature(names).get();
 }
 
 
 Feature const* Feature::parent_feature(
     Path const& path) const
 {
-    assert(path.parent_path().generic_string().empty() ||
-        contains_feature(path.parent_path()));
-    return path.parent_path().generic_string().empty()
-        ? this : feature(path.parent_path()).get();
+    auto names(path.parent_path().names());
+
+    return names.empty() ? this : feature(names).get();
 }
 
 } // namespace language
-- 
2.43.0


From f495d48910e94add62b437721045f5d039200a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:05 +0000
Subject: [PATCH 26/63] fix: expression type: 16 bit signed integer arguments
 take part in the result's value type

---
 .../language/operation/core/expression_type_calculation.cc     | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/fern/language/operation/core/expression_type_calculation.cc b/source/fern/language/operation/core/expression_type_calculation.cc
index 5cf4682..c520d73 100644
--- a/source/fern/language/operation/core/expression_type_calculation.cc
+++ b/source/fern/language/operation/core/expression_type_calculation.cc
@@ -168,6 +168,9 @@ static ValueTypes result_value_type(
     else if(merged_argument_value_types.test(fern::VT_UINT16)) {
         result_value_type = ValueTypes::UINT16;
     }
+    else if(merged_argument_value_types.test(fern::VT_INT16)) {
+        result_value_type = ValueTypes::INT16;
+    }
     else if(merged_argument_value_types.test(fern::VT_UINT8)) {
         result_value_type = ValueTypes::UINT8;
     }
-- 
2.43.0


From 986c842f154ee1dfea70d3cd24fa02797c27cf9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:10 +0000
Subject: [PATCH 27/63] fix: file_exists: pathnames that cannot be accessed

---
 source/fern/io/core/file.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/source/fern/io/core/file.cc b/source/fern/io/core/file.cc
index 997eb45..8918faa 100644
--- a/source/fern/io/core/file.cc
+++ b/source/fern/io/core/file.cc
@@ -8,6 +8,7 @@
 // -----------------------------------------------------------------------------
 #include "fern/io/core/file.h"
 #include <filesystem>
+#include <system_error>
 
 
 namespace fern {
@@ -20,7 +21,11 @@ namespace io {
 bool file_exists(
     std::string const& pathname)
 {
-    return std::filesystem::exists(pathname);
+    // Don't let errors escape as exceptions. A pathname which status cannot
+    // be determined isn't accessible.
+    std::error_code error;
+
+    return std::filesystem::exists(pathname, error);
 }
 
 } // namespace io
-- 
2.43.0


From d2207876ea0dbee95dc6b2b79b04b0270a2fb7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:11 +0000
Subject: [PATCH 28/63] fix: netcdf: text attributes that are null terminated

---
 source/fern/io/netcdf/core/attribute.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/fern/io/netcdf/core/attribute.cc b/source/fern/io/netcdf/core/attribute.cc
index 6bb0300..e2bf25a 100644
--- a/source/fern/io/netcdf/core/attribute.cc
+++ b/source/fern/io/netcdf/core/attribute.cc
@@ -34,7 +34,11 @@ std::string attribute(
         buffer.data());
 
     assert(status == NC_NOERR);
-    assert(buffer.empty() || buffer.back() != '\0');
+
+    // Some writers include the terminating null character(s) in the value.
+    while(!buffer.empty() && buffer.back() == '\0') {
+        buffer.pop_back();
+    }
 
     return std::string(buffer.begin(), buffer.end());
 }
-- 
2.43.0


From 58a59881365dd2fd2212ea189d4d237e1f60a863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:46 +0000
Subject: [PATCH 29/63] fix: netcdf: conventions attributes that are not text

---
 source/fern/io/netcdf/core/attribute.cc | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/source/fern/io/netcdf/core/attribute.cc b/source/fern/io/netcdf/core/attribute.cc
index e2bf25a..e697fd6 100644
--- a/source/fern/io/netcdf/core/attribute.cc
+++ b/source/fern/io/netcdf/core/attribute.cc
@@ -65,13 +65,27 @@ bool has_attribute(
 }
 
 
+/*!
+    @brief      Return whether the value of global attribute @a name is text.
+*/
+static bool is_text_attribute(
+    DatasetHandle const& dataset,
+    std::string const& name)
+{
+    nc_type type_id;
+
+    return nc_inq_atttype(dataset.ncid(), NC_GLOBAL, name.c_str(),
+        &type_id) == NC_NOERR && type_id == NC_CHAR;
+}
+
+
 /*!
     @ingroup    fern_io_netcdf_group
     @brief      Return the value of the global attribute 'Conventions' as a
                 collection of strings.
 
-    If the dataset does not contain an global attribute called 'Convensions',
-    then an empty collection is returned.
+    If the dataset does not contain an global text attribute called
+    'Conventions', then an empty collection is returned.
 
     The value of the conventions attribute is a whitespace or comma
     separated list of convention names. If a comma is found in the attribute
@@ -87,7 +101,8 @@ std::vector<std::string> conventions(
 {
     std::vector<std::string> values;
 
-    if(has_attribute(dataset, "Conventions")) {
+    if(has_attribute(dataset, "Conventions") &&
+            is_text_attribute(dataset, "Conventions")) {
 
         // Get the attribute value as a string.
         std::string value{attribute<std::string>(dataset, "Conventions")};
-- 
2.43.0


From a301e0771a581fb1ccdfb3c2279c515502ed4cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:28 +0000
Subject: [PATCH 30/63] fix: netcdf: data names that do not address a variable

---
 source/fern/io/netcdf/coards/detail/read.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/fern/io/netcdf/coards/detail/read.h b/source/fern/io/netcdf/coards/detail/read.h
index d8dc702..8f3a29a 100644
--- a/source/fern/io/netcdf/coards/detail/read.h
+++ b/source/fern/io/netcdf/coards/detail/read.h
@@ -10,6 +10,7 @@
 #include <algorithm>
 #include <netcdf.h>
 #include "fern/core/io_error.h"
+#include "fern/core/string.h"
 #include "fern/core/type_traits.h"
 #include "fern/io/core/file.h"
 #include "fern/io/netcdf/core/attribute.h"
@@ -69,9 +70,10 @@ inline void read_coards(
 
 
     // Verify that the requested variable is in the dataset.
-    assert(data_name.data_pathname().names().size() == 1u);
-    std::string variable_name{data_name.data_pathname().names()[0]};
-    if(!contains_variable(handle, variable_name)) {
+    // Variables are not nested, they are addressed by a single name.
+    auto names(data_name.data_pathname().names());
+    std::string variable_name{join(names, "/")};
+    if(names.size() != 1u || !contains_variable(handle, variable_name)) {
         throw IOError(pathname,
             Exception::messages().format_message(
                 MessageId::DOES_NOT_CONTAIN_VARIABLE, variable_name));
-- 
2.43.0


From f52263ea940c6484903708c747e52b70771442f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:28 +0000
Subject: [PATCH 31/63] fix: netcdf: refuse variables of another value type
 with an IOError

---
 source/fern/io/netcdf/coards/detail/read.h |  9 +++-
 source/fern/io/netcdf/core/variable.cc     | 52 ++++++++++++++++++++++
 source/fern/io/netcdf/core/variable.h      |  8 ++++
 3 files changed, 67 insertions(+), 2 deletions(-)

diff --git a/source/fern/io/netcdf/coards/detail/read.h b/source/fern/io/netcdf/coards/detail/read.h
index 8f3a29a..3ee0634 100644
--- a/source/fern/io/netcdf/coards/detail/read.h
+++ b/source/fern/io/netcdf/coards/detail/read.h
@@ -91,8 +91,13 @@ inline void read_coards(
 
     // Verify that the requested variable has the same value type as the
     // variable passed in.
-    ValueType value_type = netcdf::value_type_id(handle, variable_id);
-    assert(fern::value_type_id<fern::value_type<Destination>>() == value_type);
+    if(!has_value_type(handle, variable_id,
+            fern::value_type_id<fern::value_type<Destination>>())) {
+        throw IOError(pathname,
+            Exception::messages().format_message(
+                MessageId::UNSUPPORTED_VALUE_TYPE, variable_name,
+                value_type_name(handle, variable_id)));
+    }
 
 
     // Read the variable.
diff --git a/source/fern/io/netcdf/core/variable.cc b/source/fern/io/netcdf/core/variable.cc
index 6341df7..ce04c0b 100644
--- a/source/fern/io/netcdf/core/variable.cc
+++ b/source/fern/io/netcdf/core/variable.cc
@@ -141,6 +141,58 @@ ValueType value_type_id(
     return value_type_id(type_id);
 }
 
+
+/*!
+    @ingroup    fern_io_netcdf_group
+    @brief      Return whether the value type of variable @a variable_id is
+                @a value_type.
+
+    Variables of a user defined type have none of our value types.
+
+    Assumptions:
+    - @a dataset corresponds with a valid open NetCDF dataset.
+    - @a variable_id corresponds with the id of a variable in the dataset.
+*/
+bool has_value_type(
+    DatasetHandle const& dataset,
+    int variable_id,
+    ValueType value_type)
+{
+    nc_type type_id;
+    int status = nc_inq_vartype(dataset.ncid(), variable_id, &type_id);
+    assert(status == NC_NOERR);
+
+    auto value_type_it = value_type_map.find(type_id);
+
+    return value_type_it != value_type_map.end() &&
+        value_type_it->second == value_type;
+}
+
+
+/*!
+    @ingroup    fern_io_netcdf_group
+    @brief      Return the name of the NetCDF type of variable
+                @a variable_id.
+
+    Assumptions:
+    - @a dataset corresponds with a valid open NetCDF dataset.
+    - @a variable_id corresponds with the id of a variable in the dataset.
+*/
+std::string value_type_name(
+    DatasetHandle const& dataset,
+    int variable_id)
+{
+    nc_type type_id;
+    int status = nc_inq_vartype(dataset.ncid(), variable_id, &type_id);
+    assert(status == NC_NOERR);
+
+    char name[NC_MAX_NAME + 1];
+    status = nc_inq_type(dataset.ncid(), type_id, name, nullptr);
+    assert(status == NC_NOERR);
+
+    return name;
+}
+
 } // namespace netcdf
 } // namespace io
 } // namespace fern
diff --git a/source/fern/io/netcdf/core/variable.h b/source/fern/io/netcdf/core/variable.h
index 4c0fbd9..cff0036 100644
--- a/source/fern/io/netcdf/core/variable.h
+++ b/source/fern/io/netcdf/core/variable.h
@@ -29,6 +29,14 @@ bool               variable_is_scalar  (DatasetHandle const& dataset,
 ValueType          value_type_id       (DatasetHandle const& dataset,
                                         int variable_id);
 
+bool               has_value_type      (DatasetHandle const& dataset,
+                                        int variable_id,
+                                        ValueType value_type);
+
+std::string        value_type_name     (DatasetHandle const& dataset,
+                                        int variable_id);
+
+
 /*!
     @ingroup    fern_io_netcdf_group
     @brief      Read variable @a variable_id from @a dataset into
-- 
2.43.0


From 1cc60104e523ae204aefd6cc8698bce259340019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:28 +0000
Subject: [PATCH 32/63] fix: netcdf: moving a dataset handle moves the
 ownership of the dataset

---
 source/fern/io/netcdf/core/dataset_handle.cc | 34 +++++++++++++++++++-
 source/fern/io/netcdf/core/dataset_handle.h  |  4 +--
 2 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/source/fern/io/netcdf/core/dataset_handle.cc b/source/fern/io/netcdf/core/dataset_handle.cc
index cc7785c..ea8e6d3 100644
--- a/source/fern/io/netcdf/core/dataset_handle.cc
+++ b/source/fern/io/netcdf/core/dataset_handle.cc
@@ -7,6 +7,7 @@
 // from Geoneric (http://www.geoneric.eu/contact).
 // -----------------------------------------------------------------------------
 #include "fern/io/netcdf/core/dataset_handle.h"
+#include <utility>
 #include <netcdf.h>
 
 
@@ -26,12 +27,43 @@ DatasetHandle::DatasetHandle(
 }
 
 
+/*!
+    @brief      Move construct an instance.
+
+    The dataset is closed by the new instance, not by @a other.
+*/
+DatasetHandle::DatasetHandle(
+    DatasetHandle&& other)
+
+    : _ncid(other._ncid)
+
+{
+    other._ncid = -1;
+}
+
+
+/*!
+    @brief      Move assign @a other to this instance.
+
+    The dataset of this instance is closed by @a other.
+*/
+DatasetHandle& DatasetHandle::operator=(
+    DatasetHandle&& other)
+{
+    std::swap(_ncid, other._ncid);
+
+    return *this;
+}
+
+
 /*!
     @brief      Destruct the instance, closing the NetCDF dataset.
 */
 DatasetHandle::~DatasetHandle()
 {
-    static_cast<void>(nc_close(_ncid));
+    if(_ncid != -1) {
+        static_cast<void>(nc_close(_ncid));
+    }
 }
 
 
diff --git a/source/fern/io/netcdf/core/dataset_handle.h b/source/fern/io/netcdf/core/dataset_handle.h
index 352f216..98dc01d 100644
--- a/source/fern/io/netcdf/core/dataset_handle.h
+++ b/source/fern/io/netcdf/core/dataset_handle.h
@@ -30,13 +30,13 @@ public:
 
                    DatasetHandle       (DatasetHandle const& other)=delete;
 
-                   DatasetHandle       (DatasetHandle&& other)=default;
+                   DatasetHandle       (DatasetHandle&& other);
 
                    ~DatasetHandle      ();
 
     DatasetHandle& operator=           (DatasetHandle const& other)=delete;
 
-    DatasetHandle& operator=           (DatasetHandle&& other)=default;
+    DatasetHandle& operator=           (DatasetHandle&& other);
 
     int            ncid                () const;
 
-- 
2.43.0


From c125e1a5e7c70437a24822eb90f04603ed1e1b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:28 +0000
Subject: [PATCH 33/63] fix: gdal: moving a dataset handle moves the ownership
 of the dataset

---
 source/fern/io/gdal/dataset_handle.cc | 34 ++++++++++++++++++++++++++-
 source/fern/io/gdal/dataset_handle.h  |  4 ++--
 2 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/source/fern/io/gdal/dataset_handle.cc b/source/fern/io/gdal/dataset_handle.cc
index 5a523d9..04c29f9 100644
--- a/source/fern/io/gdal/dataset_handle.cc
+++ b/source/fern/io/gdal/dataset_handle.cc
@@ -8,6 +8,7 @@
 // -----------------------------------------------------------------------------
 #include "fern/io/gdal/dataset_handle.h"
 #include <cassert>
+#include <utility>
 #include <gdal_priv.h>
 
 
@@ -28,12 +29,43 @@ DatasetHandle::DatasetHandle(
 }
 
 
+/*!
+    @brief      Move construct an instance.
+
+    The dataset is closed by the new instance, not by @a other.
+*/
+DatasetHandle::DatasetHandle(
+    DatasetHandle&& other)
+
+    : _dataset(other._dataset)
+
+{
+    other._dataset = nullptr;
+}
+
+
+/*!
+    @brief      Move assign @a other to this instance.
+
+    The dataset of this instance is closed by @a other.
+*/
+DatasetHandle& DatasetHandle::operator=(
+    DatasetHandle&& other)
+{
+    std::swap(_dataset, other._dataset);
+
+    return *this;
+}
+
+
 /*!
     @brief      Destruct the instance, closing the GDAL dataset.
 */
 DatasetHandle::~DatasetHandle()
 {
-    GDALClose(_dataset);
+    if(_dataset != nullptr) {
+        GDALClose(_dataset);
+    }
 }
 
 
diff --git a/source/fern/io/gdal/dataset_handle.h b/source/fern/io/gdal/dataset_handle.h
index 7206c85..f3abdfe 100644
--- a/source/fern/io/gdal/dataset_handle.h
+++ b/source/fern/io/gdal/dataset_handle.h
@@ -33,13 +33,13 @@ public:
 
                    DatasetHandle       (DatasetHandle const& other)=delete;
 
-                   DatasetHandle       (DatasetHandle&& other)=default;
+                   DatasetHandle       (DatasetHandle&& other);
 
                    ~DatasetHandle      ();
 
     DatasetHandle& operator=           (DatasetHandle const& other)=delete;
 
-    DatasetHandle& operator=           (DatasetHandle&& other)=default;
+    DatasetHandle& operator=           (DatasetHandle&& other);
 
     GDALDataset*   operator->          ();
 
-- 
2.43.0


From 0263c5a840fc71e3e60c8696b3ba7da2c37b09fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:28 +0000
Subject: [PATCH 34/63] fix: gdal: throw an IOError if a band has another value
 type or cannot be read

---
 source/fern/io/gdal/detail/read.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/source/fern/io/gdal/detail/read.h b/source/fern/io/gdal/detail/read.h
index 04d2552..ac23033 100644
--- a/source/fern/io/gdal/detail/read.h
+++ b/source/fern/io/gdal/detail/read.h
@@ -64,15 +64,20 @@ inline void read(
     // Verify that the elements in the raster to read have the same value
     // type as the variable passed in.
     GDALDataType gdal_value_type{band->GetRasterDataType()};
-    assert(ValueTypeTraits<value_type>::gdal_value_type == gdal_value_type);
 
-    // TODO Exception if not.
+    if(ValueTypeTraits<value_type>::gdal_value_type != gdal_value_type) {
+        throw IOError(data_name.database_pathname().native_string(),
+            Exception::messages().format_message(
+                MessageId::UNSUPPORTED_VALUE_TYPE,
+                data_name.data_pathname().generic_string(),
+                GDALGetDataTypeName(gdal_value_type)));
+    }
 
     if(band->RasterIO(GF_Read, 0, 0, nr_cols, nr_rows, data(destination),
             nr_cols, nr_rows, ValueTypeTraits<value_type>::gdal_value_type,
             0, 0) != CE_None) {
-        // TODO
-        assert(false);
+        throw IOError(data_name.database_pathname().native_string(),
+            Exception::messages()[MessageId::CANNOT_BE_READ]);
     }
 
 
-- 
2.43.0


From eb6e866476cb395a95796c87ad5efb8aee7e3721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:46 +0000
Subject: [PATCH 35/63] fix: gdal: throw an IOError if a dataset has no such
 band

---
 source/fern/io/gdal/dataset.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/source/fern/io/gdal/dataset.cc b/source/fern/io/gdal/dataset.cc
index ac8499c..eba8865 100644
--- a/source/fern/io/gdal/dataset.cc
+++ b/source/fern/io/gdal/dataset.cc
@@ -65,8 +65,8 @@ DatasetHandle open_dataset(
     @ingroup    fern_io_gdal_group
     @brief      Return the GDAL raster band @a band_id from @a dataset.
     @param      band_id Id of the raster band to return.
-    @todo       Raise IOError in case @a dataset does not contain a raster
-                band with id @a band_id.
+    @exception  IOError In case @a dataset does not contain a raster band
+                with id @a band_id.
 */
 GDALRasterBand* raster_band(
     DatasetHandle& dataset,
@@ -77,7 +77,10 @@ GDALRasterBand* raster_band(
     int nr_bands{dataset->GetRasterCount()};
 
     if(band_id > nr_bands) {
-        assert(false);
+        throw IOError(dataset->GetDescription(),
+            Exception::messages().format_message(
+                MessageId::DOES_NOT_CONTAIN_DATA,
+                "band " + std::to_string(band_id)));
     }
 
     GDALRasterBand* band{dataset->GetRasterBand(band_id)};
-- 
2.43.0


From df42af5dd9087c47e26441fac560f2c6dfc09c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:46 +0000
Subject: [PATCH 36/63] fix: gdal: no-data values that are NaN or out of range
 of the band's type

---
 source/fern/io/gdal/detail/read.h | 39 ++++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/source/fern/io/gdal/detail/read.h b/source/fern/io/gdal/detail/read.h
index ac23033..5382b09 100644
--- a/source/fern/io/gdal/detail/read.h
+++ b/source/fern/io/gdal/detail/read.h
@@ -7,6 +7,8 @@
 // from Geoneric (http://www.geoneric.eu/contact).
 // -----------------------------------------------------------------------------
 #pragma once
+#include <cmath>
+#include <type_traits>
 #include <gdal_priv.h>
 #include "fern/core/io_error.h"
 #include "fern/io/gdal/dataset.h"
@@ -18,6 +20,38 @@ namespace io {
 namespace gdal {
 namespace detail {
 
+/*!
+    @brief      Return whether @a value equals @a no_data_value.
+
+    GDAL represents no-data values by doubles, whatever the type of the
+    values. Such a value may be NaN, and it may be out of range of @a Value.
+*/
+template<
+    typename Value
+>
+inline bool is_no_data(
+    Value const& value,
+    double const no_data_value)
+{
+    if constexpr(std::is_floating_point<Value>::value) {
+        if(std::isnan(no_data_value)) {
+            return std::isnan(value);
+        }
+
+        // The no-data value may have been rounded.
+        Value const rounded_no_data_value{static_cast<Value>(no_data_value)};
+
+        return value == rounded_no_data_value &&
+            std::isfinite(rounded_no_data_value) ==
+                std::isfinite(no_data_value);
+    }
+    else {
+        // All integral values that are supported can be represented.
+        return static_cast<double>(value) == no_data_value;
+    }
+}
+
+
 template<
     typename OutputNoDataPolicy,
     typename Destination
@@ -82,8 +116,7 @@ inline void read(
 
 
     int has_no_data;
-    value_type gdal_no_data_value{static_cast<value_type>(
-        band->GetNoDataValue(&has_no_data))};
+    double const gdal_no_data_value{band->GetNoDataValue(&has_no_data)};
 
     // If the raster dataset contains a special no-data value,
     // then mark those special values as no-data values.
@@ -94,7 +127,7 @@ inline void read(
             index_ = index(destination, i, 0);
 
             for(size_t j = 0; j < size(destination, 1); ++j) {
-                if(get(destination, index_) == gdal_no_data_value) {
+                if(is_no_data(get(destination, index_), gdal_no_data_value)) {
                     output_no_data_policy.mark_as_no_data(index_);
                 }
 
-- 
2.43.0


From 21cde3a915d6b15157b8147f26c66ab0133acd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:05 +0000
Subject: [PATCH 37/63] fix: refuse a valid XML document that is not a GPX
 document of the expected version with a ParseError

---
 source/fern/io/xml/parse.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/fern/io/xml/parse.h b/source/fern/io/xml/parse.h
index 8e477db..de48a73 100644
--- a/source/fern/io/xml/parse.h
+++ b/source/fern/io/xml/parse.h
@@ -7,6 +7,7 @@
 // from Geoneric (http://www.geoneric.eu/contact).
 // -----------------------------------------------------------------------------
 #include <fstream>
+#include <sstream>
 #include <fern/core/io_error.h>
 #include <fern/core/parse_error.h>
 #include <fern/io/core/file.h>
@@ -64,6 +65,13 @@ inline auto parse(
             exception.diagnostics()[0].column(),
             exception.diagnostics()[0].message());
     }
+    catch(xml_schema::exception const& exception) {
+        // Valid, but not the document we are looking for. There is no
+        // information about the position available.
+        std::ostringstream message;
+        message << exception;
+        throw ParseError(pathname, 0, 0, message.str());
+    }
 
 
     assert(document);
-- 
2.43.0


From 3df5ba2bb2d964c45c7ec781d8e4b6c6cfe942d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:06 +0000
Subject: [PATCH 38/63] fix: refuse an uncertainty document with a variance
 that is not positive, instead of aborting

---
 source/fern/language/io/uncertml2/uncertml2_parser.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/fern/language/io/uncertml2/uncertml2_parser.cc b/source/fern/language/io/uncertml2/uncertml2_parser.cc
index 4a71876..73215f7 100644
--- a/source/fern/language/io/uncertml2/uncertml2_parser.cc
+++ b/source/fern/language/io/uncertml2/uncertml2_parser.cc
@@ -106,7 +106,11 @@ public:
     void item(
         double value)
     {
-        assert(value > 0.0);
+        if(!(value > 0.0)) {
+            throw xsd::cxx::parser::validating::invalid_value<char>(
+                "positiveRealNumber", std::to_string(value));
+        }
+
         _values.emplace_back(value);
     }
 
-- 
2.43.0


From 588ef0a7bb39d04b258436a3a222a7e47367b479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:29 +0000
Subject: [PATCH 39/63] fix: refuse an uncertainty document with other than one
 mean and one variance, instead of aborting

---
 .../language/io/uncertml2/uncertml2_parser.cc    | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/source/fern/language/io/uncertml2/uncertml2_parser.cc b/source/fern/language/io/uncertml2/uncertml2_parser.cc
index 73215f7..666d693 100644
--- a/source/fern/language/io/uncertml2/uncertml2_parser.cc
+++ b/source/fern/language/io/uncertml2/uncertml2_parser.cc
@@ -29,12 +29,14 @@ public:
     void mean(
         std::vector<double> const& values)
     {
+        require_single_value("mean", values);
         _means = values;
     }
 
     void variance(
         std::vector<double> const& values)
     {
+        require_single_value("variance", values);
         _variances = values;
     }
 
@@ -50,6 +52,20 @@ public:
 
 private:
 
+    //! Throw exception in case \a values does not contain a single value.
+    /*!
+      Collections of distributions are not supported.
+    */
+    static void require_single_value(
+        std::string const& name,
+        std::vector<double> const& values)
+    {
+        if(values.size() != 1) {
+            throw xsd::cxx::parser::validating::invalid_value<char>(name,
+                "list of " + std::to_string(values.size()) + " values");
+        }
+    }
+
     std::vector<double> _means;
 
     std::vector<double> _variances;
-- 
2.43.0


From 451e65d4e92b45177fd9580ccdccd02aeed361a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:12 +0000
Subject: [PATCH 40/63] fix: read nested subscripts and attributes from XML,
 instead of aborting

---
 source/fern/language/ast/xml/xml_parser.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/fern/language/ast/xml/xml_parser.cc b/source/fern/language/ast/xml/xml_parser.cc
index fd29651..930343d 100644
--- a/source/fern/language/ast/xml/xml_parser.cc
+++ b/source/fern/language/ast/xml/xml_parser.cc
@@ -892,7 +892,7 @@ public:
     void Expression(
         std::shared_ptr<ExpressionVertex> const& vertex)
     {
-        assert(_data_stack.size() == 1);
+        assert(!_data_stack.empty());
         if(!_data_stack.top().expression) {
             _data_stack.top().expression = vertex;
         }
@@ -939,7 +939,7 @@ public:
     void Expression(
         std::shared_ptr<ExpressionVertex> const& vertex)
     {
-        assert(_data_stack.size() == 1);
+        assert(!_data_stack.empty());
         assert(!_data_stack.top().expression);
         _data_stack.top().expression = vertex;
     }
@@ -947,14 +947,14 @@ public:
     void Name(
         std::string const& name)
     {
-        assert(_data_stack.size() == 1);
+        assert(!_data_stack.empty());
         assert(_data_stack.top().member_name.empty());
         _data_stack.top().member_name = name;
     }
 
     std::shared_ptr<ExpressionVertex> post_Attribute()
     {
-        assert(_data_stack.size() == 1);
+        assert(!_data_stack.empty());
         AttributeData result(_data_stack.top());
         _data_stack.pop();
         return std::shared_ptr<AttributeVertex>(
-- 
2.43.0


From cee4cc67d5a816ebd12c821219a3ec9ae9ae3ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:43 +0000
Subject: [PATCH 41/63] fix: name a number vertex of 8 bits after its value,
 not after the character with that code

---
 source/fern/language/ast/core/number_vertex.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/fern/language/ast/core/number_vertex.cc b/source/fern/language/ast/core/number_vertex.cc
index bc6dc14..ee920f9 100644
--- a/source/fern/language/ast/core/number_vertex.cc
+++ b/source/fern/language/ast/core/number_vertex.cc
@@ -17,7 +17,7 @@ template<typename T>
 NumberVertex<T>::NumberVertex(
     T value)
 
-    : ExpressionVertex((boost::format("%1%") % value).str()),
+    : ExpressionVertex((boost::format("%1%") % +value).str()),
       _value(value)
 
 {
@@ -30,7 +30,7 @@ NumberVertex<T>::NumberVertex(
     int col_id,
     T value)
 
-    : ExpressionVertex(line_nr, col_id, (boost::format("%1%") % value).str()),
+    : ExpressionVertex(line_nr, col_id, (boost::format("%1%") % +value).str()),
       _value(value)
 
 {
-- 
2.43.0


From 859eb8bc1909cdc63ecdcbf0be6250ed6ee57d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:03 +0000
Subject: [PATCH 42/63] fix: refuse a number of unsupported size in XML,
 instead of aborting

---
 source/fern/language/ast/xml/xml_parser.cc | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/source/fern/language/ast/xml/xml_parser.cc b/source/fern/language/ast/xml/xml_parser.cc
index 930343d..b31d7db 100644
--- a/source/fern/language/ast/xml/xml_parser.cc
+++ b/source/fern/language/ast/xml/xml_parser.cc
@@ -17,6 +17,11 @@
 namespace fern {
 namespace language {
 
+// Thrown when a value is valid according to the schema, but not supported. It
+// ends up as a parsing error, with the position in the document.
+using InvalidValue = xsd::cxx::parser::validating::invalid_value<char>;
+
+
 class Fern_pimpl:
     public Fern_pskel
 {
@@ -581,9 +586,7 @@ public:
                 break;
             }
             default: {
-                assert(false);
-                // TODO raise exception
-                break;
+                throw InvalidValue("Size", std::to_string(_size));
             }
         }
 
@@ -649,9 +652,7 @@ public:
                 break;
             }
             default: {
-                assert(false);
-                // TODO raise exception
-                break;
+                throw InvalidValue("Size", std::to_string(_size));
             }
         }
 
@@ -709,9 +710,7 @@ public:
                 break;
             }
             default: {
-                assert(false);
-                // TODO raise exception
-                break;
+                throw InvalidValue("Size", std::to_string(_size));
             }
         }
 
-- 
2.43.0


From d49aa1328755b671f37d25c58d961154fc641e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:30 +0000
Subject: [PATCH 43/63] fix: refuse an unknown operator in XML, instead of
 aborting

---
 source/fern/language/ast/core/operator_vertex.cc | 15 +++++++++++++++
 source/fern/language/ast/core/operator_vertex.h  |  3 +++
 source/fern/language/ast/xml/xml_parser.cc       |  6 ++++++
 3 files changed, 24 insertions(+)

diff --git a/source/fern/language/ast/core/operator_vertex.cc b/source/fern/language/ast/core/operator_vertex.cc
index 9732282..6b8f131 100644
--- a/source/fern/language/ast/core/operator_vertex.cc
+++ b/source/fern/language/ast/core/operator_vertex.cc
@@ -79,6 +79,21 @@ OperatorVertex::OperatorVertex(
 }
 
 
+/*!
+  \return    Whether there is an operator called \a name that takes
+             \a nr_operands operands.
+*/
+bool OperatorVertex::exists(
+    std::string const& name,
+    size_t nr_operands)
+{
+    auto const it = operator_symbols.find(nr_operands);
+
+    return it != operator_symbols.end() &&
+        it->second.find(name) != it->second.end();
+}
+
+
 std::string const& OperatorVertex::symbol() const
 {
     return _symbol;
diff --git a/source/fern/language/ast/core/operator_vertex.h b/source/fern/language/ast/core/operator_vertex.h
index 89e93d9..30fe2c4 100644
--- a/source/fern/language/ast/core/operator_vertex.h
+++ b/source/fern/language/ast/core/operator_vertex.h
@@ -29,6 +29,9 @@ public:
 
     LOKI_DEFINE_VISITABLE()
 
+    static bool    exists              (std::string const& name,
+                                        size_t nr_operands);
+
                    OperatorVertex      (std::string const& name,
                                         ExpressionVertices const& expressions);
 
diff --git a/source/fern/language/ast/xml/xml_parser.cc b/source/fern/language/ast/xml/xml_parser.cc
index b31d7db..4c7f872 100644
--- a/source/fern/language/ast/xml/xml_parser.cc
+++ b/source/fern/language/ast/xml/xml_parser.cc
@@ -856,6 +856,12 @@ public:
         assert(!_data_stack.empty());
         OperatorData result(_data_stack.top());
         _data_stack.pop();
+
+        if(!OperatorVertex::exists(result.name,
+                result.expression_vertices.size())) {
+            throw InvalidValue("Operator", result.name);
+        }
+
         return std::shared_ptr<OperatorVertex>(
             std::make_shared<OperatorVertex>(result.name,
                 result.expression_vertices));
-- 
2.43.0


From a6f0fe7854862fb80165295b11179a22ea941616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:48 +0000
Subject: [PATCH 44/63] fix: refuse an empty block in XML that must have
 statements, instead of aborting

---
 source/fern/language/ast/xml/xml_parser.cc | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/source/fern/language/ast/xml/xml_parser.cc b/source/fern/language/ast/xml/xml_parser.cc
index 4c7f872..8885641 100644
--- a/source/fern/language/ast/xml/xml_parser.cc
+++ b/source/fern/language/ast/xml/xml_parser.cc
@@ -22,6 +22,16 @@ namespace language {
 using InvalidValue = xsd::cxx::parser::validating::invalid_value<char>;
 
 
+static void require_statements(
+    std::string const& name,
+    std::vector<std::shared_ptr<StatementVertex>> const& statements)
+{
+    if(statements.empty()) {
+        throw InvalidValue(name, "block without statements");
+    }
+}
+
+
 class Fern_pimpl:
     public Fern_pskel
 {
@@ -156,7 +166,7 @@ public:
             const& statements)
     {
         if(!_data_stack.top().true_scope) {
-            assert(!statements.empty());
+            require_statements("If", statements);
             assert(!_data_stack.top().false_scope);
             _data_stack.top().true_scope = std::make_shared<ScopeVertex>(
                 statements);
@@ -215,7 +225,7 @@ public:
             const& statements)
     {
         if(!_data_stack.top().true_scope) {
-            assert(!statements.empty());
+            require_statements("While", statements);
             assert(!_data_stack.top().false_scope);
             _data_stack.top().true_scope = std::make_shared<ScopeVertex>(
                 statements);
@@ -282,7 +292,7 @@ public:
         std::vector<std::shared_ptr<StatementVertex>>
             const& statements)
     {
-        assert(!statements.empty());
+        require_statements("FunctionDefinition", statements);
         _data_stack.top().scope_vertex = std::make_shared<ScopeVertex>(
             statements);
     }
-- 
2.43.0


From c74ac914f07c4267b6d0f428f174ecc8a1e88e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:52 +0000
Subject: [PATCH 45/63] fix: refuse a number in XML that does not fit its size,
 instead of changing its value

---
 source/fern/language/ast/xml/xml_parser.cc | 40 +++++++++++++---------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/source/fern/language/ast/xml/xml_parser.cc b/source/fern/language/ast/xml/xml_parser.cc
index 8885641..c0e18ad 100644
--- a/source/fern/language/ast/xml/xml_parser.cc
+++ b/source/fern/language/ast/xml/xml_parser.cc
@@ -7,6 +7,7 @@
 // from Geoneric (http://www.geoneric.eu/contact).
 // -----------------------------------------------------------------------------
 #include "fern/language/ast/xml/xml_parser.h"
+#include <limits>
 #include <sstream>
 #include <stack>
 #include "fern/core/exception.h"
@@ -546,6 +547,21 @@ private:
 };
 
 
+template<
+    typename T,
+    typename Value>
+std::shared_ptr<ExpressionVertex> number_vertex(
+    Value value)
+{
+    if(value < std::numeric_limits<T>::min() ||
+            value > std::numeric_limits<T>::max()) {
+        throw InvalidValue("Value", std::to_string(value));
+    }
+
+    return std::make_shared<NumberVertex<T>>(value);
+}
+
+
 class Integer_pimpl:
     public Integer_pskel
 {
@@ -576,23 +592,19 @@ public:
 
         switch(_size) {
             case 8: {
-                result = std::shared_ptr<ExpressionVertex>(
-                    std::make_shared<NumberVertex<int8_t>>(_value));
+                result = number_vertex<int8_t>(_value);
                 break;
             }
             case 16: {
-                result = std::shared_ptr<ExpressionVertex>(
-                    std::make_shared<NumberVertex<int16_t>>(_value));
+                result = number_vertex<int16_t>(_value);
                 break;
             }
             case 32: {
-                result = std::shared_ptr<ExpressionVertex>(
-                    std::make_shared<NumberVertex<int32_t>>(_value));
+                result = number_vertex<int32_t>(_value);
                 break;
             }
             case 64: {
-                result = std::shared_ptr<ExpressionVertex>(
-                    std::make_shared<NumberVertex<int64_t>>(_value));
+                result = number_vertex<int64_t>(_value);
                 break;
             }
             default: {
@@ -642,23 +654,19 @@ public:
 
         switch(_size) {
             case 8: {
-                result = std::shared_ptr<ExpressionVertex>(
-                    std::make_shared<NumberVertex<uint8_t>>(_value));
+                result = number_vertex<uint8_t>(_value);
                 break;
             }
             case 16: {
-                result = std::shared_ptr<ExpressionVertex>(
-                    std::make_shared<NumberVertex<uint16_t>>(_value));
+                result = number_vertex<uint16_t>(_value);
                 break;
             }
             case 32: {
-                result = std::shared_ptr<ExpressionVertex>(
-                    std::make_shared<NumberVertex<uint32_t>>(_value));
+                result = number_vertex<uint32_t>(_value);
                 break;
             }
             case 64: {
-                result = std::shared_ptr<ExpressionVertex>(
-                    std::make_shared<NumberVertex<uint64_t>>(_value));
+                result = number_vertex<uint64_t>(_value);
                 break;
             }
             default: {
-- 
2.43.0


From 79dfc51761ac660f3226f5a9a1b27bce41bbe545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:31 +0000
Subject: [PATCH 46/63] fix: thread a return statement in an if block, or
 before a function definition, instead of aborting

---
 .../language/ast/visitor/thread_visitor.cc    | 24 +++++++------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/source/fern/language/ast/visitor/thread_visitor.cc b/source/fern/language/ast/visitor/thread_visitor.cc
index 5c32a66..724bd14 100644
--- a/source/fern/language/ast/visitor/thread_visitor.cc
+++ b/source/fern/language/ast/visitor/thread_visitor.cc
@@ -287,6 +287,13 @@ void ThreadVisitor::Visit(
             // Visit(ScopeVertex) for more info.
             _last_vertex->set_successor(
                 &*_function_definitions.top()->scope()->sentinel());
+
+            // Subsequent statements are threaded but they are not connected
+            // to the control flow graph. This is the reason that leave
+            // vertices (expressions, return statement) have to test whether
+            // _last_vertex is not null before attaching (they call
+            // thread_to(AstVertex)).
+            _last_vertex = nullptr;
             break;
         }
     }
@@ -407,27 +414,12 @@ void ThreadVisitor::Visit(
 
         for(auto statementVertex: vertex.statements()) {
             statementVertex->Accept(*this);
-            assert(_last_vertex);
-            // Iff the last vertex' successor is the sentinel of this scope,
-            // then the last statement was the return statement, which
-            // explicitly connected to the sentinel. In that case we reset
-            // the _last_vertex pointer to null. Subsequent statements are
-            // threaded but they are not connected to the control flow graph.
-            // This is the reason that leave vertices (expressions,
-            // return statement) have to test whether _last_vertex is not
-            // null before attaching (they call thread_to(AstVertex)).
-            if(_last_vertex->has_successor()) {
-                assert(_last_vertex->successor() == &*vertex.sentinel());
-                _last_vertex = nullptr;
-            }
         }
 
         // If _last_vertex is the null vertex, then the last statement was
         // a return statement which is already connected to the sentinel
-        // vertex. Otherwise, just visit the sentinel vertex.
+        // vertex of the function. Otherwise, just visit the sentinel vertex.
         if(!_last_vertex) {
-            assert(vertex.statements().back()->successor() ==
-                &*vertex.sentinel());
             _last_vertex = &*vertex.sentinel();
         }
         else {
-- 
2.43.0


From 67827493a86d7162a048596713bbb4b0e373efd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:31 +0000
Subject: [PATCH 47/63] fix: arguments and names of a function are local to it,
 when identifying names

---
 .../language/ast/visitor/identify_visitor.cc     | 16 ++++++++++++++++
 .../fern/language/ast/visitor/identify_visitor.h |  2 ++
 2 files changed, 18 insertions(+)

diff --git a/source/fern/language/ast/visitor/identify_visitor.cc b/source/fern/language/ast/visitor/identify_visitor.cc
index b8157ca..21d61ca 100644
--- a/source/fern/language/ast/visitor/identify_visitor.cc
+++ b/source/fern/language/ast/visitor/identify_visitor.cc
@@ -51,6 +51,22 @@ void IdentifyVisitor::Visit(
 }
 
 
+void IdentifyVisitor::Visit(
+    FunctionDefinitionVertex& vertex)
+{
+    // The arguments and the names defined by the statements are local to the
+    // function.
+    _symbol_table.push_scope();
+
+    _mode = Mode::Defining;
+    visit_expressions(vertex.arguments());
+    _mode = Mode::Using;
+
+    visit_statements(vertex.scope()->statements());
+    _symbol_table.pop_scope();
+}
+
+
 void IdentifyVisitor::Visit(
     NameVertex& vertex)
 {
diff --git a/source/fern/language/ast/visitor/identify_visitor.h b/source/fern/language/ast/visitor/identify_visitor.h
index 34ee44e..99da622 100644
--- a/source/fern/language/ast/visitor/identify_visitor.h
+++ b/source/fern/language/ast/visitor/identify_visitor.h
@@ -68,6 +68,8 @@ private:
 
     void           Visit               (FunctionCallVertex&);
 
+    void           Visit               (FunctionDefinitionVertex&);
+
     void           Visit               (IfVertex&);
 
     void           Visit               (NameVertex&);
-- 
2.43.0


From f6f9a3a741d40666172bd49478877231612659c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:31 +0000
Subject: [PATCH 48/63] fix: names in the selection of an assignment's target
 are uses, not definitions

---
 .../language/ast/visitor/identify_visitor.cc  | 20 ++++++++++++-------
 .../language/ast/visitor/identify_visitor.h   |  2 +-
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/source/fern/language/ast/visitor/identify_visitor.cc b/source/fern/language/ast/visitor/identify_visitor.cc
index 21d61ca..fa0045b 100644
--- a/source/fern/language/ast/visitor/identify_visitor.cc
+++ b/source/fern/language/ast/visitor/identify_visitor.cc
@@ -119,13 +119,19 @@ void IdentifyVisitor::Visit(
 }
 
 
-// Default behavior of AstVisitor already.
-// void IdentifyVisitor::Visit(
-//     SubscriptVertex& vertex)
-// {
-//     vertex.expression()->Accept(*this);
-//     vertex.selection()->Accept(*this);
-// }
+void IdentifyVisitor::Visit(
+    SubscriptVertex& vertex)
+{
+    // In case of an assignment, only the subscripted expression is defined.
+    // The selection always uses names, defined before the assignment.
+    Mode const mode = _mode;
+
+    _mode = Mode::Using;
+    vertex.selection()->Accept(*this);
+
+    _mode = mode;
+    vertex.expression()->Accept(*this);
+}
 
 
 void IdentifyVisitor::Visit(
diff --git a/source/fern/language/ast/visitor/identify_visitor.h b/source/fern/language/ast/visitor/identify_visitor.h
index 99da622..214552a 100644
--- a/source/fern/language/ast/visitor/identify_visitor.h
+++ b/source/fern/language/ast/visitor/identify_visitor.h
@@ -78,7 +78,7 @@ private:
 
     void           Visit               (ModuleVertex&);
 
-    // void           Visit               (SubscriptVertex&);
+    void           Visit               (SubscriptVertex&);
 
     void           Visit               (WhileVertex&);
 
-- 
2.43.0


From 19562943671df2fbc3bc2025b3af066fc5194f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:58 +0000
Subject: [PATCH 49/63] fix: types of arguments were passed to operations in
 reverse order

---
 source/fern/language/ast/visitor/annotate_visitor.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/source/fern/language/ast/visitor/annotate_visitor.cc b/source/fern/language/ast/visitor/annotate_visitor.cc
index 1679cef..1dfd695 100644
--- a/source/fern/language/ast/visitor/annotate_visitor.cc
+++ b/source/fern/language/ast/visitor/annotate_visitor.cc
@@ -149,11 +149,12 @@ void AnnotateVisitor::Visit(
     AstVisitor::Visit(vertex);
 
 
-    // Get the result types from all argument expressions provided.
-    std::vector<ExpressionType> argument_types;
-    for(size_t i = 0; i < vertex.expressions().size(); ++i) {
+    // Get the result types from all argument expressions provided. The last
+    // argument is on the top of the stack.
+    std::vector<ExpressionType> argument_types(vertex.expressions().size());
+    for(size_t i = argument_types.size(); i > 0; --i) {
         assert(!_stack.empty());
-        argument_types.emplace_back(_stack.top());
+        argument_types[i - 1] = _stack.top();
         _stack.pop();
     }
 
-- 
2.43.0


From 8a9fbf1d64cdbb8fbf728fa48e4fa32251fb90d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:58 +0000
Subject: [PATCH 50/63] fix: assigning to a name again no longer removes other
 names from the outputs of a module

---
 source/fern/language/ast/visitor/io_visitor.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/source/fern/language/ast/visitor/io_visitor.cc b/source/fern/language/ast/visitor/io_visitor.cc
index 05b333a..156cfbb 100644
--- a/source/fern/language/ast/visitor/io_visitor.cc
+++ b/source/fern/language/ast/visitor/io_visitor.cc
@@ -74,8 +74,15 @@ void IOVisitor::Visit(
                     _output_id_by_name.end()) {
                 // This identifier is already stored as a result.
                 // Remove it first. We want to store this latter occurence.
-                _outputs.erase(_outputs.begin() + _output_id_by_name[
-                    vertex.name()]);
+                size_t const id = _output_id_by_name[vertex.name()];
+                _outputs.erase(_outputs.begin() + id);
+
+                // The outputs following the removed one moved up.
+                for(auto& pair: _output_id_by_name) {
+                    if(pair.second > id) {
+                        --pair.second;
+                    }
+                }
             }
 
             _output_id_by_name[vertex.name()] = _outputs.size();
-- 
2.43.0


From 577fe363ddb281cbd96b652ebd321a1d7d57929b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:58 +0000
Subject: [PATCH 51/63] fix: names that are defined by a module before they are
 used are not inputs

---
 source/fern/language/ast/visitor/io_visitor.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/fern/language/ast/visitor/io_visitor.cc b/source/fern/language/ast/visitor/io_visitor.cc
index 156cfbb..20821a0 100644
--- a/source/fern/language/ast/visitor/io_visitor.cc
+++ b/source/fern/language/ast/visitor/io_visitor.cc
@@ -62,7 +62,10 @@ void IOVisitor::Visit(
 {
     switch(_mode) {
         case Mode::Using: {
-            if(std::find(_inputs.begin(), _inputs.end(), vertex.name()) ==
+            // A defined identifier is not an input.
+            if(_output_id_by_name.find(vertex.name()) ==
+                    _output_id_by_name.end() &&
+                    std::find(_inputs.begin(), _inputs.end(), vertex.name()) ==
                     _inputs.end()) {
                 _inputs.emplace_back(vertex.name());
             }
-- 
2.43.0


From 01d70beada62a6d8d25c791c6c2c71496fa9ba71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:58 +0000
Subject: [PATCH 52/63] fix: the action of a ScopeExit that is moved is called
 once

---
 source/fern/core/scope_exit.h | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/source/fern/core/scope_exit.h b/source/fern/core/scope_exit.h
index 343b07d..78685d1 100644
--- a/source/fern/core/scope_exit.h
+++ b/source/fern/core/scope_exit.h
@@ -69,7 +69,7 @@ public:
 
                    ScopeExit           (ScopeExit const& other)=delete;
 
-                   ScopeExit           (ScopeExit&& other)=default;
+                   ScopeExit           (ScopeExit&& other);
 
                    ~ScopeExit          () noexcept(noexcept(_function));
 
@@ -100,6 +100,24 @@ inline ScopeExit<Function>::ScopeExit(
 }
 
 
+/*!
+    @brief      Move construct an instance.
+
+    The responsibility to call the layered function moves along.
+*/
+template<
+    typename Function>
+inline ScopeExit<Function>::ScopeExit(
+    ScopeExit&& other)
+
+    : _function(std::move(other._function)),
+      _execute_on_destruction(other._execute_on_destruction)
+
+{
+    other.release();
+}
+
+
 /*!
     @brief      Destruct the instance.
 
-- 
2.43.0


From a060e4382d34ca111e06c6914b52f738f512b128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:58 +0000
Subject: [PATCH 53/63] fix: write 8-bit numbers as numbers, not as characters

---
 source/fern/language/ast/visitor/module_visitor.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/fern/language/ast/visitor/module_visitor.cc b/source/fern/language/ast/visitor/module_visitor.cc
index 28aa825..6ff7c4d 100644
--- a/source/fern/language/ast/visitor/module_visitor.cc
+++ b/source/fern/language/ast/visitor/module_visitor.cc
@@ -182,7 +182,8 @@ void ModuleVisitor::Visit(
 void ModuleVisitor::Visit(
     NumberVertex<int8_t>& vertex)
 {
-    _module += (boost::format("%1%") % vertex.value()).str();
+    // Not a character.
+    _module += (boost::format("%1%") % int(vertex.value())).str();
 }
 
 
@@ -213,7 +214,8 @@ void ModuleVisitor::Visit(
     NumberVertex<uint8_t>& vertex)
 {
     // U?
-    _module += (boost::format("%1%U") % vertex.value()).str();
+    // Not a character.
+    _module += (boost::format("%1%U") % unsigned(vertex.value())).str();
 }
 
 
-- 
2.43.0


From f55688369b97d68566cb781f253242fd1613e778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:06 +0000
Subject: [PATCH 54/63] fix: write floating point numbers so that they can be
 read back

---
 .../language/ast/visitor/module_visitor.cc    | 40 ++++++++++++++++++-
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/source/fern/language/ast/visitor/module_visitor.cc b/source/fern/language/ast/visitor/module_visitor.cc
index 6ff7c4d..e0fdfeb 100644
--- a/source/fern/language/ast/visitor/module_visitor.cc
+++ b/source/fern/language/ast/visitor/module_visitor.cc
@@ -8,6 +8,10 @@
 // -----------------------------------------------------------------------------
 #include "fern/language/ast/visitor/module_visitor.h"
 #include <cassert>
+#include <cstdlib>
+#include <iomanip>
+#include <limits>
+#include <sstream>
 #include <boost/format.hpp>
 #include "fern/core/string.h"
 #include "fern/language/ast/core/vertices.h"
@@ -16,6 +20,38 @@
 namespace fern {
 namespace language {
 
+namespace {
+
+//! Format \a value, such that it can be read back as the same float value.
+template<
+    typename T>
+std::string format_float(
+    T value)
+{
+    std::string result;
+
+    for(int precision = std::numeric_limits<T>::digits10;
+            precision <= std::numeric_limits<T>::max_digits10; ++precision) {
+        std::ostringstream stream;
+        stream << std::setprecision(precision) << value;
+        result = stream.str();
+
+        if(static_cast<T>(std::strtod(result.c_str(), nullptr)) == value) {
+            break;
+        }
+    }
+
+    // Without a decimal point or exponent it would be an integer.
+    if(result.find_first_not_of("-0123456789") == std::string::npos) {
+        result += ".0";
+    }
+
+    return result;
+}
+
+} // Anonymous namespace
+
+
 ModuleVisitor::ModuleVisitor(
     size_t tab_size)
 
@@ -248,14 +284,14 @@ void ModuleVisitor::Visit(
 void ModuleVisitor::Visit(
     NumberVertex<float>& vertex)
 {
-    _module += (boost::format("%1%") % vertex.value()).str();
+    _module += format_float(vertex.value());
 }
 
 
 void ModuleVisitor::Visit(
     NumberVertex<double>& vertex)
 {
-    _module += (boost::format("%1%") % vertex.value()).str();
+    _module += format_float(vertex.value());
 }
 
 
-- 
2.43.0


From 569549fbce04e84069cdc653f6f5370885e627ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:06 +0000
Subject: [PATCH 55/63] fix: escape quotes, backslashes and newlines in strings
 that are written

---
 source/fern/language/ast/visitor/module_visitor.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/source/fern/language/ast/visitor/module_visitor.cc b/source/fern/language/ast/visitor/module_visitor.cc
index e0fdfeb..099dd6d 100644
--- a/source/fern/language/ast/visitor/module_visitor.cc
+++ b/source/fern/language/ast/visitor/module_visitor.cc
@@ -181,7 +181,17 @@ void ModuleVisitor::Visit(
 void ModuleVisitor::Visit(
     StringVertex& vertex)
 {
-    _module += "\"" + vertex.value() + "\"";
+    _module += "\"";
+    for(char character: vertex.value()) {
+        switch(character) {
+            case '"': _module += "\\\""; break;
+            case '\\': _module += "\\\\"; break;
+            case '\n': _module += "\\n"; break;
+            case '\r': _module += "\\r"; break;
+            default: _module += character;
+        }
+    }
+    _module += "\"";
 }
 
 
-- 
2.43.0


From 314e7958fc82122f575031744b2f50a05760a9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:16 +0000
Subject: [PATCH 56/63] fix: draw the blocks of if and while statements in dot
 graphs

---
 source/fern/language/ast/visitor/ast_dot_visitor.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/fern/language/ast/visitor/ast_dot_visitor.cc b/source/fern/language/ast/visitor/ast_dot_visitor.cc
index 19b7855..22f09ee 100644
--- a/source/fern/language/ast/visitor/ast_dot_visitor.cc
+++ b/source/fern/language/ast/visitor/ast_dot_visitor.cc
@@ -426,8 +426,8 @@ void AstDotVisitor::Visit(
     }
 
     vertex.condition()->Accept(*this);
-    vertex.true_scope()->Accept(*this);
-    vertex.false_scope()->Accept(*this);
+    Visit(*vertex.true_scope());
+    Visit(*vertex.false_scope());
     // for(auto statement_vertex: vertex.true_scope()->statements()) {
     //     statement_vertex->Accept(*this);
     // }
@@ -608,8 +608,8 @@ void AstDotVisitor::Visit(
     }
 
     vertex.condition()->Accept(*this);
-    vertex.true_scope()->Accept(*this);
-    vertex.false_scope()->Accept(*this);
+    Visit(*vertex.true_scope());
+    Visit(*vertex.false_scope());
     // for(auto statement_vertex: vertex.true_scope()->statements()) {
     //     statement_vertex->Accept(*this);
     // }
-- 
2.43.0


From d491d18c02b9b0f44ab404f955e7ea3e1e89b67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:17 +0000
Subject: [PATCH 57/63] fix: show 8-bit numbers as numbers in dot graphs, not
 as characters

---
 source/fern/language/ast/visitor/ast_dot_visitor.cc       | 2 +-
 source/fern/language/ast/visitor/flowgraph_dot_visitor.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/fern/language/ast/visitor/ast_dot_visitor.cc b/source/fern/language/ast/visitor/ast_dot_visitor.cc
index 22f09ee..43e3746 100644
--- a/source/fern/language/ast/visitor/ast_dot_visitor.cc
+++ b/source/fern/language/ast/visitor/ast_dot_visitor.cc
@@ -156,7 +156,7 @@ void AstDotVisitor::Visit(
                     "];\n")
                     % &vertex
                     % annotate_expression_label(
-                        (boost::format("%1%") % vertex.value()).str(), vertex)
+                        (boost::format("%1%") % +vertex.value()).str(), vertex)
             ).str());
 
             break;
diff --git a/source/fern/language/ast/visitor/flowgraph_dot_visitor.cc b/source/fern/language/ast/visitor/flowgraph_dot_visitor.cc
index 85081e1..69f520d 100644
--- a/source/fern/language/ast/visitor/flowgraph_dot_visitor.cc
+++ b/source/fern/language/ast/visitor/flowgraph_dot_visitor.cc
@@ -270,7 +270,7 @@ void FlowgraphDotVisitor::Visit(
             add_script(
                 (boost::format("\"%1%\"") % &vertex).str() +
                 " [label=\"" +
-                (boost::format("%1%") % vertex.value()).str() +
+                (boost::format("%1%") % +vertex.value()).str() +
                 "\", fontname=courier, shape=box];\n"
             );
             break;
-- 
2.43.0


From f53868d0ad268aadfb70683db065fa009cb5efe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:17 +0000
Subject: [PATCH 58/63] fix: escape quotes and backslashes in the labels of dot
 graphs

---
 .../language/ast/visitor/ast_dot_visitor.cc     |  4 ++--
 source/fern/language/ast/visitor/dot_visitor.cc | 17 +++++++++++++++++
 source/fern/language/ast/visitor/dot_visitor.h  |  2 ++
 .../ast/visitor/flowgraph_dot_visitor.cc        |  2 +-
 4 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/source/fern/language/ast/visitor/ast_dot_visitor.cc b/source/fern/language/ast/visitor/ast_dot_visitor.cc
index 43e3746..6967eaa 100644
--- a/source/fern/language/ast/visitor/ast_dot_visitor.cc
+++ b/source/fern/language/ast/visitor/ast_dot_visitor.cc
@@ -558,7 +558,7 @@ void AstDotVisitor::Visit(
         case Mode::Declaring: {
             add_script(
                 (boost::format("\"%1%\"") % &vertex).str() +
-                " [label=\"\\\"" + vertex.value() +
+                " [label=\"\\\"" + escape(vertex.value()) +
                 "\\\"\", fontname=courier, shape=box];\n"
             );
             break;
@@ -636,7 +636,7 @@ void AstDotVisitor::Visit(
                 "subgraph cluster_%1% {\n"
                     "label=\"%2%\";\n")
                 % &vertex
-                % _scope_names.top()).str());
+                % escape(_scope_names.top())).str());
 
             for(auto statement_vertex: vertex.statements()) {
                 add_ast_vertex(vertex, *statement_vertex);
diff --git a/source/fern/language/ast/visitor/dot_visitor.cc b/source/fern/language/ast/visitor/dot_visitor.cc
index 560d67d..1ab0353 100644
--- a/source/fern/language/ast/visitor/dot_visitor.cc
+++ b/source/fern/language/ast/visitor/dot_visitor.cc
@@ -32,5 +32,22 @@ void DotVisitor::add_script(
     _script += string;
 }
 
+
+//! Return \a string, as it must be written between the quotes of a label.
+std::string DotVisitor::escape(
+    std::string const& string)
+{
+    std::string result;
+
+    for(char character: string) {
+        if(character == '"' || character == '\\') {
+            result += '\\';
+        }
+        result += character;
+    }
+
+    return result;
+}
+
 } // namespace language
 } // namespace fern
diff --git a/source/fern/language/ast/visitor/dot_visitor.h b/source/fern/language/ast/visitor/dot_visitor.h
index 8dec5b3..74a76ca 100644
--- a/source/fern/language/ast/visitor/dot_visitor.h
+++ b/source/fern/language/ast/visitor/dot_visitor.h
@@ -47,6 +47,8 @@ protected:
 
     void           add_script          (std::string const& string);
 
+    static std::string escape          (std::string const& string);
+
 private:
 
     std::string    _script;
diff --git a/source/fern/language/ast/visitor/flowgraph_dot_visitor.cc b/source/fern/language/ast/visitor/flowgraph_dot_visitor.cc
index 69f520d..5c7fb33 100644
--- a/source/fern/language/ast/visitor/flowgraph_dot_visitor.cc
+++ b/source/fern/language/ast/visitor/flowgraph_dot_visitor.cc
@@ -386,7 +386,7 @@ void FlowgraphDotVisitor::Visit(
         case Mode::Declaring: {
             add_script(
                 (boost::format("\"%1%\"") % &vertex).str() +
-                " [label=\"\\\"" + vertex.value() +
+                " [label=\"\\\"" + escape(vertex.value()) +
                 "\\\"\", fontname=courier, shape=box];\n"
             );
             break;
-- 
2.43.0


From 7aced2dde56c379ce1eb06fb5e5da91076953380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:56 +0000
Subject: [PATCH 59/63] fix: netcdf: a damaged dataset of which the values
 cannot be read is refused with an IOError

---
 source/fern/io/netcdf/core/detail/variable.h | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/source/fern/io/netcdf/core/detail/variable.h b/source/fern/io/netcdf/core/detail/variable.h
index 598e8c7..308c30a 100644
--- a/source/fern/io/netcdf/core/detail/variable.h
+++ b/source/fern/io/netcdf/core/detail/variable.h
@@ -7,8 +7,9 @@
 // from Geoneric (http://www.geoneric.eu/contact).
 // -----------------------------------------------------------------------------
 #pragma once
-#include <cassert>
+#include <string>
 #include <netcdf.h>
+#include "fern/core/io_error.h"
 #include "fern/io/netcdf/core/dataset_handle.h"
 
 
@@ -57,9 +58,17 @@ void read_variable(
 {
     int status = read_0d(handle, variable_id, get(destination));
 
-    // TODO Raise low level exception. Assumptions must be met when calling
-    //      this function.
-    assert(status == NC_NOERR);
+    // The dataset may be damaged: its values may not be in there.
+    if(status != NC_NOERR) {
+        size_t size{0};
+        nc_inq_path(handle.ncid(), &size, nullptr);
+        std::string pathname(size + 1, '\0');
+        nc_inq_path(handle.ncid(), &size, &pathname[0]);
+        pathname.resize(size);
+
+        throw IOError(pathname,
+            Exception::messages()[MessageId::CANNOT_BE_READ]);
+    }
 }
 
 } // namespace detail
-- 
2.43.0


From 8cd6c258d9a621b99710ee718a1355340d3fa44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:48 +0000
Subject: [PATCH 60/63] fix: the minimum and maximum of infinite values are
 infinite

---
 source/fern/algorithm/accumulator/max.h | 8 ++++++--
 source/fern/algorithm/accumulator/min.h | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/source/fern/algorithm/accumulator/max.h b/source/fern/algorithm/accumulator/max.h
index 612723b..1c30464 100644
--- a/source/fern/algorithm/accumulator/max.h
+++ b/source/fern/algorithm/accumulator/max.h
@@ -57,14 +57,18 @@ private:
     @brief      Default construct an instance.
 
     The layered maximum value is initialized with
-    std::numeric_limits<Argument>::lowest().
+    -std::numeric_limits<Argument>::infinity(), or with
+    std::numeric_limits<Argument>::lowest() in case Argument doesn't have
+    infinities.
 */
 template<
     typename Argument,
     typename Result>
 inline Max<Argument, Result>::Max()
 
-    : _max(std::numeric_limits<Argument>::lowest())
+    : _max(std::numeric_limits<Argument>::has_infinity
+        ? -std::numeric_limits<Argument>::infinity()
+        : std::numeric_limits<Argument>::lowest())
 
 {
 }
diff --git a/source/fern/algorithm/accumulator/min.h b/source/fern/algorithm/accumulator/min.h
index badeef4..ccc380d 100644
--- a/source/fern/algorithm/accumulator/min.h
+++ b/source/fern/algorithm/accumulator/min.h
@@ -57,14 +57,18 @@ private:
     @brief      Default construct an instance.
 
     The layered minimum value is initialized with
-    std::numeric_limits<Argument>::max().
+    std::numeric_limits<Argument>::infinity(), or with
+    std::numeric_limits<Argument>::max() in case Argument doesn't have
+    infinities.
 */
 template<
     typename Argument,
     typename Result>
 inline Min<Argument, Result>::Min()
 
-    : _min(std::numeric_limits<Argument>::max())
+    : _min(std::numeric_limits<Argument>::has_infinity
+        ? std::numeric_limits<Argument>::infinity()
+        : std::numeric_limits<Argument>::max())
 
 {
 }
-- 
2.43.0


From 44e506c66811d1eafd3a510ed19a8fd9a066ec8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:29 +0000
Subject: [PATCH 61/63] fix: data names of any length and with newlines are
 split

The regular expression recurses for each character, which overflows the
stack, and does not match newlines.
---
 source/fern/core/data_name.cc | 29 +++++++++--------------------
 1 file changed, 9 insertions(+), 20 deletions(-)

diff --git a/source/fern/core/data_name.cc b/source/fern/core/data_name.cc
index 215b2a8..480be33 100644
--- a/source/fern/core/data_name.cc
+++ b/source/fern/core/data_name.cc
@@ -8,20 +8,11 @@
 // -----------------------------------------------------------------------------
 #include "fern/core/data_name.h"
 #include <cassert>
-#include <regex>
 #include "fern/core/string.h"
 
 
 namespace fern {
 
-/// static UErrorCode status;
-// No starting /:
-/// // static RegexMatcher matcher("([^:]+)(?::(?!/)(.+)?)?", 0, status);
-/// // static RegexMatcher matcher("([^:]+)(?::(.+)?)?", 0, status);
-// <database pathname>:<data pathname>
-static std::regex regular_expression(R"(([^:]+)(?::(.+)?)?)");
-
-
 DataName::DataName(
     char const* string)
 
@@ -34,19 +25,17 @@ DataName::DataName(
 DataName::DataName(
     std::string const& string)
 {
-    std::string database_pathname, data_pathname;
-    std::smatch match;
-
-    if(!std::regex_match(string, match, regular_expression)) {
-        assert(false);
-        // TODO raise exception.
-    }
+    // <database pathname>:<data pathname>
+    // The part from the first colon on is optional.
+    std::size_t const colon = string.find(':');
+    std::string database_pathname = string.substr(0, colon);
+    std::string data_pathname;
 
-    assert(match.size() >= 2);
-    database_pathname = match[1].str();
+    // TODO raise exception.
+    assert(!database_pathname.empty());
 
-    if(match.size() > 2) {
-        data_pathname = match[2].str();
+    if(colon != std::string::npos) {
+        data_pathname = string.substr(colon + 1);
     }
 
     // Remove trailing occurences of path separator.
-- 
2.43.0


From a0592f55e88be972702e47a5704dc3c1cfc60023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:29 +0000
Subject: [PATCH 62/63] fix: splitting a string by a long run of separators
 does not overflow the stack

---
 source/fern/core/string.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/fern/core/string.cc b/source/fern/core/string.cc
index e6de13f..9ea34f8 100644
--- a/source/fern/core/string.cc
+++ b/source/fern/core/string.cc
@@ -100,8 +100,10 @@ std::vector<std::string> split(
         characters = "[:space:]";
     }
 
+    // Match each separating character by itself. A match of all consecutive
+    // ones would recurse for each of them. Empty words are skipped below.
     std::regex regular_expression(
-        std::string("[") + characters + std::string("]+"));
+        std::string("[") + characters + std::string("]"));
     std::vector<std::string> words;
 
     std::copy_if(std::sregex_token_iterator(string.begin(), string.end(),
-- 
2.43.0


From fbf08a6dc8b0f5b994a8da10ce8accdd3ec54010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:29 +0000
Subject: [PATCH 63/63] fix: the interpreter only knows the names that have a
 value

Names from scripts that were refused or not executed, and of data sources
that were not read, passed validation later on, after which execution failed
on an assertion.
---
 .../language/ast/visitor/annotate_visitor.cc  | 17 ++++++++++
 .../language/ast/visitor/annotate_visitor.h   |  4 +++
 .../fern/language/interpreter/interpreter.cc  | 31 ++++++++++++++++++-
 .../fern/language/interpreter/interpreter.h   |  3 ++
 4 files changed, 54 insertions(+), 1 deletion(-)

diff --git a/source/fern/language/ast/visitor/annotate_visitor.cc b/source/fern/language/ast/visitor/annotate_visitor.cc
index 1dfd695..497d027 100644
--- a/source/fern/language/ast/visitor/annotate_visitor.cc
+++ b/source/fern/language/ast/visitor/annotate_visitor.cc
@@ -85,6 +85,23 @@ void AnnotateVisitor::add_global_symbols(
 }
 
 
+//! Remove all global symbols from the symbol table.
+/*!
+  \sa        add_global_symbols(SymbolTable<ExpressionType> const&)
+*/
+void AnnotateVisitor::clear_global_symbols()
+{
+    assert(_symbol_table.scope_level() == 1u);
+    _symbol_table.clear_scope();
+}
+
+
+SymbolTable<ExpressionType> const& AnnotateVisitor::symbol_table() const
+{
+    return _symbol_table;
+}
+
+
 void AnnotateVisitor::Visit(
     AssignmentVertex& vertex)
 {
diff --git a/source/fern/language/ast/visitor/annotate_visitor.h b/source/fern/language/ast/visitor/annotate_visitor.h
index f2679d8..d1c44d0 100644
--- a/source/fern/language/ast/visitor/annotate_visitor.h
+++ b/source/fern/language/ast/visitor/annotate_visitor.h
@@ -76,6 +76,10 @@ public:
     void           add_global_symbols  (SymbolTable<ExpressionType> const&
                                             symbol_table);
 
+    void           clear_global_symbols();
+
+    SymbolTable<ExpressionType> const& symbol_table() const;
+
     std::stack<ExpressionType> const& stack() const;
 
     // void           reset               ();
diff --git a/source/fern/language/interpreter/interpreter.cc b/source/fern/language/interpreter/interpreter.cc
index 8c73dec..b894774 100644
--- a/source/fern/language/interpreter/interpreter.cc
+++ b/source/fern/language/interpreter/interpreter.cc
@@ -44,6 +44,28 @@ SymbolTable<ExpressionType> expression_types(
 }
 
 
+//! Return the expression types of the symbols that have a value.
+SymbolTable<ExpressionType> known_symbols(
+    SymbolTable<ExpressionType> const& expression_types,
+    SymbolTable<std::shared_ptr<Argument>> const& values)
+{
+    SymbolTable<ExpressionType> result;
+
+    if(!expression_types.empty()) {
+        assert(expression_types.scope_level() == 1u);
+        result.push_scope();
+
+        for(auto const& pair: expression_types.scope(1u)) {
+            if(values.has_value(pair.first)) {
+                result.add_value(pair.first, pair.second);
+            }
+        }
+    }
+
+    return result;
+}
+
+
 // DataSourceSymbolTable solve_read_calls(
 //     ModuleVertexPtr const& tree)
 // {
@@ -59,7 +81,8 @@ Interpreter::Interpreter()
       _xml_parser(),
       _annotate_visitor(_operations),
       _validate_visitor(),
-      _back_end(std::make_shared<ExecuteVisitor>(_operations))
+      _back_end(std::make_shared<ExecuteVisitor>(_operations)),
+      _expression_types()
 
 {
 }
@@ -266,6 +289,11 @@ void Interpreter::annotate(
     IdentifyVisitor identify_visitor;
     tree->Accept(identify_visitor);
 
+    // Known are the symbols that have a value and the ones passed in. Forget
+    // about symbols of scripts that have been annotated, but not executed.
+    _annotate_visitor.clear_global_symbols();
+    _annotate_visitor.add_global_symbols(known_symbols(_expression_types,
+        _back_end->symbol_table()));
     _annotate_visitor.add_global_symbols(expression_types(symbol_table));
     tree->Accept(_annotate_visitor);
 }
@@ -439,6 +467,7 @@ void Interpreter::execute(
     _back_end->set_data_source_symbols(data_source_symbol_table);
     _back_end->set_data_sync_symbols(data_sync_symbol_table);
     tree->Accept(*_back_end);
+    _expression_types = _annotate_visitor.symbol_table();
 
     // ExecutionManager manager(*_back_end, data_source_symbol_table);
     // manager.run();
diff --git a/source/fern/language/interpreter/interpreter.h b/source/fern/language/interpreter/interpreter.h
index 61a883d..77d46a2 100644
--- a/source/fern/language/interpreter/interpreter.h
+++ b/source/fern/language/interpreter/interpreter.h
@@ -92,6 +92,9 @@ private:
 
     std::shared_ptr<ExecuteVisitor> _back_end;
 
+    //! Types of the symbols, as of the last script that was executed.
+    SymbolTable<ExpressionType> _expression_types;
+
 };
 
 } // namespace language
-- 
2.43.0

