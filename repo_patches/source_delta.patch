From 3c848da4aba2d5daf65f2cae4bfb5268637efac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:30 +0000
Subject: [PATCH 01/18] fix: DATEDIFF in calendar units between high precision
 timestamps

DateDiffHighPrecision accounted for the sub-second parts by moving the end
by one second before counting months, quarters, years, etc. When that moved
the end into another month the count was off by one, e.g. 1 month from
1971-02-28 23:59:59.5 back from 1971-03-31 was reported as 0. Compare the
sub-second parts along with the other fields instead.
---
 omniscidb/QueryEngine/DateTruncate.cpp | 44 ++++++++++++++++++++------
 1 file changed, 35 insertions(+), 9 deletions(-)

diff --git a/omniscidb/QueryEngine/DateTruncate.cpp b/omniscidb/QueryEngine/DateTruncate.cpp
index 53b571c..3bb79c7 100644
--- a/omniscidb/QueryEngine/DateTruncate.cpp
+++ b/omniscidb/QueryEngine/DateTruncate.cpp
@@ -400,8 +400,9 @@ struct EraTime {
   int const moy;  // month-of-year (March = 0)
   int const dom;  // day-of-month
   int const sod;  // second-of-day
+  int const nos;  // nanosecond-of-second
 
-  DEVICE static EraTime make(int64_t const time) {
+  DEVICE static EraTime make(int64_t const time, int const nos = 0) {
     int64_t const day = floor_div(time, kSecsPerDay);
     int64_t const era = floor_div(day - kEpochAdjustedDays, kDaysPer400Years);
     int const sod = time - day * kSecsPerDay;
@@ -410,16 +411,21 @@ struct EraTime {
     int const doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
     int const moy = (5 * doy + 2) / 153;
     int const dom = doy - (153 * moy + 2) / 5;
-    return {era, yoe, moy, dom, sod};
+    return {era, yoe, moy, dom, sod, nos};
   }
 
-  DEVICE EraTime operator-() const { return {-era, -yoe, -moy, -dom, -sod}; }
+  DEVICE EraTime operator-() const { return {-era, -yoe, -moy, -dom, -sod, -nos}; }
 
   DEVICE EraTime operator-(EraTime const& rhs) {
-    return {era - rhs.era, yoe - rhs.yoe, moy - rhs.moy, dom - rhs.dom, sod - rhs.sod};
+    return {era - rhs.era,
+            yoe - rhs.yoe,
+            moy - rhs.moy,
+            dom - rhs.dom,
+            sod - rhs.sod,
+            nos - rhs.nos};
   }
 
-  enum Field { ERA, YOE, MOY, DOM, SOD };
+  enum Field { ERA, YOE, MOY, DOM, SOD, NOS };
   // Sign of EraTime starting at field.
   DEVICE int sign(Field const field) const {
     switch (field) {
@@ -443,6 +449,10 @@ struct EraTime {
         if (sod != 0) {
           return sod < 0 ? -1 : 1;
         }
+      case NOS:
+        if (nos != 0) {
+          return nos < 0 ? -1 : 1;
+        }
       default:
         return 0;
     }
@@ -539,13 +549,29 @@ DateDiffHighPrecision(const hdk::ir::DateTruncField datepart,
     }
     default:
       int64_t const end_seconds = floor_div(enddate, pow10[end_dim]);
-      int delta_ns = (enddate - end_seconds * pow10[end_dim]) * pow10[9 - end_dim];
+      int const end_ns = (enddate - end_seconds * pow10[end_dim]) * pow10[9 - end_dim];
       int64_t const start_seconds = floor_div(startdate, pow10[start_dim]);
-      delta_ns -= (startdate - start_seconds * pow10[start_dim]) * pow10[9 - start_dim];
+      int const start_ns =
+          (startdate - start_seconds * pow10[start_dim]) * pow10[9 - start_dim];
+      switch (datepart) {
+        case hdk::ir::DateTruncField::kMonth:
+        case hdk::ir::DateTruncField::kQuarter:
+        case hdk::ir::DateTruncField::kYear:
+        case hdk::ir::DateTruncField::kDecade:
+        case hdk::ir::DateTruncField::kCentury:
+        case hdk::ir::DateTruncField::kMillennium:
+          // Moving an end by a second could move it into another month.
+          return (EraTime::make(end_seconds, end_ns) -
+                  EraTime::make(start_seconds, start_ns))
+              .count(datepart);
+        default:
+          break;
+      }
+      int const delta_ns = end_ns - start_ns;
       int64_t const delta_s = end_seconds - start_seconds;
       // sub-second values must be accounted for when calling DateDiff. Examples:
-      // 2000-02-15 12:00:00.006 to 2000-03-15 12:00:00.005 is 0 months.
-      // 2000-02-15 12:00:00.006 to 2000-03-15 12:00:00.006 is 1 month.
+      // 2000-02-15 12:00:00.006 to 2000-02-16 12:00:00.005 is 0 days.
+      // 2000-02-15 12:00:00.006 to 2000-02-16 12:00:00.006 is 1 day.
       int const adj_sec = 0 < delta_s && delta_ns < 0   ? -1
                           : delta_s < 0 && 0 < delta_ns ? 1
                                                         : 0;
-- 
2.43.0


From 4edbf478a5ef230cdb0260281ee417ef7a378b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:19 +0000
Subject: [PATCH 02/18] fix: full month names in date strings

A missing comma shifted every entry of month_suffixes by one, so the
rest of a month's name after its first three letters was never consumed
and dates such as 05/October/2020 were rejected.
---
 omniscidb/Shared/DateTimeParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omniscidb/Shared/DateTimeParser.cpp b/omniscidb/Shared/DateTimeParser.cpp
index 33afc0e..25e6693 100644
--- a/omniscidb/Shared/DateTimeParser.cpp
+++ b/omniscidb/Shared/DateTimeParser.cpp
@@ -43,7 +43,7 @@ constexpr std::array<int, 12> month_prefixes{{int('j') << 16 | int('a') << 8 | i
                                               int('d') << 16 | int('e') << 8 | int('c')}};
 
 constexpr std::array<std::string_view, 13> month_suffixes{
-    {""
+    {"",
      "uary",
      "ruary",
      "ch",
-- 
2.43.0


From 7e6ce298562fa0835514af96c40bcf90554d782f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:17 +0000
Subject: [PATCH 03/18] fix: do not hash a dictionary id as a string pointer

hash(Datum) fell through from the ExtDictionary case to the text case and
dereferenced the dictionary id as a std::string pointer.
---
 omniscidb/IR/Datum.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/omniscidb/IR/Datum.cpp b/omniscidb/IR/Datum.cpp
index ba04a69..63f1fcd 100644
--- a/omniscidb/IR/Datum.cpp
+++ b/omniscidb/IR/Datum.cpp
@@ -405,6 +405,7 @@ size_t hash(Datum datum, const hdk::ir::Type* type) {
       break;
     case hdk::ir::Type::kExtDictionary:
       boost::hash_combine(res, datum.intval);
+      break;
     case hdk::ir::Type::kVarChar:
     case hdk::ir::Type::kText:
       if (datum.stringval) {
-- 
2.43.0


From 621890529305c2cb8aab678907f6bd0afbf8983f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:15 +0000
Subject: [PATCH 04/18] fix: chunk statistics of narrow columns always included
 -1 and 0

updateStatsEncoded() started its reduction from the initial int64 min/max cast
to the narrower storage type, i.e. from [-1, 0], so the resulting min/max never
described a column that lies outside of it, or that has NULLs only.
---
 omniscidb/DataMgr/FixedLengthEncoder.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/omniscidb/DataMgr/FixedLengthEncoder.h b/omniscidb/DataMgr/FixedLengthEncoder.h
index 53e108a..648f16b 100644
--- a/omniscidb/DataMgr/FixedLengthEncoder.h
+++ b/omniscidb/DataMgr/FixedLengthEncoder.h
@@ -85,14 +85,15 @@ class FixedLengthEncoder : public Encoder {
 
     std::tie(dataMin, dataMax, has_nulls) = tbb::parallel_reduce(
         tbb::blocked_range(size_t(0), num_elements),
-        std::tuple(static_cast<V>(dataMin), static_cast<V>(dataMax), has_nulls),
+        std::tuple(dataMin, dataMax, has_nulls),
         [&](const auto& range, auto init) {
           auto [min, max, nulls] = init;
           for (size_t i = range.begin(); i < range.end(); i++) {
             if (data[i] != inline_null_value<V>()) {
               if (!fixlen_array || data[i] != inline_null_array_value<V>()) {
-                min = std::min(min, data[i]);
-                max = std::max(max, data[i]);
+                const T val = data[i];
+                min = std::min(min, val);
+                max = std::max(max, val);
               }
             } else {
               nulls = true;
-- 
2.43.0


From 00a84fa0cf293ad8de58d38e5c6c4013fdbf1709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:15 +0000
Subject: [PATCH 05/18] fix: read dictionary ids of 1 and 2 byte dictionaries
 as 32-bit datums

Datums of dictionary types hold the id in intval (fillChunkStats, mergeStats,
code generation); reading tinyintval/smallintval made ids above 127/32767
negative in column ranges.
---
 omniscidb/IR/Datum.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/omniscidb/IR/Datum.cpp b/omniscidb/IR/Datum.cpp
index 63f1fcd..d20e5a6 100644
--- a/omniscidb/IR/Datum.cpp
+++ b/omniscidb/IR/Datum.cpp
@@ -316,7 +316,6 @@ bool DatumEqual(const Datum a, const Datum b, const hdk::ir::Type* type) {
       return a.boolval == b.boolval;
     case hdk::ir::Type::kInteger:
     case hdk::ir::Type::kDecimal:
-    case hdk::ir::Type::kExtDictionary:
       switch (type->size()) {
         case 1:
           return a.tinyintval == b.tinyintval;
@@ -329,6 +328,8 @@ bool DatumEqual(const Datum a, const Datum b, const hdk::ir::Type* type) {
         default:
           abort();
       }
+    case hdk::ir::Type::kExtDictionary:
+      return a.intval == b.intval;
     case hdk::ir::Type::kFloatingPoint:
       switch (type->as<hdk::ir::FloatingPointType>()->precision()) {
         case hdk::ir::FloatingPointType::kFloat:
@@ -519,7 +520,6 @@ int64_t extract_int_type_from_datum(const Datum datum, const hdk::ir::Type* type
       return datum.boolval;
     case hdk::ir::Type::kInteger:
     case hdk::ir::Type::kDecimal:
-    case hdk::ir::Type::kExtDictionary:
       switch (type->size()) {
         case 1:
           return datum.tinyintval;
@@ -532,6 +532,8 @@ int64_t extract_int_type_from_datum(const Datum datum, const hdk::ir::Type* type
         default:
           abort();
       }
+    case hdk::ir::Type::kExtDictionary:
+      return datum.intval;
     case hdk::ir::Type::kDate:
     case hdk::ir::Type::kTime:
     case hdk::ir::Type::kTimestamp:
-- 
2.43.0


From 11f3241df76f724a3d80e853af51007af762d3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:31 +0000
Subject: [PATCH 06/18] fix: scale constant timestamps without overflow and
 towards the past

The overflow test divided an already overflowed signed product, which the
compiler may (and does) assume never happens, so casting a timestamp constant
to a higher precision returned a wrapped value. Casting to a lower precision
truncated towards zero, while casts of (nullable) columns round down.
---
 omniscidb/QueryEngine/DateTimeUtils.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/omniscidb/QueryEngine/DateTimeUtils.h b/omniscidb/QueryEngine/DateTimeUtils.h
index c4ea07b..64a1e67 100644
--- a/omniscidb/QueryEngine/DateTimeUtils.h
+++ b/omniscidb/QueryEngine/DateTimeUtils.h
@@ -23,6 +23,7 @@
 
 #include <cstdint>
 #include <ctime>
+#include <limits>
 #include <map>
 #include <string>
 
@@ -244,14 +245,17 @@ constexpr inline int64_t get_datetime_scaled_epoch(int64_t epoch,
   auto old_scale = get_nanosecs_in_unit(old_unit);
   auto new_scale = get_nanosecs_in_unit(new_unit);
   if (old_scale > new_scale) {
-    auto scaled_epoch = epoch * (old_scale / new_scale);
-    if (epoch && epoch != scaled_epoch / (old_scale / new_scale)) {
+    const auto factor = old_scale / new_scale;
+    if (epoch > std::numeric_limits<int64_t>::max() / factor ||
+        epoch < std::numeric_limits<int64_t>::min() / factor) {
       throw std::runtime_error(
           "Value Overflow/underflow detected while scaling DateTime precision.");
     }
-    return scaled_epoch;
+    return epoch * factor;
   } else {
-    return epoch / (new_scale / old_scale);
+    // Round towards the past, as the casts of columns do.
+    const auto divisor = new_scale / old_scale;
+    return epoch / divisor - (epoch % divisor < 0 ? 1 : 0);
   }
 }
 
-- 
2.43.0


From a75f33826d9c67e0d3ca3ac369714432db3bb115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:06 +0000
Subject: [PATCH 07/18] fix: expressions that differ must not compare equal

Expression equality ignored the target type of casts, the ANY/ALL qualifier of
comparisons, the second argument of aggregates, the collation of window
functions and the number of elements of array constructors (for which it also
read past the end of the shorter one).
---
 omniscidb/IR/Expr.cpp | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/omniscidb/IR/Expr.cpp b/omniscidb/IR/Expr.cpp
index d52b9aa..4148896 100644
--- a/omniscidb/IR/Expr.cpp
+++ b/omniscidb/IR/Expr.cpp
@@ -1022,7 +1022,8 @@ bool UOper::operator==(const Expr& rhs) const {
   }
   const UOper& rhs_uo = dynamic_cast<const UOper&>(rhs);
   return op_type_ == rhs_uo.opType() && *operand_ == *rhs_uo.operand() &&
-         is_dict_intersection_ == rhs_uo.is_dict_intersection_;
+         is_dict_intersection_ == rhs_uo.is_dict_intersection_ &&
+         (!isCast() || type_->equal(rhs_uo.type()));
 }
 
 bool BinOper::operator==(const Expr& rhs) const {
@@ -1030,7 +1031,8 @@ bool BinOper::operator==(const Expr& rhs) const {
     return false;
   }
   const BinOper& rhs_bo = dynamic_cast<const BinOper&>(rhs);
-  return op_type_ == rhs_bo.opType() && *left_operand_ == *rhs_bo.leftOperand() &&
+  return op_type_ == rhs_bo.opType() && qualifier_ == rhs_bo.qualifier() &&
+         *left_operand_ == *rhs_bo.leftOperand() &&
          *right_operand_ == *rhs_bo.rightOperand();
 }
 
@@ -1198,6 +1200,10 @@ bool AggExpr::operator==(const Expr& rhs) const {
       interpolation_ != rhs_ae.interpolation_) {
     return false;
   }
+  if (arg1_ != rhs_ae.arg1_ &&
+      (!arg1_ || !rhs_ae.arg1_ || !(*arg1_ == *rhs_ae.arg1_))) {
+    return false;
+  }
   if (arg_.get() == rhs_ae.arg()) {
     return true;
   }
@@ -1279,7 +1285,15 @@ bool WindowFunction::operator==(const Expr& rhs) const {
   }
   return exprsEqual(args_, rhs_window->args_) &&
          exprsEqual(partition_keys_, rhs_window->partition_keys_) &&
-         exprsEqual(order_keys_, rhs_window->order_keys_);
+         exprsEqual(order_keys_, rhs_window->order_keys_) &&
+         std::equal(collation_.begin(),
+                    collation_.end(),
+                    rhs_window->collation_.begin(),
+                    rhs_window->collation_.end(),
+                    [](const OrderEntry& lhs, const OrderEntry& rhs) {
+                      return lhs.tle_no == rhs.tle_no && lhs.is_desc == rhs.is_desc &&
+                             lhs.nulls_first == rhs.nulls_first;
+                    });
 }
 
 bool ArrayExpr::operator==(Expr const& rhs) const {
@@ -1287,12 +1301,8 @@ bool ArrayExpr::operator==(Expr const& rhs) const {
     return false;
   }
   ArrayExpr const& casted_rhs = static_cast<ArrayExpr const&>(rhs);
-  for (unsigned i = 0; i < contained_expressions_.size(); i++) {
-    auto& lhs_expr = contained_expressions_[i];
-    auto& rhs_expr = casted_rhs.contained_expressions_[i];
-    if (!(*lhs_expr == *rhs_expr)) {
-      return false;
-    }
+  if (!exprsEqual(contained_expressions_, casted_rhs.contained_expressions_)) {
+    return false;
   }
   if (isNull() != casted_rhs.isNull()) {
     return false;
-- 
2.43.0


From e757414ef06a1f3f975abe2860f562447282a4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:56 +0000
Subject: [PATCH 08/18] fix: keep the values equal to a coarser constant in
 ranges narrowed by filters on casts

---
 omniscidb/QueryEngine/ExpressionRange.cpp | 35 +++++++++++++++++++++--
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/omniscidb/QueryEngine/ExpressionRange.cpp b/omniscidb/QueryEngine/ExpressionRange.cpp
index be38911..24a0052 100644
--- a/omniscidb/QueryEngine/ExpressionRange.cpp
+++ b/omniscidb/QueryEngine/ExpressionRange.cpp
@@ -133,10 +133,39 @@ void apply_hpt_qual(const Datum const_datum,
                         : hdk::ir::TimeUnit::kSecond;
   auto col_unit = col_type->isTimestamp() ? col_type->as<hdk::ir::TimestampType>()->unit()
                                           : hdk::ir::TimeUnit::kSecond;
-  Datum datum{0};
-  datum.bigintval = get_datetime_scaled_epoch(
+  const int64_t const_val = get_datetime_scaled_epoch(
       extract_int_type_from_datum(const_datum, const_type), const_unit, col_unit);
-  apply_int_qual(datum, const_type, op_type, qual_range);
+  // The predicate compares the constant with the column cast to the type of the constant.
+  // Account for all column values with the same cast value (a day of timestamps has the
+  // same date), and for the fraction of a more precise constant.
+  int64_t slack = 0;
+  if (const_type->isDate() && col_type->isTimestamp()) {
+    slack = get_datetime_scaled_epoch(24 * 3600, hdk::ir::TimeUnit::kSecond, col_unit) - 1;
+  } else if (col_unit > const_unit) {
+    slack = get_datetime_scaled_epoch(1, const_unit, col_unit) - 1;
+  }
+  const bool inexact = const_unit > col_unit;
+  Datum datum{0};
+  auto apply = [&](const int64_t val, hdk::ir::OpType op) {
+    datum.bigintval = val;
+    apply_int_qual(datum, const_type, op, qual_range);
+  };
+  if (op_type == hdk::ir::OpType::kGe || op_type == hdk::ir::OpType::kEq) {
+    if (const_val >= std::numeric_limits<int64_t>::min() + slack) {
+      apply(const_val - slack, hdk::ir::OpType::kGe);
+    }
+  }
+  if (op_type == hdk::ir::OpType::kLe || op_type == hdk::ir::OpType::kEq) {
+    if (const_val <= std::numeric_limits<int64_t>::max() - slack) {
+      apply(const_val + slack, hdk::ir::OpType::kLe);
+    }
+  }
+  if (op_type == hdk::ir::OpType::kGt) {
+    apply(const_val, op_type);
+  }
+  if (op_type == hdk::ir::OpType::kLt) {
+    apply(const_val, inexact ? hdk::ir::OpType::kLe : op_type);
+  }
 }
 
 ExpressionRange apply_simple_quals(
-- 
2.43.0


From 26667291692d92a04b8d319fbae7f82d1fe60b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:56 +0000
Subject: [PATCH 09/18] fix: detect overflow in ranges of divisions

---
 omniscidb/QueryEngine/ExpressionRange.cpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/omniscidb/QueryEngine/ExpressionRange.cpp b/omniscidb/QueryEngine/ExpressionRange.cpp
index 24a0052..1bba5ca 100644
--- a/omniscidb/QueryEngine/ExpressionRange.cpp
+++ b/omniscidb/QueryEngine/ExpressionRange.cpp
@@ -231,7 +231,7 @@ ExpressionRange ExpressionRange::div(const ExpressionRange& other,
       other.type_ != ExpressionRangeType::Integer) {
     return ExpressionRange::makeInvalidRange();
   }
-  if (other.int_min_ * other.int_max_ <= 0) {
+  if (other.int_min_ <= 0 && other.int_max_ >= 0) {
     // if the other interval contains 0, the rule is more complicated;
     // punt for now, we can revisit by splitting the other interval and
     // taking the convex hull of the resulting two intervals
@@ -400,9 +400,10 @@ ExpressionRange getExpressionRange(
 
 namespace {
 
-int64_t scale_up_interval_endpoint(const int64_t endpoint,
-                                   const hdk::ir::DecimalType* type) {
-  return endpoint * static_cast<int64_t>(exp_to_scale(type->scale()));
+// Range of a decimal with its scale increased by scale_diff digits.
+ExpressionRange scaleUpRange(const ExpressionRange& range, const int scale_diff) {
+  const int64_t scale = exp_to_scale(scale_diff);
+  return range * ExpressionRange::makeIntRange(scale, scale, 0, false);
 }
 
 }  // namespace
@@ -429,12 +430,7 @@ ExpressionRange getExpressionRange(
       if (lhs_type->isDecimal() && lhs.getType() != ExpressionRangeType::Invalid) {
         CHECK(lhs.getType() == ExpressionRangeType::Integer);
         auto dec_type = lhs_type->as<hdk::ir::DecimalType>();
-        const auto adjusted_lhs = ExpressionRange::makeIntRange(
-            scale_up_interval_endpoint(lhs.getIntMin(), dec_type),
-            scale_up_interval_endpoint(lhs.getIntMax(), dec_type),
-            0,
-            lhs.hasNulls());
-        return adjusted_lhs.div(rhs, null_div_by_zero);
+        return scaleUpRange(lhs, dec_type->scale()).div(rhs, null_div_by_zero);
       }
       return lhs.div(rhs, null_div_by_zero);
     }
-- 
2.43.0


From d100efb3fac97fb809e337c3b245a988d1adb599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:56 +0000
Subject: [PATCH 10/18] fix: do not claim spacing of values for CASE
 expressions

---
 omniscidb/QueryEngine/ExpressionRange.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omniscidb/QueryEngine/ExpressionRange.cpp b/omniscidb/QueryEngine/ExpressionRange.cpp
index 1bba5ca..80d4fbe 100644
--- a/omniscidb/QueryEngine/ExpressionRange.cpp
+++ b/omniscidb/QueryEngine/ExpressionRange.cpp
@@ -259,7 +259,8 @@ ExpressionRange ExpressionRange::operator||(const ExpressionRange& other) const
       result.has_nulls_ = has_nulls_ || other.has_nulls_;
       result.int_min_ = std::min(int_min_, other.int_min_);
       result.int_max_ = std::max(int_max_, other.int_max_);
-      result.bucket_ = std::min(bucket_, other.bucket_);
+      // Values of one side can be arbitrarily close to values of the other one.
+      result.bucket_ = 0;
       break;
     }
     case ExpressionRangeType::Float:
-- 
2.43.0


From 0effbeaba6b984d6dc03999c9029354756bdc655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:04 +0000
Subject: [PATCH 11/18] fix: ranges of casts that change the scale of a decimal

---
 omniscidb/QueryEngine/ExpressionRange.cpp | 27 ++++++++++++++---------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/omniscidb/QueryEngine/ExpressionRange.cpp b/omniscidb/QueryEngine/ExpressionRange.cpp
index 80d4fbe..3068e36 100644
--- a/omniscidb/QueryEngine/ExpressionRange.cpp
+++ b/omniscidb/QueryEngine/ExpressionRange.cpp
@@ -653,6 +653,18 @@ ExpressionRange getExpressionRange(const hdk::ir::CaseExpr* case_expr,
 
 namespace {
 
+// Range of a decimal with its scale reduced by scale_diff digits, with rounding.
+ExpressionRange scaleDownRange(const ExpressionRange& range, const int scale_diff) {
+  const int64_t scale = exp_to_scale(scale_diff);
+  const int64_t min = range.getIntMin() / scale - (range.getIntMin() % scale < 0);
+  const int64_t max = range.getIntMax() / scale + (range.getIntMax() % scale > 0);
+  return ExpressionRange::makeIntRange(min, max, 0, range.hasNulls());
+}
+
+int64_t floorDiv(const int64_t value, const int64_t divisor) {
+  return value / divisor - (value % divisor < 0 ? 1 : 0);
+}
+
 ExpressionRange fpRangeFromDecimal(const ExpressionRange& arg_range,
                                    const int64_t scale,
                                    const hdk::ir::Type* target_type) {
@@ -779,23 +791,18 @@ ExpressionRange getExpressionRange(
         auto type_scale = type->as<hdk::ir::DecimalType>()->scale();
         auto arg_scale =
             arg_type->isDecimal() ? arg_type->as<hdk::ir::DecimalType>()->scale() : 0;
-        const int64_t scale = exp_to_scale(type_scale - arg_scale);
-        return ExpressionRange::makeIntRange(arg_range.getIntMin() * scale,
-                                             arg_range.getIntMax() * scale,
-                                             0,
-                                             arg_range.hasNulls());
+        if (type_scale >= arg_scale) {
+          return scaleUpRange(arg_range, type_scale - arg_scale);
+        }
+        return scaleDownRange(arg_range, arg_scale - type_scale);
       }
       if (arg_type->isDecimal()) {
         CHECK_EQ(int64_t(0), arg_range.getBucket());
         const int64_t scale = exp_to_scale(arg_type->as<hdk::ir::DecimalType>()->scale());
-        const int64_t scale_half = scale / 2;
         if (type->isFloatingPoint()) {
           return fpRangeFromDecimal(arg_range, scale, type);
         }
-        return ExpressionRange::makeIntRange((arg_range.getIntMin() - scale_half) / scale,
-                                             (arg_range.getIntMax() + scale_half) / scale,
-                                             0,
-                                             arg_range.hasNulls());
+        return scaleDownRange(arg_range, arg_type->as<hdk::ir::DecimalType>()->scale());
       }
       if (type->isInteger() || type->isDateTime()) {
         return arg_range;
-- 
2.43.0


From 209f316aebc7f309e62ebe1d3f858d6b54dd2ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:04 +0000
Subject: [PATCH 12/18] fix: ranges of casts and EXTRACT of high precision
 timestamps

---
 omniscidb/QueryEngine/ExpressionRange.cpp | 45 +++++++++++++++--------
 1 file changed, 30 insertions(+), 15 deletions(-)

diff --git a/omniscidb/QueryEngine/ExpressionRange.cpp b/omniscidb/QueryEngine/ExpressionRange.cpp
index 3068e36..94ff5cf 100644
--- a/omniscidb/QueryEngine/ExpressionRange.cpp
+++ b/omniscidb/QueryEngine/ExpressionRange.cpp
@@ -690,8 +690,9 @@ ExpressionRange getDateTimePrecisionCastRange(const ExpressionRange& arg_range,
     bool is_hpt = oper_unit > hdk::ir::TimeUnit::kSecond;
     const int64_t scale =
         hdk::ir::unitsPerSecond(oper_type->as<hdk::ir::TimestampType>()->unit());
-    const int64_t min_ts = is_hpt ? DateTruncate(field, arg_range.getIntMin() / scale)
-                                  : DateTruncate(field, arg_range.getIntMin());
+    const int64_t min_ts = is_hpt
+                               ? DateTruncate(field, floorDiv(arg_range.getIntMin(), scale))
+                               : DateTruncate(field, arg_range.getIntMin());
     const int64_t max_ts = is_hpt ? DateTruncate(field, arg_range.getIntMax() / scale)
                                   : DateTruncate(field, arg_range.getIntMax());
     const int64_t bucket = get_conservative_datetrunc_bucket(field);
@@ -712,6 +713,10 @@ ExpressionRange getDateTimePrecisionCastRange(const ExpressionRange& arg_range,
       arg_range.getIntMin(), oper_unit, target_unit);
   int64_t max_ts = DateTimeUtils::get_datetime_scaled_epoch(
       arg_range.getIntMax(), oper_unit, target_unit);
+  if (oper_unit > target_unit && max_ts < 0) {
+    // Non-nullable columns are rounded towards zero.
+    ++max_ts;
+  }
 
   return ExpressionRange::makeIntRange(min_ts, max_ts, 0, arg_range.hasNulls());
 }
@@ -840,6 +845,7 @@ ExpressionRange getExpressionRange(
                   ? extract_expr_type->as<hdk::ir::TimestampType>()->unit()
                   : hdk::ir::TimeUnit::kSecond;
   bool is_hpt = extract_expr_type->isTimestamp() && (unit > hdk::ir::TimeUnit::kSecond);
+  const int64_t scale = is_hpt ? hdk::ir::unitsPerSecond(unit) : 1;
   switch (extract_field) {
     case hdk::ir::DateExtractField::kYear: {
       if (arg_range.getType() == ExpressionRangeType::Invalid) {
@@ -847,21 +853,29 @@ ExpressionRange getExpressionRange(
       }
       CHECK(arg_range.getType() == ExpressionRangeType::Integer);
       const int64_t year_range_min =
-          is_hpt
-              ? ExtractFromTime(hdk::ir::DateExtractField::kYear,
-                                arg_range.getIntMin() / hdk::ir::unitsPerSecond(unit))
-              : ExtractFromTime(hdk::ir::DateExtractField::kYear, arg_range.getIntMin());
+          is_hpt ? ExtractFromTime(hdk::ir::DateExtractField::kYear,
+                                   floorDiv(arg_range.getIntMin(), scale))
+                 : ExtractFromTime(hdk::ir::DateExtractField::kYear, arg_range.getIntMin());
       const int64_t year_range_max =
-          is_hpt
-              ? ExtractFromTime(hdk::ir::DateExtractField::kYear,
-                                arg_range.getIntMax() / hdk::ir::unitsPerSecond(unit))
-              : ExtractFromTime(hdk::ir::DateExtractField::kYear, arg_range.getIntMax());
+          is_hpt ? ExtractFromTime(hdk::ir::DateExtractField::kYear,
+                                   arg_range.getIntMax() / scale)
+                 : ExtractFromTime(hdk::ir::DateExtractField::kYear, arg_range.getIntMax());
       return ExpressionRange::makeIntRange(
           year_range_min, year_range_max, 0, arg_range.hasNulls());
     }
     case hdk::ir::DateExtractField::kEpoch:
-    case hdk::ir::DateExtractField::kDateEpoch:
-      return arg_range;
+    case hdk::ir::DateExtractField::kDateEpoch: {
+      if (arg_range.getType() == ExpressionRangeType::Invalid) {
+        return ExpressionRange::makeInvalidRange();
+      }
+      CHECK(arg_range.getType() == ExpressionRangeType::Integer);
+      // These are in seconds, kDateEpoch is the start of the day.
+      return ExpressionRange::makeIntRange(
+          ExtractFromTime(extract_field, floorDiv(arg_range.getIntMin(), scale)),
+          arg_range.getIntMax() / scale,
+          is_hpt ? 0 : arg_range.getBucket(),
+          arg_range.hasNulls());
+    }
     case hdk::ir::DateExtractField::kQuarterDay:
     case hdk::ir::DateExtractField::kQuarter:
       return ExpressionRange::makeIntRange(1, 4, 0, has_nulls);
@@ -875,12 +889,13 @@ ExpressionRange getExpressionRange(
       return ExpressionRange::makeIntRange(0, 59, 0, has_nulls);
     case hdk::ir::DateExtractField::kSecond:
       return ExpressionRange::makeIntRange(0, 60, 0, has_nulls);
+    // Subsecond fields include the second, i.e. are relative to the minute.
     case hdk::ir::DateExtractField::kMilli:
-      return ExpressionRange::makeIntRange(0, 999, 0, has_nulls);
+      return ExpressionRange::makeIntRange(0, 59999, 0, has_nulls);
     case hdk::ir::DateExtractField::kMicro:
-      return ExpressionRange::makeIntRange(0, 999999, 0, has_nulls);
+      return ExpressionRange::makeIntRange(0, 59999999, 0, has_nulls);
     case hdk::ir::DateExtractField::kNano:
-      return ExpressionRange::makeIntRange(0, 999999999, 0, has_nulls);
+      return ExpressionRange::makeIntRange(0, 59999999999LL, 0, has_nulls);
     case hdk::ir::DateExtractField::kDayOfWeek:
       return ExpressionRange::makeIntRange(0, 6, 0, has_nulls);
     case hdk::ir::DateExtractField::kIsoDayOfWeek:
-- 
2.43.0


From ffa2ad7cfb0237c40952586cdd7dcfc7861433ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:47 +0000
Subject: [PATCH 13/18] fix: compare all own strings of derived string
 dictionaries

---
 omniscidb/StringDictionary/StringDictionary.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omniscidb/StringDictionary/StringDictionary.cpp b/omniscidb/StringDictionary/StringDictionary.cpp
index ccc267b..0e1c35e 100644
--- a/omniscidb/StringDictionary/StringDictionary.cpp
+++ b/omniscidb/StringDictionary/StringDictionary.cpp
@@ -142,8 +142,8 @@ bool StringDictionary::operator==(StringDictionary const& rhs) const {
     return false;
   }
 
-  for (auto str_id = base_generation_; str_id < static_cast<int64_t>(str_count_);
-       ++str_id) {
+  const auto str_id_end = base_generation_ + static_cast<int64_t>(str_count_);
+  for (auto str_id = base_generation_; str_id < str_id_end; ++str_id) {
     if (getOwnedStringChecked(str_id) != rhs.getOwnedStringChecked(str_id)) {
       return false;
     }
-- 
2.43.0


From 1800cef380a90a8890849eec4ed4dea4d0d3847b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:47 +0000
Subject: [PATCH 14/18] fix: parallel bulk load of equal strings into an empty
 string dictionary

---
 omniscidb/StringDictionary/StringDictionary.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/omniscidb/StringDictionary/StringDictionary.cpp b/omniscidb/StringDictionary/StringDictionary.cpp
index 0e1c35e..551fb17 100644
--- a/omniscidb/StringDictionary/StringDictionary.cpp
+++ b/omniscidb/StringDictionary/StringDictionary.cpp
@@ -1246,8 +1246,7 @@ uint32_t StringDictionary::computeBucketFromStorageAndMemory(
     }
     auto candidate_string_index = idToIndex(candidate_string_id);
     if (!materialize_hashes_ || (input_string_hash == hashById(candidate_string_id))) {
-      if (candidate_string_index > 0 &&
-          static_cast<size_t>(candidate_string_index) >= storage_high_water_mark) {
+      if (static_cast<size_t>(candidate_string_index) >= storage_high_water_mark) {
         // The candidate string is not in storage yet but in our string_memory_ids temp
         // buffer
         size_t memory_offset =
-- 
2.43.0


From 68591cd9d645609bc6c91fd6ccb5227bde7b8ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:47 +0000
Subject: [PATCH 15/18] fix: 8 and 16 bit ids of strings missing in the base of
 a derived string dictionary

---
 .../StringDictionary/StringDictionary.cpp     | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/omniscidb/StringDictionary/StringDictionary.cpp b/omniscidb/StringDictionary/StringDictionary.cpp
index 551fb17..015aae4 100644
--- a/omniscidb/StringDictionary/StringDictionary.cpp
+++ b/omniscidb/StringDictionary/StringDictionary.cpp
@@ -364,21 +364,21 @@ size_t StringDictionary::getBulk(const std::vector<String>& string_vec,
   }
   // If we're here the generation-capped dictionary has strings in it
   // that we need to look up against
-  size_t found_owned = tbb::parallel_reduce(
+  return tbb::parallel_reduce(
       tbb::blocked_range<int64_t>(
           0, num_lookup_strings, target_strings_per_thread /* tbb grain_size */),
       (size_t)0,
-      [&](const tbb::blocked_range<int64_t>& r, size_t found) {
+      [&](const tbb::blocked_range<int64_t>& r, size_t not_found) {
         const int64_t start_idx = r.begin();
         const int64_t end_idx = r.end();
         for (int64_t string_idx = start_idx; string_idx != end_idx; ++string_idx) {
-          if (base_dict_ && encoded_vec[string_idx] != StringDictionary::INVALID_STR_ID) {
+          if (base_dict_ && encoded_vec[string_idx] !=
+                                static_cast<T>(StringDictionary::INVALID_STR_ID)) {
             continue;
           }
           const auto& input_string = string_vec[string_idx];
           if (input_string.empty()) {
             encoded_vec[string_idx] = inline_int_null_value<T>();
-            ++found;
             continue;
           }
           if (input_string.size() > StringDictionary::MAX_STRLEN) {
@@ -389,16 +389,14 @@ size_t StringDictionary::getBulk(const std::vector<String>& string_vec,
           if (string_id == StringDictionary::INVALID_STR_ID ||
               string_id >= num_dict_strings) {
             encoded_vec[string_idx] = StringDictionary::INVALID_STR_ID;
+            ++not_found;
             continue;
           }
           encoded_vec[string_idx] = string_id;
-          ++found;
         }
-        return found;
+        return not_found;
       },
       std::plus<size_t>());
-
-  return base_num_strings_not_found - found_owned;
 }
 
 template size_t StringDictionary::getBulk(const std::vector<std::string>& string_vec,
@@ -433,7 +431,7 @@ void StringDictionary::getOrAddBulk(const std::vector<String>& input_strings,
   size_t idx = 0;
   for (const auto& input_string : input_strings) {
     // Skip strings found in the base dictionary.
-    if (base_dict_ && output_string_ids[idx] != INVALID_STR_ID) {
+    if (base_dict_ && output_string_ids[idx] != static_cast<T>(INVALID_STR_ID)) {
       ++idx;
       continue;
     }
@@ -499,7 +497,8 @@ void StringDictionary::getOrAddBulkParallel(const std::vector<String>& input_str
   size_t input_string_idx{0};
   for (const auto& input_string : input_strings) {
     // Skip strings found in the base dictionary.
-    if (base_dict_ && output_string_ids[input_string_idx] != INVALID_STR_ID) {
+    if (base_dict_ &&
+        output_string_ids[input_string_idx] != static_cast<T>(INVALID_STR_ID)) {
       ++input_string_idx;
       continue;
     }
-- 
2.43.0


From c1e4bcdde4a210cf5f72544a72bb1924a5a71e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:47 +0000
Subject: [PATCH 16/18] fix: id limit of narrow columns in derived string
 dictionaries

---
 omniscidb/StringDictionary/StringDictionary.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/omniscidb/StringDictionary/StringDictionary.cpp b/omniscidb/StringDictionary/StringDictionary.cpp
index 015aae4..5bd72e4 100644
--- a/omniscidb/StringDictionary/StringDictionary.cpp
+++ b/omniscidb/StringDictionary/StringDictionary.cpp
@@ -451,7 +451,8 @@ void StringDictionary::getOrAddBulk(const std::vector<String>& input_strings,
     }
     // need to add record to dictionary
     // check there is room
-    if (str_count_ > static_cast<size_t>(max_valid_int_value<T>())) {
+    if (static_cast<size_t>(indexToId(str_count_)) >
+        static_cast<size_t>(max_valid_int_value<T>())) {
       throw_encoding_error<T>(input_string, dict_ref_);
     }
     CHECK_LT(str_count_, MAX_STRCOUNT)
@@ -539,7 +540,8 @@ void StringDictionary::getOrAddBulkParallel(const std::vector<String>& input_str
     }
     // Did not find string, so need to add record to dictionary
     // First check there is room
-    if (shadow_str_count > static_cast<size_t>(max_valid_int_value<T>())) {
+    if (static_cast<size_t>(indexToId(shadow_str_count)) >
+        static_cast<size_t>(max_valid_int_value<T>())) {
       throw_encoding_error<T>(input_string, dict_ref_);
     }
     CHECK_LT(shadow_str_count, MAX_STRCOUNT)
-- 
2.43.0


From ce5d13ce557b0b264a603e535214a2e5091fafb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:35 +0000
Subject: [PATCH 17/18] fix: unPin of a buffer to be deleted unlocked a mutex
 that was gone

The last unPin of a buffer marked for deletion deleted it while a lock_guard still held its pin mutex.
---
 omniscidb/DataMgr/BufferMgr/Buffer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omniscidb/DataMgr/BufferMgr/Buffer.h b/omniscidb/DataMgr/BufferMgr/Buffer.h
index 92a880e..1ec1495 100644
--- a/omniscidb/DataMgr/BufferMgr/Buffer.h
+++ b/omniscidb/DataMgr/BufferMgr/Buffer.h
@@ -135,9 +135,10 @@ class Buffer : public AbstractBuffer {
   }
 
   inline int unPin() override {
-    std::lock_guard<std::mutex> pin_lock(pin_mutex_);
+    std::unique_lock<std::mutex> pin_lock(pin_mutex_);
     int res = (--pin_count_);
     if (!res && delete_on_unpin_) {
+      pin_lock.unlock();
       delete this;
     }
     return res;
-- 
2.43.0


From a74a8a6355a25973796f4df266458a6fe879cf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:35 +0000
Subject: [PATCH 18/18] fix: a fetch that fails leaves the buffer pool usable

When the parent threw, getBuffer left the chunk marked as in progress, so that later requests waited forever, and pinned for good, or an empty pinned buffer in the pool.
---
 omniscidb/DataMgr/BufferMgr/BufferMgr.cpp | 27 +++++++++++++++++------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp b/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
index fc710d4..139b54e 100644
--- a/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
+++ b/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
@@ -729,13 +729,21 @@ AbstractBuffer* BufferMgr::getBuffer(const ChunkKey& key, const size_t num_bytes
           in_progress_buffer_cvs_[key] = std::make_shared<std::condition_variable>();
 
           chunk_index_lock.unlock();
-          // need to fetch part of buffer we don't have - up to numBytes
-          parent_mgr_->fetchBuffer(key, buffer_it->second->buffer, num_bytes);
 
-          chunk_index_lock.lock();
-          in_progress_buffer_cvs_[key]->notify_all();
-          in_progress_buffer_cvs_.erase(key);
-          chunk_index_lock.unlock();
+          ScopeGuard sg([&]() {
+            chunk_index_lock.lock();
+            in_progress_buffer_cvs_[key]->notify_all();
+            in_progress_buffer_cvs_.erase(key);
+            chunk_index_lock.unlock();
+          });
+
+          // need to fetch part of buffer we don't have - up to numBytes
+          try {
+            parent_mgr_->fetchBuffer(key, buffer_it->second->buffer, num_bytes);
+          } catch (...) {
+            buffer_it->second->buffer->unPin();
+            throw;
+          }
         } else {
           chunk_index_lock.unlock();
         }
@@ -763,7 +771,12 @@ AbstractBuffer* BufferMgr::getBuffer(const ChunkKey& key, const size_t num_bytes
           AbstractBuffer* buffer = createBuffer(key, page_size_, num_bytes);
           // This should put buffer in a BufferSegment.
           // ColumnarConversionNotSupported exception can be thrown here.
-          parent_mgr_->fetchBuffer(key, buffer, num_bytes);
+          try {
+            parent_mgr_->fetchBuffer(key, buffer, num_bytes);
+          } catch (...) {
+            deleteBuffer(key);
+            throw;
+          }
           res = buffer;
         }
       }
-- 
2.43.0

