import sys; sys.path.insert(0, "/verif/tools")
from mkseed import seed
only = sys.argv[1:]
Q = "omniscidb/QueryEngine/"
def S(id, *a, **k):
    if not only or id in only: seed(id, *a, **k)
PRE = '#include <cstdio>\n#include <cstdlib>\n#define REQ(c) do { if (!(c)) { printf("wrong: %s\\n", #c); exit(1); } } while (0)\n'
RT = '#include "QueryEngine/RuntimeFunctions.cpp"\n' + PRE
LOG = '-include "$D/stubs/Logger/Logger.h"'
EXPR = ["omniscidb/IR/Expr.cpp", "omniscidb/IR/Type.cpp", "omniscidb/IR/Context.cpp", "omniscidb/IR/Datum.cpp", "omniscidb/Shared/misc.cpp", "omniscidb/Shared/DateTimeParser.cpp", "omniscidb/Shared/StringTransform.cpp"]
EF = '-iquote "$D/stubs/rel" -I"$D/stubs/boostpred" ' + LOG
S("s10", "C14", "adding months to the 29th, 30th or 31st such that the result is in February of a year divisible by 400",
  "29 February 2000 (and 1600, 2400) is clamped to the 28th by DATEADD",
  [(Q + "DateAdd.cpp", "(++yoe % 4 == 0 && (yoe % 100 != 0 || yoe == 400))", "(++yoe % 4 == 0 && (yoe % 100 != 0 || yoe == 0))")],
  PRE + '''#include <cstdint>
#include "QueryEngine/DateAdd.cpp"
int main() { REQ(DateAdd(hdk::ir::DateAddField::kMonth, 1, 949276800) == 949276800 + 29 * 86400LL); REQ(DateAdd(hdk::ir::DateAddField::kYear, 4, 951782400) == 951782400 + 1461 * 86400LL);
  REQ(DateAdd(hdk::ir::DateAddField::kMonth, 1, 980899200) == 980899200 + 28 * 86400LL); }''', flags="-DEXECUTE_INCLUDE")
S("s11", "C18", "a pattern with an escaped '[' directly after '%'",
  "the escaped bracket after % is taken for a character class when looking for where the rest can match",
  [("omniscidb/Utils/StringLike.cpp", "if (firstpat == '[' && *p != escape_char) {", "if (firstpat == '[') {")],
  PRE + '''#include <cstdint>
#include <cstring>
#include "Utils/StringLike.h"
static bool like(const char* s, const char* p) { return string_like(s, strlen(s), p, strlen(p), '\\\\'); }
int main() { REQ(like("xa[b", "%\\\\[b")); REQ(like("ab", "%[xb]")); REQ(!like("ab", "%\\\\[xb]")); }''', srcs=["omniscidb/Utils/StringLike.cpp"])
S("s12", "C16", "a date in January or February of year 0 or before",
  "the era of a negative year is rounded towards zero, so the date is wildly wrong",
  [("omniscidb/Shared/DateTimeParser.cpp", "(y < 0 ? y - 399 : y) / 400", "y / 400")],
  PRE + '''#include "Shared/DateTimeParser.h"
int main() { auto a = dateTimeParseOptional<hdk::ir::Type::kDate>("0000-01-15", hdk::ir::TimeUnit::kSecond), b = dateTimeParseOptional<hdk::ir::Type::kDate>("0000-03-01", hdk::ir::TimeUnit::kSecond);
  REQ(a && b && *b - *a == 46 * 86400); }''', srcs=["omniscidb/Shared/DateTimeParser.cpp"], flags='-I"$D/stubs/boostpred" -I/usr/include', stubs=["boostpred"])
S("s13", "C10", "a variable-length array column whose first row is a NULL array, reading row 1",
  "the array right after a leading NULL array keeps its negative offset",
  [("omniscidb/Utils/ChunkIter.cpp", '''      // Previous array may have been NULL, remove offset negativity
      if (offset < 0) {
        offset = -offset;''', '''      // Previous array may have been NULL, remove offset negativity
      if (n > 1 && offset < 0) {
        offset = -offset;''')],
  PRE + '''#include <cstdint>
#include "Utils/ChunkIter.h"
int main() { int32_t off[4] = {0, -8, 12, -16}; int8_t data[24] = {}; ChunkIter it{}; it.num_elems = 3; it.start_pos = (int8_t*)off; it.second_buf = data; it.skip_size = -1;
  ArrayDatum d; bool e; ChunkIter_get_nth_varlen(&it, 1, &d, &e); REQ(!e && !d.is_null && d.length == 4 && d.pointer == data + 8);
  ChunkIter_get_nth_varlen(&it, 0, &d, &e); REQ(!e && d.is_null); ChunkIter_get_nth_varlen(&it, 2, &d, &e); REQ(!e && d.is_null); }''',
  srcs=["omniscidb/Utils/ChunkIter.cpp"], flags='-I"$D/stubs/boostpred" ' + LOG, stubs=["boostpred"])
S("s14", "C24", "an IN list whose values span more than 2^32",
  "membership of values more than 2^32 above the minimum is looked up in the wrong bit",
  [(Q + "RuntimeFunctions.cpp", '''  const uint64_t bitmap_idx = val - min_val;
  return (reinterpret_cast<GENERIC_ADDR_SPACE const int8_t*>(bitset))''', '''  const uint32_t bitmap_idx = val - min_val;
  return (reinterpret_cast<GENERIC_ADDR_SPACE const int8_t*>(bitset))''')],
  RT + '''int main() { int8_t* b = (int8_t*)calloc((1ull << 29) + 8, 1); REQ(b); int64_t h = (int64_t)b; int64_t lo = -5, hi = lo + (1ll << 32) + 3;
  agg_count_distinct_bitmap(&h, lo, lo); agg_count_distinct_bitmap(&h, hi, lo); REQ(bit_is_set(h, hi, lo, hi, INT64_MIN, -128) == 1); REQ(bit_is_set(h, hi - 3, lo, hi, INT64_MIN, -128) == 0); }''')
S("s15", "C31", "comparing a LIKE without an ESCAPE to one that differs from it only in having one",
  "LIKE without ESCAPE compares equal to the same LIKE with any ESCAPE",
  [("omniscidb/IR/Expr.cpp", '''  if (escape_expr_ != nullptr && rhs_lk.escapeExpr() != nullptr &&
      *escape_expr_ == *rhs_lk.escapeExpr()) {
    return true;
  }
  return false;
}

bool RegexpExpr::operator==''', '''  return escape_expr_ == nullptr || (rhs_lk.escapeExpr() != nullptr &&
                                     *escape_expr_ == *rhs_lk.escapeExpr());
}

bool RegexpExpr::operator==''')],
  PRE + '''#include "IR/Context.h"
#include "IR/Expr.h"
using namespace hdk::ir;
int main() { auto& c = Context::defaultCtx(); auto b = c.int64(); Datum d{0}; d.bigintval = 1; auto x = makeExpr<Constant>(b, false, d), y = makeExpr<Constant>(b, false, d), z = makeExpr<Constant>(b, false, d);
  auto p = makeExpr<LikeExpr>(x, y, nullptr, false, false), q = makeExpr<LikeExpr>(x, y, z, false, false), r = makeExpr<LikeExpr>(x, y, y, false, false);
  REQ(!(*p == *q)); REQ(!(*q == *p)); REQ(*q == *r); REQ(*p == *p); }''', srcs=EXPR + ["omniscidb/QueryEngine/DateTruncate.cpp"], flags=EF, stubs=["rel", "boostpred"])
S("s16", "C30", "casting the floating-point constant 9223372036854775808.0 (2^63) to BIGINT",
  "2^63 is accepted and wraps to a negative number instead of being rejected",
  [("omniscidb/IR/Expr.cpp", "if (n < static_cast<FROM>(std::numeric_limits<TO>::min()) || max_float < n) {", "if (n < static_cast<FROM>(std::numeric_limits<TO>::min()) ||\n      static_cast<FROM>(std::numeric_limits<TO>::max()) < n) {")],
  PRE + '''#include "IR/Context.h"
#include "IR/Expr.h"
using namespace hdk::ir;
static bool rejected(double v) { auto& c = Context::defaultCtx(); Datum d{0}; d.doubleval = v; auto x = makeExpr<Constant>(c.fp64(), false, d); try { x->cast(c.int64(), false); return false; } catch (std::exception&) { return true; } }
int main() { REQ(rejected(9223372036854775808.0)); REQ(!rejected(9223372036854774784.0)); REQ(!rejected(-9223372036854775808.0)); }''', srcs=EXPR + ["omniscidb/QueryEngine/DateTruncate.cpp"], flags=EF, stubs=["rel", "boostpred"])
S("s17", "C36", "grouping by DATE_TRUNC(MONTH, ts) where the data include February and March",
  "months are claimed to be at least 30 days apart, so February and March can share a slot",
  [(Q + "ExpressionRange.cpp", "return 28 * day_seconds;", "return 30 * day_seconds;")],
  PRE + '''#include "IR/Context.h"
#include "IR/Expr.h"
#include "QueryEngine/DateTruncate.h"
#include <cfenv>
using namespace hdk::ir;
extern "C" int feclearexcept(int) noexcept { return 0; }
extern "C" int fetestexcept(int) noexcept { return 0; }
int main() { auto& c = Context::defaultCtx(); static Executor e; static std::vector<InputTableInfo> q(2); e.ranges[0] = ExpressionRange::makeIntRange(0, 1700000000, 0, false);
  ExprPtr col = makeExpr<ColumnVar>(std::make_shared<ColumnInfo>(1, 5, 0, "c", c.timestamp(TimeUnit::kSecond), false), 0);
  ExprPtr t = makeExpr<DateTruncExpr>(c.timestamp(TimeUnit::kSecond), false, DateTruncField::kMonth, col);
  auto r = getExpressionRange(t.get(), q, &e, boost::none);
  REQ(r.getType() == ExpressionRangeType::Integer && r.getBucket() <= 28 * 86400 && r.getIntMin() <= 0 && r.getIntMax() >= 1698796800); }''',
  srcs=EXPR + [Q + "ExpressionRange.cpp", Q + "DateTimeTranslator.cpp", Q + "DateTruncate.cpp", "omniscidb/Utils/ExtractFromTime.cpp"],
  flags='-iquote "$D/stubs/rel" -iquote "$D/stubs/range" -I"$D/stubs/boostpred" -I"$D/stubs/range" ' + LOG + ' -include "$D/stubs/range/Execute.h"', stubs=["rel", "boostpred", "range"])
