// @sources omniscidb/IR/Expr.cpp omniscidb/IR/Type.cpp omniscidb/IR/Context.cpp omniscidb/IR/Datum.cpp omniscidb/Shared/misc.cpp omniscidb/Shared/DateTimeParser.cpp omniscidb/Shared/StringTransform.cpp omniscidb/QueryEngine/DateTruncate.cpp
// @flags -iquote $VERIF/stubs/rel -I$VERIF/stubs/boostpred -include $VERIF/stubs/strm.h -include $VERIF/stubs/Logger/Logger.h
// @bounds pairs of expressions of each kind, each with up to 2 (3 for CASE) symbolic operands (any 32-bit constant or any column of any table) and every value of its own attributes; constants of every type and value, strings of up to 2 characters
// @assume operands of one kind of expression have one type; columns of one database; floating-point constants are not NaN
#include "IR/Context.h"
#include "IR/Expr.h"
#include "sym.h"
using namespace hdk::ir;
static Context& ctx() { return Context::defaultCtx(); }
static void check(const ExprPtr& a, const ExprPtr& b, bool same) {
  bool ab = *a == *b, ba = *b == *a;
  ASSERTM(ab == same, "expressions are equal exactly when all their parts are");
  ASSERTM(ba == same, "equality is symmetric");
  if (same) ASSERTM(a->hash() == b->hash(), "equal expressions have equal hashes");
}
struct L {  // an operand
  ExprPtr e;
  int32_t v;
};
static L leaf(const char* n) {
  L l;
  l.v = sym_i32(n);
  Datum d{0};
  d.intval = l.v;
  l.e = makeExpr<Constant>(ctx().int32(), false, d);
  return l;
}
static L column(const char* n) {
  L l;
  l.v = sym_i32(n);
  l.e = makeExpr<ColumnVar>(std::make_shared<ColumnInfo>(1, 2, l.v, "c", ctx().int32(), false), 0);
  return l;
}
static bool operator==(const L& a, const L& b) { return a.v == b.v; }
template <class T> static Datum put(T Datum::*f, T v) { Datum d{0}; d.*f = v; return d; }
// two floating-point numbers: different, the same bits, or zeros of both signs (no others are equal)
template <class T> static void fpPair(T& a, T& b) {
  if constexpr (sizeof(T) == 4) a = sym_f32("a"), b = sym_f32("b");
  else a = sym_f64("a"), b = sym_f64("b");
  switch (sym_choose("pair", 0, 2)) {
    case 0: sym_assume(a < b || a > b); break;
    case 1: sym_assume(a == a); b = a; break;
    default: a = 0, b = -a;
  }
}
HARNESS(h_constant) {
  int k = sym_choose("type", 0, 12);
  const Type* t;
  Datum a{0}, b{0};
  bool same;
  switch (k) {
    case 0: t = ctx().boolean(); a.boolval = sym_bool("a"), b.boolval = sym_bool("b"); same = a.boolval == b.boolval; break;
    case 1: t = ctx().int8(); a.tinyintval = sym_i8("a"), b.tinyintval = sym_i8("b"); same = a.tinyintval == b.tinyintval; break;
    case 2: t = ctx().int16(); a.smallintval = sym_i16("a"), b.smallintval = sym_i16("b"); same = a.smallintval == b.smallintval; break;
    case 3: t = ctx().int32(); a.intval = sym_i32("a"), b.intval = sym_i32("b"); same = a.intval == b.intval; break;
    case 4: t = ctx().fp32(); fpPair(a.floatval, b.floatval); same = a.floatval == b.floatval; break;
    case 5: t = ctx().fp64(); fpPair(a.doubleval, b.doubleval); same = a.doubleval == b.doubleval; break;
    case 6: t = ctx().extDict(ctx().text(), 1, 4); a.intval = sym_i32("a"), b.intval = sym_i32("b"); same = a.intval == b.intval; break;
    default:
      t = k == 7 ? (const Type*)ctx().int64() : k == 8 ? (const Type*)ctx().decimal64(18, 2) : k == 9 ? (const Type*)ctx().timestamp(TimeUnit::kMilli) : k == 10 ? (const Type*)ctx().date64(TimeUnit::kSecond) : k == 11 ? (const Type*)ctx().time64(TimeUnit::kSecond) : ctx().interval64(TimeUnit::kDay);
      a.bigintval = sym_i64("a"), b.bigintval = sym_i64("b");
      same = a.bigintval == b.bigintval;
  }
  bool na = k != 12 && k != 6 && sym_choose("a_null", 0, 1), nb = k != 12 && k != 6 && sym_choose("b_null", 0, 1);
  auto x = makeExpr<Constant>(t, na, a), y = makeExpr<Constant>(t, nb, b);
  check(x, y, na == nb && (na || same));
  sym_cover("constant");
}
HARNESS(h_constant_text) {
  std::string s[2];
  for (auto& x : s)
    for (int n = sym_choose("length", 0, 2); n; n--) x.push_back((char)sym_u8("c"));
  bool same = s[0].size() == s[1].size();
  if (same)
    for (size_t i = 0; i < s[0].size(); i++) same &= s[0][i] == s[1][i];
  Datum d{0}, e{0};
  d.stringval = new std::string(s[0]), e.stringval = new std::string(s[1]);
  auto x = makeExpr<Constant>(ctx().text(), false, d), y = makeExpr<Constant>(ctx().text(), false, e);
  bool r = *x == *y;
  ASSERTM(r == same, "texts are equal exactly when their characters are");
  if (same) ASSERTM(x->hash() == y->hash(), "equal expressions have equal hashes");
  sym_cover("text");
}
static const Type* typeNo(int i) {
  switch (i) {
    case 0: return ctx().int8();
    case 1: return ctx().int32();
    case 2: return ctx().int64();
    case 3: return ctx().decimal64(10, 2);
    case 4: return ctx().decimal64(10, 3);
    case 5: return ctx().timestamp(TimeUnit::kSecond);
    case 6: return ctx().timestamp(TimeUnit::kNano);
    default: return ctx().int32(false);
  }
}
HARNESS(h_types) {
  int i = sym_choose("a", 0, 7), j = sym_choose("b", 0, 7);
  bool null = sym_choose("null", 0, 1);
  Datum d{0};
  if (null) check(makeExpr<Constant>(typeNo(i), true, d), makeExpr<Constant>(typeNo(j), true, d), i == j);
  auto x = leaf("x"), y = leaf("y");
  // a cast to another type is another value
  check(makeExpr<UOper>(typeNo(i), OpType::kCast, x.e), makeExpr<UOper>(typeNo(j), OpType::kCast, y.e), i == j && x == y);
  sym_cover("types");
}
HARNESS(h_column) {
  int id[2][3];
  ExprPtr e[2];
  for (int i = 0; i < 2; i++) {
    for (auto& x : id[i]) x = sym_i32("id");
    sym_assume(id[i][2] >= 0);
    e[i] = makeExpr<ColumnVar>(std::make_shared<ColumnInfo>(1, id[i][0], id[i][1], "c", ctx().int32(), false), id[i][2]);
  }
  check(e[0], e[1], id[0][0] == id[1][0] && id[0][1] == id[1][1] && id[0][2] == id[1][2]);
  sym_cover("column");
}
HARNESS(h_unary) {
  static const OpType ops[] = {OpType::kNot, OpType::kUMinus, OpType::kIsNull, OpType::kBwNot, OpType::kUnnest};
  int i = sym_choose("a", 0, 4), j = sym_choose("b", 0, 4);
  auto x = column("x"), y = column("y");
  check(makeExpr<UOper>(ctx().int32(), ops[i], x.e), makeExpr<UOper>(ctx().int32(), ops[j], y.e), i == j && x == y);
  sym_cover("unary");
}
HARNESS(h_binary) {
  static const OpType ops[] = {OpType::kEq, OpType::kNe, OpType::kLt, OpType::kGt, OpType::kLe, OpType::kGe, OpType::kAnd, OpType::kOr, OpType::kMinus, OpType::kPlus, OpType::kMul, OpType::kDiv, OpType::kMod, OpType::kArrayAt};
  static const Qualifier qs[] = {Qualifier::kOne, Qualifier::kAny, Qualifier::kAll};
  int i = sym_choose("a", 0, 13), j = sym_choose("b", 0, 13), p = 0, q = 0;
  if (i <= 5 && j <= 5) p = sym_choose("p", 0, 2), q = sym_choose("q", 0, 2);
  auto x = column("x"), y = leaf("y"), u = column("u"), v = leaf("v");
  check(makeExpr<BinOper>(ctx().int32(), ops[i], qs[p], x.e, y.e), makeExpr<BinOper>(ctx().int32(), ops[j], qs[q], u.e, v.e), i == j && p == q && x == u && y == v);
  sym_cover("binary");
}
HARNESS(h_range) {
  int f = sym_choose("flags", 0, 15);
  auto x = leaf("x"), y = leaf("y"), u = leaf("u"), v = leaf("v");
  check(makeExpr<RangeOper>(f & 1, f & 2, x.e, y.e), makeExpr<RangeOper>(f & 4, f & 8, u.e, v.e), (f & 3) == (f >> 2) && x == u && y == v);
  sym_cover("range");
}
// lists of 0..2 operands: array constructor, IN list, tuple, function arguments
static void list(ExprPtrVector& v, std::vector<int32_t>& w) {
  for (int n = sym_choose("length", 0, 2); n; n--) {
    auto l = leaf("element");
    v.push_back(l.e);
    w.push_back(l.v);
  }
}
static bool sameList(const std::vector<int32_t>& a, const std::vector<int32_t>& b) {
  if (a.size() != b.size()) return false;
  bool r = true;
  for (size_t i = 0; i < a.size(); i++) r &= a[i] == b[i];
  return r;
}
HARNESS(h_list) {
  int k = sym_choose("kind", 0, 4);
  ExprPtrVector v, w;
  std::vector<int32_t> a, b;
  list(v, a);
  list(w, b);
  bool same = sameList(a, b);
  auto x = column("x"), y = column("y");
  if (k == 0) {
    bool m = a.empty() && sym_choose("a_null", 0, 1), n = b.empty() && sym_choose("b_null", 0, 1);
    check(makeExpr<ArrayExpr>(ctx().arrayVarLen(ctx().int32()), v, m), makeExpr<ArrayExpr>(ctx().arrayVarLen(ctx().int32()), w, n), same && m == n);
  } else if (k == 1) {
    check(makeExpr<InValues>(x.e, ExprPtrList(v.begin(), v.end())), makeExpr<InValues>(y.e, ExprPtrList(w.begin(), w.end())), same && x == y);
  } else if (k == 2) {
    check(makeExpr<ExpressionTuple>(v), makeExpr<ExpressionTuple>(w), same);
  } else if (k == 3) {
    bool f = sym_choose("f", 0, 1), g = sym_choose("g", 0, 1);
    check(makeExpr<FunctionOper>(ctx().int32(), f ? "f" : "g", v), makeExpr<FunctionOper>(ctx().int32(), g ? "f" : "g", w), same && f == g);
  } else {
    check(makeExpr<InIntegerSet>(x.e, std::vector<int64_t>(a.begin(), a.end()), true), makeExpr<InIntegerSet>(y.e, std::vector<int64_t>(b.begin(), b.end()), true), same && x == y);
  }
  sym_cover("list");
}
HARNESS(h_case) {
  ExprPtr e[2];
  std::vector<int32_t> w[2];
  for (int i = 0; i < 2; i++) {
    std::list<std::pair<ExprPtr, ExprPtr>> l;
    int n = sym_choose("whens", 1, 2);
    w[i].push_back(n);
    for (int j = 0; j < n; j++) {
      auto c = column("when"), d = leaf("then");
      l.emplace_back(c.e, d.e);
      w[i].push_back(c.v);
      w[i].push_back(d.v);
    }
    ExprPtr els;
    if (sym_choose("else", 0, 1)) {
      auto d = leaf("else_value");
      els = d.e;
      w[i].push_back(d.v);
    }
    e[i] = makeExpr<CaseExpr>(ctx().int32(), false, l, els);
  }
  check(e[0], e[1], sameList(w[0], w[1]));
  sym_cover("case");
}
HARNESS(h_like) {
  bool re = sym_choose("regexp", 0, 1);
  auto x = column("x"), y = leaf("y"), u = column("u"), v = leaf("v"), s = leaf("escape"), t = leaf("escape2");
  bool hs = sym_choose("has_escape", 0, 1), ht = sym_choose("has_escape2", 0, 1);
  bool same = x == u && y == v && hs == ht && (!hs || s == t);
  if (re) {
    check(makeExpr<RegexpExpr>(x.e, y.e, hs ? s.e : nullptr), makeExpr<RegexpExpr>(u.e, v.e, ht ? t.e : nullptr), same);
  } else {
    bool i = sym_choose("ilike", 0, 1), j = sym_choose("ilike2", 0, 1);
    check(makeExpr<LikeExpr>(x.e, y.e, hs ? s.e : nullptr, i, false), makeExpr<LikeExpr>(u.e, v.e, ht ? t.e : nullptr, j, false), same && i == j);
  }
  sym_cover("like");
}
HARNESS(h_single) {
  auto x = column("x"), y = column("y");
  switch (sym_choose("kind", 0, 5)) {
    case 0: {
      bool i = sym_choose("encoded", 0, 1), j = sym_choose("encoded2", 0, 1);
      check(makeExpr<CharLengthExpr>(x.e, i), makeExpr<CharLengthExpr>(y.e, j), x == y && i == j);
      break;
    }
    case 1: check(makeExpr<KeyForStringExpr>(x.e), makeExpr<KeyForStringExpr>(y.e), x == y); break;
    case 2: check(makeExpr<SampleRatioExpr>(x.e), makeExpr<SampleRatioExpr>(y.e), x == y); break;
    case 3: check(makeExpr<LowerExpr>(x.e), makeExpr<LowerExpr>(y.e), x == y); break;
    case 4: check(makeExpr<CardinalityExpr>(x.e), makeExpr<CardinalityExpr>(y.e), x == y); break;
    case 5: {
      float a = sym_choose("likely", 0, 1) ? 0.9 : 0.1, b = sym_choose("likely2", 0, 1) ? 0.9 : 0.1;
      check(makeExpr<LikelihoodExpr>(x.e, a), makeExpr<LikelihoodExpr>(y.e, b), x == y && a == b);
    }
  }
  sym_cover("single operand");
}
HARNESS(h_width_bucket) {
  L p[2][4];
  for (auto& q : p)
    for (auto& x : q) x = leaf("operand");
  bool same = true;
  for (int i = 0; i < 4; i++) same &= p[0][i] == p[1][i];
  check(makeExpr<WidthBucketExpr>(p[0][0].e, p[0][1].e, p[0][2].e, p[0][3].e), makeExpr<WidthBucketExpr>(p[1][0].e, p[1][1].e, p[1][2].e, p[1][3].e), same);
  sym_cover("width_bucket");
}
HARNESS(h_aggregate) {
  static const AggType ts[] = {AggType::kAvg, AggType::kMin, AggType::kMax, AggType::kSum, AggType::kCount, AggType::kApproxCountDistinct, AggType::kApproxQuantile, AggType::kQuantile, AggType::kTopK, AggType::kCorr};
  int i = sym_choose("a", 0, 9), j = sym_choose("b", 0, 9);
  bool d = i == 4 && sym_choose("distinct", 0, 1), e = j == 4 && sym_choose("distinct2", 0, 1);
  auto x = column("x"), y = column("y"), p = leaf("param"), q = leaf("param2");
  bool noX = i == 4 && sym_choose("star", 0, 1), noY = j == 4 && sym_choose("star2", 0, 1);
  bool ip = i == 7 && sym_choose("interpolation", 0, 1), jp = j == 7 && sym_choose("interpolation2", 0, 1);
  auto mk = [&](int i, bool none, L& x, bool d, L& p, bool ip) {
    return makeExpr<AggExpr>(ctx().int32(), ts[i], none ? nullptr : x.e, d, i >= 5 ? p.e : nullptr, ip ? Interpolation::kLower : Interpolation::kLinear);
  };
  bool same = i == j && d == e && noX == noY && (noX || x == y) && (i < 5 || p == q) && ip == jp;
  check(mk(i, noX, x, d, p, ip), mk(j, noY, y, e, q, jp), same);
  sym_cover("aggregate");
}
HARNESS(h_date) {
  auto x = column("x"), y = leaf("y"), u = column("u"), v = leaf("v");
  int f = (int)sym_choose("field", 0, 15), g = (int)sym_choose("field2", 0, 15);
  auto t = ctx().timestamp(TimeUnit::kSecond);
  switch (sym_choose("kind", 0, 3)) {
    case 0: check(makeExpr<ExtractExpr>(t, false, (DateExtractField)f, x.e), makeExpr<ExtractExpr>(t, false, (DateExtractField)g, u.e), f == g && x == u); break;
    case 1: check(makeExpr<DateTruncExpr>(t, false, (DateTruncField)f, x.e), makeExpr<DateTruncExpr>(t, false, (DateTruncField)g, u.e), f == g && x == u); break;
    case 2: check(makeExpr<DateAddExpr>(t, (DateAddField)f, y.e, x.e), makeExpr<DateAddExpr>(t, (DateAddField)g, v.e, u.e), f == g && x == u && y == v); break;
    default: check(makeExpr<DateDiffExpr>(t, (DateTruncField)f, x.e, y.e), makeExpr<DateDiffExpr>(t, (DateTruncField)g, u.e, v.e), f == g && x == u && y == v);
  }
  sym_cover("date");
}
HARNESS(h_window) {
  ExprPtr e[2];
  std::vector<int32_t> w[2];
  for (int i = 0; i < 2; i++) {
    ExprPtrVector args, part, order;
    std::vector<OrderEntry> coll;
    int shape = sym_choose("shape", 0, 3);  // which of partition and order clause are there
    int kind = sym_choose("kind", 0, 1);
    auto x = column("x");
    args.push_back(x.e);
    w[i] = {shape, kind, x.v};
    if (shape & 1) {
      auto p = column("partition");
      part.push_back(p.e);
      w[i].push_back(p.v);
    }
    if (shape & 2) {
      auto o = column("order");
      order.push_back(o.e);
      int f = sym_choose("direction", 0, 3);
      coll.emplace_back(1, f & 1, f & 2);
      w[i].push_back(o.v);
      w[i].push_back(f);
    }
    e[i] = makeExpr<WindowFunction>(ctx().int32(), kind ? WindowFunctionKind::Sum : WindowFunctionKind::Count, args, part, order, coll);
  }
  check(e[0], e[1], sameList(w[0], w[1]));
  sym_cover("window");
}
// expressions of different kinds
static ExprPtr kindNo(int i) {
  auto x = column("x"), y = leaf("y");
  auto t = ctx().int32();
  switch (i) {
    case 0: return x.e;
    case 1: return y.e;
    case 2: return makeExpr<UOper>(t, OpType::kUMinus, x.e);
    case 3: return makeExpr<BinOper>(t, OpType::kPlus, Qualifier::kOne, x.e, y.e);
    case 4: return makeExpr<RangeOper>(true, true, x.e, y.e);
    case 5: return makeExpr<InValues>(x.e, ExprPtrList{y.e});
    case 6: return makeExpr<CharLengthExpr>(x.e, false);
    case 7: return makeExpr<KeyForStringExpr>(x.e);
    case 8: return makeExpr<SampleRatioExpr>(x.e);
    case 9: return makeExpr<LowerExpr>(x.e);
    case 10: return makeExpr<CardinalityExpr>(x.e);
    case 11: return makeExpr<LikeExpr>(x.e, y.e, nullptr, false, false);
    case 12: return makeExpr<RegexpExpr>(x.e, y.e, nullptr);
    case 13: return makeExpr<AggExpr>(t, AggType::kSum, x.e, false, nullptr);
    case 14: return makeExpr<ExtractExpr>(t, false, DateExtractField::kYear, x.e);
    case 15: return makeExpr<DateTruncExpr>(t, false, DateTruncField::kYear, x.e);
    case 16: return makeExpr<FunctionOper>(t, "f", ExprPtrVector{x.e});
    case 17: return makeExpr<ArrayExpr>(t, ExprPtrVector{x.e});
    case 18: return makeExpr<OffsetInFragment>();
    case 19: return makeExpr<ExpressionTuple>(ExprPtrVector{x.e});
    case 20: return makeExpr<LikelihoodExpr>(x.e);
    default: return makeExpr<WindowFunction>(t, WindowFunctionKind::Sum, ExprPtrVector{x.e}, ExprPtrVector{}, ExprPtrVector{}, std::vector<OrderEntry>{});
  }
}
HARNESS(h_kinds) {
  int i = sym_choose("a", 0, 21), j = sym_choose("b", 0, 21);
  auto a = kindNo(i), b = kindNo(j);
  bool e = *a == *b;
  ASSERTM(i == j || !e, "expressions of different kinds differ");
  ASSERTM(*a == *a, "an expression equals itself");
  sym_cover("kinds");
}
