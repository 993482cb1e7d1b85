// @sources omniscidb/DataMgr/Encoder.cpp omniscidb/DataMgr/StringNoneEncoder.cpp omniscidb/DataMgr/AbstractBuffer.cpp omniscidb/IR/Type.cpp omniscidb/IR/Context.cpp omniscidb/IR/Datum.cpp omniscidb/Shared/misc.cpp omniscidb/Shared/DateTimeParser.cpp omniscidb/Shared/StringTransform.cpp
// @flags -I$VERIF/stubs/thr -I$VERIF/stubs/boostpred -include $VERIF/stubs/Logger/Logger.h
// @bounds columns of up to 4 values (arrays: up to 2 arrays of 2 elements) of every value, every element type and width, with NULLs; fed in one or two batches, scalar by scalar, or to two encoders that are then merged; encoded data reduced in parallel with any cut; strings of up to 2 elements
// @assume floating-point values are finite; dates within the encoding's range
#include "DataMgr/ArrayNoneEncoder.h"
#include "DataMgr/DateDaysEncoder.h"
#include "DataMgr/FixedLengthArrayNoneEncoder.h"
#include "DataMgr/FixedLengthEncoder.h"
#include "DataMgr/NoneEncoder.h"
#include "DataMgr/StringNoneEncoder.h"
#include "IR/Context.h"
#include "sym.h"
using namespace hdk::ir;
struct Buf : Data_Namespace::AbstractBuffer {
  Buf(const Type* t) : AbstractBuffer(0, t) {}
  void read(int8_t* const, const size_t, const size_t, const Data_Namespace::MemoryLevel, const int) override {}
  void write(int8_t*, const size_t, const size_t, const Data_Namespace::MemoryLevel, const int) override {}
  void reserve(size_t) override {}
  void append(int8_t*, const size_t, const Data_Namespace::MemoryLevel, const int) override {}
  int8_t* getMemoryPtr() override { return nullptr; }
  size_t pageCount() const override { return 0; }
  size_t pageSize() const override { return 0; }
  size_t reservedSize() const override { return 0; }
  Data_Namespace::MemoryLevel getType() const override { return Data_Namespace::CPU_LEVEL; }
};
static Context& ctx() { return Context::defaultCtx(); }
template <class T> T symV(const char* n) {
  T v;
  if constexpr (sizeof(T) == 1) { uint8_t b = sym_u8(n); memcpy(&v, &b, 1); }
  else if constexpr (sizeof(T) == 2) { uint16_t b = sym_u16(n); memcpy(&v, &b, 2); }
  else if constexpr (sizeof(T) == 4) { uint32_t b = sym_u32(n); memcpy(&v, &b, 4); }
  else { uint64_t b = sym_u64(n); memcpy(&v, &b, 8); }
  if constexpr (std::is_floating_point_v<T>) sym_assume(v - v == 0);
  return v;
}
// what the metadata must say: the least and greatest value that is not NULL, and whether there is a NULL
template <class T> struct Want {
  T mn{}, mx{};
  bool any = false, nulls = false;
  void add(T v, bool null) {
    nulls |= null;
    mn = null ? mn : !any ? v : v < mn ? v : mn;
    mx = null ? mx : !any ? v : v > mx ? v : mx;
    any |= !null;
  }
};
template <class T> T statV(const Datum& d, const Type* t) {
  if constexpr (std::is_floating_point_v<T>) return (T)extract_fp_type_from_datum(d, t);
  else return (T)extract_int_type_from_datum(d, t);
}
template <class T> void check(const ChunkStats& s, const Type* t, const Want<T>& w) {
  ASSERTM(s.has_nulls == w.nulls, "has_nulls says whether there is a NULL");
  T mn = statV<T>(s.min, t), mx = statV<T>(s.max, t);
  ASSERTM(!w.any | ((mn == w.mn) & (mx == w.mx)), "min and max are the least and greatest values");
  ASSERTM(w.any | !(mn <= mx), "a column of NULLs has no values between min and max");
}
// T: stored type, S: type of the statistics
template <class T, class S> void scalarColumn(const Type* t, T null, int n, bool dict = false) {
  Buf a(t), b(t);
  T v[4];
  for (int i = 0; i < n; ++i) v[i] = symV<T>("value");
  Want<S> w;
  for (int i = 0; i < n; ++i) w.add((S)v[i], v[i] == null);
  int how = sym_choose("how", 0, 4);
  if (std::is_floating_point_v<T> && how == 2) sym_assume(n < 2);
  Encoder* e = a.getEncoder();
  if (how == 0) e->updateStatsEncoded((const int8_t*)v, n);
  else if (how == 1) {
    int cut = sym_choose("cut", 0, n);
    e->updateStatsEncoded((const int8_t*)v, cut);
    e->updateStatsEncoded((const int8_t*)(v + cut), n - cut);
  } else if (how == 2) {
    for (int i = 0; i < n; ++i) {
      if constexpr (std::is_floating_point_v<T>) e->updateStats((double)v[i], v[i] == null);
      else e->updateStats((int64_t)v[i], v[i] == null);
    }
  } else if (how == 3) {
    int cut = sym_choose("cut", 0, n);
    e->updateStatsEncoded((const int8_t*)v, cut);
    b.getEncoder()->updateStatsEncoded((const int8_t*)(v + cut), n - cut);
    e->reduceStats(*b.getEncoder());
  } else {
    int cut = sym_choose("cut", 0, n);
    ChunkStats x, y;
    e->updateStatsEncoded((const int8_t*)v, cut);
    b.getEncoder()->updateStatsEncoded((const int8_t*)(v + cut), n - cut);
    x = e->getMetadata(t)->chunkStats();
    y = b.getEncoder()->getMetadata(t)->chunkStats();
    mergeStats(x, y, t);
    check<S>(x, t, w);
    sym_cover("statistics merged");
    return;
  }
  check<S>(e->getMetadata()->chunkStats(), t, w);
  ChunkStats f;
  e->fillChunkStats(f, t);
  check<S>(f, t, w);
  Buf c(t);
  c.syncEncoder(&a);
  check<S>(c.getEncoder()->getMetadata(t)->chunkStats(), t, w);
  sym_cover("statistics checked");
}
static int len(int n = 2) { return sym_choose("rows", 0, n); }
HARNESS(h_int8) { scalarColumn<int8_t, int64_t>(ctx().integer(1), NULL_TINYINT, len()); }
HARNESS(h_int16) { scalarColumn<int16_t, int64_t>(ctx().integer(2), NULL_SMALLINT, len(3)); }
HARNESS(h_int32) { scalarColumn<int32_t, int64_t>(ctx().integer(4), NULL_INT, len()); }
HARNESS(h_int64) { scalarColumn<int64_t, int64_t>(ctx().integer(8), NULL_BIGINT, len()); }
HARNESS(h_bool) { scalarColumn<int8_t, int64_t>(ctx().boolean(), NULL_BOOLEAN, len()); }
HARNESS(h_decimal) { scalarColumn<int64_t, int64_t>(ctx().decimal64(10, 2), NULL_BIGINT, len()); }
HARNESS(h_time64) { scalarColumn<int64_t, int64_t>(ctx().time64(TimeUnit::kSecond), NULL_BIGINT, len()); }
HARNESS(h_timestamp) { scalarColumn<int64_t, int64_t>(ctx().timestamp(TimeUnit::kMilli), NULL_BIGINT, len()); }
HARNESS(h_float) { scalarColumn<float, float>(ctx().fp32(), NULL_FLOAT, sym_choose("rows", 0, 2)); }
HARNESS(h_double) { scalarColumn<double, double>(ctx().fp64(), NULL_DOUBLE, sym_choose("rows", 0, 2)); }
HARNESS(h_time32) { scalarColumn<int32_t, int64_t>(ctx().time32(TimeUnit::kSecond), NULL_INT, len()); }
HARNESS(h_time16) { scalarColumn<int16_t, int64_t>(ctx().time16(TimeUnit::kSecond), NULL_SMALLINT, len()); }

HARNESS(h_dict8) { scalarColumn<uint8_t, int64_t>(ctx().extDict(ctx().text(), 1, 1), 255, len()); }
HARNESS(h_dict16) { scalarColumn<uint16_t, int64_t>(ctx().extDict(ctx().text(), 1, 2), 65535, len()); }
HARNESS(h_dict32) { scalarColumn<int32_t, int64_t>(ctx().extDict(ctx().text(), 1, 4), NULL_INT, len()); }
// dates stored in days, statistics in seconds
template <class T> void dateColumn(const Type* t, T null) {
  int n = len();
  Buf a(t), b(t);
  T v[4];
  for (int i = 0; i < n; ++i) v[i] = symV<T>("day");
  Want<int64_t> w;
  for (int i = 0; i < n; ++i) w.add((int64_t)v[i] * 86400, v[i] == null);
  Encoder* e = a.getEncoder();
  int how = sym_choose("how", 0, 2);
  int cut = how ? sym_choose("cut", 0, n) : n;
  e->updateStatsEncoded((const int8_t*)v, cut);
  if (how == 1) e->updateStatsEncoded((const int8_t*)(v + cut), n - cut);
  if (how == 2) {
    b.getEncoder()->updateStatsEncoded((const int8_t*)(v + cut), n - cut);
    e->reduceStats(*b.getEncoder());
  }
  check<int64_t>(e->getMetadata()->chunkStats(), t, w);
  ChunkStats f;
  e->fillChunkStats(f, t);
  check<int64_t>(f, t, w);
  Buf c(t);
  c.syncEncoder(&a);
  check<int64_t>(c.getEncoder()->getMetadata(t)->chunkStats(), t, w);
  sym_cover("dates checked");
}
HARNESS(h_date16) { dateColumn<int16_t>(ctx().date16(TimeUnit::kDay), NULL_SMALLINT); }
HARNESS(h_date32) { dateColumn<int32_t>(ctx().date32(TimeUnit::kDay), NULL_INT); }
// arrays: statistics over the elements; a NULL array counts as a NULL
template <class T> void arrays(const Type* elem, bool fixed, T null) {
  const Type* t = fixed ? (const Type*)ctx().arrayFixed(2, elem) : (const Type*)ctx().arrayVarLen(elem, 4);
  Buf a(t);
  Encoder* e = a.getEncoder();
  int n = sym_choose("arrays", 0, 2);
  T buf[2][2];
  std::vector<ArrayDatum> rows;
  Want<T> w;
  for (int i = 0; i < n; ++i) {
    int l = fixed ? 2 : sym_choose("len", 0, 2);
    bool nul = sym_choose("null array", 0, 1);
    for (int k = 0; k < l; ++k) buf[i][k] = nul && fixed ? null : symV<T>("elem");
    if (!nul) for (int k = 0; k < l; ++k) w.add(buf[i][k], buf[i][k] == null);
    w.nulls |= nul;
    rows.push_back(ArrayDatum((nul && !fixed ? 0 : l) * sizeof(T), (int8_t*)buf[i], nul, DoNothingDeleter()));
  }
  e->updateStats(&rows, 0, n);
  auto m = e->getMetadata();
  if (!n) return;
  check<T>(m->chunkStats(), elem, w);
  Buf c(t);
  c.syncEncoder(&a);
  check<T>(c.getEncoder()->getMetadata(t)->chunkStats(), elem, w);
  sym_cover("arrays checked");
}
#define ARR(N, T, E, NUL) HARNESS(h_arr_##N) { arrays<T>(E, false, NUL); } HARNESS(h_farr_##N) { arrays<T>(E, true, NUL); }
ARR(int8, int8_t, ctx().integer(1), NULL_TINYINT)
ARR(int16, int16_t, ctx().integer(2), NULL_SMALLINT)
ARR(int32, int32_t, ctx().integer(4), NULL_INT)
ARR(int64, int64_t, ctx().integer(8), NULL_BIGINT)
ARR(bool, int8_t, ctx().boolean(), NULL_BOOLEAN)
ARR(float, float, ctx().fp32(), NULL_FLOAT)
ARR(double, double, ctx().fp64(), NULL_DOUBLE)
ARR(dec, int64_t, ctx().decimal64(10, 2), NULL_BIGINT)
ARR(dict, int32_t, ctx().extDict(ctx().text(), 1, 4), NULL_INT)
ARR(ts, int64_t, ctx().timestamp(TimeUnit::kSecond), NULL_BIGINT)
HARNESS(h_string) {
  Buf a(ctx().text());
  std::vector<std::string> v;
  int n = sym_choose("n", 0, 2);
  bool any = false;
  for (int i = 0; i < n; ++i) {
    bool z = sym_choose("empty", 0, 1);
    any |= z;
    v.push_back(z ? "" : "x");
  }
  a.getEncoder()->updateStats(&v, 0, n);
  ASSERTM(a.getEncoder()->getMetadata()->chunkStats().has_nulls == any, "an empty string is a NULL string");
  sym_cover("strings checked");
}
