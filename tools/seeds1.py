import sys; sys.path.insert(0, "/verif/tools")
from mkseed import seed
only = sys.argv[1:]
Q = "omniscidb/QueryEngine/"
def S(id, *a, **k):
    if not only or id in only: seed(id, *a, **k)
RT = '#include "QueryEngine/RuntimeFunctions.cpp"\n#include <cstdio>\n#include <cstdlib>\n#include <vector>\n#define REQ(c) do { if (!(c)) { printf("wrong: %s\\n", #c); exit(1); } } while (0)\n'
HASH = 'static uint32_t H;\nextern "C" uint32_t MurmurHash3(const void*, int, const uint32_t) { return H; }\nextern "C" uint64_t MurmurHash64A(const void*, int, uint64_t) { return H; }\nextern "C" uint32_t MurmurHash1(const void*, int, const uint32_t) { return H; }\n'
S("s01", "C01", "an int64 dividend or divisor above 2^32 whose low 32 bits are zero (safe division, the mode used for ratios)",
  "nullable safe division treats a divisor that is a multiple of 2^32 as zero and returns NULL",
  [(Q + "RuntimeFunctions.cpp", "if (lhs != null_val && rhs != null_val && rhs != 0) {         \\", "if (lhs != null_val && rhs != null_val && static_cast<int32_t>(rhs)) { \\")],
  RT + HASH + '''int main() { REQ(safe_div_int64_t(1LL << 40, 1LL << 32, INT64_MIN) == 256); REQ(safe_div_double(1.0, 0.5, 2.2250738585072014e-308) == 2.0); }''')
S("s02", "C06", "a group-by table whose probe chain wraps past the last entry more than once around: the home slot of the new key is 0 and the only free slot is the last one",
  "the columnar probe gives up one slot early, so a row is reported as not fitting though a slot is free",
  [(Q + "GroupByRuntime.cpp", '''  uint32_t h_probe = (h + 1) % groups_buffer_entry_count;
  while (h_probe != h) {
    matching_slot = get_matching_group_value_columnar_slot(
        groups_buffer, groups_buffer_entry_count, h_probe, key, key_count, key_width);
    if (matching_slot != -1) {
      return h_probe;
    }
    h_probe = (h_probe + 1) % groups_buffer_entry_count;
  }
  return -1;
}''', '''  uint32_t h_probe = (h + 1) % groups_buffer_entry_count;
  const uint32_t last = h ? h : groups_buffer_entry_count - 1;
  while (h_probe != last) {
    matching_slot = get_matching_group_value_columnar_slot(
        groups_buffer, groups_buffer_entry_count, h_probe, key, key_count, key_width);
    if (matching_slot != -1) {
      return h_probe;
    }
    h_probe = (h_probe + 1) % groups_buffer_entry_count;
  }
  return -1;
}''')],
  RT + HASH + '''int main() { int64_t b[3] = {EMPTY_KEY_64, EMPTY_KEY_64, EMPTY_KEY_64}; H = 0;
  for (int64_t k = 1; k <= 3; ++k) REQ(get_group_value_columnar_slot(b, 3, &k, 1, 8) == k - 1);
  int64_t k = 4; REQ(get_group_value_columnar_slot(b, 3, &k, 1, 8) == -1); }''')
S("s03", "C06", "two multi-column group keys that share the first component and differ only in a later one, 32-bit key width, columnar layout",
  "the columnar lookup compares all components except when the key is 32 bits wide and the last component of the stored key is zero",
  [(Q + "RuntimeFunctions.cpp", '''  off = h;
  for (size_t i = 0; i < key_count; ++i) {
    if (key_buffer[off] != key[i]) {
      return -1;
    }
    off += entry_count;
  }
  return h;''', '''  off = h;
  for (size_t i = 0; i < key_count; ++i) {
    if ((key_buffer[off] ^ key[i]) & (T(-1) >> (i ? sizeof(T) > 4 : 0))  && key_buffer[off]) {
      return -1;
    }
    off += entry_count;
  }
  return h;''')],
  RT + HASH + '''int main() { int32_t b[8]; for (auto& x : b) x = EMPTY_KEY_32; H = 1; int32_t k1[2] = {5, 0}, k2[2] = {5, 9};
  REQ(get_group_value_columnar_slot((int64_t*)b, 4, (int64_t*)k1, 2, 4) == 1);
  REQ(get_group_value_columnar_slot((int64_t*)b, 4, (int64_t*)k2, 2, 4) == 2); }''')
S("s04", "C08", "an inner column with an empty chunk (or a chunk smaller than the thread count) in the middle",
  "the build iterator advances at most one chunk per step, so rows are read from the wrong chunk and the join finds wrong rows",
  [(Q + "JoinHashTable/Runtime/JoinColumnIterator.h", "    while (chunk_data &&\n           index_inside_chunk >= join_chunk_array[index_of_chunk].num_elems) {\n      index_inside_chunk -= join_chunk_array[index_of_chunk].num_elems;", "    if (chunk_data &&\n        index_inside_chunk >= join_chunk_array[index_of_chunk].num_elems) {\n      index_inside_chunk -= join_chunk_array[index_of_chunk].num_elems;")],
  '''#include "QueryEngine/JoinHashTable/Runtime/HashJoinRuntime.h"
#include "QueryEngine/JoinHashTable/Runtime/JoinColumnIterator.h"
#include <cstdio>
int main() { int64_t a[2] = {10, 11}, e[1] = {777}, b[2] = {12, 13};
  JoinChunk ch[3] = {{(int8_t*)a, 2, 0}, {(int8_t*)e, 0, 2}, {(int8_t*)b, 2, 2}};
  JoinColumn c{(int8_t*)ch, sizeof ch, 3, 4, 8};
  JoinColumnTypeInfo ti{8, 10, 13, INT64_MIN, false, 0, Signed};
  JoinColumnTyped t{&c, &ti}; int64_t want = 10; 
  for (auto it : t.slice(0, 1)) { if (it.element != want++) { printf("row %ld read wrongly\\n", (long)want - 11); return 1; } }
  return want == 14 ? 0 : 1; }
extern "C" int64_t fixed_width_int_decode_noinline(const int8_t* p, const int32_t w, const int64_t i) { return ((const int64_t*)p)[i]; }''')
S("s05", "C12", "a timestamp in the ISO week that spans a 400-year era boundary (the first days of January to end of February of years divisible by 400, Sunday-based weeks)",
  "EXTRACT(WEEK_SUNDAY) off by one in the weeks right after 1 March of an era's first year",
  [("omniscidb/Utils/ExtractFromTime.cpp", "      return (doe + OFFSET) / 7 + 9;", "      return (doe + MONDAY) / 7 + 9;")],
  '''#include "Utils/ExtractFromTime.h"
#include <cstdio>
int main() { // 2000-03-01 .. every day of the year, the Sunday week number changes on Sundays only
  int64_t prev = -1; for (int64_t d = 10957 + 31; d < 10957 + 300; ++d) { int64_t w = ExtractFromTime(hdk::ir::DateExtractField::kWeekSunday, d * 86400), dow = ExtractFromTime(hdk::ir::DateExtractField::kDayOfWeek, d * 86400);
    if (prev >= 0 && w != prev + (dow == 0)) { printf("day %ld: week %ld after %ld\\n", (long)d, (long)w, (long)prev); return 1; } prev = w; } }''',
  srcs=["omniscidb/Utils/ExtractFromTime.cpp"])
S("s06", "C13", "a timestamp outside 1970-2036 in the first quarter of a year divisible by 400",
  "DATE_TRUNC(QUARTER) is one day off for January to March of years divisible by 400 outside the fast range",
  [(Q + "DateTruncate.cpp", "      bool const leap = yoe % 4 == 0 && (yoe % 100 != 0 || yoe == 0);\n      doq = JANMAR + leap + doy;  // Q1", "      bool const leap = yoe % 4 == 0 && yoe % 100 != 0;\n      doq = JANMAR + leap + doy;  // Q1")],
  '''#include "QueryEngine/DateTruncate.h"
#include <cstdio>
int main() { // 2400-03-15 lies 157130 days... quarter start found by searching for the year boundary
  using F = hdk::ir::DateTruncField;
  for (int64_t d = -135140 - 800; d < 200000; ++d) { int64_t y = DateTruncate(F::kYear, d * 86400), q = DateTruncate(F::kQuarter, d * 86400);
    if (d * 86400 - y < 89 * 86400LL && q != y) { printf("day %ld\\n", (long)d); return 1; } } }''',
  srcs=["omniscidb/QueryEngine/DateTruncate.cpp", "omniscidb/Utils/ExtractFromTime.cpp"])
S("s07", "C04", "a negative decimal exactly between two values of the lower scale (such as -2.5 to scale 0), nullable column",
  "rounded rescaling of nullable negative decimals goes toward positive infinity on ties",
  [(Q + "RuntimeFunctions.cpp", '''  if (operand == null_val) {
    return null_val;
  }

  int64_t tmp = scale >> 1;
  tmp = operand >= 0 ? operand + tmp : operand - tmp;
  return tmp / scale;''', '''  if (operand == null_val) {
    return null_val;
  }

  int64_t tmp = scale >> 1;
  tmp = operand >= 0 ? operand + tmp : operand - tmp + 1;
  return tmp / scale;''')],
  RT + HASH + '''int main() { REQ(scale_decimal_down_nullable(-25, 10, INT64_MIN) == -3); REQ(scale_decimal_down_nullable(25, 10, INT64_MIN) == 3); REQ(scale_decimal_down_nullable(-24, 10, INT64_MIN) == -2); }''')
S("s08", "C07", "a group key 2^32 or more above the smallest key of a bucketed perfect-hash table (timestamps in nanoseconds with day buckets)",
  "the columnar bin offset is computed in 32 bits before the bucket division",
  [(Q + "GroupByRuntime.cpp", '''                              const int64_t bucket) {
  int64_t off = key - min_key;
  if (bucket) {
    off /= bucket;
  }
  if (key_base_ptr''', '''                              const int64_t bucket) {
  uint32_t off = key - min_key;
  if (bucket) {
    off /= bucket;
  }
  if (key_base_ptr''')],
  RT + HASH + '''int main() { int64_t day = 86400LL * 1000000000; std::vector<int64_t> b(4, EMPTY_KEY_64);
  REQ(get_columnar_group_bin_offset(b.data(), 5 * day, 3 * day, day) == 2); REQ(b[2] == 5 * day); }''')
S("s09", "C09", "two threads inserting the same multi-component key at the same time: the second arrives between the reservation of the slot and the copy of the remaining components",
  "the first key component is published before the others, so a concurrent inserter of the same key does not recognise it and the key gets two slots",
  [(Q + "JoinHashTable/Runtime/HashJoinRuntime.cpp", '''    if (key_component_count > 1) {
      memcpy(row_ptr + 1, key + 1, (key_component_count - 1) * sizeof(T));
    }
    store_cst(row_ptr, *key);''', '''    store_cst(row_ptr, *key);
    if (key_component_count > 1) {
      memcpy(row_ptr + 1, key + 1, (key_component_count - 1) * sizeof(T));
    }''')],
  '''#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstring>
#include <thread>
#include <future>
#include <vector>
#include <algorithm>
#include "QueryEngine/JoinHashTable/Runtime/HashJoinRuntime.h"
#include "QueryEngine/JoinHashTable/Runtime/HashJoinKeyHandlers.h"
#include "QueryEngine/JoinHashTable/Runtime/JoinColumnIterator.h"
#include "QueryEngine/MurmurHash1Inl.h"
#include "QueryEngine/RuntimeFunctions.h"
#include "QueryEngine/CompareKeysInl.h"
#include "QueryEngine/HyperLogLogRank.h"
#include "QueryEngine/JoinHashTable/Runtime/HashJoinRuntimeCpu.h"
#include "StringDictionary/StringDictionary.h"
#include <tbb/parallel_for.h>
#include <x86intrin.h>
#include <cmath>
#include <numeric>
static void* hook(void* d, const void* s, size_t n);
#define memcpy hook
#include "QueryEngine/JoinHashTable/Runtime/HashJoinRuntime.cpp"
#undef memcpy
static int8_t* buf; static std::atomic<int> calls{0}; static std::thread second;
static const int64_t key[3] = {5, 6, 7};
static void insert() { write_baseline_hash_slot<int64_t>(0, buf, 8, key, 3, false, -1, 24, 24); }
static void* hook(void* d, const void* s, size_t n) {
  if (calls++ == 0) { second = std::thread(insert); std::this_thread::sleep_for(std::chrono::milliseconds(300)); }
  return memcpy(d, s, n);
}
int main() { std::vector<int64_t> b(24); for (auto& x : b) x = std::numeric_limits<int64_t>::max(); buf = (int8_t*)b.data();
  insert(); if (second.joinable()) second.join(); int n = 0;
  for (int i = 0; i < 8; ++i) n += b[3 * i] != std::numeric_limits<int64_t>::max();
  if (n != 1) { printf("the key occupies %d slots\\n", n); return 1; } return 0; }''', srcs=["omniscidb/QueryEngine/MurmurHash.cpp"], flags="")
