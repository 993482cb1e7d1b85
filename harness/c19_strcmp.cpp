// @sources omniscidb/Utils/StringLike.cpp
// @bounds every pair of strings of up to 6 bytes (thorough: 12), every byte value but NUL, either or both of them NULL
// @assume strings hold no NUL characters
#include "sym.h"
#include <cstdlib>
extern "C" {
int32_t StringCompare(const char*, int32_t, const char*, int32_t);
#define D(n) bool n(const char*, int32_t, const char*, int32_t); int8_t n##_nullable(const char*, int32_t, const char*, int32_t, int8_t);
D(string_lt) D(string_le) D(string_gt) D(string_ge) D(string_eq) D(string_ne)
}
#ifdef THOROUGH
enum { S = 12 };
#else
enum { S = 6 };
#endif
static char* mk(const char* n, int len) {
  char* b = (char*)malloc(len ? len : 1);
  for (int i = 0; i < len; ++i) { b[i] = (char)sym_u8(n); sym_assume(b[i] != 0); }
  return b;
}
// byte-wise order, the shorter of a string and its extension first; -1, 0 or 1, without branching on the bytes
static int order(const char* a, int n, const char* b, int m) {
  int r = n < m ? -1 : n > m ? 1 : 0;
  for (int i = (n < m ? n : m) - 1; i >= 0; --i) {
    unsigned char x = a[i], y = b[i];
    r = x < y ? -1 : x > y ? 1 : r;
  }
  return r;
}
static bool want(int op, int o) {
  return op == 0 ? o < 0 : op == 1 ? o <= 0 : op == 2 ? o > 0 : op == 3 ? o >= 0 : op == 4 ? o == 0 : o != 0;
}
HARNESS(h_compare) {
  int n = sym_choose("length", 0, S), m = sym_choose("length", 0, S), op = sym_choose("operator", 0, 5);
  char *a = mk("a", n), *b = mk("b", m);
  static bool (*const f[])(const char*, int32_t, const char*, int32_t) = {string_lt, string_le, string_gt, string_ge, string_eq, string_ne};
  static int8_t (*const g[])(const char*, int32_t, const char*, int32_t, int8_t) = {string_lt_nullable, string_le_nullable, string_gt_nullable, string_ge_nullable, string_eq_nullable, string_ne_nullable};
  int o = order(a, n, b, m);
  ASSERTM(f[op](a, n, b, m) == want(op, o), "a comparison holds exactly when byte-wise order says so");
  int8_t null = sym_i8("null");
  ASSERTM(g[op](a, n, b, m, null) == (want(op, o) ? 1 : 0), "a nullable comparison of two strings is 1 or 0");
  if (n == m) sym_cover("equal lengths"); else sym_cover("different lengths");
}
HARNESS(h_null) {
  int n = sym_choose("length", 0, 2), op = sym_choose("operator", 0, 5), which = sym_choose("which", 1, 3);
  char* a = which & 1 ? nullptr : mk("a", n);
  char* b = which & 2 ? nullptr : mk("b", n);
  static int8_t (*const g[])(const char*, int32_t, const char*, int32_t, int8_t) = {string_lt_nullable, string_le_nullable, string_gt_nullable, string_ge_nullable, string_eq_nullable, string_ne_nullable};
  int8_t null = sym_i8("null");
  ASSERTM(g[op](a, n, b, n, null) == null, "comparing with NULL gives NULL");
  sym_cover("null operand");
}
HARNESS(h_sign) {  // the order itself, used by sorting
  int n = sym_choose("length", 0, S), m = sym_choose("length", 0, S);
  char *a = mk("a", n), *b = mk("b", m);
  int o = order(a, n, b, m), r = StringCompare(a, n, b, m), q = StringCompare(b, m, a, n);
  ASSERTM((r < 0) == (o < 0) && (r > 0) == (o > 0), "the comparison's sign is the order");
  ASSERTM((q < 0) == (r > 0) && (q > 0) == (r < 0), "swapping the operands reverses the order");
  sym_cover("order");
}
