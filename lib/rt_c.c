/* Bitcode run time: C library functions. */
typedef unsigned long size_t;
typedef _Bool bool;
#define true 1
#define false 0
#define nullptr ((void*)0)
#define INT64_MAX 0x7fffffffffffffffL
#define INT64_MIN (-INT64_MAX - 1)
void* memcpy(void*, const void*, size_t);
static int g_errno;
int* __errno_location(void) { return &g_errno; }
#define errno g_errno
// ---------------------------------------------------------------- C strings
size_t strlen(const char* s) { size_t n = 0; while (s[n]) ++n; return n; }
size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) ++n; return n; }
int strcmp(const char* a, const char* b) {
  for (;; ++a, ++b) {
    if (*a != *b) return (unsigned char)*a < (unsigned char)*b ? -1 : 1;
    if (!*a) return 0;
  }
}
int strncmp(const char* a, const char* b, size_t n) {
  for (; n; ++a, ++b, --n) {
    if (*a != *b) return (unsigned char)*a < (unsigned char)*b ? -1 : 1;
    if (!*a) return 0;
  }
  return 0;
}
void* memchr(const void* s, int c, size_t n) {
  const unsigned char* p = (const unsigned char*)s;
  for (size_t i = 0; i < n; ++i)
    if (p[i] == (unsigned char)c) return (void*)(p + i);
  return nullptr;
}
char* strchr(const char* s, int c) {
  for (;; ++s) {
    if (*s == (char)c) return (char*)s;
    if (!*s) return nullptr;
  }
}
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
char* strncpy(char* d, const char* s, size_t n) {
  size_t i = 0;
  for (; i < n && s[i]; ++i) d[i] = s[i];
  for (; i < n; ++i) d[i] = 0;
  return d;
}
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isdigit(c) || isalpha(c); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int ispunct(int c) { return c > 32 && c < 127 && !isalnum(c); }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isprint(int c) { return c >= 32 && c < 127; }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
long strtol(const char* s, char** e, int base) {
  const char* p = s;
  while (isspace((unsigned char)*p)) ++p;
  bool neg = false;
  if (*p == '-' || *p == '+') neg = *p++ == '-';
  if (base == 0) base = 10;
  unsigned long v = 0;
  bool any = false, ov = false;
  for (;; ++p) {
    int d = isdigit((unsigned char)*p) ? *p - '0' : isalpha((unsigned char)*p) ? tolower(*p) - 'a' + 10 : 99;
    if (d >= base) break;
    any = true;
    unsigned long nv;
    if (__builtin_umull_overflow(v, (unsigned long)base, &nv) || __builtin_uaddl_overflow(nv, (unsigned long)d, &v)) ov = true;
  }
  if (e) *e = (char*)(any ? p : s);
  if (ov || (!neg && v > (unsigned long)INT64_MAX) || (neg && v > (unsigned long)INT64_MAX + 1)) {
    errno = 34;
    return neg ? INT64_MIN : INT64_MAX;
  }
  return neg ? (long)(0 - v) : (long)v;
}
long long strtoll(const char* s, char** e, int base) { return strtol(s, e, base); }
long __isoc23_strtol(const char* s, char** e, int base) { return strtol(s, e, base); }
long long __isoc23_strtoll(const char* s, char** e, int base) { return strtol(s, e, base); }
unsigned long strtoul(const char* s, char** e, int base) { return (unsigned long)strtol(s, e, base); }
unsigned long __isoc23_strtoul(const char* s, char** e, int base) { return (unsigned long)strtol(s, e, base); }
int atoi(const char* s) { return (int)strtol(s, nullptr, 10); }
long atol(const char* s) { return strtol(s, nullptr, 10); }
static unsigned short g_ctype[384];
static const unsigned short* g_ctypeP = &g_ctype[128];
static int g_lowT[384], g_upT[384];
static const int *g_lowP = &g_lowT[128], *g_upP = &g_upT[128];
static void ctypeInit() {
  if (g_upT[128 + 'A']) return;
  for (int c = -128; c < 256; ++c) {
    unsigned short m = 0;
#define b(i) ((unsigned short)((i) < 8 ? (1 << (i)) << 8 : (1 << (i)) >> 8))
    if (isupper(c)) m |= b(0);
    if (islower(c)) m |= b(1);
    if (isalpha(c)) m |= b(2);
    if (isdigit(c)) m |= b(3);
    if (isxdigit(c)) m |= b(4);
    if (isspace(c)) m |= b(5);
    if (isprint(c)) m |= b(6);
    if (c > 32 && c < 127) m |= b(7);
    if (c == ' ' || c == '\t') m |= b(8);
    if ((c >= 0 && c < 32) || c == 127) m |= b(9);
    if (ispunct(c)) m |= b(10);
    if (isalnum(c)) m |= b(11);
    g_ctype[c + 128] = m;
    g_lowT[c + 128] = tolower(c);
    g_upT[c + 128] = toupper(c);
  }
}
const unsigned short** __ctype_b_loc() { ctypeInit(); return &g_ctypeP; }
const int** __ctype_tolower_loc() { ctypeInit(); return &g_lowP; }
const int** __ctype_toupper_loc() { ctypeInit(); return &g_upP; }
void qsort(void* base, size_t n, size_t sz, int (*cmp)(const void*, const void*)) {
  char* b = (char*)base;
  char tmp[64];
  for (size_t i = 1; i < n; ++i)
    for (size_t j = i; j > 0 && cmp(b + (j - 1) * sz, b + j * sz) > 0; --j) {
      memcpy(tmp, b + j * sz, sz);
      memcpy(b + j * sz, b + (j - 1) * sz, sz);
      memcpy(b + (j - 1) * sz, tmp, sz);
    }
}
char* getenv(const char*) { return nullptr; }
// ---------------------------------------------------------------- formatted output: integers, characters and strings
typedef __builtin_va_list va_list;
void vf_unsupported_printf_conversion(void);
static const unsigned long kP10[20] = {1UL, 10UL, 100UL, 1000UL, 10000UL, 100000UL, 1000000UL, 10000000UL, 100000000UL, 1000000000UL, 10000000000UL, 100000000000UL, 1000000000000UL, 10000000000000UL, 100000000000000UL, 1000000000000000UL, 10000000000000000UL, 100000000000000000UL, 1000000000000000000UL, 10000000000000000000UL};
struct vf_out { char* b; size_t max, n; };
static void vf_put(struct vf_out* o, char c) {
  if (o->n + 1 < o->max) o->b[o->n] = c;
  o->n++;
}
int vsnprintf(char* b, size_t max, const char* f, va_list ap) {
  struct vf_out o = {b, max, 0};
  for (; *f; ++f) {
    if (*f != '%') { vf_put(&o, *f); continue; }
    ++f;
    bool zero = false, left = false, plus = false, space = false, alt = false;
    for (;; ++f) {
      if (*f == '0') zero = true; else if (*f == '-') left = true; else if (*f == '+') plus = true; else if (*f == ' ') space = true;
      else if (*f == '#') alt = true; else break;
    }
    int width = 0, prec = -1;
    if (*f == '*') { width = __builtin_va_arg(ap, int); if (width < 0) { left = true; width = -width; } ++f; }
    else while (isdigit(*f)) width = width * 10 + (*f++ - '0');
    if (*f == '.') {
      ++f;
      prec = 0;
      if (*f == '*') { prec = __builtin_va_arg(ap, int); ++f; }
      else while (isdigit(*f)) prec = prec * 10 + (*f++ - '0');
    }
    int size = 4;
    for (;; ++f) {
      if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') size = 8; else if (*f == 'h') size = size == 4 ? 2 : 1; else break;
    }
    if (alt) vf_unsupported_printf_conversion();
    if (*f == '%') vf_put(&o, '%');
    else if (*f == 'c') {
      char c = (char)__builtin_va_arg(ap, int);
      for (int i = 1; !left && i < width; ++i) vf_put(&o, ' ');
      vf_put(&o, c);
      for (int i = 1; left && i < width; ++i) vf_put(&o, ' ');
    } else if (*f == 's') {
      const char* s = __builtin_va_arg(ap, const char*);
      int n = 0;
      while ((prec < 0 || n < prec) && s[n]) ++n;
      for (int i = n; !left && i < width; ++i) vf_put(&o, ' ');
      for (int i = 0; i < n; ++i) vf_put(&o, s[i]);
      for (int i = n; left && i < width; ++i) vf_put(&o, ' ');
    } else if (*f == 'd' || *f == 'i' || *f == 'u' || *f == 'x' || *f == 'X') {
      bool sgn = *f == 'd' || *f == 'i';
      unsigned base = *f == 'x' || *f == 'X' ? 16 : 10;
      unsigned long v;
      bool neg = false;
      if (size == 8) v = __builtin_va_arg(ap, unsigned long);
      else {
        int x = __builtin_va_arg(ap, int);
        if (size == 2) x = sgn ? (int)(short)x : (int)(unsigned short)x;
        if (size == 1) x = sgn ? (int)(signed char)x : (int)(unsigned char)x;
        v = sgn ? (unsigned long)(long)x : (unsigned long)(unsigned)x;
      }
      if (sgn && (long)v < 0) { neg = true; v = 0 - v; }
      char sign = neg ? '-' : !sgn ? 0 : plus ? '+' : space ? ' ' : 0;
      if (prec >= 0) zero = false;
      int min = prec >= 0 ? prec : zero && !left ? width - (sign ? 1 : 0) : 1;
      int nd = min < 1 ? 1 : min;
      if (base == 10) { while (nd < 20 && v >= kP10[nd]) ++nd; }
      else while (nd < 16 && v >> (4 * nd)) ++nd;
      if (prec == 0 && v == 0) nd = 0;
      int total = nd + (sign ? 1 : 0);
      for (int i = total; !left && i < width; ++i) vf_put(&o, ' ');
      if (sign) vf_put(&o, sign);
      for (int i = nd - 1; i >= 0; --i) {
        unsigned d = base == 10 ? (i < 20 ? (unsigned)(v / kP10[i] % 10) : 0) : (i < 16 ? (unsigned)(v >> (4 * i)) & 15 : 0);
        vf_put(&o, base == 10 ? (char)('0' + d) : (*f == 'x' ? "0123456789abcdef" : "0123456789ABCDEF")[d]);
      }
      for (int i = total; left && i < width; ++i) vf_put(&o, ' ');
    } else vf_unsupported_printf_conversion();
  }
  if (max) b[o.n < max ? o.n : max - 1] = 0;
  return (int)o.n;
}
int snprintf(char* b, size_t max, const char* f, ...) {
  va_list ap;
  __builtin_va_start(ap, f);
  int r = vsnprintf(b, max, f, ap);
  __builtin_va_end(ap);
  return r;
}
int sprintf(char* b, const char* f, ...) {
  va_list ap;
  __builtin_va_start(ap, f);
  int r = vsnprintf(b, INT64_MAX, f, ap);
  __builtin_va_end(ap);
  return r;
}
