/* C library models for the symbolic executor (C locale). Compiled to bitcode as C with -fno-builtin. */
#define _GNU_SOURCE
#include <stdarg.h>
#include <stdbool.h>
#include <stddef.h>
#include <limits.h>
typedef unsigned long long ull_;
typedef struct FILE_ FILE;
void* malloc(size_t); void free(void*); void* memcpy(void*, const void*, size_t); int memcmp(const void*, const void*, size_t);
double vp_strtod_concrete(const char*, char**); unsigned long vp_strtod16(unsigned long, unsigned long); int vp_concrete(const char*, unsigned long); unsigned long vp_concretize(unsigned long);
void vp_fail(const char*);
#define ERANGE 34
int isspace(int); int isxdigit(int); int tolower(int); int toupper(int); int isupper(int); int islower(int); int isalpha(int); int isdigit(int); int isprint(int); int isgraph(int); int isblank(int); int iscntrl(int); int ispunct(int); int isalnum(int);
enum { _ISupper = 256, _ISlower = 512, _ISalpha = 1024, _ISdigit = 2048, _ISxdigit = 4096, _ISspace = 8192, _ISprint = 16384, _ISgraph = 32768, _ISblank = 1, _IScntrl = 2, _ISpunct = 4, _ISalnum = 8 };
struct lconv { char* decimal_point; char* thousands_sep; char* grouping; char* rest[32]; };
int vp_errno = 0;

// ---- ctype (C locale), branch free ----
#define CT(name, expr) int name(int c) { unsigned u = (unsigned)c; (void)u; return (expr) ? 1 : 0; }
CT(isdigit, (u - '0') < 10u)
CT(isalpha, ((u | 32) - 'a') < 26u & (u < 128))
CT(isalnum, (((((u | 32) - 'a') < 26u) | ((u - '0') < 10u)) & (u < 128)))
CT(isupper, (u - 'A') < 26u)
CT(islower, (u - 'a') < 26u)
CT(isspace, (u == ' ') | ((u - 9u) < 5u))
CT(isblank, (u == ' ') | (u == 9u))
CT(iscntrl, (u < 32u) | (u == 127u))
CT(isprint, (u - 32u) < 95u)
CT(isgraph, (u - 33u) < 94u)
CT(ispunct, (((u - 33u) < 94u) & !((((u | 32) - 'a') < 26u) | ((u - '0') < 10u))))
CT(isxdigit, ((u - '0') < 10u) | (((u | 32) - 'a') < 6u))
int tolower(int c) { return ((unsigned)c - 'A') < 26u ? c + 32 : c; }
int toupper(int c) { return ((unsigned)c - 'a') < 26u ? c - 32 : c; }
static unsigned short ct_b[384]; static const unsigned short* ct_bp;
static int ct_lo[384], ct_up[384]; static const int *ct_lop, *ct_upp;
const unsigned short** __ctype_b_loc() {
  if (!ct_bp) { for (int i = -128; i < 256; i++) { unsigned m = 0; int c = i; if (i >= 0) {
      if (isupper(c)) m |= _ISupper; if (islower(c)) m |= _ISlower; if (isalpha(c)) m |= _ISalpha; if (isdigit(c)) m |= _ISdigit; if (isxdigit(c)) m |= _ISxdigit;
      if (isspace(c)) m |= _ISspace; if (isprint(c)) m |= _ISprint; if (isgraph(c)) m |= _ISgraph; if (isblank(c)) m |= _ISblank; if (iscntrl(c)) m |= _IScntrl; if (ispunct(c)) m |= _ISpunct; if (isalnum(c)) m |= _ISalnum; }
      ct_b[i + 128] = (unsigned short)m; } ct_bp = ct_b + 128; }
  return &ct_bp; }
const int** __ctype_tolower_loc() { if (!ct_lop) { for (int i = -128; i < 256; i++) ct_lo[i + 128] = i >= 0 ? tolower(i) : i; ct_lop = ct_lo + 128; } return &ct_lop; }
const int** __ctype_toupper_loc() { if (!ct_upp) { for (int i = -128; i < 256; i++) ct_up[i + 128] = i >= 0 ? toupper(i) : i; ct_upp = ct_up + 128; } return &ct_upp; }

// ---- string.h ----
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
void* memchr(const void* s, int c, size_t n) { const unsigned char* p = (const unsigned char*)s; for (size_t i = 0; i < n; i++) if (p[i] == (unsigned char)c) return (void*)(p + i); return ((void*)0); }
void* memrchr(const void* s, int c, size_t n) { const unsigned char* p = (const unsigned char*)s; for (size_t i = n; i-- > 0;) if (p[i] == (unsigned char)c) return (void*)(p + i); return ((void*)0); }
char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return ((void*)0); } }
char* strrchr(const char* s, int c) { const char* r = ((void*)0); for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
int strcmp(const char* a, const char* b) { for (;; a++, b++) { if (*a != *b) return (unsigned char)*a < (unsigned char)*b ? -1 : 1; if (!*a) return 0; } }
int strncmp(const char* a, const char* b, size_t n) { for (; n; a++, b++, n--) { if (*a != *b) return (unsigned char)*a < (unsigned char)*b ? -1 : 1; if (!*a) return 0; } return 0; }
int strcasecmp(const char* a, const char* b) { for (;; a++, b++) { int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b); if (x != y) return x - y; if (!x) return 0; } }
int strncasecmp(const char* a, const char* b, size_t n) { for (; n; a++, b++, n--) { int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b); if (x != y) return x - y; if (!x) return 0; } return 0; }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strstr(const char* h, const char* n) { size_t l = strlen(n); for (;; h++) { if (!strncmp(h, n, l)) return (char*)h; if (!*h) return ((void*)0); } }
char* strdup(const char* s) { size_t n = strlen(s) + 1; char* r = (char*)malloc(n); memcpy(r, s, n); return r; }
size_t strspn(const char* s, const char* a) { size_t n = 0; while (s[n] && strchr(a, s[n])) n++; return n; }
size_t strcspn(const char* s, const char* a) { size_t n = 0; while (s[n] && !strchr(a, s[n])) n++; return n; }
void* memmem(const void* h, size_t hl, const void* n, size_t nl) { for (size_t i = 0; i + nl <= hl; i++) if (!memcmp((const char*)h + i, n, nl)) return (char*)h + i; return ((void*)0); }
size_t wcslen(const wchar_t* s) { size_t n = 0; while (s[n]) n++; return n; }
char* strerror(int) { static char m[] = "error"; return m; }

// ---- floating-point parsing: a decimal text of up to 16 bytes without range error is an uninterpreted function of its bytes (evaluated with the real strtod), any other text is made concrete ----
double strtod(const char* s, char** end) {
  const char* p = s; unsigned n = 0; bool any = false; long ex = 0; unsigned long w[2] = {0, 0};
  while (n <= 16 && (unsigned)(*p - '0') < 10u) { p++; n++; any = true; }
  if (n <= 16 && *p == '.') { p++; n++; while (n <= 16 && (unsigned)(*p - '0') < 10u) { p++; n++; any = true; } }
  if (any && n <= 16 && (*p == 'e' || *p == 'E')) { const char* q = p + 1; unsigned m = n + 1; bool neg = *q == '-', e = false; if (neg || *q == '+') q++, m++; while (m <= 16 && (unsigned)(*q - '0') < 10u) { ex = ex * 10 + (long)vp_concretize((unsigned long)(*q - '0')); q++; m++; e = true; } if (e) { p = q; n = m; } }
  if (!any || n > 16 || ex > 250 || vp_concrete(s, n) || (n == 1 && (*p | 32) == 'x')) return vp_strtod_concrete(s, end);
  for (unsigned i = 0; i < n; i++) w[i / 8] |= (unsigned long)(unsigned char)s[i] << (i % 8 * 8);
  if (end) *end = (char*)p; union { unsigned long u; double d; } r; r.u = vp_strtod16(w[0], w[1]); return r.d;
}

// ---- integer parsing ----
ull_ vp_decimal(const char* p, size_t n) { ull_ acc = 0; for (size_t i = 0; i < n; i++) acc = acc * 10u + (ull_)((unsigned char)p[i] - '0'); return acc; }
static ull_ strtoX(const char* s, char** end, int base, bool sg, ull_ maxPos, ull_ maxNeg) {
  const char* p = s; while (isspace((unsigned char)*p)) p++;
  bool neg = false; if (*p == '-') { neg = true; p++; } else if (*p == '+') p++;
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] | 32) == 'x' && isxdigit((unsigned char)p[2])) { p += 2; base = 16; }
  else if (base == 0) base = p[0] == '0' ? 8 : 10;
  ull_ acc = 0, lim = sg ? (neg ? maxNeg : maxPos) : maxPos; bool over = false, any = false; ull_ lq = lim / (unsigned)base, lr = lim % (unsigned)base;
  if (base == 10) { // overflow is decided on the digits: no multiplication in the query
    const char* q = p; while ((unsigned)((unsigned char)*q) - '0' < 10u) q++;
    unsigned n = (unsigned)(q - p), ln = 0; unsigned char ld[24]; for (ull_ l = lim; l; l /= 10) ld[ln++] = (unsigned char)(l % 10);
    bool gt = false; for (unsigned i = 0; i < n; i++) { unsigned d = (unsigned char)q[-1 - (long)i] - '0'; if (i < ln) gt = (d > ld[i]) | ((d == ld[i]) & gt); else gt = gt | (d != 0); }
    if (n < ln) gt = false;
    acc = vp_decimal(p, n); over = gt; any = n > 0; p = q;
  } else
  for (;; p++) { unsigned c = (unsigned char)*p, d; if (c - '0' < 10u) d = c - '0'; else if ((c | 32) - 'a' < 26u && c < 128) d = (c | 32) - 'a' + 10; else break; if (d >= (unsigned)base) break; any = true;
    over = over | (acc > lq) | ((acc == lq) & (d > lr)); if (!over) acc = acc * (unsigned)base + d; }
  if (end) *end = (char*)(any ? p : s);
  if (over) { vp_errno = ERANGE; return sg ? (neg ? (ull_)0 - maxNeg : maxPos) : maxPos; }
  return neg ? (ull_)0 - acc : acc;
}
int vp_from_chars(const char** first, const char* last, ull_* out, ull_ maxPos, ull_ maxNeg) { // std::from_chars, base 10: 0 a value, 1 no digits, 2 out of range
  const char* p = *first; bool neg = false; if (maxNeg && p != last && *p == '-') { neg = true; p++; }
  const char* q = p; while (q != last && (unsigned)((unsigned char)*q) - '0' < 10u) q++;
  if (q == p) return 1;
  unsigned n = (unsigned)(q - p), ln = 0; unsigned char ld[24]; for (ull_ l = neg ? maxNeg : maxPos; l; l /= 10) ld[ln++] = (unsigned char)(l % 10);
  bool gt = false; for (unsigned i = 0; i < n; i++) { unsigned d = (unsigned char)q[-1 - (long)i] - '0'; if (i < ln) gt = (d > ld[i]) | ((d == ld[i]) & gt); else gt = gt | (d != 0); }
  if (n < ln) gt = false;
  *first = q; if (gt) return 2; ull_ acc = vp_decimal(p, n); *out = neg ? (ull_)0 - acc : acc; return 0;
}
long strtol(const char* s, char** e, int b) { return (long)strtoX(s, e, b, true, LONG_MAX, (ull_)LONG_MAX + 1); }
long long strtoll(const char* s, char** e, int b) { return (long long)strtoX(s, e, b, true, LLONG_MAX, (ull_)LLONG_MAX + 1); }
unsigned long strtoul(const char* s, char** e, int b) { return strtoX(s, e, b, false, ULONG_MAX, 0); }
unsigned long long strtoull(const char* s, char** e, int b) { return strtoX(s, e, b, false, ULLONG_MAX, 0); }
long __isoc23_strtol(const char* s, char** e, int b) { return strtol(s, e, b); }
long long __isoc23_strtoll(const char* s, char** e, int b) { return strtoll(s, e, b); }
unsigned long __isoc23_strtoul(const char* s, char** e, int b) { return strtoul(s, e, b); }
unsigned long long __isoc23_strtoull(const char* s, char** e, int b) { return strtoull(s, e, b); }
int atoi(const char* s) { return (int)strtol(s, ((void*)0), 10); }
long atol(const char* s) { return strtol(s, ((void*)0), 10); }
long long atoll(const char* s) { return strtoll(s, ((void*)0), 10); }
double atof(const char* s) { return strtod(s, ((void*)0)); }
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }
long long llabs(long long x) { return x < 0 ? -x : x; }

// ---- formatted output (integers, strings, characters) ----
static size_t outp(char* b, size_t n, size_t at, char c) { if (at + 1 < n) b[at] = c; return at + 1; }
static unsigned digitsOf(ull_ v, unsigned base, bool up, char* t) { unsigned k = 0; do { unsigned d = (unsigned)(v % base); t[k++] = (char)(d < 10 ? '0' + d : (up ? 'A' : 'a') + d - 10); v /= base; } while (v); return k; }
unsigned vp_udec(ull_, char*);
static unsigned udec(ull_ v, char* t) { char r[24]; unsigned n = vp_udec(v, r); for (unsigned i = 0; i < n; i++) t[i] = r[n - 1 - i]; return n; }  // last digit first, like digitsOf
int vsnprintf(char* b, size_t n, const char* f, va_list ap) {
  size_t at = 0;
  for (; *f; f++) {
    if (*f != '%') { at = outp(b, n, at, *f); continue; }
    f++; bool left = false, zero = false, plus = false, alt = false, space = false; for (;; f++) { if (*f == '-') left = true; else if (*f == '0') zero = true; else if (*f == '+') plus = true; else if (*f == '#') alt = true; else if (*f == ' ') space = true; else break; }
    int width = 0, prec = -1; if (*f == '*') { width = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
    if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
    int lng = 0; for (;; f++) { if (*f == 'l') lng++; else if (*f == 'z' || *f == 'j' || *f == 't' || *f == 'L') lng = 2; else if (*f == 'h') lng--; else break; }
    char t[72]; unsigned k = 0; bool neg = false; const char* str = ((void*)0); size_t sl = 0;
    switch (*f) {
      case '%': at = outp(b, n, at, '%'); continue;
      case 'c': t[0] = (char)va_arg(ap, int); k = 1; zero = false; break;
      case 's': str = va_arg(ap, const char*); sl = prec >= 0 ? strnlen(str, prec) : strlen(str); break;
      case 'd': case 'i': { long long v = lng >= 1 ? va_arg(ap, long long) : va_arg(ap, int); if (lng == -1) v = (short)v; if (lng == -2) v = (signed char)v; neg = v < 0; k = udec(neg ? (ull_)0 - (ull_)v : (ull_)v, t); break; }
      case 'u': case 'x': case 'X': case 'o': { ull_ v = lng >= 1 ? va_arg(ap, ull_) : va_arg(ap, unsigned); if (lng == -1) v = (unsigned short)v; if (lng == -2) v = (unsigned char)v; k = *f == 'u' ? udec(v, t) : digitsOf(v, *f == 'o' ? 8 : 16, *f == 'X', t); break; }
      default: vp_fail("runtime model: unsupported printf conversion"); return -1;
    }
    if (str) { for (int i = (int)sl; !left && i < width; i++) at = outp(b, n, at, ' '); for (size_t i = 0; i < sl; i++) at = outp(b, n, at, str[i]); for (int i = (int)sl; left && i < width; i++) at = outp(b, n, at, ' '); continue; }
    if (*f != 'c') while ((int)k < prec) t[k++] = '0';
    char sgn = neg ? '-' : plus ? '+' : space ? ' ' : 0; int tot = (int)k + (sgn ? 1 : 0);
    if (!left && !(zero && prec < 0)) for (int i = tot; i < width; i++) at = outp(b, n, at, ' ');
    if (sgn) at = outp(b, n, at, sgn);
    if (!left && zero && prec < 0) for (int i = tot; i < width; i++) at = outp(b, n, at, '0');
    if (alt && *f == 'x') { }
    while (k) at = outp(b, n, at, t[--k]);
    if (left) for (int i = tot; i < width; i++) at = outp(b, n, at, ' ');
  }
  if (n) b[at < n ? at : n - 1] = 0;
  return (int)at;
}
int snprintf(char* b, size_t n, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
int vsprintf(char* b, const char* f, va_list ap) { return vsnprintf(b, (size_t)1 << 40, f, ap); }
int sprintf(char* b, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, (size_t)1 << 40, f, ap); va_end(ap); return r; }
int fprintf(FILE*, const char*, ...) { return 0; }
int printf(const char*, ...) { return 0; }
int vfprintf(FILE*, const char*, va_list) { return 0; }
int puts(const char*) { return 0; }
int putchar(int) { return 0; }
size_t fwrite(const void*, size_t, size_t n, FILE*) { return n; }
int fputs(const char*, FILE*) { return 0; }
int fputc(int c, FILE*) { return c; }
int fflush(FILE*) { return 0; }
char* getenv(const char*) { return ((void*)0); }
char* setlocale(int, const char*) { static char c[] = "C"; return c; }
struct lconv* localeconv() { static struct lconv l; static char dot[] = ".", e[] = ""; l.decimal_point = dot; l.thousands_sep = e; l.grouping = e; return &l; }
void qsort(void* base, size_t n, size_t sz, int (*cmp)(const void*, const void*)) { char* b = (char*)base; for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && cmp(b + (j - 1) * sz, b + j * sz) > 0; j--) for (size_t k = 0; k < sz; k++) { char t = b[(j - 1) * sz + k]; b[(j - 1) * sz + k] = b[j * sz + k]; b[j * sz + k] = t; } }
