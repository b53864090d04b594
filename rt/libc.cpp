// C library pieces used by the code under test, written so that they execute symbolically.
#include <stddef.h>
#include <stdarg.h>
#include <stdint.h>
#include <sys/types.h>
typedef unsigned char uc;
typedef unsigned long ul;
extern "C" {
int sym_is_symbolic(long);
void sym_incomplete(const char *);
int sym_fmt_double(char *buf, ul n, const char *fmt, double d);
double sym_strtod(const char *p, char **e);
long sym_concrete(long);
long sym_ite(long c, long a, long b);
void *malloc(ul); void *realloc(void *, ul); void free(void *);
void *memcpy(void *, const void *, ul); void *memset(void *, int, ul); void *memmove(void *, const void *, ul);
ul strlen(const char *);
int sym_errno;
int *__errno_location();
// ---- ctype
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isalpha(int c) { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); }
int isalnum(int c) { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9'); }
int isprint(int c) { return c >= 32 && c < 127; }
int isgraph(int c) { return c > 32 && c < 127; }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int ispunct(int c) { return isgraph(c) && !isalnum(c); }
int isblank(int c) { return c == ' ' || c == '\t'; }
int isxdigit(int c) { return (c >= '0' && c <= '9') || (c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f'); }
int tolower(int c) { return (int)sym_ite(c >= 'A' && c <= 'Z', c + 32, c); }
int toupper(int c) { return (int)sym_ite(c >= 'a' && c <= 'z', c - 32, c); }
// ---- strings
int strcmp(const char *a, const char *b) { for (;; ++a, ++b) { uc x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
int strncmp(const char *a, const char *b, ul n) { for (; n; ++a, ++b, --n) { uc x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
int strcasecmp(const char *a, const char *b) { for (;; ++a, ++b) { uc x = (uc)tolower((uc)*a), y = (uc)tolower((uc)*b); if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
int strncasecmp(const char *a, const char *b, ul n) { for (; n; ++a, ++b, --n) { uc x = (uc)tolower((uc)*a), y = (uc)tolower((uc)*b); if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
char *strchr(const char *s, int c) { for (;; ++s) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *strrchr(const char *s, int c) { char *r = 0; for (;; ++s) { if (*s == (char)c) r = (char *)s; if (!*s) return r; } }
char *strstr(const char *h, const char *n) { ul k = strlen(n); for (;; ++h) { if (!strncmp(h, n, k)) return (char *)h; if (!*h) return 0; } }
void *memchr(const void *p, int c, ul n) { const uc *q = (const uc *)p; for (; n; --n, ++q) if (*q == (uc)c) return (void *)q; return 0; }
void *memrchr(const void *p, int c, ul n) { const uc *q = (const uc *)p + n; while (n--) { --q; if (*q == (uc)c) return (void *)q; } return 0; }
ul strnlen(const char *s, ul n) { ul i = 0; while (i < n && s[i]) ++i; return i; }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) ; return r; }
char *strncpy(char *d, const char *s, ul n) { char *r = d; for (; n && *s; --n) *d++ = *s++; for (; n; --n) *d++ = 0; return r; }
char *stpcpy(char *d, const char *s) { while ((*d = *s)) { ++d; ++s; } return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strdup(const char *s) { ul n = strlen(s) + 1; char *r = (char *)malloc(n); memcpy(r, s, n); return r; }
char *strpbrk(const char *s, const char *a) { for (; *s; ++s) if (strchr(a, *s)) return (char *)s; return 0; }
ul strspn(const char *s, const char *a) { ul i = 0; while (s[i] && strchr(a, s[i])) ++i; return i; }
ul strcspn(const char *s, const char *a) { ul i = 0; while (s[i] && !strchr(a, s[i])) ++i; return i; }
const char *strerror_(int e) { return "error"; }
char *strerror_r(int, char *, size_t) { return (char *)"error"; }
char *strerror(int e) { return (char *)"error"; }
char *getenv(const char *) { return 0; }
int sym_rand_any; long sym_long(long, long, const char *);
int rand() { if (sym_rand_any) return (int)sym_long(0, 0x7fffffff, "rand"); static unsigned x = 12345; x = x * 1103515245u + 12345u; return (x >> 16) & 0x7fff; }
void srand(unsigned) {}
// ---- numbers
double difftime(long a, long b) { return (double)a - (double)b; }
static int digv(int c, int base) { int v; if (c >= '0' && c <= '9') v = c - '0'; else if (c >= 'a' && c <= 'z') v = c - 'a' + 10; else if (c >= 'A' && c <= 'Z') v = c - 'A' + 10; else return -1; return v < base ? v : -1; }
static ul strtox(const char *p, char **e, int base, ul lim, bool sgn) {
  const char *o = p;
  while (isspace((uc)*p)) ++p;
  bool neg = false;
  if (*p == '-') { neg = true; ++p; } else if (*p == '+') ++p;
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && digv((uc)p[2], 16) >= 0) { p += 2; base = 16; }
  else if (base == 0) base = *p == '0' ? 8 : 10;
  ul v = 0; bool any = false, over = false;
  for (;; ++p) {
    int d = digv((uc)*p, base);
    if (d < 0) break;
    any = true;
    if (v > (~0ul - (ul)d) / (ul)base) over = true; else v = v * (ul)base + (ul)d;
  }
  if (e) *e = (char *)(any ? p : o);
  if (!any) return 0;
  if (sgn) { ul l = neg ? lim + 1 : lim; if (over || v > l) { *__errno_location() = 34; return neg ? (ul)(-(long)lim - 1) : lim; } return neg ? 0 - v : v; }
  if (over) { *__errno_location() = 34; return ~0ul; }
  return neg ? 0 - v : v;
}
long strtol(const char *p, char **e, int b) { return (long)strtox(p, e, b, 0x7fffffffffffffffUL, true); }
long long strtoll(const char *p, char **e, int b) { return (long long)strtox(p, e, b, 0x7fffffffffffffffUL, true); }
ul strtoul(const char *p, char **e, int b) { return strtox(p, e, b, ~0ul, false); }
unsigned long long strtoull(const char *p, char **e, int b) { return strtox(p, e, b, ~0ul, false); }
long __isoc23_strtol(const char *p, char **e, int b) { return strtol(p, e, b); }
ul __isoc23_strtoul(const char *p, char **e, int b) { return strtoul(p, e, b); }
long long __isoc23_strtoll(const char *p, char **e, int b) { return strtoll(p, e, b); }
unsigned long long __isoc23_strtoull(const char *p, char **e, int b) { return strtoull(p, e, b); }
int atoi(const char *p) { return (int)strtol(p, 0, 10); }
long atol(const char *p) { return strtol(p, 0, 10); }
long long atoll(const char *p) { return strtol(p, 0, 10); }
static const double p10[] = {1e0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22};
double strtod(const char *p, char **e) {
  // fully concrete text: ask the host
  { const char *q = p; int n = 0; for (;; ++q, ++n) { if (sym_is_symbolic((uc)*q)) break; if (!*q) return sym_strtod(p, e); if (n > 400) break; } }
  const char *o = p;
  while (isspace((uc)*p)) ++p;
  bool neg = false;
  if (*p == '-') { neg = true; ++p; } else if (*p == '+') ++p;
  double sg = neg ? -1.0 : 1.0;
  if (*p == 'i' || *p == 'I') {
    if (!strncasecmp(p, "inf", 3)) { if (e) *e = (char *)(!strncasecmp(p, "infinity", 8) ? p + 8 : p + 3); return sg * __builtin_inf(); }
    if (e) *e = (char *)o; return 0;
  }
  if (*p == 'n' || *p == 'N') {
    if (!strncasecmp(p, "nan", 3)) {
      p += 3;
      if (*p == '(') { const char *q = p + 1; while (isalnum((uc)*q) || *q == '_') ++q; if (*q == ')') p = q + 1; }
      if (e) *e = (char *)p; return neg ? -__builtin_nan("") : __builtin_nan("");
    }
    if (e) *e = (char *)o; return 0;
  }
  if (p[0] == '0' && (p[1] | 32) == 'x') sym_incomplete("strtod: hexadecimal floating point text");
  ul m = 0; int nd = 0, sc = 0; bool any = false;
  for (; isdigit((uc)*p); ++p) { any = true; if (nd >= 15) sym_incomplete("strtod: more than 15 digits"); m = m * 10 + (ul)(*p - '0'); if (nd || *p != '0') ++nd; }
  if (*p == '.') {
    const char *dot = p; ++p;
    bool frac = false;
    for (; isdigit((uc)*p); ++p) { frac = true; if (nd >= 15) sym_incomplete("strtod: more than 15 digits"); m = m * 10 + (ul)(*p - '0'); if (nd || *p != '0') ++nd; --sc; }
    if (!any && !frac) { if (e) *e = (char *)o; return 0; }
    any = true; (void)dot;
  }
  if (!any) { if (e) *e = (char *)o; return 0; }
  if (*p == 'e' || *p == 'E') {
    const char *q = p + 1; bool en = false; int x = 0;
    if (*q == '-') { en = true; ++q; } else if (*q == '+') ++q;
    if (isdigit((uc)*q)) {
      for (; isdigit((uc)*q); ++q) if (x < 10000) x = x * 10 + (*q - '0');
      p = q; x = (int)sym_concrete(x);
      sc += en ? -x : x;
    }
  }
  if (e) *e = (char *)p;
  double d = (double)(long)m;
  if (sc == 0) ;
  else if (sc > 0 && sc <= 22) d = d * p10[sc];
  else if (sc < 0 && sc >= -22) d = d / p10[-sc];
  else {
    if (m == 0) d = 0;
    else if (sc > 330) { *__errno_location() = 34; d = __builtin_inf(); }
    else if (sc < -360) { *__errno_location() = 34; d = 0; }
    else sym_incomplete("strtod: large decimal exponent");
  }
  return neg ? -d : d;
}
double atof(const char *p) { return strtod(p, 0); }
ul symrt_utoa(ul v, char *out, int base, int upper) {
  const char *dg = upper ? "0123456789ABCDEF" : "0123456789abcdef";
  if (base == 10) {
    static const ul p[] = {1ul, 10ul, 100ul, 1000ul, 10000ul, 100000ul, 1000000ul, 10000000ul, 100000000ul, 1000000000ul, 10000000000ul, 100000000000ul, 1000000000000ul, 10000000000000ul, 100000000000000ul, 1000000000000000ul, 10000000000000000ul, 100000000000000000ul, 1000000000000000000ul, 10000000000000000000ul};
    int n = 1;
    while (n < 20 && v >= p[n]) ++n;
    for (int i = 0; i < n; ++i) out[i] = (char)('0' + (v / p[n - 1 - i]) % 10);
    out[n] = 0;
    return (ul)n;
  }
  int sh = base == 16 ? 4 : 3; int n = 1;
  while (n * sh < 64 && (v >> (n * sh)) != 0) ++n;
  for (int i = 0; i < n; ++i) { ul d = (v >> ((n - 1 - i) * sh)) & ((1ul << sh) - 1); out[i] = sh == 3 ? (char)('0' + d) : (char)sym_ite(d < 10, (long)('0' + d), (long)((upper ? 'A' : 'a') - 10 + (long)d)); }
  (void)dg;
  out[n] = 0;
  return (ul)n;
}
// ---- printf family
struct OutB { char *p; ul cap, n; };
static void oc(OutB &o, char c) { if (o.n + 1 < o.cap) o.p[o.n] = c; ++o.n; }
static void opad(OutB &o, const char *s, ul n, int w, bool left, char pc) { ul pad = (w > 0 && (ul)w > n) ? (ul)w - n : 0; if (!left) for (ul i = 0; i < pad; ++i) oc(o, pc); for (ul i = 0; i < n; ++i) oc(o, s[i]); if (left) for (ul i = 0; i < pad; ++i) oc(o, ' '); }
int vsnprintf(char *buf, ul n, const char *f, va_list ap) {
  OutB o = {buf, n, 0};
  for (; *f; ++f) {
    if (*f != '%') { oc(o, *f); continue; }
    const char *start = f; ++f;
    bool left = false, zero = false, alt = false; char plus = 0; int w = 0, pr = -1; int lg = 0;
    for (;; ++f) { if (*f == '-') left = true; else if (*f == '0') zero = true; else if (*f == '+') plus = '+'; else if (*f == ' ') { if (!plus) plus = ' '; } else if (*f == '#') alt = true; else break; }
    if (*f == '*') { w = va_arg(ap, int); if (w < 0) { left = true; w = -w; } ++f; } else while (isdigit((uc)*f)) w = w * 10 + (*f++ - '0');
    if (*f == '.') { ++f; pr = 0; if (*f == '*') { pr = va_arg(ap, int); ++f; } else while (isdigit((uc)*f)) pr = pr * 10 + (*f++ - '0'); }
    while (*f == 'l' || *f == 'h' || *f == 'z' || *f == 'j' || *f == 't' || *f == 'q' || *f == 'L') { if (*f == 'h') --lg; else lg += 2; ++f; }
    switch (*f) {
    case '%': oc(o, '%'); break;
    case 'c': { char c = (char)va_arg(ap, int); opad(o, &c, 1, w, left, ' '); break; }
    case 's': { const char *s = va_arg(ap, const char *); if (!s) s = "(null)"; ul k = pr >= 0 ? strnlen(s, (ul)pr) : strlen(s); opad(o, s, k, w, left, ' '); break; }
    case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'p': {
      char t[40]; char *q = t + 2; ul v; bool neg = false;
      if (*f == 'd' || *f == 'i') { long x = lg >= 2 ? va_arg(ap, long) : (long)va_arg(ap, int); if (lg == -1) x = (short)x; if (lg <= -2) x = (signed char)x; neg = x < 0; v = neg ? 0ul - (ul)x : (ul)x; }
      else if (*f == 'p') v = (ul)va_arg(ap, void *);
      else { v = lg >= 2 ? va_arg(ap, ul) : (ul)va_arg(ap, unsigned); if (lg == -1) v = (unsigned short)v; if (lg <= -2) v = (uc)v; }
      int base = (*f == 'x' || *f == 'X' || *f == 'p') ? 16 : *f == 'o' ? 8 : 10;
      ul k = symrt_utoa(v, q, base, *f == 'X');
      char tmp[80]; ul tn = 0;
      char sgn = 0; if (neg) sgn = '-'; else if (plus && (*f == 'd' || *f == 'i')) sgn = plus;
      ul body = k; if (pr >= 0 && (ul)pr > body) body = (ul)pr;
      if (sgn) tmp[tn++] = sgn;
      if (*f == 'p' || (alt && base == 16)) { tmp[tn++] = '0'; tmp[tn++] = *f == 'X' ? 'X' : 'x'; }
      ul zz = body - k;
      if (zero && !left && pr < 0 && (ul)w > tn + k) zz = (ul)w - tn - k;
      if (zz + k + tn > sizeof tmp) zz = sizeof tmp - k - tn;
      for (ul i = 0; i < zz; ++i) tmp[tn++] = '0';
      for (ul i = 0; i < k; ++i) tmp[tn++] = q[i];
      opad(o, tmp, tn, w, left, ' ');
      break; }
    case 'f': case 'F': case 'e': case 'E': case 'g': case 'G': case 'a': {
      char ff[40]; char *q = ff; *q++ = '%';
      if (left) *q++ = '-'; if (zero) *q++ = '0'; if (plus) *q++ = plus; if (alt) *q++ = '#';
      if (w) q += symrt_utoa((ul)w, q, 10, 0);
      if (pr >= 0) { *q++ = '.'; q += symrt_utoa((ul)pr, q, 10, 0); }
      *q++ = *f; *q = 0;
      char t[420]; int k = sym_fmt_double(t, sizeof t, ff, va_arg(ap, double));
      for (int i = 0; i < k; ++i) oc(o, t[i]);
      break; }
    default: (void)start; sym_incomplete("printf: unsupported conversion");
    }
  }
  if (n) buf[o.n < n ? o.n : n - 1] = 0;
  return (int)o.n;
}
int snprintf(char *b, ul n, const char *f, ...) { va_list a; va_start(a, f); int r = vsnprintf(b, n, f, a); va_end(a); return r; }
// the daemon's JSON reader uses one form only
int sscanf(const char *b, const char *f, ...) {
  if (!(f[0] == '%' && f[1] == 'l' && f[2] == 'f' && !f[3])) sym_incomplete("sscanf: format");
  va_list a; va_start(a, f); double *o = va_arg(a, double *); va_end(a);
  char *e; double v = strtod(b, &e); if (e == b) return *b ? 0 : -1;
  *o = v; return 1;
}
int __isoc99_sscanf(const char *b, const char *f, ...) __attribute__((alias("sscanf")));
int sprintf(char *b, const char *f, ...) { va_list a; va_start(a, f); int r = vsnprintf(b, 1ul << 20, f, a); va_end(a); return r; }
int vsprintf(char *b, const char *f, va_list a) { return vsnprintf(b, 1ul << 20, f, a); }
int printf(const char *f, ...) { return 0; }
int puts(const char *) { return 0; }
int putchar(int c) { return c; }
void *stdout, *stderr, *stdin;
int fprintf(void *, const char *, ...) { return 0; }
int vfprintf(void *, const char *, va_list) { return 0; }
int fflush(void *) { return 0; }
int fputs(const char *, void *) { return 0; }
int fputc(int c, void *) { return c; }
void perror(const char *) {}
void qsort(void *base, ul n, ul sz, int (*cmp)(const void *, const void *)) {
  char *b = (char *)base; char t[512];
  for (ul i = 1; i < n; ++i) for (ul j = i; j > 0 && cmp(b + (j - 1) * sz, b + j * sz) > 0; --j) { memcpy(t, b + j * sz, sz); memcpy(b + j * sz, b + (j - 1) * sz, sz); memcpy(b + (j - 1) * sz, t, sz); }
}
// ---- time: the harness sets the clock
long sym_now = 1700000000;
long sym_now_us = 0;
long time(long *t) { if (t) *t = sym_now; return sym_now; }
struct tv_ { long s, u; };
int gettimeofday(void *tv, void *) throw() { tv_ *t = (tv_ *)tv; t->s = sym_now; t->u = sym_now_us; return 0; }
int clock_gettime(int, void *tv) throw() { tv_ *t = (tv_ *)tv; t->s = sym_now; t->u = sym_now_us * 1000; return 0; }
int usleep(unsigned) { return 0; }
unsigned sleep(unsigned) { return 0; }
struct tm_ { int sec, min, hour, mday, mon, year, wday, yday, isdst; long gmtoff; const char *zone; };
void *gmtime_r(const long *tp, void *out) throw() {
  tm_ *t = (tm_ *)out; long s = *tp;
  long days = s / 86400, r = s % 86400; if (r < 0) { r += 86400; --days; }
  t->hour = (int)(r / 3600); t->min = (int)(r % 3600 / 60); t->sec = (int)(r % 60);
  t->wday = (int)(((days % 7) + 11) % 7);
  // civil from days (Howard Hinnant's algorithm)
  long z = days + 719468; long era = (z >= 0 ? z : z - 146096) / 146097; long doe = z - era * 146097;
  long yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; long y = yoe + era * 400; long doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
  long mp = (5 * doy + 2) / 153; long d = doy - (153 * mp + 2) / 5 + 1; long m = mp < 10 ? mp + 3 : mp - 9;
  if (m <= 2) ++y;
  t->mday = (int)d; t->mon = (int)m - 1; t->year = (int)(y - 1900);
  static const int cum[] = {0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334};
  bool leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
  int mi = (int)sym_concrete(m - 1);
  t->yday = cum[mi] + (int)d - 1 + (mi > 1 && leap ? 1 : 0);
  t->isdst = 0; t->gmtoff = 0; t->zone = "GMT";
  return out;
}
static tm_ tmbuf;
void *gmtime(const long *tp) throw() { return gmtime_r(tp, &tmbuf); }
void *localtime_r(const long *tp, void *o) throw() { return gmtime_r(tp, o); }
void *localtime(const long *tp) throw() { return gmtime_r(tp, &tmbuf); }
long timegm(void *p) throw() {
  tm_ *t = (tm_ *)p; long y = t->year + 1900L; long m = t->mon + 1L; y += (m - 1) / 12; m = (m - 1) % 12 + 1;
  if (m <= 0) { m += 12; --y; }
  if (m <= 2) --y;
  long era = (y >= 0 ? y : y - 399) / 400; long yoe = y - era * 400; long doy = (153 * (m > 2 ? m - 3 : m + 9) + 2) / 5 + t->mday - 1;
  long doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
  return (era * 146097 + doe - 719468) * 86400 + t->hour * 3600L + t->min * 60L + t->sec;
}
long mktime(void *p) throw() { return timegm(p); }
// C-locale strftime for the conversions the code uses
ul strftime(char *b, ul n, const char *f, const void *p) throw() {
  const tm_ *t = (const tm_ *)p; OutB o = {b, n, 0};
  static const char *wd[] = {"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"};
  static const char *mn[] = {"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"};
  for (; *f; ++f) {
    if (*f != '%') { oc(o, *f); continue; }
    ++f; char q[24]; int k;
    switch (*f) {
    case 'Y': k = snprintf(q, 24, "%d", t->year + 1900); opad(o, q, k, 0, false, ' '); break;
    case 'm': k = snprintf(q, 24, "%02d", t->mon + 1); opad(o, q, k, 0, false, ' '); break;
    case 'd': k = snprintf(q, 24, "%02d", t->mday); opad(o, q, k, 0, false, ' '); break;
    case 'H': k = snprintf(q, 24, "%02d", t->hour); opad(o, q, k, 0, false, ' '); break;
    case 'M': k = snprintf(q, 24, "%02d", t->min); opad(o, q, k, 0, false, ' '); break;
    case 'S': k = snprintf(q, 24, "%02d", t->sec); opad(o, q, k, 0, false, ' '); break;
    case 'F': k = snprintf(q, 24, "%d-%02d-%02d", t->year + 1900, t->mon + 1, t->mday); opad(o, q, k, 0, false, ' '); break;
    case 'T': k = snprintf(q, 24, "%02d:%02d:%02d", t->hour, t->min, t->sec); opad(o, q, k, 0, false, ' '); break;
    case 'a': opad(o, wd[sym_concrete(t->wday)], 3, 0, false, ' '); break;
    case 'A': { const char *x = wd[sym_concrete(t->wday)]; opad(o, x, strlen(x), 0, false, ' '); break; }
    case 'b': opad(o, mn[sym_concrete(t->mon)], 3, 0, false, ' '); break;
    case 'B': { const char *x = mn[sym_concrete(t->mon)]; opad(o, x, strlen(x), 0, false, ' '); break; }
    case 'Z': opad(o, "GMT", 3, 0, false, ' '); break;
    case 'z': opad(o, "+0000", 5, 0, false, ' '); break;
    case '%': oc(o, '%'); break;
    default: sym_incomplete("strftime: unsupported conversion");
    }
  }
  if (o.n >= n) return 0;
  b[o.n] = 0;
  return o.n;
}
void tzset() throw() {}
int gethostname(char *b, ul n) throw() { strncpy(b, "testhost", n); return 0; }
unsigned getuid() throw() { return 1000; }
unsigned geteuid() throw() { return 1000; }
int kill(int, int) throw() { return 0; }
int raise(int) throw() { return 0; }
}
