// boost::lexical_cast with Boost 1.83 semantics for the instantiations used by the code base.
#pragma once
#include <string>
#include <typeinfo>
#include <sstream>
#include <exception>
#include <string.h>
extern "C" { double strtod(const char *, char **) throw(); int sym_fmt_double(char *, unsigned long, const char *, double); unsigned long symrt_utoa(unsigned long v, char *out, int base, int upper); void sym_incomplete(const char *); }
namespace boost {
class bad_lexical_cast : public std::bad_cast { public: bad_lexical_cast() {} ~bad_lexical_cast() throw() {} const char *what() const throw() { return "bad lexical cast: source type value could not be interpreted as target"; } };
namespace symlc {
inline bool digits(const char *p, unsigned long n, unsigned long lim, unsigned long &o) {
  if (!n) return false;
  unsigned long v = 0;
  for (unsigned long i = 0; i < n; ++i) {
    unsigned long d = (unsigned long)((unsigned char)p[i]) - '0';
    if (d > 9) return false;
    if (v > (~0ul - d) / 10) return false;
    v = v * 10 + d;
    if (v > lim) return false;
  }
  o = v; return true;
}
template <typename T> struct I { static const bool is = false; };
#define SYMLC_S(T, M) template <> struct I<T> { static const bool is = true; static T parse(const char *p, unsigned long n) { \
  bool neg = false; if (n && (*p == '-' || *p == '+')) { neg = *p == '-'; ++p; --n; } unsigned long v = 0; \
  if (!digits(p, n, neg ? (unsigned long)(M) + 1 : (unsigned long)(M), v)) throw bad_lexical_cast(); return neg ? (T)(0ul - v) : (T)v; } };
#define SYMLC_U(T, M) template <> struct I<T> { static const bool is = true; static T parse(const char *p, unsigned long n) { \
  bool neg = false; if (n && (*p == '-' || *p == '+')) { neg = *p == '-'; ++p; --n; } unsigned long v = 0; \
  if (!digits(p, n, (unsigned long)(M), v)) throw bad_lexical_cast(); return neg ? (T)(0ul - v) : (T)v; } };
SYMLC_S(int, 0x7fffffff) SYMLC_S(long, 0x7fffffffffffffffL) SYMLC_S(long long, 0x7fffffffffffffffL) SYMLC_S(short, 0x7fff)
SYMLC_U(unsigned, 0xffffffffu) SYMLC_U(unsigned long, ~0ul) SYMLC_U(unsigned long long, ~0ul) SYMLC_U(unsigned short, 0xffff)
inline bool ieq(const char *p, const char *q, unsigned long n) { for (unsigned long i = 0; i < n; ++i) { char c = p[i]; if (c != q[i] && c != q[i] - 32) return false; } return true; }
template <> struct I<double> { static const bool is = true; static double parse(const char *p, unsigned long n) {
  const char *o = p; unsigned long on = n; bool neg = false;
  if (n && (*p == '-' || *p == '+')) { neg = *p == '-'; ++p; --n; }
  if (n >= 3 && ieq(p, "nan", 3)) {
    if (n == 3 || (n >= 5 && p[3] == '(' && p[n - 1] == ')')) return neg ? -__builtin_nan("") : __builtin_nan("");
    throw bad_lexical_cast();
  }
  if ((n == 3 && ieq(p, "inf", 3)) || (n == 8 && ieq(p, "infinity", 8))) return neg ? -__builtin_inf() : __builtin_inf();
  p = o; n = on;
  if (!n) throw bad_lexical_cast();
  std::string b; bool dot = false, ex = false, dig = false;
  for (unsigned long i = 0; i < n; ++i) {
    char c = p[i];
    if (c >= '0' && c <= '9') dig = true;
    else if (c == '.' && !dot && !ex) dot = true;
    else if ((c == 'e' || c == 'E') && dig && !ex) ex = true;
    else if ((c == '+' || c == '-') && (b.empty() || ((b[b.size() - 1] | 32) == 'e'))) ;
    else throw bad_lexical_cast();
    b.push_back(c);
  }
  char l = b[b.size() - 1];
  if (l == 'e' || l == 'E' || l == '-' || l == '+') throw bad_lexical_cast();
  char *e = 0; double d = strtod(b.c_str(), &e);
  if (*e || e == b.c_str() || d - d != 0) throw bad_lexical_cast();
  return d; } };
template <> struct I<float> { static const bool is = true; static float parse(const char *p, unsigned long n) { return (float)I<double>::parse(p, n); } };
template <> struct I<bool> { static const bool is = true; static bool parse(const char *p, unsigned long n) {
  if (n && (*p == '-' || *p == '+')) { bool neg = *p == '-'; ++p; --n; if (!n) throw bad_lexical_cast(); for (unsigned long i = 0; i < n; ++i) if (p[i] != '0' && (i + 1 < n || p[i] != '1' || neg)) throw bad_lexical_cast(); return p[n - 1] == '1'; }
  if (!n) throw bad_lexical_cast();
  for (unsigned long i = 0; i < n; ++i) if (p[i] != '0' && (i + 1 < n || p[i] != '1')) throw bad_lexical_cast();
  return p[n - 1] == '1'; } };
template <> struct I<std::string> { static const bool is = true; static std::string parse(const char *p, unsigned long n) { return std::string(p, n); } };
inline std::string out(std::string const &s) { return s; }
inline std::string out(const char *s) { return s; }
inline std::string out(char *s) { return s; }
inline std::string out(bool b) { return b ? "1" : "0"; }
inline std::string out(char c) { return std::string(1, c); }
inline std::string uo(unsigned long v, bool neg) { char b[32]; b[0] = '-'; unsigned long n = symrt_utoa(v, b + 1, 10, 0); return neg ? std::string(b, n + 1) : std::string(b + 1, n); }
inline std::string out(unsigned long v) { return uo(v, false); }
inline std::string out(unsigned long long v) { return uo(v, false); }
inline std::string out(unsigned v) { return uo(v, false); }
inline std::string out(unsigned short v) { return uo(v, false); }
inline std::string out(long v) { return v < 0 ? uo(0ul - (unsigned long)v, true) : uo((unsigned long)v, false); }
inline std::string out(long long v) { return out((long)v); }
inline std::string out(int v) { return out((long)v); }
inline std::string out(short v) { return out((long)v); }
inline std::string out(double d) { char b[64]; int n = sym_fmt_double(b, sizeof b, "%.17g", d); return std::string(b, (size_t)n); }
template <typename S> inline std::string out(S const &s) { std::ostringstream o; o << s; return o.str(); }
template <typename T> struct P { template <typename S> static T go(S const &s) { std::string t(out(s)); return I<T>::parse(t.data(), t.size()); } };
template <> struct P<std::string> { template <typename S> static std::string go(S const &s) { return out(s); } };
}
template <typename T, typename S> inline T lexical_cast(S const &s) { return symlc::P<T>::go(s); }
template <typename T> inline T lexical_cast(const char *s, size_t n) { return symlc::I<T>::parse(s, n); }
}
