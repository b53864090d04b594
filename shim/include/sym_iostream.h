// Replacement for the libstdc++ iostreams (which live behind std::locale in a shared object that cannot be
// executed symbolically).  Same observable formatting for the operations the code base uses.
#pragma once
#include <iosfwd>
#include <bits/char_traits.h>
#include <string>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
extern "C" {
int sym_fmt_double(char *buf, unsigned long n, const char *fmt, double d);
double sym_strtod(const char *p, char **e);
unsigned long symrt_utoa(unsigned long v, char *out, int base, int upper);
double strtod(const char *, char **) throw();
void *symrt_fopen(const char *name, int flags);   // 1 read 2 write 4 trunc 8 app
long symrt_fwrite(void *f, const char *p, long n);
int symrt_fgetc(void *f);
int symrt_fpeek(void *f);
int symrt_fclose(void *f);
}
namespace std {
typedef long streamsize;
class locale { public: locale() {} explicit locale(const char *) {} static locale const &classic() { static locale l; return l; } };
class ios_base {
public:
  typedef unsigned fmtflags;
  typedef unsigned iostate;
  typedef unsigned openmode;
  typedef int seekdir;
  static const fmtflags dec = 2, hex = 8, oct = 64, fixed = 4, scientific = 256, left = 32, right = 128, internal = 16, boolalpha = 1, showbase = 512, showpos = 2048, skipws = 4096, uppercase = 16384, basefield = 2 | 8 | 64, floatfield = 4 | 256, adjustfield = 32 | 128 | 16;
  static const iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
  static const openmode app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32;
  static const seekdir beg = 0, cur = 1, end = 2;
  class Init { public: Init() {} };
  class failure {};
  fmtflags flags() const { return fl_; }
  fmtflags flags(fmtflags f) { fmtflags o = fl_; fl_ = f; return o; }
  fmtflags setf(fmtflags f) { fmtflags o = fl_; fl_ |= f; return o; }
  fmtflags setf(fmtflags f, fmtflags m) { fmtflags o = fl_; fl_ = (fl_ & ~m) | (f & m); return o; }
  void unsetf(fmtflags m) { fl_ &= ~m; }
  streamsize precision() const { return prec_; }
  streamsize precision(streamsize p) { streamsize o = prec_; prec_ = p; return o; }
  streamsize width() const { return width_; }
  streamsize width(streamsize p) { streamsize o = width_; width_ = p; return o; }
  locale imbue(locale const &) { return locale(); }
  locale getloc() const { return locale(); }
  static bool sync_with_stdio(bool = true) { return true; }
protected:
  ios_base() : fl_(dec | skipws), prec_(6), width_(0) {}
  fmtflags fl_; streamsize prec_, width_;
};
template <typename C, typename T> class basic_streambuf {
public:
  typedef C char_type; typedef T traits_type; typedef int int_type; typedef long pos_type; typedef long off_type;
  basic_streambuf() {}
  virtual ~basic_streambuf() {}
  virtual streamsize xsputn(const C *, streamsize) { return 0; }
  virtual int bump() { return -1; }
  virtual int peekc() { return -1; }
  virtual streamsize showmanyc() { return 0; }
  streamsize sputn(const C *p, streamsize n) { return xsputn(p, n); }
  int sputc(C c) { return xsputn(&c, 1) == 1 ? (unsigned char)c : -1; }
  int sgetc() { return peekc(); }
  int sbumpc() { return bump(); }
  int snextc() { bump(); return peekc(); }
  streamsize in_avail() { return showmanyc(); }
  streamsize sgetn(C *p, streamsize n) { streamsize i = 0; for (; i < n; ++i) { int c = bump(); if (c < 0) break; p[i] = (C)c; } return i; }
  int pubsync() { return 0; }
};
template <typename C, typename T> class basic_ios : public ios_base {
public:
  typedef C char_type; typedef T traits_type; typedef int int_type;
  explicit basic_ios(basic_streambuf<C, T> *b = 0) : sb_(b), st_(b ? 0u : (unsigned)badbit), fill_(' '), tie_(0) {}
  virtual ~basic_ios() {}
  basic_streambuf<C, T> *rdbuf() const { return sb_; }
  basic_streambuf<C, T> *rdbuf(basic_streambuf<C, T> *b) { basic_streambuf<C, T> *o = sb_; sb_ = b; st_ = 0; return o; }
  bool good() const { return st_ == 0; }
  bool eof() const { return (st_ & eofbit) != 0; }
  bool fail() const { return (st_ & (badbit | failbit)) != 0; }
  bool bad() const { return (st_ & badbit) != 0; }
  iostate rdstate() const { return st_; }
  void clear(iostate s = 0) { st_ = s; }
  void setstate(iostate s) { st_ |= s; }
  operator void *() const { return fail() ? 0 : (void *)this; }
  bool operator!() const { return fail(); }
  C fill() const { return fill_; }
  C fill(C c) { C o = fill_; fill_ = c; return o; }
  void exceptions(iostate) {}
  void init(basic_streambuf<C, T> *b) { sb_ = b; st_ = b ? 0u : (unsigned)badbit; fill_ = ' '; }
protected:
  basic_streambuf<C, T> *sb_; iostate st_; C fill_; void *tie_;
};
template <typename C, typename T> class basic_ostream : public basic_ios<C, T> {
public:
  typedef basic_ostream<C, T> Self;
  explicit basic_ostream(basic_streambuf<C, T> *b = 0) : basic_ios<C, T>(b) {}
  class sentry { public: explicit sentry(Self &o) : ok_(o.good()) {} operator bool() const { return ok_; } bool ok_; };
  Self &put(C c) { this->put_(&c, 1); return *this; }
  Self &write(const C *p, streamsize n) { this->put_(p, n); return *this; }
  Self &flush() { return *this; }
  long tellp() { return -1; }
  void put_(const C *p, streamsize n) { if (!this->good()) return; if (this->sb_->sputn(p, n) != n) this->st_ |= ios_base::badbit; }
  Self &padded(const C *p, streamsize n) {
    streamsize w = this->width_; this->width_ = 0;
    if (w > n) {
      std::string pad((size_t)(w - n), this->fill_);
      if (this->fl_ & ios_base::left) { put_(p, n); put_(pad.data(), pad.size()); }
      else { put_(pad.data(), pad.size()); put_(p, n); }
    } else put_(p, n);
    return *this;
  }
  Self &num_(unsigned long v, bool neg) {
    char b[72]; char *q = b + 1;
    int base = (this->fl_ & ios_base::hex) ? 16 : (this->fl_ & ios_base::oct) ? 8 : 10;
    unsigned long n = symrt_utoa(v, q, base, (this->fl_ & ios_base::uppercase) != 0);
    if (neg) { *--q = '-'; ++n; } else if ((this->fl_ & ios_base::showpos)) { *--q = '+'; ++n; }
    return padded(q, (streamsize)n);
  }
  bool dec_() const { return !(this->fl_ & (ios_base::hex | ios_base::oct)); }
  Self &operator<<(long v) { if (v < 0 && dec_()) return num_(0ul - (unsigned long)v, true); return num_((unsigned long)v, false); }
  Self &operator<<(unsigned long v) { return num_(v, false); }
  Self &operator<<(int v) { if (!dec_()) return num_((unsigned)v, false); return *this << (long)v; }
  Self &operator<<(unsigned v) { return num_(v, false); }
  Self &operator<<(short v) { if (!dec_()) return num_((unsigned short)v, false); return *this << (long)v; }
  Self &operator<<(unsigned short v) { return num_(v, false); }
  Self &operator<<(long long v) { return *this << (long)v; }
  Self &operator<<(unsigned long long v) { return num_(v, false); }
  Self &operator<<(bool v) { if (this->fl_ & ios_base::boolalpha) { const char *s = v ? "true" : "false"; return padded(s, (streamsize)strlen(s)); } return num_(v, false); }
  Self &operator<<(double d) {
    char b[400], f[32];
    char conv = (this->fl_ & ios_base::floatfield) == ios_base::fixed ? 'f' : (this->fl_ & ios_base::floatfield) == ios_base::scientific ? 'e' : 'g';
    f[0] = '%'; char *q = f + 1; if (this->fl_ & ios_base::showpos) *q++ = '+';
    *q++ = '.'; q += symrt_utoa((unsigned long)this->prec_, q, 10, 0); *q++ = conv; *q = 0;
    int n = sym_fmt_double(b, sizeof b, f, d);
    return padded(b, n);
  }
  Self &operator<<(float d) { return *this << (double)d; }
  Self &operator<<(long double d) { return *this << (double)d; }
  Self &operator<<(const void *p) { char b[40]; b[0] = '0'; b[1] = 'x'; unsigned long n = symrt_utoa((unsigned long)p, b + 2, 16, 0); return padded(b, (streamsize)n + 2); }
  Self &operator<<(basic_streambuf<C, T> *b) { for (;;) { int c = b->bump(); if (c < 0) break; C x = (C)c; put_(&x, 1); } return *this; }
  Self &operator<<(Self &(*f)(Self &)) { return f(*this); }
  Self &operator<<(ios_base &(*f)(ios_base &)) { f(*this); return *this; }
  Self &operator<<(basic_ios<C, T> &(*f)(basic_ios<C, T> &)) { f(*this); return *this; }
};
template <typename T> inline basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, const char *s) { return o.padded(s, (streamsize)strlen(s)); }
template <typename T> inline basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, char c) { return o.padded(&c, 1); }
template <typename T> inline basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, signed char c) { char x = (char)c; return o.padded(&x, 1); }
template <typename T> inline basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, unsigned char c) { char x = (char)c; return o.padded(&x, 1); }
inline basic_ostream<char> &operator<<(basic_ostream<char> &o, std::string const &s) { return o.padded(s.data(), (streamsize)s.size()); }
template <typename C, typename T> inline basic_ostream<C, T> &endl(basic_ostream<C, T> &o) { return o.put('\n'); }
template <typename C, typename T> inline basic_ostream<C, T> &ends(basic_ostream<C, T> &o) { return o.put('\0'); }
template <typename C, typename T> inline basic_ostream<C, T> &flush(basic_ostream<C, T> &o) { return o; }
// istream derives from ostream so that an iostream is both (single inheritance).
template <typename C, typename T> class basic_istream : public basic_ostream<C, T> {
public:
  typedef basic_istream<C, T> Self;
  explicit basic_istream(basic_streambuf<C, T> *b = 0) : basic_ostream<C, T>(b), gc_(0) {}
  class sentry { public: explicit sentry(Self &o, bool nows = false) : ok_(o.prep_(nows)) {} operator bool() const { return ok_; } bool ok_; };
  static bool ws_(int c) { return c == ' ' || (c >= 9 && c <= 13); }
  bool prep_(bool nows) {
    if (!this->good()) { this->st_ |= ios_base::failbit; return false; }
    if (!nows && (this->fl_ & ios_base::skipws)) {
      int c;
      while ((c = this->sb_->peekc()) >= 0 && ws_(c)) this->sb_->bump();
      if (c < 0) { this->st_ |= ios_base::eofbit | ios_base::failbit; return false; }
    }
    return true;
  }
  streamsize gcount() const { return gc_; }
  int get() { gc_ = 0; if (!prep_(true)) return -1; int c = this->sb_->bump(); if (c < 0) this->st_ |= ios_base::eofbit | ios_base::failbit; else gc_ = 1; return c; }
  Self &get(C &o) { int c = get(); if (c >= 0) o = (C)c; return *this; }
  int peek() { gc_ = 0; if (!this->good()) return -1; int c = this->sb_->peekc(); if (c < 0) this->st_ |= ios_base::eofbit; return c; }
  Self &read(C *p, streamsize n) { gc_ = 0; if (!prep_(true)) return *this; gc_ = this->sb_->sgetn(p, n); if (gc_ != n) this->st_ |= ios_base::eofbit | ios_base::failbit; return *this; }
  streamsize readsome(C *p, streamsize n) { gc_ = this->sb_->sgetn(p, n); return gc_; }
  Self &ignore(streamsize n = 1, int d = -1) { gc_ = 0; while (gc_ < n) { int c = this->sb_->bump(); if (c < 0) { this->st_ |= ios_base::eofbit; break; } ++gc_; if (c == d) break; } return *this; }
  Self &getline(C *p, streamsize n, C d = '\n') {
    gc_ = 0; streamsize k = 0;
    if (prep_(true)) for (;;) {
      int c = this->sb_->peekc();
      if (c < 0) { this->st_ |= ios_base::eofbit; break; }
      if ((C)c == d) { this->sb_->bump(); ++gc_; break; }
      if (k >= n - 1) { this->st_ |= ios_base::failbit; break; }
      p[k++] = (C)c; this->sb_->bump(); ++gc_;
    }
    if (n > 0) p[k] = 0;
    if (!gc_) this->st_ |= ios_base::failbit;
    return *this;
  }
  Self &seekg(long) { return *this; }
  long tellg() { return -1; }
  Self &int_(long &out, unsigned long lim, bool sgn) {
    out = 0;
    if (!prep_(false)) return *this;
    bool neg = false, any = false, over = false; unsigned long v = 0;
    int c = this->sb_->peekc();
    if (c == '-' || c == '+') { neg = c == '-'; this->sb_->bump(); }
    for (;;) {
      c = this->sb_->peekc();
      if (c < 0) { this->st_ |= ios_base::eofbit; break; }
      if (c < '0' || c > '9') break;
      unsigned long d = (unsigned long)(c - '0');
      any = true;
      if (v > (~0ul - d) / 10) over = true; else v = v * 10 + d;
      this->sb_->bump();
    }
    if (!any) { this->st_ |= ios_base::failbit; return *this; }
    unsigned long l = (sgn && neg) ? lim + 1 : lim;
    if (over || v > l) { this->st_ |= ios_base::failbit; out = sgn ? (neg ? -(long)lim - 1 : (long)lim) : (long)lim; return *this; }
    out = neg ? (long)(0ul - v) : (long)v;
    return *this;
  }
  Self &operator>>(long &v) { return int_(v, 0x7ffffffffffffffful, true); }
  Self &operator>>(unsigned long &v) { long x; int_(x, ~0ul, false); v = (unsigned long)x; return *this; }
  Self &operator>>(int &v) { long x; int_(x, 0x7ffffffful, true); v = (int)x; return *this; }
  Self &operator>>(unsigned &v) { long x; int_(x, 0xfffffffful, false); v = (unsigned)x; return *this; }
  Self &operator>>(short &v) { long x; int_(x, 0x7ffful, true); v = (short)x; return *this; }
  Self &operator>>(unsigned short &v) { long x; int_(x, 0xfffful, false); v = (unsigned short)x; return *this; }
  Self &operator>>(long long &v) { long x; int_(x, 0x7ffffffffffffffful, true); v = x; return *this; }
  Self &operator>>(unsigned long long &v) { long x; int_(x, ~0ul, false); v = (unsigned long)x; return *this; }
  Self &operator>>(bool &v) { long x; int_(x, 1, false); v = x != 0; return *this; }
  Self &operator>>(double &v) {
    v = 0;
    if (!prep_(false)) return *this;
    std::string b; bool dot = false, ex = false, dig = false; int c;
    for (;;) {
      c = this->sb_->peekc();
      if (c < 0) { this->st_ |= ios_base::eofbit; break; }
      if (c >= '0' && c <= '9') dig = true;
      else if (c == '.' && !dot && !ex) dot = true;
      else if ((c == 'e' || c == 'E') && dig && !ex) ex = true;
      else if ((c == '+' || c == '-') && (b.empty() || ((b[b.size() - 1] | 32) == 'e' && ex))) ;
      else break;
      b.push_back((char)c); this->sb_->bump();
    }
    char *e = 0; double d = strtod(b.c_str(), &e);
    if (b.empty() || *e) this->st_ |= ios_base::failbit; else v = d;
    return *this;
  }
  Self &operator>>(float &v) { double d; *this >> d; v = (float)d; return *this; }
  Self &operator>>(Self &(*f)(Self &)) { return f(*this); }
  Self &operator>>(ios_base &(*f)(ios_base &)) { f(*this); return *this; }
  streamsize gc_;
};
template <typename T> inline basic_istream<char, T> &operator>>(basic_istream<char, T> &i, char &c) { if (i.prep_(false)) { int x = i.rdbuf()->bump(); if (x < 0) i.setstate(ios_base::eofbit | ios_base::failbit); else c = (char)x; } return i; }
inline basic_istream<char> &operator>>(basic_istream<char> &i, std::string &s) {
  if (!i.prep_(false)) return i;
  s.clear();
  long w = i.width(); i.width(0);
  for (;;) { int c = i.rdbuf()->peekc(); if (c < 0) { i.setstate(ios_base::eofbit); break; } if (basic_istream<char>::ws_(c)) break; s.push_back((char)c); i.rdbuf()->bump(); if (w > 0 && (long)s.size() >= w) break; }
  if (s.empty()) i.setstate(ios_base::failbit);
  return i;
}
inline basic_istream<char> &getline(basic_istream<char> &i, std::string &s, char d) {
  if (!i.prep_(true)) return i;
  s.clear(); bool any = false;
  for (;;) { int c = i.rdbuf()->bump(); if (c < 0) { i.setstate(ios_base::eofbit | (any ? 0u : (unsigned)ios_base::failbit)); break; } any = true; if ((char)c == d) break; s.push_back((char)c); }
  return i;
}
inline basic_istream<char> &getline(basic_istream<char> &i, std::string &s) { return getline(i, s, '\n'); }
template <typename C, typename T> inline basic_istream<C, T> &ws(basic_istream<C, T> &i) { int c; while ((c = i.rdbuf()->peekc()) >= 0 && basic_istream<C, T>::ws_(c)) i.rdbuf()->bump(); return i; }
template <typename C, typename T> class basic_iostream : public basic_istream<C, T> { public: explicit basic_iostream(basic_streambuf<C, T> *b = 0) : basic_istream<C, T>(b) {} };
_GLIBCXX_BEGIN_NAMESPACE_CXX11
template <typename C, typename T, typename A> class basic_stringbuf : public basic_streambuf<C, T> {
public:
  explicit basic_stringbuf(ios_base::openmode = 0) : g_(0), p_(0) {}
  explicit basic_stringbuf(std::string const &s, ios_base::openmode = 0) : s_(s), g_(0), p_(0) {}
  std::string str() const { return s_; }
  void str(std::string const &s) { s_ = s; g_ = 0; p_ = 0; }
  virtual streamsize xsputn(const C *p, streamsize n) {
    if (p_ == s_.size()) s_.append(p, (size_t)n);
    else s_.replace(p_, (size_t)n, p, (size_t)n);
    p_ += (size_t)n;
    return n;
  }
  virtual int bump() { return g_ < s_.size() ? (unsigned char)s_[g_++] : -1; }
  virtual int peekc() { return g_ < s_.size() ? (unsigned char)s_[g_] : -1; }
  virtual streamsize showmanyc() { return (streamsize)(s_.size() - g_); }
  std::string s_; size_t g_, p_;
};
template <typename C, typename T, typename A> class basic_ostringstream : public basic_ostream<C, T> {
public:
  explicit basic_ostringstream(ios_base::openmode = 0) { this->init(&b_); }
  explicit basic_ostringstream(std::string const &s, ios_base::openmode = 0) : b_(s) { this->init(&b_); }
  std::string str() const { return b_.str(); }
  void str(std::string const &s) { b_.str(s); }
  basic_stringbuf<C, T, A> *rdbuf() const { return const_cast<basic_stringbuf<C, T, A> *>(&b_); }
  basic_stringbuf<C, T, A> b_;
};
template <typename C, typename T, typename A> class basic_istringstream : public basic_istream<C, T> {
public:
  explicit basic_istringstream(ios_base::openmode = 0) { this->init(&b_); }
  explicit basic_istringstream(std::string const &s, ios_base::openmode = 0) : b_(s) { this->init(&b_); }
  std::string str() const { return b_.str(); }
  void str(std::string const &s) { b_.str(s); }
  basic_stringbuf<C, T, A> *rdbuf() const { return const_cast<basic_stringbuf<C, T, A> *>(&b_); }
  basic_stringbuf<C, T, A> b_;
};
template <typename C, typename T, typename A> class basic_stringstream : public basic_iostream<C, T> {
public:
  explicit basic_stringstream(ios_base::openmode = 0) { this->init(&b_); }
  explicit basic_stringstream(std::string const &s, ios_base::openmode m = 0) : b_(s) { this->init(&b_); if (m & (ios_base::ate | ios_base::app)) b_.p_ = s.size(); }
  std::string str() const { return b_.str(); }
  void str(std::string const &s) { b_.str(s); }
  basic_stringbuf<C, T, A> *rdbuf() const { return const_cast<basic_stringbuf<C, T, A> *>(&b_); }
  basic_stringbuf<C, T, A> b_;
};
_GLIBCXX_END_NAMESPACE_CXX11
template <typename C, typename T> class basic_filebuf : public basic_streambuf<C, T> {
public:
  basic_filebuf() : f_(0) {}
  ~basic_filebuf() { close(); }
  bool open(const char *n, ios_base::openmode m) {
    int fl = ((m & ios_base::in) ? 1 : 0) | ((m & (ios_base::out | ios_base::app)) ? 2 : 0) | ((m & ios_base::trunc) || ((m & ios_base::out) && !(m & (ios_base::in | ios_base::app))) ? 4 : 0) | ((m & ios_base::app) ? 8 : 0);
    f_ = symrt_fopen(n, fl); return f_ != 0;
  }
  bool is_open() const { return f_ != 0; }
  bool close() { if (!f_) return false; symrt_fclose(f_); f_ = 0; return true; }
  virtual streamsize xsputn(const C *p, streamsize n) { return f_ ? symrt_fwrite(f_, p, n) : 0; }
  virtual int bump() { return f_ ? symrt_fgetc(f_) : -1; }
  virtual int peekc() { return f_ ? symrt_fpeek(f_) : -1; }
  void *f_;
};
template <typename C, typename T> class basic_ifstream : public basic_istream<C, T> {
public:
  basic_ifstream() { this->init(&b_); }
  explicit basic_ifstream(const char *n, ios_base::openmode m = ios_base::in) { this->init(&b_); open(n, m); }
  void open(const char *n, ios_base::openmode m = ios_base::in) { if (!b_.open(n, m | ios_base::in)) this->setstate(ios_base::failbit); }
  bool is_open() const { return b_.is_open(); }
  void close() { b_.close(); }
  basic_filebuf<C, T> b_;
};
template <typename C, typename T> class basic_ofstream : public basic_ostream<C, T> {
public:
  basic_ofstream() { this->init(&b_); }
  explicit basic_ofstream(const char *n, ios_base::openmode m = ios_base::out) { this->init(&b_); open(n, m); }
  void open(const char *n, ios_base::openmode m = ios_base::out) { if (!b_.open(n, m | ios_base::out)) this->setstate(ios_base::failbit); }
  bool is_open() const { return b_.is_open(); }
  void close() { if (!b_.close()) this->setstate(ios_base::failbit); }
  basic_filebuf<C, T> b_;
};
template <typename C, typename T> class basic_fstream : public basic_iostream<C, T> {
public:
  basic_fstream() { this->init(&b_); }
  explicit basic_fstream(const char *n, ios_base::openmode m = ios_base::in | ios_base::out) { this->init(&b_); if (!b_.open(n, m)) this->setstate(ios_base::failbit); }
  bool is_open() const { return b_.is_open(); }
  void close() { b_.close(); }
  basic_filebuf<C, T> b_;
};
class ios_ : public basic_ios<char> {};
inline ios_base &hex(ios_base &b) { b.setf(ios_base::hex, ios_base::basefield); return b; }
inline ios_base &dec(ios_base &b) { b.setf(ios_base::dec, ios_base::basefield); return b; }
inline ios_base &oct(ios_base &b) { b.setf(ios_base::oct, ios_base::basefield); return b; }
inline ios_base &fixed(ios_base &b) { b.setf(ios_base::fixed, ios_base::floatfield); return b; }
inline ios_base &scientific(ios_base &b) { b.setf(ios_base::scientific, ios_base::floatfield); return b; }
inline ios_base &left(ios_base &b) { b.setf(ios_base::left, ios_base::adjustfield); return b; }
inline ios_base &right(ios_base &b) { b.setf(ios_base::right, ios_base::adjustfield); return b; }
inline ios_base &boolalpha(ios_base &b) { b.setf(ios_base::boolalpha); return b; }
inline ios_base &noboolalpha(ios_base &b) { b.unsetf(ios_base::boolalpha); return b; }
inline ios_base &skipws(ios_base &b) { b.setf(ios_base::skipws); return b; }
inline ios_base &noskipws(ios_base &b) { b.unsetf(ios_base::skipws); return b; }
inline ios_base &uppercase(ios_base &b) { b.setf(ios_base::uppercase); return b; }
struct sym_setw { long n; }; inline sym_setw setw(int n) { sym_setw r = {n}; return r; }
struct sym_setp { long n; }; inline sym_setp setprecision(int n) { sym_setp r = {n}; return r; }
struct sym_setf { char c; }; inline sym_setf setfill(char c) { sym_setf r = {c}; return r; }
struct sym_setb { unsigned f; }; inline sym_setb setiosflags(unsigned f) { sym_setb r = {f}; return r; }
template <typename C, typename T> inline basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, sym_setw w) { o.width(w.n); return o; }
template <typename C, typename T> inline basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, sym_setp w) { o.precision(w.n); return o; }
template <typename C, typename T> inline basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, sym_setf w) { o.fill(w.c); return o; }
template <typename C, typename T> inline basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, sym_setb w) { o.setf(w.f); return o; }
extern ostream cout, cerr, clog;
extern istream cin;
}
