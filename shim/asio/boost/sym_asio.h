// Deterministic stand-in for the parts of boost.asio the daemon uses. The harness plays the operating system:
// it completes pending operations, feeds input in chunks, fires timers and picks the order of ready handlers.
#pragma once
#include <boost/system/error_code.hpp>
#include <boost/shared_ptr.hpp>
#include <boost/make_shared.hpp>
#include <boost/noncopyable.hpp>
#include <boost/enable_shared_from_this.hpp>
#include <boost/weak_ptr.hpp>
#include <boost/bind/bind.hpp>
#include <boost/cstdint.hpp>
#include <string>
#include <map>
#include <set>
#include <ctime>
#include <cmath>
#include <math.h>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <iostream>
#include <sstream>
#include <sys/types.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <netdb.h>
#include <vector>
#include <list>
#include <deque>
#include <ostream>
#include <stdexcept>
#include <errno.h>
#include <string.h>
#include <stdlib.h>
#include <boost/date_time/posix_time/posix_time.hpp>
extern "C" long sym_now;
extern "C" int sym_thread_self();
extern "C" void sym_yield();
namespace boost { namespace asio {
typedef boost::system::error_code sym_ec;
class io_service;
namespace error {
enum basic_errors { operation_aborted = ECANCELED, connection_refused = ECONNREFUSED, connection_reset = ECONNRESET, broken_pipe = EPIPE, host_not_found_ = EHOSTUNREACH };
enum misc_errors { eof = 2, not_found = 3 };
struct misc_cat : boost::system::error_category {
  const char *name() const BOOST_NOEXCEPT { return "asio.misc"; }
  std::string message(int) const { return "End of file"; }
};
inline const boost::system::error_category &get_misc_category() { static misc_cat c; return c; }
inline boost::system::error_code make_error_code(basic_errors e) { return boost::system::error_code((int)e, boost::system::system_category()); }
inline boost::system::error_code make_error_code(misc_errors e) { return boost::system::error_code((int)e, get_misc_category()); }
} } 
namespace system {
template<> struct is_error_code_enum<boost::asio::error::basic_errors> { static const bool value = true; };
template<> struct is_error_code_enum<boost::asio::error::misc_errors> { static const bool value = true; };
} 
namespace asio {
// ------------------------------------------------------------------ handlers
struct sym_strand { bool running; sym_strand() : running(false) {} };
struct sym_op { boost::shared_ptr<sym_strand> strand; virtual void run() = 0; virtual ~sym_op() {} };
template<class H> struct sym_op0 : sym_op { H h; sym_op0(H const &h_) : h(h_) {} void run() { h(); } };
template<class H> struct sym_op1 : sym_op { H h; sym_ec e; sym_op1(H const &h_, sym_ec const &e_) : h(h_), e(e_) {} void run() { h(e); } };
template<class H> struct sym_op2 : sym_op { H h; sym_ec e; size_t n; sym_op2(H const &h_, sym_ec const &e_, size_t n_) : h(h_), e(e_), n(n_) {} void run() { h(e, n); } };
struct sym_exec_context; 
class io_service : public boost::noncopyable {
 public:
  std::list<sym_op *> ready;
  struct timer_base { virtual ~timer_base() {} };
  std::vector<void *> timers;
  long idle_ran;
  io_service() : idle_ran(0) {}
  ~io_service() { clear(); }
  void clear() { while (!ready.empty()) { sym_op *o = ready.front(); ready.pop_front(); delete o; } }
  struct executor_type { io_service *s; executor_type(io_service *x = 0) : s(x) {} io_service &context() const { return *s; } };
  executor_type get_executor() { return executor_type(this); }
  struct work { work(io_service &) {} };
  void push(sym_op *o, boost::shared_ptr<sym_strand> const &st) { sym_yield(); o->strand = st; ready.push_back(o); }
  template<class H> void post(H const &h);
  template<class H> void dispatch(H const &h) { post(h); }
  // number of handlers that may run now
  size_t runnable() const { size_t n = 0; for (std::list<sym_op *>::const_iterator p = ready.begin(); p != ready.end(); ++p) if (first_of_strand(p)) ++n; return n; }
  bool first_of_strand(std::list<sym_op *>::const_iterator p) const {
    if (!(*p)->strand) return true;
    if ((*p)->strand->running) return false;
    for (std::list<sym_op *>::const_iterator q = ready.begin(); q != p; ++q) if ((*q)->strand == (*p)->strand) return false;
    return true;
  }
  bool run_nth(size_t k) {
    for (std::list<sym_op *>::iterator p = ready.begin(); p != ready.end(); ++p) if (first_of_strand(p)) {
      if (k--) continue;
      sym_op *o = *p; ready.erase(p);
      boost::shared_ptr<sym_strand> st = o->strand;
      struct end { sym_strand *s; sym_op *o; ~end() { if (s) s->running = false; delete o; } } fin = {st.get(), o};
      if (st) st->running = true;
      o->run();
      return true;
    }
    return false;
  }
  size_t poll_one() { return run_nth(0) ? 1 : 0; }
  size_t poll() { size_t n = 0; while (run_nth(0)) ++n; return n; }
  size_t run() { return poll(); }
  size_t run_one() { return poll_one(); }
  void stop() {} void reset() {} bool stopped() const { return false; }
};
typedef io_service io_context;
// ------------------------------------------------------------------ strands
template<class Ex> class strand {
 public:
  Ex ex; boost::shared_ptr<sym_strand> impl;
  explicit strand(Ex const &e) : ex(e), impl(boost::make_shared<sym_strand>()) {}
  Ex get_inner_executor() const { return ex; }
  bool running_in_this_thread() const { return impl->running; }
};
template<class H> struct sym_bound { H h; boost::shared_ptr<sym_strand> st; sym_bound(H const &h_, boost::shared_ptr<sym_strand> const &s) : h(h_), st(s) {}
  void operator()() { h(); } template<class A> void operator()(A const &a) { h(a); } template<class A, class B> void operator()(A const &a, B const &b) { h(a, b); } };
template<class Ex, class H> sym_bound<H> bind_executor(strand<Ex> const &s, H const &h) { return sym_bound<H>(h, s.impl); }
template<class H> boost::shared_ptr<sym_strand> sym_strand_of(H const &) { return boost::shared_ptr<sym_strand>(); }
template<class H> boost::shared_ptr<sym_strand> sym_strand_of(sym_bound<H> const &b) { return b.st; }
template<class H> inline void io_service::post(H const &h) { push(new sym_op0<H>(h), sym_strand_of(h)); }
template<class H> void post(io_service &s, H const &h) { s.post(h); }
template<class Ex, class H> void post(strand<Ex> const &s, H const &h) { s.ex.context().post(bind_executor(s, h)); }
namespace placeholders { static boost::arg<1> error; static boost::arg<2> bytes_transferred; static boost::arg<2> iterator; }
// type erased completion (error, size)
struct sym_done { io_service *svc; virtual void go(sym_ec const &e, size_t n) = 0; virtual ~sym_done() {} };
template<class H> struct sym_done1 : sym_done { H h; sym_done1(io_service *s, H const &h_) : h(h_) { svc = s; } void go(sym_ec const &e, size_t) { svc->push(new sym_op1<H>(h, e), sym_strand_of(h)); } };
template<class H> struct sym_done2 : sym_done { H h; sym_done2(io_service *s, H const &h_) : h(h_) { svc = s; } void go(sym_ec const &e, size_t n) { svc->push(new sym_op2<H>(h, e, n), sym_strand_of(h)); } };
inline void sym_finish(sym_done *&d, sym_ec const &e, size_t n) { sym_done *x = d; d = 0; if (x) { x->go(e, n); delete x; } }
// ------------------------------------------------------------------ timers
class deadline_timer : public boost::noncopyable {
 public:
  io_service &svc; long due_us; std::vector<sym_done *> waits;
  explicit deadline_timer(io_service &s) : svc(s), due_us(0) { svc.timers.push_back(this); }
  template<class D> deadline_timer(io_service &s, D const &d) : svc(s), due_us(0) { svc.timers.push_back(this); expires_from_now(d); }
  ~deadline_timer() { cancel(); for (size_t i = 0; i < svc.timers.size(); ++i) if (svc.timers[i] == this) { svc.timers.erase(svc.timers.begin() + i); break; } }
  size_t flush(sym_ec const &e) { std::vector<sym_done *> w; w.swap(waits); for (size_t i = 0; i < w.size(); ++i) sym_finish(w[i], e, 0); return w.size(); }
  size_t cancel() { return flush(error::make_error_code(error::operation_aborted)); }
  size_t expires_from_now(boost::posix_time::time_duration const &d) { size_t n = cancel(); due_us = sym_now * 1000000L + d.us; return n; }
  size_t expires_at(boost::posix_time::ptime const &t) { size_t n = cancel(); due_us = t.us; return n; }
  template<class H> void async_wait(H const &h) { waits.push_back(new sym_done1<H>(&svc, h)); }
  bool sym_pending() const { return !waits.empty(); }
  void sym_fire() { flush(sym_ec()); }
};
// fires every timer that is due at sym_now; returns how many
inline size_t sym_fire_due(io_service &s) { size_t n = 0; std::vector<void *> t(s.timers); for (size_t i = 0; i < t.size(); ++i) { deadline_timer *d = (deadline_timer *)t[i]; if (d->sym_pending() && d->due_us <= sym_now * 1000000L) { d->sym_fire(); ++n; } } return n; }
inline long sym_next_due(io_service &s) { long b = -1; for (size_t i = 0; i < s.timers.size(); ++i) { deadline_timer *d = (deadline_timer *)s.timers[i]; if (d->sym_pending() && (b < 0 || d->due_us < b)) b = d->due_us; } return b; }
// ------------------------------------------------------------------ buffers
struct mutable_buffer { char *p; size_t n; mutable_buffer(void *p_ = 0, size_t n_ = 0) : p((char *)p_), n(n_) {} };
struct const_buffer { char const *p; size_t n; const_buffer(void const *p_ = 0, size_t n_ = 0) : p((char const *)p_), n(n_) {} const_buffer(mutable_buffer const &b) : p(b.p), n(b.n) {} };
typedef mutable_buffer mutable_buffers_1; typedef const_buffer const_buffers_1;
inline mutable_buffer buffer(void *p, size_t n) { return mutable_buffer(p, n); }
inline const_buffer buffer(void const *p, size_t n) { return const_buffer(p, n); }
template<class T, size_t N> inline mutable_buffer buffer(T (&a)[N], size_t n) { return mutable_buffer(a, n); }
template<class T> inline mutable_buffer buffer(std::vector<T> &v) { return mutable_buffer(v.empty() ? 0 : &v[0], v.size() * sizeof(T)); }
inline const_buffer buffer(std::string const &s) { return const_buffer(s.data(), s.size()); }
struct streambuf : boost::noncopyable { std::string d; size_t size() const { return d.size(); } void consume(size_t n) { d.erase(0, n); } };
inline std::ostream &operator<<(std::ostream &o, streambuf *b) { o.write(b->d.data(), b->d.size()); b->d.clear(); return o; }
struct sym_at_least { size_t n; };
inline sym_at_least transfer_at_least(size_t n) { sym_at_least r = {n}; return r; }
inline sym_at_least transfer_exactly(size_t n) { sym_at_least r = {n}; return r; }
inline sym_at_least transfer_all() { sym_at_least r = {(size_t)-1}; return r; }
struct socket_base {
  static const int max_connections = 4096;
  struct reuse_address { bool v; reuse_address(bool b = false) : v(b) {} };
  struct keep_alive { keep_alive(bool = false) {} }; struct linger { linger(bool = false, int = 0) {} }; struct receive_buffer_size { int v; receive_buffer_size(int n = 0) : v(n) {} int value() const { return v; } }; struct send_buffer_size { send_buffer_size(int = 0) {} };
  enum shutdown_type { shutdown_receive, shutdown_send, shutdown_both };
};
namespace ip {
class address { public: std::string s; bool v6; address() : s("0.0.0.0"), v6(false) {} static address from_string(char const *c) { address a; a.s = c; a.v6 = strchr(c, ':') != 0; return a; } static address from_string(std::string const &c) { return from_string(c.c_str()); } bool is_v6() const { return v6; } std::string to_string() const { return s; } bool operator==(address const &o) const { return s == o.s; } bool operator<(address const &o) const { return s < o.s; } };
typedef address address_v4;
inline std::string host_name() { return "testhost"; }
template<class P> struct basic_endpoint { address a; unsigned short p; basic_endpoint() : p(0) {} basic_endpoint(address const &x, unsigned short y) : a(x), p(y) {} basic_endpoint(P const &, unsigned short y) : p(y) {}
  address const &address_() const { return a; } unsigned short port() const { return p; } ip::address address() const { return a; } bool operator==(basic_endpoint const &o) const { return a == o.a && p == o.p; } bool operator<(basic_endpoint const &o) const { return a < o.a || (a == o.a && p < o.p); } };
template<class P> std::ostream &operator<<(std::ostream &o, basic_endpoint<P> const &e) { return o << e.a.s << ":" << e.p; }
}
// ------------------------------------------------------------------ stream sockets
class sym_socket : public boost::noncopyable, public socket_base {
 public:
  io_service &svc; bool open_, connected_, peer_closed; std::string in, out; int overlapped_writes, overlapped_reads; size_t writes; int id; 
  sym_done *rd, *wr, *cn; char *rp; size_t rn, rmin; streambuf *rsb; std::string delim; char const *wp; size_t wn;
  std::deque<std::pair<const_buffer, sym_done *> > wq; // writes issued while one is in flight
  ip::basic_endpoint<int> *dummy;
  std::string peer;
  explicit sym_socket(io_service &s) : svc(s), open_(false), connected_(false), peer_closed(false), overlapped_writes(0), overlapped_reads(0), writes(0), id(0), rd(0), wr(0), cn(0), rp(0), rn(0), rmin(0), rsb(0), wp(0), wn(0), dummy(0) { all().push_back(this); }
  static std::string &sym_last_out() { static std::string s; return s; } static int &sym_closed() { static int n; return n; }
  ~sym_socket() { if (!peer.empty()) { sym_last_out() = out; ++sym_closed(); } close(); std::vector<sym_socket *> &a = all(); for (size_t i = 0; i < a.size(); ++i) if (a[i] == this) { a.erase(a.begin() + i); break; } }
  static std::vector<sym_socket *> &all() { static std::vector<sym_socket *> v; return v; }
  bool is_open() const { return open_; }
  std::string lost; // bytes of writes cut off by a failure or by closing
  void close() { open_ = false; connected_ = false; if (wr) lost.append(wp, wn); sym_ec e = error::make_error_code(error::operation_aborted); sym_finish(cn, e, 0); sym_finish(rd, e, 0); sym_finish(wr, e, 0); while (!wq.empty()) { sym_finish(wq.front().second, e, 0); wq.pop_front(); } }
  void close(sym_ec &e) { e = sym_ec(); close(); }
  void cancel() { bool o = open_, c = connected_; close(); open_ = o; connected_ = c; }
  void shutdown(shutdown_type) {} void shutdown(shutdown_type, sym_ec &) {}
  template<class O> void set_option(O const &) {} template<class O> void set_option(O const &, sym_ec &) {}
  template<class P> void open(P const &) { open_ = true; }
  int native_handle() { return -1; }
  // --- harness side
  void sym_accepted(std::string const &who) { open_ = true; connected_ = true; peer = who; in.clear(); out.clear(); peer_closed = false; }
  void sym_connect(sym_ec const &e) { if (!cn) return; if (!e) { connected_ = true; in.clear(); peer_closed = false; } sym_finish(cn, e, 0); }
  void pump() {
    if (!rd || !open_) return;
    if (rsb) {
      rsb->d += in; in.clear(); size_t p = rsb->d.find(delim);
      if (p != std::string::npos) { rsb = 0; sym_finish(rd, sym_ec(), p + delim.size()); }
      else if (peer_closed) { rsb = 0; sym_finish(rd, error::make_error_code(error::eof), 0); }
      return;
    }
    size_t n = in.size() < rn ? in.size() : rn;
    if (n) { memcpy(rp, in.data(), n); in.erase(0, n); rp += n; rn -= n; rgot += n; }
    if (rgot >= rmin || rn == 0) { sym_finish(rd, sym_ec(), rgot); }
    else if (peer_closed) sym_finish(rd, error::make_error_code(error::eof), rgot);
  }
  size_t rgot;
  void sym_feed(char const *p, size_t n) { in.append(p, n); pump(); }
  void sym_eof() { peer_closed = true; pump(); }
  void sym_read_error(sym_ec const &e) { if (rd) { peer_closed = true; size_t n = rsb ? 0 : rgot; rsb = 0; sym_finish(rd, e, n); } }
  bool sym_writing() const { return wr != 0; }
  size_t sym_write_size() const { return wn; }
  // lets the pending write finish; n < size with an error makes a partial write
  void sym_wrote(sym_ec const &e, size_t n) { if (!wr) return; if (n > wn) n = wn; if (n < wn) lost.append(wp, wn); out.append(wp, n); ++writes; sym_finish(wr, e, n); if (!wq.empty()) { wp = wq.front().first.p; wn = wq.front().first.n; wr = wq.front().second; wq.pop_front(); } }
  void sym_drain() { while (wr) sym_wrote(sym_ec(), wn); }
  void start_read(sym_done *d, char *p, size_t n, size_t mn) { if (rd) ++overlapped_reads; if (!open_) { sym_finish(d, sym_ec(EBADF, boost::system::system_category()), 0); return; } rd = d; rp = p; rn = n; rmin = mn < n ? mn : n; rsb = 0; rgot = 0; if (connected_) pump(); }
  void start_until(sym_done *d, streambuf *b, std::string const &dl) { if (rd) ++overlapped_reads; if (!open_) { sym_finish(d, sym_ec(EBADF, boost::system::system_category()), 0); return; } rd = d; rsb = b; delim = dl; pump(); }
  void start_write(sym_done *d, const_buffer const &b) { if (!open_) { sym_finish(d, sym_ec(EBADF, boost::system::system_category()), 0); return; } if (!connected_) { sym_finish(d, sym_ec(EPIPE, boost::system::system_category()), 0); return; } if (wr) { ++overlapped_writes; wq.push_back(std::make_pair(b, d)); return; } wr = d; wp = b.p; wn = b.n; }
  template<class E, class H> void async_connect(E const &, H const &h) { open_ = true; cn = new sym_done1<H>(&svc, h); }
};
template<class H> void async_read(sym_socket &s, mutable_buffer const &b, sym_at_least const &c, H const &h) { s.start_read(new sym_done2<H>(&s.svc, h), b.p, b.n, c.n); }
template<class H> void async_read(sym_socket &s, mutable_buffer const &b, H const &h) { s.start_read(new sym_done2<H>(&s.svc, h), b.p, b.n, b.n); }
template<class H> void async_read_until(sym_socket &s, streambuf &b, std::string const &d, H const &h) { s.start_until(new sym_done2<H>(&s.svc, h), &b, d); }
template<class H> void async_write(sym_socket &s, const_buffer const &b, H const &h) { s.start_write(new sym_done2<H>(&s.svc, h), b); }
template<class H> void async_write(sym_socket &s, const_buffer const &b, sym_at_least const &, H const &h) { s.start_write(new sym_done2<H>(&s.svc, h), b); }
// ------------------------------------------------------------------ datagrams
class sym_dgram : public boost::noncopyable, public socket_base {
 public:
  io_service &svc; bool open_; sym_done *rd; mutable_buffer b; void *ep; void (*setep)(void *, std::string const &);
  explicit sym_dgram(io_service &s) : svc(s), open_(false), rd(0), ep(0), setep(0) { last() = this; }
  ~sym_dgram() { close(); if (last() == this) last() = 0; }
  static sym_dgram *&last() { static sym_dgram *p; return p; }
  void close() { open_ = false; sym_finish(rd, error::make_error_code(error::operation_aborted), 0); }
  bool is_open() const { return open_; }
  template<class P> void open(P const &) { open_ = true; } template<class E> void bind(E const &) {} template<class O> void set_option(O const &) {} template<class O> void get_option(O &) {}
  int native_handle() { return -1; }
  template<class E> static void set(void *e, std::string const &w) { ((E *)e)->a = ip::address::from_string(w); ((E *)e)->p = 1000; }
  template<class E, class H> void async_receive_from(mutable_buffer const &bb, E &e, H const &h) { b = bb; ep = &e; setep = &sym_dgram::set<E>; rd = new sym_done2<H>(&svc, h); }
  // a datagram of n bytes arrives (cut to the buffer, as the kernel does)
  void sym_arrive(char const *p, size_t n, std::string const &from) { if (!rd) return; if (n > b.n) n = b.n; if (n) memcpy(b.p, p, n); setep(ep, from); sym_finish(rd, sym_ec(), n); }
  void sym_error(sym_ec const &e) { sym_finish(rd, e, 0); }
};
namespace ip {
class tcp { public:
  static tcp v4() { return tcp(); } static tcp v6() { return tcp(); }
  typedef basic_endpoint<tcp> endpoint; typedef sym_socket socket;
  class resolver { public: io_service &svc; explicit resolver(io_service &s) : svc(s) {}
    struct query { std::string h, p; query(std::string const &a, std::string const &b) : h(a), p(b) {} };
    struct iterator { int left; endpoint e; iterator() : left(0) {} endpoint const &operator*() const { return e; } iterator &operator++() { --left; return *this; } bool operator!=(iterator const &o) const { return left != o.left; } bool operator==(iterator const &o) const { return left == o.left; } };
    static int &sym_fail() { static int f; return f; } static int &sym_count() { static int f; return f; }
    iterator resolve(query const &q, sym_ec &e) { ++sym_count(); iterator it; if (sym_fail() > 0) { --sym_fail(); e = sym_ec(EHOSTUNREACH, boost::system::system_category()); return it; } e = sym_ec(); it.left = 1; it.e.a.s = "10.0.0.1"; it.e.p = (unsigned short)atoi(q.p.c_str()); return it; } };
  class acceptor : public boost::noncopyable, public socket_base { public: io_service &svc; bool open_; sym_socket *peer; sym_done *ac; endpoint *pep; int overlapped;
    explicit acceptor(io_service &s) : svc(s), open_(false), peer(0), ac(0), pep(0), overlapped(0) {} ~acceptor() { close(); }
    void open(tcp const &) { open_ = true; } template<class O> void set_option(O const &) {} void bind(endpoint const &) {} void listen(int = 0) {} bool is_open() const { return open_; } void close() { open_ = false; sym_finish(ac, error::make_error_code(error::operation_aborted), 0); } endpoint local_endpoint() const { return endpoint(); } int native_handle() { return -1; }
    template<class H> void async_accept(sym_socket &s, H const &h) { if (ac) ++overlapped; peer = &s; pep = 0; ac = new sym_done1<H>(&svc, h); last() = this; }
    template<class H> void async_accept(sym_socket &s, endpoint &e, H const &h) { if (ac) ++overlapped; peer = &s; pep = &e; ac = new sym_done1<H>(&svc, h); last() = this; }
    static acceptor *&last() { static acceptor *p; return p; }
    sym_socket *sym_accept(std::string const &who) { if (!ac) return 0; sym_socket *s = peer; s->sym_accepted(who); if (pep) { pep->a = address::from_string(who); pep->p = 1000; } sym_finish(ac, sym_ec(), 0); return s; }
    void sym_error(sym_ec const &e) { sym_finish(ac, e, 0); } };
};
class udp { public: static udp v4() { return udp(); } typedef basic_endpoint<udp> endpoint; typedef sym_dgram socket; };
}
} }
