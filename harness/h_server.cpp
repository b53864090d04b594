// The statistics server: record lines, TCP streams, UDP packets, forwarding to agents
#include "sym.h"
#include <boost/asio.hpp>
#include "daemon/StatServer.h"
#include "daemon/IComplete.h"
#include <istat/istattime.h>
#include <istat/strfunc.h>
#include <vector>
#include <map>
#include <stdexcept>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
using namespace istat;
using boost::asio::io_service;
using boost::asio::sym_socket;
using boost::asio::sym_dgram;
typedef std::string S;
extern "C" long sym_now;
extern size_t maxBufferSize;
struct Rec { int kind; S ctr; long t; double v, sq, mi, ma; size_t n;
  bool operator==(Rec const &o) const { return kind == o.kind && sym_streq(ctr, o.ctr) && sym_and(t == o.t, sym_and(v == o.v, sym_and(sq == o.sq, sym_and(mi == o.mi, sym_and(ma == o.ma, n == o.n))))); } };
struct Store : NullStatStore {
  std::vector<Rec> *log; S loc;
  Store(std::vector<Rec> *l) : log(l), loc("here") {} ~Store() {}
  void add(int k, S const &c, long t, double v, double sq, double mi, double ma, size_t n) { Rec r; r.kind = k; r.ctr = c; r.t = t; r.v = v; r.sq = sq; r.mi = mi; r.ma = ma; r.n = n; log->push_back(r); }
  void record(S const &c, double v) { add(2, c, 0, v, 0, 0, 0, 1); }
  void record(S const &c, time_t t, double v) { add(3, c, t, v, 0, 0, 0, 1); }
  void record(S const &c, time_t t, double v, double sq, double mi, double ma, size_t n) { add(7, c, t, v, sq, mi, ma, n); }
  S const &getLocation() const { return loc; }
};
struct Server {
  std::vector<Rec> log; Blacklist::Configuration bl; io_service svc; boost::shared_ptr<IStatStore> st; boost::shared_ptr<IPromExporter> pe; StatServer *s;
  Server(bool store, const char *agents, size_t n, long iv = 10, int port = 8111) { bl.period = 0; if (store) st.reset(new Store(&log)); pe.reset(new NullPromExporter()); s = new StatServer(port, "", agents, n, iv, bl, svc, st, pe, 64, 10); }
  ~Server() { delete s; svc.clear(); }
};
struct FakeConn : ConnectionInfo {
  S name; FakeConn() : name("peer") {}
  S const &endpointName() { return name; } EagerConnection *asEagerConnection() { return 0; } UdpConnectionInfo *asUdpConnection() { return 0; }
  void open() {} void open(S const &, S const &) {} void close() {} bool opened() { return true; } bool connected() { return true; }
  size_t pendingOut() { return 0; } size_t pendingIn() { return 0; } size_t readIn(void *, size_t) { return 0; } size_t peekIn(void *, size_t) { return 0; } void consume(size_t) {}
  size_t writeOut(void const *, size_t) { return 0; } size_t writeOut(S const &) { return 0; }
};
static Rec mk(int k, S const &c, long t, double v, double sq, double mi, double ma, size_t n) { Rec r; r.kind = k; r.ctr = c; r.t = t; r.v = v; r.sq = sq; r.mi = mi; r.ma = ma; r.n = n; return r; }
static void same(std::vector<Rec> const &got, std::vector<Rec> const &want, const char *what) {
  for (size_t i = 0; i < want.size(); ++i) sym_show_str("want", want[i].ctr.data(), want[i].ctr.size());
  for (size_t i = 0; i < got.size(); ++i) sym_show_str("got", got[i].ctr.data(), got[i].ctr.size());
  sym_check(got.size() == want.size(), what);
  for (size_t i = 0; i < want.size() && i < got.size(); ++i) sym_check(got[i] == want[i], "a record reached the store with another name, time, value or count");
}
// ---------------------------------------------------------------- one line
struct Num { const char *s; bool ok; double v; };
static const Num NUM[] = {{"7", true, 7}, {"-3", true, -3}, {"2.5", true, 2.5}, {"1e3", true, 1000}, {"0", true, 0}, {"nan", true, 0}, {"NaN", true, 0}, {"-nan", true, 0}, {"-NaN", true, 0}, {"x", false, 0}, {"1x", false, 0}, {"1.2.3", false, 0}, {"--1", false, 0}};
static const Num TIM[] = {{"1700000000", true, 1700000000}, {"0", true, 0}, {"5", true, 5}, {"x", false, 0}, {"1.5", false, 0}, {"9z", false, 0}, {"99999999999999999999", false, 0}};
static const Num CNT[] = {{"1", true, 1}, {"12", true, 12}, {"x", false, 0}, {"1.5", false, 0}, {"99999999999999999999", false, 0}};
static const char *SEP[] = {" ", "\t", "  ", " \t "};
static void names(S const &n, std::vector<S> &out) { if (n == "a^x^y") { out.push_back("a.x"); out.push_back("a.y"); } else if (n == "a^x^") { out.push_back("a.x"); out.push_back("a"); } else if (n == "*a.b^c") { out.push_back("*a.b.c"); } else out.push_back(n); }
static void line() {
  static const char *NM[] = {"a.b", "*a.b", "a^x^y", "a^x^", "*a.b^c"};
  static const char *RES = "@$%&;:";
  int nf = sym_param("nf", 3), hard = sym_param("pos", 1);   // which field takes every text; the others take the first two
  Server sv(true, "", 0, 10, 0);
  boost::shared_ptr<ConnectionInfo> ec(new FakeConn());
  S nm = NM[sym_choose(hard == 0 ? 5 : 2, "name")]; int pre = hard == 0 ? sym_choose(4, "prefix") : 0;
  S txt = pre == 1 ? " " : pre == 2 ? "\t " : "";
  if (pre == 3) txt += RES[sym_choose(6, "reserved")];
  txt += nm;
  bool ok = pre != 3; double v[9]; int allsep = hard == 0 && nf > 3 ? sym_choose(4, "sep") : -1;
  for (int i = 1; i < nf; ++i) {
    const Num *t = i == 1 && nf != 2 ? TIM : i == 6 && nf >= 7 ? CNT : NUM; int cnt = t == TIM ? 7 : t == CNT ? 5 : (int)(sizeof NUM / sizeof *NUM);
    const Num *p = &t[hard == i ? sym_choose(cnt, "text") : (i % 2)];
    if (!p->ok && i < 7) ok = false;     // fields beyond the seventh are ignored
    v[i] = p->v; txt += SEP[allsep >= 0 ? allsep : hard == 0 || hard == i ? sym_choose(4, "sep") : 0]; txt += p->s;
  }
  int tail = sym_choose(3, "tail"); txt += tail == 1 ? "\r" : tail == 2 ? " \t\r" : "";
  sym_show_str("line", txt.data(), txt.size());
  std::vector<S> ns; names(nm, ns); std::vector<Rec> want;
  if (ok && (nf == 2 || nf == 3 || nf >= 7)) for (size_t i = 0; i < ns.size(); ++i) {
    if (nf == 2) want.push_back(mk(2, ns[i], 0, v[1], 0, 0, 0, 1));
    if (nf == 3) want.push_back(mk(3, ns[i], (long)v[1], v[2], 0, 0, 0, 1));
    if (nf >= 7) want.push_back(mk(7, ns[i], (long)v[1], v[2], v[3], v[4], v[5], (size_t)v[6]));
  }
  StatServer::HandleStatus hs = sv.s->handleCmd(txt, ec);
  sym_check(hs == StatServer::HandleSuccess, "status of a handled line");
  same(sv.log, want, want.empty() ? "a malformed line recorded something" : "a line recorded the wrong number of samples");
  // the server keeps working
  sv.log.clear(); sv.s->handleCmd("z 4", ec);
  std::vector<Rec> z; z.push_back(mk(2, "z", 0, 4, 0, 0, 0, 1)); same(sv.log, z, "the line after it is lost");
  sym_reach(want.empty() ? "none" : "some"); sym_expect(nf == 2 || nf == 3 || nf >= 7 ? "some" : "none");
}
// arbitrary bytes from a small alphabet
static void bytes() {
  unsigned long n = sym_param("n", 4);
  static const char AL[] = " \ta1-.^\r";
  Server sv(true, "", 0, 10, 0);
  boost::shared_ptr<ConnectionInfo> ec(new FakeConn());
  S txt = sym_string(n, "line");
  for (size_t i = 0; i < n; ++i) { bool in = false; for (size_t j = 0; j + 1 < sizeof(AL); ++j) in = sym_or(in, txt[i] == AL[j]); sym_assume(in); }
  sym_budget(5000000);
  StatServer::HandleStatus hs = sv.s->handleCmd(txt, ec);
  // reference: tokens
  std::vector<S> tok; S cur;
  for (size_t i = 0; i <= n; ++i) { if (i == n || txt[i] == ' ' || txt[i] == '\t' || txt[i] == '\r') { if (cur.size()) tok.push_back(cur); cur = ""; } else cur += txt[i]; }
  sym_check((hs == StatServer::HandleUnhandled) == (n == 0), "status");
  std::vector<Rec> want;
  if (tok.size() == 2 || tok.size() == 3) {
    // numbers over 1 - . ; anything else is malformed
    double val[2]; bool ok = true;
    for (size_t k = 1; k < tok.size(); ++k) {
      S const &t = tok[k]; bool integral = k == 1 && tok.size() == 3; size_t p = 0; bool neg = false; double m = 0, sc = 1; int nd = 0; bool dot = false;
      if (t[0] == '-') { neg = true; p = 1; }
      for (; p < t.size(); ++p) { if (t[p] == '1') { ++nd; if (dot) { sc *= 10; m = m * 10 + 1; } else m = m * 10 + 1; } else if (t[p] == '.' && !dot && !integral) dot = true; else { ok = false; break; } }
      if (!nd) ok = false;
      val[k - 1] = (neg ? -m : m) / sc;
    }
    if (ok) {
      std::vector<S> ns; S pb; extract_ctrs(tok[0], ns, pb);
      for (size_t i = 0; i < ns.size(); ++i) want.push_back(tok.size() == 2 ? mk(2, ns[i], 0, val[0], 0, 0, 0, 1) : mk(3, ns[i], (long)val[0], val[1], 0, 0, 0, 1));
    }
  }
  same(sv.log, want, want.empty() ? "a malformed line recorded something" : "a line recorded the wrong number of samples");
  sym_reach(want.empty() ? "none" : "some"); if (n) sym_expect("none"); if (n > 2) sym_expect("some");
}
// ---------------------------------------------------------------- streams and packets
static const char *LINES[] = {"a 1\n", "\n", "\r\n", "*b^c^d 5 2\r\n", "x\n", "a 5 2 4 2 2 1\n", " \n", "#k v\n", "bb 3\n", "c x\n", "\nd 1\n", "q\n"};
enum { NL = sizeof(LINES) / sizeof(*LINES) };
// what a text means, line by line, whatever way it arrives
static void meaning(S const &text, std::vector<Rec> &out) {
  Server sv(true, "", 0, 10, 0); boost::shared_ptr<ConnectionInfo> ec(new FakeConn());
  size_t b = 0;
  for (size_t i = 0; i < text.size(); ++i) if (text[i] == '\n') { sv.s->handleCmd(text.substr(b, i - b), ec); b = i + 1; }
  out = sv.log;
}
static sym_socket *conn(const char *who) {
  boost::asio::ip::tcp::acceptor *a = boost::asio::ip::tcp::acceptor::last();
  return a ? a->sym_accept(who) : 0;
}
static void tcp() {
  long k = sym_param("k", 2), cuts = sym_param("cuts", 2), two = sym_param("two", 0);
  S text;
  for (long i = 0; i < k; ++i) text += LINES[!i && sym_param("l0", -1) >= 0 ? sym_param("l0", 0) : (long)sym_choose(NL, "line")];
  long part = sym_choose(2, "unfinished"); if (part) text += "zz 9";
  sym_show_str("text", text.data(), text.size());
  std::vector<Rec> want; meaning(text, want);
  Server sv(true, "", 0, 10);
  sym_socket *c = conn("1.2.3.4"); sv.svc.poll();
  sym_socket *d = two ? conn("1.2.3.5") : 0; sv.svc.poll();
  sym_check(c != 0 && (!two || d != 0), "a connection is not accepted");
  if (d) { d->sym_feed("w 1", 3); sv.svc.poll(); }
  size_t pos = 0;
  for (long i = 0; i <= cuts && pos < text.size(); ++i) {
    size_t n = i == cuts ? text.size() - pos : 1 + sym_choose(text.size() - pos, "chunk");
    c->sym_feed(text.data() + pos, n); pos += n;
    if (i == cuts || sym_choose(2, "handled")) sv.svc.poll();
    if (pos < text.size()) sym_reach("cut");
  }
  sv.svc.poll();
  same(sv.log, want, "what a TCP connection sent is recorded differently depending on how it was cut into segments");
  sym_check(c->overlapped_reads == 0, "two reads outstanding on one connection");
  if (d) { sv.log.clear(); d->sym_feed("0\n", 2); sv.svc.poll(); std::vector<Rec> w; w.push_back(mk(2, "w", 0, 10, 0, 0, 0, 1)); same(sv.log, w, "two connections are mixed up"); }
  // the unfinished line counts once it is finished, and not if the connection is lost
  sv.log.clear(); want.clear();
  if (part) {
    if (sym_choose(2, "lost")) { c->sym_eof(); sv.svc.poll(); sym_reach("lost"); }
    else { c->sym_feed("\n", 1); sv.svc.poll(); want.push_back(mk(2, "zz", 0, 9, 0, 0, 0, 1)); sym_reach("finished"); }
    same(sv.log, want, "an unfinished line");
  }
  sym_expect("cut"); sym_expect("lost"); sym_expect("finished");
}
static void udp() {
  long k = sym_param("k", 2);
  Server sv(true, "", 0, 10);
  S text; long m = 1 + sym_choose(k, "lines");
  for (long i = 0; i < m; ++i) text += LINES[sym_choose(NL, "line")];
  int bad = sym_choose(4, "packet");          // whole; last newline missing; nothing; receive error
  sym_show_str("text", text.data(), text.size());
  std::vector<Rec> want;
  sym_dgram *u = sym_dgram::last();
  sym_check(u && u->rd, "no UDP receive outstanding");
  if (bad == 0) { u->sym_arrive(text.data(), text.size(), "1.2.3.4"); if (text.size() >= 5) { meaning(text, want); sym_reach("packet"); } else sym_reach("tiny"); }
  else if (bad == 1) u->sym_arrive(text.data(), text.size() - 1, "1.2.3.4");
  else if (bad == 2) u->sym_arrive("", 0, "1.2.3.4");
  else u->sym_error(boost::system::error_code(5, boost::system::system_category()));
  if (bad == 1) { size_t l = text.size() - 1; if (l >= 5 && text[l - 1] == '\n') meaning(text.substr(0, l), want); }   // still ends with a newline
  sv.svc.poll();
  if (text.size() >= 5 || bad) same(sv.log, want, "a UDP packet is recorded differently from the same lines on TCP, or a broken one is used");
  // later packets are still received, at most two seconds later
  sv.log.clear(); want.clear();
  if (!u->rd) { long due = boost::asio::sym_next_due(sv.svc); (void)due; sym_now += 3; boost::asio::sym_fire_due(sv.svc); sv.svc.poll(); sym_reach("backoff"); }
  sym_check(u->rd != 0, "UDP receiving stops");
  u->sym_arrive("later 5\n", 8, "1.2.3.6"); sv.svc.poll();
  want.push_back(mk(2, "later", 0, 5, 0, 0, 0, 1)); same(sv.log, want, "a later packet is lost");
  sym_check(u->rd != 0, "UDP receiving stops");
  sym_expect("packet"); sym_expect("backoff");
}
// ---------------------------------------------------------------- forwarding
struct Tot { double sum, sq, mi, ma; long n; Tot() : sum(0), sq(0), mi(1e300), ma(-1e300), n(0) {} };
typedef std::map<std::pair<S, long>, Tot> Totals;
static void addTo(Totals &t, S const &c, long tm, double v, double sq, double mi, double ma, long n) { Tot &x = t[std::make_pair(c, tm / 10 * 10)]; x.sum += v; x.sq += sq; if (mi < x.mi) x.mi = mi; if (ma > x.ma) x.ma = ma; x.n += n; }
struct Agents {
  std::vector<sym_socket *> s; std::vector<S> text;
  Agents(std::vector<sym_socket *> const &a) : s(a), text(a.size()) {}
  void connect(size_t i) { s[i]->sym_connect(boost::system::error_code()); }
  void drain(io_service &svc) { for (int k = 0; k < 6; ++k) { svc.poll(); for (size_t i = 0; i < s.size(); ++i) if (s[i]->connected_) { s[i]->sym_drain(); text[i] += s[i]->out; s[i]->out.clear(); } } svc.poll(); }
};
struct Done : IComplete { int n; Done() : n(0) {} void on_complete() { ++n; } ~Done() {} };
// what the agents got, put together again by another server
static void collect(Agents &ag, Totals &got, bool dup) {
  for (size_t i = 0; i < ag.text.size(); ++i) {
    S d; size_t b = 0; S const &t = ag.text[i];
    for (size_t j = 0; j < t.size(); ++j) if (t[j] == '\n') { S l = t.substr(b, j + 1 - b); b = j + 1; if (l[0] != '#') d += l; else sym_check(dup || d.empty() || l.compare(0, 6, "#proto") != 0, "preamble after data"); }
    sym_check(b == t.size(), "an agent received an unfinished line");
    sym_check(t.empty() || t.compare(0, 7, "#proto ") == 0, "an agent's stream does not start with the protocol version");
    std::vector<Rec> r; meaning(d, r);
    long lines = 0; for (size_t j = 0; j < d.size(); ++j) lines += d[j] == '\n';
    sym_check(lines == (long)r.size(), "a forwarded line is not understood by the receiving server");
    for (size_t j = 0; j < r.size(); ++j) {
      Rec const &x = r[j]; bool ev = x.ctr[0] == '*';
      sym_check(x.kind == (ev ? 3 : 7), "form of a forwarded line");
      if (!dup) sym_check(!got.count(std::make_pair(x.ctr, x.t / 10 * 10)), "an interval is forwarded twice");
      if (ev) addTo(got, x.ctr, x.t, x.v, 0, 0, 0, 1); else addTo(got, x.ctr, x.t, x.v, x.sq, x.mi, x.ma, (long)x.n);
    }
  }
}
static void compare(Totals &want, Totals &got) {
  for (Totals::iterator p = got.begin(); p != got.end(); ++p) sym_check(want.count(p->first), "something was forwarded that was not received");
  for (Totals::iterator p = want.begin(); p != want.end(); ++p) {
    sym_show_str("counter", p->first.first.data(), p->first.first.size()); sym_show("time", p->first.second);
    sym_check(got.count(p->first), "a received interval was not forwarded");
    Tot &g = got[p->first], &w = p->second;
    sym_check(g.sum == w.sum, "forwarded sum differs from what was received");
    if (p->first.first[0] != '*') { double ds = g.sq - w.sq; if (ds < 0) ds = -ds; sym_check(ds <= w.sq * 1e-6, "forwarded sum of squares differs"); sym_check(g.n == w.n, "forwarded count differs"); /* squares are kept in single precision */  sym_check((float)g.mi == (float)w.mi && (float)g.ma == (float)w.ma, "forwarded extremes differ"); }
  }
}
static void forward() {
  static const char *CTR[] = {"g", "*e"}, *VT[] = {"1", "-2.5", "1234567.25", "0"}; static const double VV[] = {1, -2.5, 1234567.25, 0};
  static const long OFF[] = {0, -31, -30, -21, 9, 19, 20, 42949672960L, -9000}; static const long SEC[] = {0, 3, 9};
  int k = sym_param("k", 2), na = sym_param("agents", 1); 
  sym_now = 1700000000 + SEC[sym_param("sec", -1) >= 0 ? sym_param("sec", 0) : (long)sym_choose(3, "second")];
  size_t s0 = sym_socket::all().size();
  Server sv(sym_param("store", 0), "host:9", na, 10, 0); std::vector<sym_socket *> ss; for (size_t i = s0; i < sym_socket::all().size() && (int)ss.size() < na; ++i) ss.push_back(sym_socket::all()[i]);
  Agents ag(ss); boost::shared_ptr<ConnectionInfo> ec(new FakeConn());
  int when = sym_param("when", -1) >= 0 ? sym_param("when", 0) : (long)sym_choose(3, "connects");                 // before the data, after it, or after it was due to be sent
  if (when == 0) { for (int i = 0; i < na; ++i) ag.connect(i); ag.drain(sv.svc); }
  Totals want, got; std::map<S, long> base; bool round2 = false;
  for (int i = 0; i < k; ++i) {
    if (i && sym_choose(2, "due")) { sym_now += 10; boost::asio::sym_fire_due(sv.svc); ag.drain(sv.svc); base.clear(); round2 = true; sym_reach("two rounds"); }
    S c = CTR[sym_choose(2, "counter")]; int v = sym_choose(sym_param("vals", 4), "value"), form = sym_choose(3, "form"); long o = OFF[form ? sym_choose(9, "offset") : 0];
    long t = sym_now / 10 * 10 + o; char b[128];
    if (form == 0) snprintf(b, sizeof b, "%s %s", c.c_str(), VT[v]);
    if (form == 1) snprintf(b, sizeof b, "%s %ld %s", c.c_str(), t, VT[v]);
    if (form == 2) snprintf(b, sizeof b, "%s %ld %s 5 -1 3 2", c.c_str(), t, VT[v]);
    if (form == 0) t = sym_now;
    sym_show_str("line", b, strlen(b));
    sv.s->handleCmd(b, ec);
    if (!base.count(c)) base[c] = sym_now / 10 * 10;
    long q = t / 10 * 10 - base[c];
    if (q < -30 || q > 10) { sym_reach("outside"); continue; }
    if (form < 2) addTo(want, c, t, VV[v], VV[v] * VV[v], VV[v], VV[v], 1); else addTo(want, c, t, VV[v], 5, -1, 3, 2);
  }
  if (when == 1) { for (int i = 0; i < na; ++i) ag.connect(i); sv.svc.poll(); }
  int flush = sym_param("flush", 0); Done done;
  if (flush) { sv.s->syncAgent(&done); }
  bool early = done.n && !want.empty();
  sym_now += 10; boost::asio::sym_fire_due(sv.svc); sv.svc.poll();
  if (when == 2) { for (int i = 0; i < na; ++i) ag.connect(i); sv.svc.poll(); }
  ag.drain(sv.svc);
  if (flush) { sv.s->handleCmd("last 1", ec); sym_now += 10; boost::asio::sym_fire_due(sv.svc); ag.drain(sv.svc); addTo(want, "last", sym_now - 10, 1, 1, 1, 1, 1); sym_check(done.n == 1, "a flush request is not answered exactly once"); sym_check(!early || when == 2, "[K3] flush answered before the data it covers was sent"); }
  collect(ag, got, round2);
  compare(want, got);
  // nothing is sent again
  size_t n = 0; for (int i = 0; i < na; ++i) n += ag.text[i].size();
  sym_now += 10; boost::asio::sym_fire_due(sv.svc); ag.drain(sv.svc); for (int i = 0; i < na; ++i) n -= ag.text[i].size();
  sym_check(n == 0, "data forwarded twice");
  sym_reach(want.empty() ? "nothing" : "forwarded"); sym_expect("forwarded"); sym_expect("outside");
}
// one of two agents stays unreachable
static void failover() {
  size_t s0 = sym_socket::all().size();
  Server sv(false, "host:9", 2, 10, 0); std::vector<sym_socket *> ss(sym_socket::all().begin() + s0, sym_socket::all().begin() + s0 + 2); Agents ag(ss);
  boost::shared_ptr<ConnectionInfo> ec(new FakeConn());
  int dead = sym_choose(2, "dead"), heal = sym_choose(2, "heals"), r = sym_param("rounds", 6);
  ag.connect(1 - dead); sv.svc.poll();
  if (ss[dead]->cn) { ss[dead]->sym_connect(boost::system::error_code(111, boost::system::system_category())); sv.svc.poll(); }
  Totals want, got;
  for (int i = 0; i < r; ++i) {
    int two = sym_choose(2, "two_counters");
    sv.s->handleCmd("*e 3", ec); addTo(want, "*e", sym_now, 3, 9, 3, 3, 1);
    if (two) { sv.s->handleCmd("g 2", ec); addTo(want, "g", sym_now, 2, 4, 2, 2, 1); }
    size_t before = ag.text[1 - dead].size();
    sym_now += 10; boost::asio::sym_fire_due(sv.svc); 
    for (int j = 0; j < 2; ++j) { sv.svc.poll(); if (ss[dead]->cn) { if (heal && i == r - 1) ag.connect(dead); else ss[dead]->sym_connect(boost::system::error_code(111, boost::system::system_category())); } }
    ag.drain(sv.svc);
    if (i >= 4 && !(heal && i == r - 1)) { size_t fresh = ag.text[1 - dead].size() - before; sym_check(fresh > 0, "data still goes to an agent that has been unreachable for long"); sym_reach("failed over"); }
  }
  for (int i = 0; i < 60 && !ss[dead]->connected_; ++i) { long d = boost::asio::sym_next_due(sv.svc); if (d / 1000000 > sym_now) sym_now = d / 1000000; boost::asio::sym_fire_due(sv.svc); sv.svc.poll(); if (ss[dead]->cn) ag.connect(dead); sv.svc.poll(); }
  sym_check(ss[dead]->connected_, "the agent is never tried again");
  ag.drain(sv.svc);
  // back again, it gets its share
  size_t had = ag.text[dead].size(); sym_now += 10; boost::asio::sym_fire_due(sv.svc); ag.drain(sv.svc);
  sv.s->handleCmd("*e 3", ec); addTo(want, "*e", sym_now, 3, 9, 3, 3, 1); sv.s->handleCmd("g 2", ec); addTo(want, "g", sym_now, 2, 4, 2, 2, 1);
  sym_now += 10; boost::asio::sym_fire_due(sv.svc); ag.drain(sv.svc);
  sym_check(ag.text[dead].size() > had, "an agent that is back gets no data");
  collect(ag, got, true); compare(want, got);
  sym_expect("failed over");
}
// a flush request to two agents, each unconnected, idle, busy with an earlier write, or given up
static void flushes() {
  size_t s0 = sym_socket::all().size();
  Server sv(false, "host:9", 2, 10, 0); std::vector<sym_socket *> ss(sym_socket::all().begin() + s0, sym_socket::all().begin() + s0 + 2); Agents ag(ss);
  boost::shared_ptr<ConnectionInfo> ec(new FakeConn());
  int st[2]; for (int i = 0; i < 2; ++i) st[i] = sym_choose(4, "agent_is");
  if (st[0] == 3 && st[1] == 3) return;
  for (int i = 0; i < 2; ++i) if (st[i] == 1 || st[i] == 2) ag.connect(i);
  ag.drain(sv.svc);
  if (st[0] == 3 || st[1] == 3) for (int r = 0; r < 6; ++r) {
    sym_now += 10; boost::asio::sym_fire_due(sv.svc); sv.svc.poll();
    for (int i = 0; i < 2; ++i) if (st[i] == 3 && ss[i]->cn) ss[i]->sym_connect(boost::system::error_code(111, boost::system::system_category())); 
    sv.svc.poll();
  }
  sv.s->handleCmd("g 1", ec); sv.s->handleCmd("h 1", ec); sym_now += 10; boost::asio::sym_fire_due(sv.svc); sv.svc.poll();
  for (int i = 0; i < 2; ++i) { if (st[i] == 1) ss[i]->sym_drain(); if (st[i] == 2 && !ss[i]->wr) return; } sv.svc.poll();
  static const char *N[] = {"a.name.so.long.that.its.line.is.longer.than.the.one.before", "another.name.so.long.that.its.line.is.longer.than.the.one.before"};
  int n = 1 + sym_choose(2, "counters"); for (int i = 0; i < n; ++i) sv.s->handleCmd(S(N[i]) + " 2", ec);
  Done done; sv.s->syncAgent(&done); sv.svc.poll();
  sym_check(done.n <= 1, "a flush request is answered twice");
  int f = sym_choose(2, "first"), after = done.n ? 0 : 3; bool has[2] = {false, false};
  for (int k = 0; k < 2; ++k) {
    int i = k ? 1 - f : f; if (st[i] == 3) continue;
    if (st[i] == 0) { ag.connect(i); sv.svc.poll(); }
    while (ss[i]->wr) { ss[i]->sym_wrote(boost::system::error_code(), ss[i]->sym_write_size()); sv.svc.poll(); }
    has[i] = ss[i]->out.find(".before ") != S::npos;
    if (done.n && after == 3) after = k + 1;
  }
  sym_check(done.n == 1, "a flush request is not answered exactly once");
  for (int k = 0; k < 2; ++k) { int i = k ? 1 - f : f; if (has[i] && (st[i] == 0 || st[i] == 2)) { sym_check(k + 1 <= after, "a flush request is answered before all the data waiting for another write or a connection was sent"); sym_reach("waits"); } }
  sym_check(has[0] || has[1], "flushed data was not sent"); if (n == 2 && st[0] != 3 && st[1] != 3) sym_check(has[0] && has[1], "flushed data was not sent");
  sym_expect("waits");
}
int sym_main() {
  sym_now = 1700000003;
  switch (sym_param("mode", 0)) {
    case 0: line(); break;
    case 1: bytes(); break;
    case 2: tcp(); break;
    case 3: udp(); break;
    case 4: forward(); break;
    case 5: failover(); break;
    case 7: flushes(); break;
  }
  return 0;
}
