// Outgoing (reconnecting) connections: ordering, preamble, loss, backoff, closing; threads
#include "sym.h"
#include <boost/asio.hpp>
#include <boost/thread.hpp>
#include <string>
#include <sstream>
#include <vector>
#include <map>
#include <set>
#include "daemon/EagerConnection.h"
#include "daemon/IStatStore.h"
#include <string.h>
#include <stdio.h>
using boost::asio::io_service;
using boost::asio::sym_socket;
typedef std::string S;
extern "C" long sym_now;
extern size_t maxBufferSize;
extern "C" int sym_rand_any;   // rand() may return anything
static const S PRE = "#P\r\n";
struct Peer {
  io_service svc; boost::shared_ptr<ConnectionInfo> c; sym_socket *s; long reported; std::vector<size_t> epochs; int connects, disconnects;
  Peer() : s(0), reported(0), connects(0), disconnects(0) { c = EagerConnection::create(svc); s = sym_socket::all().back(); hook(); }
  ~Peer() { c.reset(); svc.clear(); }
  void wrote(size_t n) { reported += n; }
  void up() { ++connects; } void down() { ++disconnects; }
  void hook() { c->onWrite_.connect(boost::bind(&Peer::wrote, this, boost::placeholders::_1)); c->onConnect_.connect(boost::bind(&Peer::up, this)); c->onDisconnect_.connect(boost::bind(&Peer::down, this)); }
  bool connecting() { return s->cn != 0; }
  bool established() { return s->connected_ && s->open_; }
  void connect_ok() { epochs.push_back(all.size()); s->sym_connect(boost::system::error_code()); s->out.clear(); }
  void connect_bad() { s->sym_connect(boost::system::error_code(111, boost::system::system_category())); }
  S all;                                  // everything ever received, epoch starts in epochs
  void take() { all += s->out; s->out.clear(); }
  void write_ok() { s->sym_wrote(boost::system::error_code(), s->sym_write_size()); take(); }
  void write_bad(size_t n) { s->sym_wrote(boost::system::error_code(32, boost::system::system_category()), n); take(); }
  void read_bad() { s->sym_read_error(boost::system::error_code(104, boost::system::system_category())); }
  void drain() { for (int i = 0; i < 24; ++i) { svc.poll(); if (connecting()) connect_ok(); else if (established() && s->sym_writing()) write_ok(); else if (!established()) { long d = boost::asio::sym_next_due(svc); if (d >= 0) { sym_check(d <= (sym_now + 200) * 1000000L, "the next attempt is more than 200 seconds away"); if (d / 1000000 + 1 > sym_now) sym_now = d / 1000000 + 1; boost::asio::sym_fire_due(svc); } } else if (!svc.runnable()) break; } svc.poll(); }
  // lines received in epoch e (complete ones), and whether it starts with the preamble
  void epoch(size_t e, std::vector<S> &lines, S &tail) {
    size_t b = epochs[e], n = e + 1 < epochs.size() ? epochs[e + 1] : all.size(); S t = all.substr(b, n - b); size_t p;
    while ((p = t.find('\n')) != t.npos) { lines.push_back(t.substr(0, p + 1)); t = t.substr(p + 1); }
    tail = t;
  }
};
static S line(int i) { char b[32]; snprintf(b, sizeof b, "l%d %d\n", i, i * 7 + 1); return b; }
static void judge(Peer &p, int sent, bool dropsOk, const char *lostmsg) {
  std::set<S> got; int last = -1;
  for (size_t e = 0; e < p.epochs.size(); ++e) {
    std::vector<S> ls; S tail; p.epoch(e, ls, tail);
    sym_show_str("epoch", p.all.data() + p.epochs[e], (e + 1 < p.epochs.size() ? p.epochs[e + 1] : p.all.size()) - p.epochs[e]);
    for (size_t i = 0; i < ls.size(); ++i) {
      if (i == 0) { sym_check(ls[i] == PRE, "data sent on a connection before its preamble"); continue; }
      sym_check(ls[i] != PRE, "preamble sent twice on one connection");
      int k = -1; for (int j = 0; j < sent; ++j) if (ls[i] == line(j)) k = j;
      sym_check(k >= 0, "a line arrives that was never written, or torn");
      sym_check(!got.count(ls[i]), "a line arrives twice");
      sym_check(k > last, "lines arrive out of order");
      got.insert(ls[i]); last = k;
    }
    S whole = PRE; for (int j = 0; j < sent; ++j) whole += "|" + line(j);
    sym_check(tail.empty() || PRE.compare(0, tail.size(), tail) == 0 || whole.find("|" + tail) != whole.npos, "garbage at the end of a connection");
    if (tail.size()) sym_reach("torn tail");
  }
  if (!dropsOk) for (int j = 0; j < sent; ++j) if (!got.count(line(j))) { sym_reach("lost"); sym_check(p.s->lost.find(line(j)) != S::npos, lostmsg); }
}
static void outgoing() {
  int k = sym_param("k", 4), first = sym_param("first", -1); maxBufferSize = 1 << 19;
  boost::asio::ip::tcp::resolver::sym_fail() = sym_choose(2, "resolve_fails");
  Peer p;
  p.c->open("host:99", PRE);
  int sent = 0; bool closed = false; S atclose; int connAt = 0;
  for (int i = 0; i < k; ++i) {
    int op = i == 0 && first >= 0 ? first : sym_choose(8, "op");
    switch (op) {
      case 0: p.c->writeOut(line(sent++)); sym_reach("write"); break;
      case 1: if (!p.connecting()) continue; p.connect_ok(); sym_reach("connected"); break;
      case 2: if (!p.connecting()) continue; p.connect_bad(); sym_reach("refused"); break;
      case 3: if (!p.established() || !p.s->sym_writing()) continue; p.write_ok(); break;
      case 4: if (!p.established() || !p.s->sym_writing()) continue; { size_t n = p.s->sym_write_size(); p.write_bad(sym_choose(2, "short") ? n / 2 : 0); } sym_reach("write failed"); break;
      case 5: if (!p.established()) continue; p.read_bad(); sym_reach("peer gone"); break;
      case 6: { long d = boost::asio::sym_next_due(p.svc); if (d < 0) continue; sym_check(d <= (sym_now + 200) * 1000000L, "the next attempt is more than 200 seconds away"); sym_now = d / 1000000; boost::asio::sym_fire_due(p.svc); sym_reach("retry"); break; }
      case 7: p.svc.poll(); continue;
    }
    if (!sym_choose(2, "handlers_wait")) p.svc.poll();
  }
  p.svc.poll();
  sym_check(p.connecting() || p.established() || boost::asio::sym_next_due(p.svc) >= 0, "connection lost for good");
  sym_check(p.s->overlapped_writes == 0, "two writes outstanding on one connection");
  sym_check(p.s->overlapped_reads == 0, "two reads outstanding on one connection");
  int close = sym_param("close", 0);
  if (close) {
    size_t n = p.epochs.size(); bool wasConnecting = p.connecting(); (void)wasConnecting;
    int before = boost::asio::ip::tcp::resolver::sym_count();
    p.c->close();
    sym_check(!p.c->opened(), "still open after close");
    p.svc.poll(); sym_now += 500; boost::asio::sym_fire_due(p.svc); p.svc.poll();
    bool threw = false; try { p.c->writeOut("x\n"); } catch (std::runtime_error const &) { threw = true; }
    sym_check(threw, "data accepted after close");
    p.svc.poll(); sym_now += 500; boost::asio::sym_fire_due(p.svc); p.svc.poll();
    sym_check(!p.connecting() && !p.established() && p.epochs.size() == n && boost::asio::ip::tcp::resolver::sym_count() == before, "a closed connection connects again");
    sym_check(boost::asio::sym_next_due(p.svc) < 0, "a closed connection keeps retrying");
    judge(p, sent, true, "");
    return;
  }
  if (!p.established()) { int f = sym_choose(3, "names_unknown"); boost::asio::ip::tcp::resolver::sym_fail() += f; if (f) sym_reach("unresolved"); }
  p.drain();
  sym_check(p.established(), "not connected after a successful retry");
  sym_check(p.c->connected(), "an established connection is reported as not connected");
  sym_check(p.c->pendingIn() == 0, "data from nowhere");
  p.s->sym_feed("hello\n", 6); p.svc.poll();
  char in[8]; sym_check(p.c->pendingIn() == 6 && p.c->readIn(in, 8) == 6 && !memcmp(in, "hello\n", 6), "an established connection does not receive data");
  judge(p, sent, false, "a line was lost that was not being written when a connection broke");
  sym_check(p.c->pendingOut() == 0, "data left unsent on a working connection");
}
// any number of failures: an attempt follows within 200 seconds each time
static void patience() {
  maxBufferSize = 1 << 19; int &fail = boost::asio::ip::tcp::resolver::sym_fail(); fail = 0;
  Peer p; p.c->open("host:99", PRE);
  int n = sym_param("k", 24), kind = sym_choose(3, "kind"), alt = sym_choose(2, "alternating"), swap = sym_choose(2, "flush");
  for (int i = 0; i < n; ++i) {
    sym_rand_any = i == n - 1;
    int k = alt ? (kind + i) % 3 : kind; p.svc.poll();
    if (p.connecting()) { if (k == 2) p.connect_ok(); else p.connect_bad(); p.svc.poll(); }
    if (p.established()) { if (swap && i % 2 == 0 && p.s->sym_writing()) p.write_bad(0); else p.read_bad(); p.svc.poll(); }
    sym_check(!p.c->connected(), "a broken connection is reported as connected");
    fail = k == 0 ? 1 : 0;
    long d = boost::asio::sym_next_due(p.svc);
    sym_check(d >= 0, "connection lost for good");
    sym_check(d <= (sym_now + 200) * 1000000L, "the next attempt is more than 200 seconds away");
    if (d / 1000000 + 1 > sym_now) sym_now = d / 1000000 + 1; boost::asio::sym_fire_due(p.svc);
  }
  sym_rand_any = 0; fail = 0; p.c->writeOut(line(0)); p.drain();
  sym_check(p.established(), "not connected after a successful retry");
  judge(p, 1, false, "a line was lost that was not being written when a connection broke");
  sym_reach(kind == 0 ? "unresolved" : kind == 1 ? "refused" : "peer gone");
}
// pruning of an unconnected backlog
static void prune() {
  maxBufferSize = 24;
  Peer p; p.c->open("host:99", PRE);
  int n = sym_param("k", 6), sent = 0; S pend;
  std::vector<S> ls;
  for (int i = 0; i < n; ++i) {
    S t(1, 'a' + i); t += S(sym_choose(sym_param("len", 9), "length"), '0' + i); t += "\n";
    ls.push_back(t); p.c->writeOut(t);
    sym_check(p.c->pendingOut() <= maxBufferSize + t.size(), "backlog exceeds its limit");
    sym_check(p.c->pendingOut() >= t.size(), "the newest line is not kept");
  }
  size_t before = p.c->pendingOut();
  p.drain();
  std::vector<S> got; S tail; sym_check(p.epochs.size() == 1, "connections"); p.epoch(0, got, tail);
  sym_check(tail.empty() && got.size() && got[0] == PRE, "preamble");
  size_t m = got.size() - 1, tot = 0;
  sym_check(m <= ls.size() && m > 0, "number of lines");
  for (size_t i = 0; i < m; ++i) { sym_check(got[i + 1] == ls[ls.size() - m + i], "pruning cut a line in two or dropped a newer line instead of an older one"); tot += got[i + 1].size(); }
  sym_check(tot == before, "backlog differs from what is sent");
  size_t all = 0; for (size_t i = 0; i < ls.size(); ++i) all += ls[i].size();
  if (m < ls.size()) sym_reach("pruned"); else sym_reach("kept");
  sym_check(m == ls.size() || all > maxBufferSize, "pruned although there was room");
  sym_expect("pruned");
}
// writers on two threads while handlers run on a third
class FakeEagerConnection { public: static void share(EagerConnection *e) { sym_shared(&e->outgoing_, sizeof e->outgoing_); sym_shared(&e->writeBuf_, sizeof e->writeBuf_); sym_shared(&e->writePending_, 1); } };
static Peer *tp; static int tw[2];
static void writer(void *a) { long id = (long)a; for (int i = 0; i < sym_param("per", 1); ++i) { char b[16]; snprintf(b, sizeof b, "t%ld %d\n", id, i); tp->c->writeOut(S(b)); ++tw[id]; } }
static void threads() {
  sym_max_preempt(sym_param("pre", 3));
  maxBufferSize = 1 << 19;
  tp = new Peer(); tp->c->open("host:99", PRE);
  FakeEagerConnection::share(tp->c->asEagerConnection());
  int when = sym_choose(3, "connects");
  if (when == 0) { tp->connect_ok(); tp->svc.poll(); }
  int a = sym_thread_create(writer, (void *)0), b = sym_param("n", 2) > 1 ? sym_thread_create(writer, (void *)1) : -1;
  if (when == 1) tp->connect_ok();
  tp->svc.poll();
  if (tp->established() && tp->s->sym_writing()) { tp->write_ok(); tp->svc.poll(); }
  sym_thread_join(a); if (b >= 0) sym_thread_join(b);
  tp->drain();
  sym_check(tp->s->overlapped_writes == 0, "two writes outstanding on one connection");
  std::vector<S> got; S tail; sym_check(tp->epochs.size() == 1, "connections"); tp->epoch(0, got, tail);
  sym_check(tail.empty() && got.size() && got[0] == PRE, "data sent on a connection before its preamble");
  int next[2] = {0, 0};
  for (size_t i = 1; i < got.size(); ++i) {
    int id = got[i].size() > 1 ? got[i][1] - '0' : -1; sym_check(id == 0 || id == 1, "torn line");
    char w[16]; snprintf(w, sizeof w, "t%d %d\n", id, next[id]); sym_check(got[i] == w, "a thread's lines are torn, doubled or out of order"); ++next[id];
  }
  sym_check(next[0] == tw[0] && next[1] == tw[1], "a line was lost");
  delete tp;
}
int sym_main() {
  sym_now = 1700000000;
  switch (sym_param("mode", 0)) { case 0: outgoing(); break; case 1: prune(); break; case 2: threads(); break; case 3: patience(); break; }
  return 0;
}
