// The counter store: creation, aggregation, listing, deletion, flushing, restart, pruning; threads
#include "sym.h"
#include "symfs.h"
#include <boost/asio.hpp>
#include "daemon/StatStore.h"
#include "daemon/IComplete.h"
#include "daemon/StatCounterFactory.h"
#include <istat/strfunc.h>
#include <istat/Mmap.h>
#include <istat/StatFile.h>
#include "daemon/Retention.h"
#include <vector>
#include <map>
#include <set>
#include <stdexcept>
#include <string.h>
#include <stdio.h>
using namespace istat;
using boost::asio::io_service;
typedef std::string S;
typedef std::list<std::pair<S, CounterResponse> > L;
extern "C" long sym_now;
// ---------------------------------------------------------------- counters that remember what happens to them
struct Rec { long t; double v, sq, mi, ma; size_t n; bool operator==(Rec const &o) const { return sym_and(t == o.t, sym_and(v == o.v, sym_and(sq == o.sq, sym_and(mi == o.mi, sym_and(ma == o.ma, n == o.n))))); } };
static S path(S const &n) { S f = "/st/" + n; for (size_t i = 4; i < f.size(); ++i) if (f[i] == '.') f[i] = '/'; return f; }
static S file(S const &n) { return path(n) + "/10s"; }
struct Ctr;
struct World { std::vector<Ctr *> all; std::vector<boost::shared_ptr<IStatCounter> > keep; };
static World *W;
struct Ctr : IStatCounter {
  S name; bool coll; std::vector<Rec> recs; int flushed, forced, purged; long lastflush, maxgap;
  Ctr(S const &n, bool c) : name(n), coll(c), flushed(0), forced(0), purged(0), lastflush(0), maxgap(0) {}
  bool isCollated() const { return coll; }
  void record(time_t t, double v, double sq, double mi, double ma, size_t n) { if (!purged || boost::sym_lock_mode() != 3) sym_check(!purged, "a sample is recorded in a counter whose files were deleted"); if (!purged) sym_check(symfs_exists(file(name).c_str()), "a sample is recorded in a counter whose files are gone"); Rec r = {t, v, sq, mi, ma, n}; recs.push_back(r); }
  void flush(boost::shared_ptr<IStatStore> const &) { if (sym_now - lastflush > maxgap) maxgap = sym_now - lastflush; lastflush = sym_now; ++flushed; }
  void forceFlush(boost::shared_ptr<IStatStore> const &) { ++forced; }
  void maybeShiftCollated(time_t) {}
  void select(time_t, time_t, bool, std::vector<Bucket> &, time_t &, time_t &, time_t &, size_t) {}
  void purge(S root) {
    sym_check(root == "/st", "a counter is deleted relative to another root"); ++purged; sym_check(purged == 1, "a counter is deleted twice");
    for (size_t i = 0; i < W->all.size(); ++i) sym_check(W->all[i] == this || W->all[i]->name != name || W->all[i]->purged, "deleting a counter removes the files of its successor");
    ::unlink(file(name).c_str());
  }
};
struct Fac : IStatCounterFactory {
  S root; Fac() : root("/st") {}
  boost::shared_ptr<IStatCounter> create(S const &n, bool coll, time_t, bool only) {
    S p = path(n); if (only && !statCounterFilesExist(p)) return boost::shared_ptr<IStatCounter>();
    for (size_t i = 0; i < W->all.size(); ++i) sym_check(W->all[i]->purged || path(W->all[i]->name) != p, "two live counters share one directory");
    symfs_mkdirs(p.c_str()); symfs_put((p + "/10s").c_str(), 0, "x", 1);
    Ctr *c = new Ctr(n, coll); c->lastflush = sym_now; W->all.push_back(c); boost::shared_ptr<IStatCounter> r(c); W->keep.push_back(r); return r;
  }
  bool statCounterFilesExist(S const &p) { return symfs_exists((p + "/10s").c_str()); }
  S &rootPath() { return root; }
};
struct Done : IComplete { int n; Done() : n(0) {} void on_complete() { ++n; } };
struct Box {
  World w; io_service svc; Fac *fac; boost::shared_ptr<IStatCounterFactory> fp; boost::shared_ptr<StatStore> st; Mmap *mm;
  Box(bool recursive = true, int agg = 0, long flushMs = -1) { W = &w; mm = NewMmap(); fac = new Fac(); fp.reset(fac); open(recursive, agg, flushMs); }
  void open(bool recursive, int agg, long flushMs) { st = boost::make_shared<StatStore>("/st", -1, boost::ref(svc), fp, mm, flushMs, 0L, 60000, recursive); st->setAggregateCount(agg); }
  void guard(void (*f)(Box &, size_t), size_t k) { try { f(*this, k); } catch (std::exception const &x) { sym_show_str("exception", x.what(), strlen(x.what())); sym_check(false, "an exception escapes a handler of the store"); } }
  static void one(Box &b, size_t k) { b.svc.run_nth(k); }
  static void due(Box &b, size_t) { sym_fire_due(b.svc); }
  void step(size_t k) { guard(one, k); }
  void drain() { for (int i = 0; i < 2000 && svc.runnable(); ++i) step(0); sym_check(!svc.runnable(), "the store never comes to rest"); }
  // lets time pass until t, running the timers
  void until(long t) { while (true) { long d = sym_next_due(svc); sym_check(d >= 0, "no timer is pending"); if (d > t * 1000000L) break; long s = (d + 999999) / 1000000; if (s > sym_now) sym_now = s; guard(due, 0); drain(); } sym_now = t; }
  Ctr *live(S const &n) { Ctr *r = 0; for (size_t i = 0; i < w.all.size(); ++i) if (w.all[i]->name == n && !w.all[i]->purged) { sym_check(!r, "a counter is opened twice"); r = w.all[i]; } return r; }
  Ctr *found(S const &n) { boost::shared_ptr<IStatCounter> c; boost::asio::strand<io_service::executor_type> *sd = 0; st->find(n, c, sd); if (!c) return 0; Ctr *k = dynamic_cast<Ctr *>(c.get()); sym_check(k != 0, "a deleted counter swallows samples for ever"); return k; }
  L list(S const &p) { L l; st->listMatchingCounters(p, l); return l; }
  ~Box() { st.reset(); svc.clear(); mm->dispose(); }
};
// ---------------------------------------------------------------- what should be there
static bool plain(S const &n) { if (n.empty()) return false; for (size_t i = 0; i < n.size(); ++i) if (n[i] == '.' && (i == 0 || i + 1 == n.size() || n[i + 1] == '.')) return false; return true; }
static bool up(S &n) { size_t k = n.rfind('.'); if (k == S::npos) return false; n.resize(k); return true; }
static S munged(S n) { for (size_t i = 0; i < n.size(); ++i) { unsigned char c = n[i]; if (c < 33 || c > 126 || c == '/' || c == ':' || c == '\\' || c == '"' || c == '\'') c = '_'; if (c >= 'A' && c <= 'Z') c += 32; n[i] = c; } return n; }
struct M { bool coll; std::vector<Rec> recs; };
struct Model {
  bool rec; int agg; std::map<S, M> m;
  bool create(S n, bool coll) {
    if (m.count(n)) return true;
    if (!rec) { S p = n; while (up(p)) if (m.count(p)) return false; }
    m[n].coll = coll;
    if (rec) { S p = n; if (up(p)) create(p, coll); }
    return true;
  }
  void record(S n, Rec const &r) {
    bool coll = n[0] == '*'; if (coll) n = n.substr(1);
    for (int k = 0; k <= agg; ++k) { if (create(n, coll)) m[n].recs.push_back(r); if (!up(n)) break; }
  }
};
static void listed(Box &b, std::map<S, bool> const &live) {
  std::map<S, CounterResponse> want;
  for (std::map<S, bool>::const_iterator p = live.begin(); p != live.end(); ++p) { CounterResponse c; c.isLeaf = true; c.counterType = p->second ? CounterResponse::DisplayTypeEvent : CounterResponse::DisplayTypeGauge; want[p->first] = c; }
  for (std::map<S, bool>::const_iterator p = live.begin(); p != live.end(); ++p) { S n = p->first; while (up(n)) { CounterResponse c; c.isLeaf = false; c.counterType = CounterResponse::DisplayTypeAggregate; want[n] = c; } }
  L l = b.list("*"); std::set<S> seen;
  for (L::iterator p = l.begin(); p != l.end(); ++p) {
    sym_show_str("listed", p->first.data(), p->first.size());
    sym_check(seen.insert(p->first).second, "a name is listed twice");
    sym_check(want.count(p->first), "a name is listed although no such counter exists");
    if (!want.count(p->first)) continue;
    sym_check(want[p->first].isLeaf == p->second.isLeaf, "a counter is listed as a branch, or a branch as a counter");
    sym_check(want[p->first].counterType == p->second.counterType, "a counter is listed with the wrong type");
  }
  for (std::map<S, CounterResponse>::iterator p = want.begin(); p != want.end(); ++p) { sym_show_str("wanted", p->first.data(), p->first.size()); sym_check(seen.count(p->first), "a counter is missing from the listing"); }
}
static void agree(Box &b, Model &m) {
  std::map<S, bool> live;
  for (size_t i = 0; i < b.w.all.size(); ++i) { Ctr *c = b.w.all[i]; if (!c->purged) { sym_show_str("live", c->name.data(), c->name.size()); sym_check(m.m.count(c->name), "a counter exists that nobody asked for, or that was deleted"); } }
  for (std::map<S, M>::iterator p = m.m.begin(); p != m.m.end(); ++p) {
    sym_show_str("counter", p->first.data(), p->first.size());
    Ctr *c = b.live(p->first); sym_check(c != 0, "a counter that samples were sent to does not exist"); if (!c) continue;
    sym_check(b.found(p->first) == c, "a counter cannot be found by name");
    sym_check(symfs_exists(file(c->name).c_str()), "the files of a live counter are gone");
    sym_check(c->coll == p->second.coll, "a counter has the wrong kind");
    sym_check(c->recs.size() == p->second.recs.size(), "a counter does not receive every sample exactly once");
    for (size_t k = 0; k < c->recs.size() && k < p->second.recs.size(); ++k) sym_check(c->recs[k] == p->second.recs[k], "a sample reaches a counter changed, or out of order");
    live[p->first] = c->coll;
  }
  listed(b, live);
  for (std::map<S, bool>::iterator p = live.begin(); p != live.end(); ++p) { L l = b.list(p->first); int n = 0; for (L::iterator q = l.begin(); q != l.end(); ++q) n += q->first == p->first; sym_check(n == 1, "a counter is not found by its own name"); }
}
// ---------------------------------------------------------------- 0: one operation after the other
static const char *NM[] = {"a", "a.b", "*a.b.c", "d", "*a.e"};
static Rec sample(int i, bool sym) { Rec r; r.t = 1000 + i; r.v = i * 3 + 1; r.sq = r.v * r.v; r.mi = r.v - 1; r.ma = r.v + 1; r.n = 2 + i; if (sym) { r.t = sym_long(1, 4000000000L, "time"); r.v = (double)sym_long(-1000000, 1000000, "value"); r.sq = (double)sym_long(0, 1000000, "square"); r.mi = (double)sym_long(-1000000, 1000000, "min"); r.ma = (double)sym_long(-1000000, 1000000, "max"); r.n = sym_long(1, 1 << 20, "count"); } return r; }
static void sequence() {
  bool rec = sym_param("recursive", 1); int agg = sym_param("agg", 0), steps = sym_param("steps", 3), first = sym_param("first", -1);
  Box b(rec, agg); Model m; m.rec = rec; m.agg = agg;
  b.drain();
  for (int i = 0; i < steps; ++i) {
    int op = i == 0 && first >= 0 ? first : (int)sym_choose(9, "operation");
    if (op < 5) { Rec r = sample(i, i == 0); b.st->record(NM[op], r.t, r.v, r.sq, r.mi, r.ma, r.n); m.record(NM[op], r); }
    else if (op == 5) { int k = sym_choose(2, "victim"); S n = k ? "a.b" : "a"; Done *d = new Done(); b.st->deleteCounter(n, d); m.m.erase(n); b.drain(); sym_check(d->n == 1, "a deletion is not reported done exactly once"); delete d; }
    else if (op == 6) { Done d; b.st->deletePattern("a.*", &d); for (std::map<S, M>::iterator p = m.m.begin(); p != m.m.end();) if (p->first.size() > 2 && p->first.substr(0, 2) == "a.") m.m.erase(p++); else ++p; b.drain(); sym_check(d.n == 1, "a deletion is not reported done exactly once"); }
    else if (op == 7) { Done d; std::vector<int> f; for (size_t k = 0; k < b.w.all.size(); ++k) f.push_back(b.w.all[k]->forced); b.st->flushAll(&d); b.drain(); sym_check(d.n == 1, "flushing everything is not reported done exactly once"); for (size_t k = 0; k < f.size(); ++k) sym_check(b.w.all[k]->forced == f[k] + (b.w.all[k]->purged ? 0 : 1), "flushing everything misses a counter"); }
    else { Done d; b.st->deletePattern("*", &d); m.m.clear(); b.drain(); sym_check(d.n == 1, "a deletion is not reported done exactly once"); }
    b.drain(); agree(b, m); sym_reach("agreed");
  }
  sym_expect("agreed");
}
// ---------------------------------------------------------------- 1: operations overlapping the handlers they start, in any order
static void overlap() {
  int agg = sym_param("agg", 0), steps = sym_param("steps", 6), script = sym_param("script", 0); // digits: the first steps, from the last digit on, plus one
  Box b(true, agg); Done del; int dels = 0; std::vector<Rec> sent; Done fl; int fls = 0;
  b.drain();
  b.st->record("g.x", 1, 1, 1, 1, 1, 1); b.st->record("g.z", 1, 1, 1, 1, 1, 1); b.st->record("keep.me", 1, 1, 1, 1, 1, 1); { Rec r = {1, 1, 1, 1, 1, 1}; sent.push_back(r); }
  b.drain();
  for (int i = 0; i < steps; ++i) {
    int n = b.svc.runnable();
    int op; if (script) { op = script % 10 - 1; script /= 10; } else op = sym_choose(6 + (n > 3 ? 3 : n), "step");
    Rec r = sample(i, false);
    switch (op) {
    case 0: b.st->record("g.x", r.t, r.v, r.sq, r.mi, r.ma, r.n); break;
    case 1: b.st->record("keep.me", r.t, r.v, r.sq, r.mi, r.ma, r.n); sent.push_back(r); break;
    case 2: b.st->deleteCounter("g.x", &del); ++dels; break;
    case 3: b.st->deletePattern("g.?", &del); ++dels; break;
    case 4: b.st->deleteCounter("g.z", &del); ++dels; break;
    case 5: b.st->flushAll(&fl); ++fls; break;
    default: b.step(op - 6); break;
    }
  }
  b.drain();
  sym_check(del.n == dels, "a deletion is not reported done exactly once"); sym_check(fl.n == fls, "flushing everything is not reported done exactly once");
  std::map<S, bool> live;
  const char *all[] = {"g", "g.x", "g.z", "keep", "keep.me"};
  for (int k = 0; k < 5; ++k) {
    Ctr *c = b.found(all[k]), *l = b.live(all[k]);
    sym_check(c == l, "a deleted counter is still there, or a live one cannot be found");
    if (c) { live[all[k]] = false; sym_check(symfs_exists(file(c->name).c_str()), "the files of a live counter are gone"); }
  }
  for (size_t i = 0; i < b.w.all.size(); ++i) if (!b.w.all[i]->purged) sym_check(live.count(b.w.all[i]->name), "a deleted counter's files are left behind");
  Ctr *k = b.live("keep.me"); sym_check(k && k->recs.size() == sent.size(), "a counter does not receive every sample exactly once");
  for (size_t i = 0; k && i < sent.size(); ++i) sym_check(k->recs[i] == sent[i], "a sample reaches a counter changed, or out of order");
  if (agg) { Ctr *q = b.live("keep"); sym_check(q && q->recs.size() == sent.size(), "an aggregate does not receive every sample exactly once"); }
  listed(b, live);
  // and afterwards the store works as ever
  b.st->record("g.x", 5, 5, 25, 5, 5, 1); b.drain(); Ctr *x = b.live("g.x"); sym_check(x && !x->recs.empty() && x->recs.back().t == 5, "a counter that was deleted cannot be used again");
  live["g.x"] = false; live["g"] = false; listed(b, live); sym_reach("worked"); sym_expect("worked");
}
// ---------------------------------------------------------------- 2: every counter is flushed in time
static void flushing() {
  int n = sym_param("counters", 3); long ms = sym_param("flushms", 10000);
  Box b(true, 0, ms); char nm[16];
  for (int i = 0; i < n; ++i) { snprintf(nm, sizeof nm, "c%d", i * 37); b.st->record(nm, 1, 1, 1, 1, 1, 1); b.drain(); b.st->record(nm, 1, 1, 1, 1, 1, 1); b.drain(); }
  long gone = sym_choose(n + 1, "deleted");
  long t0 = sym_now; b.until(t0 + sym_long(0, 20, "before") );
  if (gone < n) { snprintf(nm, sizeof nm, "c%d", (int)gone * 37); b.st->deleteCounter(nm, 0); b.drain(); }
  b.until(t0 + 20 + 4 * (ms / 1000));
  long limit = ms / 1000 + n + 3;
  for (size_t i = 0; i < b.w.all.size(); ++i) { Ctr *c = b.w.all[i]; if (c->purged) continue; if (sym_now - c->lastflush > c->maxgap) c->maxgap = sym_now - c->lastflush; sym_show("gap", c->maxgap); sym_show("limit", limit); sym_check(c->flushed > 0, "a counter is never flushed"); sym_check(c->maxgap <= limit, "a counter goes unflushed for longer than the flush interval"); }
  sym_reach("flushed"); sym_expect("flushed");
}
// ---------------------------------------------------------------- 3: any name whatever
static void names() {
  bool rec = sym_param("recursive", 1); int agg = sym_param("agg", 1); int len = sym_param("len", 3);
  Box b(rec, agg); Model m; m.rec = rec; m.agg = agg;
  Rec r0 = sample(0, false); b.st->record("a.b", r0.t, r0.v, r0.sq, r0.mi, r0.ma, r0.n); m.record("a.b", r0); b.drain();
  static const char AB[] = "ab.A*/ %_"; S n;
  for (int i = 0; i < len; ++i) n += AB[sym_choose(sizeof AB - 1, "character")];
  if (sym_param("arb", 0)) { char c = (char)sym_choose(256, "byte"); long w = sym_choose(5, "place"); n = w == 0 ? S(1, c) : w == 1 ? S(1, c) + "b" : w == 2 ? S("a") + c : w == 3 ? S("a") + c + "b" : S("a.") + c + ".b"; }
  sym_show_str("name", n.data(), n.size());
  Rec r = sample(1, false); b.st->record(n, r.t, r.v, r.sq, r.mi, r.ma, r.n); b.drain();
  bool coll = n[0] == '*'; S k = n; while (!k.empty() && k[0] == '*') k.erase(0, 1); k = munged(k);
  if (plain(k)) { m.record((coll ? "*" : "") + k, r); sym_reach("kept"); } else sym_reach("refused");
  agree(b, m);
  for (int i = 0; i < symfs_count(); ++i) { S f = symfs_name(i); if (f.empty()) continue; sym_show_str("file", f.data(), f.size()); sym_check(f.substr(0, 3) == "/st" && f.find("//") == S::npos && f.find("..") == S::npos, "a counter's name leads out of its place in the store"); }
  if (sym_param("arb", 0) || len) { sym_expect("kept"); sym_expect("refused"); }
}
// ---------------------------------------------------------------- 4: a restart finds every counter
static void restart() {
  bool rec = sym_param("recursive", 1);
  static const char *D[] = {"a", "a/b", "a/b/c", "_d", "x-1/y_2/many-levels", ".hid", "a/.hid"};
  symfs_mkdirs("/st"); std::set<S> have; std::set<S> dirs;
  for (int i = 0; i < 7; ++i) { int w = sym_choose(3, "directory"); if (!w) continue; S p = S("/st/") + D[i]; symfs_mkdirs(p.c_str()); if (w == 2) symfs_put((p + "/10s").c_str(), 0, "x", 1);
    S n = D[i]; if (n.find(".hid") != S::npos) { n.resize(n.size() > 5 ? n.size() - 5 : 0); while (!n.empty()) { for (size_t k = 0; k < n.size(); ++k) if (n[k] == '/') n[k] = '.'; dirs.insert(n); if (!up(n)) break; } continue; }
    for (size_t k = 0; k < n.size(); ++k) if (n[k] == '/') n[k] = '.';
    if (w == 2) have.insert(n); S q = n; do dirs.insert(q); while (up(q)); }
  symfs_put("/st/istatd.settings.set", 0, "x", 1);
  Box b(rec); b.drain();
  std::set<S> &want = rec ? dirs : have; std::map<S, bool> live;
  for (size_t i = 0; i < b.w.all.size(); ++i) { S n = b.w.all[i]->name; sym_show_str("opened", n.data(), n.size()); sym_check(want.count(n), "after a restart there is a counter that has no directory or no files"); live[n] = false; }
  for (std::set<S>::iterator p = want.begin(); p != want.end(); ++p) { sym_show_str("counter", p->data(), p->size()); sym_check(b.live(*p) && b.found(*p) == b.live(*p), "a counter is lost by a restart"); }
  listed(b, live); sym_reach("restarted"); sym_expect("restarted");
}
// ---------------------------------------------------------------- 5: empty directories are pruned, and nothing else
static void pruning() {
  symfs_mkdirs("/st"); symfs_mkdirs("/st/e/f/level/after/level/after/level"); symfs_mkdirs("/st/g"); symfs_mkdirs("/st/_x/_y");
  if (sym_choose(2, "file")) symfs_put("/st/g/keep", 0, "x", 1);
  bool keep = symfs_exists("/st/g/keep");
  Box b(false); b.drain();
  int what = sym_choose(3, "use");
  if (what) { b.st->record("a.b", 1, 1, 1, 1, 1, 1); b.st->record("c", 1, 1, 1, 1, 1, 1); b.drain(); if (what == 2) { b.st->deletePattern("*", 0); b.drain(); sym_check(symfs_isdir("/st"), "the store's own directory is removed"); } }
  long t = sym_now; b.until(t + 61); 
  sym_check(symfs_isdir("/st"), "the store's own directory is removed");
  sym_check(!symfs_isdir("/st/e") && !symfs_isdir("/st/_x"), "empty directories are not pruned"); sym_check(keep == (bool)symfs_isdir("/st/g"), "the wrong directory is pruned"); sym_check(keep == (bool)symfs_exists("/st/g/keep"), "pruning removes a file");
  if (what == 1) sym_check(symfs_exists("/st/a/b/10s") && symfs_exists("/st/c/10s"), "pruning removes a file");
  if (what == 2) sym_check(!symfs_isdir("/st/a") && !symfs_isdir("/st/c"), "empty directories are not pruned");
  // ... every time
  symfs_mkdirs("/st/h"); b.until(t + 150); sym_check(!symfs_isdir("/st/h"), "pruning stops after a while");
  // the store goes on working
  b.st->record("n.m", 2, 2, 4, 2, 2, 1); b.drain(); Ctr *c = b.live("n.m"); sym_check(c && c->recs.size() == 1, "the store cannot be used after pruning");
  b.st->deleteCounter("n.m", 0); b.drain(); sym_check(!b.found("n.m"), "a deleted counter is still there, or a live one cannot be found");
  b.st->record("n.m", 3, 3, 9, 3, 3, 1); b.drain(); sym_check(b.live("n.m") && b.live("n.m")->recs.size() == 1, "a counter that was deleted cannot be used again");
  sym_reach("pruned"); sym_expect("pruned");
}
// ---------------------------------------------------------------- 7: deletions in a burst
static void burst() {
  int n = sym_param("n", 8); Box b(true); b.drain();
  b.st->record("x", 1, 1, 1, 1, 1, 1); b.drain();
  Done d; int k = sym_choose(n + 1, "deletions"), w = sym_choose(3, "of");
  for (int i = 0; i < k; ++i) b.st->deleteCounter(w == 0 ? "nosuch" : w == 1 ? "x" : (i & 1) ? "x" : "nosuch", &d);
  b.drain(); sym_check(d.n == k, "a deletion is not reported done exactly once");
  Model m; m.rec = true; m.agg = 0;
  if (!(w && k > (w == 2 ? 1 : 0))) { Rec r = {1, 1, 1, 1, 1, 1}; m.record("x", r); }
  agree(b, m);
  for (int round = 0; round < 2; ++round) {
    Rec r = sample(round, false); b.st->record("x", r.t, r.v, r.sq, r.mi, r.ma, r.n); m.record("x", r); b.drain(); agree(b, m);
    b.st->deleteCounter("x", 0); b.drain(); m.m.erase("x"); agree(b, m);
  }
  sym_reach("survived"); sym_expect("survived");
}
// ---------------------------------------------------------------- 8: real counters: restart, deletion, backup
static const char *RN[] = {"a", "a.b", "*c", "st", "st.st"};
static double total(Box &b, S n, bool &coll, long from, long to) {
  if (n[0] == '*') n.erase(0, 1);
  boost::shared_ptr<IStatCounter> c; boost::asio::strand<io_service::executor_type> *sd = 0; b.st->find(n, c, sd); sym_show_str("counter", n.data(), n.size()); sym_check((bool)c, "a counter is lost"); if (!c) return 0;
  coll = c->isCollated(); std::vector<Bucket> v; time_t s, e, iv; c->select(from, to, false, v, s, e, iv, 100); double r = 0; for (size_t i = 0; i < v.size(); ++i) if (v[i].count()) r += v[i].sum(); return r;
}
static double filed(Mmap *mm, S const &p) { Stats st; StatFile f(p, st, mm, false); double r = 0; for (int64_t i = f.firstBucket(); i <= f.lastBucket(); ++i) { Bucket k(true); if (f.readBuckets(&k, 1, i) == 1 && k.count()) r += k.sum(); } return r; }
static void real() {
  RetentionPolicy rp("10s:2m"); Box b(true); b.st.reset(); b.svc.clear(); long now = sym_now;
  int fault = sym_param("fault", 0), del = sym_param("del", -1); if (del < 0) del = sym_choose(7, "deleted"); if (fault && del == 5) del = 6;
  b.fp.reset(new StatCounterFactory("/st", b.mm, rp)); b.open(false, 0, -1); b.drain();
  long val[5]; bool gone[5] = {0}; int skip = sym_choose(6, "unused");
  for (int i = 0; i < 5; ++i) { if (i == 1) { gone[i] = true; continue; } val[i] = sym_long(-1000, 1000, "value"); if (i == skip || (i == 4)) { gone[i] = true; continue; } b.st->record(RN[i], now - 20, val[i], 0, val[i], val[i], 1); b.drain(); }
  if (gone[0]) { gone[1] = false; b.st->record(RN[1], now - 20, val[1] = 7, 49, 7, 7, 1); b.drain(); } 
  if (gone[3]) { gone[4] = false; b.st->record(RN[4], now - 20, val[4], 0, val[4], val[4], 1); b.drain(); }
  if (sym_choose(2, "flush")) { Done d; b.st->flushAll(&d); b.drain(); sym_check(d.n == 1, "flushing everything is not reported done exactly once"); }
  bool had[5]; for (int i = 0; i < 5; ++i) had[i] = !gone[i];
  if (del < 5 || del == 6) {
    Done d; if (fault) { symfs_fail_errno = fault == 1 ? ENOSPC : EACCES; symfs_ops = 0; symfs_fail_at = sym_choose(12, "failing"); }
    if (del < 5) { S n = RN[del]; if (n[0] == '*') n.erase(0, 1); b.st->deleteCounter(n, &d); gone[del] = true; } else { b.st->deletePattern("*", &d); for (int i = 0; i < 5; ++i) gone[i] = true; }
    b.drain(); symfs_fail_at = -1; sym_check(d.n == 1, "a deletion is not reported done exactly once");
  }
  if (!fault) {
    for (int i = 0; i < 5; ++i) {
      S n = RN[i]; if (n[0] == '*') n.erase(0, 1); S p = path(n).substr(3); bool bak = symfs_exists(("/st.bak" + p + "/10s").c_str());
      sym_show_str("counter", n.data(), n.size());
      sym_check(bak == (had[i] && gone[i]), bak ? "a counter that was not deleted is in the backup" : "a deleted counter is not in the backup"); sym_check((bool)symfs_exists(("/st" + p + "/10s").c_str()) == !gone[i], "the files of a live counter are gone, or a deleted one's are left");
      if (bak) { double t = filed(b.mm, "/st.bak" + p + "/10s"); if (i == 2) sym_check((t != 0) == (val[i] != 0), "the backup of a deleted event counter lacks its last events"); else sym_check(t == (double)val[i], "the backup of a deleted counter lacks its data"); sym_reach("backup"); }
      if (!gone[i]) { bool coll = false; double t = total(b, RN[i], coll, now - 60, now); sym_check(coll == (i == 2), "a counter has the wrong kind"); if (i != 2) sym_check(t == (double)val[i], "a counter does not receive every sample exactly once"); }
    }
    if (sym_choose(2, "restart")) {
      { Done d; b.st->flushAll(&d); b.drain(); } b.st.reset(); b.svc.clear(); b.open(sym_choose(2, "recursive"), 0, -1); b.drain();
      for (int i = 0; i < 5; ++i) if (!gone[i]) { bool coll = false; double t = total(b, RN[i], coll, now - 60, now); sym_check(coll == (i == 2), "a counter changes its kind when the daemon restarts"); if (i != 2) sym_check(t == (double)val[i], "data is lost when the daemon restarts"); else sym_check((t != 0) == (val[i] != 0), "data is lost when the daemon restarts"); sym_reach("restarted"); }
    }
  } else {
    // whatever failed, nothing is lost: each counter's data is in the store or in the backup, and the store goes on
    { Done d; b.st->flushAll(&d); b.drain(); sym_check(d.n == 1, "flushing everything is not reported done exactly once"); }
    for (int i = 0; i < 5; ++i) if (had[i] && i != 2) {
      S n = RN[i]; S p = path(n).substr(3); bool bak = symfs_exists(("/st.bak" + p + "/10s").c_str()), here = symfs_exists(("/st" + p + "/10s").c_str());
      sym_show_str("counter", n.data(), n.size()); sym_check(bak || here, "a failing deletion loses a counter's data");
      double t = filed(b.mm, (bak ? "/st.bak" : "/st") + p + "/10s"); sym_check(t == (double)val[i], "a failing deletion loses a counter's data");
      if (gone[i] && bak && !here) sym_reach("deleted");
    }
    for (int i = 0; i < 5; ++i) if (had[i] && i != 2) { b.st->record(RN[i], now - 10, 5, 25, 5, 5, 1); b.drain(); bool coll = false; double t = total(b, RN[i], coll, now - 60, now); sym_check(t == (double)val[i] + 5 || (gone[i] && t == 5), "a counter cannot be used after a failing deletion"); }
  }
  sym_reach("done"); sym_expect("done");
}
// ---------------------------------------------------------------- 6: several threads, every schedule
struct Job { Box *b; const char *rec[3]; const char *del, *pat; int lists; long t; Done done; };
static void worker(void *p) {
  Job &j = *(Job *)p;
  for (int i = 0; i < 3 && j.rec[i]; ++i) j.b->st->record(j.rec[i], j.t + i, 2, 4, 2, 2, 1);
  if (j.del) j.b->st->deleteCounter(j.del, &j.done);
  if (j.pat) j.b->st->deletePattern(j.pat, &j.done);
  for (int i = 0; i < j.lists; ++i) { L l = j.b->list("*"); std::set<S> seen; for (L::iterator q = l.begin(); q != l.end(); ++q) { sym_check(seen.insert(q->first).second, "a name is listed twice"); } sym_check(seen.count("keep"), "a counter is missing from the listing"); }
}
static void service(void *p) { Box &b = **(Box **)p; for (int i = 0; i < (int)sym_param("turns", 12) && b.svc.runnable(); ++i) b.step(0); }
static void realthreads() {
  RetentionPolicy rp("10s:2m"); Box b(true); b.st.reset(); b.svc.clear(); sym_max_preempt(sym_param("pre", 2)); long now = sym_now; bool coll; bool ev = sym_param("ev", 0); const char *X = ev ? "*x" : "x";
  b.fp.reset(new StatCounterFactory("/st", b.mm, rp)); b.open(false, 0, -1); b.drain(); b.st->record(X, now - 20, 7, 49, 7, 7, 1); b.st->record("keep", now - 20, 9, 81, 9, 9, 1); b.drain();
  Job a = {&b, {X, 0, 0}, 0, 0, 0, now - 10}, c = {&b, {0, 0, 0}, "x", 0, 0, 0}; Box *bp = &b;
  boost::sym_lock_mode() = 1; b.st->refreshKeys(); b.drain(); boost::sym_lock_mode() = 2; { boost::shared_ptr<IStatCounter> f; boost::asio::strand<io_service::executor_type> *sd; b.st->find("x", f, sd); } boost::sym_lock_mode() = 3;
  sym_now = now; int t1 = sym_thread_create(worker, &a), t2 = sym_thread_create(worker, &c), t3 = sym_thread_create(service, &bp);
  sym_thread_join(t1); sym_thread_join(t2); sym_thread_join(t3); b.drain(); boost::sym_lock_mode() = 0;
  sym_check(c.done.n == 1, "a deletion is not reported done exactly once"); sym_check(total(b, "keep", coll, now - 60, now) == 9, "a counter does not receive every sample exactly once");
  { Done d; b.st->flushAll(&d); b.drain(); }
  double t = (ev ? 10 : 1) * filed(b.mm, "/st.bak/x/10s"); sym_check(t == 7 || t == 9, "the backup of a deleted counter lacks its data");
  b.st->record(X, now - 10, 5, 25, 5, 5, 1); b.drain(); { Done d; b.st->flushAll(&d); b.drain(); } double u = (ev ? 10 : 1) * total(b, "x", coll, now - 60, now); { double w = t + u; sym_show("backup", (long)t); sym_show("now", (long)u); sym_check(ev || w == 12 || w == 14, "a counter does not receive every sample exactly once"); sym_check(u == 5 || u == 7 || (ev && u == 2), "a counter that was deleted cannot be used again"); if (w == 12) sym_reach("dropped"); if (t == 9) sym_reach("saved"); }
  sym_expect("saved"); sym_reach("joined"); sym_expect("joined");
}
static void threads() {
  int sc = sym_param("sc", 0); if (sc == 7) { realthreads(); return; } Box b(sc != 3, sc == 4 ? 1 : 0); sym_max_preempt(sym_param("pre", 2));
  b.drain(); b.st->record("keep", 1, 1, 1, 1, 1, 1); b.st->record("x", 1, 1, 1, 1, 1, 1); b.drain();
  Job a = {&b, {0, 0, 0}, 0, 0, 0, 10}, c = {&b, {0, 0, 0}, 0, 0, 0, 10}; Box *bp = &b; bool io = false;
  std::map<S, bool> live; live["keep"] = false; live["x"] = false; const char *names[3] = {"new", "x", "keep"};
  switch (sc) {
  case 0: a.rec[0] = "new"; c.del = "x"; io = true; break;
  case 1: a.rec[0] = "x"; c.del = "x"; io = true; break;
  case 2: a.lists = 2; c.del = "x"; io = true; break;
  case 3: a.rec[0] = "d.w"; c.rec[0] = "i.e"; names[0] = "d.w"; break;
  case 4: a.rec[0] = "new.v"; c.rec[0] = "new.v"; names[0] = "new.v"; break;
  case 5: a.rec[0] = "new"; a.rec[1] = "new"; c.lists = 1; break;
  case 6: a.pat = "x"; c.del = "x"; io = true; break;
  case 8: c.del = "x"; io = true; break;    // a refresh of the listing is under way
  }
  // the shards nobody else uses are not scheduling points
  boost::sym_lock_mode() = 1; { int n = 0; Done d; b.st->flushAll(&d); b.st->refreshKeys(); b.drain(); (void)n; }
  boost::sym_lock_mode() = 2; b.list("*"); for (int i = 0; i < 2; ++i) { Job &j = i ? c : a; for (int k = 0; k < 3 && j.rec[k]; ++k) { S n = j.rec[k]; do b.found(n); while (up(n)); } if (j.del) b.found(j.del); }
  b.found("keep"); boost::sym_lock_mode() = 3;
  if (sc == 8) b.st->refreshKeys();
  int t1 = sc == 8 ? sym_thread_create(service, &bp) : sym_thread_create(worker, &a), t2 = sym_thread_create(worker, &c), t3 = io ? sym_thread_create(service, &bp) : -1;
  sym_thread_join(t1); sym_thread_join(t2); if (t3 >= 0) sym_thread_join(t3);
  b.drain(); boost::sym_lock_mode() = 0;
  sym_check(a.done.n == (a.pat ? 1 : 0) && c.done.n == (c.del ? 1 : 0), "a deletion is not reported done exactly once");
  live.clear();
  const char *all[] = {"keep", "x", "new", "new.v", "d.w", "i.e", "d", "i"};
  for (int k = 0; k < 8; ++k) { Ctr *f = b.found(all[k]), *l = b.live(all[k]); sym_check(f == l, "a deleted counter is still there, or a live one cannot be found"); if (f) { live[all[k]] = false; sym_check(symfs_exists(file(f->name).c_str()), "the files of a live counter are gone"); } }
  sym_check(live.count("keep"), "a counter is lost");
  Ctr *n = b.live(names[0]);
  if (sc == 0) { sym_check(n && n->recs.size() == 1, "a counter does not receive every sample exactly once"); sym_check(!live.count("x"), "a deleted counter is still there, or a live one cannot be found"); }
  if (sc == 3) { Ctr *o = b.live("i.e"); sym_check(n && o && n->recs.size() == 1 && o->recs.size() == 1, "a counter does not receive every sample exactly once"); }
  if (sc == 4) { Ctr *o = b.live("new"); sym_check(n && o && n->recs.size() == 2 && o->recs.size() == 2, "a counter does not receive every sample exactly once"); }
  if (sc == 5) sym_check(n && n->recs.size() == 2, "a counter does not receive every sample exactly once");
  listed(b, live);
  b.st->record("x", 5, 5, 25, 5, 5, 1); b.drain(); sym_check(b.live("x") && b.live("x")->recs.back().t == 5, "a counter that was deleted cannot be used again"); live["x"] = false; listed(b, live);
  sym_reach("joined"); sym_expect("joined");
}
int sym_main() {
  sym_now = 1000000;
  switch (sym_param("mode", 0)) { case 0: sequence(); break; case 1: overlap(); break; case 2: flushing(); break; case 3: names(); break; case 4: restart(); break; case 5: pruning(); break; case 6: threads(); break; case 8: real(); break; case 7: burst(); break; }
  return 0;
}
