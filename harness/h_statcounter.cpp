// Counters: real StatCounter over real StatFiles on an in-memory file system
#include "sym.h"
#include "symfs.h"
#include <boost/asio.hpp>
#include "daemon/StatCounter.h"
#include "daemon/StatCounterFactory.h"
#include "daemon/IStatStore.h"
#include "daemon/Retention.h"
#include <istat/StatFile.h>
#include <istat/Mmap.h>
#include <istat/istattime.h>
#include <stdexcept>
#include <vector>
#include <map>
#include <set>
#include <string.h>
#include <stdio.h>
using namespace istat;
extern "C" long sym_now;
struct Store : NullStatStore { ~Store() {} };
static Mmap *mm;
static boost::shared_ptr<IStatStore> store;
static const long Z = 1699999200 / 64 * 64;   // aligned to both intervals
static const long IV = 8, CV = 64, FX = CV / IV;
static void setup() { mm = NewMmap(); mm->setAllocationStrategy(allocateSparse); store = boost::shared_ptr<IStatStore>(new Store()); symfs_mkdirs("s"); }
static long mini(long a, long b) { return sym_ite(a < b, a, b); }
static long maxi(long a, long b) { return sym_ite(a > b, a, b); }
static Bucket readOne(const char *path, long t) {
  Stats st; StatFile f(path, st, mm, false);
  Bucket b(true); long n = f.readBuckets(&b, 1, f.mapTimeToBucketIndex(t));
  if (n < 1 || b.time() != t) return Bucket(true);
  return b;
}
// ---------------------------------------------------------------- collated conservation
static void collated(bool restart) {
  int k = sym_param("k", 3);
  RetentionPolicy rp("8s:1h,64s:1d");
  sym_now = Z + 1000 * IV;
  boost::shared_ptr<StatCounter> c(new StatCounter("s/c", true, Z, mm, rp));
  std::set<long> lost;           // intervals with events from before and after a restart
  std::map<long, long> sum;      // interval index -> total of accepted events
  bool init = false; long w0 = 0, top = 0, minNext = 0;
  static const long adv[] = {0, IV, 5 * IV, 12 * IV};
  for (int i = 0; i < k; ++i) {
    if (i) { long a = i == 1 && sym_param("a1", -1) >= 0 ? sym_param("a1", 0) : (long)sym_choose(4, "advance"); sym_now += adv[a]; }
    int op = i ? sym_choose(restart ? 4 : 3, "op") : 0;
    if (op == 1) { c->flush(store); if (init) { long n = (sym_now + IV * 2 - Z) / IV - 4; if (n > w0) w0 = n; } sym_reach("flush"); continue; }
    if (op == 2) { c->forceFlush(store); if (init) { w0 += 5; long n = (sym_now + IV * 2 - Z) / IV - 4; if (n > w0) w0 = n; } sym_reach("forceflush"); continue; }
    if (op == 3) { c.reset(); c.reset(new StatCounter("s/c", true, Z, mm, rp)); if (init) minNext = top + 1; init = false; sym_reach("restart"); continue; }
    static const long back[] = {-2, -1, 0, 2, 4, 5, 9};
    long ix = (sym_now - Z) / IV - back[!i && sym_param("f0", -1) >= 0 ? sym_param("f0", 0) : (long)sym_choose(7, "back")], t = Z + ix * IV + sym_long(0, IV - 1, "second");   // any second of the interval
    long v = sym_long(-1000000, 1000000, "value");
    bool want = t <= sym_now + IV && (!init || ix >= w0);
    if (restart && want && ix < minNext) { if (sum.count(ix)) lost.insert(ix); sym_reach("same interval"); }
    if (init && t > sym_now + IV) sym_reach("future");
    if (init && ix < w0) sym_reach("past");
    c->record(t, (double)v, 0, 0, 0, 1);
    sym_show("t", t - Z); sym_show("want", want);
    if (want) { if (!init) { init = true; w0 = ix - 4; top = ix; } else if (ix - 4 > w0) { w0 = ix - 4; } if (ix > top) top = ix; sum[ix] += v; if (sum.size() > 1) sym_reach("several"); }
  }
  c->forceFlush(store);
  c.reset();
  long lo = sum.empty() ? 0 : sum.begin()->first, hi = sum.empty() ? -1 : sum.rbegin()->first;
  std::map<long, long> coarse; 
  for (std::map<long, long>::iterator p = sum.begin(); p != sum.end(); ++p) coarse[p->first / FX] += p->second;
  for (long i = lo; i <= hi; ++i) {
    Bucket b = readOne("s/c/8s", Z + i * IV);
    std::map<long, long>::iterator p = sum.find(i);
    if (lost.count(i)) continue;
    if (p == sum.end()) sym_check(b.count() == 0 || b.sum() == 0, "an interval without events reports events");
    else {
      sym_check(b.count() == 1, "an interval with events has no data or more than one total");
      sym_check(b.sum() * (double)IV == (double)p->second, "events of an interval lost, doubled or misplaced");
      sym_check(sym_and(b.min() == (float)b.sum(), b.max() == (float)b.sum()), "extremes of a collated interval differ from its total");
    }
  }
  for (long i = lo - 6; i < lo; ++i) { Bucket b = readOne("s/c/8s", Z + i * IV); sym_check(b.count() == 0 || b.sum() == 0, "an interval before the first event reports events"); }
  for (std::map<long, long>::iterator p = coarse.begin(); p != coarse.end(); ++p) {
    Bucket b = readOne("s/c/64s", Z + p->first * CV);
    sym_show("coarse interval", p->first);
    sym_check(b.count() == FX, "coarse interval misses its fixed sample count");
    sym_check(b.sum() * (double)IV == (double)p->second, "coarse interval does not hold the total of its events");
  }
  for (std::set<long>::iterator p = lost.begin(); p != lost.end(); ++p) sym_check(readOne("s/c/8s", Z + *p * IV).sum() * (double)IV == (double)sum[*p], "[K2] events of an interval from before a restart lost at the finest level");
  if (!sum.empty()) { Bucket b = readOne("s/c/64s", Z + (lo / FX - 1) * CV); sym_check(b.sum() == 0, "coarse interval before the first event reports events"); }
  sym_expect("several"); if (sym_param("a1", -1) < 0) { sym_expect("future"); sym_expect("past"); } sym_expect("flush"); sym_expect("forceflush");
  if (restart) sym_expect("restart");
}
// ---------------------------------------------------------------- gauges reach every retention level or none
struct Agg { long sum, sq, mn, mx, cnt; Agg() : sum(0), sq(0), mn(0), mx(0), cnt(0) {} };
static void same(Bucket const &b, Agg const &a, const char *w) {
  sym_check(sym_and(b.count() == a.cnt, sym_and(b.sum() == (double)a.sum, sym_and(b.sumSq() == (float)a.sq, sym_and(b.min() == (float)a.mn, b.max() == (float)a.mx)))), w);
}
static void add(std::map<long, Agg> &m, long ix, long s, long q, long mn, long mx, long c) {
  bool first = !m.count(ix); Agg &a = m[ix];
  if (first) { a.sum = s; a.sq = q; a.mn = mn; a.mx = mx; a.cnt = c; return; }
  a.sum += s; a.sq += q; a.mn = mini(a.mn, mn); a.mx = maxi(a.mx, mx); a.cnt += c;
}
static void gauges() {
  int k = sym_param("k", 2);
  RetentionPolicy rp("10s:1h,60s:1d,5m:30d");
  long Z0 = 1699999200; sym_now = Z0 + 100000;
  boost::shared_ptr<StatCounter> c(new StatCounter("s/g", false, Z0, mm, rp));
  static const long ivs[] = {10, 60, 300}; static const long N[] = {512, 1536, 8704}; static const char *names[] = {"s/g/10s", "s/g/60s", "s/g/5m"};
  std::map<long, Agg> m[3]; long last[3] = {0, 0, 0};
  static const long rel[] = {61, 60, 0, -1, -10, -50, -300, -5120, -5130, -92160};
  bool restart = k > 1 && sym_choose(2, "restart");
  for (int i = 0; i < k; ++i) {
    if (i && restart) { c.reset(); c.reset(new StatCounter("s/g", false, Z0, mm, rp)); }
    long r = !i && sym_param("w0", -1) >= 0 ? sym_param("w0", 0) : (long)sym_choose(10, "when"); long t = sym_now + rel[r];
    int kind = sym_choose(4, "kind");   // 0,1 sensible, 2 no samples, 3 min above max
    long v = sym_long(-100, 100, "value");
    long cnt = kind == 1 ? 2 : kind == 2 ? 0 : 1, s = v, mn = v, mx = v, q = sym_long(0, 200, "sumsq");
    if (kind == 1) { long w = sym_long(-100, 100, "other"); s = v + w; mn = mini(v, w); mx = maxi(v, w); }
    if (kind == 3) { mn = v + 10; mx = v; }
    bool ok = rel[r] <= 60 && kind < 2;
        c->record(t, (double)s, (double)q, (double)mn, (double)mx, cnt);
    if (!ok) { sym_reach("rejected"); continue; }
    for (int f = 0; f < 3; ++f) {
      long ix = (t - Z0) / ivs[f];
      if (ix > last[f]) last[f] = ix;
      if (ix > last[f] - N[f]) add(m[f], ix, s, q, mn, mx, cnt);
      else sym_reach("too old for one level");
    }
    sym_reach("accepted");
  }
  c->flush(store); c.reset();
  for (int f = 0; f < 3; ++f) {
    for (std::map<long, Agg>::iterator p = m[f].begin(); p != m[f].end(); ++p) {
      if (p->first <= last[f] - N[f]) continue;
      sym_show("level", f); sym_show("slot", p->first);
      same(readOne(names[f], Z0 + p->first * ivs[f]), p->second, "a retention level differs from the accepted samples");
    }
    for (int r = 0; r < 10; ++r) {
      long ix = (sym_now + rel[r] - Z0) / ivs[f];
      if (!m[f].count(ix)) sym_check(readOne(names[f], Z0 + ix * ivs[f]).count() == 0, "an interval without accepted samples has data");
    }
  }
  sym_expect("accepted"); sym_expect("rejected"); if (k > 1) sym_expect("too old for one level");
}
// ---------------------------------------------------------------- range normalisation
static void normalize() {
  RetentionPolicy rp("10s:1h");
  sym_now = 1699999200 + 100;
  StatCounter c("s/n", false, 1699999200, mm, rp);
  static const long ivs[] = {0, 1, 7, 10, 60, 3600}; static const long mxs[] = {0, 1, 2, 3, 100, 1000};
  long iv = ivs[sym_choose(6, "interval")]; long mx = mxs[sym_choose(6, "max")];
  static const long bases[] = {0, 3580, 1699999200, 4294967290, 9223372036854775807 - 4000100}; static const long lens[] = {0, 1, 10, 3600, 86400, 4000000, 4000060};
  long bi = sym_choose(5, "base"), li = sym_choose(7, "len");
  long start = bases[bi] + sym_long(0, 20, "dstart"), len = lens[li] + sym_long(0, 20, "dlen");
  long end = start + len; bool edge = bi == 4 && li >= 5;   // the rounded end may not be representable
  time_t s = start, e = end, i = iv;
  c.normalizeRange(s, e, i, mx);
  sym_show("start", start); sym_show("end", end); sym_show("out start", s); sym_show("out end", e); sym_show("out interval", i);
  long need = edge ? end - i : end;
  sym_check(i > 0, "interval of the reply is not positive");
  sym_check(e >= s, "normalised range is backwards");
  sym_check(s <= start && e >= need, "normalised range does not cover the request");
  if (mx != 1) {
    sym_check((e - s) % i == 0, "normalised range is not a whole number of intervals");
    sym_check(s % i == 0, "normalised start is not aligned");
    sym_check(i >= iv, "reply interval is finer than the file's");
    if (mx && iv != 7) sym_check((e - s) / i <= mx + 2 || i >= 86400, "more buckets than asked for");
    long slack = iv == 7 ? 2 * i : i;
    sym_check(start - s < slack && e - slack < end, "normalised range is more than one interval too wide");
    sym_reach("many");
  } else { sym_check(e - s == i || len == 0, "a single bucket was asked for"); sym_reach("single"); }
  sym_expect("many"); sym_expect("single");
}
// ---------------------------------------------------------------- select
static void selectRange() {
  bool coll = sym_param("coll", 0);
  RetentionPolicy rp("8s:1h,64s:1d");
  long N0 = 512, N1 = 1536;
  sym_now = Z + 2000 * IV;
  boost::shared_ptr<StatCounter> c(new StatCounter("s/q", coll, Z, mm, rp));
  // two samples at fixed relative places; values symbolic
  long edge = 1989; while ((Z + edge * IV) % 120) --edge; // starts an interval of a reduced reply, too
  const long at[] = {1990, 1989, edge, 1600};
  long a = sym_choose(4, "a"), b = sym_choose(4, "b");
  if (b >= a) sym_assume(b == a + 1 || b == 3 || b == a);
  std::map<long, Agg> f; 
  long slots[2] = {at[a], at[b]}; if (slots[0] > slots[1]) { long t = slots[0]; slots[0] = slots[1]; slots[1] = t; }
  long vals[2];
  for (int i = 0; i < 2; ++i) {
    vals[i] = sym_long(-1000, 1000, "value");
    sym_now = Z + slots[i] * IV; 
    c->record(Z + slots[i] * IV, (double)vals[i], (double)1, (double)vals[i], (double)vals[i], 1);
    if (coll) { bool had = f.count(slots[i]); Agg &g = f[slots[i]]; g.sum = had ? g.sum + vals[i] : vals[i]; g.cnt = 1; }
    else add(f, slots[i], vals[i], 1, vals[i], vals[i], 1);
  }
  sym_now = Z + 2000 * IV;
  c->flush(store);
  static const long so[] = {0, 1500, 1599, 1600, 1601, 1979, 1985, 1989, 1990, 1991, 2500}; static const long ln[] = {0, 1, 2, 8, 11, 100, 400};
  long si = sym_choose(sym_param("ns", 11), "start"), li = sym_choose(7, "len"); static const long ms[] = {0, 1, 2, 5, 1000};
  long mi = sym_choose(5, "max");
  long start = Z + so[si] * IV + 3, end = start + ln[li] * IV;
  std::vector<Bucket> out; time_t ns = -1, ne = -1, iv = 0;
  c->select(start, end, false, out, ns, ne, iv, ms[mi]);
  sym_show("start", so[si]); sym_show("len", ln[li]); sym_show("ns", ns - Z); sym_show("ne", ne - Z); sym_show("iv", iv); sym_show("n", out.size());
  long startIx = (start - Z) / IV; long last = slots[1];
  // chronological, distinct, inside the range, at most as many as asked for
  for (size_t i = 0; i < out.size(); ++i) {
    sym_show("  bucket", out[i].time() - Z);
    sym_check(out[i].time() >= ns, "bucket before the requested range");
    sym_check(out[i].time() <= ne, "bucket after the requested range");
    if (i) sym_check(out[i].time() > out[i - 1].time(), "buckets not in time order or repeated");
    sym_check(iv > 0 && (out[i].time() - ns) % iv == 0, "bucket not on an interval of the reply");
  }
  if (ms[mi] > 1) sym_check((long)out.size() <= ms[mi] + 2, "more buckets than asked for");
  // the finest level that still holds the start serves the request: nothing in range is lost or invented
  bool fine = startIx > last - N0 && startIx <= (coll ? 2000 : last);
  if (fine && ne > ns) {
    long total = 0, cnt = 0, wantTotal = 0, wantCnt = 0; bool odd = false;
    double got = 0;
    for (size_t i = 0; i < out.size(); ++i) { if (out[i].time() < ne) { got += out[i].sum(); cnt += out[i].count(); } }
    for (std::map<long, Agg>::iterator p = f.begin(); p != f.end(); ++p) { long t = Z + p->first * IV; if (t >= ns && t < ne) { wantTotal += p->second.sum; wantCnt += p->second.cnt; } }
    sym_show("ncnt", cnt); sym_show("want", wantCnt);
    if (coll) sym_check(got * (double)IV == (double)wantTotal, "samples of the range lost or invented");
    else { sym_check(got == (double)wantTotal, "samples of the range lost or invented"); sym_check(cnt == wantCnt, "sample count of the range wrong"); }
    // each reply bucket holds exactly the samples of its own interval
    for (size_t i = 0; i < out.size(); ++i) {
      long w = 0, n = 0; for (std::map<long, Agg>::iterator p = f.begin(); p != f.end(); ++p) { long t = Z + p->first * IV; if (t >= out[i].time() && t < out[i].time() + iv) { w += p->second.sum; ++n; } }
      if (coll) { sym_check(iv == IV || out[i].count() == iv / IV, "an event counter's reply bucket does not count all its intervals"); sym_check(out[i].sum() * (double)IV == (double)w, "reply bucket does not hold the samples of its interval"); }
      else { sym_check(n > 0 || out[i].count() == 0, "reply bucket for an interval without samples"); sym_check(out[i].sum() == (double)w, "reply bucket does not hold the samples of its interval"); }
    }
    if (wantCnt) sym_reach("data");
    if (iv > IV && wantCnt) sym_reach("reduced");
  }
  sym_expect("data"); sym_expect("reduced");
}
int sym_main() {
  setup();
  switch (sym_param("mode", 0)) {
    case 0: collated(false); break;
    case 1: gauges(); break;
    case 2: normalize(); break;
    case 3: selectRange(); break;
    case 4: collated(true); break;
  }
  return 0;
}
