// Ring files: real StatFile + Mmap + Bucket on an in-memory file system
#include "sym.h"
#include "symfs.h"
#include <istat/StatFile.h>
#include <istat/Mmap.h>
#include <istat/istattime.h>
#include <stdexcept>
#include <vector>
#include <string.h>
using namespace istat;
extern "C" long sym_now;
static const long BPP = 8192 / sizeof(Bucket), NN = 2 * BPP; // slots per page, slots per file
static const long Z = 1699999200; // creation time (a multiple of every interval used)
static const char *F = "f.bin";
struct M { long slot, sum, sq, mn, mx, cnt; };           // model: one aggregated slot
struct Model {
  long N, last; M m[8]; int n; long csum, csq, ccnt; int flags; long fixed;
  Model(long N_) : N(N_), last(0), n(0), csum(0), csq(0), ccnt(0), flags(0), fixed(0) {}
  M *find(long s) { for (int i = 0; i < n; ++i) if (m[i].slot == s) return &m[i]; return 0; }
  bool inWindow(long s) { return s > last - N && s <= last; }
};
static long mini(long a, long b) { return sym_ite(a < b, a, b); }
static long maxi(long a, long b) { return sym_ite(a > b, a, b); }
static Mmap *mm;
static StatFile::Settings sett(int interval, int samples, int flags) { StatFile::Settings s; s.zeroTime = Z; s.intervalTime = interval; s.numSamples = samples; s.flags = flags; return s; }
static M val(long slot) { M v; v.slot = slot; v.sum = sym_long(-1000, 1000, "sum"); v.sq = sym_long(0, 1000, "sumsq"); v.mn = sym_long(-1000, 1000, "min"); v.mx = sym_long(-1000, 1000, "max"); v.cnt = sym_long(1, 100, "count"); return v; }
static Bucket bk(M const &v, long t) { return Bucket((double)v.sum, (float)v.sq, (float)v.mn, (float)v.mx, (int)v.cnt, t); }
static void same(Bucket const &b, M const &v, long t, const char *what) {
  int ok = sym_and(b.time() == t, sym_and(b.sum() == (double)v.sum, sym_and(b.sumSq() == (float)v.sq, sym_and(b.count() == v.cnt, sym_and(b.min() == (float)v.mn, b.max() == (float)v.mx)))));
  sym_check(ok, what);
}
static bool put(StatFile &f, Model &md, long slot, int iv, RawUpdateMode mode, bool aligned = false) {
  M v = val(slot); long rem = !aligned && !(md.flags & FILE_FLAG_IS_COLLATED) ? sym_long(0, iv - 1, "offset_in_interval") : 0; // imported and collated records carry interval starts
  long t = Z + slot * iv + rem;
  bool r = f.rawUpdateBucket(bk(v, t), mode);
  if (slot > md.last) md.last = slot;
  bool want = md.inWindow(slot);
  sym_show("slot", slot); sym_show("accepted", r);
  sym_check(r == want, "record inside the retained window rejected, or older one accepted");
  if (!want) return r;
  M *o = md.find(slot);
  bool counted = true;
  if (!o) {
    if (md.n >= 8) sym_incomplete("model table full");
    md.m[md.n++] = v;
    if (mode == RAWUP_AGGREGATE && (md.flags & FILE_FLAG_IS_COUNTER_AGGREGATE)) md.m[md.n - 1].cnt = md.fixed;
  } else if ((md.flags & FILE_FLAG_IS_COLLATED) && mode != RAWUP_ONLY_IF_EMPTY) *o = v;
  else if (mode == RAWUP_OVERWRITE) *o = v;
  else if (mode == RAWUP_ONLY_IF_EMPTY) counted = false;
  else {
    o->sum += v.sum; o->sq += v.sq; o->mn = mini(o->mn, v.mn); o->mx = maxi(o->mx, v.mx);
    o->cnt = (md.flags & FILE_FLAG_IS_COUNTER_AGGREGATE) ? md.fixed : o->cnt + v.cnt;
  }
  if (counted) { md.csum += v.sum; md.csq += v.sq; md.ccnt += v.cnt; }
  return r;
}
// modes that overwrite keep the time of the supplied bucket
static void verify(StatFile &f, Model &md, int iv, bool exactTime) {
  sym_check(f.settings().numSamples == md.N && f.settings().intervalTime == iv, "settings of the file changed");
  sym_check(f.lastBucket() == md.last, "newest slot wrong");
  if (md.last > 0) sym_check(f.lastBucketTime() == Z + md.last * iv, "newest time wrong");
  std::vector<Bucket> all(md.N);
  long first = md.last - md.N + 1;
  int64_t n = f.readBuckets(&all[0], md.N, first);
  sym_check(n == md.N, "window cannot be read back in full");
  int used[8]; for (int i = 0; i < 8; ++i) used[i] = 0;
  for (long k = 0; k < md.N; ++k) {
    long s = first + k, t = Z + s * iv;
    M *m = md.find(s);
    if (m) {
      if (exactTime) same(all[k], *m, t, "recorded interval does not read back as recorded");
      else { sym_check(sym_and(all[k].time() >= t, all[k].time() < t + iv), "slot carries a foreign time"); same(all[k], *m, all[k].time(), "recorded interval does not read back as recorded"); }
    } else sym_check(sym_or(all[k].time() < t, all[k].time() >= t + iv), "data appeared in an interval nothing was recorded in");
  }
  Header const &h = f.header();
  sym_check(sym_and(h.cumulative_sum == (double)md.csum, sym_and(h.cumulative_sum_sq == (double)md.csq, h.cumulative_count == md.ccnt)), "running totals do not match what was accepted");
  sym_check(h.last_bucket == md.last && h.first_bucket <= h.last_bucket && h.last_bucket - h.first_bucket < md.N, "header window inconsistent");
}
static const long SLOTS[] = {0, 1, (BPP-1), BPP, (NN-1), NN, (NN+1), (2*NN-1), (2*NN), 5000, -1, -2, -BPP, -(NN-1), -NN, -(NN+1)};
static const int NSL = sizeof(SLOTS) / sizeof(SLOTS[0]);
static long pickSlot(const char *n, int p) { return p >= 0 ? SLOTS[p % NSL] : SLOTS[sym_choose(NSL, n)]; }
static void t_record() {
  int flags = sym_param("flags", 0), iv = sym_param("iv", 10), k = sym_param("k", 2), rel = sym_param("rel", 0);
  StatFile::Settings s = sett(iv, sym_param("samples", 300), flags); s.fixed_count = 7;
  Model md(NN); md.flags = flags; md.fixed = 7;
  { StatFile f(F, Stats(), s, mm);
    for (int i = 0; i < k; ++i) {
      long sl = pickSlot("slot", i == 0 ? sym_param("s0", -1) : -1);
      if (rel && i > 0) sl += md.last; // relative to the newest slot
      put(f, md, sl, iv, RAWUP_AGGREGATE);
    }
    verify(f, md, iv, !(flags & FILE_FLAG_IS_COLLATED));
    int how = sym_choose(3, "persist"); // 0 just closed, 1 flushed first, 2 flush and then one more record
    if (how) f.flush();
    if (how == 2) put(f, md, md.last, iv, RAWUP_AGGREGATE);
  }
  sym_check(symfs_open_fds() == 0, "file left open");
  StatFile g(F, Stats(), mm, false);
  int w0 = symfs_mutations;
  verify(g, md, iv, !(flags & FILE_FLAG_IS_COLLATED));
  sym_check(symfs_mutations == w0, "reading changed the file");
}
static void t_raw() { // import modes: overwrite, fill-empty, only-if-empty
  static const RawUpdateMode ms[] = {RAWUP_AGGREGATE, RAWUP_OVERWRITE, RAWUP_FILL_EMPTY, RAWUP_ONLY_IF_EMPTY};
  int iv = 10; StatFile::Settings s = sett(iv, 300, 0); Model md(NN); StatFile f(F, Stats(), s, mm);
  long sl = pickSlot("slot", -1); RawUpdateMode m1 = ms[sym_choose(4, "mode")];
  put(f, md, sl, iv, m1, true);
  long same_ = sym_choose(2, "same") ? md.last : md.last + 3; RawUpdateMode m2 = ms[sym_choose(4, "mode")];
  put(f, md, same_, iv, m2, true);
  if (sym_param("k", 2) > 2) { RawUpdateMode m3 = ms[sym_choose(4, "mode")]; put(f, md, md.last, iv, m3, true); }
  verify(f, md, iv, false);
}
static void t_arith() { // slot arithmetic for any time
  int iv = sym_param("iv", 10);
  StatFile::Settings s = sett(iv, 300, 0); StatFile f(F, Stats(), s, mm);
  Model md(NN); put(f, md, SLOTS[sym_choose(4, "slot")], iv, RAWUP_AGGREGATE);
  long span = sym_param("span", 1 << 13); long t = sym_long(Z - span, Z + span, "t");
  long ix = f.mapTimeToBucketIndex(t), t0 = f.mapBucketIndexToTime(ix);
  sym_check(sym_and(t0 <= t, t < t0 + iv), "time not inside the interval of its slot");
  long up = f.mapTimeToBucketIndex(t, true), t1 = f.mapBucketIndexToTime(up);
  sym_check(sym_and(t1 >= t, t1 < t + iv), "rounding up does not give the next boundary");
  bool in = f.isBucketIndexInFile(ix);
  sym_check(in == (bool)(int)sym_and(t >= Z + (md.last - md.N + 1) * iv, t < Z + (md.last + 1) * iv), "window test wrong");
  long fi = f.mapBucketIndexToFileIndex(ix);
  sym_check(in ? sym_and(fi >= 0, fi < md.N) : fi == -1, "slot mapped outside the file");
}
static void t_range() { // readBuckets of any sub-range: what is inside the window, in time order, nothing else
  int iv = 10; StatFile::Settings s = sett(iv, 300, 0); Model md(NN); StatFile f(F, Stats(), s, mm);
  static const long first[] = {0, 3, BPP, (NN-1), NN, 700, 1000}; 
  long base = first[sym_choose(7, "slot")];
  put(f, md, base, iv, RAWUP_AGGREGATE);
  long d = sym_choose(2, "d") ? 1 : NN-2;
  put(f, md, base + d, iv, RAWUP_AGGREGATE);
  static const long offs[] = {-2*NN, -NN-4, -(NN+1), -NN, -(NN-1), -(NN-2), -(BPP+1), -BPP, -2, -1, 0, 1, 2, 500};
  static const int cnts[] = {1, 2, 5, BPP, BPP+1, (NN-1), NN, (NN+1), 600, 1200};
  long st = md.last + offs[sym_choose(14, "start")]; int cnt = cnts[sym_choose(10, "cnt")];
  sym_show("start", st); sym_show("cnt", cnt);
  long lo = st, hi = st + cnt; if (lo < md.last - md.N + 1) lo = md.last - md.N + 1;
  Bucket *buf = new Bucket[cnt]; memset((void *)buf, 0, cnt * sizeof(Bucket));
  int64_t n = f.readBuckets(buf, cnt, st);
  sym_check(n >= 0 && n <= cnt, "bucket count out of range");
  std::vector<long> seen;
  for (long i = 0; i < n; ++i) for (int j = 0; j < md.n; ++j) {
    long t = Z + md.m[j].slot * iv;
    if (buf[i].time() == t && md.m[j].slot >= st && md.m[j].slot < hi) { seen.push_back(j); same(buf[i], md.m[j], t, "wrong data read"); }
  }
  int want = 0; long prev = -1;
  for (int j = 0; j < md.n; ++j) if (md.inWindow(md.m[j].slot) && md.m[j].slot >= lo && md.m[j].slot < hi) ++want;
  sym_check((long)seen.size() == want, "range read misses or duplicates a recorded interval");
  for (size_t i = 0; i < seen.size(); ++i) { sym_check(seen[i] > prev, "buckets not in time order"); prev = seen[i]; }
  delete[] buf;
}
// ---- opening arbitrary files
static void okName(Header &h) { memset(&h, 0, sizeof h); memcpy(h.magic, file_magic, sizeof file_magic); h.hdr_size = sizeof(Header); h.cfg_interval = 10; h.cr_version = CUR_HDR_VERSION; h.rd_version = RD_HDR_VERSION; h.page_size = 8192; h.page_count = 2; h.file_create_time = Z; }
static void t_foreign() { // a file that is not a ring file is refused and left exactly as it was
  static const long sizes[] = {1, 15, 16, 100, (long)sizeof(Header) - 1, (long)sizeof(Header), 5000, 24576, 40000};
  long size = sizes[sym_choose(9, "size")];
  unsigned char hd[sizeof(Header)]; Header &h = *(Header *)hd; okName(h);
  long hn = size < (long)sizeof hd ? size : (long)sizeof hd;
  static const long ps[] = {8192, 0, 4096, 1 << 20, -8192, 0x7878787878787878L}, pc[] = {2, 0, 1, 1000};
  h.page_size = ps[sym_choose(6, "page_size")]; h.page_count = pc[sym_choose(4, "page_count")];
  int kind = sym_choose(2, "kind");
  if (kind == 0) { int at = sym_choose(16, "at"); unsigned char c; sym_make(&c, 1, "b"); sym_assume(c != (unsigned char)h.magic[at]); h.magic[at] = c; if (at >= hn) return; }
  else { h.rd_version = sym_long(CUR_HDR_VERSION + 1, 1000000, "version"); if (hn < (long)sizeof hd) return; }
  bool full = size >= (long)sizeof(Header);
  char z = 'y'; for (long i = 0; i < size; i += 997) symfs_put(F, i, &z, 1);
  symfs_put(F, 0, hd, hn); symfs_resize(F, size);
  unsigned char *before = new unsigned char[size], *after = new unsigned char[size];
  symfs_read(F, 0, before, size);
  int how = sym_choose(3, "how"); bool threw = false;
  sym_uninit(0);
  try {
    if (how == 0) { StatFile f(F, Stats(), mm, false); }
    else if (how == 1) { StatFile f(F, Stats(), mm, true); }
    else { StatFile::Settings s = sett(10, 300, 0); StatFile f(F, Stats(), s, mm); }
  } catch (std::exception const &) { threw = true; }
  sym_check(threw, full ? "foreign file accepted" : "truncated file accepted");
  sym_check(symfs_size(F) == size, "size of a foreign file changed");
  symfs_read(F, 0, after, size);
  sym_check(memcmp(before, after, size) == 0, "content of a foreign file changed");
  sym_check(symfs_open_fds() == 0, "refused file left open");
  delete[] before; delete[] after;
}
static void t_header() { // right magic, arbitrary numbers: no crash, no out-of-range access, whatever is then done with it
  Header h; okName(h);
  static const int ivs[] = {10, 1, 300, 0, -10, 2147483647};
  static const long ps[] = {8192, 4096, 0, -8192, 16384, 100};
  static const long pc[] = {2, 3, 1, 0, -1};
  static const long fb[] = {0, 5, -7, 4000000};
  h.cfg_interval = ivs[sym_choose(6, "interval")]; h.page_size = ps[sym_choose(6, "page_size")]; h.page_count = pc[sym_choose(5, "page_count")];
  h.last_bucket = fb[sym_choose(4, "last")]; h.first_bucket = h.last_bucket; h.last_time = Z + h.last_bucket * 10;
  h.flags = sym_param("flags", 0); h.season = 86400; h.lambda = 0.5;
  h.cr_version = sym_choose(2, "cr") ? 5 : 8;
  symfs_put(F, 0, &h, sizeof h); long sz[] = {(long)sizeof h, 8192, 24576, 32768}; symfs_resize(F, sz[sym_choose(4, "size")]);
  try {
    StatFile f(F, Stats(), mm, true);
    long t = Z + sym_choose(2, "slot") * 10 + h.last_bucket * 10;
    f.updateBucket(Bucket(1, 1, 1, 1, 1, t));
    f.flush();
    Bucket b[3]; f.readBuckets(b, 3, f.lastBucket() - 2);
    sym_reach("accepted");
  } catch (std::exception const &) { sym_reach("refused"); }
}
static void t_readonly() { // a read-only open never writes, even on destruction
  StatFile::Settings s = sett(10, 300, 0);
  { StatFile f(F, Stats(), s, mm); f.updateBucket(Bucket(1, 1, 1, 1, 1, Z)); }
  int w = symfs_mutations;
  { StatFile f(F, Stats(), mm, false);
    bool threw = false; try { f.updateBucket(Bucket(1, 1, 1, 1, 1, Z + sym_long(-5000, 5000, "t"))); } catch (std::exception const &) { threw = true; }
    sym_check(threw, "update through a read-only handle accepted");
    Bucket b[4]; f.readBuckets(b, 4, 0);
  }
  sym_check(symfs_mutations == w, "read-only open wrote to the file");
}
static void t_twoopen() { // creating over an existing file with other settings keeps the existing file
  Model md(NN); int iv = 10;
  { StatFile f(F, Stats(), sett(iv, 300, 0), mm); put(f, md, pickSlot("slot", -1), iv, RAWUP_AGGREGATE); }
  int iv2 = sym_choose(2, "iv") ? 300 : 10, n2 = sym_choose(2, "n") ? 10 : 3000; StatFile::Settings s2 = sett(iv2, n2, 0);
  s2.zeroTime = Z + 777;
  { StatFile f(F, Stats(), s2, mm); put(f, md, md.last, iv, RAWUP_AGGREGATE); verify(f, md, iv, true); }
}
static void t_create() { // created files: at least the number of samples asked for, whole pages, two or more
  static const int bpp = BPP;
  long n = sym_long(0, 3000, "samples"); int iv = sym_choose(2, "iv") ? 300 : 10; int tr = sym_param("trail", 0);
  StatFile::Settings s = sett(iv, 0, tr ? FILE_FLAG_IS_TRAILING : 0); s.numSamples = n;
  if (tr) { s.lambda = 0.5; s.season = sym_choose(2, "season") ? 86400 : 7 * 86400; }
  s.zeroTime = Z + sym_long(0, 299, "zero");
  StatFile f(F, Stats(), s, mm);
  long N = f.settings().numSamples;
  sym_check(N >= n && N % bpp == 0 && N >= 2 * bpp, "fewer samples than asked for");
  if (tr) sym_check(N * iv >= (long)s.season, "trailing file shorter than its season");
  if (!tr && n > 2 * bpp) sym_check(N < n + bpp, "file larger than needed");
  sym_check(symfs_size(F) == (N / bpp + 1) * 8192, "file size does not match the number of samples");
  sym_check(f.mapBucketIndexToTime(0) <= s.zeroTime && f.mapBucketIndexToTime(1) > s.zeroTime, "first slot does not hold the start time");
}
// ---- crash: every point between two changes to the disk
static void t_crash() {
  int iv = 10; bool many = sym_param("many", 0); long NM = many ? 4 * BPP : NN; StatFile::Settings s = sett(iv, many ? 4 * BPP : 300, 0);
  Model fl(NM), md(NM), mid(NM); bool created = false; int stage = 0;
  mm->setAllocationStrategy(sym_choose(2, "alloc") ? allocateAll : allocateSparse);
  if (sym_param("fail", 0)) symfs_fail_at = sym_choose(sym_param("ops", 16), "fail_at");
  else symfs_crash_at = sym_choose(sym_param("ops", 16), "crash_at");
  static const long S2[] = {0, 1, BPP, NM};
  try {
    StatFile *f = new StatFile(F, Stats(), s, mm); created = true;
    long s1 = many ? 0 : S2[sym_choose(4, "slot")], s2 = many ? (long)sym_choose(4, "page") * BPP + 5 : S2[sym_choose(4, "slot")];
    put(*f, md, s1, iv, RAWUP_AGGREGATE);
    if (many) { put(*f, md, sym_choose(4, "page") * BPP + 1, iv, RAWUP_AGGREGATE); put(*f, md, sym_choose(4, "page") * BPP + 2, iv, RAWUP_AGGREGATE); put(*f, md, sym_choose(4, "page") * BPP + 3, iv, RAWUP_AGGREGATE); }
    stage = 1;
    f->flush(); fl = md; stage = 2;
    put(*f, md, s2, iv, RAWUP_AGGREGATE); mid = md; stage = 3;
    f->flush(); stage = 4; fl = md;
    delete f; stage = 5;
  } catch (SymCrash const &) { }
  catch (std::exception const &) { }
  sym_show("stage", stage);
  symfs_reboot();
  // the next start must be able to open the file, and what was flushed must still be there
  try {
    StatFile g(F, Stats(), s, mm);
    sym_check(g.settings().numSamples == NM && g.settings().intervalTime == iv, "settings lost in a crash");
    std::vector<Bucket> one(1);
    for (int i = 0; i < fl.n; ++i) {
      if (!md.inWindow(fl.m[i].slot)) continue;
      long t = Z + fl.m[i].slot * iv;
      sym_check(g.isBucketIndexInFile(fl.m[i].slot) && g.readBuckets(&one[0], 1, fl.m[i].slot) == 1, "flushed interval out of reach after a crash");
      if (sym_param("fail", 0)) continue;
      M *now = mid.find(fl.m[i].slot);
      int a = sym_and(one[0].time() == t, sym_and(one[0].sum() == (double)fl.m[i].sum, one[0].count() == fl.m[i].cnt));
      int b = now ? sym_and(one[0].time() == t, sym_and(one[0].sum() == (double)now->sum, one[0].count() == now->cnt)) : 0;
      sym_check(sym_or(a, b), "flushed data lost or mangled by a crash");
    }
    // and it keeps working
    Model m2(NM); m2.last = g.lastBucket();
    M v = val(0); long sl = m2.last + 2;
    sym_check(g.updateBucket(bk(v, Z + sl * iv)), "record refused after a crash");
    sym_check(g.readBuckets(&one[0], 1, sl) == 1, "read after a crash"); same(one[0], v, Z + sl * iv, "record after a crash does not read back");
  } catch (std::exception const &x) { sym_show_str("what", x.what(), strlen(x.what())); sym_check(0, "file cannot be opened after a crash"); }
}
// ---- more pages in use than the page cache holds
static void t_pages() {
  int iv = 10, k = sym_param("k", 4); long np = 4, N = np * BPP; StatFile::Settings s = sett(iv, N, 0); Model md(N);
  StatFile *f = new StatFile(F, Stats(), s, mm);
  for (int i = 0; i < k; ++i) {
    long pg = sym_choose(np, "page"), off = sym_choose(2, "edge") ? BPP - 1 : i;
    put(*f, md, pg * BPP + off, iv, RAWUP_AGGREGATE);
    if (i == 1 && sym_choose(2, "flush")) f->flush();
  }
  for (int r = 0; r < 2; ++r) {
    std::vector<Bucket> all(N); long first = md.last - N + 1;
    if (first < 0) first = 0;
    long cnt = md.last - first + 1;
    sym_check(f->readBuckets(&all[0], cnt, first) == cnt, "window cannot be read back in full");
    for (long j = 0; j < cnt; ++j) {
      long t = Z + (first + j) * iv; M *m = md.find(first + j);
      if (!m) { if (all[j].time() >= t && all[j].time() < t + iv) sym_check(all[j].count() == 0, "interval nothing was recorded in has data"); continue; }
      same(all[j], *m, t, r ? "record lost or changed by closing" : "record does not read back");
    }
    if (!r) { delete f; f = new StatFile(F, Stats(), s, mm); }
  }
  delete f; sym_reach("pages");
}
// ---- trailing files: three newest intervals pending in memory, each one shifted out is blended with the same interval one season ago
struct TB { long slot, sum, sq, mn, mx, cnt; int lv; };  // values in units of 1/2^lv
static void t_trail() {
  int iv = 10; long season = sym_param("season", 5120), samples = sym_param("samples", 300); int k = sym_param("k", 5);
  StatFile::Settings s = sett(iv, samples, FILE_FLAG_IS_TRAILING); s.season = season; s.lambda = 0.5;
  StatFile f(F, Stats(), s, mm);
  long N = f.settings().numSamples, S = season / iv, last = 0; int fresh = 0;
  sym_check(N * iv >= season, "trailing file shorter than its season");
  TB pend[3], disk[16]; int nd = 0; for (int i = 0; i < 3; ++i) pend[i].slot = -1;
  long base = sym_choose(2, "base") ? 3 : BPP - 1, rel[] = {0, 1, S, N - 1, N, BPP, -1};
  long used[16]; int nu = 0, bad = 0;
  for (int step = 0; step < k + 3; ++step) {
    bool fl = step >= k; TB nw; long slot = 0; int hit = -1;
    if (!fl) {
      slot = step == 0 ? base : last + rel[sym_choose(sym_param("rels", 7), "rel")];
      long v = sym_long(-100, 100, "v"); long q = 256; nw.slot = slot; nw.lv = 0; nw.sum = v; nw.sq = q; nw.mn = v; nw.mx = v; nw.cnt = 1;
      long t = Z + slot * iv + sym_long(0, iv - 1, "off");
      sym_check(f.updateBucket(Bucket((double)v, (float)q, (float)v, (float)v, 1, t)), "record refused");
      if (slot > last) last = slot;
      for (int i = 0; i < 3; ++i) if (pend[i].slot == slot) hit = i;
      if (hit >= 0) { TB &p = pend[hit]; p.sum += v; p.sq += q; p.mn = sym_ite(p.mn < v, p.mn, v); p.mx = sym_ite(p.mx > v, p.mx, v); p.cnt++; continue; }
      for (int i = 0; i < nu; ++i) if (used[i] == slot) bad = 1; // came back after it was written: not specified
      used[nu++] = slot;
    } else f.flush();
    if (bad) return;
    TB e = pend[0]; pend[0] = pend[1]; pend[1] = pend[2]; if (fl) pend[2].slot = -1; else pend[2] = nw;
    if (e.slot < 0 || e.slot <= last - N) continue;
    for (int i = 0; i < nd; ++i) if (disk[i].slot == e.slot - S && e.slot - S > last - N) {
      TB &o = disk[i]; long w = 1L << o.lv; e.sum = o.sum + w * e.sum; e.sq = o.sq + w * e.sq; e.mn = o.mn + w * e.mn; e.mx = o.mx + w * e.mx; e.cnt = (o.cnt + e.cnt + 1) / 2; e.lv = o.lv + 1; break; }
    disk[nd++] = e;
  }
  std::vector<Bucket> all(N); long first = last - N + 1;
  sym_check(f.readBuckets(&all[0], N, first) == N, "window cannot be read back in full");
  for (long j = 0; j < N; ++j) {
    long sl = first + j, t = Z + sl * iv; TB *m = 0; for (int i = 0; i < nd; ++i) if (disk[i].slot == sl) m = &disk[i];
    Bucket &b = all[j];
    if (!m) { sym_check(sym_or(b.time() < t, b.time() >= t + iv), "data appeared in an interval nothing was recorded in"); continue; }
    sym_show("slot", sl); sym_show("cnt", b.count());
    sym_check(b.time() == t && b.count() == m->cnt, "trailing interval missing or miscounted");
    double w = 1L << m->lv;
    sym_check(sym_and(b.sum() * w == (double)m->sum, sym_and(b.min() * w == (double)m->mn, b.max() * w == (double)m->mx)), "trailing interval is not the blend with the season before");
    sym_check(b.sumSq() * w == (double)m->sq, "trailing sum of squares is not the blend with the season before");
  }
  sym_reach("trailing");
}
int sym_main() {
  sym_now = Z + 4000; mm = NewMmap(); mm->setAllocationStrategy(allocateSparse);
  switch (sym_param("mode", 0)) {
  case 0: t_record(); break;
  case 1: t_raw(); break;
  case 2: t_arith(); break;
  case 3: t_range(); break;
  case 4: t_foreign(); break;
  case 5: t_header(); break;
  case 6: t_readonly(); break;
  case 7: t_twoopen(); break;
  case 8: t_create(); break;
  case 9: t_crash(); break;
  case 10: t_trail(); break;
  case 11: t_pages(); break;
  }
  sym_reach("end");
  return 0;
}
