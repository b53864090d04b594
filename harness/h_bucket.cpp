#include "sym.h"
#include <istat/Bucket.h>
#include <math.h>
#include <float.h>
using namespace istat;
// values are symbolic integers (exactly representable), so that every sum below is exact and order does not matter
struct B { long sum, sq, mn, mx, cnt, t; };
static B mkb(const char *n, long lim, bool maybeEmpty) {
  B b; (void)n;
  b.sum = sym_long(-lim, lim, "sum"); b.sq = sym_long(0, lim, "sumsq"); b.mn = sym_long(-lim, lim, "min"); b.mx = sym_long(-lim, lim, "max");
  b.cnt = sym_long(maybeEmpty ? 0 : 1, 1000, "count"); b.t = sym_long(0, 4000000000L, "time");
  return b;
}
static Bucket real(B const &b) { return Bucket((double)b.sum, (float)b.sq, (float)b.mn, (float)b.mx, (int)b.cnt, b.t); }
static long mini(long a, long b) { return sym_ite(a < b, a, b); }
static long maxi(long a, long b) { return sym_ite(a > b, a, b); }
static void chk(Bucket const &r, B const &b) {
  sym_check(r.sum() == (double)b.sum, "sum is not the total of the parts");
  sym_check(r.sumSq() == (float)b.sq, "sum of squares is not the total of the parts");
  sym_check(r.min() == (float)b.mn, "min is not the smallest of the parts");
  sym_check(r.max() == (float)b.mx, "max is not the largest of the parts");
  sym_check(r.count() == b.cnt, "count is not the total of the parts");
  sym_check(r.time() == b.t, "time label changed");
}
static B merge(B const &a, B const &b) { B r; r.sum = a.sum + b.sum; r.sq = a.sq + b.sq; r.mn = mini(a.mn, b.mn); r.mx = maxi(a.mx, b.mx); r.cnt = a.cnt + b.cnt; r.t = a.t; return r; }
static void t_update() { // any sequence of merges: count, sum, sum of squares add up, extremes are the extremes, the time is the first one's
  int k = sym_param("k", 3);
  B m; bool have = false; Bucket acc(true);
  for (int i = 0; i < k; ++i) {
    B b = mkb("b", 100000, false);
    acc.update(real(b));
    if (!have) m = b; else m = merge(m, b);
    have = true;
  }
  chk(acc, m);
}
static void t_assoc() { // merging is independent of grouping and order (apart from the time label)
  B a = mkb("a", 100000, false), b = mkb("b", 100000, false), c = mkb("c", 100000, false);
  Bucket x(real(a)); x.update(real(b)); x.update(real(c));
  Bucket y(real(c)); Bucket z(real(b)); z.update(real(a)); y.update(z);
  sym_check(sym_and(x.sum() == y.sum(), sym_and(x.sumSq() == y.sumSq(), x.count() == y.count())), "totals depend on the order of merging");
  sym_check(sym_and(x.min() == y.min(), x.max() == y.max()), "extremes depend on the order of merging");
}
static void t_exact() { // a stored sum is reported exactly, however large the integer total
  long v = sym_long(-(1L << 52), 1L << 52, "sum");
  Bucket b((double)v, 0, 0, 0, 1, 0);
  sym_show("sum", v);
  sym_check(b.sum() == (double)v, "sum() loses precision of the stored total");
  Bucket c(true); c.update(b);
  sym_check(c.sum() == (double)v, "sum lost when merging into an empty bucket");
  Bucket d(b, 77);
  sym_check(d.sum() == (double)v && d.time() == 77 && d.count() == 1, "re-labelling a bucket changes it");
}
static void t_finite() { // whatever is stored (not NaN), reported figures are finite and keep their sign
  double s; float q, mi, ma; sym_make(&s, 8, "sum"); sym_make(&q, 4, "sq"); sym_make(&mi, 4, "min"); sym_make(&ma, 4, "max");
  sym_assume(s == s); sym_assume(q == q); sym_assume(mi == mi); sym_assume(ma == ma);
  Bucket b(s, q, mi, ma, 1, 5);
  int which = sym_choose(5, "which");
  double in = which == 0 ? s : which == 1 ? q : which == 2 ? mi : which == 3 ? ma : s;
  double out = which == 0 ? b.sum() : which == 1 ? b.sumSq() : which == 2 ? b.min() : which == 3 ? b.max() : b.avg();
  sym_check(sym_and(out <= FLT_MAX, out >= -FLT_MAX), "an infinite figure is reported");
  sym_check(sym_or(sym_and(in >= 0, out >= 0), sym_and(in <= 0, out <= 0)), "sign of a figure flipped");
  if (which == 1 || which == 2 || which == 3) sym_check(sym_or(out == in, sym_or(in > FLT_MAX, in < -FLT_MAX)), "finite figure altered");
}
static void t_avg() {
  long n = sym_param("count", 3); long v = sym_long(-100000, 100000, "q");
  Bucket b((double)(v * n), 0, 0, 0, (int)n, 9);
  sym_check(b.avg() == (double)v, "average of n equal values");
  Bucket z((double)v, 0, 0, 0, 0, 9);
  sym_check(z.avg() == 0 && z.sdev() == 0, "empty bucket must report 0");
}
static void t_extreme() { // every reported figure is a finite number, whatever was added up
  static const double V[] = {0, 1, -3e38, 1e39, 1e200, -1e200, 1e308, -1e308}; static const int N[] = {1, 2, 1000000};
  Bucket t(true);
  for (int i = 0, k = sym_param("k", 3); i < k; ++i) { double v = V[sym_choose(8, "value")]; Bucket b(v, (float)(v * v), (float)v, (float)v, N[sym_choose(3, "n")], 10); if (sym_choose(2, "infinite")) { b.update(b); b.update(b); } t.update(b); }
  double f[] = {t.sum(), t.sumSq(), t.min(), t.max(), t.avg(), t.sdev()};
  for (int i = 0; i < 6; ++i) { sym_show("figure", i); sym_check(f[i] >= -FLT_MAX && f[i] <= FLT_MAX, "a figure is not a finite number"); }
  sym_check(t.sdev() >= 0 && t.min() <= t.max(), "deviation or extremes out of order"); sym_reach("done"); sym_expect("done");
}
static void t_sdev() { // never negative, never NaN, for any stored figures; exact for two integer samples
  if (sym_param("part", 0) == 0) {
  long a = sym_long(-4, 4, "a"), b = sym_long(-4, 4, "b");
  a = sym_concrete(a); b = sym_concrete(b);
  Bucket x((double)(a + b), (float)(a * a + b * b), (float)(a < b ? a : b), (float)(a < b ? b : a), 2, 1);
  double want = sqrt((double)(a - b) * (a - b) / 2);
  sym_check(fabs(x.sdev() - want) <= 1e-5 * (1 + want), "standard deviation of two samples");
  Bucket o((double)a, (float)(a * a), (float)a, (float)a, 1, 1);
  sym_check(o.sdev() == 0, "one sample has no deviation"); return; }
  static const int ns[] = {2, 3, 1000, 2000000000};
  long s = sym_long(-1000, 1000, "s"), q = sym_long(0, 1000, "q"); int n = ns[sym_choose(4, "n")];
  Bucket y((double)s, (float)q, 0, 0, n, 1);
  double d = (double)n * (double)(float)q - (double)s * (double)s;
  if (d < 0) sym_check(y.sdev() == 0, "cancellation must give 0, not NaN");
}
static void t_collated() { // k events in one slot: total is the sum, count stays 1, extremes equal the total, label is the first time
  int k = sym_param("k", 3); Bucket b(true); long tot = 0, t0 = 0;
  for (int i = 0; i < k; ++i) { long v = sym_long(-1000, 1000, "v"), t = sym_long(0, 4000000000L, "t"); b.collatedUpdate((double)v, t); tot += v; if (!i) t0 = t; }
  sym_check(sym_and(b.sum() == (double)tot, sym_and(b.count() == 1, b.time() == t0)), "collated total");
  sym_check(sym_and(b.min() == (float)tot, b.max() == (float)tot), "collated extremes");
}
static void t_exp() { // seasonal blend with weight 1/2: exact arithmetic on even integers
  B a = mkb("a", 1000, true), b = mkb("b", 1000, false);
  static const double L[] = {0.5, 0.0, 1.0, 0.25};
  int li = sym_param("l", 0); double l = L[li]; long w = li == 0 ? 2 : li == 1 ? 0 : li == 2 ? 4 : 1; // weight in quarters
  Bucket x(real(a)); Bucket y(real(b));
  x.expUpdate(y, l);
  if (a.cnt == 0) { chk(x, b); return; }
  // 4*value is an integer
  sym_check(x.sum() * 4 == (double)(a.sum * w + b.sum * (4 - w)), "blended sum");
  sym_check(x.min() * 4 == (float)(a.mn * w + b.mn * (4 - w)), "blended min");
  sym_check(x.max() * 4 == (float)(a.mx * w + b.mx * (4 - w)), "blended max");
  sym_check(x.sumSq() * 4 == (float)(a.sq * w + b.sq * (4 - w)), "blended sum of squares");
  long c = (a.cnt * w + b.cnt * (4 - w) + 2) / 4;
  sym_check(x.count() == sym_ite(c < 1, 1, c), "blended count");
  sym_check(x.time() == b.t, "blended time");
}
int sym_main() {
  switch (sym_param("mode", 0)) {
  case 0: t_update(); break;
  case 1: t_assoc(); break;
  case 2: t_exact(); break;
  case 3: t_finite(); break;
  case 4: t_avg(); break;
  case 5: t_sdev(); break;
  case 9: t_extreme(); break;
  case 6: t_collated(); break;
  case 7: t_exp(); break;
  }
  sym_reach("end");
  return 0;
}
