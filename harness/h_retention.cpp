// Retention policies: what a policy text means.
#include "sym.h"
#include "Retention.h"
#include <vector>
#include <stdexcept>
#include <math.h>
typedef std::string S;
struct Want { long iv, n; S name; double lambda; };
static bool ordered(RetentionPolicy const &p, const char *msg) {
  for (size_t i = 0; i < p.countIntervals(); ++i) {
    RetentionInterval const &r = p.getInterval(i);
    sym_check(r.interval > 0, "level with an interval that is not positive");
    sym_check(r.samples > 0, "level without samples");
    sym_check(r.lambda == 0 || (r.lambda > 0 && r.lambda < 1), "weight outside (0,1)");
    if (i) {
      RetentionInterval const &l = p.getInterval(i - 1);
      sym_check(r.lambda > 0 || (l.lambda == 0 && l.interval < r.interval), msg);
    }
  }
  return true;
}
// arbitrary bytes: accepted policies are well formed
static void t_bytes() {
  S s = sym_string(sym_param("n", 4), "policy");
  for (size_t i = 0; i < s.size(); ++i) sym_assume(s[i] != 0);
  sym_budget(3000000);
  bool ok = false;
  RetentionPolicy p;
  try { p.addIntervals(s); ok = true; } catch (std::runtime_error const &) {}
  sym_reach(ok ? "accepted" : "refused");
  if (s.size()) sym_expect("refused");
  if (s.size() == 5) sym_expect("accepted");
  if (s.size() == 0) sym_check(ok && p.countIntervals() == 0, "empty policy");
  ordered(p, "levels out of order");
}
// one or two entries built from parts
static const char *UN[] = {"s", "m", "h", ""};
static const long US[] = {1, 60, 3600, 0};
static const char *LAM[] = {"", "0.5", "0.75", "0", "1", "1.5", "-0.5", "nan", "0.5x", "x", "0.25:9", "1e-3", "inf"};
static const double LAMV[] = {0, 0.5, 0.75, -1, -1, -1, -1, -1, -1, -1, -1, 1e-3, -1};
static void t_parts() {
  long k = sym_param("k", 1), lam = sym_param("lam", 1), few = sym_param("few", 0);
  S text; std::vector<Want> want; bool good = true;
  for (long i = 0; i < k; ++i) {
    Want w; S e;
    static const long D[] = {0, 1, 2, 5, 1, 2};
    long d = k == 1 ? sym_long(0, 9, "idigit") : D[few ? 4 + sym_choose(2, "idigit") : sym_choose(4, "idigit")], u = few ? 0 : sym_choose(lam ? 2 : k == 1 ? 4 : 3, "iunit");
    long r1 = k == 1 ? sym_long(0, 9, "rdigit") : 6, r2 = k == 1 ? sym_long(0, 9, "rdigit2") : 0, ru = k == 1 ? sym_choose(lam ? 2 : 4, "runit") : 1;
    char ib[8] = {char('0' + d), 0}, rb[8] = {char('0' + r1), char('0' + r2), 0};
    S iv = S(ib) + UN[u], re = S(rb) + UN[ru];
    w.iv = d * US[u];
    d = sym_concrete(d); w.iv = d * US[u];
    long len = (r1 * 10 + r2) * US[ru];
    long form = k == 1 ? sym_choose(lam ? 4 : 3, "form") : 1 + 2 * sym_choose(2, "form");   // iv only; iv:ret; iv:ret:name; iv:ret:name:lambda
    e = iv; w.name = iv; w.lambda = 0;
    if (form >= 1) e += ":" + re;
    if (form >= 2) { long nm = k == 1 ? sym_choose(2, "name") : 1; e += ":"; if (nm) { e += "wk"; w.name = "wk"; } }
    if (form == 3) { long l = sym_choose(k == 1 ? sizeof(LAM) / sizeof(*LAM) : 2, "lambda"); e += S(":") + LAM[l]; w.lambda = LAMV[l]; }
    if (i) text += ",";
    text += e;
    bool eg = form >= 1 && u != 3 && ru != 3 && d > 0 && w.lambda >= 0;   // a unit is required
    if (eg) { w.n = len / w.iv; eg = len >= w.iv; }
    if (eg && !want.empty() && w.lambda == 0) eg = want.back().lambda == 0 && want.back().iv < w.iv;
    if (!eg) { good = false; }
    if (good) want.push_back(w);
  }
  sym_budget(3000000);
  RetentionPolicy p; bool ok = false;
  try { p.addIntervals(text); ok = true; } catch (std::runtime_error const &) {}
  sym_show_str("policy", text.data(), text.size());
  sym_check(ok == good, good ? "a well formed policy is refused" : "a malformed policy is accepted");
  ordered(p, "levels out of order");
  sym_check(p.countIntervals() == want.size(), "number of levels");
  for (size_t i = 0; i < want.size() && i < p.countIntervals(); ++i) {
    RetentionInterval const &r = p.getInterval(i);
    sym_check(r.interval == want[i].iv, "interval of a level");
    sym_check(r.samples == want[i].n, "samples of a level");
    sym_check(r.name == want[i].name, "name of a level");
    sym_check(r.lambda == want[i].lambda, "weight of a level");
  }
  bool thrown = false;
  try { p.getInterval(want.size()); } catch (std::runtime_error const &) { thrown = true; }
  sym_check(thrown, "a level past the end exists");
  sym_reach(good ? "good" : "bad"); sym_expect("good"); sym_expect("bad");
}
int sym_main() { if (sym_param("mode", 0) == 0) t_bytes(); else t_parts(); return 0; }
