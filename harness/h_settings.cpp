// Settings: what is set is what is read back, now, after a flush, after a restart, after a crash or a full disk
#include "sym.h"
#include "symfs.h"
#include <boost/asio.hpp>
#include <boost/thread/recursive_mutex.hpp>
#include "daemon/Settings.h"
#include "daemon/IComplete.h"
#include <istat/strfunc.h>
#include <vector>
#include <map>
#include <stdexcept>
#include <string.h>
#include <stdio.h>
using boost::asio::io_service;
typedef std::string S;
typedef std::map<S, S> M;
extern "C" long sym_now;
struct Done : IComplete { int n; Done() : n(0) {} void on_complete() { ++n; } };
struct Box {
  io_service svc; ISettingsFactory *f;
  Box() : f(NewSettingsFactory(svc, "/cfg")) {}
  void drain() { while (svc.runnable()) svc.poll_one(); }
  boost::shared_ptr<ISettings> open(S const &d, bool create) { boost::shared_ptr<ISettings> s; Done c; f->open(d, create, s, &c); drain(); sym_check(c.n == 1, "opening settings is not reported done exactly once"); return s; }
  void flush() { Done c; f->flush(&c); drain(); sym_check(c.n == 1, "flushing settings is not reported done exactly once"); }
  void flush_one(S const &d) { Done c; f->flush_one(d, &c); drain(); sym_check(c.n == 1, "flushing settings is not reported done exactly once"); }
  void reload(S const &d) { Done c; f->reloadSettings(d, &c); drain(); sym_check(c.n == 1, "reloading settings is not reported done exactly once"); }
  void later(long s = 11) { sym_now += s; boost::asio::sym_fire_due(svc); drain(); }
};
static bool has(boost::shared_ptr<ISettings> const &s, S const &k, S &v) { bool w = false; s->get(k, v, w, "dflt"); return w; }
static M all(boost::shared_ptr<ISettings> const &s) { M m; if (!s) return m; std::vector<S> k; s->match("*", k); for (size_t i = 0; i < k.size(); ++i) { S v; sym_check(!m.count(k[i]), "a setting is listed twice"); sym_check(has(s, k[i], v), "a listed setting cannot be read"); m[k[i]] = v; } return m; }
static bool same(M const &a, M const &b) { if (a.size() != b.size()) return false; for (M::const_iterator p = a.begin(), q = b.begin(); p != a.end(); ++p, ++q) if (!sym_streq(p->first, q->first) || !sym_streq(p->second, q->second)) return false; return true; }
static void show(const char *t, M const &m) { for (M::const_iterator p = m.begin(); p != m.end(); ++p) { S x = p->first + "=" + p->second; sym_show_str(t, x.data(), x.size()); } }
static void put(const char *p, S const &s) { symfs_put(p, 0, s.data(), s.size()); }
// ---------------------------------------------------------------- 0: any value, any valid key
static void roundtrip() {
  int n = sym_param("n", 2), kn = sym_param("kn", 0), how = sym_choose(3, "how");
  symfs_mkdirs("/cfg");
  S k = kn ? sym_string(kn, "key") : S("k.1"), v = sym_string(n, "value");
  sym_assume(is_valid_key(k)); if (kn) sym_assume(k != "a" && k != "z");
  { Box b; boost::shared_ptr<ISettings> s = b.open("u", true); sym_check(s.get() != 0, "new settings cannot be created"); if (!s) return;
    s->set("a", "first"); s->set(k, v); s->set("z", "last one");
    S g; sym_check(has(s, k, g) == (n > 0), "a setting just set is missing"); if (n) sym_check(sym_streq(g, v), "a setting just set reads back differently");
    if (how == 0) b.later(); else if (how == 1) b.flush(); else b.flush_one("u");
    if (how) { boost::shared_ptr<ISettings> t = b.open("u", false); sym_check(t && has(t, k, g) == (n > 0) && (!n || sym_streq(g, v)), "a setting changes when the settings are flushed"); sym_reach("flushed"); }
  }
  Box b; boost::shared_ptr<ISettings> s = b.open("u", false); sym_check(s.get() != 0, "saved settings cannot be opened after a restart"); if (!s) return;
  M want; want["a"] = "first"; if (n) want[k] = v; want["z"] = "last one";
  M got = all(s); show("read back", got);
  sym_check(same(got, want), "a setting changes when it is saved and loaded again");
  sym_reach("restarted"); sym_expect("restarted"); sym_expect("flushed");
}
// ---------------------------------------------------------------- 1: sequences against one model
static const char *KS[] = {"a", "b.c", "d"}; static const char *VS[] = {"", "1", "two words"};
static void sequence() {
  int steps = sym_param("steps", 3), first = sym_param("first", -1);
  symfs_mkdirs("/cfg"); put("/cfg/u.set", "# istatd settings 1\na=0\n"); put("/cfg/w.set", "# other\nkeep=me\n");
  Box *b = new Box(); M m, disk; m["a"] = "0"; disk = m;
  boost::shared_ptr<ISettings> h = b->open("u", false); sym_check(h.get() != 0, "existing settings cannot be opened"); if (!h) return;
  for (int i = 0; i < steps; ++i) {
    int op = i == 0 && first >= 0 ? first : (int)sym_choose(7, "operation"); bool dirty = m != disk;
    if (op < 2) { const char *k = KS[op], *v = VS[sym_choose(3, "value")]; h->set(k, v); if (*v) m[k] = v; else m.erase(k); }
    else if (op == 2) b->flush();
    else if (op == 3) b->flush_one("u");
    else if (op == 4) b->later();
    else if (op == 5) { boost::shared_ptr<ISettings> g = b->open("u", true); sym_check(g.get() != 0, "existing settings cannot be opened"); if (!g) return; sym_check(same(all(g), m), "opening settings again shows something other than what was set"); if (sym_choose(2, "keep")) h = g; }
    else { b->flush(); h.reset(); delete b; b = new Box(); h = b->open("u", false); sym_check(h.get() != 0, "saved settings cannot be opened after a restart"); if (!h) return; }
    if (op >= 2 && op != 5) disk = m;
    boost::shared_ptr<ISettings> g = b->open("u", false); M got = all(g); show("now", got);
    sym_check(same(got, m), "settings read back differ from what was set"); sym_check(same(all(h), m), "settings read through an older handle differ from what was set");
    boost::shared_ptr<ISettings> w = b->open("w", false); M o; o["keep"] = "me"; sym_check(same(all(w), o), "setting one file changes another"); (void)dirty;
    if (op >= 2 && op != 5) { Box c; M d = all(c.open("u", false)); show("disk", d); sym_check(same(d, m), "saved settings differ from what was set"); sym_reach("saved"); }
  }
  { b->later(); Box c; sym_check(same(all(c.open("u", false)), m), "saved settings differ from what was set"); sym_check(!symfs_exists("/cfg/u.set.tmp"), "a temporary file stays behind"); sym_reach("done"); }
  sym_expect("done");
}
// ---------------------------------------------------------------- 2: a crash, or a failing disk, at any point of a save
static void crash() {
  int fail = sym_param("fail", 0), how = sym_choose(3, "how"); long at = sym_long(0, sym_param("ops", 24), "at"); at = sym_concrete(at);
  symfs_mkdirs("/cfg"); put("/cfg/u.set", "# istatd settings 1\na=0\nkeep=me\n"); put("/cfg/w.set", "# other\nkeep=me\n");
  M old, neu; old["a"] = "0"; old["keep"] = "me"; neu = old; neu["a"] = "changed"; neu["b"] = "new";
  bool threw = false, again = sym_choose(2, "first"); 
  {
    Box *b = new Box(); boost::shared_ptr<ISettings> s = b->open("u", false); sym_check(s.get() != 0, "existing settings cannot be opened"); if (!s) return;
    if (again) { s->set("gone", "x"); b->later(); s->set("gone", ""); b->later(); }
    s->set("a", "changed"); s->set("b", "new");
    symfs_ops = 0; if (fail) { symfs_fail_at = at; symfs_fail_len = sym_choose(2, "lasting") ? 1000 : 1; symfs_fail_errno = fail == 2 ? EACCES : ENOSPC; } else { symfs_crash_at = at; symfs_torn = 1; }
    try { if (how == 0) b->later(); else if (how == 1) b->flush(); else b->flush_one("u"); } catch (SymCrash &) {} catch (std::exception &) { threw = true; }
    if (!fail && !symfs_frozen) { sym_assume(0); }
    if (fail) {
      sym_check(symfs_ops < 200, "a save that fails is tried again without pause");
      sym_check(!threw, "a disk error while saving settings escapes into the event loop");
      boost::shared_ptr<ISettings> g = b->open("u", false); M got = all(g); show("after the error", got); sym_check(same(got, neu), "a disk error while saving makes settings disappear from the running server");
      sym_check(same(all(s), neu), "a disk error while saving makes settings disappear from the running server");
      symfs_fail_at = -1;
      { Box c; M d = all(c.open("u", false)); show("disk", d); sym_check(same(d, old) || same(d, neu), "a disk error while saving leaves settings that are neither the old nor the new ones"); }
      b->later(); b->later();
      { Box c; M d = all(c.open("u", false)); show("disk later", d); sym_check(same(d, neu), "settings are not saved after the disk recovers"); }
      s->set("c", "more"); neu["c"] = "more"; b->later();
      { Box c; M d = all(c.open("u", false)); show("disk last", d); sym_check(same(d, neu), "settings are never saved again after a disk error"); }
      sym_reach("recovered"); sym_expect("recovered"); return;
    }
  }
  symfs_reboot();
  Box c; boost::shared_ptr<ISettings> s = c.open("u", false); sym_check(s.get() != 0, "settings are lost in a crash"); if (!s) return;
  M d = all(s); show("after the crash", d); sym_check(same(d, old) || same(d, neu), "a crash while saving leaves settings that are neither the old nor the new ones");
  M o; o["keep"] = "me"; sym_check(same(all(c.open("w", false)), o), "a crash while saving changes other settings");
  s->set("c", "more"); d["c"] = "more"; c.later(); { Box e; sym_check(same(all(e.open("u", false)), d), "settings cannot be saved after a crash"); }
  sym_reach("crashed"); sym_expect("crashed");
}
// ---------------------------------------------------------------- 3: files written by hand
static S trimmed(S s) { size_t a = 0, z = s.size(); while (z > a && isspace((unsigned char)s[z - 1])) --z; while (a < z && isspace((unsigned char)s[a])) ++a; return s.substr(a, z - a); }
static void byhand() {
  int n = sym_param("n", 4); static const char al[] = "=#\n\r ka"; S t;
  for (int i = 0; i < n; ++i) t += al[sym_choose(7, "byte")];
  S end = sym_choose(2, "newline") ? "\n" : ""; S text = S("# istatd settings 1\nx=1\n") + t + end; sym_show_str("text", text.data(), text.size());
  symfs_mkdirs("/cfg"); put("/cfg/u.set", text);
  M want; size_t p = 0; text += "\n";
  while (p < text.size()) { size_t e = text.find('\n', p); S l = text.substr(p, e - p); p = e + 1; if (l.empty() || l[0] == '#') continue; size_t q = l.find('='); if (q == S::npos || q == 0 || q + 1 == l.size()) { if (q == 0 || q + 1 == l.size()) return; continue; } want[trimmed(l.substr(0, q))] = trimmed(l.substr(q + 1)); }
  for (M::iterator i = want.begin(); i != want.end(); ++i) if (i->first.empty() || i->second.empty()) return;
  Box b; M got = all(b.open("u", false)); show("loaded", got); show("wanted", want);
  sym_check(same(got, want), "settings written by hand are misread");
  // another save must keep them
  boost::shared_ptr<ISettings> s = b.open("u", false); if (!is_valid_key(want.rbegin()->first)) return;
  bool ok = true; for (M::iterator i = want.begin(); i != want.end(); ++i) ok = ok && is_valid_key(i->first); if (!ok) return;
  s->set("y", "2"); want["y"] = "2"; b.later(); Box c; M d = all(c.open("u", false)); show("saved", d); sym_check(same(d, want), "settings written by hand change when another one is set");
  sym_reach("byhand"); sym_expect("byhand");
}
// ---------------------------------------------------------------- 4: editing a file, then flushing or loading it
static void edited() {
  symfs_mkdirs("/cfg"); put("/cfg/u.set", "# istatd settings 1\na=0\nb=1\n");
  Box b; boost::shared_ptr<ISettings> h = b.open("u", false); int how = sym_choose(3, "how"), held = sym_choose(2, "held"); if (!held) h.reset();
  S v = sym_choose(2, "value") ? "edited" : "e e"; S t = "# istatd settings 1\na=" + v + "\nb=1\nc=3\n"; symfs_resize("/cfg/u.set", 0); put("/cfg/u.set", t);
  if (how == 0) b.flush(); else if (how == 1) b.flush_one("u"); else b.reload("u");
  { Box e; M d = all(e.open("u", false)); sym_check(d["a"] == v && d["c"] == "3", "an edited settings file is overwritten by a flush"); }
  M want; want["a"] = v; want["b"] = "1"; want["c"] = "3"; M got = all(b.open("u", false)); show("loaded", got); sym_check(same(got, want), "an edited settings file is not loaded again");
  if (held) { h->set("d", "4"); want["d"] = "4"; sym_check(same(all(b.open("u", false)), want), "a setting made through an older handle is lost, or undoes an edited file"); b.later(); Box e; sym_check(same(all(e.open("u", false)), want), "a setting made through an older handle is lost, or undoes an edited file"); sym_reach("held"); }
  sym_expect("held");
}
// ---------------------------------------------------------------- 5: odd keys and names
static void keys() {
  int n = sym_param("n", 2); symfs_mkdirs("/cfg"); S k = sym_string(n, "key");
  { Box b; boost::shared_ptr<ISettings> s = b.open("u", true); if (!s) return; s->set("a", "1"); s->set(k, "v"); b.later(); }
  Box b; M d = all(b.open("u", false)); show("saved", d); M w; w["a"] = "1"; M x = w; x[k] = "v";
  sym_check(same(d, w) || same(d, x), "setting an odd key changes other settings"); if (is_valid_key(k)) sym_check(same(d, x), "a valid key is not kept");
  sym_reach("keys"); sym_expect("keys");
}
// ---------------------------------------------------------------- 6: requests and flushes on different threads
static Box *TB; static boost::shared_ptr<ISettings> TH; static Done TD[3];
static void t0(void *) { TH->set("a", "1"); if (sym_param("two", 0)) TH->set("c", "3"); }
static void t1(void *) { boost::shared_ptr<ISettings> s; TB->f->open("u", false, s, &TD[0]); sym_check(s.get() != 0, "existing settings cannot be opened"); if (s) s->set("b", "2"); }
static void t2(void *) { if (sym_param("one", 0)) TB->f->flush_one("u", &TD[1]); else TB->f->flush(&TD[1]); if (sym_param("twice", 0)) TB->f->flush(&TD[2]); }
static void t3(void *) { sym_now += 11; boost::asio::sym_fire_due(TB->svc); TB->drain(); }
static void threads() {
  symfs_mkdirs("/cfg"); put("/cfg/u.set", "# istatd settings 1\na=0\nz=9\n"); sym_max_preempt((int)sym_param("pre", 2)); int sc = sym_param("sc", 0);
  Box b; TB = &b; TH = b.open("u", false); if (sc == 1) { TH->set("y", "8"); }
  boost::sym_lock_mode() = 3;
  int a = sym_thread_create(t0, 0), c = sym_thread_create(t2, 0), d = sym_thread_create(sc == 1 ? t3 : t1, 0); sym_thread_join(a); sym_thread_join(c); sym_thread_join(d); b.drain();
  M want; want["a"] = "1"; want["z"] = "9"; if (sc == 1) want["y"] = "8"; else want["b"] = "2"; if (sym_param("two", 0)) want["c"] = "3";
  M m = all(b.open("u", false)); show("open", m); sym_check(same(m, want), "a setting made while another thread flushes is lost");
  b.later(); b.later(); Box e; m = all(e.open("u", false)); show("saved", m); sym_check(same(m, want), "a setting made while another thread flushes is not saved");
  sym_check(TD[1].n == 1, "flushing settings is not reported done exactly once"); sym_reach("threads"); sym_expect("threads");
}
int sym_main() {
  sym_now = 1700000000;
  switch (sym_param("mode", 0)) { case 0: roundtrip(); break; case 1: sequence(); break; case 2: crash(); break; case 3: byhand(); break; case 4: edited(); break; case 5: keys(); break; case 6: threads(); break; }
  return 0;
}
