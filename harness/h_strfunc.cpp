#include "sym.h"
#include <istat/strfunc.h>
#include <vector>
#include <map>
#include <stdexcept>
#include <stdio.h>
typedef std::string S;
static bool eqv(std::vector<S> const &a, std::vector<S> const &b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) if (!sym_streq(a[i], b[i])) return false;
  return true;
}
// ---------------------------------------------------------------- names
static void t_munge() {
  S in = sym_string(sym_param("n", 4), "name"), out(in);
  istat::munge(out);
  sym_check(out.size() == in.size(), "length changed");
  for (size_t i = 0; i < out.size(); ++i) {
    unsigned char c = out[i], o = in[i];
    sym_check(sym_and(c > 32, c < 127), "character outside printable ASCII");
    sym_check(sym_and(c != '/', sym_and(c != '\\', sym_and(c != ':', sym_and(c != '"', c != '\'')))), "separator or quote survives");
    sym_check(!(sym_and(c >= 'A', c <= 'Z')), "upper case survives");
    bool plain = sym_and(sym_and(o > 32, o < 127), sym_and(sym_and(o != '/', o != '\\'), sym_and(o != ':', sym_and(o != '"', o != '\''))));
    bool up = sym_and(o >= 'A', o <= 'Z');
    sym_check(c == (unsigned char)sym_ite(up, o + 32, sym_ite(plain, o, '_')), "character mapped to something else");
  }
  S twice(out);
  istat::munge(twice);
  sym_check(sym_streq(twice, out), "not idempotent");
  // the file a counter maps to stays below the store root: no '.', no '..' component can be formed, no absolute restart
  S f = istat::counter_filename(out);
  sym_check(f.size() == out.size(), "file name length");
  for (size_t i = 0; i < f.size(); ++i) {
    sym_check(f[i] != '.', "dot survives in the file name");
    sym_check(sym_or(out[i] != '.', f[i] == '/'), "dot not turned into a directory separator");
    sym_check(sym_or(out[i] == '.', f[i] == out[i]), "file name character changed");
  }
}
static void t_extract() {
  S in = sym_string(sym_param("n", 4), "name");
  for (size_t i = 0; i < in.size(); ++i) sym_assume(in[i] != 0);
  std::vector<S> got, want; S pb, wpb;
  sym_budget(400000);
  istat::extract_ctrs(in, got, pb);
  // reference
  size_t k = 0; while (k < in.size() && in[k] != '^') ++k;
  if (k == in.size()) { if (in.size()) { want.push_back(in); wpb = in; } }
  else {
    S base(in, 0, k); wpb = base;
    size_t b = k + 1;
    for (;;) {
      size_t e = b; while (e < in.size() && in[e] != '^') ++e;
      S seg(in, b, e - b);
      if (seg.size()) want.push_back(base.size() ? base + "." + seg : seg);
      else if (e == in.size() && base.size()) want.push_back(base);
      if (e == in.size()) break;
      b = e + 1;
    }
  }
  sym_check(eqv(got, want), "expansion differs from the documented meaning of '^'");
  sym_check(sym_streq(pb, wpb), "base name wrong");
  sym_reach("expanded");
}
static void t_stripext() {
  S in = sym_string(sym_param("n", 5), "name"), s(in);
  size_t k = in.size(); while (k > 0 && in[k - 1] != '.') --k;
  bool r = istat::stripext(s);
  sym_check(r == (k > 0), "stripext: wrong result");
  sym_check(sym_streq(s, k > 0 ? S(in, 0, k - 1) : in), "stripext: wrong parent");
}
static void t_prom() {
  S in = sym_string(sym_param("n", 4), "name"), s(in);
  istat::prom_munge(s);
  for (size_t i = 0; i < s.size(); ++i) {
    unsigned char c = s[i];
    bool d = sym_and(c >= '0', c <= '9');
    sym_check(sym_or(sym_or(c == '_', sym_and(c >= 'a', c <= 'z')), d), "bad metric name character");
    if (i == 0) sym_check(!d, "metric name starts with a digit");
  }
  sym_check(s.size() >= in.size() && s.size() <= in.size() + 1, "length");
  S t(s); istat::prom_munge(t);
  sym_check(sym_streq(s, t), "not idempotent");
}
// ---------------------------------------------------------------- intervals
static void t_interval() {
  long mx = sym_param("max", 100000);
  long v = sym_long(sym_param("min", 0), mx, "seconds");
  sym_show("seconds", v);
  S t = istat::seconds_to_interval(v);
  sym_show_str("text", t.data(), t.size());
  long back = istat::interval_to_seconds(t);
  sym_check(back == v, "interval text does not mean the same number of seconds");
}
static void t_intparse() {
  int n = sym_param("n", 3);
  S in = sym_string(n, "text");
  // reference: (digits unit)+
  bool ok = n > 0; long sum = 0; size_t i = 0;
  while (ok && i < in.size()) {
    long v = 0; size_t st = i;
    while (i < in.size() && in[i] >= '0' && in[i] <= '9') { v = v * 10 + (in[i] - '0'); ++i; }
    if (i == st || i == in.size()) { ok = false; break; }
    long mul = 0;
    switch (in[i]) { case 's': mul = 1; break; case 'm': mul = 60; break; case 'h': mul = 3600; break; case 'd': mul = 86400; break; case 'y': mul = 86400L * 365; break; default: ok = false; }
    sum += v * mul; ++i;
  }
  long got = -1; bool thrown = false;
  try { got = istat::interval_to_seconds(in); } catch (std::exception const &) { thrown = true; }
  sym_check(thrown == !ok, ok ? "valid interval refused" : "malformed interval accepted");
  if (ok) sym_check(got == sum, "interval value wrong");
}
// ---------------------------------------------------------------- quoting
static void t_sqlq() {
  S in = sym_string(sym_param("n", 3), "value");
  S q = istat::sql_quote(in);
  for (size_t i = 0; i < q.size(); ++i) sym_check(q[i] != '\n' && q[i] != '\r' && q[i] != 0, "quoted value contains a line break or NUL");
  S u = istat::sql_unquote(q);
  sym_show_str("quoted", q.data(), q.size());
  sym_check(sym_streq(u, in), "unquote(quote(x)) != x");
}
static void t_jsq() {
  S in = sym_string(sym_param("n", 3), "value");
  S q = istat::js_quote(in);
  S u = istat::js_unquote(q);
  sym_show_str("quoted", q.data(), q.size());
  sym_check(sym_streq(u, in), "js unquote(quote(x)) != x");
}
// js_quote text placed between double quotes is a JSON string whose value is the original
static void t_json() {
  S in = sym_string(sym_param("n", 3), "value");
  bool special = false;
  for (size_t i = 0; i < in.size(); ++i) special = sym_or(special, sym_or(in[i] == '\'', sym_and((unsigned char)in[i] < 32, sym_and(in[i] != 8, sym_and(in[i] != 9, sym_and(in[i] != 10, in[i] != 13))))));
  S q = istat::js_quote(in);
  S d; bool ok = true;
  for (size_t i = 0; ok && i < q.size(); ++i) {
    unsigned char c = q[i];
    if (c < 32 || c == '"') { ok = false; break; }
    if (c != '\\') { d.push_back(c); continue; }
    if (++i == q.size()) { ok = false; break; }
    switch (q[i]) {
    case '"': d.push_back('"'); break; case '\\': d.push_back('\\'); break; case '/': d.push_back('/'); break;
    case 'b': d.push_back(8); break; case 'f': d.push_back(12); break; case 'n': d.push_back(10); break; case 'r': d.push_back(13); break; case 't': d.push_back(9); break;
    default: ok = false;   // \u is not needed for byte strings produced here; anything else is not JSON
    }
  }
  if (special) sym_check(ok && sym_streq(d, in), "[K1] text with an apostrophe or a control character other than BS, TAB, LF, CR is not a valid JSON string after quoting");
  else sym_check(ok && sym_streq(d, in), "quoted text is not a JSON string denoting the original");
}
// ---------------------------------------------------------------- glob
static bool ref(S const &s, size_t i, S const &p, size_t j) {
  if (j == p.size()) return i == s.size();
  if (p[j] == '*') { for (size_t k = i; k <= s.size(); ++k) if (ref(s, k, p, j + 1)) return true; return false; }
  if (p[j] == '?') { for (size_t k = i;; ++k) { if (ref(s, k, p, j + 1)) return true; if (k == s.size() || s[k] == '.') return false; } }
  return i < s.size() && s[i] == p[j] && ref(s, i + 1, p, j + 1);
}
static void t_glob() {
  int np = sym_param("np", 3), ns = sym_param("ns", 3);
  static const char al[] = "*?.ab"; static const char sl[] = ".ab";
  S p, s;
  for (int i = 0; i < np; ++i) p.push_back(al[sym_choose(5, "pat")]);
  for (int i = 0; i < ns; ++i) { char c; sym_make(&c, 1, "str"); sym_assume(sym_or(c == '.', sym_or(c == 'a', sym_or(c == 'b', c == 'c')))); s.push_back(c); }
  (void)sl;
  sym_show_str("pattern", p.data(), p.size());
  sym_show_str("string", s.data(), s.size());
  sym_budget(3000000);
  bool got = istat::str_pat_match(s, p);
  bool want = ref(s, 0, p, 0);
  sym_check(got == want, want ? "pattern should match but does not" : "pattern should not match but does");
}
// ---------------------------------------------------------------- url decoding
static int hexv(int c) { if (c >= '0' && c <= '9') return c - '0'; if (c >= 'a' && c <= 'f') return c - 'a' + 10; if (c >= 'A' && c <= 'F') return c - 'A' + 10; return -1; }
static void t_url() {
  S in = sym_string(sym_param("n", 4), "text"), s(in), want;
  bool wf = true;
  for (size_t i = 0; i < in.size(); ++i) {
    if (in[i] == '+') want.push_back(' ');
    else if (in[i] == '%') {
      if (i + 2 < in.size()) { int a = hexv(in[i + 1]), b = hexv(in[i + 2]); if (a < 0 || b < 0) { wf = false; break; } want.push_back((char)(a * 16 + b)); i += 2; }
      else { want.push_back('%'); break; }   // cut off by the end of the text
    } else want.push_back(in[i]);
  }
  sym_budget(400000);
  istat::urldecode(s);
  sym_check(s.size() <= in.size(), "decoded text longer than the input");
  if (wf) sym_check(sym_streq(s, want), "escape decoded wrongly");
}
// encode then parse as a query string gives the pairs back
static S enc(S const &s) {
  S o;
  for (size_t i = 0; i < s.size(); ++i) {
    unsigned char c = s[i];
    o.push_back('%'); o.push_back(sym_ite((c >> 4) < 10, '0' + (c >> 4), 'A' - 10 + (c >> 4))); o.push_back(sym_ite((c & 15) < 10, '0' + (c & 15), 'a' - 10 + (c & 15)));
  }
  return o;
}
static void t_query() { // one of the strings is arbitrary bytes written as %XX, the others are letters as they are, or '+'
  int k = sym_param("pairs", 2), which = sym_param("which", 0);
  S q; S key[4], val[4];
  for (int i = 0; i < k; ++i) {
    if (i) q += "&";
    for (int h = 0; h < 2; ++h) {
      bool e = which == i * 2 + h; int n = e ? sym_param("n", 1) : sym_param("m", 2); S &d = h ? val[i] : key[i];
      if (h) q += "=";
      d = sym_string(n, h ? "val" : "key");
      if (e) { q += enc(d); continue; }
      for (int j = 0; j < n; ++j) { unsigned char c = d[j]; sym_assume(sym_or(sym_and(c >= 'a', c <= 'z'), c == '.')); }
      q += d;
    }
    for (int j = 0; j < i; ++j) sym_assume(!sym_streq(key[i], key[j]));
  }
  std::map<S, S> m;
  int r = istat::querystring(q, m);
  sym_check(r == k, "number of parameters");
  sym_check((int)m.size() == k, "parameters lost or merged");
  for (int i = 0; i < k; ++i) { std::map<S, S>::iterator p = m.find(key[i]); sym_check(p != m.end() && sym_streq(p->second, val[i]), "parameter value changed"); }
}
// ---------------------------------------------------------------- tokenising
static void t_split() {
  S in = sym_string(sym_param("n", 4), "text"), l, r;
  int n = istat::split(in, ':', l, r);
  size_t k = 0; while (k < in.size() && in[k] != ':') ++k;
  if (in.empty()) sym_check(n == 0 && l.empty() && r.empty(), "split of empty text");
  else if (k == in.size()) sym_check(n == 1 && sym_streq(l, in) && r.empty(), "split without separator");
  else { sym_check(n == 2, "split count"); sym_check(sym_streq(l + ":" + r, in) && l.size() == k, "split loses text"); }
  // explode: joining the pieces gives the text back (a single trailing separator produces no empty piece)
  std::vector<S> v; istat::explode(in, ':', v);
  S j; for (size_t i = 0; i < v.size(); ++i) { if (i) j += ":"; j += v[i]; for (size_t q = 0; q < v[i].size(); ++q) sym_check(v[i][q] != ':', "separator inside a piece"); }
  sym_check(sym_streq(j, in) || sym_streq(j + ":", in), "explode loses text");
  // trim
  S t(in); istat::trim(t);
  size_t a = 0, b = in.size();
  while (b > 0 && (in[b - 1] == ' ' || (in[b - 1] >= 9 && in[b - 1] <= 13))) --b;
  while (a < b && (in[a] == ' ' || (in[a] >= 9 && in[a] <= 13))) ++a;
  sym_check(sym_streq(t, S(in, a, b - a)), "trim");
}
static void t_splitn() {
  S in = sym_string(sym_param("n", 5), "text");
  int k = sym_param("k", 4);
  S o[6]; int n = 0;
  switch (k) {
  case 2: n = istat::splitn(in, ':', o[0], o[1]); break;
  case 3: n = istat::splitn(in, ':', o[0], o[1], o[2]); break;
  case 4: n = istat::splitn(in, ':', o[0], o[1], o[2], o[3]); break;
  case 5: n = istat::splitn(in, ':', o[0], o[1], o[2], o[3], o[4]); break;
  case 6: n = istat::splitn(in, ':', o[0], o[1], o[2], o[3], o[4], o[5]); break;
  }
  int c = 0; for (size_t i = 0; i < in.size(); ++i) c += in[i] == ':';
  sym_check(n == (c + 1 < k ? c + 1 : k), "number of fields");
  S j; for (int i = 0; i < n; ++i) { if (i) j += ":"; j += o[i]; if (i + 1 < k) for (size_t q = 0; q < o[i].size(); ++q) sym_check(o[i][q] != ':', "separator inside a field"); }
  sym_check(sym_streq(j, in), "splitn loses text");
}
static void t_paths() {
  int n = sym_param("n", 3);
  S l = sym_string(sym_choose(n + 1, "ln"), "left"), r = sym_string(sym_choose(n + 1, "rn"), "right");
  S o = istat::combine_paths(l, r);
  if (l.empty() || (r.size() && r[0] == '/')) sym_check(sym_streq(o, r), "absolute right side");
  else if (l[l.size() - 1] == '/') sym_check(sym_streq(o, l + r), "join");
  else sym_check(sym_streq(o, l + "/" + r), "join");
}
static void t_setname() {
  S in = sym_string(sym_param("n", 3), "name");
  bool v = istat::is_valid_settings_name(in);
  bool w = true;
  for (size_t i = 0; i < in.size(); ++i) { unsigned char c = in[i]; w = w && ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_' || c == '-' || c == '.'); }
  sym_check(v == w, "settings file name check");
}
int sym_main() {
  switch (sym_param("mode", 0)) {
  case 0: t_munge(); break;
  case 1: t_extract(); break;
  case 2: t_stripext(); break;
  case 3: t_prom(); break;
  case 4: t_interval(); break;
  case 5: t_intparse(); break;
  case 6: t_sqlq(); break;
  case 7: t_jsq(); break;
  case 8: t_json(); break;
  case 9: t_glob(); break;
  case 10: t_url(); break;
  case 11: t_query(); break;
  case 12: t_split(); break;
  case 13: t_splitn(); break;
  case 14: t_paths(); break;
  case 15: t_setname(); break;
  }
  sym_reach("end");
  return 0;
}
