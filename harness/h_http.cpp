// The HTTP server: parsing, replies, files, content encodings
#include "sym.h"
#include "symfs.h"
#include <boost/asio.hpp>
#include <boost/bind/bind.hpp>
#include <boost/make_shared.hpp>
#include "daemon/HttpServer.h"
#include "daemon/RequestInFlight.h"
#include "daemon/StatServer.h"
#include "daemon/Debug.h"
#include "daemon/PromServer.h"
#include "daemon/PromExporter.h"
#include <istat/istattime.h>
#include <istat/strfunc.h>
#include <vector>
#include <map>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
using namespace istat;
using boost::asio::io_service;
using boost::asio::sym_socket;
typedef std::string S;
typedef boost::asio::strand<io_service::executor_type> Strand;
extern "C" long sym_now;
// ---------------------------------------------------------------- the server around it, wired as main.cpp does
struct Ctr : IStatCounter {
  int id; Ctr(int i) : id(i) {}
  bool isCollated() const { return false; } void record(time_t, double, double, double, double, size_t) {} void flush(boost::shared_ptr<IStatStore> const &) {} void forceFlush(boost::shared_ptr<IStatStore> const &) {} void maybeShiftCollated(time_t) {} void purge(S) {}
  void select(time_t s, time_t e, bool, std::vector<Bucket> &o, time_t &ns, time_t &ne, time_t &iv, size_t) {
    ns = s / 10 * 10; ne = e / 10 * 10; iv = 10;
    if (id == 3) { double inf = strtod("inf", 0); o.push_back(Bucket(1e200, inf, -inf, inf, 2, ns)); return; }
    for (int i = 0; i < id && id < 4; ++i) o.push_back(Bucket(id * 10 + i, id * 100, 1, id * 5, 2, ns + i * 10));
  }
};
struct Store : NullStatStore {
  io_service &svc; boost::shared_ptr<IStatCounter> none, a, b, big; Strand sa, sb; S loc; std::vector<S> names;
  Store(io_service &s) : svc(s), none(new Ctr(4)), a(new Ctr(1)), b(new Ctr(2)), big(new Ctr(3)), sa(s.get_executor()), sb(s.get_executor()), loc("here") {} ~Store() {}
  void find(S const &c, boost::shared_ptr<IStatCounter> &o, Strand *&st) { st = 0; o.reset(); S m(c); munge(m); if (m == "a") { o = a; st = &sa; } if (m == "b.c") { o = b; st = &sb; } if (m == "big") { o = big; st = &sb; } if (m == "0") { o = none; st = &sa; } }
  void listMatchingCounters(S const &p, std::list<std::pair<S, CounterResponse> > &o) { for (size_t i = 0; i < names.size(); ++i) o.push_back(std::make_pair(names[i], CounterResponse(i & 1, i & 2 ? CounterResponse::DisplayTypeEvent : CounterResponse::DisplayTypeGauge))); }
  S const &getLocation() const { return loc; }
};
extern DebugOption debugPromServer;
static S filesDir = "files";
static void serving(HttpRequestHolder const &req, StatServer *ss) { boost::shared_ptr<RequestInFlight> rif = boost::make_shared<RequestInFlight>(req.p_, ss, filesDir); ss->service().post(boost::bind(&RequestInFlight::go, rif)); }
static void onReq(StatServer *ss, HttpRequestHolder const &req) { req->onHeader_.connect(boost::bind(serving, req, ss)); req->onError_.connect(boost::bind(serving, req, ss)); }
static void servingProm(HttpRequestHolder const &req, StatServer *ss) { boost::shared_ptr<RequestInFlight> rif = boost::make_shared<RequestInFlight>(req.p_, ss); ss->service().post(boost::bind(&RequestInFlight::goProm, rif)); }
static void onProm(StatServer *ss, HttpRequestHolder const &req) { req->onHeader_.connect(boost::bind(servingProm, req, ss)); req->onError_.connect(boost::bind(servingProm, req, ss)); }
struct Prom : PromServer { Prom(io_service &s) : PromServer(9000, s, "", 10) {} long current() { return sInfo_.current; } };
struct Http : HttpServer { Http(io_service &s) : HttpServer(8000, s, "", 10) {} long current() { return sInfo_.current; } long errors() { return sInfo_.numErrors.getAggregate(); } };
struct Server {
  Blacklist::Configuration bl; io_service svc; Store *store; boost::shared_ptr<IStatStore> st; boost::shared_ptr<IPromExporter> pe; StatServer *s; Http *h; Prom *p; boost::asio::ip::tcp::acceptor *ag, *hp;
  Server(int port = 0, bool prom = false) : h(0), p(0), ag(0) { bl.period = 0; store = new Store(svc); st.reset(store); if (prom) pe.reset(new PromExporter(svc)); else pe.reset(new NullPromExporter()); s = new StatServer(port, "", "", 0, 10, bl, svc, st, pe, 64, 10); if (port) ag = boost::asio::ip::tcp::acceptor::last(); if (prom) { p = new Prom(svc); p->onRequest_.connect(boost::bind(onProm, s, boost::placeholders::_1)); } else { h = new Http(svc); h->onRequest_.connect(boost::bind(onReq, s, boost::placeholders::_1)); } poll(); hp = boost::asio::ip::tcp::acceptor::last(); }
  // main.cpp's service loop
  void poll() { while (true) { try { svc.poll(); return; } catch (std::exception const &x) { sym_reach("exception"); } } }
  std::vector<sym_socket *> ags;
  void agent(S const &t) { sym_check(ag && ag->ac, "the server stopped accepting agents"); sym_socket *k = ag->sym_accept("5.6.7.8"); poll(); k->sym_feed(t.data(), t.size()); poll(); ags.push_back(k); }
  long current() { return h ? h->current() : p->current(); }
  ~Server() { delete h; delete p; delete s; pe.reset(); svc.clear(); }
};
// ---------------------------------------------------------------- one client
static sym_socket *find_sock(int id) { std::vector<sym_socket *> &a = sym_socket::all(); for (size_t i = 0; i < a.size(); ++i) if (a[i]->id == id) return a[i]; return 0; }
struct Client {
  Server &sv; int id; int closed0; static int &next() { static int n = 100; return n; }
  Client(Server &s) : sv(s) { closed0 = sym_socket::sym_closed(); boost::asio::ip::tcp::acceptor *ac = sv.hp; sym_check(ac && ac->ac, "the server stopped accepting connections"); sym_socket *k = ac->sym_accept("1.2.3.4"); k->id = id = ++next(); sv.poll(); }
  void send(S const &d) { sym_socket *k = find_sock(id); if (k && d.size()) k->sym_feed(d.data(), d.size()); sv.poll(); }
  void leave() { sym_socket *k = find_sock(id); if (k) k->sym_eof(); sv.poll(); }
  void broken() { sym_socket *k = find_sock(id); if (k) k->sym_read_error(boost::system::error_code(ECONNRESET, boost::system::system_category())); sv.poll(); }
  bool writing() { sym_socket *k = find_sock(id); return k && k->sym_writing(); }
  void drain(size_t step) { for (int i = 0; i < 100000 && writing(); ++i) { sym_socket *k = find_sock(id); k->sym_wrote(boost::system::error_code(), step ? step : k->sym_write_size()); sv.poll(); } }
  bool gone() { return find_sock(id) == 0; }
  S out() { sym_socket *k = find_sock(id); return k ? k->out : sym_socket::sym_last_out(); }
};
// a reply: status line, headers, blank line, a body of exactly Content-Length bytes
struct Reply { int code; std::map<S, S> h; S body; };
static bool parse(S const &o, Reply &r) {
  if (o.compare(0, 9, "HTTP/1.1 ") != 0) return false;
  r.code = atoi(o.c_str() + 9);
  size_t p = o.find("\r\n"); if (p == S::npos || r.code < 200 || r.code > 599) return false;
  p += 2;
  while (true) {
    size_t e = o.find("\r\n", p); if (e == S::npos) return false;
    if (e == p) { p += 2; break; }
    S l = o.substr(p, e - p); p = e + 2; size_t c = l.find(": "); if (c == S::npos) return false;
    for (size_t i = 0; i < c; ++i) l[i] = tolower(l[i]);
    if (r.h.count(l.substr(0, c))) return false;
    r.h[l.substr(0, c)] = l.substr(c + 2);
  }
  r.body = o.substr(p);
  S cl = r.h.count("content-length") ? r.h["content-length"] : "0";
  return (size_t)atoi(cl.c_str()) == r.body.size();
}
static Reply answered(Client &c, long code, const char *what) {
  Reply r; S o = c.out(); sym_show_str("out", o.data(), o.size());
  sym_check(parse(o, r), "not exactly one complete HTTP reply");
  if (code) { sym_show("code", r.code); sym_check(r.code == code, what); }
  return r;
}
static void idle(Server &sv, Client &c) {
  sym_check(c.gone(), "the connection stays open after the request has been answered");
  sym_show("current", sv.current()); sym_check(sv.current() == 0, "the count of current requests does not return to zero");
  boost::asio::ip::tcp::acceptor *ac = sv.hp; sym_check(ac && ac->ac && !ac->overlapped, "the server stopped accepting connections");
}
static S get(Server &sv, S const &req) { Client c(sv); c.send(req); c.drain(0); S o = c.out(); idle(sv, c); return o; }
// ---------------------------------------------------------------- a small JSON reader
struct J { int t; std::vector<std::pair<S, J> > m; S s; double n; J() : t(0), n(0) {} const J *at(S const &k) const { for (size_t i = 0; i < m.size(); ++i) if (m[i].first == k) return &m[i].second; return 0; } };   // 1 object 2 array 3 string 4 number 5 true 6 false 7 null
static bool ws(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
static void sk(S const &s, size_t &p) { while (p < s.size() && ws(s[p])) ++p; }
static bool jstr(S const &s, size_t &p, S &o) {
  if (p >= s.size() || s[p] != '"') return false;
  ++p; o = "";
  while (p < s.size()) {
    unsigned char c = s[p++];
    if (c == '"') return true;
    if (c < 0x20) return false;
    if (c == '\\') { if (p >= s.size()) return false; char e = s[p++]; if (e == '"' || e == '\\' || e == '/') o += e; else if (e == 'n') o += '\n'; else if (e == 'r') o += '\r'; else if (e == 't') o += '\t'; else if (e == 'b') o += '\b'; else if (e == 'f') o += '\f'; else if (e == 'u') { if (p + 4 > s.size()) return false; unsigned v = 0; for (int i = 0; i < 4; ++i) { char h = s[p++]; int d; if (h >= '0' && h <= '9') d = h - '0'; else if (h >= 'a' && h <= 'f') d = h - 'a' + 10; else if (h >= 'A' && h <= 'F') d = h - 'A' + 10; else return false; v = v * 16 + d; } o += (char)v; } else return false; }
    else o += (char)c;
  }
  return false;
}
static bool jval(S const &s, size_t &p, J &j) {
  sk(s, p); if (p >= s.size()) return false;
  char c = s[p];
  if (c == '{' || c == '[') {
    bool ob = c == '{'; j.t = ob ? 1 : 2; ++p; sk(s, p);
    if (p < s.size() && s[p] == (ob ? '}' : ']')) { ++p; return true; }
    while (true) {
      std::pair<S, J> e; sk(s, p);
      if (ob) { if (!jstr(s, p, e.first)) return false; if (j.at(e.first)) return false; sk(s, p); if (p >= s.size() || s[p] != ':') return false; ++p; }
      if (!jval(s, p, e.second)) return false;
      j.m.push_back(e); sk(s, p); if (p >= s.size()) return false;
      if (s[p] == ',') { ++p; continue; }
      if (s[p] == (ob ? '}' : ']')) { ++p; return true; }
      return false;
    }
  }
  if (c == '"') { j.t = 3; return jstr(s, p, j.s); }
  if (s.compare(p, 4, "true") == 0) { j.t = 5; p += 4; return true; }
  if (s.compare(p, 5, "false") == 0) { j.t = 6; p += 5; return true; }
  if (s.compare(p, 4, "null") == 0) { j.t = 7; p += 4; return true; }
  size_t b = p; if (c == '-') ++p;
  if (p >= s.size() || s[p] < '0' || s[p] > '9') return false;
  if (s[p] == '0') ++p; else while (p < s.size() && s[p] >= '0' && s[p] <= '9') ++p;
  if (p < s.size() && s[p] == '.') { ++p; if (p >= s.size() || s[p] < '0' || s[p] > '9') return false; while (p < s.size() && s[p] >= '0' && s[p] <= '9') ++p; }
  if (p < s.size() && (s[p] == 'e' || s[p] == 'E')) { ++p; if (p < s.size() && (s[p] == '+' || s[p] == '-')) ++p; if (p >= s.size() || s[p] < '0' || s[p] > '9') return false; while (p < s.size() && s[p] >= '0' && s[p] <= '9') ++p; }
  j.t = 4; j.n = strtod(s.substr(b, p - b).c_str(), 0); return true;
}
static bool json(S const &s, J &j) { size_t p = 0; if (!jval(s, p, j)) return false; sk(s, p); return p == s.size(); }
static J reply_json(Reply const &r) { J j; sym_show_str("body", r.body.data(), r.body.size()); sym_check(json(r.body, j) && j.t == 1, "the reply is not a valid JSON object"); return j; }
// ---------------------------------------------------------------- arbitrary request bytes
static void bytes() {
  int n = sym_param("n", 2), where = sym_param("where", 0);
  static const char *PRE[] = {"", "GET / HTTP/1.1\r\n", "GET ", "POST /* HTTP/1.1\r\nContent-Length: ", "GET /a?", "POST /x?s=q HTTP/1.1\r\nContent-Length: 2\r\n", "\r\n\r\n", "GET /a HTTP/1.1\r\nA: b\r\n"};
  static const char *POST[] = {"\r\n\r\n", "\r\n\r\n", " HTTP/1.1\r\nA: b\r\n\r\n", "\r\n\r\n{}", " HTTP/1.1\r\nA: b\r\n\r\n", "\r\n\r\n{}", "", "C: d\r\n\r\n"};
  sym_budget(20000000);
  Server sv;
  S good = get(sv, "GET /nope HTTP/1.1\r\nA: b\r\n\r\n");
  Client c(sv);
  c.send(S(PRE[where]) + sym_string(n, "bytes") + POST[where]);
  if (!c.writing()) { c.leave(); sym_reach("incomplete"); }
  c.drain(0);
  if (!c.gone()) c.leave();
  c.drain(0);
  S o = c.out();
  if (o.size()) answered(c, 0, "");
  idle(sv, c);
  S again = get(sv, "GET /nope HTTP/1.1\r\nA: b\r\n\r\n");
  sym_check(again == good, "a later request is answered differently");
  sym_reach("done"); sym_expect("done");
}
// ---------------------------------------------------------------- well-formed and broken requests, any segmentation, client leaving
struct Rq { const char *t; int code; };
static const Rq RQ[] = {
  {"GET /a HTTP/1.1\r\nHost: x\r\n\r\n", 200}, {"GET /nope?start=1 HTTP/1.0\r\nHost: x\r\n\r\n", 404}, {"GET /a?start=x HTTP/1.1\r\nHost: x\r\n\r\n", 400}, {"OPTIONS /a HTTP/1.1\r\nReferer: http://q/x\r\n\r\n", 204}, {"PUT /a HTTP/1.1\r\nHost: x\r\n\r\n", 405},
  {"GET /?q=* HTTP/1.1\r\nHost: x\r\n y\r\n\r\n", 200}, {"POST /b HTTP/1.1\r\nContent-Length: 2\r\n\r\n{}", 404}, {"POST /* HTTP/1.1\r\nContent-Length: 41\r\n\r\n{\"start\":10,\"stop\":40,\"keys\":[\"a\",\"b.c\"]}", 200},
  {"POST /* HTTP/1.1\r\nContent-Length: 5\r\n\r\n{{{{{", 400}, {"POST /* HTTP/1.1\r\nHost: x\r\n\r\n", 400}, {"POST /* HTTP/1.1\r\nContent-Length: x\r\n\r\n", 400}, {"POST /* HTTP/1.1\r\nContent-Length: -1\r\n\r\n", 400}, {"POST /* HTTP/1.1\r\nContent-Length: 99999999999999\r\n\r\n", 400}, {"POST /* HTTP/1.1\r\nContent-Length: 99999999999999999999999\r\n\r\n", 400}, {"POST /* HTTP/1.1\r\nContent-Length: 0\r\n\r\n", 400},
  {"GET ?q=* HTTP/1.1\r\nHost: x\r\n\r\n", 400}, {"GET\r\n\r\n", 400}, {"\r\n\r\n", 400}, {"GET /a\r\nHost: x\r\n\r\n", 0}, {"GET  HTTP/1.1\r\nHost: x\r\n\r\n", 0}, {"GET a?f HTTP/1.1\r\nHost: x\r\n\r\n", 0}, {"GET /a?end=5&start=9 HTTP/1.1\r\nHost: x\r\n\r\n", 400}, {"GET /a?start=99999999999999999999 HTTP/1.1\r\nHost: x\r\n\r\n", 400}, {"GET /a?format=xml HTTP/1.1\r\nHost: x\r\n\r\n", 400}, {"GET /a?format=csv&start=10&end=30 HTTP/1.1\r\nHost: x\r\n\r\n", 200}};
static const int NRQ = sizeof(RQ) / sizeof(RQ[0]);
static void requests() {
  sym_budget(40000000);
  int lo = sym_param("lo", 0), n = sym_param("cnt", NRQ), twice = sym_param("cuts", 1);
  int k = lo + sym_choose(n, "request"); if (k >= NRQ) return;
  Server sv; S t = RQ[k].t; sym_show_str("request", t.data(), t.size());
  int end = sym_param("end", 0);   // 0 stays 1 leaves early 2 connection breaks 3 reply cannot be sent
  size_t c1 = sym_choose(t.size() + 1, "cut"), c2 = twice > 1 ? c1 + sym_choose(t.size() + 1 - c1, "cut2") : t.size();
  if (end == 0) {
    S whole = get(sv, t);
    Client d(sv); d.send(t.substr(0, c1)); d.send(t.substr(c1, c2 - c1)); d.send(t.substr(c2)); d.drain(0);
    Reply r = answered(d, RQ[k].code, "a request was answered with another status");
    sym_check(d.out() == whole, "the reply depends on how the request was cut into segments");
    sym_check(r.h.count("content-type") && r.h.count("connection") && r.h["connection"] == "close", "reply headers");
    if (r.h["content-type"] == "application/json" && (r.body.size() || r.code >= 400)) { J j = reply_json(r); if (r.code >= 400) sym_check(j.at("error") && j.at("error")->t == 3 && j.at("error")->s.size(), "an error reply does not say what is wrong"); }
    idle(sv, d); sym_reach("answered"); sym_expect("answered");
    return;
  }
  Client c(sv); c.send(t.substr(0, c1)); if (twice > 1) c.send(t.substr(c1, c2 - c1));
  if (end == 1) c.leave(); else if (end == 2) c.broken(); else { c.send(t.substr(twice > 1 ? c2 : c1)); sym_socket *s = find_sock(c.id); if (s && s->sym_writing()) { s->sym_wrote(boost::system::error_code(ECONNRESET, boost::system::system_category()), 0); sv.poll(); } }
  c.drain(0);
  if (!c.gone() && end == 1) { sym_show("left open", 1); }
  if (c.out().size() && end != 3) answered(c, 0, "");
  idle(sv, c);
  S o = get(sv, "GET /nope HTTP/1.1\r\nA: b\r\n\r\n"); Reply r; sym_check(parse(o, r) && r.code == 404, "the next request is not answered");
  sym_reach("gone"); sym_expect("gone");
}

// ---------------------------------------------------------------- content encodings
static bool near(double a, double b) { return a == b || (a - b < 1e-4 * (b < 0 ? -b : b) && b - a < 1e-4 * (b < 0 ? -b : b)); }
static const char *EN[] = {"gzip", "deflate", "identity", "*", "br"};
static const struct { const char *t; double q; } QV[] = {{"", 1}, {";q=0", 0}, {";q=0.5", .5}, {"; q=0.53", .53}, {";q=1.0", 1}, {" ; q = 0.04", .04}};
static void encodings() {
  sym_budget(20000000);
  int n = sym_choose(sym_param("n", 3) + 1, "parts"); bool used[5] = {0, 0, 0, 0, 0}; double q[5] = {-1, -1, -1, -1, -1}; S h;
  const char *sep = n > 1 && sym_choose(2, "separator") ? "," : ", ";
  for (int i = 0; i < n; ++i) { int e = sym_choose(5, "name"); if (used[e]) return; used[e] = true; int v = sym_choose(sym_param("q", 6), "q"); q[e] = QV[v].q; if (i) h += sep; h += S(EN[e]) + QV[v].t; }
  sym_show_str("header", h.data(), h.size());
  boost::iostreams::filtering_ostream::sym_last() = "";
  Server sv; symfs_mkdirs("files"); symfs_put("files/x.js", 0, "some text", 9);
  static const char *URL[] = {"/a?start=10&end=40", "/files/x.js", "/?q=*", "/nope"}; static const int CODE[] = {200, 200, 200, 404}; int u = sym_choose(sym_param("urls", 4), "url");
  Client c(sv); c.send(S("GET ") + URL[u] + " HTTP/1.1\r\n" + (n ? "Accept-Encoding: " + h + "\r\n" : "") + "Host: x\r\n\r\n"); c.drain(0);
  Reply r = answered(c, CODE[u], "status"); idle(sv, c);
  S applied = boost::iostreams::filtering_ostream::sym_last(), said = r.h.count("content-encoding") ? r.h["content-encoding"] : "";
  sym_show_str("applied", applied.data(), applied.size()); sym_show_str("said", said.data(), said.size());
  sym_check(applied == said, "the Content-Encoding header differs from the encoding applied");
  sym_check(r.body.size() > 0, "empty body");
  if (said.size()) {
    int e = said == "gzip" ? 0 : said == "deflate" ? 1 : 9; sym_check(e < 2, "an unknown encoding was chosen");
    double w = q[e] >= 0 ? q[e] : q[3];
    sym_check(w > 0, "an encoding the client does not accept was chosen");
    for (int i = 0; i < 3; ++i) sym_check(q[i] <= w, "an encoding the client ranks below another was chosen");
    sym_reach("compressed");
  } else {
    sym_check(!(q[0] == 1 && n == 1), "gzip was offered and not used"); sym_check(!(q[1] == 1 && n == 1), "deflate was offered and not used");
    sym_reach("plain");
  }
  sym_expect("compressed"); sym_expect("plain");
}
// any header value: one reply
static void oddencodings() {
  sym_budget(20000000);
  static const char *T[] = {"", " ", ",", ",,", "gzip,", ",gzip", ";q=1", "=", "gzip;q=", "gzip;q=x", "gzip;", ";", "*;q=0,*", "gzip gzip", "gzip;q=1;q=0", "gzip;q=1e999", "gzip;q=nan", "gzip;q=-1"};
  const int NT = sizeof(T) / sizeof(T[0]); int k = sym_choose(NT + 2, "header");
  S h = k < NT ? S(T[k]) : k == NT ? sym_string(sym_param("n", 2), "bytes") : "gzip;" + sym_string(sym_param("n", 2), "bytes");
  for (size_t i = 0; i < h.size(); ++i) if (k >= NT) sym_assume((h[i] != '\r') & (h[i] != '\n'));
  sym_show_str("header", h.data(), h.size());
  Server sv; Client c(sv); c.send("GET /a?start=10&end=40 HTTP/1.1\r\nAccept-Encoding: " + h + "\r\nHost: x\r\n\r\n"); c.drain(0);
  answered(c, 200, "status"); idle(sv, c); sym_reach("done"); sym_expect("done");
}
// ---------------------------------------------------------------- static files
static S rdfile(S const &p) { long n = symfs_size(p.c_str()); if (n <= 0) return ""; S b(n, 0); symfs_read(p.c_str(), 0, &b[0], n); return b; }
static void files() {
  sym_budget(20000000);
  symfs_mkdirs("files/sub"); symfs_mkdirs("aa");
  static const char *F[] = {"files/index.html", "files/a", "files/a.a", "files/.a", "files/aa", "files/..a", "files/favicon.ico", "files/sub/a", "a", "aa/a", "/a", "A", "files/A.A"};
  for (size_t i = 0; i < sizeof(F) / sizeof(F[0]); ++i) { S t = S("[") + F[i] + "]"; symfs_put(F[i], 0, t.data(), t.size()); }
  symfs_resize("files/.aa", 1024 * 1024 + 1); symfs_put("files/A", 0, "", 0); symfs_put("files/Aa", 0, "x", 1); symfs_put("files/aA", 0, "\0\n", 2); symfs_resize("files/AA", 1024 * 1024);
  Server sv; int form = sym_choose(5, "form"); S name, url, want;
  if (form < 2) {
    if (sym_param("arb", 0)) { name = sym_string(sym_param("n", 3), "name"); for (size_t i = 0; i < name.size(); ++i) sym_assume((name[i] != ' ') & (name[i] != '\t') & (name[i] != '\r') & (name[i] != '\n') & (name[i] != 0)); }
    else { int n = sym_choose(sym_param("n", 4) + 1, "len"); static const char AL[] = "./aA%"; for (int i = 0; i < n; ++i) name += AL[sym_choose(sym_param("letters", 4), "char")]; }
    url = (form == 0 ? "/files/" : "/?f=") + name; want = name; for (size_t i = 0; i < want.size(); ++i) if (want[i] == '/') want[i] = '.';
    want = "files/" + want;
    if (form == 1 && name == "") want = "files/";
  } else { url = form == 2 ? "/" : form == 3 ? "/favicon.ico" : "/files/index.html"; want = form == 3 ? "files/favicon.ico" : "files/index.html"; }
  sym_show_str("url", url.data(), url.size());
  Client c(sv); c.send("GET " + url + " HTTP/1.1\r\nHost: x\r\n\r\n"); c.drain(0);
  Reply r = answered(c, 0, ""); sym_show("code", r.code); idle(sv, c);
  bool there = symfs_exists(want.c_str()) && !symfs_isdir(want.c_str());
  if (there && symfs_size(want.c_str()) <= 1024 * 1024) { sym_check(r.code == 200, "a file is not served"); sym_check(r.body == rdfile(want), "the reply is not the content of the named file"); sym_reach("served"); }
  else { sym_check(r.code != 200, "something that is not a file of the files directory was served"); sym_check(r.body.find('[') == S::npos, "bytes of a file outside the files directory were served"); sym_reach("refused"); }
  sym_check(symfs_open_fds() == 0, "a file stays open after it was served");
  sym_expect("served"); sym_expect("refused");
}
// ---------------------------------------------------------------- multi-get
static S quoted(S const &s) { S o = "\""; for (size_t i = 0; i < s.size(); ++i) { if (s[i] == '"' || s[i] == '\\') o += '\\'; if (s[i] == '\n') { o += "\\n"; continue; } o += s[i]; } return o + "\""; }
static S num(long v) { char b[32]; snprintf(b, sizeof b, "%ld", v); return b; }
static S post(S const &body) { return "POST /* HTTP/1.1\r\nContent-Length: " + num(body.size()) + "\r\n\r\n" + body; }
static void series(J const &j, int id, long s, long e, bool compact) {
  sym_check(j.at("start") && j.at("start")->n == s / 10 * 10 && j.at("end") && j.at("end")->n == e / 10 * 10 && j.at("interval") && j.at("interval")->n == 10, "the range of a counter in a multi-get reply");
  J const *d = j.at("data"); sym_check(d && d->t == 2 && (int)d->m.size() == id, "the number of buckets in a multi-get reply");
  for (int i = 0; i < id; ++i) {
    J const &b = d->m[i].second; double v[8] = {(double)(s / 10 * 10 + i * 10), 1, (double)id * 5, 2, (double)id * 10 + i, (double)id * 100, 0, 0}; Bucket ref(id * 10 + i, id * 100, 1, id * 5, 2, s / 10 * 10 + i * 10); v[1] = ref.count(); v[2] = ref.min(); v[3] = ref.max(); v[6] = ref.avg(); v[7] = ref.sdev();
    static const char *N[] = {"time", "count", "min", "max", "sum", "sumsq", "avg", "sdev"};
    for (int f = 0; f < 8; ++f) { J const *x = compact ? (f < (int)b.m.size() ? &b.m[f].second : 0) : b.at(N[f]); sym_check(x && x->t == 4 && near(x->n, v[f]), "a value of a bucket in a multi-get reply"); }
  }
}
static const char *KEYS[] = {"a", "b.c", "nope", "B.c", "x\"y", "q\\", "", "n\nl", "it's", "big", "0"};
static void multiget() {
  sym_budget(40000000);
  int n = sym_choose(sym_param("n", 2) + 1, "keys"), nk = sym_param("alphabet", 11); S body = "{\"start\":10,\"stop\":45,\"keys\":["; std::vector<S> k;
  for (int i = 0; i < n; ++i) { k.push_back(KEYS[sym_choose(nk, "key")]); body += (i ? "," : "") + quoted(k[i]); }
  int compact = sym_choose(2, "compact"); body += S("]") + (compact ? ",\"compact\":true" : "") + (sym_choose(2, "trailing") ? ",\"trailing\":1" : "") + "}";
  sym_show_str("body", body.data(), body.size());
  Server sv; Client c(sv); c.send(post(body)); c.drain(0);
  Reply r = answered(c, 200, "a multi-get request was not answered with 200"); idle(sv, c); sym_check(r.h["content-type"] == "application/json", "content type");
  J j = reply_json(r); bool any = false; int members = 0;
  for (int i = 0; i < n; ++i) {
    bool seen = false; for (int l = 0; l < i; ++l) seen = seen || k[l] == k[i];
    if (!seen) ++members;
    J const *v = j.at(k[i]); sym_show_str("key", k[i].data(), k[i].size()); sym_check(v != 0, "a requested counter is missing from the reply");
    int id = k[i] == "a" ? 1 : k[i] == "b.c" || k[i] == "B.c" ? 2 : k[i] == "big" ? 3 : k[i] == "0" ? 4 : 0;
    if (!id) { sym_check(v->t == 3 && v->s == "Not found.", "an unknown counter is not reported as not found"); sym_reach("missing"); }
    else { any = true; sym_check(v->t == 1, "a known counter is not reported"); if (id != 3) series(*v, id % 4, 10, 45, compact); else sym_check(v->at("data") && v->at("data")->m.size() == 1, "the number of buckets in a multi-get reply"); sym_reach("found"); }
  }
  if (any) { members += 3; sym_check(j.at("start") && j.at("start")->n == 10 && j.at("stop") && j.at("stop")->n == 40 && j.at("interval") && j.at("interval")->n == 10, "the range of a multi-get reply"); }
  sym_check((int)j.m.size() == members, "a multi-get reply has members nobody asked for");
  sym_expect("missing"); sym_expect("found");
}
// bodies that are not multi-get requests
static const struct { const char *t; int code; } BODY[] = {{"[1]", 400}, {"5", 400}, {"\"x\"", 400}, {"true", 400}, {"null", 400}, {"{}", 400}, {"{\"keys\":5}", 400}, {"{\"keys\":{}}", 400}, {"{\"keys\":[]}", 200}, {"{\"keys\":[{}]}", 400}, {"{\"keys\":[\"a\",[1]]}", 400}, {"{\"keys\":[\"a\",null]}", 200}, {"{\"keys\":[5,true]}", 0}, {"{\"start\":{},\"keys\":[]}", 400}, {"{\"start\":\"x\",\"keys\":[]}", 400}, {"{\"start\":99999999999999999999,\"keys\":[]}", 400}, {"{\"start\":1e300,\"keys\":[]}", 400}, {"{\"start\":-1,\"keys\":[]}", 400}, {"{\"start\":5,\"stop\":4,\"keys\":[]}", 400}, {"{\"start\":5,\"keys\":[\"a\"]}", 400}, {"{\"start\":5,\"stop\":-4,\"keys\":[]}", 400}, {"{\"maxSamples\":-1,\"keys\":[\"a\"]}", 400}, {"{\"maxSamples\":3000000000,\"keys\":[\"a\"]}", 400}, {"{\"compact\":[],\"keys\":[\"a\"]}", 200}, {"{\"compact\":\"x\",\"trailing\":\"y\",\"keys\":[\"a\"]}", 200}, {"{\"keys\":[\"a\"]", 400}, {"{\"keys\":[\"a]}", 400}, {"{\"keys\":[\"\\u00\"]}", 400}, {"/*", 400}, {"//", 400}, {"\"", 400}, {"-", 0}, {"t", 400}, {"{\"keys\":[\"a\",\"a\",\"a\"]}", 200}};
static void bodies() {
  sym_budget(60000000);
  const int N = sizeof(BODY) / sizeof(BODY[0]); int w = sym_choose(N + 3, "body"); S b; int code = 0;
  if (w < N) { b = BODY[w].t; code = BODY[w].code; }
  else if (w == N) { b = sym_string(sym_param("n", 2), "bytes"); }
  else if (w == N + 1) { b = S(sym_param("deep", 300000), '['); code = 400; }
  else { b = "{\"keys\":[\"" + sym_string(sym_param("n", 2), "bytes") + "\"]}"; }
  sym_show_str("body", b.data(), b.size() > 60 ? 60 : b.size());
  Server sv; Client c(sv); c.send(post(b)); c.drain(0);
  Reply r = answered(c, code, "a request body was answered with another status"); idle(sv, c);
  J j = reply_json(r); if (r.code != 200) sym_check(j.at("error") && j.at("error")->t == 3, "an error reply does not say what is wrong");
  S o = get(sv, "GET /a?start=10&end=30 HTTP/1.1\r\nHost: x\r\n\r\n"); Reply r2; sym_check(parse(o, r2) && r2.code == 200, "the next request is not answered");
  sym_reach("done"); sym_expect("done");
}
// ---------------------------------------------------------------- listing, agents, single counter
static S hexd(int v) { static const char H[] = "0123456789abcdef"; return S("%") + H[v >> 4] + H[v & 15]; }
static void listing() {
  sym_budget(20000000);
  Server sv; int n = sym_choose(3, "names"); for (int i = 0; i < n; ++i) sv.store->names.push_back(i ? "n.two" : "n");
  S pat = sym_string(sym_param("n", 2), "pattern");
  // as a browser would send it: every byte escaped; NUL cannot be part of a pattern
  S url = "/?q="; static const char H[] = "0123456789abcdef"; for (size_t i = 0; i < pat.size(); ++i) { sym_assume(pat[i] != 0); unsigned char v = pat[i]; url += '%'; url += H[v >> 4]; url += H[v & 15]; }
  Client c(sv); c.send("GET " + url + " HTTP/1.1\r\nHost: x\r\n\r\n"); c.drain(0);
  Reply r = answered(c, 200, "status"); idle(sv, c); J j = reply_json(r);
  sym_check(j.at("pattern") && j.at("pattern")->t == 3 && j.at("pattern")->s == pat, "the listing does not repeat the pattern");
  J const *m = j.at("matching_names"); sym_check(m && m->t == 2 && (int)m->m.size() == n, "the listing does not name every matching counter");
  for (int i = 0; i < n; ++i) { J const &e = m->m[i].second; sym_check(e.at("name") && e.at("name")->s == sv.store->names[i] && e.at("is_leaf") && e.at("is_leaf")->t == (i & 1 ? 5 : 6) && e.at("type"), "an entry of the listing"); }
  sym_check(j.at("type_mapping") && j.at("type_mapping")->m.size() >= 2, "the listing lacks the type mapping"); sym_reach("listed"); sym_expect("listed");
}
static void agents() {
  sym_budget(20000000);
  Server sv(8111); int n = sym_choose(3, "agents"); 
  S t = n ? sym_string(sym_param("n", 2), "text") : S();
  for (size_t i = 0; i < t.size(); ++i) sym_assume((t[i] != '\r') & (t[i] != '\n') & (t[i] != 0) & (t[i] != ' ') & (t[i] != '\t') & (t[i] != '\v') & (t[i] != '\f') & (t[i] != ','));
  for (int i = 0; i < n; ++i) sv.agent(i ? "#hostname two\r\n#online 1\r\n" : "#hostname " + t + "\r\n#k" + t + " v\r\n");
  int gone = n ? sym_choose(n + 1, "gone") : 0; if (gone) { sv.ags[gone - 1]->sym_eof(); sv.poll(); }
  Client c(sv); c.send("GET /?a=* HTTP/1.1\r\nHost: x\r\n\r\n"); c.drain(0);
  Reply r = answered(c, 200, "status"); idle(sv, c); J j = reply_json(r);
  sym_check(j.at("count") && j.at("count")->n == n, "the number of agents"); J const *a = j.at("agents"); sym_check(a && a->t == 2 && (int)a->m.size() == n, "the agents are not all listed");
  bool found = n == 0; for (int i = 0; i < n; ++i) { J const *h = a->m[i].second.at("hostname"); if (h && h->t == 3 && h->s == t) found = true; }
  int off = 0; for (int i = 0; i < n; ++i) { J const &x = a->m[i].second; J const *o = x.at("_online"), *h = x.at("hostname"); sym_check(o && (o->t == 5 || o->t == 6), "the list of agents does not say who is connected"); if (o->t == 6) { ++off; bool two = h && h->s == "two"; if (t != "two") sym_check(two == (gone == 2), "the list of agents names the wrong agent as disconnected"); } }
  sym_check(off == (gone ? 1 : 0), "the list of agents is wrong about who is connected"); if (gone) sym_reach("disconnected");
  sym_check(found, "an agent's text is changed in the list of agents"); sym_reach("agents"); sym_expect("agents"); sym_expect("disconnected");
}
static const long TV[] = {-99, 0, 5, 40, 1699999000, 1700000000, 1700001000};
static void single() {
  sym_budget(20000000);
  Server sv; long st = TV[sym_choose(7, "start")], en = TV[sym_choose(7, "end")]; static const char *FM[] = {"", "json", "csv"}; int f = sym_choose(3, "format"); int tr = sym_choose(2, "trailing");
  static const char *CN[] = {"a", "b.c", "B.C", "nope", "big", "0"}; int cn = sym_choose(6, "counter");
  S url = S("/") + CN[cn]; S sepc = "?"; if (st != -99) { url += sepc + "start=" + num(st); sepc = "&"; } if (en != -99) { url += sepc + "end=" + num(en); sepc = "&"; } if (f) { url += sepc + "format=" + FM[f]; sepc = "&"; } if (tr) url += sepc + "trailing=1";
  sym_show_str("url", url.data(), url.size());
  Client c(sv); c.send("GET " + url + " HTTP/1.1\r\nHost: x\r\n\r\n"); c.drain(0);
  long s = st == -99 ? 0 : st, e = en == -99 ? 0 : en, code = 200;
  if (!s && !e) { e = sym_now; s = e - 900; } else { if (e && !s) s = e > 900 ? e - 900 : 0; if (e < s) { if (e) code = 400; else e = s + 900; } }
  int id = cn == 5 ? 0 : cn == 0 || cn == 4 ? 1 : 2; if (cn == 3) code = code == 400 ? 400 : 404;
  Reply r = answered(c, code, "a counter request was answered with another status"); idle(sv, c);
  if (code != 200) { J j = reply_json(r); sym_check(j.at("error") != 0, "no error text"); sym_reach("refused"); return; }
  if (f < 2) {
    J j = reply_json(r); J const *b = j.at("buckets"); sym_check(j.at("start") && j.at("start")->n == s / 10 * 10 && j.at("end")->n == e / 10 * 10 && j.at("interval")->n == 10, "the range of a counter reply");
    sym_check(b && b->t == 2 && (int)b->m.size() == id, "the number of buckets of a counter reply"); if (cn == 4) return;
    for (int i = 0; i < id; ++i) { J const &x = b->m[i].second; J const *d = x.at("data"); Bucket ref(id * 10 + i, id * 100, 1, id * 5, 2, s / 10 * 10 + i * 10); sym_check(x.at("time") && x.at("time")->n == ref.time() && d && d->at("count")->n == ref.count() && near(d->at("min")->n, ref.min()) && near(d->at("max")->n, ref.max()) && near(d->at("sum")->n, ref.sum()) && near(d->at("sumsq")->n, ref.sumSq()) && near(d->at("avg")->n, ref.avg()) && near(d->at("sdev")->n, ref.sdev()), "a bucket of a counter reply"); }
    sym_reach("json");
  } else {
    sym_check(r.h["content-type"] == "text/csv", "content type"); int lines = 0; for (size_t i = 0; i < r.body.size(); ++i) lines += r.body[i] == '\n'; sym_check(lines == id + 1, "the number of lines of a CSV reply");
    size_t p = r.body.find('\n') + 1; if (cn == 4) return;
    for (int i = 0; i < id; ++i) { size_t q = r.body.find('\n', p); S l = r.body.substr(p, q - p); p = q + 1; std::vector<S> v; size_t b = 0; while (true) { size_t x = l.find(',', b); if (x == S::npos) { v.push_back(l.substr(b)); break; } v.push_back(l.substr(b, x - b)); b = x + 1; }
      Bucket ref(id * 10 + i, id * 100, 1, id * 5, 2, s / 10 * 10 + i * 10); sym_check(v.size() == 9, "the number of CSV fields"); sym_check(atol(v[1].c_str()) == ref.time() && atol(v[2].c_str()) == (long)ref.count() && near(strtod(v[3].c_str(), 0), ref.min()) && near(strtod(v[4].c_str(), 0), ref.max()) && near(strtod(v[5].c_str(), 0), ref.sum()) && near(strtod(v[6].c_str(), 0), ref.sumSq()) && near(strtod(v[7].c_str(), 0), ref.avg()) && near(strtod(v[8].c_str(), 0), ref.sdev()), "a line of a CSV reply"); }
    sym_reach("csv");
  }
  sym_expect("json"); sym_expect("csv"); sym_expect("refused");
}
// ---------------------------------------------------------------- Prometheus
struct Smp { S name; std::map<S, S> l; double v; S vt; long ms; S key() const { S k = name; for (std::map<S, S>::const_iterator p = l.begin(); p != l.end(); ++p) k += "|" + p->first + "=" + p->second; return k; } };
struct Page { std::vector<Smp> s; std::map<S, S> type; bool twice; };
static bool n0(char c) { return isalpha((unsigned char)c) || c == '_' || c == ':'; }
static bool label0(char c) { return isalpha((unsigned char)c) || c == '_'; }
static bool exposition(S const &b, Page &g, bool &twice) { // the text format, version 0.0.4
  size_t p = 0; std::map<S, int> seen; twice = false;
  if (b.size() && b[b.size() - 1] != '\n') return false;
  while (p < b.size()) {
    size_t e = b.find('\n', p); S l = b.substr(p, e - p); p = e + 1; if (l.empty()) continue;
    if (l.compare(0, 7, "# TYPE ") == 0) { size_t q = l.find(' ', 7); if (q == S::npos) return false; S n = l.substr(7, q - 7), t = l.substr(q + 1); if (t != "gauge" && t != "counter") return false; if (seen.count(n)) return false; if (g.type.count(n)) { if (g.type[n] != t || t == "gauge") return false; twice = true; } g.type[n] = t; continue; }
    if (l[0] == '#') continue;
    Smp s; size_t i = 0; if (!n0(l[0])) return false; while (i < l.size() && (n0(l[i]) || isdigit((unsigned char)l[i]))) ++i; s.name = l.substr(0, i); if (!g.type.count(s.name)) return false;
    if (g.type[s.name] == "gauge") seen[s.name] = 1;
    if (i < l.size() && l[i] == '{') { ++i;
      while (i < l.size() && l[i] != '}') {
        size_t a = i; if (!label0(l[i])) return false; while (i < l.size() && (label0(l[i]) || isdigit((unsigned char)l[i]))) ++i; S k = l.substr(a, i - a);
        if (i + 1 >= l.size() || l[i] != '=' || l[i + 1] != '"') return false; i += 2; S v;
        while (i < l.size() && l[i] != '"') { if (l[i] == '\\') { ++i; if (i >= l.size()) return false; if (l[i] == 'n') v += '\n'; else if (l[i] == '\\' || l[i] == '"') v += l[i]; else return false; } else v += l[i]; ++i; }
        if (i >= l.size()) return false; ++i; if (s.l.count(k)) return false; s.l[k] = v;
        if (i < l.size() && l[i] == ',') ++i; else if (i >= l.size() || l[i] != '}') return false;
      }
      if (i >= l.size()) return false; ++i;
    }
    if (i >= l.size() || l[i] != ' ') return false; ++i; size_t q = l.find(' ', i); if (q == S::npos) return false;
    char *z; s.vt = l.substr(i, q - i); s.v = strtod(s.vt.c_str(), &z); if (*z || s.vt.empty()) return false; S ts = l.substr(q + 1); if (ts.empty() || ts.find_first_not_of("-0123456789") != S::npos) return false; s.ms = atol(ts.c_str());
    g.s.push_back(s);
  }
  return true;
}
static Page scrape(Server &sv) {
  S o = get(sv, "GET /metrics HTTP/1.1\r\nHost: x\r\n\r\n"); Reply r; sym_show_str("page", o.data(), o.size()); sym_check(parse(o, r), "not exactly one complete HTTP reply"); sym_check(r.code == 200, "the metrics page is refused"); sym_check(r.h["content-type"].compare(0, 10, "text/plain") == 0, "the metrics page is not labelled as text");
  Page g; bool twice; sym_check(exposition(r.body, g, twice), "the metrics page is not valid Prometheus text"); g.twice = twice; return g;
}
static bool near_(double a, double b) { double d = a - b, m = a < 0 ? -a : a; if (d < 0) d = -d; return d <= m * 1e-13 || a == b; }
// what is on the page, computed from the lines sent
struct PM { std::map<S, Smp> ctr; std::vector<Smp> g; };
static S pm(S n) { for (size_t i = 0; i < n.size(); ++i) { unsigned char c = n[i]; n[i] = isalnum(c) ? tolower(c) : '_'; } if (n.size() && isdigit((unsigned char)n[0])) n = "_" + n; return n; }
static void model(PM &m, S const &full, double v, long t, bool wrap = true) {
  S base = full; std::vector<S> parts; size_t q = full.find('^'); if (q != S::npos) { base = full.substr(0, q); S r = full.substr(q + 1); while (true) { size_t e = r.find('^'); S x = r.substr(0, e); if (x.size()) parts.push_back(x); if (e == S::npos) { if (x.empty()) parts.push_back(""); break; } r = r.substr(e + 1); } } else parts.push_back("");
  bool c = base.size() && base[0] == '*'; std::vector<std::map<S, S> > gr; std::vector<S> plain; static const char *ok[] = {"host", "role", "class", "pool", "proxy_pool", "cluster"};
  for (size_t i = 0; i < parts.size(); ++i) {
    size_t d = parts[i].find('.'); S k = d == S::npos ? S() : pm(parts[i].substr(0, d)), val = d == S::npos ? S() : parts[i].substr(d + 1); bool tag = false; for (int j = 0; j < 6; ++j) tag = tag || k == ok[j]; if (val.empty() || base.empty()) tag = false;
    if (!tag) { plain.push_back(base.empty() ? parts[i] : parts[i].empty() ? base : base + "." + parts[i]); continue; }
    size_t j = 0; while (j < gr.size() && gr[j].count(k)) ++j; if (j == gr.size()) gr.resize(j + 1); gr[j][k] = val;
  }
  std::vector<Smp> out; for (size_t j = 0; j < gr.size(); ++j) { Smp s; s.name = pm(c ? base.substr(1) : base); s.l = gr[j]; out.push_back(s); }
  for (size_t j = 0; j < plain.size(); ++j) { Smp s; S n = plain[j]; s.name = pm(n.size() && n[0] == '*' ? n.substr(1) : n); out.push_back(s); }
  for (size_t j = 0; j < out.size(); ++j) { if (out[j].name.empty()) continue; bool cc = c || (base.empty() && plain.size() && plain[j - gr.size()][0] == '*'); Smp s = out[j]; s.v = v; s.ms = t * 1000;
    if (cc) { s.l["counter"] = "1"; S k = s.key(); if (m.ctr.count(k)) { double o = m.ctr[k].v; s.v = o > 4294967295.0 - v ? v : o + v; if (m.ctr[k].ms > s.ms) s.ms = m.ctr[k].ms; } m.ctr[k] = s; } else m.g.push_back(s); }
}
static void match(PM const &m, Page const &g) {
  std::vector<Smp> want = m.g; for (std::map<S, Smp>::const_iterator p = m.ctr.begin(); p != m.ctr.end(); ++p) { Smp s = p->second; s.ms = sym_now / 5 * 5 * 1000; want.push_back(s); }
  for (size_t i = 0; i < want.size(); ++i) { S k = want[i].key(); sym_show_str("wanted", k.data(), k.size()); }
  std::vector<int> used(g.s.size());
  for (size_t i = 0; i < want.size(); ++i) { bool f = false; for (size_t j = 0; j < g.s.size() && !f; ++j) if (!used[j] && g.s[j].key() == want[i].key() && g.s[j].ms == want[i].ms && near_(want[i].v, g.s[j].v)) { used[j] = 1; f = true; } sym_check(f, "a sample is missing from the metrics page, or has another value, time or labels"); }
  sym_check(g.s.size() == want.size(), "the metrics page has samples nobody sent, or the same series twice");
}
static const char *PL[] = {"g.a 1.5", "g_a 2 1699999995", "*g.a 3", "*c.x 1234567", "*c.x 4294967000", "*c.x^host.h1^role.r 2", "*c.x^role.r^host.h1 4", "*c.x^host.h2 5", "g.v^host.a\"b\\c^cluster.9 7", "s 1699999990 30 300 1 20 10", "*s 1699999990 30 300 1 20 10", "* 4", "*^host.q 5", "^host.z 6", "9a^proxy-pool.p^x.y^^pool.w 0.1", "q 123456789.25", "m^host.a^host.b^role.c 1", "m^ 2"};
static void promline(Server &sv, PM &m, S const &l) {
  sv.agent(l + "\n"); std::vector<S> f; size_t p = 0; while (true) { size_t e = l.find(' ', p); f.push_back(l.substr(p, e - p)); if (e == S::npos) break; p = e + 1; }
  long t = f.size() > 2 ? atol(f[1].c_str()) : sym_now; double v = strtod(f[f.size() > 2 ? 2 : 1].c_str(), 0); if (f.size() == 7 && f[0][0] != '*') v /= atol(f[6].c_str());
  model(m, f[0], v, t);
}
static void prompage() {
  int n = sym_param("n", 2), lo = sym_param("lo", 0), hi = sym_param("hi", 18); PM m; Server sv(8001, true);
  for (int i = 0; i < n; ++i) { int k = i ? (int)sym_choose(18, "line") : lo + (int)sym_choose(hi - lo, "line"); promline(sv, m, PL[k]); }
  Page g = scrape(sv); match(m, g); sym_reach("page"); sym_expect("page"); sym_check(!g.twice, "[K4] a counter that has several sets of labels has several TYPE lines");
}
static void prombytes() {
  int n = sym_param("n", 2), where = sym_choose(3, "where"); S x; if (sym_param("few", 0)) for (int i = 0; i < n; ++i) x += "aA9_:.*^\"\\#{}=-\200,"[sym_choose(17, "char")]; else x = sym_string(n, "text"); for (int i = 0; i < n; ++i) sym_assume(sym_and(x[i] != ' ', sym_and(x[i] != '\n', sym_and(x[i] != '\r', x[i] != '\t')))); for (int i = 0; i < n; ++i) sym_assume(sym_and(x[i] != 11, x[i] != 12)); if (where != 1) sym_assume(x[0] != '#');
  S nm = where == 0 ? x : where == 1 ? "g^host." + x : "a" + x + "^role.z"; if (where == 1) for (int i = 0; i < n; ++i) sym_assume(x[i] != '^'); 
  Server sv(8001, true); sv.agent(nm + " 1\nok 2\n"); Page g = scrape(sv); bool f = false;
  for (size_t i = 0; i < g.s.size(); ++i) { Smp &s = g.s[i]; if (s.name == "ok" && s.v == 2) { f = true; continue; } sym_check(s.v == 1, "a metric has a value nobody sent"); if (where == 1) sym_check(s.name == "g" && s.l.size() == 1 && sym_streq(s.l["host"], x), "a label value is changed"); }
  sym_check(f, "a metric with an odd name hides others"); if (where == 1) sym_check(g.s.size() == 2, "a metric with an odd label is lost"); sym_reach("bytes"); sym_expect("bytes");
}
static void promtime() { // what is too old goes, what is not stays
  PM m; Server sv(8001, true); int k = sym_choose(2, "kind"); long ago = 0, wait = 0; static const long A[] = {0, 1, 29, 31, 86390, 86500}, W[] = {0, 1, 29, 31, 61, 86390, 86410, 172810}; ago = A[sym_choose(6, "age")]; wait = W[sym_choose(8, "wait")];
  char b[64]; snprintf(b, sizeof b, "%s %ld 5\n", k ? "*c" : "g", sym_now - ago); long t = sym_now - ago, t0 = sym_now; sv.agent(b);
  while (sym_now < t0 + wait) { long d = boost::asio::sym_next_due(sv.svc) / 1000000; if (d <= sym_now) d = sym_now + 1; if (wait > 4000) d = sym_now + 1800; if (d > t0 + wait) d = t0 + wait; sym_now = d; boost::asio::sym_fire_due(sv.svc); sv.poll(); }
  Page g = scrape(sv); bool there = g.s.size() > 0; long age = sym_now - t; sym_show("age", age);
  if (k) { if (age < 86400) sym_check(there, "a counter disappears from the metrics page in less than a day"); if (age > 86400 * 2 + 1900) sym_check(!there, "a counter nobody reports any more stays on the metrics page for ever"); sv.agent("*c 2\n"); Page h = scrape(sv); sym_check(h.s.size() == 1 && h.s[0].v == (there ? 7 : 2), "a counter does not go on from where it was"); }
  else { if (age < 30) sym_check(there, "a gauge disappears from the metrics page in less than 30 seconds"); if (age > 61 && wait <= 4000 && wait >= 30) sym_check(!there, "a gauge nobody reports any more stays on the metrics page"); if (wait > 4000) sym_check(!there, "a gauge nobody reports any more stays on the metrics page"); }
  sym_reach(there ? "there" : "gone"); sym_expect("there"); sym_expect("gone");
}
static void promhttp() {
  static const char *R[] = {"GET /metrics HTTP/1.1\r\nHost: x\r\n\r\n", "GET /other HTTP/1.1\r\nHost: x\r\n\r\n", "POST /metrics HTTP/1.1\r\nContent-Length: 2\r\n\r\nab", "HEAD /metrics HTTP/1.1\r\nHost: x\r\n\r\n", "GET /?a=* HTTP/1.1\r\nHost: x\r\n\r\n", "nonsense\r\n\r\n", "GET /metrics HTTP/1.1\r\nAccept-Encoding: gzip\r\n\r\n"};
  Server sv(8001, true); sv.agent("g 1\n"); int k = sym_choose(7, "request"), end = sym_choose(3, "end"); S r = R[k]; size_t cut = sym_choose(r.size(), "cut");
  { Client c(sv); c.send(r.substr(0, cut)); if (end == 1) { c.leave(); c.drain(0); idle(sv, c); } else if (end == 2) { c.broken(); c.drain(0); idle(sv, c); } else { c.send(r.substr(cut)); c.drain(0); Reply p = answered(c, k == 0 || k == 6 ? 200 : 0, "the metrics page is refused"); if (k != 0 && k != 6) sym_check(p.code >= 400, "a bad request for metrics is accepted"); idle(sv, c); sym_reach("answered"); } }
  Page g = scrape(sv); sym_check(g.s.size() == 1, "the metrics page fails after another request"); sym_expect("answered");
}
static void put(PromExporter &pe, const char *n, long t, double v) { pe.storeMetrics(n, "", std::vector<S>(1, n), t, v); }
static void promages() { // every time and counter value
  io_service svc; { PromExporter pe(svc); long b = sym_now; int k = sym_param("k", 2);
    std::vector<long> gt, ct, cv; for (int i = 0; i < k; ++i) { gt.push_back(sym_long(b - 100, b + 40, "time")); put(pe, "g", gt[i], i + 0.5); }
    long sum = 0, last = 0; for (int i = 0; i < k; ++i) { long t = sym_long(b - 90000, b + 10, "time"), v = (sym_choose(2, "big") ? 4294967285L : 0) + sym_long(0, 10, "value"); put(pe, "*c", t, (double)v); sum = i ? sym_ite(sum + v > 4294967295L, v, sum + v) : v; last = i ? sym_ite(t > last, t, last) : t; }
    for (int round = 1; round <= 2; ++round) {
      sym_now = b + 30 * round; boost::asio::sym_fire_due(svc); svc.poll(); std::vector<PromMetric> r, n; pe.dumpMetrics(r, n); n.insert(n.end(), r.begin(), r.end()); std::vector<int> have(k); int c = 0;
      for (size_t i = 0; i < n.size(); ++i) if (n[i].getType() == PromMetric::PromTypeCounter) { ++c; sym_check(n[i].getValue() == (double)sum, "a counter is not the sum of its samples since it last wrapped"); } else { int j = (int)n[i].getValue(); sym_check(j >= 0 && j < k && n[i].getValue() == j + 0.5 && !have[j], "a gauge sample is changed or doubled"); have[j] = 1; sym_check(n[i].getTimestamp() == gt[j], "the time of a gauge sample is changed"); }
      sym_check(c == 1, "a counter is not listed once"); sym_check(r.size() == 0 || n.size() - r.size() == 2, "a name is typed twice");
      for (int j = 0; j < k; ++j) if (have[j]) { sym_check(gt[j] >= sym_now - 61, "a gauge sample older than a minute is kept"); sym_reach("kept"); } else { sym_check(gt[j] < sym_now - 30, "a gauge sample is dropped in less than 30 seconds"); sym_reach("dropped"); }
    }
    sym_now = b + 86400; boost::asio::sym_fire_due(svc); svc.poll(); std::vector<PromMetric> r, n; pe.dumpMetrics(r, n); if (n.size()) { sym_check(last >= sym_now - 86400 - 1900, "a counter not reported for a day is kept"); sym_reach("counter kept"); } else { sym_check(last < sym_now - 86400, "a counter is dropped in less than a day"); sym_reach("counter dropped"); }
    sym_now = b + 2 * 86400 + 20; boost::asio::sym_fire_due(svc); svc.poll(); r.clear(); n.clear(); pe.dumpMetrics(r, n); sym_check(n.empty(), "a counter nobody reports stays for ever");
  }
  svc.clear(); sym_expect("kept"); sym_expect("dropped"); sym_expect("counter kept"); sym_expect("counter dropped");
}
int sym_main() {
  int mode = sym_param("mode", 0);
  sym_now = 1700000000;
  if (mode == 0) bytes();
  else if (mode == 1) requests();
  else if (mode == 2) encodings();
  else if (mode == 3) oddencodings();
  else if (mode == 4) files();
  else if (mode == 5) multiget();
  else if (mode == 6) bodies();
  else if (mode == 7) listing();
  else if (mode == 8) agents();
  else if (mode == 9) single();
  else if (mode == 20) prompage();
  else if (mode == 21) prombytes();
  else if (mode == 22) promtime();
  else if (mode == 23) promhttp();
  else if (mode == 24) promages();
  return 0;
}
