// Replay build of the harness interface: inputs come from $SYM_REPLAY ("name hex" lines, in creation order).
#include "../harness/sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <string>
#include <map>
#include <unistd.h>
#include <sys/syscall.h>
#include <ucontext.h>
struct In { std::string name; std::vector<unsigned char> b; };
static std::vector<In> ins;
static size_t pos;
static std::map<std::string, long> prm;
static void loadIn() {
  static bool done = false;
  if (done) return;
  done = true;
  const char *f = getenv("SYM_REPLAY");
  // raw system calls: the C library's file functions are wrapped in some builds
  long fd = f ? syscall(SYS_open, f, 0) : -1;
  if (fd < 0) return;
  std::string all; char buf[4096];
  for (long k; (k = syscall(SYS_read, fd, buf, sizeof buf)) > 0; ) all.append(buf, k);
  syscall(SYS_close, fd);
  for (size_t p = 0; p < all.size(); ) {
    size_t e = all.find('\n', p); if (e == std::string::npos) e = all.size();
    std::string line = all.substr(p, e - p); p = e + 1;
    size_t t = line.find('\t'); if (t == std::string::npos) continue;
    In i; i.name = line.substr(0, t);
    const char *h = line.c_str() + t + 1;
    if (i.name.compare(0, 6, "param:") == 0) { prm[i.name.substr(6)] = strtol(h, 0, 0); continue; }
    while (h[0] && h[1]) { char x[3] = {h[0], h[1], 0}; i.b.push_back((unsigned char)strtoul(x, 0, 16)); h += 2; }
    ins.push_back(i);
  }
}
static In &next(const char *name) {
  loadIn();
  while (pos < ins.size() && ins[pos].name == "uninit") ++pos;
  if (pos >= ins.size()) { fprintf(stderr, "REPLAY-EXHAUSTED at %s\n", name); _exit(7); }
  if (ins[pos].name != name) { fprintf(stderr, "REPLAY-DIVERGED: wanted %s, recorded %s\n", name, ins[pos].name.c_str()); _exit(7); }
  return ins[pos++];
}
extern "C" {
long sym_now = 1700000000, sym_now_us = 0;
long __wrap_time(long *t) { if (t) *t = sym_now; return sym_now; }
int __wrap_gettimeofday(void *tv, void *) { ((long *)tv)[0] = sym_now; ((long *)tv)[1] = sym_now_us; return 0; }
int __wrap_usleep(unsigned) { return 0; }
unsigned __wrap_sleep(unsigned) { return 0; }
}
static long nextLong(const char *n) { In &i = next(n); long v = 0; for (size_t k = 0; k < i.b.size() && k < 8; ++k) v |= (long)i.b[k] << (8 * k); return v; }
// ---- cooperative threads
struct Th { ucontext_t c; void (*fn)(void *); void *arg; int status; void *wait; int joinOn; };
static std::vector<Th *> ths;
static int cur = 0, preempts = 0, maxPre = 3;
static void initTh() { if (ths.empty()) { Th *t = new Th(); t->status = 0; ths.push_back(t); } }
static void sched(int mode) {
  std::vector<int> R;
  for (size_t i = 0; i < ths.size(); ++i) if (ths[i]->status == 0) R.push_back(i);
  if (R.empty()) { printf("REPLAY-FAIL deadlock\n"); fflush(stdout); _exit(42); }
  int pick;
  if (R.size() == 1) pick = R[0];
  else if (mode == 2 && preempts >= maxPre) pick = cur;
  else { long v = nextLong("sched"); pick = R[(size_t)v < R.size() ? v : R.size() - 1]; }
  if (mode == 2 && pick != cur) ++preempts;
  if (pick != cur) { int o = cur; cur = pick; swapcontext(&ths[o]->c, &ths[pick]->c); }
}
static void tramp() { Th *t = ths[cur]; int me = cur; t->fn(t->arg); t->status = 2; for (size_t i = 0; i < ths.size(); ++i) if (ths[i]->status == 1 && ths[i]->joinOn == me) { ths[i]->status = 0; ths[i]->joinOn = -1; } sched(1); }
extern "C" {
void sym_make(void *p, unsigned long n, const char *name) { for (unsigned long i = 0; i < n; ++i) ((unsigned char *)p)[i] = next(name).b[0]; }
long sym_long(long lo, long hi, const char *name) { long v = nextLong(name); if (v < lo || v > hi) { fprintf(stderr, "REPLAY range\n"); _exit(7); } return v; }
unsigned long sym_choose(unsigned long n, const char *name) { return nextLong(name); }
void sym_assume(int c) { if (!c) { fprintf(stderr, "REPLAY-ASSUME\n"); _exit(7); } }
void sym_check(int c, const char *msg) { if (!c) { printf("REPLAY-FAIL %s\n", msg); fflush(stdout); _exit(42); } }
void sym_reach(const char *) {}
void sym_expect(const char *) {}
long sym_param(const char *name, long d) { loadIn(); return prm.count(name) ? prm[name] : d; }
long sym_concrete(long v) { return v; }
int sym_is_symbolic(long) { return 0; }
int sym_native() { return 1; }
void sym_budget(unsigned long) {}
void sym_uninit(int) {}
void sym_max_preempt(int n) { maxPre = n; }
void sym_incomplete(const char *m) { fprintf(stderr, "incomplete %s\n", m); _exit(7); }
void sym_note(const char *m) { printf("note: %s\n", m); }
void sym_show(const char *n, long v) { printf("%s = %ld\n", n, v); }
void sym_show_str(const char *n, const char *p, unsigned long len) { printf("%s = \"", n); for (unsigned long i = 0; i < len; ++i) { unsigned char c = p[i]; if (c >= 32 && c < 127) putchar(c); else printf("\\x%02x", c); } printf("\"\n"); }
long sym_ite(long c, long a, long b) { return c ? a : b; }
int sym_and(int a, int b) { return a && b; }
int sym_or(int a, int b) { return a || b; }
int sym_feasible(int c) { return c != 0; }
int sym_fmt_double(char *buf, unsigned long n, const char *fmt, double d) { return snprintf(buf, n, fmt, d); }
double sym_strtod(const char *p, char **e) { return strtod(p, e); }
int sym_thread_create(void (*fn)(void *), void *arg) { initTh(); Th *t = new Th(); t->fn = fn; t->arg = arg; t->status = 0; t->joinOn = -1; getcontext(&t->c); t->c.uc_stack.ss_size = 1 << 20; t->c.uc_stack.ss_sp = malloc(1 << 20); t->c.uc_link = 0; makecontext(&t->c, tramp, 0); ths.push_back(t); return ths.size() - 1; }
int sym_thread_self() { return cur; }
void sym_thread_join(int t) { initTh(); while (ths[t]->status != 2) { ths[cur]->status = 1; ths[cur]->wait = 0; ths[cur]->joinOn = t; sched(1); } }
void sym_yield() { if (ths.size() > 1) sched(2); }
void sym_block(void *p) { initTh(); ths[cur]->status = 1; ths[cur]->wait = p; ths[cur]->joinOn = -1; sched(1); }
void sym_wake(void *p) { for (size_t i = 0; i < ths.size(); ++i) if (ths[i]->status == 1 && ths[i]->wait == p && ths[i]->joinOn < 0) ths[i]->status = 0; }
void sym_shared(void *, unsigned long) {}
}
int main(int argc, char **argv) {
  setvbuf(stdout, 0, _IOLBF, 0);
  { const char *al = getenv("SYM_ALARM"); alarm(al ? atoi(al) : 20); }
  try { sym_main(); }
  catch (std::exception const &x) { printf("REPLAY-FAIL uncaught exception %s\n", x.what()); fflush(stdout); _exit(43); }
  catch (...) { printf("REPLAY-FAIL uncaught exception\n"); fflush(stdout); _exit(43); }
  printf("REPLAY-OK\n");
  fflush(stdout);
  _exit(0);
}
extern "C" { int sym_rand_any; long sym_long(long, long, const char *);
int rand() { if (sym_rand_any) return (int)sym_long(0, 0x7fffffff, "rand"); static unsigned x = 12345; x = x * 1103515245u + 12345u; return (x >> 16) & 0x7fff; } }
