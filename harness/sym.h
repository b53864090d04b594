// Harness interface. Under the symbolic executor these are intrinsics; in the replay build they read a
// recorded counterexample (see rt/native.cpp).
#pragma once
#include <stddef.h>
#include <string>
extern "C" {
void sym_make(void *p, unsigned long n, const char *name);            // n fresh symbolic bytes
long sym_long(long lo, long hi, const char *name);                    // symbolic integer in [lo,hi]
unsigned long sym_choose(unsigned long n, const char *name);          // symbolic choice in [0,n), forked
void sym_assume(int c);
void sym_check(int c, const char *msg);                               // the property assertion
void sym_reach(const char *tag);
void sym_expect(const char *tag);                                     // tag must be reached by some input
long sym_param(const char *name, long dflt);
long sym_concrete(long v);
int sym_is_symbolic(long v);
int sym_native();
void sym_budget(unsigned long n);
void sym_uninit(int on);
void sym_max_preempt(int n);
void sym_incomplete(const char *m);
void sym_note(const char *m);
void sym_show(const char *n, long v);
void sym_show_str(const char *n, const char *p, unsigned long len);
long sym_ite(long c, long a, long b);
int sym_and(int a, int b);
int sym_or(int a, int b);
int sym_feasible(int c);
int sym_fmt_double(char *buf, unsigned long n, const char *fmt, double d);
double sym_strtod(const char *p, char **e);
int sym_thread_create(void (*fn)(void *), void *arg);
int sym_thread_self();
void sym_thread_join(int t);
void sym_yield();
void sym_block(void *p);
void sym_wake(void *p);
void sym_shared(void *p, unsigned long n);
int sym_main();
}
// symbolic string of exactly n bytes
static inline std::string sym_string(unsigned long n, const char *name) {
  char b[512];
  sym_make(b, n, name);
  std::string s(b, n);
  sym_show_str(name, s.data(), s.size());
  return s;
}
static inline bool sym_streq(std::string const &a, std::string const &b) { return a.size() == b.size() && __builtin_memcmp(a.data(), b.data(), a.size()) == 0; }
