#pragma once
extern "C" { int sym_thread_self(); void sym_yield(); void sym_block(void *); void sym_wake(void *); void sym_check(int, const char *); }
namespace boost {
// Taking a mutex is a scheduling point. A harness may mark mutexes that only one thread ever takes ("cold"): 1 marks those
// taken from now on, 2 unmarks them, 3 runs threads: a cold mutex that a second thread takes becomes a scheduling point again.
inline int &sym_lock_mode() { static int m; return m; }
class recursive_mutex { recursive_mutex(recursive_mutex const &); void operator=(recursive_mutex const &);
 public: int owner, depth, cold, last; recursive_mutex() : owner(-1), depth(0), cold(0), last(-1) {} 
  void lock() {
    int me = sym_thread_self(), m = sym_lock_mode();
    if (m == 1 && cold == 0) cold = 1; else if (m == 2) cold = -1;
    if (m == 3 && cold == 1) { if (last >= 0 && last != me) cold = -1; last = me; }
    if (cold != 1) sym_yield();
    while (depth && owner != me) sym_block(this); owner = me; ++depth; }
  bool try_lock() { int me = sym_thread_self(); if (depth && owner != me) return false; owner = me; ++depth; return true; }
  void unlock() { if (depth <= 0 || owner != sym_thread_self()) sym_check(0, "mutex unlocked by a thread that does not hold it"); if (--depth == 0) { owner = -1; sym_wake(this); } }
};
typedef recursive_mutex mutex;
}
