#pragma once
#include <boost/thread/locks.hpp>
#include <boost/date_time/posix_time/posix_time.hpp>
extern "C" { int sym_thread_create(void (*)(void *), void *); void sym_thread_join(int); }
namespace boost {
struct thread_interrupted {};
class thread { int id; template<class F> struct st { static void go(void *p) { F *f = (F *)p; (*f)(); delete f; } }; thread(thread const &); public: template<class F> explicit thread(F const &f) { id = sym_thread_create(&st<F>::go, new F(f)); } thread() : id(0) {} void join() { if (id) sym_thread_join(id); } void interrupt() {} };
inline int &sym_sleeps() { static int n; return n; }
namespace this_thread { inline int get_id() { return sym_thread_self(); } template<class D> inline void sleep(D const &) { ++sym_sleeps(); } inline void yield() { sym_yield(); } }
}
