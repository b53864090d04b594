#pragma once
#include <boost/thread/recursive_mutex.hpp>
namespace boost {
template<class M> class lock_guard { M &m; lock_guard(lock_guard const &); public: explicit lock_guard(M &x) : m(x) { m.lock(); } ~lock_guard() { m.unlock(); } };
template<class M> class unique_lock { M *m; bool own; public: explicit unique_lock(M &x) : m(&x), own(true) { m->lock(); } ~unique_lock() { if (own) m->unlock(); } void lock() { m->lock(); own = true; } void unlock() { m->unlock(); own = false; } };
}
