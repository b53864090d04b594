#pragma once
#include <boost/shared_ptr.hpp>
#include <boost/make_shared.hpp>
#include <boost/weak_ptr.hpp>
#include <boost/bind/bind.hpp>
#include <map>
#include <set>
#include <string>
#include <ctime>
#include <algorithm>
#include <list>
#include <vector>
namespace boost { namespace signals2 {
struct sym_slot { bool on; sym_slot() : on(true) {} virtual ~sym_slot() {} };
class connection { public: boost::weak_ptr<sym_slot> s; connection() {} connection(boost::shared_ptr<sym_slot> const &p) : s(p) {} virtual ~connection() {} void disconnect() { boost::shared_ptr<sym_slot> p = s.lock(); if (p) p->on = false; } bool connected() const { boost::shared_ptr<sym_slot> p = s.lock(); return p && p->on; } };
struct scoped_connection : connection { scoped_connection() {} scoped_connection(connection const &c) : connection(c) {} ~scoped_connection() { disconnect(); } };
struct sym_slots { std::list<boost::shared_ptr<sym_slot> > l; 
  void purge() { for (std::list<boost::shared_ptr<sym_slot> >::iterator p = l.begin(); p != l.end();) { if (!(*p)->on) { boost::shared_ptr<sym_slot> keep = *p; p = l.erase(p); } else ++p; } } };
template<class S> class signal;
class signal_base { protected: boost::shared_ptr<sym_slots> s; signal_base() : s(boost::make_shared<sym_slots>()) {} signal_base(signal_base const &); void operator=(signal_base const &);
 public: void disconnect_all_slots() { for (std::list<boost::shared_ptr<sym_slot> >::iterator p = s->l.begin(); p != s->l.end(); ++p) (*p)->on = false; }
  bool empty() const { return num_slots() == 0; } size_t num_slots() const { size_t n = 0; for (std::list<boost::shared_ptr<sym_slot> >::iterator p = s->l.begin(); p != s->l.end(); ++p) if ((*p)->on) ++n; return n; } };
template<> class signal<void ()> : public signal_base { struct b : sym_slot { virtual void go() = 0; }; template<class F> struct d : b { F f; d(F const &x) : f(x) {} void go() { f(); } };
 public: template<class F> connection connect(F const &f) { boost::shared_ptr<sym_slot> p(new d<F>(f)); s->l.push_back(p); return connection(p); }
  void operator()() { boost::shared_ptr<sym_slots> k = s; std::vector<boost::shared_ptr<sym_slot> > v(k->l.begin(), k->l.end()); for (size_t i = 0; i < v.size(); ++i) if (v[i]->on) static_cast<b *>(v[i].get())->go(); v.clear(); k->purge(); } };
template<class A> class signal<void (A)> : public signal_base { struct b : sym_slot { virtual void go(A a) = 0; }; template<class F> struct d : b { F f; d(F const &x) : f(x) {} void go(A a) { f(a); } };
 public: template<class F> connection connect(F const &f) { boost::shared_ptr<sym_slot> p(new d<F>(f)); s->l.push_back(p); return connection(p); }
  void operator()(A a) { boost::shared_ptr<sym_slots> k = s; std::vector<boost::shared_ptr<sym_slot> > v(k->l.begin(), k->l.end()); for (size_t i = 0; i < v.size(); ++i) if (v[i]->on) static_cast<b *>(v[i].get())->go(a); v.clear(); k->purge(); } };
} }
