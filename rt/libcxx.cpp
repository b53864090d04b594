// Non-template parts of libstdc++ that the code under test links against, from their specification.
#define _GLIBCXX_USE_CXX11_ABI 1
#include <exception>
#include <stdexcept>
#include <new>
#include <typeinfo>
#include <string>
#include <list>
#include <map>
#include <iostream>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <stdarg.h>
extern "C" void sym_incomplete(const char *);
namespace std {
// exceptions: the message is a plain heap C string held where __cow_string keeps its pointer
static const char *dup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)malloc(n); memcpy(p, s, n); return p; }
static const char *dup(std::string const &s) { char *p = (char *)malloc(s.size() + 1); memcpy(p, s.data(), s.size()); p[s.size()] = 0; return p; }
static void setm(void *m, const char *p) { *(const char **)m = p; }
static const char *getm(void const *m) { return *(const char *const *)m; }
__cow_string::__cow_string() { setm(this, ""); }
__cow_string::__cow_string(const string &s) { setm(this, dup(s)); }
__cow_string::__cow_string(const char *s, size_t n) { char *p = (char *)malloc(n + 1); memcpy(p, s, n); p[n] = 0; setm(this, p); }
__cow_string::__cow_string(const __cow_string &o) throw() { setm(this, getm(&o)); }
__cow_string &__cow_string::operator=(const __cow_string &o) throw() { setm(this, getm(&o)); return *this; }
__cow_string::~__cow_string() {}
exception::~exception() throw() {}
const char *exception::what() const throw() { return "std::exception"; }
bad_exception::~bad_exception() throw() {}
const char *bad_exception::what() const throw() { return "std::bad_exception"; }
bad_alloc::~bad_alloc() throw() {}
const char *bad_alloc::what() const throw() { return "std::bad_alloc"; }
bad_cast::~bad_cast() throw() {}
const char *bad_cast::what() const throw() { return "std::bad_cast"; }
bad_typeid::~bad_typeid() throw() {}
const char *bad_typeid::what() const throw() { return "std::bad_typeid"; }
#define EXC(C, B) C::C(const string &s) : B(s) {} C::~C() throw() {}
logic_error::logic_error(const string &s) : _M_msg(s) {}
logic_error::logic_error(const logic_error &o) throw() : _M_msg(o._M_msg) {}
logic_error &logic_error::operator=(const logic_error &o) throw() { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() throw() {}
const char *logic_error::what() const throw() { return getm(&_M_msg); }
runtime_error::runtime_error(const string &s) : _M_msg(s) {}
runtime_error::runtime_error(const runtime_error &o) throw() : _M_msg(o._M_msg) {}
runtime_error &runtime_error::operator=(const runtime_error &o) throw() { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() throw() {}
const char *runtime_error::what() const throw() { return getm(&_M_msg); }
EXC(domain_error, logic_error)
EXC(invalid_argument, logic_error)
EXC(length_error, logic_error)
EXC(out_of_range, logic_error)
EXC(range_error, runtime_error)
EXC(overflow_error, runtime_error)
EXC(underflow_error, runtime_error)
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_overflow_error(const char *s) { throw overflow_error(s); }
void __throw_range_error(const char *s) { throw range_error(s); }
void __throw_domain_error(const char *s) { throw domain_error(s); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_alloc(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_function_call() { throw runtime_error("bad_function_call"); }
void __throw_out_of_range_fmt(const char *f, ...) {
  char b[256]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
  throw out_of_range(b);
}
ostream cout, cerr, clog;
istream cin;
// red-black tree (bits/stl_tree.h non-template support)
_GLIBCXX_PURE _Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() {
  if (x->_M_right != 0) { x = x->_M_right; while (x->_M_left != 0) x = x->_M_left; }
  else { _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
  return x;
}
_GLIBCXX_PURE const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
_GLIBCXX_PURE _Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
  else if (x->_M_left != 0) { _Rb_tree_node_base *y = x->_M_left; while (y->_M_right != 0) y = y->_M_right; x = y; }
  else { _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
  return x;
}
_GLIBCXX_PURE const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
static void rotl(_Rb_tree_node_base *x, _Rb_tree_node_base *&root) {
  _Rb_tree_node_base *y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent;
  if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y;
  y->_M_left = x; x->_M_parent = y;
}
static void rotr(_Rb_tree_node_base *x, _Rb_tree_node_base *&root) {
  _Rb_tree_node_base *y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent;
  if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y;
  y->_M_right = x; x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw() {
  _Rb_tree_node_base *&root = h._M_parent;
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    _Rb_tree_node_base *const g = x->_M_parent->_M_parent;
    if (x->_M_parent == g->_M_left) {
      _Rb_tree_node_base *const y = g->_M_right;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g; }
      else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotl(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotr(g, root); }
    } else {
      _Rb_tree_node_base *const y = g->_M_left;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g; }
      else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotr(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotl(g, root); }
    }
  }
  root->_M_color = _S_black;
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw() {
  _Rb_tree_node_base *&root = h._M_parent; _Rb_tree_node_base *&lm = h._M_left; _Rb_tree_node_base *&rm = h._M_right;
  _Rb_tree_node_base *y = z, *x = 0, *xp = 0;
  if (y->_M_left == 0) x = y->_M_right;
  else if (y->_M_right == 0) x = y->_M_left;
  else { y = y->_M_right; while (y->_M_left != 0) y = y->_M_left; x = y->_M_right; }
  if (y != z) {
    z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
    if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; }
    else xp = y;
    if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent; std::swap(y->_M_color, z->_M_color); y = z;
  } else {
    xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent;
    if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (lm == z) { if (z->_M_right == 0) lm = z->_M_parent; else { _Rb_tree_node_base *m = x; while (m->_M_left) m = m->_M_left; lm = m; } }
    if (rm == z) { if (z->_M_left == 0) rm = z->_M_parent; else { _Rb_tree_node_base *m = x; while (m->_M_right) m = m->_M_right; rm = m; } }
  }
  if (y->_M_color != _S_red) {
    while (x != root && (x == 0 || x->_M_color == _S_black))
      if (x == xp->_M_left) {
        _Rb_tree_node_base *w = xp->_M_right;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotl(xp, root); w = xp->_M_right; }
        if ((w->_M_left == 0 || w->_M_left->_M_color == _S_black) && (w->_M_right == 0 || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else {
          if (w->_M_right == 0 || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotr(w, root); w = xp->_M_right; }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rotl(xp, root); break;
        }
      } else {
        _Rb_tree_node_base *w = xp->_M_left;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotr(xp, root); w = xp->_M_left; }
        if ((w->_M_right == 0 || w->_M_right->_M_color == _S_black) && (w->_M_left == 0 || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else {
          if (w->_M_left == 0 || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotl(w, root); w = xp->_M_left; }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rotr(xp, root); break;
        }
      }
    if (x) x->_M_color = _S_black;
  }
  return y;
}
namespace __detail {
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) throw() {
  if (x._M_next != &x) {
    if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
    else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
  } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
void _List_node_base::_M_transfer(_List_node_base *const f, _List_node_base *const l) throw() {
  if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; _List_node_base *const t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; }
}
void _List_node_base::_M_reverse() throw() { _List_node_base *t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
void _List_node_base::_M_hook(_List_node_base *const p) throw() { this->_M_next = p; this->_M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() throw() { _List_node_base *const n = this->_M_next, *const p = this->_M_prev; p->_M_next = n; n->_M_prev = p; }
}
}
// tr1 hashing
namespace std { namespace tr1 {
template <typename T> struct hash;
template <> struct hash<std::string> { size_t operator()(std::string) const; };
template <> struct hash<const std::string &> { size_t operator()(const std::string &) const; };
size_t hash<std::string>::operator()(std::string s) const { unsigned long h = 14695981039346656037ul; for (size_t i = 0; i < s.size(); ++i) { h ^= (unsigned long)(unsigned char)s[i]; h *= 1099511628211ul; } return h; }
size_t hash<const std::string &>::operator()(const std::string &s) const { unsigned long h = 14695981039346656037ul; for (size_t i = 0; i < s.size(); ++i) { h ^= (unsigned long)(unsigned char)s[i]; h *= 1099511628211ul; } return h; }
namespace __detail { extern const unsigned long __prime_list[] = {2ul, 3ul, 5ul, 7ul, 11ul, 13ul, 17ul, 19ul, 23ul, 29ul, 31ul, 37ul, 41ul, 47ul, 53ul, 59ul, 67ul, 73ul, 79ul, 89ul, 97ul, 107ul, 127ul, 137ul, 149ul, 163ul, 179ul, 193ul, 211ul, 229ul, 251ul, 271ul, 293ul, 317ul, 347ul, 379ul, 419ul, 457ul, 499ul, 541ul, 587ul, 641ul, 701ul, 761ul, 827ul, 907ul, 983ul, 1069ul, 1163ul, 1259ul, 1367ul, 1481ul, 1607ul, 1741ul, 1889ul, 2053ul, 2237ul, 2423ul, 2633ul, 2851ul, 3089ul, 3347ul, 3631ul, 3943ul, 4271ul, 4637ul, 5021ul, 5437ul, 5897ul, 6389ul, 6947ul, 7523ul, 8147ul, 8831ul, 9587ul, 10391ul, 11257ul, 12197ul, 13217ul, 14321ul, 15511ul, 16811ul, 18211ul, 19727ul, 21377ul, 23159ul, 25087ul, 27179ul, 29437ul, 31883ul, 34537ul, 37409ul, 40519ul, 43889ul, 47533ul, 51479ul, 55763ul, 60397ul, 65413ul, 70843ul, 76733ul, 83101ul, 90001ul, 97499ul, 105601ul, 114371ul, 123863ul, 134153ul, 145289ul, 157349ul, 170413ul, 184559ul, 199877ul, 216481ul, 234457ul, 253919ul, 275003ul, 297833ul, 322559ul, 349331ul, 378353ul, 409769ul, 443791ul, 480647ul, 520547ul, 563777ul, 610579ul, 661259ul, 716143ul, 775601ul, 839981ul, 909731ul, 985253ul, 1067029ul, 1155601ul, 1251527ul, 1355423ul, 1467937ul, 1589803ul, 1721767ul, 1864691ul, 2019461ul, 2187077ul, 2368637ul, 2565239ul, 2778173ul, 3008773ul, 3258523ul, 3528989ul, 3821903ul, 4139129ul, 4482701ul, 4854779ul, 5257727ul, 5694119ul, 6166751ul, 6678593ul, 7232917ul, 7833251ul, 8483417ul, 9187543ul, 9950141ul, 10776043ul, 11670457ul, 12639127ul, 13688221ul, 14824343ul, 16054769ul, 17387317ul, 18830473ul, 20393407ul, 22086061ul, 23919209ul, 25904507ul, 28054589ul, 30383137ul, 32904943ul, 35636053ul, 38593873ul, 41797177ul, 45266363ul, 49023473ul, 53092427ul, 57499109ul, 62271541ul, 67440089ul, 73037621ul, 79099771ul, 85665071ul, 92775289ul, 100475647ul, 108815129ul, 117846787ul, 127628089ul, 138221243ul, 149693617ul, 162118199ul, 175574023ul, 190146667ul, 205928843ul, 223020937ul, 241531687ul, 261578827ul, 283289879ul, 306802967ul, 332267623ul, 359845859ul, 389713069ul, 422059283ul, 457090219ul, 495028727ul, 536116121ul, 580613783ul, 628804733ul, 680995529ul, 737518181ul, 798732197ul, 865026971ul, 936824261ul, 1014580709ul, 1098790933ul, 1189990589ul, 1288759831ul, 1395726901ul, 1511572241ul, 1637032757ul, 1772906483ul, 1920057731ul, 2079422531ul, 2252014603ul, 2438931839ul, 2641363267ul, 2860596439ul, 3098025977ul, 3355162159ul, 3633640631ul, 3935232809ul, 4261857133ul, 4615591301ul, 4998685397ul, 5413576291ul, 5862903127ul, 6349524091ul, 6876534593ul, 7447286969ul, 8065411787ul, 8734840973ul, 9459832777ul, 10244998903ul, 11095333811ul, 12016246519ul, 13013594989ul, 14093723381ul, 15263502461ul, 16530373193ul, 17902394177ul, 27143610059ul, 38001054097ul, 53201475757ul, 74482066067ul, 104274892567ul, 145984849643ul, 204378789509ul, 286130305313ul, 400582427447ul, 560815398443ul, 785141557843ul, 1099198181063ul, 1538877453493ul, 2154428434901ul, 3016199808901ul, 4222679732473ul, 5911751625583ul, 8276452275853ul, 11587033186207ul, 16221846460693ul, 22710585044981ul, 31794819062977ul, 44512746688181ul, 62317845363457ul, 87244983508841ul, 122142976912417ul, 171000167677441ul, 239400234748463ul, 335160328647929ul, 469224460107101ul, 656914244150011ul, 919679941810033ul, 1287551918534053ul, 1802572685947681ul, 2523601760326753ul, 3533042464457509ul, 4946259450240517ul, 6924763230336733ul, 9694668522471451ul, 13572535931460059ul, 19001550304044149ul, 26602170425661839ul, 37243038595926577ul, 52140254034297203ul, 72996355648016137ul, 102194897907222641ul, 143072857070111687ul, 200301999898156393ul}; }
}}
void sym_rt_bad_alloc_();
extern "C" void sym_rt_bad_alloc() { throw std::bad_alloc(); }
namespace std { struct nothrow_t; const nothrow_t nothrow = nothrow_t(); }
