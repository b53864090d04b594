#include "exec.h"
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/ADT/SmallString.h>
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdarg>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>
using namespace llvm;

static double nowS() { timeval tv; gettimeofday(&tv, 0); return tv.tv_sec + tv.tv_usec * 1e-6; }
struct Dead {};       // current state terminated
struct Unsupported { std::string m; };

static LLVMContext Ctx;
static std::unique_ptr<Module> M;
static const DataLayout *DL;
static std::unordered_map<const Function *, KFunc *> kfuncs;
static std::unordered_map<u64, const Function *> fnByAddr;
static std::unordered_map<const GlobalValue *, u64> gaddr;
static std::map<u64, const GlobalVariable *> gvByAddr;
static std::vector<Val> constTab;
static std::unordered_map<const Constant *, int> constIdx;
static std::vector<State *> work;
static std::map<std::string, std::string> params;
static std::set<std::string> reached, expected;
static std::map<std::string, u64> incomplete;
static std::map<u64, int> tiIds;
static u64 totalSteps = 0, forks = 0, pathsDone = 0, pathsErr = 0, pathsAssume = 0, maxDepth = 0, checks = 0, checkQueries = 0, memChecks = 0;
static double t0, maxTime = 600;
static u64 defaultBudget = 30000000;
static u64 maxStates = 2000000;
static int maxPreempt = 3;
static int maxErrors = 4;
static bool verbose = false;
static std::string repoDir = "/repo";
static u64 maxAlloc = 256ull << 20;
struct ErrorRep { std::string kind, msg, where; std::vector<std::string> stack; std::vector<std::pair<std::string, std::string>> inputs; std::vector<std::string> trace; };
static std::vector<ErrorRep> errors;
static std::set<std::string> errKeys;
static std::vector<std::string> sampleInputs;
static std::set<std::string> warnedExt;
static bool stopAll = false;
static std::string onlyTrace;

enum { SLOT_BITS = 20, REG_BITS = 42 };
static const u64 REG1 = 1ull << REG_BITS;

static unsigned tw(Type *t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64;
  if (t->isDoubleTy()) return 64;
  if (t->isFloatTy()) return 32;
  return 0;
}
static inline Expr *X(Val const &v, unsigned w) { return v.e ? v.e : mkC(w, v.c); }
static inline Val V(Expr *e) { Val v; if (e->isC() && e->w <= 64) v.c = (u64)e->c; else v.e = e; return v; }
static inline u64 msk(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }

// ------------------------------------------------------------------ memory
static MemObj *lookup(State &s, u64 addr) {
  u64 r = addr >> REG_BITS;
  if (r >= s.reg.size()) return nullptr;
  Region &R = s.reg[r];
  u64 slot = (addr & (REG1 - 1)) >> SLOT_BITS;
  u64 p = slot / 64;
  if (p >= R.pages.size() || !R.pages[p]) return nullptr;
  return R.pages[p]->o[slot % 64];
}
static Page *wpage(Region &R, u64 p) {
  if (p >= R.pages.size()) R.pages.resize(p + 1, nullptr);
  Page *&pg = R.pages[p];
  if (!pg) pg = new Page();
  else if (pg->rc > 1) {
    Page *n = new Page();
    memcpy(n->o, pg->o, sizeof n->o);
    for (auto *o : n->o) if (o) ++o->rc;
    --pg->rc;
    pg = n;
  }
  return pg;
}
static void dropObj(MemObj *o) { if (o && --o->rc == 0) delete o; }
static void dropPage(Page *p) { if (p && --p->rc == 0) { for (auto *o : p->o) dropObj(o); delete p; } }
static u64 allocObj(State &s, int region, u64 size, int kind, bool ro, int fill) {
  if ((int)s.reg.size() <= region) s.reg.resize(region + 1);
  Region &R = s.reg[region];
  u64 slots = (size + (1 << SLOT_BITS)) >> SLOT_BITS; // at least one, leaves a gap
  u64 slot = R.top;
  R.top += slots;
  if (R.top >= (1ull << (REG_BITS - SLOT_BITS))) throw Unsupported{"address space exhausted"};
  MemObj *o = new MemObj();
  o->base = ((u64)region << REG_BITS) + (slot << SLOT_BITS);
  o->size = size; o->kind = kind; o->ro = ro;
  o->b.assign(size, (uint8_t)fill);
  for (u64 i = 0; i < slots; ++i) {
    Page *p = wpage(R, (slot + i) / 64);
    if (i) ++o->rc;
    p->o[(slot + i) % 64] = o;
  }
  return o->base;
}
static MemObj *wobj(State &s, MemObj *o) { // obtain a privately owned copy
  u64 r = o->base >> REG_BITS;
  Region &R = s.reg[r];
  u64 slot = (o->base & (REG1 - 1)) >> SLOT_BITS;
  u64 slots = (o->size + (1 << SLOT_BITS)) >> SLOT_BITS;
  Page *p = wpage(R, slot / 64);
  o = p->o[slot % 64];
  if (o->rc > (int)slots || slots > 1) {
    if (slots > 1) {
      for (u64 i = 1; i < slots; ++i) wpage(R, (slot + i) / 64);
      o = wpage(R, slot / 64)->o[slot % 64];
      if (o->rc == (int)slots) return o;
    }
    if (o->rc > (int)slots) {
      MemObj *n = new MemObj(*o);
      n->rc = 0;
      for (u64 i = 0; i < slots; ++i) { Page *q = wpage(R, (slot + i) / 64); --o->rc; q->o[(slot + i) % 64] = n; ++n->rc; }
      return n;
    }
  }
  return o;
}
static void popStack(State &s, int region, u64 to) {
  Region &R = s.reg[region];
  for (u64 sl = to; sl < R.top; ++sl) {
    u64 p = sl / 64;
    if (p >= R.pages.size() || !R.pages[p] || !R.pages[p]->o[sl % 64]) continue;
    Page *pg = wpage(R, p);
    dropObj(pg->o[sl % 64]);
    pg->o[sl % 64] = nullptr;
  }
  R.top = to;
}
static State *cloneState(State &s) {
  State *n = new State(s);
  for (auto &R : n->reg) for (auto *p : R.pages) if (p) ++p->rc;
  return n;
}
static void freeState(State *s) {
  for (auto &R : s->reg) for (auto *p : R.pages) dropPage(p);
  delete s;
}

// ------------------------------------------------------------------ constraints
static u64 evalS(State &s, Expr *e) { return (u64)evalExpr(e, *s.model, s.stamp); }
static void setModel(State &s, std::vector<std::pair<int, u64>> const &m) {
  auto n = std::make_shared<std::vector<u64>>(*s.model);
  if (n->size() < g_syms.size()) n->resize(g_syms.size());
  for (auto &p : m) (*n)[p.first] = p.second;
  s.model = n;
  s.stamp = newStamp();
}
static void ensureSym(State &s, int id) {
  if ((int)s.dom.size() <= id) { s.dom.resize(id + 1); s.cplx.resize(id + 1, 0); }
}
static bool isByteSym(int id) { return g_syms[id].w == 8; }
static void addC(State &s, Expr *c) {
  if (c->isC()) { if (!c->c) throw Dead(); return; }
  if (c->op == E_AND && c->w == 1) { s.known[c] = true; s.known[mkNot(c)] = false; addC(s, c->k[0]); addC(s, c->k[1]); return; }
  if (c->op == E_XOR && c->w == 1 && c->k[1]->isC() && c->k[0]->op == E_OR) { s.known[c] = true; s.known[c->k[0]] = false; addC(s, mkNot(c->k[0]->k[0])); addC(s, mkNot(c->k[0]->k[1])); return; }
  auto it = s.known.find(c);
  if (it != s.known.end() && it->second) return;
  s.known[c] = true;
  s.known[mkNot(c)] = false;
  s.pc.push_back(c);
  auto const &ids = c->deps->ids;
  for (int id : ids) ensureSym(s, id);
  if (ids.size() == 1 && isByteSym(ids[0])) {
    int id = ids[0];
    auto nb = std::make_shared<std::bitset<256>>();
    if (s.dom[id]) *nb = *s.dom[id]; else nb->set();
    *nb &= byteTable(c);
    s.dom[id] = nb;
    if (nb->count() == 1) s.fix[id] = nb->_Find_first();
    if (nb->none()) throw Dead();
  } else {
    for (int id : ids) s.cplx[id] = 1;
    if (c->op == E_EQ && c->k[1]->isC() && c->k[0]->op == E_SYM && c->w <= 64) s.fix[c->k[0]->aux] = (u64)c->k[1]->c;
  }
}
static void sliceFor(State &s, Expr *c, std::vector<Expr *> &out) {
  static std::vector<char> in;
  in.assign(g_syms.size(), 0);
  std::vector<int> stack(c->deps->ids);
  for (int i : stack) in[i] = 1;
  std::vector<char> used(s.pc.size(), 0);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < s.pc.size(); ++i) {
      if (used[i]) continue;
      auto const &ids = s.pc[i]->deps->ids;
      bool hit = false;
      for (int d : ids) if (in[d]) { hit = true; break; }
      if (hit) { used[i] = 1; out.push_back(s.pc[i]); for (int d : ids) if (!in[d]) { in[d] = 1; ch = true; } }
    }
  }
  out.push_back(c);
}
static SatRes query(State &s, Expr *c, std::vector<std::pair<int, u64>> *m) {
  std::vector<Expr *> cs;
  sliceFor(s, c, cs);
  return checkSat(cs, m);
}
// an expression over a single small-domain symbol that takes one value only is that constant
static Expr *smallConst(Expr *c) {
  if (c->isC() || c->w > 64 || c->deps->ids.size() != 1) return c;
  int id = c->deps->ids[0];
  Expr *sy = symExpr(id);
  if (!sy || sy == c || sy->hi > 63) return c;
  static std::unordered_map<Expr *, Expr *> cache;
  auto it = cache.find(c);
  if (it != cache.end()) return it->second;
  static std::vector<u64> m;
  if (m.size() < g_syms.size()) m.resize(g_syms.size() + 64);
  Expr *r = c; u128 v0 = 0;
  for (u64 v = 0; v <= sy->hi; ++v) { m[id] = v; u128 x = evalExpr(c, m, newStamp()); if (!v) v0 = x; else if (x != v0) { v0 = 0; r = nullptr; break; } }
  m[id] = 0;
  r = r ? mkC(c->w, v0) : c;
  return cache[c] = r;
}
static Expr *simp(State &s, Expr *c) {
  if (c->isC()) return c;
  if (!s.fix.empty()) { std::unordered_map<Expr *, Expr *> memo; c = substByte(c, s.fix, memo); }
  return smallConst(c);
}
static void noteIncomplete(std::string const &m) { ++incomplete[m]; }
// result: 1 must be true, 0 must be false, 2 both (models for the flipped side in m)
static int status(State &s, Expr *&c, std::vector<std::pair<int, u64>> &m) {
  if (c->isC()) return (int)c->c;
  auto it = s.known.find(c);
  if (it != s.known.end()) return it->second;
  Expr *o = c;
  c = simp(s, c);
  if (c->isC()) { s.known[o] = c->c; return (int)c->c; }
  it = s.known.find(c);
  if (it != s.known.end()) return it->second;
  auto const &ids = c->deps->ids;
  for (int id : ids) ensureSym(s, id);
  bool v = evalS(s, c) & 1;
  if (ids.size() == 1 && isByteSym(ids[0])) {
    int id = ids[0];
    std::bitset<256> const &T = byteTable(c);
    std::bitset<256> D;
    if (s.dom[id]) D = *s.dom[id]; else D.set();
    std::bitset<256> a = D & T, b = D & ~T;
    if (a.none()) { ++g_ss.byteDecided; s.known[c] = s.known[o] = false; return 0; }
    if (b.none()) { ++g_ss.byteDecided; s.known[c] = s.known[o] = true; return 1; }
    if (!s.cplx[id]) {
      ++g_ss.byteDecided;
      std::bitset<256> &f = v ? b : a;
      // prefer printable witness bytes
      int pick = -1;
      for (int ch : {'a', '.', '^', '1', 'z', '0', '_', 'A'}) if (f[ch]) { pick = ch; break; }
      if (pick < 0) for (int ch = 33; ch < 127; ++ch) if (f[ch]) { pick = ch; break; }
      if (pick < 0) pick = f._Find_first();
      m.clear(); m.push_back({id, (u64)pick});
      return 2;
    }
  }
  SatRes r = query(s, v ? mkNot(c) : c, &m);
  if (r == S_UNSAT) { s.known[c] = s.known[o] = v; return v; }
  if (r == S_UNKNOWN) { noteIncomplete("solver gave no answer at a branch"); addC(s, v ? c : mkNot(c)); return v; }
  return 2;
}
// decide a condition, forking when both outcomes are possible. The clone re-executes the current instruction.
static bool decide(State &s, Expr *c) {
  std::vector<std::pair<int, u64>> m;
  int st = status(s, c, m);
  if (st != 2) return st;
  bool v = evalS(s, c) & 1;
  ++forks;
  State *o = cloneState(s);
  setModel(*o, m);
  try { addC(*o, v ? mkNot(c) : c); work.push_back(o); } catch (Dead &) { freeState(o); }
  addC(s, v ? c : mkNot(c));
  return v;
}
static u64 concretize(State &s, Val const &v, unsigned w, u64 limit = 4096) {
  if (!v.e) return v.c;
  Expr *e = simp(s, v.e);
  if (e->isC()) return (u64)e->c;
  for (u64 i = 0; i < limit; ++i) {
    u64 x = evalS(s, e);
    // clones continue enumerating the remaining values
    if (decide(s, mkCmp(E_EQ, e, mkC(w, x)))) return x;
  }
  noteIncomplete("too many values while concretising");
  throw Dead();
}

// ------------------------------------------------------------------ errors
static std::string locStr(const Instruction *I) {
  if (DILocation *L = I->getDebugLoc().get()) {
    std::string f = L->getFilename().str();
    return f + ":" + std::to_string(L->getLine());
  }
  return "?";
}
static std::string hexOf(u64 v, int bytes) { std::string r; char b[4]; for (int i = 0; i < bytes; ++i) { snprintf(b, 4, "%02x", (unsigned)((v >> (8 * i)) & 255)); r += b; } return r; }
static void inputsOf(State &s, std::vector<std::pair<std::string, std::string>> &out) {
  for (auto &in : s.inputs) {
    u64 v = in.e ? evalS(s, in.e) : in.c;
    v += (u64)in.add;
    out.push_back({in.name, hexOf(v, in.bytes)});
  }
}
static void report(State &s, std::string const &kind, std::string const &msg, bool dead = true) {
  ErrorRep r;
  r.kind = kind; r.msg = msg;
  Thread &t = s.th[s.cur];
  std::string key = kind + "|" + msg;
  for (int i = (int)t.st.size() - 1; i >= 0; --i) {
    Frame &f = t.st[i];
    const Instruction *I = f.kf->ins[f.pc].I;
    std::string l = f.kf->name + " @ " + locStr(I);
    r.stack.push_back(l);
    if (kind != "check" && (int)t.st.size() - i <= 3) key += "|" + l;
  }
  r.where = r.stack.empty() ? "" : r.stack[0];
  ++pathsErr;
  if (!errKeys.count(key)) {
    errKeys.insert(key);
    inputsOf(s, r.inputs);
    r.trace = s.trace;
    errors.push_back(r);
    if (verbose) { fprintf(stderr, "ERROR %s: %s\n", kind.c_str(), msg.c_str()); for (auto &x : r.stack) fprintf(stderr, "   %s\n", x.c_str()); for (auto &x : r.inputs) fprintf(stderr, "   in %s = %s\n", x.first.c_str(), x.second.c_str()); }
    if ((int)errors.size() >= maxErrors) stopAll = true;
  }
  if (dead) throw Dead();
}

// ------------------------------------------------------------------ memory access
static unsigned tzE(Expr *e) { // known trailing zero bits
  if (e->isC()) { if (!e->c) return e->w; unsigned n = 0; while (!((e->c >> n) & 1)) ++n; return n; }
  switch (e->op) {
  case E_CONCAT: { unsigned n = tzE(e->k[1]); return n == e->k[1]->w ? n + tzE(e->k[0]) : n; }
  case E_ADD: case E_SUB: return std::min(tzE(e->k[0]), tzE(e->k[1]));
  case E_MUL: return std::min<unsigned>(e->w, tzE(e->k[0]) + tzE(e->k[1]));
  case E_ZEXT: case E_SEXT: return tzE(e->k[0]);
  case E_ITE: return std::min(tzE(e->k[1]), tzE(e->k[2]));
  default: return 0;
  }
}
struct Loc { MemObj *o; u64 off; Expr *offE; };
static std::string describeObj(State &s, u64 a) {
  MemObj *o = lookup(s, a);
  char b[200];
  if (!o) { snprintf(b, sizeof b, "address 0x%llx (no object)", (unsigned long long)a); return b; }
  snprintf(b, sizeof b, "offset %lld of a %llu byte %s object%s", (long long)(a - o->base), (unsigned long long)o->size, o->kind == 0 ? "global" : o->kind == 1 ? "heap" : "stack", o->freed ? " (freed)" : "");
  return b;
}
static Loc resolve(State &s, Val const &a, u64 n, bool wr) {
  Loc L; L.offE = nullptr;
  if (!a.e) {
    MemObj *o = lookup(s, a.c);
    if (!o || o->freed || a.c - o->base > o->size || n > o->size - (a.c - o->base) || (wr && o->ro))
      report(s, "memory", std::string(a.c < 4096 ? "null pointer " : (o && o->freed) ? "use-after-free " : "out-of-bounds ") + (wr ? "write" : "read") + " of " + std::to_string(n) + " bytes at " + describeObj(s, a.c));
    L.o = o; L.off = a.c - o->base;
    return L;
  }
  Expr *e = simp(s, a.e);
  if (e->isC()) return resolve(s, Val((u64)e->c), n, wr);
  ++memChecks;
  for (int tries = 0; tries < 200; ++tries) {
    u64 v = evalS(s, e);
    MemObj *o = lookup(s, v);
    if (!o || o->freed || v - o->base > o->size || n > o->size - (v - o->base) || (wr && o->ro))
      report(s, "memory", std::string(v < 4096 ? "null pointer " : (o && o->freed) ? "use-after-free " : "out-of-bounds ") + (wr ? "write" : "read") + " of " + std::to_string(n) + " bytes at " + describeObj(s, v));
    Expr *off = mkBin(E_SUB, e, mkC(64, o->base));
    Expr *inb = mkCmp(E_ULE, off, mkC(64, o->size - n));
    if (!decide(s, inb)) { continue; }
    off = simp(s, off);
    L.o = o; 
    if (off->isC()) { L.off = (u64)off->c; return L; }
    L.off = 0; L.offE = off;
    return L;
  }
  throw Unsupported{"pointer resolution"};
}
static Expr *byteAt(MemObj *o, u64 i) { if (!o->s.empty() && o->s[i]) return o->s[i]; return mkC(8, o->b[i]); }
static Val readConc(MemObj *o, u64 off, unsigned n) { // n bytes
  bool sym = false;
  if (!o->s.empty()) for (unsigned i = 0; i < n; ++i) if (o->s[off + i]) { sym = true; break; }
  if (!sym && n <= 8) { u64 v = 0; memcpy(&v, &o->b[off], n); return Val(v); }
  Expr *e = byteAt(o, off);
  for (unsigned i = 1; i < n; ++i) e = mkConcat(byteAt(o, off + i), e);
  return V(e);
}
static void writeConc(MemObj *o, u64 off, unsigned n, Val const &v) {
  if (!v.e) {
    u64 c = v.c;
    if (n <= 8) memcpy(&o->b[off], &c, n); else { memcpy(&o->b[off], &c, 8); memset(&o->b[off + 8], 0, n - 8); }
    if (!o->s.empty()) for (unsigned i = 0; i < n; ++i) o->s[off + i] = nullptr;
    return;
  }
  for (unsigned i = 0; i < n; ++i) {
    Expr *b = mkExtract(v.e, 8 * i, 8);
    if (b->isC()) { o->b[off + i] = (uint8_t)b->c; if (!o->s.empty()) o->s[off + i] = nullptr; }
    else { if (o->s.empty()) o->s.assign(o->size, nullptr); o->s[off + i] = b; }
  }
}
static void sharedAccess(State &s, u64 a);
static Val readMem(State &s, Val const &a, unsigned n) {
  Loc L = resolve(s, a, n, false);
  if (!L.offE) { if (!s.sharedR.empty()) sharedAccess(s, L.o->base + L.off); return readConc(L.o, L.off, n); }
  Expr *off = L.offE;
  unsigned tz = tzE(off);
  u64 stride = 1ull << std::min(tz, 6u);
  u64 lo = off->lo, hi = std::min(off->hi, L.o->size - n);
  if (stride > 1) { lo = (lo + stride - 1) / stride * stride; hi = hi / stride * stride; }
  u64 cnt = hi >= lo ? (hi - lo) / stride + 1 : 0;
  if (cnt > 600 || cnt == 0) {
    u64 o = concretize(s, V(off), 64, 600);
    return readConc(L.o, o, n);
  }
  Expr *r = nullptr;
  u64 runEnd = 0; Expr *cur = nullptr;
  // build from the top: ite(off <= k, v_k, rest)
  for (u64 i = cnt; i-- > 0;) {
    u64 k = lo + i * stride;
    Expr *v = X(readConc(L.o, k, n), n * 8);
    if (!r) { r = v; cur = v; continue; }
    if (v == cur) continue;
    r = mkIte(mkCmp(E_ULE, off, mkC(64, k)), v, r);
    cur = v;
  }
  (void)runEnd;
  return V(r);
}
static void writeMem(State &s, Val const &a, unsigned n, Val const &v) {
  Loc L = resolve(s, a, n, true);
  if (!L.offE) { if (!s.sharedR.empty()) sharedAccess(s, L.o->base + L.off); MemObj *o = wobj(s, L.o); writeConc(o, L.off, n, v); return; }
  Expr *off = L.offE;
  unsigned tz = tzE(off);
  u64 stride = 1ull << std::min(tz, 6u);
  u64 lo = off->lo, hi = std::min(off->hi, L.o->size - n);
  if (stride > 1) { lo = (lo + stride - 1) / stride * stride; hi = hi / stride * stride; }
  u64 cnt = hi >= lo ? (hi - lo) / stride + 1 : 0;
  if (cnt > 128 || cnt == 0 || stride < n) {
    u64 o = concretize(s, V(off), 64, 600);
    writeConc(wobj(s, L.o), o, n, v);
    return;
  }
  MemObj *o = wobj(s, L.o);
  for (u64 i = 0; i < cnt; ++i) {
    u64 k = lo + i * stride;
    Expr *old = X(readConc(o, k, n), n * 8);
    Expr *nv = mkIte(mkCmp(E_EQ, off, mkC(64, k)), X(v, n * 8), old);
    writeConc(o, k, n, V(nv));
  }
}
static Val loadTy(State &s, Val const &p, Type *t) {
  unsigned w = tw(t);
  if (w) {
    unsigned n = DL->getTypeStoreSize(t);
    Val v = readMem(s, p, n);
    if (w < n * 8) { if (v.e) return V(mkExtract(v.e, 0, w)); v.c &= msk(w); }
    return v;
  }
  Val r; r.a = new Agg();
  if (auto *st = dyn_cast<StructType>(t)) {
    auto *sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); ++i) {
      Val q = p.e ? V(mkBin(E_ADD, p.e, mkC(64, sl->getElementOffset(i)))) : Val(p.c + sl->getElementOffset(i));
      r.a->v.push_back(loadTy(s, q, st->getElementType(i)));
    }
    return r;
  }
  if (auto *at = dyn_cast<ArrayType>(t)) {
    u64 es = DL->getTypeAllocSize(at->getElementType());
    for (u64 i = 0; i < at->getNumElements(); ++i) {
      Val q = p.e ? V(mkBin(E_ADD, p.e, mkC(64, es * i))) : Val(p.c + es * i);
      r.a->v.push_back(loadTy(s, q, at->getElementType()));
    }
    return r;
  }
  if (auto *vt = dyn_cast<FixedVectorType>(t)) {
    u64 es = DL->getTypeStoreSize(vt->getElementType());
    if (tw(vt->getElementType()) == es * 8) {
      for (u64 i = 0; i < vt->getNumElements(); ++i) {
        Val q = p.e ? V(mkBin(E_ADD, p.e, mkC(64, es * i))) : Val(p.c + es * i);
        r.a->v.push_back(loadTy(s, q, vt->getElementType()));
      }
      return r;
    }
  }
  throw Unsupported{"load of type"};
}
static void storeTy(State &s, Val const &p, Type *t, Val const &v) {
  unsigned w = tw(t);
  if (w) {
    unsigned n = DL->getTypeStoreSize(t);
    Val x = v;
    if (w < n * 8 && x.e) x = V(mkZExt(x.e, n * 8));
    writeMem(s, p, n, x);
    return;
  }
  if (!v.a) throw Unsupported{"store of non-aggregate"};
  auto at = [&](u64 o) { return p.e ? V(mkBin(E_ADD, p.e, mkC(64, o))) : Val(p.c + o); };
  if (auto *st = dyn_cast<StructType>(t)) {
    auto *sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); ++i) storeTy(s, at(sl->getElementOffset(i)), st->getElementType(i), v.a->v[i]);
    return;
  }
  if (auto *a = dyn_cast<ArrayType>(t)) {
    u64 es = DL->getTypeAllocSize(a->getElementType());
    for (u64 i = 0; i < a->getNumElements(); ++i) storeTy(s, at(es * i), a->getElementType(), v.a->v[i]);
    return;
  }
  if (auto *a = dyn_cast<FixedVectorType>(t)) {
    u64 es = DL->getTypeStoreSize(a->getElementType());
    for (u64 i = 0; i < a->getNumElements(); ++i) storeTy(s, at(es * i), a->getElementType(), v.a->v[i]);
    return;
  }
  throw Unsupported{"store of type"};
}
// raw helpers for handlers
static u64 rd64(State &s, u64 a) { Val v = readMem(s, Val(a), 8); return concretize(s, v, 64); }
static u64 rd32(State &s, u64 a) { Val v = readMem(s, Val(a), 4); return concretize(s, v, 32); }
static std::string cstr(State &s, Val const &p) {
  u64 a = concretize(s, p, 64);
  std::string r;
  for (;;) { Val v = readMem(s, Val(a++), 1); u64 c = concretize(s, v, 8); if (!c) return r; r += (char)c; if (r.size() > 100000) throw Unsupported{"cstr"}; }
}

// ------------------------------------------------------------------ module loading
static Val evalConst(const Constant *c);
static u64 fnAddr(const Function *f) {
  auto it = gaddr.find(f);
  if (it != gaddr.end()) return it->second;
  u64 a = 0x10000 + gaddr.size() * 64; // below REG1: never a data object
  gaddr[f] = a; fnByAddr[a] = f;
  return a;
}
static u64 gvAddr(const GlobalValue *g) {
  if (auto *f = dyn_cast<Function>(g)) return fnAddr(f);
  if (auto *al = dyn_cast<GlobalAlias>(g)) { Val v = evalConst(al->getAliasee()); return v.c; }
  auto it = gaddr.find(g);
  if (it == gaddr.end()) throw Unsupported{"global " + g->getName().str()};
  return it->second;
}
static Val binC(unsigned opc, unsigned w, Val a, Val b);
static Val evalConst(const Constant *c) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) {
    if (ci->getBitWidth() <= 64) return Val(ci->getZExtValue());
    APInt v = ci->getValue();
    u128 x = v.extractBitsAsZExtValue(64, 0) | ((u128)v.extractBitsAsZExtValue(std::min(64u, v.getBitWidth() - 64), 64) << 64);
    Val r; r.e = mkC(ci->getBitWidth(), x); return r;
  }
  if (auto *cf = dyn_cast<ConstantFP>(c)) return Val(cf->getValueAPF().bitcastToAPInt().getZExtValue());
  if (isa<ConstantPointerNull>(c)) return Val(0);
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
    Type *t = c->getType();
    if (unsigned w = tw(t)) { if (w > 64) { Val r; r.e = mkC(w, 0); return r; } return Val(0); }
    Val r; r.a = new Agg();
    u64 n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
    for (u64 i = 0; i < n; ++i) r.a->v.push_back(evalConst(c->getAggregateElement((unsigned)i)));
    return r;
  }
  if (auto *g = dyn_cast<GlobalValue>(c)) return Val(gvAddr(g));
  if (isa<ConstantAggregate>(c) || isa<ConstantDataSequential>(c)) {
    Val r; r.a = new Agg();
    Type *t = c->getType();
    u64 n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
    for (u64 i = 0; i < n; ++i) r.a->v.push_back(evalConst(c->getAggregateElement((unsigned)i)));
    return r;
  }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    if (auto *g = dyn_cast<GEPOperator>(ce)) {
      APInt off(64, 0);
      if (!g->accumulateConstantOffset(*DL, off)) throw Unsupported{"const gep"};
      return Val(evalConst(cast<Constant>(g->getPointerOperand())).c + (u64)off.getSExtValue());
    }
    unsigned w = tw(ce->getType());
    switch (ce->getOpcode()) {
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: { Val v = evalConst(ce->getOperand(0)); if (!v.e && w) v.c &= msk(w); return v; }
    case Instruction::Trunc: { Val v = evalConst(ce->getOperand(0)); v.c &= msk(w); return v; }
    case Instruction::ZExt: return evalConst(ce->getOperand(0));
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: {
      Val a = evalConst(ce->getOperand(0)), b = evalConst(ce->getOperand(1)); return binC(ce->getOpcode(), w, a, b); }
    case Instruction::ICmp: {
      Val a = evalConst(ce->getOperand(0)), b = evalConst(ce->getOperand(1));
      switch (cast<ConstantExpr>(ce)->getPredicate()) { case CmpInst::ICMP_EQ: return Val(a.c == b.c); case CmpInst::ICMP_NE: return Val(a.c != b.c); case CmpInst::ICMP_ULT: return Val(a.c < b.c); case CmpInst::ICMP_UGT: return Val(a.c > b.c); default: break; } }
    default: break;
    }
  }
  std::string t; raw_string_ostream os(t); c->print(os);
  throw Unsupported{"constant " + t};
}
static Val binC(unsigned opc, unsigned w, Val a, Val b) {
  u64 m = msk(w), x = a.c, y = b.c;
  switch (opc) {
  case Instruction::Add: return Val((x + y) & m);
  case Instruction::Sub: return Val((x - y) & m);
  case Instruction::Mul: return Val((x * y) & m);
  case Instruction::And: return Val(x & y);
  case Instruction::Or: return Val(x | y);
  case Instruction::Xor: return Val(x ^ y);
  case Instruction::Shl: return Val(y >= w ? 0 : (x << y) & m);
  case Instruction::LShr: return Val(y >= w ? 0 : x >> y);
  }
  throw Unsupported{"binC"};
}
static int constSlot(const Constant *c) {
  auto it = constIdx.find(c);
  if (it != constIdx.end()) return it->second;
  constTab.push_back(evalConst(c));
  int i = -(int)constTab.size();
  constIdx[c] = i;
  return i;
}
static std::string demang(StringRef n) { return llvm::demangle(n.str()); }
static KFunc *getK(const Function *F) {
  auto it = kfuncs.find(F);
  if (it != kfuncs.end()) return it->second;
  KFunc *k = new KFunc();
  kfuncs[F] = k;
  k->F = F;
  k->name = demang(F->getName());
  if (auto *sp = F->getSubprogram()) { k->file = sp->getFilename().str(); k->line = sp->getLine(); if (!k->file.empty() && k->file[0] != '/') k->file = sp->getDirectory().str() + "/" + k->file; }
  std::unordered_map<const Value *, int> slot;
  for (auto &a : F->args()) slot[&a] = k->nslots++;
  std::unordered_map<const BasicBlock *, int> bbid;
  for (auto &bb : *F) {
    bbid[&bb] = k->bbs.size();
    k->bbs.push_back(&bb);
    for (auto &i : bb) if (!i.getType()->isVoidTy()) slot[&i] = k->nslots++;
  }
  for (auto &bb : *F) {
    k->bbStart.push_back(k->ins.size());
    for (auto &i : bb) {
      if (isa<DbgInfoIntrinsic>(&i)) continue;
      KInst ki;
      ki.I = &i; ki.op = i.getOpcode(); ki.bb = bbid[&bb];
      if (!i.getType()->isVoidTy()) { ki.dest = slot[&i]; ki.w = tw(i.getType()); }
      for (auto &o : i.operands()) {
        const Value *v = o.get();
        int ix = 0; unsigned w = 0;
        if (isa<BasicBlock>(v) || isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) { ki.ops.push_back(0x7fffffff); ki.opw.push_back(0); continue; }
        w = tw(v->getType());
        if (auto *c = dyn_cast<Constant>(v)) ix = constSlot(c); else ix = slot.at(v);
        ki.ops.push_back(ix); ki.opw.push_back(w);
      }
      if (auto *g = dyn_cast<GetElementPtrInst>(&i)) {
        if (!g->getType()->isPointerTy()) throw Unsupported{"vector gep"};
        int opi = 1;
        for (auto gt = gep_type_begin(g), ge = gep_type_end(g); gt != ge; ++gt, ++opi) {
          const Value *ix = gt.getOperand();
          if (auto *st = gt.getStructTypeOrNull()) {
            ki.goff += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
          } else {
            u64 sc = DL->getTypeAllocSize(gt.getIndexedType());
            if (auto *ci = dyn_cast<ConstantInt>(ix)) ki.goff += ci->getSExtValue() * (i64)sc;
            else { ki.gidx.push_back({opi, sc}); ki.gw.push_back(tw(ix->getType())); }
          }
        }
      }
      if (i.isTerminator()) for (unsigned q = 0; q < i.getNumSuccessors(); ++q) ki.succ.push_back(bbid[i.getSuccessor(q)]);
      k->ins.push_back(ki);
    }
  }
  return k;
}
static void initGlobal(State &s, u64 addr, const Constant *c) {
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  Type *t = c->getType();
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
    StringRef r = cd->getRawDataValues();
    MemObj *o = lookup(s, addr);
    memcpy(&o->b[addr - o->base], r.data(), r.size());
    return;
  }
  if (auto *st = dyn_cast<StructType>(t)) {
    auto *sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); ++i) initGlobal(s, addr + sl->getElementOffset(i), c->getAggregateElement(i));
    return;
  }
  if (auto *at = dyn_cast<ArrayType>(t)) {
    u64 es = DL->getTypeAllocSize(at->getElementType());
    for (u64 i = 0; i < at->getNumElements(); ++i) initGlobal(s, addr + es * i, c->getAggregateElement((unsigned)i));
    return;
  }
  Val v = evalConst(c);
  unsigned n = DL->getTypeStoreSize(t);
  MemObj *o = lookup(s, addr);
  writeConc(o, addr - o->base, n, v);
}

// ------------------------------------------------------------------ execution helpers
static inline Val &reg(Frame &f, int i) { return i >= 0 ? f.r[i] : constTab[-i - 1]; }
static void gotoBB(State &s, Frame &f, int to) {
  KFunc *k = f.kf;
  int from = k->ins[f.pc].bb;
  int pc = k->bbStart[to];
  static std::vector<std::pair<int, Val>> tmp;
  tmp.clear();
  const BasicBlock *fb = k->bbs[from];
  while (pc < (int)k->ins.size() && k->ins[pc].op == Instruction::PHI) {
    auto *ph = cast<PHINode>(k->ins[pc].I);
    int ix = ph->getBasicBlockIndex(fb);
    tmp.push_back({k->ins[pc].dest, reg(f, k->ins[pc].ops[ix])});
    ++pc;
  }
  for (auto &p : tmp) f.r[p.first] = p.second;
  f.pc = pc;
}
static void pushFrame(State &s, const Function *F, std::vector<Val> const &args, std::vector<unsigned> const &ws) {
  Thread &t = s.th[s.cur];
  if (t.st.size() > 3000) report(s, "stack", "unbounded recursion");
  KFunc *k = getK(F);
  ++k->calls;
  t.st.emplace_back();
  Frame &f = t.st.back();
  f.kf = k;
  f.r.resize(k->nslots);
  size_t n = F->arg_size();
  for (size_t i = 0; i < args.size(); ++i) {
    if (i < n) {
      auto *A = F->getArg(i);
      if (A->hasByValAttr()) {
        Type *bt = A->getParamByValType();
        u64 sz = DL->getTypeAllocSize(bt);
        // deferred: spBase must be set first
        (void)sz;
      }
      f.r[i] = args[i];
    } else { f.va.push_back(args[i]); f.vaw.push_back(ws[i]); }
  }
  int region = 3 + s.cur;
  if ((int)s.reg.size() <= region) s.reg.resize(region + 1);
  f.spBase = s.reg[region].top;
  for (size_t i = 0; i < n && i < args.size(); ++i) {
    auto *A = F->getArg(i);
    if (A->hasByValAttr()) {
      u64 sz = DL->getTypeAllocSize(A->getParamByValType());
      u64 src = args[i].c;
      u64 d = allocObj(s, region, sz, 2, false, 0);
      MemObj *so = lookup(s, src), *o = lookup(s, d);
      if (!so) report(s, "memory", "bad byval pointer");
      o = wobj(s, o); so = lookup(s, src);
      for (u64 j = 0; j < sz; ++j) writeConc(o, j, 1, readConc(so, src - so->base + j, 1));
      t.st.back().r[i] = Val(d);
    }
  }
  if (t.st.size() > maxDepth) maxDepth = t.st.size();
}
static void endThread(State &s);
static void doReturn(State &s, Val const &v, bool hasVal) {
  Thread &t = s.th[s.cur];
  popStack(s, 3 + s.cur, t.st.back().spBase);
  t.st.pop_back();
  if (t.st.empty()) { endThread(s); return; }
  Frame &f = t.st.back();
  KInst &ki = f.kf->ins[f.pc];
  if (ki.dest >= 0 && hasVal) f.r[ki.dest] = v;
  if (ki.op == Instruction::Invoke) gotoBB(s, f, ki.succ[0]); else ++f.pc;
}
// --- exceptions
static std::string gvNameAt(u64 a) { auto it = gvByAddr.find(a); if (it != gvByAddr.end()) return it->second->getName().str(); return ""; }
static int tiKind(State &s, u64 ti) { // 0 class/opaque,1 si,2 vmi,3 pointer
  MemObj *o = lookup(s, ti);
  if (!o || o->size < 16) return 0;
  u64 vt = readConc(o, ti - o->base, 8).c;
  std::string n = gvNameAt(vt - 16);
  if (n == "_ZTVN10__cxxabiv120__si_class_type_infoE") return 1;
  if (n == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") return 2;
  if (n == "_ZTVN10__cxxabiv119__pointer_type_infoE") return 3;
  return 0;
}
static bool tiEq(State &s, u64 a, u64 b) {
  if (a == b) return true;
  return false;
}
static bool derives(State &s, u64 from, u64 to, u64 obj, u64 &adj, int depth = 0) {
  if (tiEq(s, from, to)) { adj = obj; return true; }
  if (depth > 20) return false;
  int k = tiKind(s, from);
  MemObj *o = lookup(s, from);
  if (k == 1) return derives(s, readConc(o, from - o->base + 16, 8).c, to, obj, adj, depth + 1);
  if (k == 2) {
    u64 cnt = readConc(o, from - o->base + 20, 4).c;
    for (u64 i = 0; i < cnt; ++i) {
      u64 b = readConc(o, from - o->base + 24 + 16 * i, 8).c;
      i64 of = (i64)readConc(o, from - o->base + 32 + 16 * i, 8).c;
      if (!(of & 2)) continue; // non-public
      u64 no = obj;
      if (of & 1) { if (obj) { u64 vp = rd64(s, obj); no = obj + rd64(s, vp + (of >> 8)); } }
      else no = obj + (of >> 8);
      if (derives(s, b, to, no, adj, depth + 1)) return true;
    }
  }
  return false;
}
static int tiId(u64 ti) { auto it = tiIds.find(ti); if (it != tiIds.end()) return it->second; int n = tiIds.size() + 1; tiIds[ti] = n; return n; }
static bool lpMatch(State &s, Frame &f, Exc &x, bool &cleanup, int &sel, u64 &adj) {
  KInst &ki = f.kf->ins[f.pc];
  cleanup = false; sel = 0;
  if (ki.op != Instruction::Invoke) return false;
  const LandingPadInst *lp = cast<InvokeInst>(ki.I)->getLandingPadInst();
  cleanup = lp->isCleanup();
  for (unsigned i = 0; i < lp->getNumClauses(); ++i) {
    const Constant *c = lp->getClause(i);
    if (lp->isCatch(i)) {
      u64 ti = evalConst(c).c;
      if (ti == 0) { sel = tiId(0); adj = x.addr; return true; }
      u64 a;
      if (derives(s, x.ti, ti, x.addr, a)) { sel = tiId(ti); adj = a; return true; }
    } else {
      // filter: matches if no type in the list matches
      Val l = evalConst(c);
      bool any = false; u64 a;
      if (l.a) for (auto &v : l.a->v) if (derives(s, x.ti, v.c, x.addr, a)) any = true;
      if (!any) { sel = -1; adj = x.addr; return true; }
    }
  }
  return false;
}
static void continueUnwind(State &s, u64 exc) {
  Thread &t = s.th[s.cur];
  Exc &x = s.excs[exc];
  while (!t.st.empty()) {
    Frame &f = t.st.back();
    bool cl; int sel; u64 adj = x.addr;
    bool m = lpMatch(s, f, x, cl, sel, adj);
    if (m || cl) {
      if (m) x.adj = adj;
      f.lpExc = exc; f.lpSel = m ? sel : 0;
      gotoBB(s, f, f.kf->ins[f.pc].succ[1]);
      return;
    }
    popStack(s, 3 + s.cur, f.spBase);
    t.st.pop_back();
  }
  throw Unsupported{"unwound past the last frame"};
}
static std::string tiName(State &s, u64 ti) { std::string n = gvNameAt(ti); if (n.compare(0, 4, "_ZTI") == 0) return demang(n).substr(strlen("typeinfo for ")); return n; }
static std::string excWhat(State &s, Exc &x);
static void startThrow(State &s, u64 exc) {
  Thread &t = s.th[s.cur];
  Exc &x = s.excs[exc];
  bool found = false;
  for (int i = (int)t.st.size() - 1; i >= 0 && !found; --i) {
    bool cl; int sel; u64 adj;
    if (lpMatch(s, t.st[i], x, cl, sel, adj)) found = true;
  }
  if (!found) report(s, "uncaught", "uncaught exception of type " + tiName(s, x.ti));
  continueUnwind(s, exc);
}
// --- threads
static void endThread(State &s) {
  if (s.cur == 0) { ++pathsDone; throw Dead(); }
  s.th[s.cur].status = 2;
  // wake joiners
  for (auto &t : s.th) if (t.status == 1 && t.waitOn == 0x7000 + (u64)s.cur) t.status = 0;
  s.needSched = 1;
}
struct Resched {};
static void sharedAccess(State &s, u64 a) {
  if (s.th.size() < 2) return;
  Thread &t = s.th[s.cur];
  if (t.skip) return;
  bool in = false;
  for (auto &r : s.sharedR) if (a >= r.first && a < r.first + r.second) in = true;
  if (!in) return;
  t.skip = true; s.needSched = 2;
  throw Resched();
}
static void schedule(State &s) {
  std::vector<int> R;
  bool alive = false;
  for (size_t i = 0; i < s.th.size(); ++i) { if (s.th[i].status == 0) R.push_back(i); if (s.th[i].status == 1) alive = true; }
  if (R.empty()) {
    if (alive) { s.cur = 0; for (size_t i = 0; i < s.th.size(); ++i) if (s.th[i].status == 1) { s.cur = i; break; } report(s, "deadlock", "every live thread is blocked"); }
    throw Unsupported{"no threads"};
  }
  int pick;
  if (R.size() == 1) pick = R[0];
  else if (s.needSched == 2 && s.preempts >= maxPreempt) { pick = s.cur; }
  else {
    if (!s.pend) {
      s.pend = mkSym(8, "sched");
      setModel(s, {{(int)s.pend->aux, 0}});
      s.inputs.push_back({"sched", s.pend, 0, 1, 0});
      addC(s, mkCmp(E_ULT, s.pend, mkC(8, R.size())));
    }
    pick = R.back();
    for (size_t i = 0; i + 1 < R.size(); ++i) if (decide(s, mkCmp(E_EQ, s.pend, mkC(8, i)))) { pick = R[i]; break; }
    s.pend = nullptr;
  }
  if (s.needSched == 2 && pick != s.cur) ++s.preempts;
  s.needSched = 0;
  s.cur = pick;
}

// ------------------------------------------------------------------ external functions
typedef std::function<int(State &, std::vector<Val> &, KInst &, Val &)> Handler;
static std::unordered_map<std::string, Handler> H;
static u64 doAlloc(State &s, Val const &szv, bool isNew, int fill, bool &ctrl) {
  ctrl = false;
  u64 sz;
  if (szv.e) {
    Expr *e = simp(s, szv.e);
    if (!e->isC()) {
      if (!decide(s, mkCmp(E_ULE, e, mkC(64, maxAlloc)))) sz = evalS(s, e);
      else sz = concretize(s, V(e), 64, 4096);
    } else sz = (u64)e->c;
  } else sz = szv.c;
  if (sz > maxAlloc) {
    if (sz > (1ull << 46)) {
      if (!isNew) return 0;
      const Function *f = M->getFunction("sym_rt_bad_alloc");
      if (f) { pushFrame(s, f, {}, {}); ctrl = true; return 0; }
    }
    report(s, "huge-alloc", "allocation of " + std::to_string(sz) + " bytes requested");
  }
  u64 a = allocObj(s, 2, sz, 1, false, fill);
  if (s.uninitSym && fill == 0xCD) {
    MemObj *o = wobj(s, lookup(s, a));
    o->s.assign(sz, nullptr);
    for (u64 i = 0; i < sz && i < 512; ++i) o->s[i] = mkSym(8, "uninit");
  }
  return a;
}
static void doFree(State &s, Val const &p) {
  u64 a = concretize(s, p, 64);
  if (!a) return;
  MemObj *o = lookup(s, a);
  if (!o || o->kind != 1 || o->base != a) report(s, "memory", "free of invalid pointer, " + describeObj(s, a));
  if (o->freed) report(s, "memory", "double free");
  o = wobj(s, o);
  o->freed = true; // contents kept for diagnostics only
  o->s.clear(); 
}
static void doMemcpy(State &s, u64 d, u64 sr, u64 n, bool move) {
  if (!n) return;
  Loc ls = resolve(s, Val(sr), n, false);
  Loc ld = resolve(s, Val(d), n, true);
  if (!s.sharedR.empty()) { sharedAccess(s, d); sharedAccess(s, sr); }
  std::vector<uint8_t> b(ls.o->b.begin() + ls.off, ls.o->b.begin() + ls.off + n);
  std::vector<Expr *> e;
  if (!ls.o->s.empty()) e.assign(ls.o->s.begin() + ls.off, ls.o->s.begin() + ls.off + n);
  bool any = false;
  for (Expr *x : e) if (x) { any = true; break; }
  MemObj *o = wobj(s, ld.o);
  memcpy(&o->b[ld.off], b.data(), n);
  if (any) { if (o->s.empty()) o->s.assign(o->size, nullptr); std::copy(e.begin(), e.end(), o->s.begin() + ld.off); }
  else if (!o->s.empty()) std::fill(o->s.begin() + ld.off, o->s.begin() + ld.off + n, nullptr);
}
static int uniq = 0;
static std::string symName(std::string const &n) { return n; }
static void setupHandlers() {
#define HH(name) H[name] = [](State &s, std::vector<Val> &a, KInst &ki, Val &ret) -> int
  auto alloc = [](bool isNew, int fill) { return [isNew, fill](State &s, std::vector<Val> &a, KInst &ki, Val &ret) -> int { bool c; ret = Val(doAlloc(s, a[0], isNew, fill, c)); return c ? 1 : 0; }; };
  H["malloc"] = alloc(false, 0xCD);
  H["_Znwm"] = H["_Znam"] = alloc(true, 0xCD);
  H["_ZnwmRKSt9nothrow_t"] = H["_ZnamRKSt9nothrow_t"] = alloc(false, 0xCD);
  H["__cxa_allocate_exception"] = alloc(true, 0);
  HH("calloc") { u64 n = concretize(s, a[0], 64), m = concretize(s, a[1], 64); bool c; ret = Val(doAlloc(s, Val(n * m), false, 0, c)); return c; };
  HH("realloc") { u64 p = concretize(s, a[0], 64), n = concretize(s, a[1], 64); bool c; u64 q = doAlloc(s, Val(n), false, 0xCD, c); if (p && q) { MemObj *o = lookup(s, p); if (!o || o->freed || o->base != p) report(s, "memory", "realloc of invalid pointer"); doMemcpy(s, q, p, std::min(n, o->size), false); doFree(s, Val(p)); } ret = Val(q); return 0; };
  H["free"] = H["_ZdlPv"] = H["_ZdaPv"] = H["_ZdlPvm"] = H["_ZdaPvm"] = H["_ZdlPvRKSt9nothrow_t"] = [](State &s, std::vector<Val> &a, KInst &ki, Val &ret) -> int { doFree(s, a[0]); return 0; };
  H["memcpy"] = H["memmove"] = [](State &s, std::vector<Val> &a, KInst &ki, Val &ret) -> int {
    u64 n = concretize(s, a[2], 64); u64 d = concretize(s, a[0], 64), sr = concretize(s, a[1], 64); doMemcpy(s, d, sr, n, true); ret = Val(d); return 0; };
  HH("memset") { u64 n = concretize(s, a[2], 64); u64 d = concretize(s, a[0], 64); ret = Val(d); if (!n) return 0; Loc L = resolve(s, Val(d), n, true); if (!s.sharedR.empty()) sharedAccess(s, d);
    MemObj *o = wobj(s, L.o);
    if (!a[1].e) { memset(&o->b[L.off], (int)a[1].c, n); if (!o->s.empty()) std::fill(o->s.begin() + L.off, o->s.begin() + L.off + n, nullptr); }
    else { Expr *b = mkExtract(a[1].e, 0, 8); for (u64 i = 0; i < n; ++i) writeConc(o, L.off + i, 1, V(b)); }
    return 0; };
  H["memcmp"] = H["bcmp"] = [](State &s, std::vector<Val> &a, KInst &ki, Val &ret) -> int {
    u64 n = concretize(s, a[2], 64); if (!n) { ret = Val(0); return 0; }
    u64 p = concretize(s, a[0], 64), q = concretize(s, a[1], 64);
    Loc A = resolve(s, Val(p), n, false), B = resolve(s, Val(q), n, false);
    Expr *r = mkC(32, 0);
    for (u64 i = n; i-- > 0;) { Expr *x = byteAt(A.o, A.off + i), *y = byteAt(B.o, B.off + i);
      if (x == y) continue;
      r = mkIte(mkCmp(E_EQ, x, y), r, mkIte(mkCmp(E_ULT, x, y), mkC(32, (u64)-1), mkC(32, 1))); }
    ret = V(r); return 0; };
  HH("strlen") { u64 p = concretize(s, a[0], 64); u64 i = 0; for (;; ++i) { Val v = readMem(s, Val(p + i), 1); if (!v.e) { if (!v.c) break; continue; } if (decide(s, mkCmp(E_EQ, v.e, mkC(8, 0)))) break; } ret = Val(i); return 0; };
  // --- C++ ABI
  HH("__cxa_free_exception") { return 0; };
  HH("__cxa_throw") { u64 p = a[0].c; s.excs[p] = Exc{p, a[1].c, p, 0, a[2].c}; startThrow(s, p); return 1; };
  HH("__cxa_begin_catch") { u64 p = a[0].c; Exc &x = s.excs[p]; ++x.handlers; s.th[s.cur].caught.push_back(p); ret = Val(x.adj); return 0; };
  HH("__cxa_get_exception_ptr") { ret = Val(s.excs[a[0].c].adj); return 0; };
  HH("__cxa_end_catch") { auto &c = s.th[s.cur].caught; if (!c.empty()) c.pop_back(); return 0; };
  HH("__cxa_rethrow") { auto &c = s.th[s.cur].caught; if (c.empty()) report(s, "terminate", "rethrow without exception"); startThrow(s, c.back()); return 1; };
  HH("_ZSt9terminatev") { report(s, "terminate", "std::terminate called"); return 0; };
  HH("__cxa_call_unexpected") { report(s, "terminate", "unexpected exception"); return 0; };
  HH("__cxa_pure_virtual") { report(s, "abort", "pure virtual call"); return 0; };
  HH("_ZSt18uncaught_exceptionv") { ret = Val(0); return 0; };
  HH("__cxa_atexit") { ret = Val(0); return 0; };
  HH("atexit") { ret = Val(0); return 0; };
  HH("__cxa_guard_acquire") { Val v = readMem(s, a[0], 1); ret = Val(v.c ? 0 : 1); return 0; };
  HH("__cxa_guard_release") { writeMem(s, a[0], 1, Val(1)); return 0; };
  HH("__cxa_guard_abort") { return 0; };
  HH("__dynamic_cast") { u64 p = concretize(s, a[0], 64); u64 vp = rd64(s, p); i64 top = (i64)rd64(s, vp - 16); u64 ti = rd64(s, vp - 8); u64 adj = 0;
    ret = Val(derives(s, ti, a[2].c, p + top, adj) ? adj : 0); return 0; };
  HH("abort") { report(s, "abort", "abort called"); return 0; };
  H["exit"] = H["_exit"] = [](State &s, std::vector<Val> &a, KInst &ki, Val &ret) -> int { report(s, "exit", "exit called"); return 0; };
  HH("__assert_fail") { report(s, "assert", "assertion failed: " + cstr(s, a[0])); return 0; };
  // --- harness interface
  HH("sym_make") { u64 p = a[0].c, n = concretize(s, a[1], 64); std::string nm = cstr(s, a[2]); if (!n) return 0; Loc L = resolve(s, Val(p), n, true); MemObj *o = wobj(s, L.o);
    if (o->s.empty()) o->s.assign(o->size, nullptr);
    for (u64 i = 0; i < n; ++i) { Expr *e = mkSym(8, nm + "[" + std::to_string(i) + "]"); o->s[L.off + i] = e; s.inputs.push_back({nm, e, 0, 1, 0}); }
    setModel(s, {}); return 0; };
  HH("sym_long") { i64 lo = (i64)a[0].c, hi = (i64)a[1].c; std::string nm = cstr(s, a[2]); u64 span = (u64)hi - (u64)lo; unsigned w = 0; while (w < 64 && (span >> w)) ++w;
    if (w == 0) { s.inputs.push_back({nm, nullptr, (u64)lo, 8, 0}); ret = Val((u64)lo); return 0; }
    if (w == 8) w = 9; // keep 8-bit symbols for bytes
    Expr *e = mkSym(w, nm); setModel(s, {});
    if (span != msk(w)) { addC(s, mkCmp(E_ULE, e, mkC(w, span))); e->hi = span; } // the range constraint is stored; later expressions may rely on it
    s.inputs.push_back({nm, mkZExt(e, 64), 0, 8, lo});
    ret = V(mkBin(E_ADD, mkZExt(e, 64), mkC(64, (u64)lo))); return 0; };
  HH("sym_choose") { u64 n = concretize(s, a[0], 64); std::string nm = cstr(s, a[1]);
    if (n <= 1) { s.inputs.push_back({nm, nullptr, 0, 8, 0}); ret = Val(0); return 0; }
    if (n > 256) { noteIncomplete("sym_choose of more than 256"); throw Dead(); }
    if (!s.pend) { s.pend = mkSym(8, nm); setModel(s, {}); s.inputs.push_back({nm, mkZExt(s.pend, 64), 0, 8, 0}); if (n < 256) addC(s, mkCmp(E_ULT, s.pend, mkC(8, n))); }
    u64 pick = n - 1;
    for (u64 i = 0; i + 1 < n; ++i) if (decide(s, mkCmp(E_EQ, s.pend, mkC(8, i)))) { pick = i; break; }
    s.pend = nullptr; ret = Val(pick); return 0; };
  HH("sym_assume") { if (!a[0].e) { if (!(a[0].c & 0xffffffff)) { ++pathsAssume; throw Dead(); } return 0; }
    Expr *c = simp(s, mkNot(mkCmp(E_EQ, a[0].e, mkC(a[0].e->w, 0))));
    if (c->isC()) { if (!c->c) { ++pathsAssume; throw Dead(); } return 0; }
    if (!(evalS(s, c) & 1)) { std::vector<std::pair<int, u64>> m; SatRes r = query(s, c, &m); if (r == S_UNSAT) { ++pathsAssume; throw Dead(); } if (r == S_UNKNOWN) { noteIncomplete("solver gave no answer at an assumption"); throw Dead(); } setModel(s, m); }
    addC(s, c); return 0; };
  HH("sym_check") { ++checks; std::string msg = cstr(s, a[1]);
    if (!a[0].e) { if (!(a[0].c & 0xffffffff)) report(s, "check", msg); return 0; }
    Expr *c = simp(s, mkNot(mkCmp(E_EQ, a[0].e, mkC(a[0].e->w, 0))));
    if (c->isC()) { if (!c->c) report(s, "check", msg); return 0; }
    auto it = s.known.find(c);
    if (it != s.known.end()) { if (!it->second) report(s, "check", msg); return 0; }
    ++checkQueries;
    std::vector<std::pair<int, u64>> m; SatRes r = query(s, mkNot(c), &m);
    if (r == S_SAT) { auto om = s.model; u64 os = s.stamp; setModel(s, m); report(s, "check", msg, false);
      // continue on the side where it holds, if any
      s.model = om; s.stamp = os;
      if (!(evalS(s, c) & 1)) { std::vector<std::pair<int, u64>> m2; if (query(s, c, &m2) != S_SAT) throw Dead(); setModel(s, m2); }
      addC(s, c);
    } else if (r == S_UNKNOWN) { noteIncomplete("solver gave no answer for: " + msg); addC(s, c); if (!(evalS(s, c) & 1)) throw Dead(); }
    else s.known[c] = true;
    return 0; };
  HH("sym_reach") { reached.insert(cstr(s, a[0])); return 0; };
  HH("sym_expect") { expected.insert(cstr(s, a[0])); return 0; };
  HH("sym_param") { std::string k = cstr(s, a[0]); auto it = params.find(k); ret = it == params.end() ? a[1] : Val((u64)strtoll(it->second.c_str(), 0, 0)); return 0; };
  HH("sym_concrete") { ret = Val(concretize(s, a[0], 64)); return 0; };
  HH("sym_is_symbolic") { if (!a[0].e) { ret = Val(0); return 0; } Expr *e = simp(s, a[0].e); ret = Val(!e->isC()); return 0; };
  HH("sym_native") { ret = Val(0); return 0; };
  HH("sym_budget") { s.budget = s.steps + concretize(s, a[0], 64); return 0; };
  HH("sym_uninit") { s.uninitSym = a[0].c & 1; return 0; };
  HH("sym_max_preempt") { maxPreempt = (int)a[0].c; return 0; };
  HH("sym_incomplete") { noteIncomplete(cstr(s, a[0])); throw Dead(); return 0; };
  HH("sym_note") { if (s.trace.size() < 400) s.trace.push_back(cstr(s, a[0])); return 0; };
  HH("sym_show") { u64 v; if (a[1].e) v = evalS(s, a[1].e); else v = a[1].c; std::string t = cstr(s, a[0]) + "=" + std::to_string((i64)v) + (a[1].e ? " (symbolic)" : ""); if (s.trace.size() < 400) s.trace.push_back(t); if (verbose) fprintf(stderr, "[show] %s %s\n", t.c_str(), a[1].e ? exprStr(a[1].e).c_str() : ""); return 0; };
  HH("sym_alloc_fail_at") { s.allocFailAt = (int)a[0].c; return 0; };
  // pretty strings into the trace using the current model
  HH("sym_show_str") { u64 p = concretize(s, a[1], 64), n = concretize(s, a[2], 64); std::string t = cstr(s, a[0]) + "=\""; for (u64 i = 0; i < n; ++i) { Val v = readMem(s, Val(p + i), 1); u64 c = v.e ? evalS(s, v.e) : v.c; char b[8]; if (c >= 32 && c < 127 && c != '"' && c != '\\') { b[0] = c; b[1] = 0; } else snprintf(b, 8, "\\x%02x", (unsigned)c); t += b; } t += "\""; if (s.trace.size() < 400) s.trace.push_back(t); if (verbose) fprintf(stderr, "[show] %s\n", t.c_str()); return 0; };
  // value-level helpers so harness oracles need not fork
  HH("sym_ite") { Expr *c = mkNot(mkCmp(E_EQ, X(a[0], 64), mkC(64, 0))); ret = V(mkIte(c, X(a[1], 64), X(a[2], 64))); return 0; };
  HH("sym_and") { ret = V(mkZExt(mkAnd(mkNot(mkCmp(E_EQ, X(a[0], 32), mkC(32, 0))), mkNot(mkCmp(E_EQ, X(a[1], 32), mkC(32, 0)))), 32)); return 0; };
  HH("sym_or") { ret = V(mkZExt(mkOr(mkNot(mkCmp(E_EQ, X(a[0], 32), mkC(32, 0))), mkNot(mkCmp(E_EQ, X(a[1], 32), mkC(32, 0)))), 32)); return 0; };
  HH("sym_feasible") { // 1 if cond can be true on this path (no constraint added)
    Expr *c = simp(s, mkNot(mkCmp(E_EQ, X(a[0], 32), mkC(32, 0)))); if (c->isC()) { ret = Val((u64)c->c); return 0; } if (evalS(s, c) & 1) { ret = Val(1); return 0; } ret = Val(query(s, c, nullptr) != S_UNSAT); return 0; };
  HH("sym_fmt_double") { // (buf,size,fmt,double) concrete only
    double d; u64 b; if (a[3].e) { noteIncomplete("formatting a symbolic double"); throw Dead(); } b = a[3].c; memcpy(&d, &b, 8); std::string f = cstr(s, a[2]); char buf[512]; int n = snprintf(buf, sizeof buf, f.c_str(), d); u64 p = a[0].c; for (int i = 0; i <= n && i < (int)a[1].c; ++i) writeMem(s, Val(p + i), 1, Val((u64)(uint8_t)buf[i])); ret = Val((u64)n); return 0; };
  HH("sym_strtod") { // concrete only (ptr, endp)
    std::string t = cstr(s, a[0]); char *e; double d = strtod(t.c_str(), &e); u64 b; memcpy(&b, &d, 8); if (a[1].c) writeMem(s, a[1], 8, Val(a[0].c + (e - t.c_str()))); ret = Val(b); return 0; };
  // --- threads
  HH("sym_thread_create") { // (fn, arg) -> id
    u64 fn = a[0].c; const Function *F = fnByAddr.count(fn) ? fnByAddr[fn] : nullptr; if (!F) report(s, "memory", "thread entry is not a function");
    int old = s.cur; s.th.emplace_back(); s.cur = s.th.size() - 1; pushFrame(s, F, {a[1]}, {64}); ret = Val(s.cur); s.cur = old; return 0; };
  HH("sym_thread_self") { ret = Val(s.cur); return 0; };
  HH("sym_thread_join") { u64 t = concretize(s, a[0], 64); if (t < s.th.size() && s.th[t].status != 2) { Thread &me = s.th[s.cur]; me.status = 1; me.waitOn = 0x7000 + t; s.needSched = 1; return 1; } return 0; };
  HH("sym_yield") { ++s.th[s.cur].st.back().pc; if (s.th.size() > 1) s.needSched = 2; if (ki.op == Instruction::Invoke) { --s.th[s.cur].st.back().pc; Frame &f = s.th[s.cur].st.back(); gotoBB(s, f, ki.succ[0]); } return 1; };
  HH("sym_block") { Thread &me = s.th[s.cur]; Frame &f = me.st.back(); if (ki.op == Instruction::Invoke) gotoBB(s, f, ki.succ[0]); else ++f.pc; me.status = 1; me.waitOn = a[0].c; s.needSched = 1; return 1; };
  HH("sym_wake") { for (auto &t : s.th) if (t.status == 1 && t.waitOn == a[0].c) t.status = 0; return 0; };
  HH("sym_shared") { s.sharedR.push_back({a[0].c, a[1].c}); return 0; };
  HH("sym_stack_depth") { ret = Val(s.th[s.cur].st.size()); return 0; };
  // --- maths
  auto f1 = [](double (*fn)(double), int rnd, Op op) { return [fn, rnd, op](State &s, std::vector<Val> &a, KInst &ki, Val &ret) -> int {
    unsigned w = ki.w; if (!a[0].e) { if (w == 64) { double d; memcpy(&d, &a[0].c, 8); d = fn(d); u64 r; memcpy(&r, &d, 8); ret = Val(r); } else { float d; uint32_t x = a[0].c; memcpy(&d, &x, 4); d = (float)fn(d); memcpy(&x, &d, 4); ret = Val(x); } return 0; }
    if (op == E_CONST) { noteIncomplete("symbolic argument to a maths function"); throw Dead(); }
    ret = V(mkF1(op, a[0].e, w, rnd)); return 0; }; };
  H["sqrt"] = H["sqrtf"] = H["llvm.sqrt.f64"] = H["llvm.sqrt.f32"] = f1(std::sqrt, 0, E_FSQRT);
  H["floor"] = H["floorf"] = H["llvm.floor.f64"] = H["llvm.floor.f32"] = f1(std::floor, 0, E_FRND);
  H["ceil"] = H["ceilf"] = H["llvm.ceil.f64"] = H["llvm.ceil.f32"] = f1(std::ceil, 1, E_FRND);
  H["trunc"] = H["llvm.trunc.f64"] = f1(std::trunc, 2, E_FRND);
  H["round"] = H["llvm.round.f64"] = f1(std::round, 3, E_FRND);
  H["rint"] = H["nearbyint"] = H["llvm.rint.f64"] = f1(std::rint, 4, E_FRND);
  H["exp"] = f1(std::exp, 0, E_CONST); H["log"] = f1(std::log, 0, E_CONST);
  HH("pow") { if (a[0].e || a[1].e) { noteIncomplete("symbolic pow"); throw Dead(); } double x, y; memcpy(&x, &a[0].c, 8); memcpy(&y, &a[1].c, 8); x = std::pow(x, y); u64 r; memcpy(&r, &x, 8); ret = Val(r); return 0; };
  H["fabs"] = H["fabsf"] = H["llvm.fabs.f64"] = H["llvm.fabs.f32"] = [](State &s, std::vector<Val> &a, KInst &ki, Val &ret) -> int { unsigned w = ki.w; Expr *e = X(a[0], w); ret = V(mkBin(E_AND, e, mkC(w, maskw(w - 1)))); return 0; };
  // --- misc environment
  HH("getpid") { ret = Val(4242); return 0; };
  HH("__errno_location") { Val v(gvAddr(M->getGlobalVariable("sym_errno"))); ret = v; return 0; };
}

// ------------------------------------------------------------------ intrinsics by prefix
static bool intrinsic(State &s, StringRef n, std::vector<Val> &a, KInst &ki, Val &ret, bool &handled) {
  handled = true;
  auto is = [&](const char *p) { return n.starts_with(p); };
  unsigned w = ki.w;
  unsigned aw = ki.opw.empty() ? 0 : ki.opw[0];
  if (is("llvm.dbg") || is("llvm.lifetime") || is("llvm.assume") || is("llvm.invariant") || is("llvm.donothing") || is("llvm.prefetch") || is("llvm.experimental.noalias") || is("llvm.va_end") || is("llvm.stackrestore") || is("llvm.var.annotation")) { ret = Val(0); return true; }
  if (is("llvm.stacksave")) { ret = Val(0); return true; }
  if (is("llvm.memcpy") || is("llvm.memmove")) { H["memcpy"](s, a, ki, ret); return true; }
  if (is("llvm.memset")) { H["memset"](s, a, ki, ret); return true; }
  if (is("llvm.expect")) { ret = a[0]; return true; }
  if (is("llvm.threadlocal.address") || is("llvm.launder") || is("llvm.strip.invariant") || is("llvm.ptr.annotation")) { ret = a[0]; return true; }
  if (is("llvm.is.constant")) { ret = Val(0); return true; }
  if (is("llvm.objectsize")) { ret = Val(a[1].c ? 0 : ~0ull); return true; }
  if (is("llvm.eh.typeid.for")) { ret = Val((u64)(uint32_t)tiId(a[0].c)); return true; }
  if (is("llvm.trap") || is("llvm.debugtrap") || is("llvm.ubsantrap")) { report(s, "trap", "trap executed (undefined behaviour)"); }
  if (is("llvm.fmuladd") || is("llvm.fma")) { Expr *p = mkBin(E_FMUL, X(a[0], w), X(a[1], w)); ret = V(mkBin(E_FADD, p, X(a[2], w))); return true; }
  auto ovf = [&](bool sg, int kind) {
    Expr *x = X(a[0], aw), *y = X(a[1], aw);
    unsigned W = kind == 2 ? aw * 2 : aw + 1;
    if (W > 128) throw Unsupported{"wide overflow op"};
    Expr *ex = sg ? mkSExt(x, W) : mkZExt(x, W), *ey = sg ? mkSExt(y, W) : mkZExt(y, W);
    Op o = kind == 0 ? E_ADD : kind == 1 ? E_SUB : E_MUL;
    Expr *r = mkBin(o, ex, ey);
    Expr *lo = mkBin(o, x, y);
    Expr *bk = sg ? mkSExt(lo, W) : mkZExt(lo, W);
    ret = Val(); ret.a = new Agg(); ret.a->v.push_back(V(lo)); ret.a->v.push_back(V(mkNot(mkCmp(E_EQ, r, bk))));
  };
  if (is("llvm.uadd.with.overflow")) { ovf(false, 0); return true; }
  if (is("llvm.sadd.with.overflow")) { ovf(true, 0); return true; }
  if (is("llvm.usub.with.overflow")) { ovf(false, 1); return true; }
  if (is("llvm.ssub.with.overflow")) { ovf(true, 1); return true; }
  if (is("llvm.umul.with.overflow")) { ovf(false, 2); return true; }
  if (is("llvm.smul.with.overflow")) { ovf(true, 2); return true; }
  if (is("llvm.usub.sat")) { Expr *x = X(a[0], aw), *y = X(a[1], aw); ret = V(mkIte(mkCmp(E_ULT, x, y), mkC(aw, 0), mkBin(E_SUB, x, y))); return true; }
  if (is("llvm.uadd.sat")) { Expr *x = X(a[0], aw), *y = X(a[1], aw); Expr *r = mkBin(E_ADD, x, y); ret = V(mkIte(mkCmp(E_ULT, r, x), mkC(aw, ~(u128)0), r)); return true; }
  if (is("llvm.umin")) { Expr *x = X(a[0], aw), *y = X(a[1], aw); ret = V(mkIte(mkCmp(E_ULT, x, y), x, y)); return true; }
  if (is("llvm.umax")) { Expr *x = X(a[0], aw), *y = X(a[1], aw); ret = V(mkIte(mkCmp(E_ULT, x, y), y, x)); return true; }
  if (is("llvm.smin")) { Expr *x = X(a[0], aw), *y = X(a[1], aw); ret = V(mkIte(mkCmp(E_SLT, x, y), x, y)); return true; }
  if (is("llvm.smax")) { Expr *x = X(a[0], aw), *y = X(a[1], aw); ret = V(mkIte(mkCmp(E_SLT, x, y), y, x)); return true; }
  if (is("llvm.abs")) { Expr *x = X(a[0], aw); ret = V(mkIte(mkCmp(E_SLT, x, mkC(aw, 0)), mkBin(E_SUB, mkC(aw, 0), x), x)); return true; }
  if (is("llvm.bswap")) { Expr *x = X(a[0], aw); Expr *r = mkExtract(x, 0, 8); for (unsigned i = 8; i < aw; i += 8) r = mkConcat(r, mkExtract(x, i, 8)); ret = V(r); return true; }
  if (is("llvm.fshl") || is("llvm.fshr")) { bool left = is("llvm.fshl"); u64 sh = concretize(s, a[2], aw) % aw; Expr *x = X(a[0], aw), *y = X(a[1], aw);
    if (sh == 0) { ret = V(left ? x : y); return true; } unsigned k = left ? aw - sh : sh; 
    Expr *r = mkBin(E_OR, mkBin(E_SHL, x, mkC(aw, aw - k)), mkBin(E_LSHR, y, mkC(aw, k))); ret = V(r); return true; }
  if (is("llvm.ctlz") || is("llvm.cttz")) { bool lead = is("llvm.ctlz"); Expr *x = X(a[0], aw); Expr *r = mkC(aw, aw);
    if (lead) for (unsigned i = 0; i < aw; ++i) r = mkIte(mkCmp(E_EQ, mkExtract(x, i, 1), mkC(1, 1)), mkC(aw, aw - 1 - i), r);
    else for (unsigned i = aw; i-- > 0;) r = mkIte(mkCmp(E_EQ, mkExtract(x, i, 1), mkC(1, 1)), mkC(aw, i), r);
    ret = V(r); return true; }
  if (is("llvm.ctpop")) { Expr *x = X(a[0], aw); Expr *r = mkC(aw, 0); for (unsigned i = 0; i < aw; ++i) r = mkBin(E_ADD, r, mkZExt(mkExtract(x, i, 1), aw)); ret = V(r); return true; }
  if (is("llvm.copysign")) { Expr *x = X(a[0], aw), *y = X(a[1], aw); ret = V(mkBin(E_OR, mkBin(E_AND, x, mkC(aw, maskw(aw - 1))), mkBin(E_AND, y, mkC(aw, (u128)1 << (aw - 1))))); return true; }
  if (is("llvm.is.fpclass")) { u64 m = a[1].c; Expr *x = X(a[0], aw); Expr *r = mkC(1, 0);
    Expr *nan = mkF1(E_FNAN, x, 1); Expr *abs = mkBin(E_AND, x, mkC(aw, maskw(aw - 1))); u128 infb = aw == 64 ? (u128)0x7ff0000000000000ull : (u128)0x7f800000; Expr *inf = mkCmp(E_EQ, abs, mkC(aw, infb)); Expr *neg = mkExtract(x, aw - 1, 1);
    if (m & 3) r = mkOr(r, nan);
    if (m & 4) r = mkOr(r, mkAnd(inf, neg));
    if (m & 512) r = mkOr(r, mkAnd(inf, mkNot(neg)));
    u64 fin = m & (8 | 16 | 32 | 64 | 128 | 256);
    if (fin == (8 | 16 | 32 | 64 | 128 | 256)) r = mkOr(r, mkCmp(E_ULT, abs, mkC(aw, infb)));
    else if (fin) throw Unsupported{"is.fpclass mask"};
    ret = V(r); return true; }
  if (is("llvm.minnum") || is("llvm.maxnum")) { Expr *x = X(a[0], aw), *y = X(a[1], aw); bool mn = is("llvm.minnum"); Expr *c = mn ? mkCmp(E_FLT, x, y) : mkCmp(E_FLT, y, x); ret = V(mkIte(mkF1(E_FNAN, x, 1), y, mkIte(mkF1(E_FNAN, y, 1), x, mkIte(c, x, y)))); return true; }
  if (is("llvm.va_start")) {
    Frame &f = s.th[s.cur].st.back();
    u64 n = f.va.size();
    u64 area = allocObj(s, 3 + s.cur, std::max<u64>(8, n * 16), 2, false, 0);
    u64 off = 0;
    for (u64 i = 0; i < n; ++i) { writeMem(s, Val(area + off), 8, f.va[i].e && f.va[i].e->w < 64 ? V(mkZExt(f.va[i].e, 64)) : f.va[i]); off += 8; }
    u64 l = a[0].c;
    writeMem(s, Val(l), 4, Val(48)); writeMem(s, Val(l + 4), 4, Val(176));
    writeMem(s, Val(l + 8), 8, Val(area)); writeMem(s, Val(l + 16), 8, Val(0));
    return true;
  }
  if (is("llvm.va_copy")) { doMemcpy(s, a[0].c, a[1].c, 24, false); return true; }
  handled = false;
  return false;
}

// ------------------------------------------------------------------ interpreter
static Val doBin(State &s, unsigned op, unsigned w, Val const &a, Val const &b) {
  if (!a.e && !b.e && w <= 64) {
    u64 m = msk(w), x = a.c, y = b.c;
    switch (op) {
    case Instruction::Add: return Val((x + y) & m);
    case Instruction::Sub: return Val((x - y) & m);
    case Instruction::Mul: return Val((x * y) & m);
    case Instruction::And: return Val(x & y);
    case Instruction::Or: return Val(x | y);
    case Instruction::Xor: return Val(x ^ y);
    case Instruction::Shl: return Val(y >= w ? 0 : (x << y) & m);
    case Instruction::LShr: return Val(y >= w ? 0 : x >> y);
    default: break;
    }
  }
  Op o;
  switch (op) {
  case Instruction::Add: o = E_ADD; break;
  case Instruction::Sub: o = E_SUB; break;
  case Instruction::Mul: o = E_MUL; break;
  case Instruction::And: o = E_AND; break;
  case Instruction::Or: o = E_OR; break;
  case Instruction::Xor: o = E_XOR; break;
  case Instruction::Shl: o = E_SHL; break;
  case Instruction::LShr: o = E_LSHR; break;
  case Instruction::AShr: o = E_ASHR; break;
  case Instruction::UDiv: o = E_UDIV; break;
  case Instruction::SDiv: o = E_SDIV; break;
  case Instruction::URem: o = E_UREM; break;
  case Instruction::SRem: o = E_SREM; break;
  case Instruction::FAdd: o = E_FADD; break;
  case Instruction::FSub: o = E_FSUB; break;
  case Instruction::FMul: o = E_FMUL; break;
  case Instruction::FDiv: o = E_FDIV; break;
  case Instruction::FRem: o = E_FREM; break;
  default: throw Unsupported{"binop"};
  }
  Expr *x = X(a, w), *y = X(b, w);
  if (op == Instruction::UDiv || op == Instruction::SDiv || op == Instruction::URem || op == Instruction::SRem) {
    Expr *z = mkCmp(E_EQ, y, mkC(w, 0));
    if (decide(s, z)) report(s, "divzero", "integer division by zero");
    if (op == Instruction::SDiv || op == Instruction::SRem) {
      Expr *ov = mkAnd(mkCmp(E_EQ, y, mkC(w, maskw(w))), mkCmp(E_EQ, x, mkC(w, (u128)1 << (w - 1))));
      if (decide(s, ov)) report(s, "divzero", "signed division overflow");
    }
  }
  return V(mkBin(o, x, y));
}
static Val doCmp(CmpInst::Predicate p, unsigned w, Val const &a, Val const &b) {
  if (!a.e && !b.e && w <= 64 && p >= CmpInst::FIRST_ICMP_PREDICATE) {
    u64 x = a.c, y = b.c; i64 sxx = (i64)sx(x, w), sy = (i64)sx(y, w);
    switch (p) {
    case CmpInst::ICMP_EQ: return Val(x == y);
    case CmpInst::ICMP_NE: return Val(x != y);
    case CmpInst::ICMP_UGT: return Val(x > y);
    case CmpInst::ICMP_UGE: return Val(x >= y);
    case CmpInst::ICMP_ULT: return Val(x < y);
    case CmpInst::ICMP_ULE: return Val(x <= y);
    case CmpInst::ICMP_SGT: return Val(sxx > sy);
    case CmpInst::ICMP_SGE: return Val(sxx >= sy);
    case CmpInst::ICMP_SLT: return Val(sxx < sy);
    case CmpInst::ICMP_SLE: return Val(sxx <= sy);
    default: break;
    }
  }
  Expr *x = X(a, w), *y = X(b, w);
  switch (p) {
  case CmpInst::ICMP_EQ: return V(mkCmp(E_EQ, x, y));
  case CmpInst::ICMP_NE: return V(mkNot(mkCmp(E_EQ, x, y)));
  case CmpInst::ICMP_UGT: return V(mkCmp(E_ULT, y, x));
  case CmpInst::ICMP_UGE: return V(mkCmp(E_ULE, y, x));
  case CmpInst::ICMP_ULT: return V(mkCmp(E_ULT, x, y));
  case CmpInst::ICMP_ULE: return V(mkCmp(E_ULE, x, y));
  case CmpInst::ICMP_SGT: return V(mkCmp(E_SLT, y, x));
  case CmpInst::ICMP_SGE: return V(mkCmp(E_SLE, y, x));
  case CmpInst::ICMP_SLT: return V(mkCmp(E_SLT, x, y));
  case CmpInst::ICMP_SLE: return V(mkCmp(E_SLE, x, y));
  default: break;
  }
  Expr *un = mkOr(mkF1(E_FNAN, x, 1), mkF1(E_FNAN, y, 1));
  Expr *r;
  switch (p) {
  case CmpInst::FCMP_FALSE: r = mkC(1, 0); break;
  case CmpInst::FCMP_TRUE: r = mkC(1, 1); break;
  case CmpInst::FCMP_OEQ: r = mkCmp(E_FEQ, x, y); break;
  case CmpInst::FCMP_OGT: r = mkCmp(E_FLT, y, x); break;
  case CmpInst::FCMP_OGE: r = mkCmp(E_FLE, y, x); break;
  case CmpInst::FCMP_OLT: r = mkCmp(E_FLT, x, y); break;
  case CmpInst::FCMP_OLE: r = mkCmp(E_FLE, x, y); break;
  case CmpInst::FCMP_ONE: r = mkAnd(mkNot(un), mkNot(mkCmp(E_FEQ, x, y))); break;
  case CmpInst::FCMP_ORD: r = mkNot(un); break;
  case CmpInst::FCMP_UNO: r = un; break;
  case CmpInst::FCMP_UEQ: r = mkOr(un, mkCmp(E_FEQ, x, y)); break;
  case CmpInst::FCMP_UGT: r = mkOr(un, mkCmp(E_FLT, y, x)); break;
  case CmpInst::FCMP_UGE: r = mkOr(un, mkCmp(E_FLE, y, x)); break;
  case CmpInst::FCMP_ULT: r = mkOr(un, mkCmp(E_FLT, x, y)); break;
  case CmpInst::FCMP_ULE: r = mkOr(un, mkCmp(E_FLE, x, y)); break;
  case CmpInst::FCMP_UNE: r = mkNot(mkCmp(E_FEQ, x, y)); break;
  default: throw Unsupported{"fcmp"};
  }
  return V(r);
}
static Val aggGet(Val const &v, ArrayRef<unsigned> ix) {
  const Val *p = &v;
  for (unsigned i : ix) { if (!p->a) throw Unsupported{"extractvalue"}; p = &p->a->v[i]; }
  return *p;
}
static Val aggSet(Val const &v, ArrayRef<unsigned> ix, Val const &x) {
  if (ix.empty()) return x;
  Val r = v; r.a = new Agg(*v.a);
  r.a->v[ix[0]] = aggSet(v.a->v[ix[0]], ix.slice(1), x);
  return r;
}
static Val zeroOf(Type *t) { return evalConst(Constant::getNullValue(t)); }
static void doCall(State &s, Frame &f, KInst &ki) {
  auto *cb = cast<CallBase>(ki.I);
  unsigned n = cb->arg_size();
  std::vector<Val> args(n);
  std::vector<unsigned> ws(n);
  for (unsigned i = 0; i < n; ++i) { args[i] = ki.ops[i] == 0x7fffffff ? Val(0) : reg(f, ki.ops[i]); ws[i] = ki.opw[i]; }
  const Function *F = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
  if (!F) if (auto *al = dyn_cast<GlobalAlias>(cb->getCalledOperand())) F = dyn_cast<Function>(al->getAliasee()->stripPointerCasts());
  if (isa<InlineAsm>(cb->getCalledOperand())) {
    auto *ia = cast<InlineAsm>(cb->getCalledOperand());
    if (ia->getAsmString().empty()) { if (ki.dest >= 0) f.r[ki.dest] = n ? args[0] : Val(0); ++f.pc; return; }
    throw Unsupported{"inline asm " + ia->getAsmString()};
  }
  if (!F) {
    unsigned ci = 0; 
    // called operand is the last operand for calls (before bb operands for invoke)
    const Value *co = cb->getCalledOperand();
    for (unsigned i = 0; i < ki.I->getNumOperands(); ++i) if (ki.I->getOperand(i) == co) ci = i;
    u64 a = concretize(s, reg(f, ki.ops[ci]), 64);
    auto it = fnByAddr.find(a);
    if (it == fnByAddr.end()) report(s, "memory", "call through an invalid function pointer");
    F = it->second;
  }
  Val ret;
  int ctl = 0;
  StringRef nm = F->getName();
  if (F->isIntrinsic()) {
    bool h;
    auto hi = H.find(nm.str());
    if (hi != H.end()) ctl = hi->second(s, args, ki, ret);
    else { intrinsic(s, nm, args, ki, ret, h); if (!h) throw Unsupported{"intrinsic " + nm.str()}; }
  } else {
    static std::unordered_map<const Function *, Handler *> hc;
    auto c = hc.find(F);
    Handler *h;
    if (c == hc.end()) { auto hi = H.find(nm.str()); h = hi == H.end() ? nullptr : &hi->second; hc[F] = h; } else h = c->second;
    if (h) ctl = (*h)(s, args, ki, ret);
    else {
      if (F->isDeclaration()) throw Unsupported{"external function " + nm.str()};
      pushFrame(s, F, args, ws);
      return;
    }
  }
  if (ctl) return;
  Frame &g = s.th[s.cur].st.back();
  if (ki.dest >= 0) { if (!ret.e && !ret.a && ki.w && ki.w < 64) ret.c &= msk(ki.w); if (!ki.w && !ret.a) ret = zeroOf(ki.I->getType()); g.r[ki.dest] = ret; }
  if (ki.op == Instruction::Invoke) gotoBB(s, g, ki.succ[0]); else ++g.pc;
}
static void step(State &s) {
  Thread &t = s.th[s.cur];
  Frame &f = t.st.back();
  KInst &ki = f.kf->ins[f.pc];
#define OP(i) reg(f, ki.ops[i])
  switch (ki.op) {
  case Instruction::Ret: {
    if (ki.ops.empty()) doReturn(s, Val(), false);
    else { Val v = OP(0); doReturn(s, v, true); }
    return; }
  case Instruction::Br: {
    if (ki.succ.size() == 1) { gotoBB(s, f, ki.succ[0]); return; }
    Val const &c = OP(0);
    bool b = c.e ? decide(s, c.e) : (c.c & 1);
    gotoBB(s, f, b ? ki.succ[0] : ki.succ[1]);
    return; }
  case Instruction::Switch: {
    auto *sw = cast<SwitchInst>(ki.I);
    Val v = OP(0);
    unsigned w = ki.opw[0];
    if (v.e) { Expr *e = simp(s, v.e); v = V(e); }
    if (!v.e) {
      int to = ki.succ[0];
      for (auto &cs : sw->cases()) if (cs.getCaseValue()->getZExtValue() == v.c) { to = ki.succ[cs.getSuccessorIndex()]; break; }
      gotoBB(s, f, to); return;
    }
    // group cases by successor
    std::map<int, Expr *> g; std::vector<int> order;
    for (auto &cs : sw->cases()) { int to = ki.succ[cs.getSuccessorIndex()]; if (to == ki.succ[0]) continue; Expr *c = mkCmp(E_EQ, v.e, mkC(w, cs.getCaseValue()->getZExtValue())); if (!g.count(to)) { g[to] = c; order.push_back(to); } else g[to] = mkOr(g[to], c); }
    for (int to : order) if (decide(s, g[to])) { gotoBB(s, f, to); return; }
    gotoBB(s, f, ki.succ[0]);
    return; }
  case Instruction::Unreachable: report(s, "unreachable", "unreachable code executed"); return;
  case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
  case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::And: case Instruction::Or: case Instruction::Xor:
  case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
    if (!ki.w) {
      Val const &x = OP(0), &y = OP(1);
      auto *vt = dyn_cast<FixedVectorType>(ki.I->getType());
      if (!vt || !x.a || !y.a) throw Unsupported{"vector op"};
      Val r; r.a = new Agg();
      for (unsigned i = 0; i < vt->getNumElements(); ++i) r.a->v.push_back(doBin(s, ki.op, tw(vt->getElementType()), x.a->v[i], y.a->v[i]));
      f.r[ki.dest] = r; ++f.pc; return;
    }
    f.r[ki.dest] = doBin(s, ki.op, ki.w, OP(0), OP(1)); ++f.pc; return; }
  case Instruction::FNeg: f.r[ki.dest] = V(mkBin(E_XOR, X(OP(0), ki.w), mkC(ki.w, (u128)1 << (ki.w - 1)))); ++f.pc; return;
  case Instruction::ICmp: case Instruction::FCmp:
    if (!ki.opw[0]) throw Unsupported{"vector compare"};
    f.r[ki.dest] = doCmp(cast<CmpInst>(ki.I)->getPredicate(), ki.opw[0], OP(0), OP(1)); ++f.pc; return;
  case Instruction::Select: {
    Val const &c = OP(0);
    if (!c.e) { Val v = (c.c & 1) ? OP(1) : OP(2); f.r[ki.dest] = v; ++f.pc; return; }
    Val x = OP(1), y = OP(2);
    if (!ki.w || x.a || y.a) { bool b = decide(s, c.e); f.r[ki.dest] = b ? x : y; ++f.pc; return; }
    f.r[ki.dest] = V(mkIte(simp(s, c.e), X(x, ki.w), X(y, ki.w))); ++f.pc; return; }
  case Instruction::Alloca: {
    auto *al = cast<AllocaInst>(ki.I);
    u64 sz = DL->getTypeAllocSize(al->getAllocatedType());
    if (al->isArrayAllocation()) sz *= concretize(s, OP(0), 64);
    f.r[ki.dest] = Val(allocObj(s, 3 + s.cur, sz, 2, false, 0xCD)); ++f.pc; return; }
  case Instruction::Load: { Val v = loadTy(s, OP(0), ki.I->getType()); f.r[ki.dest] = v; ++f.pc; t.skip = false; return; }
  case Instruction::Store: storeTy(s, OP(1), cast<StoreInst>(ki.I)->getValueOperand()->getType(), OP(0)); ++f.pc; t.skip = false; return;
  case Instruction::GetElementPtr: {
    Val const &p = OP(0);
    bool conc = !p.e;
    for (auto &g : ki.gidx) if (OP(g.first).e) conc = false;
    if (conc) {
      u64 a = p.c + (u64)ki.goff;
      for (size_t i = 0; i < ki.gidx.size(); ++i) a += (u64)(i64)sx(OP(ki.gidx[i].first).c, ki.gw[i]) * ki.gidx[i].second;
      f.r[ki.dest] = Val(a); ++f.pc; return;
    }
    Expr *e = mkBin(E_ADD, X(p, 64), mkC(64, (u64)ki.goff));
    for (size_t i = 0; i < ki.gidx.size(); ++i) { Expr *x = X(OP(ki.gidx[i].first), ki.gw[i]); x = ki.gw[i] < 64 ? mkSExt(x, 64) : mkExtract(x, 0, 64); e = mkBin(E_ADD, e, mkBin(E_MUL, x, mkC(64, ki.gidx[i].second))); }
    f.r[ki.dest] = V(e); ++f.pc; return; }
  case Instruction::Trunc: { Val v = OP(0); if (v.e) v = V(mkExtract(v.e, 0, ki.w)); else v.c &= msk(ki.w); f.r[ki.dest] = v; ++f.pc; return; }
  case Instruction::ZExt: { Val v = OP(0); if (v.e || ki.w > 64) v = V(mkZExt(X(v, ki.opw[0]), ki.w)); f.r[ki.dest] = v; ++f.pc; return; }
  case Instruction::SExt: { Val v = OP(0); if (v.e || ki.w > 64) v = V(mkSExt(X(v, ki.opw[0]), ki.w)); else v.c = (u64)sx(v.c, ki.opw[0]) & msk(ki.w); f.r[ki.dest] = v; ++f.pc; return; }
  case Instruction::PtrToInt: case Instruction::IntToPtr: { Val v = OP(0); if (ki.w < ki.opw[0]) { if (v.e) v = V(mkExtract(v.e, 0, ki.w)); else v.c &= msk(ki.w); } else if (ki.w > ki.opw[0] && v.e) v = V(mkZExt(v.e, ki.w)); f.r[ki.dest] = v; ++f.pc; return; }
  case Instruction::BitCast: case Instruction::Freeze: {
    Val v = OP(0);
    if (ki.op == Instruction::BitCast && (!ki.w || !ki.opw[0]) ) {
      // vector <-> scalar
      Type *st = ki.I->getOperand(0)->getType(), *dt = ki.I->getType();
      Expr *e;
      if (auto *vt = dyn_cast<FixedVectorType>(st)) { unsigned ew = tw(vt->getElementType()); e = X(v.a->v[0], ew); for (unsigned i = 1; i < vt->getNumElements(); ++i) e = mkConcat(X(v.a->v[i], ew), e); }
      else e = X(v, ki.opw[0]);
      if (auto *vt = dyn_cast<FixedVectorType>(dt)) { unsigned ew = tw(vt->getElementType()); Val r; r.a = new Agg(); for (unsigned i = 0; i < vt->getNumElements(); ++i) r.a->v.push_back(V(mkExtract(e, i * ew, ew))); v = r; }
      else v = V(e);
    }
    f.r[ki.dest] = v; ++f.pc; return; }
  case Instruction::AddrSpaceCast: f.r[ki.dest] = OP(0); ++f.pc; return;
  case Instruction::FPExt: f.r[ki.dest] = V(mkF1(E_FPEXT, X(OP(0), ki.opw[0]), ki.w)); ++f.pc; return;
  case Instruction::FPTrunc: f.r[ki.dest] = V(mkF1(E_FPTRUNC, X(OP(0), ki.opw[0]), ki.w)); ++f.pc; return;
  case Instruction::SIToFP: f.r[ki.dest] = V(mkF1(E_SITOFP, X(OP(0), ki.opw[0]), ki.w)); ++f.pc; return;
  case Instruction::UIToFP: f.r[ki.dest] = V(mkF1(E_UITOFP, X(OP(0), ki.opw[0]), ki.w)); ++f.pc; return;
  case Instruction::FPToSI: f.r[ki.dest] = V(mkF1(E_FPTOSI, X(OP(0), ki.opw[0]), ki.w)); ++f.pc; return;
  case Instruction::FPToUI: f.r[ki.dest] = V(mkF1(E_FPTOUI, X(OP(0), ki.opw[0]), ki.w)); ++f.pc; return;
  case Instruction::ExtractValue: f.r[ki.dest] = aggGet(OP(0), cast<ExtractValueInst>(ki.I)->getIndices()); ++f.pc; return;
  case Instruction::InsertValue: { Val v = OP(0); if (!v.a) v = zeroOf(ki.I->getType()); f.r[ki.dest] = aggSet(v, cast<InsertValueInst>(ki.I)->getIndices(), OP(1)); ++f.pc; return; }
  case Instruction::ExtractElement: { u64 i = concretize(s, OP(1), ki.opw[1]); f.r[ki.dest] = OP(0).a->v.at(i); ++f.pc; return; }
  case Instruction::InsertElement: { u64 i = concretize(s, OP(2), ki.opw[2]); Val v = OP(0); if (!v.a) v = zeroOf(ki.I->getType()); unsigned ix[1] = {(unsigned)i}; f.r[ki.dest] = aggSet(v, ix, OP(1)); ++f.pc; return; }
  case Instruction::ShuffleVector: {
    auto *sv = cast<ShuffleVectorInst>(ki.I); Val a = OP(0), b = OP(1); unsigned n = cast<FixedVectorType>(sv->getOperand(0)->getType())->getNumElements();
    Val r; r.a = new Agg(); for (int m : sv->getShuffleMask()) r.a->v.push_back(m < 0 ? Val(0) : m < (int)n ? a.a->v[m] : b.a->v[m - n]); f.r[ki.dest] = r; ++f.pc; return; }
  case Instruction::AtomicRMW: {
    auto *rm = cast<AtomicRMWInst>(ki.I);
    Val old = loadTy(s, OP(0), ki.I->getType());
    Val nv; unsigned w = ki.w; Expr *x = X(old, w), *y = X(OP(1), w);
    switch (rm->getOperation()) {
    case AtomicRMWInst::Xchg: nv = OP(1); break;
    case AtomicRMWInst::Add: nv = V(mkBin(E_ADD, x, y)); break;
    case AtomicRMWInst::Sub: nv = V(mkBin(E_SUB, x, y)); break;
    case AtomicRMWInst::And: nv = V(mkBin(E_AND, x, y)); break;
    case AtomicRMWInst::Or: nv = V(mkBin(E_OR, x, y)); break;
    case AtomicRMWInst::Xor: nv = V(mkBin(E_XOR, x, y)); break;
    default: throw Unsupported{"atomicrmw"};
    }
    storeTy(s, OP(0), ki.I->getType(), nv);
    f.r[ki.dest] = old; ++f.pc; t.skip = false; return; }
  case Instruction::AtomicCmpXchg: {
    auto *cx = cast<AtomicCmpXchgInst>(ki.I);
    Type *ty = cx->getCompareOperand()->getType(); unsigned w = tw(ty);
    Val old = loadTy(s, OP(0), ty);
    Expr *eq = mkCmp(E_EQ, X(old, w), X(OP(1), w));
    bool b = decide(s, eq);
    if (b) storeTy(s, OP(0), ty, OP(2));
    Val r; r.a = new Agg(); r.a->v.push_back(old); r.a->v.push_back(Val(b));
    f.r[ki.dest] = r; ++f.pc; t.skip = false; return; }
  case Instruction::Fence: ++f.pc; return;
  case Instruction::LandingPad: { Val r; r.a = new Agg(); r.a->v.push_back(Val(f.lpExc)); r.a->v.push_back(Val((u64)(uint32_t)f.lpSel)); f.r[ki.dest] = r; ++f.pc; return; }
  case Instruction::Resume: {
    Val v = OP(0); u64 exc = v.a->v[0].c;
    popStack(s, 3 + s.cur, f.spBase); t.st.pop_back();
    if (t.st.empty()) report(s, "uncaught", "exception left the thread");
    continueUnwind(s, exc);
    return; }
  case Instruction::Call: case Instruction::Invoke: doCall(s, f, ki); { Thread &tt = s.th[s.cur]; tt.skip = false; } return;
  default: break;
  }
  std::string x; raw_string_ostream os(x); ki.I->print(os);
  throw Unsupported{"instruction " + x};
}
static void runState(State *sp) {
  State &s = *sp;
  try {
    u64 cnt = 0;
    for (;;) {
      if (s.needSched) schedule(s);
      try { step(s); } catch (Resched &) {}
      ++totalSteps;
      if (++s.steps > s.budget) { report(s, "hang", "no termination within the instruction budget"); }
      if ((++cnt & 0x3fff) == 0 && (stopAll || nowS() - t0 > maxTime)) { if (!stopAll) noteIncomplete("time limit"); stopAll = true; return; }
    }
  } catch (Dead &) {
    if (sampleInputs.size() < 6 || (pathsDone % 997) == 0) {
      std::string x; for (auto &i : s.inputs) { u64 v = (i.e ? evalS(s, i.e) : i.c) + (u64)i.add; x += i.name + "=" + hexOf(v, i.bytes) + " "; if (x.size() > 6000) { x.clear(); break; } }
      if (!x.empty() && sampleInputs.size() < 12) sampleInputs.push_back(x);
    }
  } catch (Unsupported &u) {
    std::string w;
    if (!s.th.empty() && !s.th[s.cur].st.empty()) { Frame &f = s.th[s.cur].st.back(); w = " in " + f.kf->name + " @ " + locStr(f.kf->ins[f.pc].I);
      if (verbose) for (int i = (int)s.th[s.cur].st.size() - 1; i >= 0; --i) { Frame &g = s.th[s.cur].st[i]; fprintf(stderr, "  unsup stack: %s @ %s\n", g.kf->name.c_str(), locStr(g.kf->ins[g.pc].I).c_str()); } }
    noteIncomplete("unsupported: " + u.m + w);
  }
}
static std::string jesc(std::string const &s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }

int main(int argc, char **argv) {
  std::string entry = "sym_main", out;
  std::vector<std::string> files;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "-v") verbose = true;
    else if (a.compare(0, 2, "-p") == 0) { size_t e = a.find('='); params[a.substr(2, e - 2)] = a.substr(e + 1); }
    else if (a == "-o") out = argv[++i];
    else if (a == "-t") maxTime = atof(argv[++i]);
    else if (a == "-b") defaultBudget = strtoull(argv[++i], 0, 0);
    else if (a == "-s") g_solverTimeoutMs = atoi(argv[++i]);
    else if (a == "-e") entry = argv[++i];
    else if (a == "-E") maxErrors = atoi(argv[++i]);
    else if (a == "-d") g_dumpDir = argv[++i];
    else if (a == "-R") repoDir = argv[++i];
    else if (a == "-P") maxPreempt = atoi(argv[++i]);
    else files.push_back(a);
  }
  t0 = nowS();
  struct rlimit rl; rl.rlim_cur = rl.rlim_max = 512ull << 20; setrlimit(RLIMIT_STACK, &rl);
  solverInit();
  setupHandlers();
  SMDiagnostic err;
  for (auto &fn : files) {
    auto m = parseIRFile(fn, err, Ctx);
    if (!m) { err.print("symir", errs()); return 3; }
    if (!M) M = std::move(m);
    else if (Linker::linkModules(*M, std::move(m))) { fprintf(stderr, "link failed: %s\n", fn.c_str()); return 3; }
  }
  DL = &M->getDataLayout();
  State *s = new State();
  s->reg.resize(4);
  s->model = std::make_shared<std::vector<u64>>();
  s->stamp = newStamp();
  s->budget = defaultBudget;
  for (auto &f : *M) fnAddr(&f);
  try {
    for (auto &g : M->globals()) {
      u64 sz = g.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(g.getValueType()) : 8;
      if (!g.hasInitializer()) sz = std::max<u64>(sz, 128);
      u64 a = allocObj(*s, 1, sz, 0, false, 0);
      gaddr[&g] = a; gvByAddr[a] = &g;
    }
    for (auto &g : M->globals()) if (g.hasInitializer()) initGlobal(*s, gaddr[&g], g.getInitializer());
    for (auto &g : M->globals()) if (g.hasInitializer() && g.isConstant()) lookup(*s, gaddr[&g])->ro = true;
    s->th.emplace_back();
    // global constructors, then the entry point: build a call list
    std::vector<std::pair<u64, Function *>> ctors;
    if (auto *gc = M->getGlobalVariable("llvm.global_ctors"))
      if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer()))
        for (auto &o : ca->operands()) { auto *cs = cast<ConstantStruct>(o); u64 pr = cast<ConstantInt>(cs->getOperand(0))->getZExtValue(); if (auto *F = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) ctors.push_back({pr, F}); }
    std::stable_sort(ctors.begin(), ctors.end(), [](auto &a, auto &b) { return a.first < b.first; });
    Function *E = M->getFunction(entry);
    if (!E || E->isDeclaration()) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
    // run constructors one at a time to completion on the single initial state
    std::vector<Function *> seq; for (auto &c : ctors) seq.push_back(c.second);
    for (Function *F : seq) {
      pushFrame(*s, F, {}, {});
      size_t depth = s->th[0].st.size();
      while (s->th[0].st.size() >= depth) {
        if (s->th[0].st.size() == 1 && s->th[0].st.back().kf->ins[s->th[0].st.back().pc].op == Instruction::Ret) { popStack(*s, 3, s->th[0].st.back().spBase); s->th[0].st.pop_back(); break; }
        step(*s); ++totalSteps;
      }
    }
    pushFrame(*s, E, {}, {});
  } catch (Unsupported &u) {
    std::string w; if (!s->th.empty() && !s->th[0].st.empty()) { Frame &f = s->th[0].st.back(); w = f.kf->name + " @ " + locStr(f.kf->ins[f.pc].I); }
    fprintf(stderr, "initialisation: unsupported %s in %s\n", u.m.c_str(), w.c_str()); return 3;
  } catch (Dead &) { fprintf(stderr, "initialisation failed\n"); for (auto &e : errors) { fprintf(stderr, "%s %s\n", e.kind.c_str(), e.msg.c_str()); for (auto &x : e.stack) fprintf(stderr, "   %s\n", x.c_str()); } return 3; }
  s->budget = s->steps + defaultBudget;
  work.push_back(s);
  while (!work.empty() && !stopAll) {
    State *c = work.back(); work.pop_back();
    runState(c);
    freeState(c);
    if (nowS() - t0 > maxTime && !work.empty()) { noteIncomplete("time limit"); stopAll = true; }
    if (work.size() > maxStates) { noteIncomplete("state limit"); stopAll = true; }
    struct rusage ru;
    if ((pathsDone & 255) == 0) { getrusage(RUSAGE_SELF, &ru); if (ru.ru_maxrss > 6l << 20) { noteIncomplete("memory limit"); stopAll = true; } }
  }
  if (!work.empty() && errors.empty()) noteIncomplete("paths left unexplored");
  FILE *o = out.empty() ? stdout : fopen(out.c_str(), "w");
  std::string miss;
  fprintf(o, "{\"paths\":%llu,\"assume_pruned\":%llu,\"error_paths\":%llu,\"forks\":%llu,\"steps\":%llu,\"checks\":%llu,\"check_queries\":%llu,\"symbolic_ptr\":%llu,\"exprs\":%zu,\"wall\":%.3f,\n", (unsigned long long)pathsDone, (unsigned long long)pathsAssume, (unsigned long long)pathsErr, (unsigned long long)forks, (unsigned long long)totalSteps, (unsigned long long)checks, (unsigned long long)checkQueries, (unsigned long long)memChecks, exprCount(), nowS() - t0);
  fprintf(o, "\"solver\":{\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cache_hits\":%llu,\"byte_domain\":%llu,\"finite_domain\":%llu,\"seconds\":%.3f,\"max_seconds\":%.3f},\n", (unsigned long long)g_ss.queries, (unsigned long long)g_ss.sat, (unsigned long long)g_ss.unsat, (unsigned long long)g_ss.unknown, (unsigned long long)g_ss.cacheHits, (unsigned long long)g_ss.byteDecided, (unsigned long long)g_ss.finite, g_ss.seconds, g_ss.maxSeconds);
  auto list = [&](const char *k, std::set<std::string> const &v) { fprintf(o, "\"%s\":[", k); bool first = true; for (auto &x : v) { fprintf(o, "%s\"%s\"", first ? "" : ",", jesc(x).c_str()); first = false; } fprintf(o, "],\n"); };
  list("reached", reached);
  std::set<std::string> missing; for (auto &x : expected) if (!reached.count(x)) missing.insert(x);
  list("expected", expected); list("missing", missing);
  fprintf(o, "\"incomplete\":{"); { bool first = true; for (auto &p : incomplete) { fprintf(o, "%s\"%s\":%llu", first ? "" : ",", jesc(p.first).c_str(), (unsigned long long)p.second); first = false; } } fprintf(o, "},\n");
  std::set<std::string> fns;
  for (auto &p : kfuncs) if (p.second->calls && p.second->file.compare(0, repoDir.size() + 1, repoDir + "/") == 0) { std::string n = p.second->name; fns.insert(p.second->file.substr(repoDir.size() + 1) + ":" + n); }
  list("functions", fns);
  fprintf(o, "\"samples\":["); for (size_t i = 0; i < sampleInputs.size(); ++i) fprintf(o, "%s\"%s\"", i ? "," : "", jesc(sampleInputs[i]).c_str()); fprintf(o, "],\n");
  fprintf(o, "\"errors\":[");
  for (size_t i = 0; i < errors.size(); ++i) {
    auto &e = errors[i];
    fprintf(o, "%s{\"kind\":\"%s\",\"msg\":\"%s\",\"stack\":[", i ? ",\n" : "", jesc(e.kind).c_str(), jesc(e.msg).c_str());
    for (size_t j = 0; j < e.stack.size() && j < 25; ++j) fprintf(o, "%s\"%s\"", j ? "," : "", jesc(e.stack[j]).c_str());
    fprintf(o, "],\"inputs\":["); for (size_t j = 0; j < e.inputs.size(); ++j) fprintf(o, "%s[\"%s\",\"%s\"]", j ? "," : "", jesc(e.inputs[j].first).c_str(), e.inputs[j].second.c_str());
    fprintf(o, "],\"trace\":["); for (size_t j = 0; j < e.trace.size(); ++j) fprintf(o, "%s\"%s\"", j ? "," : "", jesc(e.trace[j]).c_str());
    fprintf(o, "]}");
  }
  fprintf(o, "]}\n");
  if (o != stdout) fclose(o);
  fflush(stdout);
  _exit(errors.empty() ? 0 : 1);
}
