#include "expr.h"
#include <algorithm>
#include <cmath>
#include <map>
#include <cassert>
#include <cstdio>
#include <cstdlib>
std::vector<SymInfo> g_syms;
static std::vector<Expr *> g_table(1 << 20, nullptr);
static size_t g_count = 0;
static u64 g_stamp = 1;
u64 newStamp() { return ++g_stamp; }
size_t exprCount() { return g_count; }

// ---- interned symbol sets
static std::map<std::vector<int>, SymSet *> g_sets;
struct PH { size_t operator()(std::pair<const void *, const void *> const &p) const { return (size_t)p.first * 0x9E3779B97F4A7C15ull ^ (size_t)p.second * 0xC2B2AE3D27D4EB4Full; } };
static std::unordered_map<std::pair<const void *, const void *>, const SymSet *, PH> g_union;
static const SymSet *internSet(std::vector<int> const &v) {
  auto it = g_sets.find(v);
  if (it != g_sets.end()) return it->second;
  SymSet *s = new SymSet{v};
  g_sets[v] = s;
  return s;
}
static const SymSet *emptySet() { static const SymSet *s = internSet({}); return s; }
static const SymSet *unionSet(const SymSet *a, const SymSet *b) {
  if (a == b || b->ids.empty()) return a;
  if (a->ids.empty()) return b;
  if (a > b) std::swap(a, b);
  auto key = std::make_pair((const void *)a, (const void *)b);
  auto it = g_union.find(key);
  if (it != g_union.end()) return it->second;
  std::vector<int> r;
  std::set_union(a->ids.begin(), a->ids.end(), b->ids.begin(), b->ids.end(), std::back_inserter(r));
  const SymSet *s = internSet(r);
  g_union[key] = s;
  return s;
}

static inline size_t hashE(Op op, unsigned w, unsigned aux, Expr *a, Expr *b, Expr *c, u128 v) {
  u64 h = op * 1000003ull + w * 8191ull + aux * 131ull;
  h = (h ^ (a ? a->id + 1 : 0)) * 0x9E3779B97F4A7C15ull; h ^= h >> 29;
  h = (h ^ (b ? b->id + 1 : 0)) * 0xBF58476D1CE4E5B9ull; h ^= h >> 31;
  h = (h ^ (c ? c->id + 1 : 0)) * 0x94D049BB133111EBull; h ^= h >> 30;
  h = (h ^ (u64)v) * 0x9E3779B97F4A7C15ull; h ^= h >> 29;
  h = (h ^ (u64)(v >> 64)) * 0xBF58476D1CE4E5B9ull; h ^= h >> 32;
  return h;
}
static std::vector<size_t> dummy;
static void grow() {
  std::vector<Expr *> old;
  old.swap(g_table);
  g_table.assign(old.size() * 4, nullptr);
  size_t m = g_table.size() - 1;
  for (Expr *e : old)
    if (e) {
      size_t h = hashE(e->op, e->w, e->aux, e->k[0], e->k[1], e->k[2], e->c) & m;
      while (g_table[h]) h = (h + 1) & m;
      g_table[h] = e;
    }
}
static Expr *arena() {
  static Expr *blk = nullptr;
  static size_t n = 0;
  if (n == 0) { n = 4096; blk = (Expr *)malloc(n * sizeof(Expr)); if (!blk) abort(); }
  --n;
  return blk++;
}
static void computeRange(Expr *e);
static Expr *mk(Op op, unsigned w, unsigned aux, Expr *a, Expr *b, Expr *c, u128 v) {
  if (g_count * 2 > g_table.size()) grow();
  size_t m = g_table.size() - 1;
  size_t h = hashE(op, w, aux, a, b, c, v) & m;
  while (Expr *e = g_table[h]) {
    if (e->op == op && e->w == w && e->aux == aux && e->k[0] == a && e->k[1] == b && e->k[2] == c && e->c == v) return e;
    h = (h + 1) & m;
  }
  Expr *e = arena();
  memset((void *)e, 0, sizeof(*e));
  e->op = op; e->w = w; e->aux = aux; e->k[0] = a; e->k[1] = b; e->k[2] = c; e->c = v;
  e->id = (uint32_t)g_count++;
  g_table[h] = e;
  const SymSet *d = emptySet();
  if (a) d = a->deps;
  if (b) d = unionSet(d, b->deps);
  if (c) d = unionSet(d, c->deps);
  e->deps = d;
  computeRange(e);
  return e;
}
static void computeRange(Expr *e) {
  if (e->w > 64) { e->lo = 0; e->hi = ~0ull; return; }
  u64 M = (u64)maskw(e->w);
  u64 lo = 0, hi = M;
  Expr *a = e->k[0], *b = e->k[1], *c = e->k[2];
  switch (e->op) {
  case E_CONST: lo = hi = (u64)e->c; break;
  case E_ZEXT: lo = a->lo; hi = a->hi; break;
  case E_SEXT: if (a->hi <= (u64)maskw(a->w - 1)) { lo = a->lo; hi = a->hi; } break;
  case E_ADD: { u128 h = (u128)a->hi + b->hi; if (h <= M) { lo = a->lo + b->lo; hi = (u64)h; }
      else if (((u128)a->lo + b->lo) > M && h <= 2 * (u128)M + 1) { lo = (u64)(((u128)a->lo + b->lo) & M); hi = (u64)(h & M); } } break;
  case E_SUB: if (a->lo >= b->hi) { lo = a->lo - b->hi; hi = a->hi - b->lo; } break;
  case E_MUL: { u128 h = (u128)a->hi * b->hi; if (h <= M) { lo = a->lo * b->lo; hi = (u64)h; } } break;
  case E_UDIV: if (b->lo > 0) { lo = a->lo / b->hi; hi = a->hi / b->lo; } break;
  case E_UREM: if (b->hi > 0) { if (b->lo > a->hi) { lo = a->lo; hi = a->hi; } else if (b->lo > 0) hi = std::min(a->hi, b->hi - 1); } break;
  case E_SDIV: if (b->isC() && sx(b->c, b->w) > 1 && a->lo > (u64)maskw(e->w - 1)) { i128 q1 = sx(a->lo, e->w) / sx(b->c, b->w), q2 = sx(a->hi, e->w) / sx(b->c, b->w); if (q2 < 0) { lo = (u64)((u128)q1 & M); hi = (u64)((u128)q2 & M); } }
    else if (b->isC() && sx(b->c, b->w) > 0 && a->hi <= (u64)maskw(e->w - 1)) { lo = a->lo / b->lo; hi = a->hi / b->lo; } break;
  case E_SREM: if (b->isC() && sx(b->c, b->w) > 0 && a->hi <= (u64)maskw(e->w - 1)) { hi = std::min(a->hi, (u64)b->c - 1); } break;
  case E_AND: hi = std::min(a->hi, b->hi); break;
  case E_OR: { lo = std::max(a->lo, b->lo); u64 t = a->hi | b->hi; t |= t >> 1; t |= t >> 2; t |= t >> 4; t |= t >> 8; t |= t >> 16; t |= t >> 32; hi = t; } break;
  case E_XOR: { u64 t = a->hi | b->hi; t |= t >> 1; t |= t >> 2; t |= t >> 4; t |= t >> 8; t |= t >> 16; t |= t >> 32; hi = t; } break;
  case E_LSHR: if (b->isC() && b->c < e->w) { lo = a->lo >> (u64)b->c; hi = a->hi >> (u64)b->c; } else hi = a->hi; break;
  case E_SHL: if (b->isC() && b->c < e->w) { u128 h = (u128)a->hi << (u64)b->c; if (h <= M) { lo = a->lo << (u64)b->c; hi = (u64)h; } } break;
  case E_CONCAT: lo = (a->lo << b->w) | b->lo; hi = (a->hi << b->w) | b->hi; break;
  case E_EXTRACT: if (a->w <= 64) { if (e->aux == 0) { if (a->hi <= M) { lo = a->lo; hi = a->hi; } } else { u64 l = a->lo >> e->aux, h = a->hi >> e->aux; if (h <= M) { lo = l; hi = h; } } } break;
  case E_ITE: lo = std::min(b->lo, c->lo); hi = std::max(b->hi, c->hi); break;
  default: break;
  }
  e->lo = lo & M; e->hi = hi & M;
  if (e->lo > e->hi) { e->lo = 0; e->hi = M; }
}
Expr *mkC(unsigned w, u128 v) { return mk(E_CONST, w, 0, 0, 0, 0, v & maskw(w)); }
static std::vector<Expr *> g_symE;
Expr *symExpr(int id) { return (size_t)id < g_symE.size() ? g_symE[id] : nullptr; }
Expr *mkSym(unsigned w, std::string const &name) {
  int id = g_syms.size();
  g_syms.push_back({name, (int)w});
  Expr *e = mk(E_SYM, w, id, 0, 0, 0, 0);
  e->deps = internSet({id});
  g_symE.push_back(e);
  return e;
}
static inline double asD(u128 v) { u64 x = (u64)v; double d; memcpy(&d, &x, 8); return d; }
static inline float asF(u128 v) { uint32_t x = (uint32_t)v; float d; memcpy(&d, &x, 4); return d; }
static inline u128 dB(double d) { u64 x; memcpy(&x, &d, 8); return x; }
static inline u128 fB(float d) { uint32_t x; memcpy(&x, &d, 4); return x; }
static double rnd(double d, unsigned m) { switch (m) { case 0: return std::floor(d); case 1: return std::ceil(d); case 2: return std::trunc(d); case 3: return std::round(d); default: return std::nearbyint(d); } }
u128 evalOp(Expr *e, u128 a, u128 b, u128 c) {
  unsigned w = e->w, kw = e->k[0] ? e->k[0]->w : 0;
  u128 M = maskw(w);
  switch (e->op) {
  case E_CONST: return e->c;
  case E_ADD: return (a + b) & M;
  case E_SUB: return (a - b) & M;
  case E_MUL: return (a * b) & M;
  case E_UDIV: return b ? a / b : M;
  case E_UREM: return b ? a % b : a;
  case E_SDIV: { i128 x = sx(a, w), y = sx(b, w); if (!y) return x < 0 ? 1 : M; return (u128)(x / y) & M; }
  case E_SREM: { i128 x = sx(a, w), y = sx(b, w); if (!y) return a; return (u128)(x % y) & M; }
  case E_AND: return a & b;
  case E_OR: return a | b;
  case E_XOR: return a ^ b;
  case E_SHL: return b >= w ? 0 : (a << (unsigned)b) & M;
  case E_LSHR: return b >= w ? 0 : a >> (unsigned)b;
  case E_ASHR: { i128 x = sx(a, w); unsigned s = b >= w ? w - 1 : (unsigned)b; return (u128)(x >> s) & M; }
  case E_CONCAT: return (a << e->k[1]->w) | b;
  case E_EXTRACT: return (a >> e->aux) & M;
  case E_ZEXT: return a;
  case E_SEXT: return (u128)sx(a, kw) & M;
  case E_ITE: return a ? b : c;
  case E_EQ: return a == b;
  case E_ULT: return a < b;
  case E_ULE: return a <= b;
  case E_SLT: return sx(a, kw) < sx(b, kw);
  case E_SLE: return sx(a, kw) <= sx(b, kw);
  case E_FADD: return w == 64 ? dB(asD(a) + asD(b)) : fB(asF(a) + asF(b));
  case E_FSUB: return w == 64 ? dB(asD(a) - asD(b)) : fB(asF(a) - asF(b));
  case E_FMUL: return w == 64 ? dB(asD(a) * asD(b)) : fB(asF(a) * asF(b));
  case E_FDIV: return w == 64 ? dB(asD(a) / asD(b)) : fB(asF(a) / asF(b));
  case E_FREM: return w == 64 ? dB(std::fmod(asD(a), asD(b))) : fB(std::fmod(asF(a), asF(b)));
  case E_FSQRT: return w == 64 ? dB(std::sqrt(asD(a))) : fB(std::sqrt(asF(a)));
  case E_FRND: return w == 64 ? dB(rnd(asD(a), e->aux)) : fB((float)rnd(asF(a), e->aux));
  case E_FEQ: return kw == 64 ? asD(a) == asD(b) : asF(a) == asF(b);
  case E_FLT: return kw == 64 ? asD(a) < asD(b) : asF(a) < asF(b);
  case E_FLE: return kw == 64 ? asD(a) <= asD(b) : asF(a) <= asF(b);
  case E_FNAN: return kw == 64 ? std::isnan(asD(a)) : std::isnan(asF(a));
  case E_SITOFP: { i128 x = sx(a, kw); return w == 64 ? dB((double)x) : fB((float)x); }
  case E_UITOFP: return w == 64 ? dB((double)a) : fB((float)a);
  case E_FPTOSI: { double d = kw == 64 ? asD(a) : asF(a);
      if (std::isnan(d) || d >= std::ldexp(1.0, w - 1) || d <= -std::ldexp(1.0, w - 1) - 1) return (u128)1 << (w - 1);
      return (u128)(i128)d & M; }
  case E_FPTOUI: { double d = kw == 64 ? asD(a) : asF(a);
      if (std::isnan(d) || d >= std::ldexp(1.0, w) || d <= -1) return (u128)1 << (w - 1);
      return (u128)(i128)d & M; }
  case E_FPEXT: return dB((double)asF(a));
  case E_FPTRUNC: return fB((float)asD(a));
  default: abort();
  }
}
u128 evalExpr(Expr *e, std::vector<u64> const &model, u64 stamp) {
  if (e->op == E_CONST) return e->c;
  if (e->stamp == stamp) return e->ev;
  u128 r;
  if (e->op == E_SYM) r = e->aux < model.size() ? (u128)model[e->aux] & maskw(e->w) : 0;
  else if (e->op == E_ITE) { r = evalExpr(e->k[0], model, stamp) ? evalExpr(e->k[1], model, stamp) : evalExpr(e->k[2], model, stamp); }
  else {
    u128 a = e->k[0] ? evalExpr(e->k[0], model, stamp) : 0;
    u128 b = e->k[1] ? evalExpr(e->k[1], model, stamp) : 0;
    r = evalOp(e, a, b, 0);
  }
  e->stamp = stamp; e->ev = r;
  return r;
}
std::bitset<256> const &byteTable(Expr *e) {
  if (!e->tbl) {
    e->tbl = new std::bitset<256>();
    int s = e->deps->ids[0];
    static std::vector<u64> m;
    if (m.size() < g_syms.size()) m.resize(g_syms.size() + 64);
    u64 old = m[s];
    for (int i = 0; i < 256; ++i) { m[s] = i; if (evalExpr(e, m, newStamp())) e->tbl->set(i); }
    m[s] = old;
  }
  return *e->tbl;
}

// number of bits (two's complement, including sign) enough for e as a signed number
static unsigned sbits(Expr *e, int depth = 12) {
  unsigned w = e->w;
  if (w <= 64) { if (e->hi <= (u64)maskw(w - 1)) { unsigned b = 0; u64 h = e->hi; while (h) { ++b; h >>= 1; } return std::min(w, b + 1); } }
  if (e->isC()) { i128 v = sx(e->c, w); unsigned b = 1; while (v < -((i128)1 << (b - 1)) || v > ((i128)1 << (b - 1)) - 1) ++b; return b; }
  if (depth == 0) return w;
  unsigned r = w;
  switch (e->op) {
  case E_SEXT: r = sbits(e->k[0], depth - 1); break;
  case E_ZEXT: r = e->k[0]->w + 1; break;
  case E_ADD: case E_SUB: r = std::max(sbits(e->k[0], depth - 1), sbits(e->k[1], depth - 1)) + 1; break;
  case E_MUL: r = sbits(e->k[0], depth - 1) + sbits(e->k[1], depth - 1); break;
  case E_ITE: r = std::max(sbits(e->k[1], depth - 1), sbits(e->k[2], depth - 1)); break;
  case E_SREM: r = std::min(sbits(e->k[0], depth - 1), sbits(e->k[1], depth - 1)); break;
  case E_SDIV: r = sbits(e->k[0], depth - 1) + 1; break;
  case E_ASHR: r = sbits(e->k[0], depth - 1); break;
  default: break;
  }
  return std::min(r, w);
}
bool sbound(Expr *e, unsigned &bits) { bits = sbits(e); return true; }

static Expr *toW(Expr *e, unsigned w) { // signed resize (value known to fit)
  if (e->w == w) return e;
  if (e->w > w) return mkExtract(e, 0, w);
  return mkSExt(e, w);
}
// If the FP expression is exactly an integer value, return a 64-bit signed integer expr for it.
static Expr *intOf(Expr *d, unsigned &bits) {
  if (d->isC()) {
    double v = d->w == 64 ? asD(d->c) : (double)asF(d->c);
    if (v == 0 && std::signbit(v)) return nullptr;
    if (!(v == std::floor(v)) || std::fabs(v) > 9007199254740992.0) return nullptr;
    Expr *r = mkC(64, (u128)(i128)(i64)v);
    bits = sbits(r);
    return r;
  }
  if (d->op == E_SITOFP) {
    bits = sbits(d->k[0]);
    if (bits > (d->w == 64 ? 54u : 25u)) return nullptr;
    return toW(d->k[0], 64);
  }
  if (d->op == E_ITE) {
    unsigned b1, b2; 
    if (d->k[1]->op != E_SITOFP && !d->k[1]->isC()) return nullptr;
    if (d->k[2]->op != E_SITOFP && !d->k[2]->isC()) return nullptr;
    Expr *x = intOf(d->k[1], b1); if (!x) return nullptr;
    Expr *y = intOf(d->k[2], b2); if (!y) return nullptr;
    bits = std::max(b1, b2);
    return mkIte(d->k[0], x, y);
  }
  return nullptr;
}
static Expr *mkSI(Expr *x, unsigned w) { return mkF1(E_SITOFP, x, w); }
// exact dyadic rationals x*2^-k: canonical form FMUL(SITOFP(x), 2^-k)
static const unsigned MAXDY = 24;
static Expr *fconst(double v, unsigned w) { return mkC(w, w == 64 ? dB(v) : fB((float)v)); }
static Expr *dyOf(Expr *d, unsigned &bits, unsigned &k) {
  k = 0;
  if (Expr *x = intOf(d, bits)) return x;
  if (d->isC()) {
    double v = d->w == 64 ? asD(d->c) : (double)asF(d->c);
    if (!std::isfinite(v) || v == 0 || std::fabs(v) > 1e15) return nullptr;
    for (unsigned i = 1; i <= MAXDY; ++i) { double t = std::ldexp(v, i); if (t == std::floor(t)) { if (std::fabs(t) > 9007199254740992.0) return nullptr; k = i; Expr *r = mkC(64, (u128)(i128)(i64)t); bits = sbits(r); return r; } }
    return nullptr;
  }
  if (d->op == E_FMUL && d->k[0]->op == E_SITOFP && d->k[1]->isC()) {
    double v = d->w == 64 ? asD(d->k[1]->c) : (double)asF(d->k[1]->c); int ex;
    if (v > 0 && v < 1 && std::frexp(v, &ex) == 0.5) { unsigned kk = 1 - ex; if (kk > MAXDY) return nullptr; Expr *x = intOf(d->k[0], bits); if (x) { k = kk; return x; } }
  }
  return nullptr;
}
static Expr *mkDy(Expr *x, unsigned k, unsigned w) {
  if (!k || (x->isC() && x->c == 0)) return mkSI(x, w);
  if (x->isC()) return fconst(std::ldexp((double)(i64)x->c, -(int)k), w);
  return mk(E_FMUL, w, 0, mkSI(x, w), fconst(std::ldexp(1.0, -(int)k), w), 0, 0);
}
static bool dyPair(Expr *a, Expr *b, Expr *&x, Expr *&y, unsigned &bits, unsigned &k) { // common exponent
  unsigned b1, b2, k1, k2; x = dyOf(a, b1, k1); if (!x) return false; y = dyOf(b, b2, k2); if (!y) return false;
  k = std::max(k1, k2); if (k1 == 0 && k2 == 0) return false;
  if (b1 + (k - k1) > 60 || b2 + (k - k2) > 60) return false;
  if (k > k1) { x = mkBin(E_MUL, x, mkC(64, 1ull << (k - k1))); b1 += k - k1; }
  if (k > k2) { y = mkBin(E_MUL, y, mkC(64, 1ull << (k - k2))); b2 += k - k2; }
  bits = std::max(b1, b2); return true;
}

// |value| < 2^result and certainly finite (9999: nothing known)
static int fmag(Expr *e, int depth = 12) {
  const int U = 9999; int cap = e->w == 32 ? 120 : 1000, a, b, r = U;
  if (e->isC()) { double v = e->w == 64 ? asD(e->c) : (double)asF(e->c); if (!std::isfinite(v)) return U; if (v == 0) return -1000; int ex; std::frexp(v, &ex); return ex + 1; }
  if (depth <= 0) return U;
  switch (e->op) {
  case E_SITOFP: r = (int)sbits(e->k[0]) + 1; break;
  case E_FMUL: a = fmag(e->k[0], depth - 1); b = a == U ? U : fmag(e->k[1], depth - 1); if (b != U) r = std::max(a + b + 1, -1000); break;
  case E_FADD: case E_FSUB: a = fmag(e->k[0], depth - 1); b = a == U ? U : fmag(e->k[1], depth - 1); if (b != U) r = std::max(a, b) + 2; break;
  case E_FPTRUNC: case E_FPEXT: a = fmag(e->k[0], depth - 1); if (a != U) r = a + 1; break;
  case E_ITE: a = fmag(e->k[1], depth - 1); b = a == U ? U : fmag(e->k[2], depth - 1); if (b != U) r = std::max(a, b); break;
  default: break;
  }
  return r > cap ? U : r;
}

Expr *mkNot(Expr *a) { return mkBin(E_XOR, a, mkC(1, 1)); }
static bool isNot(Expr *a) { return a->op == E_XOR && a->w == 1 && a->k[1]->isC() && a->k[1]->c == 1; }
Expr *mkAnd(Expr *a, Expr *b) { return mkBin(E_AND, a, b); }
Expr *mkOr(Expr *a, Expr *b) { return mkBin(E_OR, a, b); }

static bool isPow2(u128 v, unsigned &sh) { if (!v || (v & (v - 1))) return false; sh = 0; while (!((v >> sh) & 1)) ++sh; return true; }

Expr *mkBin(Op op, Expr *a, Expr *b) {
  unsigned w = a->w;
  if (a->w != b->w) { fprintf(stderr, "mkBin width mismatch op %d %d %d\n", op, a->w, b->w); abort(); }
  if (a->isC() && b->isC()) { Expr t; memset((void *)&t, 0, sizeof t); t.op = op; t.w = w; t.k[0] = a; t.k[1] = b; return mkC(w, evalOp(&t, a->c, b->c, 0)); }
  switch (op) {
  case E_ADD: case E_MUL: case E_AND: case E_OR: case E_XOR:
    if (a->isC() || (!b->isC() && a->id > b->id)) std::swap(a, b);
    break;
  case E_FADD: case E_FMUL:
    if (!a->isC() && !b->isC() && a->id > b->id) std::swap(a, b);
    break;
  default: break;
  }
  u128 M = maskw(w);
  bool bc = b->isC();
  unsigned sh;
  switch (op) {
  case E_ADD:
    if (bc && b->c == 0) return a;
    if (bc && a->op == E_ADD && a->k[1]->isC()) return mkBin(E_ADD, a->k[0], mkC(w, a->k[1]->c + b->c));
    if (!bc && a->op == E_ADD && a->k[1]->isC()) return mkBin(E_ADD, mkBin(E_ADD, a->k[0], b), a->k[1]);
    if (!bc && b->op == E_ADD && b->k[1]->isC()) return mkBin(E_ADD, mkBin(E_ADD, a, b->k[0]), b->k[1]);
    if (a->op == E_SUB && a->k[1] == b) return a->k[0];
    if (b->op == E_SUB && b->k[1] == a) return b->k[0];
    if (bc && a->op == E_ITE && a->k[1]->isC() && a->k[2]->isC()) return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
    break;
  case E_SUB:
    if (a == b) return mkC(w, 0);
    if (bc) return mkBin(E_ADD, a, mkC(w, (u128)0 - b->c));
    if (a->op == E_ADD && a->k[0] == b) return a->k[1];
    if (a->op == E_ADD && a->k[1] == b) return a->k[0];
    if (a->op == E_ADD && a->k[1]->isC() && b->op == E_ADD && b->k[1]->isC()) return mkBin(E_ADD, mkBin(E_SUB, a->k[0], b->k[0]), mkC(w, a->k[1]->c - b->k[1]->c));
    if (a->op == E_ADD && a->k[1]->isC()) return mkBin(E_ADD, mkBin(E_SUB, a->k[0], b), a->k[1]);
    if (b->op == E_ADD && b->k[1]->isC()) return mkBin(E_ADD, mkBin(E_SUB, a, b->k[0]), mkC(w, (u128)0 - b->k[1]->c));
    if (b->op == E_SUB && a == b->k[0]) return b->k[1];
    break;
  case E_MUL:
    if (bc) {
      if (b->c == 0) return b;
      if (b->c == 1) return a;
      if (isPow2(b->c, sh)) return mkBin(E_SHL, a, mkC(w, sh));
      if (a->op == E_MUL && a->k[1]->isC()) return mkBin(E_MUL, a->k[0], mkC(w, a->k[1]->c * b->c));
    }
    break;
  case E_UDIV:
    if (bc) { if (b->c == 1) return a; if (b->c && isPow2(b->c, sh)) return mkBin(E_LSHR, a, mkC(w, sh));
      if (w <= 64 && b->c && a->lo / (u64)b->c == a->hi / (u64)b->c) return mkC(w, a->lo / (u64)b->c); }
    break;
  case E_UREM:
    if (bc) { if (b->c == 1) return mkC(w, 0); if (b->c && isPow2(b->c, sh)) return mkBin(E_AND, a, mkC(w, b->c - 1)); }
    if (w <= 64 && a->hi < b->lo) return a;
    if (bc && w <= 64 && b->c && a->lo / (u64)b->c == a->hi / (u64)b->c) return mkBin(E_SUB, a, mkC(w, a->lo / (u64)b->c * (u64)b->c));
    break;
  case E_SDIV:
    if (bc && b->c == 1 && w > 1) return a;
    if (w <= 64 && a->hi <= (u64)maskw(w - 1) && b->hi <= (u64)maskw(w - 1)) return mkBin(E_UDIV, a, b);
    if (bc && w <= 64 && sx(b->c, w) > 0 && a->lo > (u64)maskw(w - 1)) { i128 q = sx(a->lo, w) / sx(b->c, w); if (q == sx(a->hi, w) / sx(b->c, w)) return mkC(w, (u128)q); }
    break;
  case E_SREM:
    if (bc && b->c == 1 && w > 1) return mkC(w, 0);
    if (w <= 64 && a->hi <= (u64)maskw(w - 1) && b->hi <= (u64)maskw(w - 1)) return mkBin(E_UREM, a, b);
    if (bc && w <= 64 && sx(b->c, w) > 0 && a->lo > (u64)maskw(w - 1)) { i128 q = sx(a->lo, w) / sx(b->c, w); if (q == sx(a->hi, w) / sx(b->c, w)) return mkBin(E_SUB, a, mkC(w, (u128)(q * sx(b->c, w)))); }
    break;
  case E_AND:
    if (a == b) return a;
    if (bc) {
      if (b->c == 0) return b;
      if (b->c == M) return a;
      if (a->op == E_AND && a->k[1]->isC()) return mkBin(E_AND, a->k[0], mkC(w, a->k[1]->c & b->c));
      // low mask
      if (isPow2(b->c + 1, sh) && sh < w) { if (w <= 64 && a->hi <= (u64)b->c) return a; return mkZExt(mkExtract(a, 0, sh), w); }
      // high mask: clears low bits
      if (a->op == E_ITE && a->k[1]->isC() && a->k[2]->isC()) return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
      { u128 inv = (~b->c) & M; if (isPow2(inv + 1, sh) && sh && sh < w) return mkConcat(mkExtract(a, sh, w - sh), mkC(sh, 0)); }
    }
    if (w == 1) { if (isNot(a) && a->k[0] == b) return mkC(1, 0); if (isNot(b) && b->k[0] == a) return mkC(1, 0); }
    break;
  case E_OR:
    if (a == b) return a;
    if (bc) { if (b->c == 0) return a; if (b->c == M) return b; 
      if (a->op == E_ITE && a->k[1]->isC() && a->k[2]->isC()) return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b)); }
    if (w == 1) { if (isNot(a) && a->k[0] == b) return mkC(1, 1); if (isNot(b) && b->k[0] == a) return mkC(1, 1); }
    // disjoint concat: (x<<n) | zext(y)
    for (int s = 0; s < 2; ++s) {
      Expr *p = s ? b : a, *q = s ? a : b;
      if (p->op == E_CONCAT && p->k[1]->isC() && p->k[1]->c == 0 && w <= 64 && q->hi <= (u64)maskw(p->k[1]->w)) return mkConcat(p->k[0], mkExtract(q, 0, p->k[1]->w));
    }
    break;
  case E_XOR:
    if (a == b) return mkC(w, 0);
    if (bc) {
      if (b->c == 0) return a;
      if (a->op == E_XOR && a->k[1]->isC()) return mkBin(E_XOR, a->k[0], mkC(w, a->k[1]->c ^ b->c));
      if (w == 1) {
        if (a->op == E_ULT) return mkCmp(E_ULE, a->k[1], a->k[0]);
        if (a->op == E_ULE) return mkCmp(E_ULT, a->k[1], a->k[0]);
        if (a->op == E_SLT) return mkCmp(E_SLE, a->k[1], a->k[0]);
        if (a->op == E_SLE) return mkCmp(E_SLT, a->k[1], a->k[0]);
      }
      if (a->op == E_ITE && a->k[1]->isC() && a->k[2]->isC()) return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
    }
    break;
  case E_SHL:
    if (bc) { if (b->c == 0) return a; if (b->c >= w) return mkC(w, 0); return mkConcat(mkExtract(a, 0, w - (unsigned)b->c), mkC((unsigned)b->c, 0)); }
    break;
  case E_LSHR:
    if (bc) { if (b->c == 0) return a; if (b->c >= w) return mkC(w, 0); return mkZExt(mkExtract(a, (unsigned)b->c, w - (unsigned)b->c), w); }
    break;
  case E_ASHR:
    if (bc) { if (b->c == 0) return a; unsigned s = b->c >= w ? w - 1 : (unsigned)b->c; return mkSExt(mkExtract(a, s, w - s), w); }
    break;
  case E_FADD: case E_FSUB: {
    { Expr *x, *y; unsigned bb, k; if (dyPair(a, b, x, y, bb, k) && bb + 1 <= (w == 64 ? 54u : 25u)) return mkDy(mkBin(op == E_FADD ? E_ADD : E_SUB, x, y), k, w); }
    if (w == 64) {
      unsigned b1, b2; Expr *x = intOf(a, b1);
      if (x) { Expr *y = intOf(b, b2); if (y && std::max(b1, b2) + 1 <= 54) return mkSI(mkBin(op == E_FADD ? E_ADD : E_SUB, x, y), 64); }
    } else {
      unsigned b1, b2; Expr *x = intOf(a, b1);
      if (x) { Expr *y = intOf(b, b2); if (y && std::max(b1, b2) + 1 <= 25) return mkSI(mkBin(op == E_FADD ? E_ADD : E_SUB, x, y), 32); }
    }
    break; }
  case E_FMUL: {
    unsigned b1, b2; Expr *x = intOf(a, b1);
    if (x) { Expr *y = intOf(b, b2);
      if (y && b1 + b2 <= (w == 64 ? 54u : 25u)) {
        bool ok = a == b;
        u64 half = ~0ull >> 1;
        if (x->hi <= half && y->hi <= half) ok = true;               // both >= 0: no -0
        if (x->isC() && sx(x->c, 64) > 0) ok = true;
        if (y->isC() && sx(y->c, 64) > 0) ok = true;
        if (ok) return mkSI(mkBin(E_MUL, x, y), w);
      } }
    if (bc && asD(b->c) == 1.0 && w == 64) return a;
    if (a->isC() && !bc) return mkBin(op, b, a);
    if (bc) { unsigned k1, k2; x = dyOf(a, b1, k1); Expr *y = x ? dyOf(b, b2, k2) : nullptr;
      if (y && (k1 || k2) && (i64)y->c > 0 && b1 + b2 <= (w == 64 ? 54u : 25u)) {
        u64 m = (u64)y->c; unsigned k = k1 + k2; while (k && !(m & 1)) { m >>= 1; --k; }
        if (k <= MAXDY) { Expr *p = m == 1 ? x : mkBin(E_MUL, x, mkC(64, m));
          if (k == 0 || !(a->op == E_SITOFP && m == 1)) return mkDy(p, k, w); } } }
    break; }
  case E_FDIV:
    if (bc) { double v = w == 64 ? asD(b->c) : asF(b->c); int ex; if (v > 1 && v < 1e6 && std::frexp(v, &ex) == 0.5) return mkBin(E_FMUL, a, fconst(1 / v, w)); }
    if (bc && a->op == E_SITOFP) { unsigned b1, b2; Expr *x = intOf(a, b1), *y = intOf(b, b2);
      if (x && y && (i64)y->c > 1 && x->op == E_MUL && x->k[1] == y && b1 <= 54) return mkSI(x->k[0], w); }
    if (bc && w == 64 && asD(b->c) == 1.0) return a;
    break;
  default: break;
  }
  return mk(op, w, 0, a, b, 0, 0);
}
Expr *mkExtract(Expr *a, unsigned off, unsigned w) {
  if (off == 0 && w == a->w) return a;
  if (off + w > a->w) { fprintf(stderr, "bad extract %u %u of %u\n", off, w, a->w); abort(); }
  if (a->isC()) return mkC(w, a->c >> off);
  switch (a->op) {
  case E_EXTRACT: return mkExtract(a->k[0], a->aux + off, w);
  case E_CONCAT: {
    unsigned lw = a->k[1]->w;
    if (off >= lw) return mkExtract(a->k[0], off - lw, w);
    if (off + w <= lw) return mkExtract(a->k[1], off, w);
    return mkConcat(mkExtract(a->k[0], 0, off + w - lw), mkExtract(a->k[1], off, lw - off)); }
  case E_ZEXT: {
    unsigned lw = a->k[0]->w;
    if (off >= lw) return mkC(w, 0);
    if (off + w <= lw) return mkExtract(a->k[0], off, w);
    return mkZExt(mkExtract(a->k[0], off, lw - off), w); }
  case E_SEXT: {
    unsigned lw = a->k[0]->w;
    if (off + w <= lw) return mkExtract(a->k[0], off, w);
    if (off < lw) return mkSExt(mkExtract(a->k[0], off, lw - off), w);
    return mkSExt(mkExtract(a->k[0], lw - 1, 1), w); }
  case E_AND: case E_OR: case E_XOR:
    if (a->k[1]->isC() || w == a->w) return mkBin(a->op, mkExtract(a->k[0], off, w), mkExtract(a->k[1], off, w));
    break;
  case E_ADD: case E_SUB: case E_MUL:
    if (off == 0 && (a->w > 64 || w <= 32)) return mkBin(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
    break;
  case E_ITE:
    if (a->k[1]->isC() || a->k[2]->isC() || w == a->w) return mkIte(a->k[0], mkExtract(a->k[1], off, w), mkExtract(a->k[2], off, w));
    break;
  default: break;
  }
  if (a->w <= 64 && off < 64 && (a->hi >> off) == 0) return mkC(w, 0);
  return mk(E_EXTRACT, w, off, a, 0, 0, 0);
}
Expr *mkConcat(Expr *hi, Expr *lo) {
  unsigned w = hi->w + lo->w;
  if (hi->isC() && lo->isC()) return mkC(w, (hi->c << lo->w) | lo->c);
  if (hi->isC() && hi->c == 0) return mkZExt(lo, w);
  if (hi->op == E_EXTRACT) {
    Expr *x = hi->k[0];
    if (lo->op == E_EXTRACT && lo->k[0] == x && hi->aux == lo->aux + lo->w) return mkExtract(x, lo->aux, w);
    if (hi->aux >= lo->w && (lo->op == E_ADD || lo->op == E_SUB || lo->op == E_MUL || lo->op == E_AND || lo->op == E_OR || lo->op == E_XOR || lo->op == E_SEXT || lo->op == E_ZEXT || lo->op == E_ITE || lo->op == E_SYM) && mkExtract(x, hi->aux - lo->w, lo->w) == lo) return mkExtract(x, hi->aux - lo->w, w);
    if (lo->op == E_CONCAT && lo->k[0]->op == E_EXTRACT && lo->k[0]->k[0] == x && hi->aux == lo->k[0]->aux + lo->k[0]->w)
      return mkConcat(mkConcat(hi, lo->k[0]), lo->k[1]);
    // sign-extension pieces are folded at extract
  }
  if (lo->op == E_CONCAT && hi->isC() && lo->k[0]->isC()) return mkConcat(mkConcat(hi, lo->k[0]), lo->k[1]);
  if (hi->op == E_ZEXT) return mkZExt(mkConcat(hi->k[0], lo), w);
  if (hi->op == E_ITE && lo->op == E_ITE && hi->k[0] == lo->k[0]) return mkIte(hi->k[0], mkConcat(hi->k[1], lo->k[1]), mkConcat(hi->k[2], lo->k[2]));
  if (hi->op == E_ITE && lo->isC() && hi->k[1]->isC() && hi->k[2]->isC()) return mkIte(hi->k[0], mkConcat(hi->k[1], lo), mkConcat(hi->k[2], lo));
  if (lo->op == E_ITE && hi->isC() && lo->k[1]->isC() && lo->k[2]->isC()) return mkIte(lo->k[0], mkConcat(hi, lo->k[1]), mkConcat(hi, lo->k[2]));
  // SEXT reassembly: concat(sext(extract(x,msb,1)), x) -> sext(x)
  if (hi->op == E_SEXT && hi->k[0]->w == 1 && hi->k[0]->op == E_EXTRACT) {
    Expr *b = hi->k[0];
    if (b->k[0] == lo && b->aux == lo->w - 1) return mkSExt(lo, w);
    if (lo->op == E_EXTRACT && lo->k[0] == b->k[0] && b->aux == lo->aux + lo->w - 1) return mkSExt(lo, w);
  }
  if (hi->op == E_SEXT && lo->op == E_EXTRACT && hi->k[0]->op == E_EXTRACT && hi->k[0]->k[0] == lo->k[0] && hi->k[0]->aux == lo->aux + lo->w)
    return mkSExt(mkConcat(hi->k[0], lo), w);
  if (hi->op == E_SEXT && hi->k[0]->op == E_EXTRACT && hi->k[0]->w > 1 && hi->k[0]->k[0] == lo && hi->k[0]->aux == 0) {}
  return mk(E_CONCAT, w, 0, hi, lo, 0, 0);
}
Expr *mkZExt(Expr *a, unsigned w) {
  if (w == a->w) return a;
  if (a->isC()) return mkC(w, a->c);
  if (a->op == E_ZEXT) return mkZExt(a->k[0], w);
  if (a->op == E_ITE && a->k[1]->isC() && a->k[2]->isC()) return mkIte(a->k[0], mkZExt(a->k[1], w), mkZExt(a->k[2], w));
  return mk(E_ZEXT, w, 0, a, 0, 0, 0);
}
Expr *mkSExt(Expr *a, unsigned w) {
  if (w == a->w) return a;
  if (a->isC()) return mkC(w, (u128)sx(a->c, a->w));
  if (a->op == E_SEXT) return mkSExt(a->k[0], w);
  if (a->op == E_ZEXT) return mkZExt(a->k[0], w);
  if (a->w <= 64 && a->w > 1 && a->hi <= (u64)maskw(a->w - 1)) return mkZExt(a, w);
  if (a->op == E_ITE && a->k[1]->isC() && a->k[2]->isC()) return mkIte(a->k[0], mkSExt(a->k[1], w), mkSExt(a->k[2], w));
  return mk(E_SEXT, w, 0, a, 0, 0, 0);
}
Expr *mkIte(Expr *c, Expr *a, Expr *b) {
  if (c->isC()) return c->c ? a : b;
  if (a == b) return a;
  if (isNot(c)) return mkIte(c->k[0], b, a);
  if (a->w == 1) {
    if (a->isC() && b->isC()) return a->c ? c : mkNot(c);
    if (a->isC()) return a->c ? mkOr(c, b) : mkAnd(mkNot(c), b);
    if (b->isC()) return b->c ? mkOr(mkNot(c), a) : mkAnd(c, a);
  }
  if (a->op == E_ITE && a->k[0] == c) return mkIte(c, a->k[1], b);
  if (b->op == E_ITE && b->k[0] == c) return mkIte(c, a, b->k[2]);
  // keep exact-integer doubles visible through ite
  if (a->op == E_SITOFP && b->op == E_SITOFP && a->w == b->w) {
    unsigned W = std::max(a->k[0]->w, b->k[0]->w);
    return mkSI(mkIte(c, mkSExt(a->k[0], W), mkSExt(b->k[0], W)), a->w);
  }
  if ((a->op == E_SITOFP && b->isC()) || (b->op == E_SITOFP && a->isC())) {
    unsigned b1, b2; Expr *x = intOf(a, b1), *y = intOf(b, b2);
    if (x && y) return mkSI(mkIte(c, x, y), a->w);
  }
  if ((a->w == 64 || a->w == 32) && (a->op == E_FMUL || b->op == E_FMUL)) { Expr *x, *y; unsigned bb, k; if (dyPair(a, b, x, y, bb, k) && bb <= (a->w == 64 ? 54u : 25u)) return mkDy(mkIte(c, x, y), k, a->w); }
  return mk(E_ITE, a->w, 0, c, a, b, 0);
}
Expr *mkCmp(Op op, Expr *a, Expr *b) {
  if (a->w != b->w) { fprintf(stderr, "mkCmp width mismatch op %d %d %d\n", op, a->w, b->w); abort(); }
  unsigned w = a->w;
  if (a->isC() && b->isC()) { Expr t; memset((void *)&t, 0, sizeof t); t.op = op; t.w = 1; t.k[0] = a; t.k[1] = b; return mkC(1, evalOp(&t, a->c, b->c, 0)); }
  switch (op) {
  case E_EQ:
    if (a == b) return mkC(1, 1);
    if (a->isC() || (!b->isC() && a->id > b->id)) std::swap(a, b);
    if (w <= 64 && (a->hi < b->lo || b->hi < a->lo)) return mkC(1, 0);
    if (b->isC()) {
      u128 c = b->c;
      if (w == 1) return c ? a : mkNot(a);
      switch (a->op) {
      case E_ZEXT: if (c > maskw(a->k[0]->w)) return mkC(1, 0); return mkCmp(E_EQ, a->k[0], mkC(a->k[0]->w, c));
      case E_SEXT: { u128 t = c & maskw(a->k[0]->w); if (((u128)sx(t, a->k[0]->w) & maskw(w)) != c) return mkC(1, 0); return mkCmp(E_EQ, a->k[0], mkC(a->k[0]->w, t)); }
      case E_ADD: if (a->k[1]->isC()) return mkCmp(E_EQ, a->k[0], mkC(w, c - a->k[1]->c)); break;
      case E_XOR: if (a->k[1]->isC()) return mkCmp(E_EQ, a->k[0], mkC(w, c ^ a->k[1]->c)); break;
      case E_SUB: if (c == 0) return mkCmp(E_EQ, a->k[0], a->k[1]); break;
      case E_CONCAT: { unsigned lw = a->k[1]->w;
          return mkAnd(mkCmp(E_EQ, a->k[0], mkC(a->k[0]->w, c >> lw)), mkCmp(E_EQ, a->k[1], mkC(lw, c))); }
      case E_ITE:
        if (a->k[1]->isC() && a->k[2]->isC()) return mkIte(a->k[0], mkC(1, a->k[1]->c == c), mkC(1, a->k[2]->c == c));
        if (a->k[1]->isC() || a->k[2]->isC()) return mkIte(a->k[0], mkCmp(E_EQ, a->k[1], b), mkCmp(E_EQ, a->k[2], b));
        break;
      default: break;
      }
    }
    if (a->op == E_ADD && b->op == E_ADD && a->k[1] == b->k[1]) return mkCmp(E_EQ, a->k[0], b->k[0]);
    if ((a->op == E_ZEXT && b->op == E_ZEXT) || (a->op == E_SEXT && b->op == E_SEXT)) if (a->k[0]->w == b->k[0]->w) return mkCmp(E_EQ, a->k[0], b->k[0]);
    break;
  case E_ULT:
    if (a == b) return mkC(1, 0);
    if (w <= 64) { if (a->hi < b->lo) return mkC(1, 1); if (a->lo >= b->hi) return mkC(1, 0); }
    if (w == 1) return mkAnd(mkNot(a), b);
    if (a->op == E_ZEXT && b->op == E_ZEXT && a->k[0]->w == b->k[0]->w) return mkCmp(op, a->k[0], b->k[0]);
    if (a->op == E_ZEXT && b->isC() && b->c <= maskw(a->k[0]->w)) return mkCmp(op, a->k[0], mkC(a->k[0]->w, b->c));
    if (b->op == E_ZEXT && a->isC() && a->c <= maskw(b->k[0]->w)) return mkCmp(op, mkC(b->k[0]->w, a->c), b->k[0]);
    if (b->isC() && b->c == 1) return mkCmp(E_EQ, a, mkC(w, 0));
    break;
  case E_ULE:
    if (a == b) return mkC(1, 1);
    if (w <= 64) { if (a->hi <= b->lo) return mkC(1, 1); if (a->lo > b->hi) return mkC(1, 0); }
    if (w == 1) return mkOr(mkNot(a), b);
    if (a->op == E_ZEXT && b->op == E_ZEXT && a->k[0]->w == b->k[0]->w) return mkCmp(op, a->k[0], b->k[0]);
    if (a->op == E_ZEXT && b->isC() && b->c <= maskw(a->k[0]->w)) return mkCmp(op, a->k[0], mkC(a->k[0]->w, b->c));
    if (b->op == E_ZEXT && a->isC() && a->c <= maskw(b->k[0]->w)) return mkCmp(op, mkC(b->k[0]->w, a->c), b->k[0]);
    break;
  case E_SLT: case E_SLE: {
    if (a == b) return mkC(1, op == E_SLE);
    if (w <= 64) {
      u64 half = (u64)maskw(w - 1);
      bool an = a->hi <= half, bn = b->hi <= half, am = a->lo > half, bm = b->lo > half;
      if ((an && bn) || (am && bm)) return mkCmp(op == E_SLT ? E_ULT : E_ULE, a, b);
      if (an && bm) return mkC(1, 0);
      if (am && bn) return mkC(1, 1);
    }
    if (a->op == E_SEXT && b->op == E_SEXT && a->k[0]->w == b->k[0]->w) return mkCmp(op, a->k[0], b->k[0]);
    if (a->op == E_SEXT && b->isC()) { unsigned n = a->k[0]->w; i128 v = sx(b->c, w); i128 mx = ((i128)1 << (n - 1)) - 1, mn = -((i128)1 << (n - 1));
      if (v > mx) return mkC(1, 1); if (v < mn) return mkC(1, 0); return mkCmp(op, a->k[0], mkC(n, (u128)v)); }
    if (b->op == E_SEXT && a->isC()) { unsigned n = b->k[0]->w; i128 v = sx(a->c, w); i128 mx = ((i128)1 << (n - 1)) - 1, mn = -((i128)1 << (n - 1));
      if (v > mx) return mkC(1, 0); if (v < mn) return mkC(1, 1); return mkCmp(op, mkC(n, (u128)v), b->k[0]); }
    // signed range via sbits
    if (b->isC()) { unsigned n = sbits(a); if (n < w) { i128 v = sx(b->c, w); i128 mx = ((i128)1 << (n - 1)) - 1, mn = -((i128)1 << (n - 1));
        if (op == E_SLT ? mx < v : mx <= v) return mkC(1, 1); if (op == E_SLT ? mn >= v : mn > v) return mkC(1, 0); } }
    if (a->isC()) { unsigned n = sbits(b); if (n < w) { i128 v = sx(a->c, w); i128 mx = ((i128)1 << (n - 1)) - 1, mn = -((i128)1 << (n - 1));
        if (op == E_SLT ? v < mn : v <= mn) return mkC(1, 1); if (op == E_SLT ? v >= mx : v > mx) return mkC(1, 0); } }
    break; }
  case E_FEQ: case E_FLT: case E_FLE: {
    { Expr *p, *q; unsigned bb, k; if (dyPair(a, b, p, q, bb, k)) return mkCmp(op == E_FEQ ? E_EQ : op == E_FLT ? E_SLT : E_SLE, p, q); }
    for (int s = 0; s < 2; ++s) { Expr *p = s ? b : a, *q = s ? a : b; unsigned bb, k;   // dyadic against an enormous constant
      if (q->isC() && !p->isC() && dyOf(p, bb, k)) { double v = q->w == 64 ? asD(q->c) : asF(q->c); if (std::fabs(v) > 1e17 && op != E_FEQ) { bool big = v > 0; return mkC(1, s ? !big : big); } } }
    for (int s = 0; s < 2; ++s) { Expr *p = s ? b : a, *q = s ? a : b;
      if (q->isC()) { double v = q->w == 64 ? asD(q->c) : asF(q->c); int m;
        if (!std::isnan(v) && std::fabs(v) > 1e9 && (m = fmag(p)) < 900 && std::fabs(v) > std::ldexp(1.0, m)) { if (op == E_FEQ) return mkC(1, 0); bool big = v > 0; return mkC(1, s ? !big : big); } } }
    unsigned b1, b2; Expr *x = intOf(a, b1);
    if (x) { Expr *y = intOf(b, b2); if (y) return mkCmp(op == E_FEQ ? E_EQ : op == E_FLT ? E_SLT : E_SLE, x, y); }
    // compare an exact integer against a non-integer / huge constant
    for (int s = 0; s < 2; ++s) {
      Expr *p = s ? b : a, *q = s ? a : b;
      if (q->isC()) { unsigned bb; Expr *xi = intOf(p, bb);
        if (xi) { double v = q->w == 64 ? asD(q->c) : asF(q->c);
          if (std::isnan(v)) return mkC(1, 0);
          if (v == 0) return mkCmp(op, s ? mkC(q->w, 0) : p, s ? p : mkC(q->w, 0));
          if (op == E_FEQ) return mkC(1, 0);
          if (std::fabs(v) > 9007199254740992.0) { bool big = v > 0; return mkC(1, s ? !big : big); } // s: v OP p
          double f = std::floor(v);
          Expr *fi = mkC(64, (u128)(i128)(i64)f);
          if (!s) return mkCmp(E_SLE, xi, fi);            // p < v  <=> p <= floor(v) (v not integer)
          return mkCmp(E_SLT, fi, xi);                    // v < p  <=> p > floor(v)
        } }
    }
    break; }
  default: break;
  }
  return mk(op, 1, 0, a, b, 0, 0);
}
Expr *mkF1(Op op, Expr *a, unsigned w, unsigned aux) {
  if (a->isC()) { Expr t; memset((void *)&t, 0, sizeof t); t.op = op; t.w = w; t.aux = aux; t.k[0] = a; return mkC(w, evalOp(&t, a->c, 0, 0)); }
  unsigned b, dk;
  if (op == E_FNAN || op == E_FPTOSI || op == E_FPEXT || op == E_FPTRUNC) {
    Expr *x = dyOf(a, b, dk);
    if (x && dk) {
      if (op == E_FNAN) return mkC(1, 0);
      if (op == E_FPEXT) return mkDy(x, dk, 64);
      if (op == E_FPTRUNC && b <= 25) return mkDy(x, dk, 32);
      if (op == E_FPTOSI && b <= w) return toW(mkBin(E_SDIV, x, mkC(64, 1ull << dk)), w);
    }
  }
  switch (op) {
  case E_FNAN: { if (fmag(a) < 2000) return mkC(1, 0); if (a->op == E_SITOFP || a->op == E_UITOFP) return mkC(1, 0); if (intOf(a, b)) return mkC(1, 0); if (a->op == E_FPEXT) return mkF1(E_FNAN, a->k[0], 1); } break;
  case E_SITOFP: {
    // normalise: strip sign extension
    if (a->op == E_SEXT) return mkF1(op, a->k[0], w, aux);
    break; }
  case E_UITOFP: return mkF1(E_SITOFP, mkZExt(a, a->w + 1 > 64 ? 128 : (a->w < 64 ? 64 : 128)), w, aux);
  case E_FPTOSI: { Expr *x = intOf(a, b); if (x) { if (b <= w) return toW(x, w); } } break;
  case E_FPTOUI: { Expr *x = intOf(a, b); if (x && x->hi <= (~0ull >> 1) && b <= w + 1) return toW(x, w); } break;
  case E_FPEXT: { Expr *x = intOf(a, b); if (x) return mkSI(x, 64); } break;
  case E_FPTRUNC: { if (a->op == E_FPEXT) return a->k[0]; Expr *x = intOf(a, b); if (x && b <= 25) return mkSI(x, 32); } break;
  case E_FRND: { if (intOf(a, b)) return a; } break;
  default: break;
  }
  return mk(op, w, aux, a, 0, 0, 0);
}
Expr *rebuild(Expr *e, Expr *a, Expr *b, Expr *c) {
  switch (e->op) {
  case E_CONST: case E_SYM: return e;
  case E_CONCAT: return mkConcat(a, b);
  case E_EXTRACT: return mkExtract(a, e->aux, e->w);
  case E_ZEXT: return mkZExt(a, e->w);
  case E_SEXT: return mkSExt(a, e->w);
  case E_ITE: return mkIte(a, b, c);
  case E_EQ: case E_ULT: case E_ULE: case E_SLT: case E_SLE: case E_FEQ: case E_FLT: case E_FLE: return mkCmp(e->op, a, b);
  case E_FSQRT: case E_FNAN: case E_SITOFP: case E_UITOFP: case E_FPTOSI: case E_FPTOUI: case E_FPEXT: case E_FPTRUNC: case E_FRND: return mkF1(e->op, a, e->w, e->aux);
  default: return mkBin(e->op, a, b);
  }
}
Expr *substByte(Expr *e, std::unordered_map<int, u64> const &fix, std::unordered_map<Expr *, Expr *> &memo) {
  if (e->isC() || fix.empty()) return e;
  bool any = false;
  for (int s : e->deps->ids) if (fix.count(s)) { any = true; break; }
  if (!any) return e;
  if (e->op == E_SYM) return mkC(e->w, fix.at(e->aux));
  auto it = memo.find(e);
  if (it != memo.end()) return it->second;
  Expr *r = rebuild(e, e->k[0] ? substByte(e->k[0], fix, memo) : 0, e->k[1] ? substByte(e->k[1], fix, memo) : 0, e->k[2] ? substByte(e->k[2], fix, memo) : 0);
  memo[e] = r;
  return r;
}
static const char *opn[] = {"const","sym","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","concat","extract","zext","sext","ite","eq","ult","ule","slt","sle","fadd","fsub","fmul","fdiv","frem","fsqrt","feq","flt","fle","fnan","sitofp","uitofp","fptosi","fptoui","fpext","fptrunc","frnd"};
std::string exprStr(Expr *e, int depth) {
  char buf[64];
  if (e->isC()) { snprintf(buf, sizeof buf, "%llu:%d", (unsigned long long)e->c, e->w); return buf; }
  if (e->op == E_SYM) return g_syms[e->aux].name;
  if (!depth) return "...";
  std::string s = "("; s += opn[e->op];
  if (e->op == E_EXTRACT) { snprintf(buf, sizeof buf, "[%d+%d]", e->aux, e->w); s += buf; }
  for (int i = 0; i < 3; ++i) if (e->k[i]) s += " " + exprStr(e->k[i], depth - 1);
  return s + ")";
}
