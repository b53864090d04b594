#include "solver.h"
#include <algorithm>
#include <map>
#include <cstdio>
#include <ctime>
#include <sys/time.h>
#include <set>
#include <functional>
SolverStats g_ss;
unsigned g_solverTimeoutMs = 20000;
std::string g_dumpDir;
static Z3_context C;
static Z3_ast toBV(Expr *e);
static std::vector<Z3_ast> g_symAst;
static void onErr(Z3_context c, Z3_error_code e) { if (e == Z3_OK) return; fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); }
void solverInit() {
  Z3_config cfg = Z3_mk_config();
  Z3_set_param_value(cfg, "model", "true");
  C = Z3_mk_context(cfg);
  Z3_set_error_handler(C, onErr);
  Z3_del_config(cfg);
}
static Z3_sort bvs(unsigned w) { return Z3_mk_bv_sort(C, w); }
static Z3_ast bvc(unsigned w, u128 v) {
  if (w <= 64) return Z3_mk_unsigned_int64(C, (u64)v, bvs(w));
  return Z3_mk_concat(C, Z3_mk_unsigned_int64(C, (u64)(v >> 64), bvs(w - 64)), Z3_mk_unsigned_int64(C, (u64)v, bvs(64)));
}
static Z3_sort fps(unsigned w) { return w == 64 ? Z3_mk_fpa_sort_64(C) : Z3_mk_fpa_sort_32(C); }
static Z3_ast rne() { return Z3_mk_fpa_rne(C); }
static bool isFP(Op o) { return (o >= E_FADD && o <= E_FSQRT) || o == E_SITOFP || o == E_UITOFP || o == E_FPEXT || o == E_FPTRUNC || o == E_FRND; }
static Z3_ast b2bv(Z3_ast b) { return Z3_mk_ite(C, b, bvc(1, 1), bvc(1, 0)); }
static Z3_ast toBool(Expr *e);
static std::vector<Z3_ast> g_boolCache; // by expr id
static Z3_ast toFP(Expr *e) {
  if (e->z3f) return e->z3f;
  Z3_ast r;
  Z3_sort s = fps(e->w);
  switch (e->op) {
  case E_FADD: r = Z3_mk_fpa_add(C, rne(), toFP(e->k[0]), toFP(e->k[1])); break;
  case E_FSUB: r = Z3_mk_fpa_sub(C, rne(), toFP(e->k[0]), toFP(e->k[1])); break;
  case E_FMUL: r = Z3_mk_fpa_mul(C, rne(), toFP(e->k[0]), toFP(e->k[1])); break;
  case E_FDIV: r = Z3_mk_fpa_div(C, rne(), toFP(e->k[0]), toFP(e->k[1])); break;
  case E_FREM: r = Z3_mk_fpa_rem(C, toFP(e->k[0]), toFP(e->k[1])); break;
  case E_FSQRT: r = Z3_mk_fpa_sqrt(C, rne(), toFP(e->k[0])); break;
  case E_FRND: { Z3_ast m = e->aux == 0 ? Z3_mk_fpa_rtn(C) : e->aux == 1 ? Z3_mk_fpa_rtp(C) : e->aux == 2 ? Z3_mk_fpa_rtz(C) : e->aux == 3 ? Z3_mk_fpa_rna(C) : rne();
      r = Z3_mk_fpa_round_to_integral(C, m, toFP(e->k[0])); break; }
  case E_SITOFP: r = Z3_mk_fpa_to_fp_signed(C, rne(), toBV(e->k[0]), s); break;
  case E_UITOFP: r = Z3_mk_fpa_to_fp_unsigned(C, rne(), toBV(e->k[0]), s); break;
  case E_FPEXT: case E_FPTRUNC: r = Z3_mk_fpa_to_fp_float(C, rne(), toFP(e->k[0]), s); break;
  case E_ITE: r = Z3_mk_ite(C, toBool(e->k[0]), toFP(e->k[1]), toFP(e->k[2])); break;
  default: r = Z3_mk_fpa_to_fp_bv(C, toBV(e), s); break;
  }
  Z3_inc_ref(C, r);
  return e->z3f = r;
}
static bool boolish(Op o) { return (o >= E_EQ && o <= E_SLE) || (o >= E_FEQ && o <= E_FNAN); }
static std::unordered_map<Expr *, Z3_ast> g_bool;
static Z3_ast toBool(Expr *e) {
  auto it = g_bool.find(e);
  if (it != g_bool.end()) return it->second;
  Z3_ast r;
  Z3_ast two[2];
  switch (e->op) {
  case E_CONST: r = e->c ? Z3_mk_true(C) : Z3_mk_false(C); break;
  case E_EQ: if (e->k[0]->w == 1) r = Z3_mk_iff(C, toBool(e->k[0]), toBool(e->k[1])); else r = Z3_mk_eq(C, toBV(e->k[0]), toBV(e->k[1])); break;
  case E_ULT: r = Z3_mk_bvult(C, toBV(e->k[0]), toBV(e->k[1])); break;
  case E_ULE: r = Z3_mk_bvule(C, toBV(e->k[0]), toBV(e->k[1])); break;
  case E_SLT: r = Z3_mk_bvslt(C, toBV(e->k[0]), toBV(e->k[1])); break;
  case E_SLE: r = Z3_mk_bvsle(C, toBV(e->k[0]), toBV(e->k[1])); break;
  case E_FEQ: r = Z3_mk_fpa_eq(C, toFP(e->k[0]), toFP(e->k[1])); break;
  case E_FLT: r = Z3_mk_fpa_lt(C, toFP(e->k[0]), toFP(e->k[1])); break;
  case E_FLE: r = Z3_mk_fpa_leq(C, toFP(e->k[0]), toFP(e->k[1])); break;
  case E_FNAN: r = Z3_mk_fpa_is_nan(C, toFP(e->k[0])); break;
  case E_AND: two[0] = toBool(e->k[0]); two[1] = toBool(e->k[1]); r = Z3_mk_and(C, 2, two); break;
  case E_OR: two[0] = toBool(e->k[0]); two[1] = toBool(e->k[1]); r = Z3_mk_or(C, 2, two); break;
  case E_XOR: if (e->k[1]->isC() && e->k[1]->c == 1) r = Z3_mk_not(C, toBool(e->k[0])); else r = Z3_mk_xor(C, toBool(e->k[0]), toBool(e->k[1])); break;
  case E_ITE: r = Z3_mk_ite(C, toBool(e->k[0]), toBool(e->k[1]), toBool(e->k[2])); break;
  default: r = Z3_mk_eq(C, toBV(e), bvc(1, 1)); break;
  }
  Z3_inc_ref(C, r);
  g_bool[e] = r;
  return r;
}
static Z3_ast toBV(Expr *e) {
  if (e->z3) return e->z3;
  Z3_ast r;
#define A toBV(e->k[0])
#define B toBV(e->k[1])
  if (boolish(e->op) || (e->w == 1 && (e->op == E_AND || e->op == E_OR || e->op == E_XOR || e->op == E_ITE))) r = b2bv(toBool(e));
  else if (isFP(e->op)) r = Z3_mk_fpa_to_ieee_bv(C, toFP(e));
  else switch (e->op) {
  case E_CONST: r = bvc(e->w, e->c); break;
  case E_SYM: { char n[32]; snprintf(n, sizeof n, "s%u", e->aux); r = Z3_mk_const(C, Z3_mk_string_symbol(C, n), bvs(e->w));
      if (g_symAst.size() <= e->aux) g_symAst.resize(e->aux + 64); g_symAst[e->aux] = r; break; }
  case E_ADD: r = Z3_mk_bvadd(C, A, B); break;
  case E_SUB: r = Z3_mk_bvsub(C, A, B); break;
  case E_MUL: r = Z3_mk_bvmul(C, A, B); break;
  case E_UDIV: r = Z3_mk_bvudiv(C, A, B); break;
  case E_SDIV: r = Z3_mk_bvsdiv(C, A, B); break;
  case E_UREM: r = Z3_mk_bvurem(C, A, B); break;
  case E_SREM: r = Z3_mk_bvsrem(C, A, B); break;
  case E_AND: r = Z3_mk_bvand(C, A, B); break;
  case E_OR: r = Z3_mk_bvor(C, A, B); break;
  case E_XOR: r = Z3_mk_bvxor(C, A, B); break;
  case E_SHL: r = Z3_mk_bvshl(C, A, B); break;
  case E_LSHR: r = Z3_mk_bvlshr(C, A, B); break;
  case E_ASHR: r = Z3_mk_bvashr(C, A, B); break;
  case E_CONCAT: r = Z3_mk_concat(C, A, B); break;
  case E_EXTRACT: r = Z3_mk_extract(C, e->aux + e->w - 1, e->aux, A); break;
  case E_ZEXT: r = Z3_mk_zero_ext(C, e->w - e->k[0]->w, A); break;
  case E_SEXT: r = Z3_mk_sign_ext(C, e->w - e->k[0]->w, A); break;
  case E_ITE: r = Z3_mk_ite(C, toBool(e->k[0]), toBV(e->k[1]), toBV(e->k[2])); break;
  case E_FPTOSI: { Z3_ast f = toFP(e->k[0]); unsigned w = e->w; unsigned fw = e->k[0]->w;
      // x86 semantics for out-of-range / NaN
      double lim = 1; for (unsigned i = 0; i + 1 < w; ++i) lim *= 2;
      Z3_ast hi = Z3_mk_fpa_numeral_double(C, lim, fps(fw));
      Z3_ast lo = Z3_mk_fpa_numeral_double(C, w >= 53 ? -lim : -lim - 1, fps(fw));
      Z3_ast ok[2] = {Z3_mk_fpa_lt(C, f, hi), w >= 53 ? Z3_mk_fpa_geq(C, f, lo) : Z3_mk_fpa_gt(C, f, lo)};
      r = Z3_mk_ite(C, Z3_mk_and(C, 2, ok), Z3_mk_fpa_to_sbv(C, Z3_mk_fpa_rtz(C), f, w), bvc(w, (u128)1 << (w - 1))); break; }
  case E_FPTOUI: { Z3_ast f = toFP(e->k[0]); unsigned w = e->w; unsigned fw = e->k[0]->w;
      double lim = 1; for (unsigned i = 0; i < w; ++i) lim *= 2;
      Z3_ast ok[2] = {Z3_mk_fpa_lt(C, f, Z3_mk_fpa_numeral_double(C, lim, fps(fw))), Z3_mk_fpa_gt(C, f, Z3_mk_fpa_numeral_double(C, -1.0, fps(fw)))};
      r = Z3_mk_ite(C, Z3_mk_and(C, 2, ok), Z3_mk_fpa_to_ubv(C, Z3_mk_fpa_rtz(C), f, w), bvc(w, (u128)1 << (w - 1))); break; }
  default: fprintf(stderr, "toBV: op %d\n", e->op); abort();
  }
#undef A
#undef B
  Z3_inc_ref(C, r);
  return e->z3 = r;
}
static double now() { timeval tv; gettimeofday(&tv, 0); return tv.tv_sec + tv.tv_usec * 1e-6; }

struct CacheEnt { SatRes r; std::vector<std::pair<int, u64>> model; };
static std::map<std::vector<uint32_t>, CacheEnt> g_cache;
static bool g_hasDiv;
static bool hasFP(Expr *e, std::set<Expr *> &seen) {
  if (!seen.insert(e).second) return false;
  if (e->op == E_UDIV || e->op == E_SDIV || e->op == E_UREM || e->op == E_SREM || e->op == E_MUL) g_hasDiv = true;
  if (isFP(e->op) || (e->op >= E_FEQ && e->op <= E_FPTRUNC)) return true;
  for (int i = 0; i < 3; ++i) if (e->k[i] && hasFP(e->k[i], seen)) return true;
  return false;
}
// Complete search over a small finite domain, constraint by constraint as its symbols get values.
static bool finiteDomain(std::vector<Expr *> const &cs, std::set<int> const &syms, CacheEnt &ent, double maxProd) {
  std::vector<int> order; double prod = 1;
  for (int id : syms) { Expr *se = symExpr(id); if (!se || se->hi > 4096) return false; prod *= (double)se->hi + 1; if (prod > maxProd) return false; order.push_back(id); }
  std::sort(order.begin(), order.end(), [](int a, int b) { return symExpr(a)->hi < symExpr(b)->hi; });
  std::vector<std::vector<Expr *>> at(order.size());
  for (Expr *e : cs) { int last = -1; for (size_t i = 0; i < order.size(); ++i) for (int d : e->deps->ids) if (d == order[i]) last = (int)i; if (last < 0) return false; at[last].push_back(e); }
  static std::vector<u64> m; if (m.size() < g_syms.size()) m.resize(g_syms.size() + 64);
  std::vector<u64> v(order.size(), 0); size_t i = 0;
  for (int id : order) m[id] = 0;
  while (true) {
    m[order[i]] = v[i];
    bool ok = v[i] <= symExpr(order[i])->hi;
    if (!ok) { if (!i) { ent.r = S_UNSAT; return true; } --i; ++v[i]; continue; }
    u64 st = newStamp();
    for (Expr *e : at[i]) if (!evalExpr(e, m, st)) { ok = false; break; }
    if (!ok) { ++v[i]; continue; }
    if (i + 1 == order.size()) { ent.r = S_SAT; for (size_t j = 0; j < order.size(); ++j) ent.model.push_back({order[j], v[j]}); return true; }
    ++i; v[i] = 0;
  }
}
SatRes checkSat(std::vector<Expr *> const &csIn, std::vector<std::pair<int, u64>> *model) {
  std::vector<Expr *> cs;
  for (Expr *e : csIn) { if (e->isC()) { if (!e->c) return S_UNSAT; } else cs.push_back(e); }
  if (cs.empty()) { if (model) model->clear(); return S_SAT; }
  std::sort(cs.begin(), cs.end(), [](Expr *a, Expr *b) { return a->id < b->id; });
  cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
  std::vector<uint32_t> key;
  for (Expr *e : cs) key.push_back(e->id);
  auto it = g_cache.find(key);
  if (it != g_cache.end()) { ++g_ss.cacheHits; if (model) *model = it->second.model; return it->second.r; }
  double t0 = now();
  ++g_ss.queries;
  std::set<int> syms;
  bool fp = false; g_hasDiv = false;
  { std::set<Expr *> seen; for (Expr *e : cs) { for (int s : e->deps->ids) syms.insert(s); if (!fp && hasFP(e, seen)) fp = true; } }
  CacheEnt ent;
  ent.r = S_UNKNOWN;
  Z3_solver s;
  static Z3_solver inc = nullptr;
  if ((fp || g_hasDiv) && finiteDomain(cs, syms, ent, fp ? 300000 : 4000)) ++g_ss.finite;
  for (int attempt = 0; attempt < 2 && ent.r == S_UNKNOWN; ++attempt) {
    unsigned to = attempt == 0 ? std::min(g_solverTimeoutMs, 1500u) : g_solverTimeoutMs;
    if (attempt == 1 || fp) {
      Z3_tactic t = Z3_mk_tactic(C, fp ? "qffpbv" : "qfbv"); Z3_tactic_inc_ref(C, t);
      s = Z3_mk_solver_from_tactic(C, t);
      Z3_solver_inc_ref(C, s);
      Z3_tactic_dec_ref(C, t);
      if (fp) to = g_solverTimeoutMs, attempt = 1;
    } else {
      if (!inc) { inc = Z3_mk_simple_solver(C); Z3_solver_inc_ref(C, inc); }
      s = inc;
      Z3_solver_push(C, s);
    }
    Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
    Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), to);
    Z3_solver_set_params(C, s, p);
    Z3_params_dec_ref(C, p);
    for (Expr *e : cs) Z3_solver_assert(C, s, toBool(e));
    for (int id : syms) if (Expr *se = symExpr(id)) if (se->hi < (u64)maskw(se->w)) Z3_solver_assert(C, s, Z3_mk_bvule(C, toBV(se), bvc(se->w, se->hi)));
    Z3_lbool r = Z3_solver_check(C, s);
    if (r == Z3_L_TRUE) {
      ent.r = S_SAT;
      Z3_model m = Z3_solver_get_model(C, s);
      Z3_model_inc_ref(C, m);
      for (int id : syms) {
        Z3_ast v;
        u64 val = 0;
        if ((size_t)id < g_symAst.size() && g_symAst[id] && Z3_model_eval(C, m, g_symAst[id], true, &v)) Z3_get_numeral_uint64(C, v, &val);
        ent.model.push_back({id, val});
      }
      Z3_model_dec_ref(C, m);
    } else if (r == Z3_L_FALSE) ent.r = S_UNSAT;
    if (ent.r == S_UNKNOWN && attempt == 1 && !g_dumpDir.empty()) {
      static int dn = 0; char fn[512]; snprintf(fn, sizeof fn, "%s/q%d.smt2", g_dumpDir.c_str(), dn++);
      FILE *f = fopen(fn, "w"); if (f) { for (Expr *e : cs) fprintf(f, "; %s\n", exprStr(e, 14).c_str()); fputs(Z3_solver_to_string(C, s), f); fputs("(check-sat)\n", f); fclose(f); }
    }
    if (s == inc) Z3_solver_pop(C, s, 1); else Z3_solver_dec_ref(C, s);
  }
  double dt = now() - t0;
  g_ss.seconds += dt;
  if (dt > g_ss.maxSeconds) g_ss.maxSeconds = dt;
  static bool tq = getenv("SYM_TRACEQ") != nullptr;
  if (tq && dt > 0.2) { fprintf(stderr, "slow query %.2fs r=%d\n", dt, (int)ent.r); for (Expr *e : cs) fprintf(stderr, "   %s\n", exprStr(e, 12).c_str()); }
  if (ent.r == S_SAT) {
    // the model must satisfy the query under our own evaluator (guards against translation slips)
    std::vector<u64> m(g_syms.size());
    for (auto &p : ent.model) m[p.first] = p.second;
    u64 st = newStamp();
    for (Expr *e : cs) if (!evalExpr(e, m, st)) {
      if (fp) { ent.r = S_UNKNOWN; break; }
      fprintf(stderr, "internal: z3 model does not satisfy %s\n", exprStr(e, 12).c_str()); abort();
    }
  }
  if (ent.r == S_SAT) ++g_ss.sat; else if (ent.r == S_UNSAT) ++g_ss.unsat; else ++g_ss.unknown;
  if (model) *model = ent.model;
  if (g_cache.size() > 400000) g_cache.clear();
  g_cache[key] = ent;
  return ent.r;
}
