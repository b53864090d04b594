// Bit-vector / floating-point expression DAG for the symbolic executor.
#pragma once
#include <cstdint>
#include <cstring>
#include <vector>
#include <string>
#include <unordered_map>
#include <bitset>
#include <z3.h>
typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef int64_t i64;

enum Op : uint8_t {
  E_CONST, E_SYM, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR,
  E_CONCAT, E_EXTRACT, E_ZEXT, E_SEXT, E_ITE, E_EQ, E_ULT, E_ULE, E_SLT, E_SLE,
  E_FADD, E_FSUB, E_FMUL, E_FDIV, E_FREM, E_FSQRT, E_FEQ, E_FLT, E_FLE, E_FNAN, E_SITOFP, E_UITOFP, E_FPTOSI, E_FPTOUI,
  E_FPEXT, E_FPTRUNC, E_FRND
};
struct SymSet { std::vector<int> ids; };
struct Expr {
  Op op; uint16_t w; uint32_t aux; uint32_t id;
  Expr *k[3];
  u128 c;
  u64 lo, hi;              // unsigned interval, valid when w<=64
  const SymSet *deps;
  Z3_ast z3, z3f;
  u64 stamp; u128 ev;
  std::bitset<256> *tbl;
  bool isC() const { return op == E_CONST; }
};
struct SymInfo { std::string name; int w; };
extern std::vector<SymInfo> g_syms;

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sx(u128 v, unsigned w) { if (w >= 128) return (i128)v; u128 m = (u128)1 << (w - 1); v &= maskw(w); return (i128)((v ^ m) - m); }

Expr *mkC(unsigned w, u128 v);
Expr *mkSym(unsigned w, std::string const &name);
Expr *symExpr(int id);
Expr *mkBin(Op op, Expr *a, Expr *b);
Expr *mkExtract(Expr *a, unsigned off, unsigned w);
Expr *mkConcat(Expr *hi, Expr *lo);
Expr *mkZExt(Expr *a, unsigned w);
Expr *mkSExt(Expr *a, unsigned w);
Expr *mkIte(Expr *c, Expr *a, Expr *b);
Expr *mkCmp(Op op, Expr *a, Expr *b);
Expr *mkF1(Op op, Expr *a, unsigned w, unsigned aux = 0);
Expr *mkNot(Expr *a);
Expr *mkAnd(Expr *a, Expr *b);
Expr *mkOr(Expr *a, Expr *b);
bool sbound(Expr *e, unsigned &bits);
u128 evalOp(Expr *e, u128 a, u128 b, u128 c);
u128 evalExpr(Expr *e, std::vector<u64> const &model, u64 stamp);
std::bitset<256> const &byteTable(Expr *e);   // e: width 1, depends on one 8-bit symbol
Expr *substByte(Expr *e, std::unordered_map<int, u64> const &fix, std::unordered_map<Expr *, Expr *> &memo);
std::string exprStr(Expr *e, int depth = 6);
Expr *rebuild(Expr *e, Expr *a, Expr *b, Expr *c);
u64 newStamp();
size_t exprCount();
