#pragma once
#include "expr.h"
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <map>
#include <set>
#include <memory>
#include <functional>

struct Agg;
struct Val {
  Expr *e = nullptr; // symbolic (or wide constant)
  u64 c = 0;         // concrete value if e==nullptr
  Agg *a = nullptr;  // aggregate
  Val() {}
  Val(u64 x) : c(x) {}
  bool conc() const { return !e && !a; }
};
struct Agg { std::vector<Val> v; };

struct MemObj {
  int rc = 1;
  u64 base = 0, size = 0;
  uint8_t kind = 0; // 0 global 1 heap 2 stack
  bool ro = false, freed = false, shared = false;
  std::vector<uint8_t> b;
  std::vector<Expr *> s; // empty or size()
  std::string *name = nullptr;
};
struct Page { int rc = 1; MemObj *o[64]; Page() { memset(o, 0, sizeof o); } };
struct Region {
  std::vector<Page *> pages;
  u64 top = 1; // next slot
};

struct KInst {
  const llvm::Instruction *I;
  int dest = -1;
  unsigned op;
  std::vector<int> ops;     // >=0 slot, <0 const
  std::vector<unsigned> opw;
  unsigned w = 0;           // result width (0 if aggregate/void)
  // gep
  i64 goff = 0;
  std::vector<std::pair<int, u64>> gidx; // operand index (in ops), scale
  std::vector<unsigned> gw;
  int bb = 0;
  std::vector<int> succ;
};
struct KFunc {
  const llvm::Function *F;
  std::vector<KInst> ins;
  std::vector<int> bbStart;
  std::vector<const llvm::BasicBlock *> bbs;
  int nslots = 0;
  std::string name, file;
  u64 calls = 0;
  int line = 0;
};
struct Frame {
  KFunc *kf = nullptr;
  int pc = 0;
  std::vector<Val> r;
  u64 spBase = 0;
  std::vector<Val> va;
  std::vector<unsigned> vaw;
  u64 lpExc = 0; int lpSel = 0;
};
struct Thread {
  std::vector<Frame> st;
  int status = 0; // 0 runnable 1 blocked 2 done
  u64 waitOn = 0; bool skip = false;
  std::vector<u64> caught; // stack of caught exceptions
};
struct Exc { u64 addr, ti, adj; int handlers; u64 dtor; };
struct Input { std::string name; Expr *e; u64 c; int bytes; i64 add; };  // value = e(+add)
struct State {
  std::vector<Thread> th;
  int cur = 0;
  std::vector<Region> reg;
  std::vector<Expr *> pc;
  std::unordered_map<Expr *, bool> known;
  std::vector<std::shared_ptr<std::bitset<256>>> dom;
  std::vector<char> cplx;
  std::unordered_map<int, u64> fix;
  std::shared_ptr<std::vector<u64>> model;
  u64 stamp = 0;
  std::vector<Input> inputs;
  std::map<u64, Exc> excs;
  u64 steps = 0, budget = 0;
  std::vector<std::string> trace;
  int preempts = 0;
  std::vector<std::pair<u64,u64>> sharedR;
  bool uninitSym = false;
  int needSched = 0; Expr *pend = nullptr;
  int allocCount = 0, allocFailAt = -1;
  u64 symAllocLimit = 0;
  std::map<std::string, i64> counters;
};
