// Trace-partitioned abstract interpreter over LLVM IR.
#pragma once
#include "node.h"
#include <set>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/DataLayout.h>

struct Val {
  enum K : uint8_t { UNDEF, INT, PTR, FUNC, AGG } k = UNDEF;
  int obj = 0; N n = nullptr; const llvm::Function *f = nullptr;
  std::shared_ptr<std::vector<Val>> agg;
  static Val I(N n) { Val v; v.k = INT; v.n = n; return v; }
  static Val P(int o, N off) { Val v; v.k = PTR; v.obj = o; v.n = off; return v; }
  static Val F(const llvm::Function *f) { Val v; v.k = FUNC; v.f = f; return v; }
  bool operator==(const Val &o) const { return k == o.k && obj == o.obj && n == o.n && f == o.f && agg == o.agg; }
};
struct Cell { Val v; unsigned sz; };
struct Obj {
  std::string name; N size = nullptr; const Table *tab = nullptr; const llvm::GlobalVariable *gv = nullptr;
  enum Kind : uint8_t { STACK, GLOBAL, HEAP, BUF } kind = STACK;
  enum Init : uint8_t { UNINIT, ZERO, SYMB } init = UNINIT;
  bool writable = true, freed = false;
  std::map<i64, Cell> cells;
};
struct Frame {
  const llvm::Function *f = nullptr; const llvm::BasicBlock *bb = nullptr, *prev = nullptr;
  llvm::BasicBlock::const_iterator ip; std::vector<Val> regs;
  const llvm::CallBase *site = nullptr; std::vector<int> allocas;
  std::map<const llvm::BasicBlock *, int> visits; int forks0 = 0;
};
struct State {
  std::vector<Frame> fr; std::vector<std::shared_ptr<Obj>> obj; Env env;
  std::map<std::string, int> symCount; std::unordered_map<const llvm::GlobalValue *, int> gobj;
  u64 steps = 0; int depthForks = 0; bool mallocFail = false; Val exc; const llvm::GlobalValue *excType = nullptr;
  std::vector<std::string> notes; int errnoObj = 0;
  bool atHead = false, exitJoin = false; u64 stores = 0;
  std::vector<unsigned> trace;
};
struct Violation { std::string kind, msg, where, func; std::vector<std::string> stack; std::vector<std::pair<std::string, u64>> wit; bool confirmed = false; std::vector<std::string> notes; };
struct JobResult {
  std::map<std::string, u64> obl;            // obligations discharged, by kind
  std::set<std::string> sites;               // obligation sites
  std::set<std::string> funcs;               // functions analysed
  std::vector<Violation> viol; std::vector<std::string> undecided;
  std::map<std::string, u64> reach;          // coverage marks
  u64 merges = 0, paths = 0, steps = 0, iters = 0, enums = 0; bool incomplete = false; std::string why;
  std::map<std::string, std::string> states; bool inexactStates = false;
  std::map<std::string, std::string> outs; std::map<std::string, ISet> collect;
};
struct Job { std::string func; std::vector<i64> args; std::map<std::string, ISet> init, universe; u64 maxPaths = 60000; double maxSec = 300; int nojoin = 0; std::string id;
  std::set<std::string> only; /* obligation kinds that count (empty: all) */ };
void engineInit(llvm::Module *M);
JobResult runJob(const Job &j);
std::string jsonStr(const std::string &s);
