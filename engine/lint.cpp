// Effect analysis: which mutable module-level objects can code reachable from the entry points write, and what does it call.
// usage: rsa-lint MODULE.bc PREFIX...   (entry points: defined functions whose name starts with PREFIX)
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <iostream>
#include <map>
#include <set>
using namespace llvm;
static std::string js(const std::string &s) { std::string o = "\""; for (char c : s) { if (c == '"' || c == '\\') o += '\\'; o += c; } return o + "\""; }
static std::string loc(const Instruction *I) { if (auto &d = I->getDebugLoc()) { auto *s = cast<DIScope>(d.getScope()); return (s->getDirectory().str().size() && s->getFilename()[0] != '/' ? s->getDirectory().str() + "/" : "") + s->getFilename().str() + ":" + std::to_string(d.getLine()); } return "?"; }
struct W { std::string what, where, func; };
static std::set<const Function *> reach;
static std::vector<const Value *> memberLoads(const StructType *T, const GEPOperator *G) {
  std::vector<const Value *> r; auto last = [](const GEPOperator *g) -> const Value * { return std::prev(g->idx_end())->get(); };
  for (auto *F : reach) for (auto &I : instructions(*F)) if (auto *L = dyn_cast<LoadInst>(&I)) if (L->getType()->isPointerTy()) if (auto *H = dyn_cast<GEPOperator>(L->getPointerOperand())) if (H->getSourceElementType() == T && H->getNumIndices() == G->getNumIndices() && last(H) == last(G)) r.push_back(L);
  return r;
}
static void writes(const Value *V, std::set<const Value *> &seen, std::vector<W> &out, unsigned &loads) {
  if (!seen.insert(V).second) return;
  for (auto *U : V->users()) {
    if (auto *I = dyn_cast<Instruction>(U)) if (!reach.count(I->getFunction())) continue;
    if (auto *S = dyn_cast<StoreInst>(U)) {
      if (S->getPointerOperand() == V) { if (!S->isAtomic()) out.push_back({"store", loc(S), S->getFunction()->getName().str()}); }
      else { // the address itself is stored: follow what is loaded back from that slot
        const Value *p = S->getPointerOperand()->stripInBoundsOffsets();
        if (auto *G = dyn_cast<GEPOperator>(S->getPointerOperand())) // into a member: follow what is loaded from that member anywhere
          if (auto *T = dyn_cast<StructType>(G->getSourceElementType())) for (auto *L : memberLoads(T, G)) writes(L, seen, out, loads);
        if (auto *GV = dyn_cast<GlobalVariable>(p)) { for (auto *UU : GV->users()) if (auto *L = dyn_cast<LoadInst>(UU)) if (L->getType()->isPointerTy() && reach.count(L->getFunction())) writes(L, seen, out, loads); }
        if (isa<AllocaInst>(p)) { for (auto *UU : p->users()) if (auto *L = dyn_cast<LoadInst>(UU)) if (L->getType()->isPointerTy()) writes(L, seen, out, loads); }
      }
    } else if (auto *L = dyn_cast<LoadInst>(U)) loads++;
    else if (isa<GetElementPtrInst>(U) || isa<CastInst>(U) || isa<PHINode>(U) || isa<SelectInst>(U) || isa<ConstantExpr>(U)) writes(cast<Value>(U), seen, out, loads);
    else if (auto *C = dyn_cast<CallBase>(U)) {
      if (auto *M = dyn_cast<MemIntrinsic>(C)) { if (M->getRawDest() == V) out.push_back({"memory write", loc(C), C->getFunction()->getName().str()}); else loads++; continue; }
      const Function *F = C->getCalledFunction();
      for (unsigned i = 0; i < C->arg_size(); i++) if (C->getArgOperand(i) == V) {
        if (!F) { // indirect: every function of that type whose address is taken
          for (auto &H : *C->getModule()) if (!H.isDeclaration() && reach.count(&H) && H.hasAddressTaken() && H.getFunctionType() == C->getFunctionType() && i < H.arg_size()) writes(H.getArg(i), seen, out, loads);
        } else if (F && !F->isDeclaration() && i < F->arg_size()) writes(F->getArg(i), seen, out, loads);
        else if (F) { StringRef n = F->getName(); if (i == 0 && (n == "memcpy" || n == "memset" || n == "memmove" || n == "strcpy" || n == "strcat" || n == "strncpy" || n == "sprintf" || n == "snprintf")) out.push_back({"memory write", loc(C), C->getFunction()->getName().str()}); else loads++; }
      }
    } else if (auto *R = dyn_cast<ReturnInst>(U)) {
      for (auto *FU : R->getFunction()->users()) if (auto *C = dyn_cast<CallBase>(FU)) if (C->getCalledFunction() == R->getFunction()) writes(C, seen, out, loads);
    }
  }
}
int main(int argc, char **argv) {
  LLVMContext C; SMDiagnostic E; auto M = parseIRFile(argv[1], E, C);
  if (!M) { E.print("rsa-lint", errs()); return 3; }
  std::vector<const Function *> work; unsigned roots = 0;
  for (auto &F : *M) if (!F.isDeclaration()) for (int i = 2; i < argc; i++) if (F.getName().contains(argv[i])) { if (reach.insert(&F).second) { work.push_back(&F); roots++; } }
  std::map<std::string, std::string> ext; unsigned insts = 0, stores = 0;
  std::set<const Constant *> cs;
  std::function<void(const Value *)> use = [&](const Value *v) {
    if (auto *F = dyn_cast<Function>(v)) { if (!F->isDeclaration() && reach.insert(F).second) work.push_back(F); return; }
    if (auto *G = dyn_cast<GlobalVariable>(v)) { if (cs.insert(G).second && G->hasInitializer()) use(G->getInitializer()); return; }
    if (auto *K = dyn_cast<Constant>(v)) if (cs.insert(K).second) for (auto &o : K->operands()) use(o);
  };
  while (!work.empty()) { const Function *F = work.back(); work.pop_back();
    for (auto &I : instructions(*F)) { insts++; stores += isa<StoreInst>(I); for (auto &o : I.operands()) use(o.get());
      if (auto *B = dyn_cast<CallBase>(&I)) if (auto *G = B->getCalledFunction()) if (G->isDeclaration() && !G->isIntrinsic()) ext.emplace(G->getName().str(), loc(&I) + " in " + F->getName().str()); } }
  std::cout << "{\"roots\":" << roots << ",\"functions\":" << reach.size() << ",\"instructions\":" << insts << ",\"stores\":" << stores << ",\"globals\":["; int k = 0; unsigned nconst = 0;
  for (auto &G : M->globals()) {
    if (G.isConstant()) { nconst++; continue; }
    if (G.getName().starts_with("llvm.")) continue;
    std::set<const Value *> seen; std::vector<W> w; unsigned loads = 0; writes(&G, seen, w, loads);
    std::cout << (k++ ? "," : "") << "{\"name\":" << js(G.getName().str()) << ",\"defined\":" << (G.isDeclaration() ? "false" : "true") << ",\"tls\":" << (G.isThreadLocal() ? "true" : "false") << ",\"loads\":" << loads << ",\"writes\":[";
    for (size_t i = 0; i < w.size(); i++) std::cout << (i ? "," : "") << "{\"what\":" << js(w[i].what) << ",\"where\":" << js(w[i].where) << ",\"func\":" << js(w[i].func) << "}";
    std::cout << "]}";
  }
  std::cout << "],\"constants\":" << nconst << ",\"external\":{"; k = 0;
  for (auto &p : ext) std::cout << (k++ ? "," : "") << js(p.first) << ":" << js(p.second);
  std::cout << "}}\n";
}
