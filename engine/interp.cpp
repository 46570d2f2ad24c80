#include "interp.h"
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/Support/raw_ostream.h>
#include <chrono>
using namespace llvm;

static Module *MOD; static const DataLayout *DL;
struct FnInfo { std::unordered_map<const Value *, int> num; int count = 0; std::set<const BasicBlock *> heads; std::unordered_map<const BasicBlock *, int> depth; std::map<std::pair<const BasicBlock *, const BasicBlock *>, std::vector<const BasicBlock *>> exits; std::unordered_map<const BasicBlock *, std::vector<int>> live; std::unordered_map<const BasicBlock *, std::set<int>> out; std::unordered_map<const Instruction *, std::vector<int>> after; };
static std::unordered_map<const Function *, FnInfo> FN;
struct Tab2 { Table t; std::map<u64, const Constant *> rel; };
static std::unordered_map<const GlobalVariable *, std::unique_ptr<Tab2>> TABS;

static FnInfo &info(const Function *f) {
  auto &x = FN[f];
  if (!x.count) {
    for (auto &a : f->args()) x.num[&a] = x.count++;
    for (auto &I : instructions(*f)) x.num[&I] = x.count++;
    x.count++;
    // loop heads: targets of retreating edges in a depth-first walk
    std::map<const BasicBlock *, int> col; std::vector<std::pair<const BasicBlock *, unsigned>> st;
    st.push_back({&f->getEntryBlock(), 0}); col[&f->getEntryBlock()] = 1;
    while (!st.empty()) {
      auto &top = st.back(); auto *T = top.first->getTerminator();
      if (top.second < T->getNumSuccessors()) { auto *n = T->getSuccessor(top.second++); if (col[n] == 1) x.heads.insert(n); else if (!col[n]) { col[n] = 1; st.push_back({n, 0}); } }
      else { col[top.first] = 2; st.pop_back(); }
    }
    { DominatorTree DT(const_cast<Function &>(*f)); LoopInfo LI(DT);
      for (auto &B : *f) { x.depth[&B] = LI.getLoopDepth(&B); if (auto *L = LI.getLoopFor(&B)) for (auto *sx : successors(&B)) if (!L->contains(sx)) { while (L->getParentLoop() && !L->getParentLoop()->contains(sx)) L = L->getParentLoop(); x.exits[{&B, sx}].assign(L->block_begin(), L->block_end()); L = LI.getLoopFor(&B); } } }
    // liveness (registers live after the phis of each block)
    std::map<const BasicBlock *, std::set<int>> in; bool ch = true;
    while (ch) { ch = false;
      for (auto &B : llvm::reverse(*f)) {
        std::set<int> l;
        for (auto *sx : successors(&B)) { for (int v : in[sx]) l.insert(v);
          for (auto &ph : sx->phis()) l.erase(x.num[&ph]);
        }
        for (auto *sx : successors(&B)) for (auto &ph : sx->phis()) { auto *v = ph.getIncomingValueForBlock(&B); auto it = x.num.find(v); if (it != x.num.end()) l.insert(it->second); }
        x.out[&B] = l;
        for (auto &I : llvm::reverse(B)) { if (isa<PHINode>(I)) continue; l.erase(x.num[&I]); for (auto &o : I.operands()) { auto it = x.num.find(o.get()); if (it != x.num.end()) l.insert(it->second); } }
        if (l != in[&B]) { in[&B] = l; ch = true; }
      } }
    for (auto &p : in) x.live[p.first].assign(p.second.begin(), p.second.end());
  }
  return x;
}
static void flatten(const Constant *c, u64 off, Tab2 &t) {
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto *ci = dyn_cast<ConstantInt>(c)) { unsigned k = DL->getTypeStoreSize(c->getType()); u64 v = ci->getZExtValue(); for (unsigned i = 0; i < k; i++) t.t.bytes[off + i] = v >> (8 * i); return; }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
    u64 es = cd->getElementByteSize();
    for (unsigned i = 0; i < cd->getNumElements(); i++) { if (!cd->getElementType()->isIntegerTy()) return; u64 v = cd->getElementAsInteger(i); for (unsigned k = 0; k < es; k++) t.t.bytes[off + i * es + k] = v >> (8 * k); }
    return; }
  if (auto *ca = dyn_cast<ConstantArray>(c)) { u64 es = DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) flatten(ca->getOperand(i), off + i * es, t); return; }
  if (auto *cs = dyn_cast<ConstantStruct>(c)) { auto *sl = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) flatten(cs->getOperand(i), off + sl->getElementOffset(i), t); return; }
  if (isa<ConstantPointerNull>(c)) return;
  t.rel[off] = c;
}
static Tab2 *tableOf(const GlobalVariable *g) {
  auto &p = TABS[g];
  if (!p) { p = std::make_unique<Tab2>(); p->t.name = g->getName().str(); p->t.bytes.assign(DL->getTypeAllocSize(g->getValueType()), 0); if (g->hasInitializer()) flatten(g->getInitializer(), 0, *p); }
  return p.get();
}
void engineInit(Module *M) { MOD = M; DL = &M->getDataLayout(); }

static std::string locOf(const Instruction *I) {
  if (I) if (auto &d = I->getDebugLoc()) { auto *sc = cast<DIScope>(d->getScope()); std::string f = sc->getFilename().str(); size_t p = f.find("/repo/"); if (p == 0) f = f.substr(6); return f + ":" + std::to_string(d.getLine()); }
  return "?";
}
std::string jsonStr(const std::string &s) { std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }

static const std::vector<int> &liveAfter(FnInfo &fi, const Instruction *at) {   // registers live after a call
  auto it = fi.after.find(at);
  if (it != fi.after.end()) return it->second;
  std::set<int> l = fi.out[at->getParent()];
  for (auto i = at->getParent()->rbegin(); &*i != at; ++i) { l.erase(fi.num[&*i]); for (auto &o : i->operands()) { auto q = fi.num.find(o.get()); if (q != fi.num.end()) l.insert(q->second); } }
  l.erase(fi.num[at]);
  auto &v = fi.after[at]; v.assign(l.begin(), l.end()); return v;
}
struct Refork {};
struct Wait {};
struct Dead {};

struct Interp {
  const Job &J; JobResult &R; std::vector<State> work;
  const std::map<std::string, u64> *wit = nullptr;     // confirmation run
  std::string wantKind; bool hit = false; std::string hitMsg;
  std::map<std::string, ISet> frontier, next;
  std::map<std::string, std::pair<int, std::vector<Violation>>> cand;
  std::chrono::steady_clock::time_point t0;
  State *S = nullptr; const Instruction *CI = nullptr;
  Interp(const Job &j, JobResult &r) : J(j), R(r) { if (j.nojoin > 1) joinMode = 2; t0 = std::chrono::steady_clock::now(); }
  double secs() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }

  Frame &F() { return S->fr.back(); }
  // innermost location inside the analysed library (skip harness frames)
  std::string where(const Instruction *I, std::string *fn) {
    std::string l = locOf(I); if (fn) *fn = I ? I->getFunction()->getName().str() : "";
    return l;
  }
  std::string siteLoc(std::string *fn) {
    const Instruction *I = CI; std::string l = where(I, fn);
    for (int k = (int)S->fr.size() - 1; k > 0 && (l == "?" || l.find("builtins") != std::string::npos); k--) { l = where(S->fr[k].site, fn); }
    return l;
  }
  bool counts(const std::string &kind) { return J.only.empty() || J.only.count(kind); }
  void candidate(const std::string &kind, const std::string &msg, N cond) {   // cond may be null: definite on this path
    if (!counts(kind)) return;
    if (wit) { if (kind == wantKind) { hit = true; hitMsg = msg; } return; }
    std::string fn, loc = siteLoc(&fn);
    std::string key = kind + "|" + loc + "|" + msg;
    { auto it = cand.find(key); if (it != cand.end() && it->second.first >= 4) return; }
    Witness w, full; Tri t;
    if (cond) { t = existsIn(S->env, cond, ISet::single(0), 1 << 22, &w); if (t == NO) { R.obl[kind]++; return; } }
    bool ok = fullWitness(S->env, w, 1 << 20, full);
    if (!ok) for (auto &f : S->env.facts) if (existsIn(S->env, f.n, *f.s, 1 << 20, nullptr) == NO) throw Dead();   // infeasible partition
    static const bool dbg = getenv("RSA_DEBUG");
    if (dbg) { fprintf(stderr, "CAND %s cond=%s ok=%d\n", key.c_str(), cond ? nodeStr(cond, 12).c_str() : "-", ok); for (auto &f : S->env.facts) fprintf(stderr, "   %s in %s\n", nodeStr(f.n, 14).c_str(), f.s->str().c_str()); for (size_t y = 0; y < S->env.dom.size(); y++) if (S->env.dom[y]) fprintf(stderr, "   %s : %s\n", SYMS[y].name.c_str(), S->env.dom[y]->str().c_str()); }
    auto &c = cand[key];
    Violation v; v.kind = kind; v.msg = msg; v.where = loc; v.func = fn;
    for (int k = (int)S->fr.size() - 1; k > 0; k--) v.stack.push_back(S->fr[k].f->getName().str() + " called at " + locOf(S->fr[k].site));
    if (!ok) { c.first++; if (c.second.size() < 4) { v.msg += " [no witness]"; c.second.push_back(v); } return; }
    for (auto &p : full) v.wit.push_back({SYMS[p.first].name, p.second});
    v.notes = S->notes;
    c.first++; c.second.push_back(v);
  }
  // obligation: cond must hold. Continues under the assumption that it does.
  void oblige(N cond, const char *kind, const std::string &msg) {
    if (cond->isConst() && cond->imm) { R.obl[kind]++; return; }
    ISet e = S->env.eval(cond);
    if (e.isSingle() && e.lo() == 1) { R.obl[kind]++; return; }
    candidate(kind, msg, cond);
    if (!S->env.refine(cond, ISet::single(1))) throw Dead();
  }
  [[noreturn]] void fail(const char *kind, const std::string &msg) { candidate(kind, msg, nullptr); throw Dead(); }

  // ---- partitioning on the value of a term
  u64 concretize(N n, const char *what) {
    if (n->isConst()) return n->imm;
    ISet e = S->env.eval(n);
    if (e.isSingle()) return e.lo();
    ISet v; valuesOf(S->env, n, 1 << 20, 600, v);
    if (v.isSingle()) { return v.lo(); }
    if (v.card() > 600) { R.incomplete = true; R.why = std::string("cannot partition ") + what + " at " + locOf(CI) + " " + nodeStr(n) + " in " + v.str(); throw Dead(); }
    v.each([&](u64 x) { State c = *S; if (c.env.refine(n, ISet::single(x))) { c.depthForks++; work.push_back(std::move(c)); } return true; });
    throw Refork();
  }
  bool decide(N c) {
    if (c->isConst()) return c->imm;
    ISet e = S->env.eval(c);
    if (e.empty()) throw Dead();
    if (e.isSingle()) return e.lo();
    bool t = true, f = true;
    if (c->sup.count() > 1) { t = existsIn(S->env, c, ISet::single(1), 1 << 17, nullptr, 8) != NO; f = existsIn(S->env, c, ISet::single(0), 1 << 17, nullptr, 8) != NO; }
    if (t && f && c->sup.count() > 1) {
      std::unordered_map<uint32_t, N> memo; N cc = canonTerm(S->env, c, memo); bool inv = false;
      auto strip = [](N n, bool &i) { if (n->w == 1 && n->op == XOR && n->b->isConst()) { i = !i; return n->a; } return n; };
      if (!cc->isConst()) cc = strip(cc, inv);
      if (cc->isConst()) (cc->imm ? f : t) = false;
      else {
        ISet ce = S->env.eval(cc); if (ce.isSingle()) ((ce.lo() != 0) != inv ? f : t) = false;
        else for (auto &q : S->env.facts) if (q.n->w == 1 && q.s->isSingle()) { bool qi = false; N qc = canonTerm(S->env, q.n, memo); qc = strip(qc, qi); if (qc == cc) { bool v = (q.s->lo() != 0) != qi; (v != inv ? f : t) = false; break; } }
      }
    }
    if (t && f) {
      State o = *S;
      bool ft = S->env.refine(c, ISet::single(1));
      bool ff = o.env.refine(c, ISet::single(0));
      if (ft && ff) { o.depthForks++; S->depthForks++; work.push_back(std::move(o)); throwRetryFalse = false; pendingForkDecided(work.back(), false); return true; }
      if (ft) return true;
      if (ff) { *S = std::move(o); return false; }
      throw Dead();
    }
    if (!t && !f) throw Dead();
    // keep the relational knowledge
    if (!S->env.refine(c, ISet::single(t))) throw Dead();
    return t;
  }
  bool throwRetryFalse = false;
  void pendingForkDecided(State &, bool) {}   // the clone re-executes the same instruction; the recorded fact decides it

  // ---- memory
  Obj &W(int o) { auto &p = S->obj[o]; if (p.use_count() > 1) p = std::make_shared<Obj>(*p); return *p; }
  const Obj &O(int o) { return *S->obj[o]; }
  int newObj(Obj o) { S->obj.push_back(std::make_shared<Obj>(std::move(o))); return S->obj.size() - 1; }
  N c64(u64 v) { return mkConst(v, 64); }
  int globalObj(const GlobalVariable *g) {
    auto it = S->gobj.find(g);
    if (it != S->gobj.end()) return it->second;
    Obj o; o.name = g->getName().str(); o.kind = Obj::GLOBAL; o.gv = g; o.size = c64(DL->getTypeAllocSize(g->getValueType()));
    o.tab = &tableOf(g)->t; o.writable = !g->isConstant(); o.init = Obj::ZERO;
    int id = newObj(o); S->gobj[g] = id;
    return id;
  }
  Val constVal(const Constant *c) {
    if (auto *ci = dyn_cast<ConstantInt>(c)) return Val::I(mkConst(ci->getValue().getLimitedValue(~0ull), ci->getBitWidth()));
    if (isa<ConstantPointerNull>(c)) return Val::P(0, c64(0));
    if (isa<UndefValue>(c)) { Val v; return v; }
    if (auto *f = dyn_cast<Function>(c)) return Val::F(f);
    if (auto *g = dyn_cast<GlobalVariable>(c)) return Val::P(globalObj(g), c64(0));
    if (auto *a = dyn_cast<GlobalAlias>(c)) return constVal(a->getAliasee());
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
      if (auto *gep = dyn_cast<GEPOperator>(ce)) { APInt off(64, 0); Val b = constVal(cast<Constant>(gep->getPointerOperand())); if (gep->accumulateConstantOffset(*DL, off)) { if (b.k == Val::PTR) b.n = mkBin(ADD, b.n, c64(off.getSExtValue())); return b; } }
      if (ce->getOpcode() == Instruction::IntToPtr) { Val b = constVal(ce->getOperand(0)); return Val::P(0, mkCast(ZEXT, b.n, 64)); }
      if (ce->getOpcode() == Instruction::PtrToInt) { Val b = constVal(ce->getOperand(0)); return ptrToInt(b, 64); }
      if (ce->getOpcode() == Instruction::BitCast) return constVal(ce->getOperand(0));
    }
    if (c->getType()->isStructTy() || c->getType()->isArrayTy()) { Val v; v.k = Val::AGG; v.agg = std::make_shared<std::vector<Val>>(); unsigned n = c->getType()->isStructTy() ? c->getType()->getStructNumElements() : c->getType()->getArrayNumElements(); for (unsigned i = 0; i < n; i++) v.agg->push_back(constVal(c->getAggregateElement(i))); return v; }
    return Val();
  }
  Val ev(const Value *v) {
    if (auto *c = dyn_cast<Constant>(v)) return constVal(c);
    return F().regs[FN[F().f].num[v]];
  }
  void set(const Instruction *I, Val v) { F().regs[FN[F().f].num[I]] = std::move(v); }
  N addrSym(int o) { int id; N n = mkSym("addr:" + std::to_string(o), 64, &id); ISet ad(0x100000, 0x7fffffffffffull); if (!SYMS[id].init) SYMS[id].init = std::make_shared<ISet>(ad); S->env.introduce(id, ad); return n; }
  Val ptrToInt(const Val &p, unsigned w) {
    if (p.k == Val::UNDEF) return Val();
    if (p.k == Val::FUNC) return Val::I(mkConst(0x4000, w));
    N n = p.obj ? mkBin(ADD, addrSym(p.obj), p.n) : p.n;
    return Val::I(w < 64 ? mkCast(TRUNC, n, w) : n);
  }
  // make byte-range [off,off+sz) free of partially overlapping cells
  void carve(Obj &o, i64 off, i64 sz) {
    auto it = o.cells.lower_bound(off); if (it != o.cells.begin()) --it;
    std::vector<i64> split;
    for (; it != o.cells.end() && it->first < off + sz; ++it) { i64 s = it->first, e = s + it->second.sz; if (e <= off) continue; split.push_back(s); }
    for (i64 s : split) { Cell c = o.cells[s]; o.cells.erase(s); if (s >= off && s + (i64)c.sz <= off + sz) continue;
      for (unsigned k = 0; k < c.sz; k++) { if (s + k >= off && s + k < off + sz) continue; Cell b; b.sz = 1; if (c.v.k == Val::INT) b.v = Val::I(mkCast(TRUNC, mkBin(LSHR, c.v.n, mkConst(8 * k, c.v.n->w)), 8)); o.cells[s + k] = b; } }
  }
  Val byteAt(int oid, i64 off) {
    const Obj &o = O(oid);
    auto it = o.cells.upper_bound(off);
    if (it != o.cells.begin()) { --it; if (off < it->first + (i64)it->second.sz) { const Cell &c = it->second; if (c.sz == 1) return c.v; if (c.v.k != Val::INT) return Val(); unsigned k = off - it->first; return Val::I(mkCast(TRUNC, mkBin(LSHR, c.v.n, mkConst(8 * k, c.v.n->w)), 8)); } }
    if (o.tab) { if (off >= 0 && off < (i64)o.tab->bytes.size()) return Val::I(mkConst(o.tab->bytes[off], 8)); return Val(); }
    if (o.init == Obj::ZERO) return Val::I(mkConst(0, 8));
    if (o.init == Obj::SYMB) { int id; N n = mkSym(o.name + "[" + std::to_string(off) + "]", 8, &id); intro(id, ISet(0, 255)); return Val::I(n); }
    return Val();
  }
  void intro(int id, ISet d) {
    if (wit) { auto it = wit->find(SYMS[id].name); if (it != wit->end()) d = ISet::single(it->second); else d = ISet::single(d.lo()); }
    if (!SYMS[id].init) SYMS[id].init = std::make_shared<ISet>(d);
    S->env.introduce(id, d);
  }
  void checkRange(const Val &p, N off, u64 k, bool write) {
    const Obj &o = O(p.obj);
    const char *kind = write ? "oob-write" : "oob-read";
    if (o.freed) fail("use-after-free", o.name);
    std::string m = std::string(write ? "write of " : "read of ") + std::to_string(k) + " byte(s) outside " + o.name;
    if (o.size->isConst()) {
      u64 sz = o.size->imm;
      if (sz < k) { candidate(kind, m, nullptr); throw Dead(); }
      oblige(mkCmp(ULE, off, c64(sz - k)), kind, m);
    } else {
      N end = mkBin(ADD, off, c64(k));
      oblige(mkCmp(ULE, end, o.size), kind, m);
    }
    R.sites.insert(std::string(kind) + "@" + locOf(CI));
  }
  void deref(const Val &p, bool write) {
    if (p.k == Val::UNDEF) fail("uninit", "uninitialised pointer dereferenced");
    if (p.k == Val::FUNC) fail("null-deref", "data access through a function pointer");
    if (p.obj == 0) fail("null-deref", std::string(write ? "write through" : "read through") + " a null or invalid pointer");
  }
  Val load(const Val &p, Type *ty) {
    deref(p, false);
    u64 k = DL->getTypeStoreSize(ty);
    if (ty->isStructTy() || ty->isArrayTy()) {
      Val v; v.k = Val::AGG; v.agg = std::make_shared<std::vector<Val>>();
      unsigned n = ty->isStructTy() ? ty->getStructNumElements() : ty->getArrayNumElements();
      for (unsigned i = 0; i < n; i++) { u64 o = ty->isStructTy() ? DL->getStructLayout(cast<StructType>(ty))->getElementOffset(i).getFixedValue() : i * DL->getTypeAllocSize(ty->getArrayElementType()).getFixedValue(); v.agg->push_back(load(Val::P(p.obj, mkBin(ADD, p.n, c64(o))), ty->isStructTy() ? ty->getStructElementType(i) : ty->getArrayElementType())); }
      return v; }
    bool isPtr = ty->isPointerTy();
    unsigned w = isPtr ? 64 : ty->isIntegerTy() ? ty->getIntegerBitWidth() : 0;
    if (!w) return Val();
    const Obj &o = O(p.obj);
    N off = p.n;
    bool pureTab = o.tab && !o.writable;
    if (!pureTab || isPtr) { if (!off->isConst()) { if (pureTab || o.size->isConst()) checkRange(p, off, k, false); off = c64(concretize(off, "address")); } }
    checkRange(p, off, k, false);
    if (pureTab && !isPtr && !off->isConst()) { N n = mkLoad(o.tab, off, k); if (w < n->w) n = mkCast(TRUNC, n, w); return Val::I(n); }
    i64 at = (i64)off->imm;
    auto it = o.cells.find(at);
    if (it != o.cells.end() && it->second.sz == k) { Val v = it->second.v; return fit(v, isPtr, w); }
    if (o.tab && (isPtr || k == 8)) { bool ov = false; for (auto &c : o.cells) if (c.first < at + (i64)k && c.first + (i64)c.second.sz > at) ov = true;
      if (!ov) { auto *t2 = tableOf(o.gv); auto r = t2->rel.find(at); if (r != t2->rel.end()) return fit(constVal(r->second), isPtr, w); } }
    if (isPtr && o.init == Obj::UNINIT) { bool any = false; for (auto &c : o.cells) if (c.first < at + (i64)k && c.first + (i64)c.second.sz > at) any = true; if (!any) return Val(); }
    N r = nullptr;
    for (unsigned i = 0; i < k; i++) { Val b = byteAt(p.obj, at + i); if (b.k != Val::INT) return Val(); N z = mkCast(ZEXT, b.n, k * 8); if (i) z = mkBin(SHL, z, mkConst(8 * i, k * 8)); r = r ? mkBin(OR, r, z) : z; }
    if (w < k * 8) r = mkCast(TRUNC, r, w);
    if (isPtr) return intToPtr(r);
    return Val::I(r);
  }
  Val intToPtr(N r) {
    if (r->w < 64) r = mkCast(ZEXT, r, 64);
    // recover object addresses
    N base = r, off = c64(0);
    if (r->op == ADD) { if (r->a->op == SYM) { base = r->a; off = r->b; } else if (r->b->op == SYM) { base = r->b; off = r->a; } }
    if (base->op == SYM) { const std::string &nm = SYMS[base->imm].name; if (nm.compare(0, 5, "addr:") == 0) return Val::P(atoi(nm.c_str() + 5), off); }
    return Val::P(0, r);
  }
  Val fit(const Val &v, bool isPtr, unsigned w) {
    if (v.k == Val::INT && isPtr) return intToPtr(v.n);
    if ((v.k == Val::PTR || v.k == Val::FUNC) && !isPtr) return ptrToInt(v, w);
    if (v.k == Val::INT && v.n->w != w) return Val::I(v.n->w > w ? mkCast(TRUNC, v.n, w) : mkCast(ZEXT, v.n, w));
    return v;
  }
  void store(const Val &p, const Val &v, Type *ty) {
    deref(p, true);
    if (v.k == Val::AGG) { for (unsigned i = 0; i < v.agg->size(); i++) { u64 o = ty->isStructTy() ? DL->getStructLayout(cast<StructType>(ty))->getElementOffset(i).getFixedValue() : i * DL->getTypeAllocSize(ty->getArrayElementType()).getFixedValue(); store(Val::P(p.obj, mkBin(ADD, p.n, c64(o))), (*v.agg)[i], ty->isStructTy() ? ty->getStructElementType(i) : ty->getArrayElementType()); } return; }
    u64 k = DL->getTypeStoreSize(ty);
    N off = p.n;
    if (!off->isConst()) { checkRange(p, off, k, true); off = c64(concretize(off, "store address")); }
    checkRange(p, off, k, true);
    Obj &o = W(p.obj);
    if (!o.writable) fail("write-const", "write into constant object " + o.name);
    if (o.kind == Obj::GLOBAL) R.reach["global-write:" + o.name]++;
    i64 at = (i64)off->imm;
    carve(o, at, k);
    Cell c; c.v = v; c.sz = k; o.cells[at] = c; S->stores++;
  }
  void memcopy(const Val &d, const Val &s, u64 n) {
    if (!n) return;
    deref(d, true); deref(s, false);
    N so = c64(concretize(s.n, "copy source")), dof = c64(concretize(d.n, "copy dest"));
    checkRange(s, so, n, false); checkRange(d, dof, n, true);
    if (!O(d.obj).writable) fail("write-const", O(d.obj).name);
    i64 sa = so->imm, da = dof->imm;
    std::map<i64, Cell> img;
    const Obj &so_ = O(s.obj);
    for (u64 i = 0; i < n;) {
      auto it = so_.cells.find(sa + i);
      if (it != so_.cells.end() && i + it->second.sz <= n) { img[da + i] = it->second; i += it->second.sz; continue; }
      if (so_.tab) { auto *t2 = tableOf(so_.gv); auto r = t2->rel.find(sa + i); if (r != t2->rel.end() && i + 8 <= n) { img[da + i] = {constVal(r->second), 8}; i += 8; continue; } }
      Val b = byteAt(s.obj, sa + i); img[da + i] = {b, 1}; i++;
    }
    Obj &o = W(d.obj); carve(o, da, n); for (auto &p : img) o.cells[p.first] = p.second; S->stores++;
  }
  // ---- helpers for intrinsics
  std::string cstr(const Val &p) { std::string r; if (p.k != Val::PTR || !p.obj) return r; const Obj &o = O(p.obj); if (!o.tab) return r; for (u64 i = p.n->imm; i < o.tab->bytes.size() && o.tab->bytes[i]; i++) r += (char)o.tab->bytes[i]; return r; }
  N freshSym(const std::string &nm, unsigned w, const ISet &d) {
    int k = S->symCount[nm]++; int id; N n = mkSym(k ? nm + "#" + std::to_string(k) : nm, w, &id); intro(id, d); return n; }
  N intArg(const CallBase *c, unsigned i) { Val v = ev(c->getArgOperand(i)); if (v.k == Val::PTR || v.k == Val::FUNC) v = ptrToInt(v, 64); if (v.k != Val::INT) fail("uninit", "uninitialised value reaches " + c->getCalledOperand()->getName().str()); return v.n; }

  void setRet(const CallBase *c, Val v) { if (!c->getType()->isVoidTy()) set(c, fit(v, c->getType()->isPointerTy(), c->getType()->isIntegerTy() ? c->getType()->getIntegerBitWidth() : 64)); }
  void advance(const CallBase *c) {
    Frame &f = F();
    if (auto *iv = dyn_cast<InvokeInst>(c)) jump(iv->getNormalDest()); else ++f.ip;
  }
  // ---- exceptions: which handler clauses match what was thrown
  static bool catches(const GlobalValue *clause, const GlobalValue *thrown) {
    static const std::map<std::string, std::string> base = {{"_ZTISt12system_error", "_ZTISt13runtime_error"}, {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}};
    if (!clause) return true;
    std::string t = thrown ? thrown->getName().str() : "_ZTISt9bad_alloc";
    for (;;) { if (clause->getName() == t) return true; auto i = base.find(t); if (i == base.end()) return false; t = i->second; }
  }
  int typeId(const Value *v) { auto *g = dyn_cast<GlobalValue>(v->stripPointerCasts()); std::string n = g ? g->getName().str() : ""; auto &m = typeIds; auto it = m.find(n); if (it == m.end()) it = m.emplace(n, (int)m.size() + 1).first; return it->second; }
  std::map<std::string, int> typeIds;
  // 0: this pad does not stop the exception; otherwise its selector (or -1: cleanup)
  int padFor(const LandingPadInst *lp) {
    for (unsigned i = 0; i < lp->getNumClauses(); i++) if (lp->isCatch(i)) {
      auto *g = dyn_cast<GlobalValue>(lp->getClause(i)->stripPointerCasts());
      if (catches(g, S->excType)) return typeId(lp->getClause(i));
    }
    return lp->isCleanup() ? -1 : 0;
  }
  bool enterPad(const CallBase *site) {
    auto *iv = dyn_cast_or_null<InvokeInst>(site); if (!iv) return false;
    if (!padFor(iv->getUnwindDest()->getLandingPadInst())) return false;
    jump(iv->getUnwindDest()); return true;
  }
  void throwEx(Val exc, const CallBase *at = nullptr) {
    S->exc = exc;
    if (enterPad(at)) return;
    while (!S->fr.empty()) {
      const CallBase *site = S->fr.back().site;
      if (S->fr.size() == 1) { R.reach["exception-escapes"]++; fail("escape", "an exception leaves the analysed call"); }
      popFrame();
      if (enterPad(site)) return;
    }
  }
  void popFrame() { for (int o : F().allocas) { W(o).freed = true; W(o).cells.clear(); } S->fr.pop_back(); }

  bool intrinsic(const CallBase *c, const Function *f) {
    StringRef nm = f->getName();
    if (f->isIntrinsic()) {
      switch (f->getIntrinsicID()) {
      case Intrinsic::memcpy: case Intrinsic::memmove: { u64 n = concretize(intArg(c, 2), "copy length"); memcopy(ev(c->getArgOperand(0)), ev(c->getArgOperand(1)), n); break; }
      case Intrinsic::memset: { u64 n = concretize(intArg(c, 2), "fill length"); Val d = ev(c->getArgOperand(0)); Val b = ev(c->getArgOperand(1)); if (n) { deref(d, true); N of = c64(concretize(d.n, "fill dest")); checkRange(d, of, n, true); Obj &o = W(d.obj); if (!o.writable) fail("write-const", o.name); carve(o, of->imm, n); for (u64 i = 0; i < n; i++) o.cells[of->imm + i] = {b, 1}; S->stores++; } break; }
      case Intrinsic::trap: fail("abort", "trap reached");
      case Intrinsic::expect: setRet(c, ev(c->getArgOperand(0))); break;
      case Intrinsic::umul_with_overflow: case Intrinsic::uadd_with_overflow: {
        N a = intArg(c, 0), b = intArg(c, 1); Val v; v.k = Val::AGG; v.agg = std::make_shared<std::vector<Val>>();
        bool mul = f->getIntrinsicID() == Intrinsic::umul_with_overflow;
        N r = mkBin(mul ? MUL : ADD, a, b); v.agg->push_back(Val::I(r));
        v.agg->push_back(Val::I(mul ? mkConst(0, 1) : mkCmp(ULT, r, a))); set(c, v); break; }
      case Intrinsic::usub_with_overflow: {
        N a = intArg(c, 0), b = intArg(c, 1); Val v; v.k = Val::AGG; v.agg = std::make_shared<std::vector<Val>>();
        v.agg->push_back(Val::I(mkBin(SUB, a, b))); v.agg->push_back(Val::I(mkCmp(ULT, a, b))); set(c, v); break; }
      case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
        N a = intArg(c, 0), b = intArg(c, 1); auto id = f->getIntrinsicID(); unsigned w = a->w;
        if (w > 32) { R.incomplete = true; R.why = "intrinsic not modelled: " + nm.str(); throw Dead(); }
        Op op = id == Intrinsic::sadd_with_overflow ? ADD : id == Intrinsic::ssub_with_overflow ? SUB : MUL;
        N wide = mkBin(op, mkCast(SEXT, a, 64), mkCast(SEXT, b, 64)), r = mkBin(op, a, b);
        Val v; v.k = Val::AGG; v.agg = std::make_shared<std::vector<Val>>(); v.agg->push_back(Val::I(r));
        v.agg->push_back(Val::I(decide(mkCmp(EQ, wide, mkCast(SEXT, r, 64))) ? mkConst(0, 1) : mkConst(1, 1))); set(c, v); break; }
      case Intrinsic::usub_sat: { N a = intArg(c, 0), b = intArg(c, 1); setRet(c, decide(mkCmp(ULT, a, b)) ? Val::I(mkConst(0, a->w)) : Val::I(mkBin(SUB, a, b))); break; }
      case Intrinsic::abs: { N a = intArg(c, 0); setRet(c, decide(mkCmp(SLT, a, mkConst(0, a->w))) ? Val::I(mkBin(SUB, mkConst(0, a->w), a)) : Val::I(a)); break; }
      case Intrinsic::is_constant: setRet(c, Val::I(mkConst(0, 1))); break;
      case Intrinsic::objectsize: setRet(c, Val::I(mkConst(~0ull, c->getType()->getIntegerBitWidth()))); break;
      case Intrinsic::ctpop: { N a = intArg(c, 0); N r = mkConst(0, a->w); for (unsigned i = 0; i < a->w; i++) r = mkBin(ADD, r, mkBin(AND, mkBin(LSHR, a, mkConst(i, a->w)), mkConst(1, a->w))); setRet(c, Val::I(r)); break; }
      case Intrinsic::eh_typeid_for: setRet(c, Val::I(mkConst(typeId(c->getArgOperand(0)), 32))); break;
      case Intrinsic::bswap: { N a = intArg(c, 0); unsigned k = a->w / 8; N r = mkConst(0, a->w); for (unsigned i = 0; i < k; i++) { N b = mkCast(ZEXT, mkCast(TRUNC, mkBin(LSHR, a, mkConst(8 * i, a->w)), 8), a->w); r = mkBin(OR, r, mkBin(SHL, b, mkConst(8 * (k - 1 - i), a->w))); } setRet(c, Val::I(r)); break; }
      case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: {
        N a = intArg(c, 0), b = intArg(c, 1); auto id = f->getIntrinsicID();
        N q = mkCmp(id == Intrinsic::umin || id == Intrinsic::umax ? ULT : SLT, a, b);
        bool mn = id == Intrinsic::umin || id == Intrinsic::smin;
        setRet(c, decide(q) == mn ? Val::I(a) : Val::I(b)); break; }
      default:   // debug info, lifetime, assume...
        if (!c->getType()->isVoidTy()) { R.incomplete = true; R.why = "intrinsic not modelled: " + nm.str(); throw Dead(); }
        break;
      }
      advance(c); return true;
    }
    if (nm == "__cxa_allocate_exception") { Obj o; o.name = "exception"; o.kind = Obj::BUF; o.size = intArg(c, 0); o.init = Obj::ZERO; setRet(c, Val::P(newObj(o), c64(0))); advance(c); return true; }
    if (nm == "__cxa_free_exception" || nm == "__cxa_end_catch") { advance(c); return true; }
    if (nm == "__cxa_throw") { S->excType = dyn_cast<GlobalValue>(c->getArgOperand(1)->stripPointerCasts()); throwEx(ev(c->getArgOperand(0)), c); return true; }
    if (nm == "__cxa_begin_catch" || nm == "__cxa_get_exception_ptr") { setRet(c, ev(c->getArgOperand(0))); advance(c); return true; }
    if (nm == "__cxa_rethrow") { throwEx(S->exc, c); return true; }
    if (nm == "_ZSt17__throw_bad_allocv") { S->excType = nullptr; throwEx(Val(), c); return true; }
    if (nm.starts_with("_ZSt20__throw_length_error") || nm.starts_with("_ZSt19__throw_logic_error") || nm.starts_with("_ZSt24__throw_out_of_range_fmt")) fail("abort", "a standard library precondition is violated: " + nm.str());
    if (nm.starts_with("_ZNSt12system_errorC")) { Val t = ev(c->getArgOperand(0)); t.n = mkBin(ADD, t.n, mkConst(16, 64)); store(t, ev(c->getArgOperand(1)), Type::getInt32Ty(c->getContext())); advance(c); return true; }
    if (nm.starts_with("_ZNSt16invalid_argumentC") || nm.starts_with("_ZNSt13runtime_errorC") || nm.starts_with("_ZNSt9exceptionD") || nm.starts_with("_ZNSt12system_errorD") || nm.starts_with("_ZNSt16invalid_argumentD")) { advance(c); return true; }
    if (nm == "_ZNSt3_V215system_categoryEv" || nm == "_ZNSt3_V216generic_categoryEv") { Obj o; o.name = "category"; o.kind = Obj::BUF; o.size = c64(8); o.init = Obj::ZERO; setRet(c, Val::P(newObj(o), c64(0))); advance(c); return true; }
    if (nm == "abort" || nm == "exit" || nm == "_exit" || nm == "__assert_fail" || nm == "_ZSt9terminatev") fail("abort", nm.str() + "() reached");
    if (nm == "__errno_location") { if (!S->errnoObj) { Obj o; o.name = "errno"; o.size = c64(4); o.init = Obj::ZERO; o.kind = Obj::BUF; S->errnoObj = newObj(o); } setRet(c, Val::P(S->errnoObj, c64(0))); advance(c); return true; }
    if (nm == "malloc" || nm == "calloc" || nm == "_Znwm" || nm == "_Znam" || nm == "_ZnwmRKSt9nothrow_t" || nm == "_ZnamRKSt9nothrow_t" || nm == "realloc" || nm == "reallocarray") {
      bool re = nm == "realloc";
      Val old = re ? ev(c->getArgOperand(0)) : Val();
      N sz = intArg(c, re ? 1 : 0); if (nm == "calloc") sz = mkBin(MUL, sz, intArg(c, 1));
      // a caller that mis-sizes an allocation after a failed computation shows up as a huge request
      if (S->mallocFail) {
        std::string key = "allocfail"; int k = S->symCount[key]; int id; N s = mkSym(key + "#" + std::to_string(k), 8, &id); intro(id, ISet(0, 1));
        bool fails = decide(mkCmp(EQ, s, mkConst(1, 8)));
        S->symCount[key]++;
        if (fails) { if (nm == "_Znwm" || nm == "_Znam") { S->excType = nullptr; throwEx(Val(), c); return true; } errnoStore(12); setRet(c, Val::P(0, c64(0))); advance(c); return true; }
      }
      if (re && old.k == Val::PTR && old.obj) {
        bool zero = decide(mkCmp(EQ, sz, c64(0)));
        if (zero) { doFree(old); setRet(c, Val::P(0, c64(0))); advance(c); return true; }
      } else if (re && old.k != Val::PTR) fail("uninit", "realloc of an uninitialised pointer");
      Obj o; o.name = "heap"; o.kind = Obj::HEAP; o.size = sz; o.init = nm == "calloc" ? Obj::ZERO : Obj::UNINIT;
      if (re && old.obj) { const Obj &oo = O(old.obj); if (oo.freed) fail("use-after-free", "realloc of freed memory"); o.cells = oo.cells; }
      if (re && old.obj) doFree(old);
      int id = newObj(o);
      setRet(c, Val::P(id, c64(0))); advance(c); return true;
    }
    if (nm == "free" || nm == "_ZdlPv" || nm == "_ZdlPvm" || nm == "_ZdaPv" || nm == "_ZdaPvm" || nm == "_ZdlPvRKSt9nothrow_t" || nm == "_ZdaPvRKSt9nothrow_t") { Val p = ev(c->getArgOperand(0)); if (p.k == Val::UNDEF) fail("uninit", "free of an uninitialised pointer"); if (p.k == Val::PTR && p.obj == 0 && p.n->isConst() && p.n->imm == 0) { advance(c); return true; } doFree(p); advance(c); return true; }
    if (nm.starts_with("sa_")) return harness(c, nm);
    if (f->isDeclaration()) { R.reach["unknown-call:" + nm.str()]++; R.incomplete = true; R.why = "call to unknown function " + nm.str(); throw Dead(); }
    return false;
  }
  void errnoStore(u64 v) { if (!S->errnoObj) { Obj o; o.name = "errno"; o.size = c64(4); o.init = Obj::ZERO; o.kind = Obj::BUF; S->errnoObj = newObj(o); } Obj &o = W(S->errnoObj); o.cells.clear(); o.cells[0] = {Val::I(mkConst(v, 32)), 4}; }
  void doFree(const Val &p) {
    if (p.k != Val::PTR || !p.obj) fail("bad-free", "free of an invalid pointer");
    const Obj &o = O(p.obj);
    if (o.kind != Obj::HEAP) fail("bad-free", "free of non-heap object " + o.name);
    if (o.freed) fail("double-free", "memory freed twice");
    if (!(p.n->isConst() && p.n->imm == 0)) fail("bad-free", "free of an interior pointer");
    W(p.obj).freed = true;
  }
  bool harness(const CallBase *c, StringRef nm) {
    auto sarg = [&](unsigned i) { return cstr(ev(c->getArgOperand(i))); };
    if (nm == "sa_u8" || nm == "sa_u32" || nm == "sa_u64") {
      unsigned w = nm == "sa_u8" ? 8 : nm == "sa_u32" ? 32 : 64;
      u64 lo = intArg(c, 1)->imm, hi = intArg(c, 2)->imm;
      setRet(c, Val::I(freshSym(sarg(0), w, ISet(lo & maskw(w), hi & maskw(w))))); advance(c); return true; }
    if (nm == "sa_state_in") { std::string k = sarg(0); ISet d = frontier[k]; if (wit) d = ISet::full(64); if (d.empty()) throw Dead(); setRet(c, Val::I(freshSym("state:" + k, 64, d))); advance(c); return true; }
    if (nm == "sa_state_out") { std::string k = sarg(0); N v = intArg(c, 1); ISet s; if (!wit) { if (!valuesOf(S->env, v, 1 << 22, 1 << 17, s)) { R.inexactStates = true; R.outs["inexact-state"] = nodeStr(v) + " " + s.str(); } next[k] = next[k].uni(s); } advance(c); return true; }
    if (nm == "sa_assume") { N v = intArg(c, 0); N b = mkNot(mkCmp(EQ, v, mkConst(0, v->w))); if (!decide(b)) throw Dead(); advance(c); return true; }
    if (nm == "sa_check") { Val v = ev(c->getArgOperand(0)); std::string m = sarg(1); std::string kind = m.substr(0, m.find(':')); if (v.k == Val::UNDEF) { fail(kind.c_str(), m + " (value never set)"); } N x = v.n; if (v.k != Val::INT) x = ptrToInt(v, 64).n; if (getenv("RSA_TERMS")) fprintf(stderr, "check %s: %s\n", m.c_str(), nodeStr(x, 12).c_str()); oblige(mkNot(mkCmp(EQ, x, mkConst(0, x->w))), kind.c_str(), m); R.reach["check:" + m]++; advance(c); return true; }
    if (nm == "sa_reach") { R.reach[sarg(0)]++; advance(c); return true; }
    if (nm == "sa_note") { std::string m = sarg(0); Val v = ev(c->getArgOperand(1)); std::string t = v.k == Val::INT ? (wit ? S->env.eval(v.n).str() : nodeStr(v.n, 5)) : v.k == Val::UNDEF ? "undef" : "ptr"; S->notes.push_back(m + "=" + t); S->steps = 0; advance(c); return true; }
    if (nm == "sa_part") { N v = intArg(c, 0); if (v->op == SYM) SYMS[v->imm].keep = true; u64 x = concretize(v, "partition"); setRet(c, Val::I(mkConst(x, v->w))); advance(c); return true; }
    if (nm == "sa_input" || nm == "sa_output") {
      Obj o; o.name = sarg(0); o.kind = Obj::BUF; o.size = intArg(c, 1); o.init = nm == "sa_input" ? Obj::SYMB : Obj::UNINIT; o.writable = nm != "sa_input";
      setRet(c, Val::P(newObj(o), c64(0))); advance(c); return true; }
    if (nm == "sa_extent") { // 1 + highest written offset
      Val p = ev(c->getArgOperand(0)); i64 m = 0; for (auto &x : O(p.obj).cells) m = std::max<i64>(m, x.first + x.second.sz); setRet(c, Val::I(mkConst(m, 64))); advance(c); return true; }
    if (nm == "sa_written") { Val p = ev(c->getArgOperand(0)); u64 k = concretize(intArg(c, 1), "length"); bool all = true; for (u64 i = 0; i < k; i++) { Val b = byteAt(p.obj, i); if (b.k != Val::INT) all = false; } setRet(c, Val::I(mkConst(all, 32))); advance(c); return true; }
    if (nm == "sa_isundef") { Val p = ev(c->getArgOperand(0)); setRet(c, Val::I(mkConst(p.k == Val::UNDEF, 32))); advance(c); return true; }
    if (nm == "sa_heap_live") { u64 k = 0; for (auto &o : S->obj) if (o->kind == Obj::HEAP && !o->freed) k++; setRet(c, Val::I(mkConst(k, 64))); advance(c); return true; }
    if (nm == "sa_is_live") { Val p = ev(c->getArgOperand(0)); bool l = p.k == Val::PTR && p.obj && O(p.obj).kind == Obj::HEAP && !O(p.obj).freed; setRet(c, Val::I(mkConst(l, 32))); advance(c); return true; }
    if (nm == "sa_objsize") { Val p = ev(c->getArgOperand(0)); setRet(c, Val::I(p.obj ? O(p.obj).size : c64(0))); advance(c); return true; }
    if (nm == "sa_room") { Val p = ev(c->getArgOperand(0)); setRet(c, Val::I(p.k == Val::PTR && p.obj && !O(p.obj).freed ? mkBin(SUB, O(p.obj).size, p.n) : c64(0))); advance(c); return true; }
    if (nm == "sa_alloc_may_fail") { S->mallocFail = intArg(c, 0)->imm; advance(c); return true; }
    if (nm == "sa_freeze") { Val p = ev(c->getArgOperand(0)); W(p.obj).writable = !intArg(c, 1)->imm; advance(c); return true; }
    if (nm == "sa_join") { if (J.nojoin < 2) joinMode = intArg(c, 0)->imm; advance(c); return true; }
    if (nm == "sa_stop") { throw Dead(); }
    if (nm == "sa_throw") { throwEx(Val::P(0, c64(0))); return true; }
    if (nm == "sa_collect") {   // (key, cond, v): every value of v for which cond can hold
      std::string k = sarg(0); N q = intArg(c, 1), v = intArg(c, 2); N b = mkNot(mkCmp(EQ, q, mkConst(0, q->w)));
      if (!wit) { if (existsIn(S->env, b, ISet::single(1), 1 << 22, nullptr) != NO) for (auto &f : S->env.facts) if (existsIn(S->env, f.n, *f.s, 1 << 20, nullptr) == NO) throw Dead();
        Env keep = S->env; if (existsIn(S->env, b, ISet::single(1), 1 << 22, nullptr) != NO && S->env.refine(b, ISet::single(1))) { ISet s; bool ex = valuesOf(S->env, v, 1 << 22, 1 << 20, s); R.collect[k] = R.collect[k].uni(s); if (!ex) { R.reach["inexact:" + k]++; static const bool dbg = getenv("RSA_DEBUG"); if (dbg) { fprintf(stderr, "COLLECT %s v=%s b=%s\n", k.c_str(), nodeStr(v).c_str(), nodeStr(b, 10).c_str()); for (auto &f : S->env.facts) fprintf(stderr, "   %s in %s\n", nodeStr(f.n, 14).c_str(), f.s->str().c_str()); for (size_t y = 0; y < S->env.dom.size(); y++) if (S->env.dom[y]) fprintf(stderr, "   %s : %s\n", SYMS[y].name.c_str(), S->env.dom[y]->str().c_str()); } } } S->env = keep; }
      R.reach["collect:" + k]++; advance(c); return true; }
    if (nm == "sa_out") { std::string k = sarg(0); N v = intArg(c, 1); ISet s; valuesOf(S->env, v, 1 << 22, 1 << 17, s); R.outs[k] += s.str(); advance(c); return true; }
    R.incomplete = true; R.why = "unknown harness intrinsic " + nm.str(); throw Dead();
  }
  void enter(const CallBase *c, const Function *f, const std::vector<Val> &args) {
    if (S->fr.size() > 60) fail("nontermination", "call depth exceeds 60 frames");
    Frame nf; nf.f = f; nf.bb = &f->getEntryBlock(); nf.ip = nf.bb->begin(); nf.site = c; nf.forks0 = S->depthForks; auto &fi = info(f); nf.regs.resize(fi.count);
    unsigned i = 0; for (auto &a : f->args()) { if (i < args.size()) nf.regs[fi.num[&a]] = args[i]; i++; }
    R.funcs.insert(f->getName().str());
    S->fr.push_back(std::move(nf));
  }
  void jump(const BasicBlock *to) {
    Frame &f = F();
    f.prev = f.bb; f.bb = to;
    int &vis = f.visits[to];
    vis++;
    // phis evaluate simultaneously
    std::vector<std::pair<const Instruction *, Val>> upd;
    auto it = to->begin();
    for (; isa<PHINode>(*it); ++it) { auto *ph = cast<PHINode>(&*it); upd.push_back({ph, ev(ph->getIncomingValueForBlock(f.prev))}); }
    for (auto &u : upd) set(u.first, u.second);
    f.ip = it;
    if (vis > 20000) fail("nontermination", "loop does not terminate");
    if (vis > 1 && !wit && joinMode != 2 && FN[f.f].heads.count(to)) S->atHead = true;
    else if (!wit && joinMode != 2 && !J.nojoin && S->depthForks != f.forks0) {
      auto &ex = FN[f.f].exits; auto e = ex.find({f.prev, to});
      if (e != ex.end()) { for (auto *b : e->second) f.visits.erase(b); if (!to->phis().empty()) S->atHead = S->exitJoin = true; }
    }
  }
  // ---- joining partitions at loop heads
  struct Diff { Val *a; const Val *b; };
  bool sameVal(Val &a, const Val &b, std::vector<Diff> &d) {
    if (a == b) return true;
    if (a.k == Val::INT && b.k == Val::INT && a.n->w == b.n->w) { d.push_back({&a, &b}); return true; }
    if (a.k == Val::PTR && b.k == Val::PTR && a.obj == b.obj) { return false; }
    if (a.k == Val::AGG && b.k == Val::AGG && a.agg->size() == b.agg->size()) { for (size_t i = 0; i < a.agg->size(); i++) if (!((*a.agg)[i] == (*b.agg)[i])) return false; return true; }
    return false;
  }
  static N inSet(N s, const ISet &d) {
    N r = nullptr;
    for (auto &p : d.v) { N c = p.first == p.second ? mkCmp(EQ, s, mkConst(p.first, s->w)) : mkCmp(ULE, mkBin(SUB, s, mkConst(p.first, s->w)), mkConst(p.second - p.first, s->w)); r = r ? mkBin(OR, r, c) : c; }
    return r;
  }
  // Merges B into A when nothing (or, in join mode, only input history) is lost.
  bool tryMerge(State &A, const State &B) {
    bool byteOnly = B.exitJoin;   // after a loop or call: only where the difference becomes a table over one byte
    if (A.fr.size() != B.fr.size() || A.obj.size() != B.obj.size() || A.symCount != B.symCount || A.mallocFail != B.mallocFail || A.errnoObj != B.errnoObj) return false;
    std::vector<Diff> d;
    for (size_t i = 0; i < A.fr.size(); i++) {
      Frame &x = A.fr[i]; const Frame &y = B.fr[i];
      if (x.f != y.f || x.bb != y.bb || x.site != y.site || x.ip != y.ip) return false;
      if (i + 1 < A.fr.size()) { for (int r : liveAfter(FN[x.f], &*x.ip)) if (!(x.regs[r] == y.regs[r]) && !sameVal(x.regs[r], y.regs[r], d)) return false; }
      else if (const Instruction *cl = x.ip == x.bb->begin() ? nullptr : &*std::prev(x.ip); cl && isa<CallBase>(cl)) {   // back from a call
        auto &fi = FN[x.f]; int q = fi.num[cl]; if (!sameVal(x.regs[q], y.regs[q], d)) return false;
        for (int r : liveAfter(fi, cl)) if (!(x.regs[r] == y.regs[r]) && !sameVal(x.regs[r], y.regs[r], d)) return false; }
      else { auto &fi = FN[x.f]; for (auto &ph : x.bb->phis()) { int r = fi.num[&ph]; if (!sameVal(x.regs[r], y.regs[r], d)) return false; } for (int r : fi.live[x.bb]) if (!(x.regs[r] == y.regs[r]) && !sameVal(x.regs[r], y.regs[r], d)) return false; }
    }
    std::vector<std::pair<int, std::pair<i64, Val>>> memd;
    for (size_t i = 1; i < A.obj.size(); i++) {
      if (A.obj[i] == B.obj[i]) continue;
      Obj &x = *A.obj[i]; const Obj &y = *B.obj[i];
      if (x.freed && y.freed) continue;
      if (x.freed != y.freed || x.size != y.size || x.writable != y.writable || x.cells.size() != y.cells.size()) return false;
      auto q = y.cells.begin();
      for (auto p = x.cells.begin(); p != x.cells.end(); ++p, ++q) { if (p->first != q->first || p->second.sz != q->second.sz) return false; if (p->second.v == q->second.v) continue;
        if (p->second.v.k == Val::INT && q->second.v.k == Val::INT && p->second.v.n->w == q->second.v.n->w) memd.push_back({(int)i, {p->first, q->second.v}}); else return false; }
    }
    // environments
    std::vector<int> ds;
    size_t nd = std::max(A.env.dom.size(), B.env.dom.size());
    auto domB = [&](size_t i) { return i < B.env.dom.size() && B.env.dom[i] ? B.env.dom[i] : SYMS[i].init; };
    if (A.env.dom.size() < nd) A.env.dom.resize(nd);
    for (size_t i = 0; i < nd; i++) {
      bool hb = i < B.env.dom.size() && B.env.dom[i];
      if (!A.env.dom[i] && !hb) continue;
      auto da = A.env.dom[i] ? A.env.dom[i] : SYMS[i].init, db = domB(i);
      if (da != db && !(*da == *db)) { if (SYMS[i].keep) return false; ds.push_back(i); }
    }
    auto fixA = [&]() { for (size_t i = 0; i < nd; i++) if (!A.env.dom[i] && i < B.env.dom.size() && B.env.dom[i]) A.env.dom[i] = SYMS[i].init; };
    bool sameFacts = A.env.facts.size() == B.env.facts.size();
    if (sameFacts) for (auto &f : A.env.facts) { auto it = B.env.fmap.find(f.n->id); if (it == B.env.fmap.end() || !(*it->second == *f.s)) { sameFacts = false; break; } }
    bool anyDiff = !d.empty() || !memd.empty();
    if (sameFacts && ds.empty() && !anyDiff) { fixA(); return true; }            // duplicate
    if (sameFacts && ds.size() == 1) {
      fixA();
      int y = ds[0]; const ISet da = *A.env.dom[y], db = *domB(y);
      if (da.inter(db).empty() && (!anyDiff || (da.v.size() <= 8 && !byteOnly) || (da.hi() <= 255 && db.hi() <= 255))) {
        if (anyDiff) {
          N c = inSet(SYMS[y].node, da);
          for (auto &x : d) *x.a = Val::I(mergeTerm(x.a->n, x.b->n, y, da, db, c));
          for (auto &m : memd) { if (A.obj[m.first].use_count() > 1) A.obj[m.first] = std::make_shared<Obj>(*A.obj[m.first]); Cell &cl = A.obj[m.first]->cells[m.second.first]; cl.v = Val::I(mergeTerm(cl.v.n, m.second.second.n, y, da, db, c)); }
        }
        A.env.dom[y] = std::make_shared<ISet>(da.uni(db)); R.merges++; return true;
      }
      if (!anyDiff) { A.env.dom[y] = std::make_shared<ISet>(da.uni(db)); R.merges++; return true; }
    }
    if (joinMode == 1 && !anyDiff) {
      fixA();
      for (int y : ds) A.env.dom[y] = std::make_shared<ISet>(A.env.dom[y]->uni(*domB(y)));
      std::vector<Fact> keep; std::unordered_map<uint32_t, std::shared_ptr<const ISet>> km;
      for (auto &f : A.env.facts) { auto it = B.env.fmap.find(f.n->id); if (it == B.env.fmap.end()) continue; auto u = std::make_shared<ISet>(f.s->uni(*it->second)); keep.push_back({f.n, u}); km[f.n->id] = u; }
      A.env.facts = keep; A.env.fmap = km; R.merges++; return true;
    }
    return false;
  }
  int joinMode = 0;   // 0: merge when nothing is lost, 1: also drop input history, 2: never merge
  std::map<std::vector<i64>, std::vector<State>> waiting;
  std::vector<i64> waitKey(const State &s) { std::vector<i64> k; i64 tot = 0; k.push_back(-(i64)s.fr.size()); k.push_back(-FN[s.fr.back().f].depth[s.fr.back().bb]); for (auto &f : s.fr) for (auto &v : f.visits) if (FN[f.f].heads.count(v.first)) tot += v.second; k.push_back(tot); for (auto &f : s.fr) { k.push_back((i64)f.bb); auto it = f.visits.find(f.bb); k.push_back(it == f.visits.end() ? 0 : it->second); } return k; }
  Val binop(const BinaryOperator *B) {
    Val a = ev(B->getOperand(0)), b = ev(B->getOperand(1));
    unsigned w = B->getType()->isIntegerTy() ? B->getType()->getIntegerBitWidth() : 0;
    if (!w || w > 64) return Val();
    if (a.k == Val::PTR || a.k == Val::FUNC) a = ptrToInt(a, w);
    if (b.k == Val::PTR || b.k == Val::FUNC) b = ptrToInt(b, w);
    if (a.k != Val::INT || b.k != Val::INT) return Val();
    Op op;
    switch (B->getOpcode()) {
    case Instruction::Add: op = ADD; break; case Instruction::Sub: op = SUB; break; case Instruction::Mul: op = MUL; break;
    case Instruction::UDiv: op = UDIV; break; case Instruction::SDiv: op = SDIV; break; case Instruction::URem: op = UREM; break; case Instruction::SRem: op = SREM; break;
    case Instruction::Shl: op = SHL; break; case Instruction::LShr: op = LSHR; break; case Instruction::AShr: op = ASHR; break;
    case Instruction::And: op = AND; break; case Instruction::Or: op = OR; break; case Instruction::Xor: op = XOR; break;
    default: return Val();
    }
    if (op >= UDIV && op <= SREM) oblige(mkNot(mkCmp(EQ, b.n, mkConst(0, w))), "div-zero", "division by zero");
    if (op >= SHL && op <= ASHR) oblige(mkCmp(ULT, b.n, mkConst(w, w)), "shift-range", "shift amount out of range");
    if (op == LSHR && b.n->isConst() && !a.n->isConst()) return Val::I(shr(a.n, b.n->imm));
    return Val::I(mkBin(op, a.n, b.n));
  }
  // right shift, dropping parts that the current environment bounds below the shift
  N shr(N a, u64 k) {
    unsigned w = a->w;
    if (a->op == OR && k) {
      ISet l = S->env.eval(a->a), r = S->env.eval(a->b);
      if (!l.empty() && l.hi() <= maskw(k)) return shr(a->b, k);
      if (!r.empty() && r.hi() <= maskw(k)) return shr(a->a, k);
    }
    if (a->op == SHL && a->b->isConst() && k) {
      u64 j = a->b->imm; ISet l = S->env.eval(a->a);
      if (!l.empty() && l.hi() <= maskw(w - j)) return j <= k ? shr(a->a, k - j) : mkBin(SHL, a->a, mkConst(j - k, w));
    }
    return mkBin(LSHR, a, mkConst(k, w));
  }
  Val icmp(const ICmpInst *C) {
    Val a = ev(C->getOperand(0)), b = ev(C->getOperand(1));
    if (a.k == Val::UNDEF || b.k == Val::UNDEF) return Val();
    auto pr = C->getPredicate();
    N x, y;
    bool ap = a.k == Val::PTR || a.k == Val::FUNC, bp = b.k == Val::PTR || b.k == Val::FUNC;
    if (ap || bp) {
      if (a.k == Val::PTR && b.k == Val::PTR && a.obj == b.obj) { x = a.n; y = b.n; }
      else if (pr == CmpInst::ICMP_EQ || pr == CmpInst::ICMP_NE) {
        if (a.k == Val::FUNC && b.k == Val::FUNC) return Val::I(mkConst((a.f == b.f) == (pr == CmpInst::ICMP_EQ), 1));
        // a live object never equals null, an absolute pointer or another object
        return Val::I(mkConst(pr == CmpInst::ICMP_NE, 1));
      } else { x = ptrToInt(a, 64).n; y = ptrToInt(b, 64).n; }
    } else { x = a.n; y = b.n; }
    switch (pr) {
    case CmpInst::ICMP_EQ: return Val::I(mkCmp(EQ, x, y)); case CmpInst::ICMP_NE: return Val::I(mkNot(mkCmp(EQ, x, y)));
    case CmpInst::ICMP_ULT: return Val::I(mkCmp(ULT, x, y)); case CmpInst::ICMP_ULE: return Val::I(mkCmp(ULE, x, y));
    case CmpInst::ICMP_UGT: return Val::I(mkCmp(ULT, y, x)); case CmpInst::ICMP_UGE: return Val::I(mkCmp(ULE, y, x));
    case CmpInst::ICMP_SLT: return Val::I(mkCmp(SLT, x, y)); case CmpInst::ICMP_SLE: return Val::I(mkCmp(SLE, x, y));
    case CmpInst::ICMP_SGT: return Val::I(mkCmp(SLT, y, x)); case CmpInst::ICMP_SGE: return Val::I(mkCmp(SLE, y, x));
    default: return Val();
    }
  }
  // executes one instruction; may throw Refork / Dead
  void step() {
    const Instruction *I = &*F().ip; CI = I;
    S->steps++; R.steps++;
    switch (I->getOpcode()) {
    case Instruction::Alloca: { auto *A = cast<AllocaInst>(I); Obj o; o.name = "local " + A->getName().str(); o.kind = Obj::STACK; o.size = c64(DL->getTypeAllocSize(A->getAllocatedType())); int id = newObj(o); F().allocas.push_back(id); set(I, Val::P(id, c64(0))); ++F().ip; return; }
    case Instruction::Load: { Val v = load(ev(I->getOperand(0)), I->getType()); set(I, v); ++F().ip; return; }
    case Instruction::Store: { store(ev(I->getOperand(1)), ev(I->getOperand(0)), I->getOperand(0)->getType()); ++F().ip; return; }
    case Instruction::GetElementPtr: {
      auto *G = cast<GetElementPtrInst>(I); Val b = ev(G->getPointerOperand());
      if (b.k == Val::UNDEF) { set(I, Val()); ++F().ip; return; }
      if (b.k == Val::FUNC) { set(I, b); ++F().ip; return; }
      N off = b.n;
      for (auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi) {
        if (StructType *st = gi.getStructTypeOrNull()) { unsigned k = cast<ConstantInt>(gi.getOperand())->getZExtValue(); off = mkBin(ADD, off, c64(DL->getStructLayout(st)->getElementOffset(k))); continue; }
        Val ix = ev(gi.getOperand()); if (ix.k == Val::UNDEF) fail("uninit", "uninitialised index");
        if (ix.k != Val::INT) ix = ptrToInt(ix, 64);
        N n = ix.n->w < 64 ? mkCast(SEXT, ix.n, 64) : ix.n; u64 es = DL->getTypeAllocSize(gi.getIndexedType());
        off = mkBin(ADD, off, mkBin(MUL, n, c64(es)));
      }
      set(I, Val::P(b.obj, off)); ++F().ip; return; }
    case Instruction::ICmp: { Val v = icmp(cast<ICmpInst>(I)); set(I, v); ++F().ip; return; }
    case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: { Val v = ev(I->getOperand(0)); if (v.k == Val::PTR) v = ptrToInt(v, 64); if (v.k == Val::INT) v = Val::I(mkCast(I->getOpcode() == Instruction::ZExt ? ZEXT : I->getOpcode() == Instruction::SExt ? SEXT : TRUNC, v.n, I->getType()->getIntegerBitWidth())); set(I, v); ++F().ip; return; }
    case Instruction::PtrToInt: { set(I, ptrToInt(ev(I->getOperand(0)), I->getType()->getIntegerBitWidth())); ++F().ip; return; }
    case Instruction::IntToPtr: { Val v = ev(I->getOperand(0)); set(I, v.k == Val::INT ? intToPtr(v.n) : v); ++F().ip; return; }
    case Instruction::BitCast: case Instruction::Freeze: { Val v = ev(I->getOperand(0)); set(I, v); ++F().ip; return; }
    case Instruction::Select: { Val c = ev(I->getOperand(0)); if (c.k == Val::UNDEF) fail("uninit", "selection on an uninitialised value"); Val a = ev(I->getOperand(1)), b = ev(I->getOperand(2));
      if (c.n->isConst() || a.k != Val::INT || b.k != Val::INT) { bool t = decide(c.n); set(I, t ? a : b); } else set(I, Val::I(mkSelect(c.n, a.n, b.n))); ++F().ip; return; }
    case Instruction::Br: { auto *B = cast<BranchInst>(I); if (B->isUnconditional()) { jump(B->getSuccessor(0)); return; }
      Val c = ev(B->getCondition()); if (c.k == Val::UNDEF) fail("uninit", "branch on an uninitialised value"); bool t = decide(c.n); jump(B->getSuccessor(t ? 0 : 1)); return; }
    case Instruction::Switch: { auto *W = cast<SwitchInst>(I); Val c = ev(W->getCondition()); if (c.k == Val::UNDEF) fail("uninit", "switch on an uninitialised value");
      ISet e = S->env.eval(c.n); if (e.isSingle()) { jump(W->findCaseValue(ConstantInt::get(cast<IntegerType>(W->getCondition()->getType()), e.lo()))->getCaseSuccessor()); return; }
      std::map<const BasicBlock *, ISet> by; ISet rest = ISet::full(c.n->w);
      for (auto &cs : W->cases()) { u64 v = cs.getCaseValue()->getZExtValue(); rest = rest.minus(ISet::single(v)); by[cs.getCaseSuccessor()] = by[cs.getCaseSuccessor()].uni(ISet::single(v)); }
      by[W->getDefaultDest()] = by[W->getDefaultDest()].uni(rest);
      std::vector<std::pair<const BasicBlock *, State>> outs;
      for (auto &p : by) { State s2 = *S; if (existsIn(s2.env, c.n, p.second, 1 << 16, nullptr, 8) != NO && s2.env.refine(c.n, p.second)) outs.push_back({p.first, std::move(s2)}); }
      if (outs.empty()) throw Dead();
      for (size_t i = 1; i < outs.size(); i++) { State *keep = S; S = &outs[i].second; S->depthForks++; jump(outs[i].first); work.push_back(std::move(*S)); S = keep; }
      *S = std::move(outs[0].second); if (outs.size() > 1) S->depthForks++; jump(outs[0].first); return; }
    case Instruction::Ret: {
      Val v; if (I->getNumOperands()) v = ev(I->getOperand(0));
      const CallBase *c = F().site; bool rejoin = !wit && joinMode != 2 && !J.nojoin && S->depthForks != F().forks0 && !FN[F().f].heads.empty(); popFrame();
      if (S->fr.empty()) return;
      if (!c->getType()->isVoidTy()) set(c, v);
      advance(c); if (rejoin) S->atHead = S->exitJoin = true; return; }
    case Instruction::Call: case Instruction::Invoke: {
      auto *C = cast<CallBase>(I); const Function *f = C->getCalledFunction();
      if (C->isInlineAsm()) { ++F().ip; return; }
      if (!f) { Val t = ev(C->getCalledOperand()); if (t.k == Val::FUNC) f = t.f; else if (t.k == Val::UNDEF) fail("uninit", "call through an uninitialised pointer"); else fail("null-deref", "call through a null or invalid function pointer"); }
      if (f->isIntrinsic() || f->isDeclaration() || f->getName().starts_with("sa_") || f->getName().starts_with("_ZNSt12system_errorC")) { if (intrinsic(C, f)) return; }
      std::vector<Val> args; for (auto &a : C->args()) args.push_back(ev(a));
      enter(C, f, args); return; }
    case Instruction::ExtractValue: { auto *E = cast<ExtractValueInst>(I); Val v = ev(E->getAggregateOperand()); for (unsigned k : E->indices()) { if (v.k != Val::AGG) { v = Val(); break; } Val t = (*v.agg)[k]; v = t; } set(I, v); ++F().ip; return; }
    case Instruction::InsertValue: { auto *E = cast<InsertValueInst>(I); Val v = ev(E->getAggregateOperand()), x = ev(E->getInsertedValueOperand()); Type *t = E->getType(); Val r; r.k = Val::AGG; r.agg = std::make_shared<std::vector<Val>>(v.k == Val::AGG ? *v.agg : std::vector<Val>(t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements())); if (E->getNumIndices() == 1) (*r.agg)[E->getIndices()[0]] = x; set(I, r); ++F().ip; return; }
    case Instruction::LandingPad: { Val r; r.k = Val::AGG; r.agg = std::make_shared<std::vector<Val>>(); r.agg->push_back(S->exc.k == Val::UNDEF ? Val::P(0, c64(0x7000)) : S->exc); int sel = padFor(cast<LandingPadInst>(I)); r.agg->push_back(Val::I(mkConst(sel < 0 ? 0 : sel, 32))); set(I, r); ++F().ip; return; }
    case Instruction::Resume: throwEx(S->exc); return;
    case Instruction::Unreachable: fail("abort", "unreachable code reached");
    default:
      if (auto *B = dyn_cast<BinaryOperator>(I)) { set(I, binop(B)); ++F().ip; return; }
      R.incomplete = true; R.why = std::string("unsupported instruction ") + I->getOpcodeName() + " at " + locOf(I); throw Dead();
    }
  }
  void explore() {
    const Function *f = MOD->getFunction(J.func);
    if (!f || f->isDeclaration()) { R.incomplete = true; R.why = "harness entry " + J.func + " not found"; return; }
    State s0; s0.obj.push_back(std::make_shared<Obj>());
    S = &s0; std::vector<Val> args; unsigned i = 0;
    for (auto &a : f->args()) { args.push_back(Val::I(mkConst(i < J.args.size() ? J.args[i] : 0, a.getType()->getIntegerBitWidth()))); i++; }
    enter(nullptr, f, args);
    work.push_back(std::move(s0));
    u64 paths = 0;
    while (!work.empty() || !waiting.empty()) {
      if (work.empty()) { auto it = waiting.begin(); for (auto &s : it->second) work.push_back(std::move(s)); waiting.erase(it); }
      State cur = std::move(work.back()); work.pop_back(); S = &cur;
      try {
        while (!cur.fr.empty()) {
          if (cur.atHead) {
            cur.atHead = false;
            auto k = waitKey(cur); auto &grp = waiting[k]; bool m = false;
            for (auto &g : grp) if (tryMerge(g, cur)) { m = true; break; }
            cur.exitJoin = false;
            if (!m) grp.push_back(std::move(cur));
            throw Wait();
          }
          step();
          if (cur.steps > (wit ? 3000000u : 1000000u)) fail("nontermination", "more than a million steps on one partition");
          if (!(cur.steps & 1023) && secs() > J.maxSec) { R.incomplete = true; R.why = "time budget"; work.clear(); waiting.clear(); return; }
        }
        paths++;
      } catch (Refork &) {
      } catch (Wait &) {
      } catch (Dead &) { paths++; }
      catch (Limit &l) { R.incomplete = true; R.why = l.why; work.clear(); waiting.clear(); break; }
      if (wit && hit) return;
      if (paths + R.paths > J.maxPaths) { R.incomplete = true; R.why = "partition budget"; work.clear(); waiting.clear(); break; }
      if (secs() > J.maxSec) { R.incomplete = true; R.why = "time budget"; work.clear(); waiting.clear(); break; }
    }
    R.paths += paths;
  }
};

JobResult runJob(const Job &j) {
  JobResult R; resetNodes(); u64 e0 = STAT_enum;
  Interp in(j, R);
  std::map<std::string, ISet> all = j.init; in.frontier = j.init;
  if (in.frontier.empty()) { in.explore(); R.iters = 1; }
  else for (int it = 0; it < 200; it++) {
    in.next.clear(); in.explore(); R.iters++;
    bool any = false;
    for (auto &p : in.next) { ISet nw = p.second.minus(all[p.first]); all[p.first] = all[p.first].uni(p.second); p.second = nw; if (!nw.empty()) any = true; }
    if (!j.universe.empty()) { for (auto &p : in.next) { auto u = j.universe.find(p.first); if (u != j.universe.end() && !p.second.minus(u->second).empty()) { R.incomplete = true; R.why = "state outside the analysed set: " + p.second.minus(u->second).str(); } } break; }
    if (!any || R.incomplete) break;
    in.frontier = in.next;
    for (auto &p : j.init) if (!in.frontier.count(p.first)) in.frontier[p.first] = ISet();
  }
  for (auto &p : all) R.states[p.first] = p.second.strFull();
  // confirm candidates by re-analysing from the entry with the witness as a point partition
  for (auto &c : in.cand) {
    bool ok = false; std::string why;
    for (auto &v : c.second.second) {
      if (v.wit.empty() && v.msg.find("[no witness]") != std::string::npos) { why = v.msg; continue; }
      std::map<std::string, u64> w; for (auto &p : v.wit) w[p.first] = p.second;
      JobResult R2; Job j2 = j; j2.maxPaths = 2000; j2.maxSec = 60;
      Interp ci(j2, R2); ci.wit = &w; ci.wantKind = v.kind; ci.frontier = j.init;
      for (auto &f : ci.frontier) f.second = ISet::full(64);
      ci.explore();
      if (ci.hit) { v.confirmed = true; R.viol.push_back(v); ok = true; break; }
      why = v.msg + " (witness not confirmed)";
    }
    if (!ok) R.undecided.push_back(c.first + " " + why);
  }
  R.enums = STAT_enum - e0;
  return R;
}
