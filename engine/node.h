// Value domain of the analyser: hash-consed arithmetic terms, finite interval
// sets, and a branch-refined abstract environment.
#pragma once
#include <algorithm>
#include <cassert>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>

typedef uint64_t u64;
typedef int64_t i64;
typedef unsigned __int128 u128;

static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sextw(u64 v, unsigned w) {
  if (w >= 64) return (i64)v;
  u64 m = 1ull << (w - 1);
  v &= maskw(w);
  return (i64)((v ^ m) - m);
}

enum Op : uint8_t {
  CONST, SYM, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, SHL, LSHR, ASHR, AND, OR, XOR,
  ZEXT, SEXT, TRUNC, EQ, ULT, ULE, SLT, SLE, SELECT, LOADT
};

struct Table {            // a constant global, flattened to bytes
  std::string name;
  std::vector<uint8_t> bytes;
  int mb = -1;            // synthesized value map: significant bits of the largest entry
};

struct Sup {              // set of symbols a term depends on
  u64 b[4] = {0, 0, 0, 0};
  bool empty() const { return !(b[0] | b[1] | b[2] | b[3]); }
  void set(unsigned i) { b[i >> 6] |= 1ull << (i & 63); }
  bool test(unsigned i) const { return b[i >> 6] >> (i & 63) & 1; }
  Sup operator|(const Sup &o) const { Sup r; for (int i = 0; i < 4; i++) r.b[i] = b[i] | o.b[i]; return r; }
  bool subsetOf(const Sup &o) const { for (int i = 0; i < 4; i++) if (b[i] & ~o.b[i]) return false; return true; }
  bool intersects(const Sup &o) const { for (int i = 0; i < 4; i++) if (b[i] & o.b[i]) return true; return false; }
  int count() const { int c = 0; for (int i = 0; i < 4; i++) c += __builtin_popcountll(b[i]); return c; }
  bool operator==(const Sup &o) const { return !memcmp(b, o.b, sizeof b); }
  std::vector<int> list() const { std::vector<int> v; for (int i = 0; i < 256; i++) if (test(i)) v.push_back(i); return v; }
};

struct Node {
  Op op; uint8_t w; uint32_t id;
  const Node *a, *b, *c;
  u64 imm; const Table *tab;
  Sup sup; uint8_t mb = 64, tzb = 0;   // static bounds: significant bits, trailing zero bits
  bool isConst() const { return op == CONST; }
};
typedef const Node *N;

// ---- interval sets -------------------------------------------------------
struct ISet {
  std::vector<std::pair<u64, u64>> v;   // sorted, disjoint, non-adjacent
  ISet() {}
  ISet(u64 lo, u64 hi) { if (lo <= hi) v.push_back({lo, hi}); }
  static ISet single(u64 x) { return ISet(x, x); }
  static ISet full(unsigned w) { return ISet(0, maskw(w)); }
  bool empty() const { return v.empty(); }
  bool isSingle() const { return v.size() == 1 && v[0].first == v[0].second; }
  u64 lo() const { return v.front().first; }
  u64 hi() const { return v.back().second; }
  u64 card() const {   // saturating
    u64 c = 0;
    for (auto &p : v) { u64 s = p.second - p.first; if (s == ~0ull) return ~0ull; s++; if (c + s < c) return ~0ull; c += s; }
    return c;
  }
  bool contains(u64 x) const {
    size_t l = 0, h = v.size();
    while (l < h) { size_t m = (l + h) / 2; if (v[m].second < x) l = m + 1; else h = m; }
    return l < v.size() && v[l].first <= x;
  }
  void norm() {
    std::sort(v.begin(), v.end());
    size_t o = 0;
    for (size_t i = 0; i < v.size(); i++) {
      if (o && (v[i].first <= v[o - 1].second || v[i].first - v[o - 1].second == 1)) { if (v[i].second > v[o - 1].second) v[o - 1].second = v[i].second; }
      else v[o++] = v[i];
    }
    v.resize(o);
  }
  void cap(size_t n) {   // over-approximate to at most n intervals
    if (v.size() <= n) return;
    std::vector<std::pair<u64, size_t>> gaps;
    for (size_t i = 1; i < v.size(); i++) gaps.push_back({v[i].first - v[i - 1].second, i});
    std::sort(gaps.begin(), gaps.end(), [](auto &x, auto &y) { return x.first > y.first; });
    std::vector<size_t> cut;
    for (size_t i = 0; i < n - 1 && i < gaps.size(); i++) cut.push_back(gaps[i].second);
    std::sort(cut.begin(), cut.end());
    std::vector<std::pair<u64, u64>> r; size_t s = 0;
    for (size_t c : cut) { r.push_back({v[s].first, v[c - 1].second}); s = c; }
    r.push_back({v[s].first, v.back().second});
    v.swap(r);
  }
  ISet inter(const ISet &o) const {
    ISet r; size_t i = 0, j = 0;
    while (i < v.size() && j < o.v.size()) {
      u64 l = std::max(v[i].first, o.v[j].first), h = std::min(v[i].second, o.v[j].second);
      if (l <= h) r.v.push_back({l, h});
      if (v[i].second < o.v[j].second) i++; else j++;
    }
    return r;
  }
  ISet uni(const ISet &o) const { ISet r; r.v = v; r.v.insert(r.v.end(), o.v.begin(), o.v.end()); r.norm(); return r; }
  ISet minus(const ISet &o) const {
    ISet r;
    size_t j = 0;
    for (auto p : v) {
      u64 l = p.first; bool done = false;
      while (j < o.v.size() && o.v[j].second < l) j++;
      size_t k = j;
      while (k < o.v.size() && o.v[k].first <= p.second) {
        if (o.v[k].first > l) r.v.push_back({l, o.v[k].first - 1});
        if (o.v[k].second >= p.second) { done = true; break; }
        l = o.v[k].second + 1; k++;
      }
      if (!done) r.v.push_back({l, p.second});
    }
    return r;
  }
  bool operator==(const ISet &o) const { return v == o.v; }
  template <class F> bool each(F f) const {   // f returns false to stop
    for (auto &p : v) { u64 x = p.first; for (;;) { if (!f(x)) return false; if (x == p.second) break; x++; } }
    return true;
  }
  std::string strFull() const { std::string s; char b[64]; for (auto &p : v) { if (!s.empty()) s += ","; if (p.first == p.second) snprintf(b, 64, "%llu", (unsigned long long)p.first); else snprintf(b, 64, "%llu-%llu", (unsigned long long)p.first, (unsigned long long)p.second); s += b; } return s; }
  std::string str() const {
    std::string s = "{"; int k = 0; char b[64];
    for (auto &p : v) { if (k++) s += ","; if (k > 8) { s += "..."; break; }
      if (p.first == p.second) snprintf(b, 64, "%#llx", (unsigned long long)p.first); else snprintf(b, 64, "%#llx-%#llx", (unsigned long long)p.first, (unsigned long long)p.second); s += b; }
    return s + "}";
  }
};

// ---- term construction ---------------------------------------------------
struct SymInfo { std::string name; unsigned w; N node; std::shared_ptr<const ISet> init; bool keep = false; /* partitions on it are never rejoined */ };
extern std::vector<SymInfo> SYMS;
N mkConst(u64 v, unsigned w);
struct Limit { const char *why; };
N mkSym(const std::string &name, unsigned w, int *idOut = nullptr);
N mkBin(Op op, N a, N b);
N mkCast(Op op, N a, unsigned w);
N mkCmp(Op op, N a, N b);
N mkNot(N a);
N mkSelect(N c, N a, N b);
N mkLoad(const Table *t, N off, unsigned bytes);
// Exact merge of A (valid while symbol y is in DA) and B (y in DB, disjoint).
N mergeTerm(N A, N B, int y, const ISet &DA, const ISet &DB, N cond);
u64 foldOp(const Node *n, u64 a, u64 b, u64 c);
std::string nodeStr(N n, int depth = 6);
void resetNodes();

// Evaluates terms for all tuples of a finite box, level by level.
struct Evaluator {
  std::vector<int> syms;                 // enumeration order, outer first
  struct Ins { const Node *n; int dst, a, b, c; };
  std::vector<std::vector<Ins>> lev;     // instructions by level (0 = constants)
  std::vector<u64> val;
  std::unordered_map<uint32_t, int> slot;
  std::vector<int> symSlot;
  Evaluator(const std::vector<int> &order) : syms(order), lev(order.size() + 1), symSlot(order.size(), -1) {}
  int add(N n);
  int levelOf(N n) const { int l = 0; for (size_t i = 0; i < syms.size(); i++) if (n->sup.test(syms[i])) l = i + 1; return l; }
  void run(int l) { for (auto &i : lev[l]) val[i.dst] = foldOp(i.n, i.a >= 0 ? val[i.a] : 0, i.b >= 0 ? val[i.b] : 0, i.c >= 0 ? val[i.c] : 0); }
  void setSym(int k, u64 x) { if (symSlot[k] >= 0) val[symSlot[k]] = x; run(k + 1); }
};

// ---- abstract environment ------------------------------------------------
struct Fact { N n; std::shared_ptr<const ISet> s; };
struct Env {
  std::vector<std::shared_ptr<const ISet>> dom;   // by symbol id (null: not introduced)
  std::vector<Fact> facts;                        // relational facts (>=2 symbols)
  std::unordered_map<uint32_t, std::shared_ptr<const ISet>> fmap;
  ISet eval(N n) const;
  bool refine(N n, const ISet &s, bool *exact = nullptr);
  void introduce(int sym, const ISet &d);
  bool consistentQuick() const;
private:
  ISet evalM(N n, std::unordered_map<uint32_t, ISet> &memo) const;
  bool boolSet(N n, int y, const ISet &d, ISet &out, int depth) const;
  bool refineRec(N n, const ISet &s, int depth, bool &exact);
};
// Rewrites every sub-term over a single byte symbol to its value map on the symbol's current domain.
N canonTerm(const Env &e, N n, std::unordered_map<uint32_t, N> &memo);
enum Tri { NO, YES, UNK };
typedef std::vector<std::pair<int, u64>> Witness;   // symbol id -> value
// Is there an assignment in env with  n in set ?   Exact for finite boxes.
Tri existsIn(const Env &env, N n, const ISet &set, u64 limit, Witness *w, int boxes = 300);
// Exact value set of n (up to maxCard values); false when it had to approximate.
bool valuesOf(const Env &env, N n, u64 limit, size_t maxCard, ISet &out);
bool fullWitness(const Env &env, const Witness &seed, u64 limit, Witness &out);
extern u64 STAT_enum, STAT_eval;
