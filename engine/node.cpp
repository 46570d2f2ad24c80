#include "node.h"
#include <unordered_set>

std::vector<SymInfo> SYMS;
u64 STAT_enum = 0, STAT_eval = 0;

// ---- hash-consing --------------------------------------------------------
struct NKey { Op op; uint8_t w; N a, b, c; u64 imm; const Table *t;
  bool operator==(const NKey &o) const { return op == o.op && w == o.w && a == o.a && b == o.b && c == o.c && imm == o.imm && t == o.t; } };
struct NHash { size_t operator()(const NKey &k) const {
  size_t h = k.op * 131 + k.w; auto mix = [&](size_t x) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); };
  mix((size_t)k.a); mix((size_t)k.b); mix((size_t)k.c); mix(k.imm); mix((size_t)k.t); return h; } };
static std::unordered_map<NKey, N, NHash> POOL;
static uint32_t NEXT = 1;
static std::unordered_map<std::string, int> SYMID;

static unsigned tz(N n);
static unsigned mbOf(const Node *n) {
  unsigned w = n->w; auto mn = [](unsigned a, unsigned b) { return a < b ? a : b; };
  switch (n->op) {
  case CONST: return n->imm ? 64 - __builtin_clzll(n->imm) : 0;
  case ZEXT: return n->a->mb;
  case TRUNC: return mn(w, n->a->mb);
  case AND: return mn(n->a->mb, n->b->mb);
  case OR: case XOR: return std::max(n->a->mb, n->b->mb);
  case ADD: return mn(w, std::max(n->a->mb, n->b->mb) + 1);
  case MUL: return mn(w, n->a->mb + n->b->mb);
  case SHL: return n->b->isConst() ? mn(w, n->a->mb + n->b->imm) : w;
  case LSHR: return n->b->isConst() ? (n->a->mb > n->b->imm ? n->a->mb - n->b->imm : 0) : n->a->mb;
  case UDIV: return n->a->mb;
  case UREM: return mn(n->a->mb, n->b->mb);
  case SELECT: return std::max(n->b->mb, n->c->mb);
  case EQ: case ULT: case ULE: case SLT: case SLE: return 1;
  case LOADT: return n->tab->mb >= 0 ? n->tab->mb : w;
  default: return w;
  }
}
static N intern(Op op, unsigned w, N a, N b, N c, u64 imm, const Table *t, int symid = -1) {
  NKey k{op, (uint8_t)w, a, b, c, imm, t};
  auto it = POOL.find(k);
  if (it != POOL.end()) return it->second;
  Node *n = new Node{op, (uint8_t)w, NEXT++, a, b, c, imm, t, Sup()};
  if (a) n->sup = n->sup | a->sup;
  if (b) n->sup = n->sup | b->sup;
  if (c) n->sup = n->sup | c->sup;
  if (symid >= 0) n->sup.set(symid);
  n->mb = mbOf(n); n->tzb = tz(n);
  POOL[k] = n;
  return n;
}
struct CKey { uint32_t id; const ISet *d; bool operator==(const CKey &o) const { return id == o.id && d == o.d; } };
struct CHash { size_t operator()(const CKey &k) const { return k.id * 0x9e3779b97f4a7c15ull ^ (size_t)k.d; } };
struct CVal { std::shared_ptr<const ISet> keep; ISet r; };
static std::unordered_map<CKey, CVal, CHash> ECACHE;

void resetNodes() {
  ECACHE.clear();
  for (auto &p : POOL) delete p.second;
  POOL.clear(); SYMS.clear(); SYMID.clear(); NEXT = 1;
}

N mkConst(u64 v, unsigned w) { return intern(CONST, w, 0, 0, 0, v & maskw(w), 0); }
N mkSym(const std::string &name, unsigned w, int *idOut) {
  auto it = SYMID.find(name);
  if (it != SYMID.end()) { if (idOut) *idOut = it->second; return SYMS[it->second].node; }
  int id = SYMS.size();
  if (id >= 256) throw Limit{"too many symbols"};
  N n = intern(SYM, w, 0, 0, 0, id, 0, id);
  SYMS.push_back({name, w, n, nullptr}); SYMID[name] = id;
  if (idOut) *idOut = id;
  return n;
}

u64 foldOp(const Node *n, u64 a, u64 b, u64 c) {
  unsigned w = n->w;
  switch (n->op) {
  case CONST: return n->imm;
  case SYM: return 0;
  case ADD: return (a + b) & maskw(w);
  case SUB: return (a - b) & maskw(w);
  case MUL: return (a * b) & maskw(w);
  case UDIV: return b ? a / b : 0;
  case SDIV: { i64 x = sextw(a, w), y = sextw(b, w); if (!y) return 0; if (y == -1) return (0 - (u64)x) & maskw(w); return (u64)(x / y) & maskw(w); }
  case UREM: return b ? a % b : 0;
  case SREM: { i64 x = sextw(a, w), y = sextw(b, w); if (!y || y == -1) return 0; return (u64)(x % y) & maskw(w); }
  case SHL: return b >= w ? 0 : (a << b) & maskw(w);
  case LSHR: return b >= w ? 0 : a >> b;
  case ASHR: { i64 x = sextw(a, w); return (u64)(x >> (b >= w ? w - 1 : b)) & maskw(w); }
  case AND: return a & b;
  case OR: return a | b;
  case XOR: return a ^ b;
  case ZEXT: return a;
  case SEXT: return (u64)sextw(a, n->a->w) & maskw(w);
  case TRUNC: return a & maskw(w);
  case EQ: return a == b;
  case ULT: return a < b;
  case ULE: return a <= b;
  case SLT: return sextw(a, n->a->w) < sextw(b, n->a->w);
  case SLE: return sextw(a, n->a->w) <= sextw(b, n->a->w);
  case SELECT: return a ? b : c;
  case LOADT: {
    unsigned k = w / 8; u64 r = 0; auto &by = n->tab->bytes;
    for (unsigned i = 0; i < k; i++) { u64 o = a + i; r |= (u64)(o < by.size() ? by[o] : 0) << (8 * i); }
    return r; }
  }
  return 0;
}

static bool commut(Op o) { return o == ADD || o == MUL || o == AND || o == OR || o == XOR || o == EQ; }

// A slice: bits [lo,lo+len) of x, placed at bit position pos of a w-bit word.
struct Slice { N x = nullptr; unsigned lo = 0, len = 0, pos = 0; };
static bool asSlice(N n, Slice &s, int d = 0) {
  if (d > 8) return false;
  switch (n->op) {
  case CONST: return false;
  case ZEXT: return asSlice(n->a, s, d + 1);
  case TRUNC: { if (!asSlice(n->a, s, d + 1)) return false; if (s.pos >= n->w) return false; s.len = std::min(s.len, n->w - s.pos); return true; }
  case LSHR: { if (!n->b->isConst() || !asSlice(n->a, s, d + 1)) return false; unsigned k = n->b->imm; if (k <= s.pos) { s.pos -= k; return true; } k -= s.pos; if (k >= s.len) return false; s.pos = 0; s.lo += k; s.len -= k; return true; }
  case SHL: { if (!n->b->isConst() || !asSlice(n->a, s, d + 1)) return false; s.pos += n->b->imm; if (s.pos >= n->w) return false; s.len = std::min(s.len, n->w - s.pos); return true; }
  case AND: { if (!n->b->isConst() || !n->b->imm || !asSlice(n->a, s, d + 1)) return false; u64 m = n->b->imm; unsigned l = __builtin_ctzll(m), h = 64 - __builtin_clzll(m); if (h - l < 64 && (m >> l) != maskw(h - l)) return false;
    if (l > s.pos) { unsigned k = l - s.pos; if (k >= s.len) return false; s.pos += k; s.lo += k; s.len -= k; } if (h < s.pos + s.len) { if (h <= s.pos) return false; s.len = h - s.pos; } return true; }
  default: { s.x = n; s.lo = 0; s.len = std::min<unsigned>(n->w, n->mb); s.pos = 0; return s.len > 0; }
  }
}
static N rawBin(Op op, N a, N b) { return intern(op, a->w, a, b, 0, 0, 0); }
static N fromSlice(const Slice &s, unsigned w) {   // canonical form
  N x = s.x; unsigned xb = std::min<unsigned>(x->w, x->mb), W = x->w;
  if (s.pos == s.lo) {
    N r = mkCast(W < w ? ZEXT : TRUNC, x, w);
    if (s.lo || s.len < std::min(xb, w)) r = rawBin(AND, r, mkConst(maskw(s.len) << s.lo, w));
    return r;
  }
  N r = x;
  if (s.lo) r = rawBin(LSHR, r, mkConst(s.lo, W));
  if (s.lo + s.len < xb && !(W > w && !s.pos && s.len >= w)) r = rawBin(AND, r, mkConst(maskw(s.len), W));
  if (W != w) r = mkCast(W < w ? ZEXT : TRUNC, r, w);
  if (s.pos) r = rawBin(SHL, r, mkConst(s.pos, w));
  return r;
}
static N joinSlices(N a, N b) {
  Slice p, q; if (a->isConst() || b->isConst() || !asSlice(a, p) || !asSlice(b, q) || p.x != q.x) return nullptr;
  if ((int)p.lo - (int)p.pos != (int)q.lo - (int)q.pos) return nullptr;
  if (q.lo < p.lo) std::swap(p, q);
  if (p.lo + p.len != q.lo) return nullptr;
  Slice r = p; r.len = p.len + q.len; return fromSlice(r, a->w);
}
static bool sliceOr(N n, int &cnt) { Slice s; if (n->op == OR && !n->b->isConst()) return sliceOr(n->a, cnt) && sliceOr(n->b, cnt); return ++cnt <= 10 && asSlice(n, s) && s.x->op != OR; }
static N shiftSlices(Op op, N n, N k) { if (n->op == OR && !n->b->isConst()) return mkBin(OR, shiftSlices(op, n->a, k), shiftSlices(op, n->b, k)); return mkBin(op, n, k); }
// A word composed of slices at disjoint positions has one form: by ascending position.
static bool leavesOf(N n, std::vector<std::pair<unsigned, N>> &v, int d = 0) {
  if (n->op == OR && !n->b->isConst()) return d < 12 && leavesOf(n->a, v, d + 1) && leavesOf(n->b, v, d + 1);
  Slice s; if (n->isConst() || !asSlice(n, s) || v.size() > 12) return false;
  v.push_back({s.pos << 8 | s.len, n}); return true;
}
static N concatSlices(N a, N b) {
  std::vector<std::pair<unsigned, N>> v;
  if (!leavesOf(a, v) || !leavesOf(b, v)) return nullptr;
  std::sort(v.begin(), v.end(), [](auto &x, auto &y) { return x.first < y.first; });
  for (size_t i = 1; i < v.size(); i++) if ((v[i - 1].first >> 8) + (v[i - 1].first & 255) > v[i].first >> 8) return nullptr;
  N r = v[0].second; for (size_t i = 1; i < v.size(); i++) r = intern(OR, a->w, r, v[i].second, 0, 0, 0);
  return r;
}
N mkBin(Op op, N a, N b) {
  unsigned w = a->w;
  if ((op == LSHR || op == SHL || op == AND) && b->isConst() && a->op == OR && !a->b->isConst()) { int c = 0; if (sliceOr(a, c)) return shiftSlices(op, a, b); }
  if ((op == LSHR || op == SHL || op == AND) && b->isConst() && !a->isConst() && a->op != OR) {
    Slice t; u64 k = b->imm; bool zero = false, ok = asSlice(a, t);
    if (ok && op != AND && k >= w) ok = false;
    if (ok && op == LSHR) { if (k <= t.pos) t.pos -= k; else { k -= t.pos; if (k >= t.len) zero = true; else { t.pos = 0; t.lo += k; t.len -= k; } } }
    if (ok && op == SHL) { t.pos += k; if (t.pos >= w) zero = true; else t.len = std::min(t.len, w - t.pos); }
    if (ok && op == AND) { if (!k) zero = true; else { unsigned l = __builtin_ctzll(k), h = 64 - __builtin_clzll(k); if (h - l < 64 && (k >> l) != maskw(h - l)) ok = false;
      else { if (l > t.pos) { unsigned j = l - t.pos; if (j >= t.len) zero = true; else { t.pos += j; t.lo += j; t.len -= j; } } if (!zero && h < t.pos + t.len) { if (h <= t.pos) zero = true; else t.len = h - t.pos; } } } }
    if (ok && zero) return mkConst(0, w);
    if (ok) return fromSlice(t, w);
  }
  if (a->isConst() && b->isConst()) { Node t{op, (uint8_t)w, 0, a, b, 0, 0, 0, Sup()}; return mkConst(foldOp(&t, a->imm, b->imm, 0), w); }
  if (commut(op) && (a->isConst() || (!b->isConst() && a->id > b->id))) std::swap(a, b);
  if (b->isConst()) {
    u64 c = b->imm;
    switch (op) {
    case SUB: return mkBin(ADD, a, mkConst(0 - c, w));
    case ADD: if (!c) return a;
      if (a->op == ADD && a->b->isConst()) return mkBin(ADD, a->a, mkConst(a->b->imm + c, w));
      break;
    case MUL: if (c == 1) return a; if (!c) return b;
      if (a->op == MUL && a->b->isConst()) return mkBin(MUL, a->a, mkConst(a->b->imm * c, w));
      break;
    case SHL: case ASHR: if (!c) return a; if (op == SHL && a->op == SHL && a->b->isConst() && c + a->b->imm < w) return mkBin(SHL, a->a, mkConst(c + a->b->imm, w)); break;
    case LSHR: if (!c) return a; if (c >= a->mb) return mkConst(0, w);
      if (a->op == OR) { if (a->a->mb <= c) return mkBin(LSHR, a->b, b); if (a->b->mb <= c) return mkBin(LSHR, a->a, b); }
      if (a->op == LSHR && a->b->isConst()) return mkBin(LSHR, a->a, mkConst(c + a->b->imm, w));
      if (a->op == SHL && a->b->isConst() && a->a->mb + a->b->imm <= w) { u64 j = a->b->imm; return j <= c ? mkBin(LSHR, a->a, mkConst(c - j, w)) : mkBin(SHL, a->a, mkConst(j - c, w)); }
      break;
    case UDIV: if (c == 1) return a; break;
    case AND: if (c == maskw(w)) return a; if (!c) return b;
      if (a->op == AND && a->b->isConst()) return mkBin(AND, a->a, mkConst(a->b->imm & c, w));
      if (a->mb < 64 && (c & maskw(a->mb)) == maskw(a->mb)) return a;
      if (a->op == OR) { unsigned ct = __builtin_ctzll(c), cb = 64 - __builtin_clzll(c);
        if (a->a->mb <= ct || tz(a->a) >= cb) return mkBin(AND, a->b, b);
        if (a->b->mb <= ct || tz(a->b) >= cb) return mkBin(AND, a->a, b); }
      break;
    case OR: if (!c) return a; break;
    case XOR: if (!c) return a;
      if (a->op == XOR && a->b->isConst()) return mkBin(XOR, a->a, mkConst(a->b->imm ^ c, w));
      break;
    default: break;
    }
  }
  if (op == ADD && !a->isConst() && !b->isConst() && a->mb <= b->tzb) return mkBin(OR, a, b);
  if (op == ADD && !a->isConst() && !b->isConst() && b->mb <= a->tzb) return mkBin(OR, a, b);
  if (op == OR && !b->isConst()) {
    if (N r = joinSlices(a, b)) return r;
    if (a->op == OR) { if (N r = joinSlices(a->a, b)) return mkBin(OR, r, a->b); if (N r = joinSlices(a->b, b)) return mkBin(OR, a->a, r); }
    if (b->op == OR) { if (N r = joinSlices(b->a, a)) return mkBin(OR, r, b->b); if (N r = joinSlices(b->b, a)) return mkBin(OR, b->a, r); }
  }
  if (op == OR && !b->isConst() && (a->op == OR || b->op == OR)) if (N r = concatSlices(a, b)) return r;
  if (a == b) {
    if (op == SUB || op == XOR) return mkConst(0, w);
    if (op == AND || op == OR) return a;
  }
  if (op == SUB && a->op == ADD && a->b->isConst() && a->a == b) return a->b;           // (x+c)-x
  if (op == SUB && b->op == ADD && b->b->isConst() && b->a == a) return mkConst(0 - b->b->imm, w);
  if (op == SUB && a->op == ADD && b->op == ADD && a->a == b->a) return mkBin(SUB, a->b, b->b);
  if (op == SUB && b->op == ADD && b->b->isConst()) return mkBin(ADD, mkBin(SUB, a, b->a), mkConst(0 - b->b->imm, w));
  if (op == SUB && a->op == ADD && a->b->isConst() && !b->isConst()) return mkBin(ADD, mkBin(SUB, a->a, b), a->b);
  if (op == SUB && b->op == SUB && b->a == a) return b->b;                             // x-(x-y)
  if (op == ADD && a->op == SUB && a->b == b) return a->a;                             // (x-y)+y
  if (op == ADD && b->op == SUB && b->b == a) return b->a;
  if (op == SUB && a->op == ADD && a->b == b) return a->a;                             // (x+y)-y
  if (op == SUB && a->op == ADD && a->a == b) return a->b;
  if (op == SUB && a->op == SUB && a->a == b) return mkBin(SUB, mkConst(0, w), a->b);
  return intern(op, w, a, b, 0, 0, 0);
}

N mkCast(Op op, N a, unsigned w) {
  if (a->w == w) return a;
  if (a->isConst()) { Node t{op, (uint8_t)w, 0, a, 0, 0, 0, 0, Sup()}; return mkConst(foldOp(&t, a->imm, 0, 0), w); }
  if (op == ZEXT && a->op == ZEXT) return mkCast(ZEXT, a->a, w);
  if (op == SEXT && a->op == ZEXT) return mkCast(ZEXT, a->a, w);
  if (op == SEXT && a->op == SEXT) return mkCast(SEXT, a->a, w);
  if (op == TRUNC) {
    if (a->op == TRUNC) return mkCast(TRUNC, a->a, w);
    if (a->op == AND && a->b->isConst() && (a->b->imm & maskw(w)) == maskw(w)) return mkCast(TRUNC, a->a, w);
    if (a->op == OR && !a->b->isConst()) {
      std::vector<std::pair<unsigned, N>> v;
      if (leavesOf(a, v)) {
        N r = nullptr;
        for (auto &l : v) { Slice t; if (!asSlice(l.second, t)) { r = nullptr; break; } if (t.pos >= w) continue; t.len = std::min(t.len, w - t.pos); N x = fromSlice(t, w); r = r ? mkBin(OR, r, x) : x; }
        return r ? r : mkConst(0, w);
      }
    }
    if (a->op == ZEXT || a->op == SEXT) {
      if (a->a->w == w) return a->a;
      if (a->a->w > w) return mkCast(TRUNC, a->a, w);
      return mkCast(a->op, a->a, w);
    }
    if ((a->op == LSHR) && a->b->isConst() && a->a->op == OR) {   // byte extraction from a composed word
      N o = a->a; u64 k = a->b->imm;
      for (int side = 0; side < 2; side++) {
        N hiP = side ? o->a : o->b, loP = side ? o->b : o->a;
        if (hiP->op == SHL && hiP->b->isConst() && hiP->b->imm >= k + w) return mkCast(TRUNC, mkBin(LSHR, loP, a->b), w);
        if (loP->op == ZEXT && loP->a->w <= k) return mkCast(TRUNC, mkBin(LSHR, hiP, a->b), w);
      }
    }
    if (a->op == LSHR && a->b->isConst() && a->a->op == SHL && a->a->b->isConst() && a->a->b->imm == a->b->imm && a->w - a->b->imm >= w)
      return mkCast(TRUNC, a->a->a, w);
    if (a->op == OR) {
      for (int side = 0; side < 2; side++) {
        N hiP = side ? a->a : a->b, loP = side ? a->b : a->a;
        if (hiP->op == SHL && hiP->b->isConst() && hiP->b->imm >= w) return mkCast(TRUNC, loP, w);
      }
    }
  }
  return intern(op, w, a, 0, 0, 0, 0);
}

N mkNot(N a) {
  if (a->isConst()) return mkConst(!a->imm, 1);
  if (a->op == XOR && a->w == 1 && a->b->isConst()) return a->a;
  return intern(XOR, 1, a, mkConst(1, 1), 0, 0, 0);
}

N mkCmp(Op op, N a, N b) {
  if (a->isConst() && b->isConst()) { Node t{op, 1, 0, a, b, 0, 0, 0, Sup()}; return mkConst(foldOp(&t, a->imm, b->imm, 0), 1); }
  if (a == b) return mkConst(op == EQ || op == ULE || op == SLE, 1);
  if (op == EQ) {
    if (a->isConst() || (!b->isConst() && a->id > b->id)) std::swap(a, b);
    if (b->isConst()) {
      if (a->op == ADD && a->b->isConst()) return mkCmp(EQ, a->a, mkConst(b->imm - a->b->imm, a->w));
      if (a->op == XOR && a->w > 1 && a->b->isConst()) return mkCmp(EQ, a->a, mkConst(b->imm ^ a->b->imm, a->w));
      if (a->op == ZEXT) { if (b->imm > maskw(a->a->w)) return mkConst(0, 1); return mkCmp(EQ, a->a, mkConst(b->imm, a->a->w)); }
      if (a->w == 1) return b->imm ? a : mkNot(a);
    }
  }
  if (b->isConst() && a->op == ZEXT) {
    u64 m = maskw(a->a->w), c = b->imm; i64 sc = sextw(c, a->w);
    if (op == ULT || op == ULE || ((op == SLT || op == SLE) && sc >= 0)) {
      if (op == SLT) op = ULT; if (op == SLE) op = ULE;
      if (op == ULT && c > m) return mkConst(1, 1);
      if (op == ULE && c >= m) return mkConst(1, 1);
      return mkCmp(op, a->a, mkConst(c, a->a->w));
    } else if (op == SLT || op == SLE) return mkConst(0, 1);
  }
  if (a->isConst() && b->op == ZEXT) {
    u64 m = maskw(b->a->w), c = a->imm; i64 sc = sextw(c, b->w);
    if (op == ULT || op == ULE || ((op == SLT || op == SLE) && sc >= 0)) {
      if (op == SLT) op = ULT; if (op == SLE) op = ULE;
      if (op == ULT && c >= m) return mkConst(0, 1);
      if (op == ULE && c > m) return mkConst(0, 1);
      return mkCmp(op, mkConst(c, b->a->w), b->a);
    } else if (op == SLT || op == SLE) return mkConst(1, 1);
  }
  return intern(op, 1, a, b, 0, 0, 0);
}

N mkSelect(N c, N a, N b) {
  if (c->isConst()) return c->imm ? a : b;
  if (a == b) return a;
  if (a->w == 1 && a->isConst() && b->isConst()) return a->imm ? c : mkNot(c);
  return intern(SELECT, a->w, c, a, b, 0, 0);
}
N mkLoad(const Table *t, N off, unsigned bytes) {
  if (off->isConst()) { Node n{LOADT, (uint8_t)(bytes * 8), 0, off, 0, 0, 0, t, Sup()}; return mkConst(foldOp(&n, off->imm, 0, 0), bytes * 8); }
  return intern(LOADT, bytes * 8, off, 0, 0, 0, t);
}
static std::map<std::vector<uint8_t>, Table *> SYNTH;
static N synth(N A, N B, int y, const ISet &DA, const ISet &DB) {
  unsigned w = A->w, by = w <= 8 ? 1 : w <= 16 ? 2 : w <= 32 ? 4 : 8;
  std::vector<uint8_t> t(256 * by + 1, 0); t[256 * by] = by; u64 mx = 0; bool first = true, same = true, ident = true; u64 v0 = 0;
  for (int side = 0; side < 2; side++) {
    N n = side ? B : A; const ISet &D = side ? DB : DA;
    Evaluator ev({y}); int d = ev.add(n); ev.run(0);
    D.each([&](u64 x) { if (x > 255) return false; ev.setSym(0, x); u64 v = ev.val[d]; mx |= v; if (first) { v0 = v; first = false; } else if (v != v0) same = false; if (v != x) ident = false; for (unsigned i = 0; i < by; i++) t[x * by + i] = v >> (8 * i); return true; });
  }
  if (same) return mkConst(v0, w);
  if (ident && w >= 8) return mkCast(ZEXT, SYMS[y].node, w);
  auto &p = SYNTH[t];
  if (!p) { p = new Table; p->name = "map" + std::to_string(SYNTH.size()); p->bytes = t; p->bytes.pop_back(); p->mb = mx ? 64 - __builtin_clzll(mx) : 0; }
  if (!p->mb) return mkConst(0, w);
  N r = intern(LOADT, by * 8, mkBin(MUL, mkCast(ZEXT, SYMS[y].node, 64), mkConst(by, 64)), 0, 0, 0, p);
  return r->w > w ? mkCast(TRUNC, r, w) : r;
}
N canonTerm(const Env &e, N n, std::unordered_map<uint32_t, N> &memo) {
  if (n->sup.empty() || n->op == SYM) return n;
  auto it = memo.find(n->id); if (it != memo.end()) return it->second;
  N r = n;
  std::vector<int> l; if (n->sup.count() == 1) l = n->sup.list();
  if (l.size() == 1 && SYMS[l[0]].w == 8) r = synth(n, n, l[0], *e.dom[l[0]], ISet());
  else {
    N a = n->a ? canonTerm(e, n->a, memo) : 0, b = n->b ? canonTerm(e, n->b, memo) : 0, c = n->c ? canonTerm(e, n->c, memo) : 0;
    switch (n->op) {
    case ZEXT: case SEXT: case TRUNC: r = mkCast(n->op, a, n->w); break;
    case LOADT: r = mkLoad(n->tab, a, n->w / 8); break;
    case SELECT: r = mkSelect(a, b, c); break;
    case EQ: case ULT: case ULE: case SLT: case SLE: r = mkCmp(n->op, a, b); break;
    default: r = mkBin(n->op, a, b);
    }
  }
  memo[n->id] = r; return r;
}
static N mergeRec(N A, N B, int y, const ISet &DA, const ISet &DB, int depth) {
  if (A == B) return A;
  if (A->w != B->w || depth > 24) return nullptr;
  Sup s; s.set(y);
  if (A->sup.subsetOf(s) && B->sup.subsetOf(s)) return SYMS[y].w == 8 ? synth(A, B, y, DA, DB) : nullptr;
  auto rec = [&](N a, N b) { return mergeRec(a, b, y, DA, DB, depth + 1); };
  N z = mkConst(0, A->w);
  auto ident = [&](N big, N small, bool bigIsA) -> N {      // big = small op x  with x in terms of y
    if (big->op != OR && big->op != ADD && big->op != XOR) return nullptr;
    for (int k = 0; k < 2; k++) { N c = k ? big->b : big->a, x = k ? big->a : big->b;
      if (x->sup.subsetOf(s) && (c == small || depth < 6)) { N m = c == small ? c : (bigIsA ? rec(c, small) : rec(small, c)); if (!m) continue; N q = bigIsA ? rec(x, z) : rec(z, x); if (q) return mkBin(big->op, m, q); } }
    return nullptr;
  };
  if (A->op == B->op && A->imm == B->imm && A->tab == B->tab) {
    if (A->op == CONST || A->op == SYM) return nullptr;
    if (A->op == ZEXT || A->op == SEXT || A->op == TRUNC) { if (A->a->w != B->a->w) return nullptr; N m = rec(A->a, B->a); return m ? mkCast(A->op, m, A->w) : nullptr; }
    if (A->op == LOADT) { N m = rec(A->a, B->a); return m ? mkLoad(A->tab, m, A->w / 8) : nullptr; }
    if (A->op == SELECT) { N c = rec(A->a, B->a), x = c ? rec(A->b, B->b) : nullptr, v = x ? rec(A->c, B->c) : nullptr; return v ? mkSelect(c, x, v) : nullptr; }
    if (A->a->w == B->a->w) {
      if (commut(A->op)) {
        N pa[2] = {A->a, A->b}, pb[2] = {B->a, B->b};
        for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) if (pa[i] == pb[j]) { N m = rec(pa[1 - i], pb[1 - j]); if (m) return A->op == EQ ? mkCmp(EQ, pa[i], m) : mkBin(A->op, pa[i], m); }
        for (int j = 0; j < 2; j++) { N m = rec(pa[0], pb[j]); N q = m ? rec(pa[1], pb[1 - j]) : nullptr; if (q) return A->op == EQ ? mkCmp(EQ, m, q) : mkBin(A->op, m, q); }
      } else {
        N m = rec(A->a, B->a), q = m ? rec(A->b, B->b) : nullptr;
        if (q) return A->op >= EQ && A->op <= SLE ? mkCmp(A->op, m, q) : mkBin(A->op, m, q);
      }
    }
  }
  if (N m = ident(A, B, true)) return m;
  if (N m = ident(B, A, false)) return m;
  return nullptr;
}
N mergeTerm(N A, N B, int y, const ISet &DA, const ISet &DB, N cond) {
  if (DA.hi() <= 255 && DB.hi() <= 255) if (N m = mergeRec(A, B, y, DA, DB, 0)) return m;
  return mkSelect(cond, A, B);
}
static const char *ON[] = {"const", "sym", "+", "-", "*", "/u", "/s", "%u", "%s", "<<", ">>u", ">>s", "&", "|", "^", "zx", "sx", "tr", "==", "<u", "<=u", "<s", "<=s", "?", "ld"};
std::string nodeStr(N n, int d) {
  char b[40];
  if (n->op == CONST) { snprintf(b, 40, n->imm < 10 ? "%llu" : "0x%llx", (unsigned long long)n->imm); return b; }
  if (n->op == SYM) return SYMS[n->imm].name;
  if (!d) return "..";
  if (n->op == LOADT) return n->tab->name + "[" + nodeStr(n->a, d - 1) + "]";
  if (n->op == ZEXT || n->op == SEXT) return nodeStr(n->a, d);
  if (n->op == TRUNC) { snprintf(b, 40, "u%d(", n->w); return b + nodeStr(n->a, d - 1) + ")"; }
  if (n->op == SELECT) return "(" + nodeStr(n->a, d - 1) + "?" + nodeStr(n->b, d - 1) + ":" + nodeStr(n->c, d - 1) + ")";
  return "(" + nodeStr(n->a, d - 1) + ON[n->op] + nodeStr(n->b, d - 1) + ")";
}

// ---- finite evaluation ---------------------------------------------------
int Evaluator::add(N n) {
  auto it = slot.find(n->id);
  if (it != slot.end()) return it->second;
  int a = n->a ? add(n->a) : -1, b = n->b ? add(n->b) : -1, c = n->c ? add(n->c) : -1;
  int d = val.size(); val.push_back(n->op == CONST ? n->imm : 0);
  slot[n->id] = d;
  if (n->op == SYM) { for (size_t i = 0; i < syms.size(); i++) if (syms[i] == (int)n->imm) symSlot[i] = d; }
  else if (n->op != CONST) lev[levelOf(n)].push_back({n, d, a, b, c});
  return d;
}

// ---- interval transfer functions ----------------------------------------
static const size_t CAP = 48;
static void addWrap(ISet &r, u128 lo, u128 hi, unsigned w) {   // lo<=hi, mod 2^w
  u128 m = (u128)1 << w;
  if (hi - lo >= m - 1) { r.v = {{0, maskw(w)}}; return; }
  u64 l = (u64)(lo % m) & maskw(w), h = (u64)(hi % m) & maskw(w);
  if (l <= h) r.v.push_back({l, h}); else { r.v.push_back({l, maskw(w)}); r.v.push_back({0, h}); }
}
static ISet capd(ISet s, size_t n) { s.cap(n); return s; }
static ISet neg(const ISet &s, unsigned w) { ISet r; for (auto &p : s.v) addWrap(r, ((u128)1 << w) - p.second, ((u128)1 << w) - p.first, w); r.norm(); return r; }
static ISet addS(const ISet &A, const ISet &B, unsigned w) {
  bool big = A.v.size() > 1 && B.v.size() > 1 && A.v.size() * B.v.size() > 512;
  ISet a = big ? capd(A, 16) : A, b = big ? capd(B, 16) : B, r;
  for (auto &p : a.v) for (auto &q : b.v) addWrap(r, (u128)p.first + q.first, (u128)p.second + q.second, w);
  r.norm(); return r;
}
// split an interval into dyadic blocks
template <class F> static void dyadic(u64 lo, u64 hi, unsigned w, F f) {
  u64 x = lo;
  for (;;) {
    unsigned k = x ? __builtin_ctzll(x) : w; if (k > w) k = w; if (k > 63) { if (lo == 0 && hi == ~0ull) { f(0, 64); return; } k = 63; }
    while (k && (maskw(k) > hi - x)) k--;
    f(x, k);
    u64 e = x + maskw(k); if (e >= hi) return; x = e + 1;
  }
}
static ISet bitConst(Op op, const ISet &A, u64 c, unsigned w) {
  ISet r;
  for (auto &p : A.v) dyadic(p.first, p.second, w, [&](u64 x, unsigned k) {
    u64 m = maskw(k);
    if (op == XOR) { u64 b = (x ^ c) & ~m; r.v.push_back({b, b | m}); }
    else if (op == AND) {
      u64 b = (x & c) & ~m, lm = c & m;
      r.v.push_back({b, b | lm}); }
    else { u64 b = (x | c); r.v.push_back({b, (x | m | c)}); }
  });
  r.norm();
  return r;
}
static u64 ones(u64 x) { return x ? maskw(64 - __builtin_clzll(x)) : 0; }
static unsigned tz(N n) {
  if (n->tzb) return n->tzb;
  switch (n->op) {
  case CONST: return n->imm ? __builtin_ctzll(n->imm) : n->w;
  case SHL: return n->b->isConst() ? std::min<u64>(n->w, tz(n->a) + n->b->imm) : 0;
  case MUL: return std::min<unsigned>(n->w, tz(n->a) + tz(n->b));
  case ADD: case OR: case SUB: case XOR: return std::min(tz(n->a), tz(n->b));
  case AND: return std::max(tz(n->a), tz(n->b));
  case ZEXT: case SEXT: { unsigned t = tz(n->a); return t >= n->a->w ? n->w : t; }
  case TRUNC: return std::min<unsigned>(n->w, tz(n->a));
  default: return 0;
  }
}
static ISet sgnSplitCmpRange(const ISet &s, unsigned w) {   // to order-preserving unsigned
  ISet r; u64 sb = 1ull << (w - 1);
  for (auto &p : s.v) {
    if (p.first < sb && p.second >= sb) { r.v.push_back({p.first ^ sb, maskw(w)}); r.v.push_back({0, p.second ^ sb}); }
    else r.v.push_back({p.first ^ sb, p.second ^ sb});
  }
  r.norm(); return r;
}
static ISet cmpS(Op op, const ISet &A0, const ISet &B0, unsigned w) {
  bool t = true, f = true;
  if (op == EQ) {
    if (A0.inter(B0).empty()) t = false;
    if (A0.isSingle() && B0.isSingle() && A0.lo() == B0.lo()) f = false;
  } else {
    ISet A = A0, B = B0;
    if (op == SLT || op == SLE) { A = sgnSplitCmpRange(A, w); B = sgnSplitCmpRange(B, w); op = op == SLT ? ULT : ULE; }
    if (op == ULT) { t = A.lo() < B.hi(); f = A.hi() >= B.lo(); }
    else { t = A.lo() <= B.hi(); f = A.hi() > B.lo(); }
  }
  ISet r; if (f) r.v.push_back({0, 0}); if (t) r.v.push_back({1, 1}); r.norm(); return r;
}

static ISet binS(N n, const ISet &A, const ISet &B) {
  unsigned w = n->w; Op op = n->op;
  u64 ca = A.card(), cb = B.card();
  if (op >= EQ && op <= SLE) return cmpS(op, A, B, n->a->w);
  if (ca <= 512 && cb <= 512 && ca * cb <= 512) {
    std::vector<u64> xs;
    A.each([&](u64 a) { B.each([&](u64 b) { xs.push_back(foldOp(n, a, b, 0)); return true; }); return true; });
    std::sort(xs.begin(), xs.end()); ISet r;
    for (u64 x : xs) { if (!r.v.empty() && (x == r.v.back().second)) continue; if (!r.v.empty() && x == r.v.back().second + 1) r.v.back().second = x; else r.v.push_back({x, x}); }
    return r;
  }
  ISet r;
  switch (op) {
  case ADD: return addS(A, B, w);
  case SUB: return addS(A, neg(B, w), w);
  case MUL: {
    if (cb == 1 || ca == 1) {
      u64 k = cb == 1 ? B.lo() : A.lo(); const ISet &X = cb == 1 ? A : B;
      if (X.v.size() <= 64) { // multiply as signed constant
        i64 sk = sextw(k, w);
        if (sk >= 0) { bool ok = true; for (auto &p : X.v) { u128 l = (u128)p.first * k, h = (u128)p.second * k; if (h - l >= ((u128)1 << w)) ok = false; else addWrap(r, l, h, w); } if (ok) { r.norm(); return r; } }
      }
      return ISet::full(w);
    }
    if ((u128)A.hi() * B.hi() <= maskw(w)) return ISet(A.lo() * B.lo(), A.hi() * B.hi());
    return ISet::full(w); }
  case UDIV: if (cb == 1 && B.lo()) { for (auto &p : A.v) r.v.push_back({p.first / B.lo(), p.second / B.lo()}); r.norm(); return r; }
    return ISet(0, A.hi());
  case SDIV: if (cb == 1 && sextw(B.lo(), w) > 0) {
      i64 d = sextw(B.lo(), w); u64 sb = 1ull << (w - 1);
      ISet pos = A.inter(ISet(0, sb - 1)), ng = A.inter(ISet(sb, maskw(w)));
      for (auto &p : pos.v) r.v.push_back({p.first / d, p.second / d});
      for (auto &p : ng.v) { u64 l = (u64)(sextw(p.first, w) / d) & maskw(w), h = (u64)(sextw(p.second, w) / d) & maskw(w); if (l > h) { r.v.push_back({l, maskw(w)}); r.v.push_back({0, h}); } else r.v.push_back({l, h}); }
      r.norm(); return r; }
    return ISet::full(w);
  case UREM: case SREM: if (cb == 1 && sextw(B.lo(), w) > 0) {
      u64 m = B.lo(); u64 sb = 1ull << (w - 1);
      ISet pos = op == UREM ? A : A.inter(ISet(0, sb - 1)), ng = op == UREM ? ISet() : A.inter(ISet(sb, maskw(w)));
      for (auto &p : pos.v) { if (p.second - p.first < m && p.first % m <= p.second % m) r.v.push_back({p.first % m, p.second % m}); else { r.v.push_back({0, m - 1}); } }
      if (!ng.empty()) { r.v.push_back({0, 0}); r.v.push_back({(0 - (m - 1)) & maskw(w), maskw(w)}); }
      r.norm(); return r; }
    return ISet::full(w);
  case SHL: if (cb == 1) { u64 k = B.lo(); if (k >= w) return ISet::single(0); bool ok = true;
      for (auto &p : A.v) { u128 l = (u128)p.first << k, h = (u128)p.second << k; if (h - l >= ((u128)1 << w)) ok = false; else addWrap(r, l, h, w); }
      if (ok) { r.norm(); return r; } return ISet::full(w); }
    if (B.hi() < w && ((u128)A.hi() << B.hi()) <= maskw(w)) return ISet(A.lo() << B.lo(), A.hi() << B.hi());
    return ISet::full(w);
  case LSHR: if (cb == 1) { u64 k = B.lo(); if (k >= w) return ISet::single(0); for (auto &p : A.v) r.v.push_back({p.first >> k, p.second >> k}); r.norm(); return r; }
    return ISet(0, B.lo() < w ? A.hi() >> B.lo() : 0);
  case ASHR: if (cb == 1) { u64 k = std::min<u64>(B.lo(), w - 1), sb = 1ull << (w - 1);
      ISet pos = A.inter(ISet(0, sb - 1)), ng = A.inter(ISet(sb, maskw(w)));
      for (auto &p : pos.v) r.v.push_back({p.first >> k, p.second >> k});
      for (auto &p : ng.v) r.v.push_back({(u64)(sextw(p.first, w) >> k) & maskw(w), (u64)(sextw(p.second, w) >> k) & maskw(w)});
      r.norm(); return r; }
    return ISet::full(w);
  case AND: if (cb == 1) { r = bitConst(AND, A, B.lo(), w); return r; } if (ca == 1) return bitConst(AND, B, A.lo(), w);
    return ISet(0, std::min(A.hi(), B.hi()));
  case OR: if (cb == 1) return bitConst(OR, A, B.lo(), w); if (ca == 1) return bitConst(OR, B, A.lo(), w);
    { unsigned ta = tz(n->a), tb = tz(n->b);
      if (ta >= 64 || A.hi() < (tb >= 64 ? ~0ull : (1ull << tb)) || B.hi() < (ta >= 64 ? ~0ull : (1ull << ta))) return addS(A, B, w);
      return ISet(std::max(A.lo(), B.lo()), ones(A.hi() | B.hi())); }
  case XOR: if (cb == 1) return bitConst(XOR, A, B.lo(), w); if (ca == 1) return bitConst(XOR, B, A.lo(), w);
    return ISet(0, ones(A.hi() | B.hi()));
  default: return ISet::full(w);
  }
}
static ISet castS(N n, const ISet &A) {
  unsigned w = n->w; ISet r;
  if (n->op == ZEXT) return A;
  if (n->op == TRUNC) { if (A.hi() <= maskw(w)) return A; for (auto &p : A.v) addWrap(r, p.first, p.second, w); r.norm(); return r; }
  u64 sb = 1ull << (n->a->w - 1);
  ISet pos = A.inter(ISet(0, sb - 1)), ng = A.inter(ISet(sb, maskw(n->a->w)));
  r = pos; for (auto &p : ng.v) r.v.push_back({(u64)sextw(p.first, n->a->w) & maskw(w), (u64)sextw(p.second, n->a->w) & maskw(w)});
  r.norm(); return r;
}

ISet Env::eval(N n) const {
  if (n->op == CONST) return ISet::single(n->imm);
  STAT_eval++;
  std::unordered_map<uint32_t, ISet> memo;
  return evalM(n, memo);
}
ISet Env::evalM(N n, std::unordered_map<uint32_t, ISet> &memo) const {
  if (n->op == CONST) return ISet::single(n->imm);
  if (n->op == SYM) return *dom[n->imm];
  auto it = memo.find(n->id);
  if (it != memo.end()) return it->second;
  ISet r;
  bool done = false;
  if (n->sup.count() == 1) {     // exact on one finite symbol
    int s = n->sup.list()[0];
    u64 c = dom[s]->card();
    if (c <= 4096 || (n->op == LOADT && c <= 70000)) {
      CKey k{n->id, dom[s].get()};
      auto f = ECACHE.find(k);
      if (f != ECACHE.end()) r = f->second.r;
      else {
        Evaluator ev({s}); int d = ev.add(n); std::vector<u64> xs; ev.run(0);
        dom[s]->each([&](u64 x) { ev.setSym(0, x); xs.push_back(ev.val[d]); return true; });
        STAT_enum += xs.size();
        std::sort(xs.begin(), xs.end());
        for (u64 x : xs) { if (!r.v.empty() && x == r.v.back().second) continue; if (!r.v.empty() && x == r.v.back().second + 1) r.v.back().second = x; else r.v.push_back({x, x}); }
        r.cap(1024);
        if (ECACHE.size() > 20000) ECACHE.clear();
        ECACHE[k] = {dom[s], r};
      }
      done = true;
    }
  }
  if (!done) {
    switch (n->op) {
    case ZEXT: case SEXT: case TRUNC: r = castS(n, evalM(n->a, memo)); break;
    case SELECT: { ISet c = evalM(n->a, memo);
      if (c.isSingle()) r = evalM(c.lo() ? n->b : n->c, memo); else r = evalM(n->b, memo).uni(evalM(n->c, memo)); break; }
    case LOADT: {
      N off = n->a; u64 base = 0;
      if (off->op == ADD && off->b->isConst()) { base = off->b->imm; off = off->a; }
      ISet o = evalM(off, memo); unsigned t = tz(off); u64 step = 1ull << std::min(t, 6u); u64 sz = n->tab->bytes.size(), k = n->w / 8;
      std::vector<u64> xs; bool big = false; u64 cnt = 0;
      for (auto &p : o.v) { u64 x = (p.first + step - 1) / step * step; if (x < p.first) continue;
        for (; x <= p.second; x += step) { u64 q = x + base; if (q + k > sz || q > sz) { if (q > sz && (i64)q > 0) break; if (x + step < x) break; if ((i64)q < 0 && p.second - x > (1u << 20)) { big = true; break; } continue; }
          if (++cnt > 100000) { big = true; break; } xs.push_back(foldOp(n, q, 0, 0)); if (x + step < x) break; }
        if (big) break; }
      if (big) r = ISet::full(n->w);
      else { std::sort(xs.begin(), xs.end()); for (u64 x : xs) { if (!r.v.empty() && x == r.v.back().second) continue; if (!r.v.empty() && x == r.v.back().second + 1) r.v.back().second = x; else r.v.push_back({x, x}); }
        if (r.empty()) r = ISet::full(n->w); }
      break; }
    default: {
      ISet a = evalM(n->a, memo), b = evalM(n->b, memo);
      if (a.empty() || b.empty()) { r = ISet(); break; }
      r = binS(n, a, b); }
    }
    r.cap(CAP);
  }
  auto f = fmap.find(n->id);
  if (f != fmap.end()) r = r.inter(*f->second);
  memo[n->id] = r;
  return r;
}

void Env::introduce(int sym, const ISet &d) {
  if ((int)dom.size() <= sym) dom.resize(sym + 1);
  if (!dom[sym]) dom[sym] = std::make_shared<ISet>(d);
}

// A constraint on a chain of invertible operations is absorbed exactly by the symbol.
bool Env::refineRec(N n, const ISet &s0, int depth, bool &exact) {
  if (depth > 40) { exact = false; return true; }
  ISet cur = eval(n);
  ISet s = cur.inter(s0);
  if (s.empty()) return false;
  if (n->op == CONST) return true;
  if (n->op == SYM) { if (!(s == *dom[n->imm])) dom[n->imm] = std::make_shared<ISet>(s); return true; }
  if (s == cur && n->sup.count() != 1) { return true; }
  unsigned w = n->w;
  N a = n->a, b = n->b;
  switch (n->op) {
  case ADD: if (b->isConst()) return refineRec(a, addS(s, ISet::single((0 - b->imm) & maskw(w)), w), depth + 1, exact);
    exact = false;
    { ISet ea = eval(a), eb = eval(b); if (ea.empty() || eb.empty()) return false;
      if (!refineRec(a, capd(addS(s, neg(eb, w), w), CAP), depth + 1, exact)) return false;
      return refineRec(b, capd(addS(s, neg(ea, w), w), CAP), depth + 1, exact); }
  case SUB: exact = exact && a->isConst();
    if (a->isConst()) return refineRec(b, addS(ISet::single(a->imm), neg(s, w), w), depth + 1, exact);
    { exact = false; ISet ea = eval(a), eb = eval(b); if (ea.empty() || eb.empty()) return false;
      if (!refineRec(a, capd(addS(s, eb, w), CAP), depth + 1, exact)) return false;
      return refineRec(b, capd(addS(ea, neg(s, w), w), CAP), depth + 1, exact); }
  case XOR: if (w == 1 && b->isConst()) { ISet t; for (auto x : {0, 1}) if (s.contains(x ^ 1)) t.v.push_back({(u64)x, (u64)x}); t.norm(); return refineRec(a, t, depth + 1, exact); }
    if (b->isConst()) return refineRec(a, bitConst(XOR, s, b->imm, w), depth + 1, exact);
    exact = false; return true;
  case ZEXT: return refineRec(a, s.inter(ISet(0, maskw(a->w))), depth + 1, exact);
  case SEXT: { ISet t; u64 sb = 1ull << (a->w - 1);
      ISet pos = s.inter(ISet(0, sb - 1)), ng = s.inter(ISet((u64)sextw(sb, a->w) & maskw(w), maskw(w)));
      t = pos; for (auto &p : ng.v) t.v.push_back({p.first & maskw(a->w), p.second & maskw(a->w)}); t.norm();
      return refineRec(a, t, depth + 1, exact); }
  case TRUNC: { ISet ea = eval(a); if (ea.empty()) return false; if (ea.hi() <= maskw(w)) return refineRec(a, s, depth + 1, exact); exact = false; return true; }
  case LSHR: if (b->isConst() && b->imm < w) { ISet t; for (auto &p : s.v) { if (p.first > (maskw(w) >> b->imm)) continue; u64 h = std::min(p.second, maskw(w) >> b->imm); t.v.push_back({p.first << b->imm, (h << b->imm) | maskw(b->imm)}); } t.norm(); return refineRec(a, t, depth + 1, exact); }
    exact = false; return true;
  case UDIV: if (b->isConst() && b->imm) { ISet t; for (auto &p : s.v) { u128 l = (u128)p.first * b->imm, h = (u128)p.second * b->imm + b->imm - 1; if (l > maskw(w)) continue; if (h > maskw(w)) h = maskw(w); t.v.push_back({(u64)l, (u64)h}); } t.norm(); return refineRec(a, t, depth + 1, exact); }
    exact = false; return true;
  case SHL: case MUL: if (b->isConst()) { u64 k = n->op == SHL ? (b->imm < w ? 1ull << b->imm : 0) : b->imm; ISet ea = eval(a);
      if (k && !ea.empty() && (u128)ea.hi() * k <= maskw(w)) { ISet t; for (auto &p : s.v) { u64 l = (p.first + k - 1) / k, h = p.second / k; if (p.first && l == 0) continue; if (l <= h) t.v.push_back({l, h}); } t.norm(); return refineRec(a, t, depth + 1, exact); } }
    exact = false; return true;
  case AND: case OR:
    if (w == 1) {
      exact = false;
      bool one = n->op == AND ? s.isSingle() && s.lo() == 1 : s.isSingle() && s.lo() == 0;
      if (one) return refineRec(a, s, depth + 1, exact) && refineRec(b, s, depth + 1, exact);
    }
    exact = false; return true;
  case EQ: case ULT: case ULE: case SLT: case SLE: {
    if (!s.isSingle()) return true;
    bool t = s.lo(); unsigned aw = a->w; Op op = n->op;
    ISet ea = eval(a), eb = eval(b); if (ea.empty() || eb.empty()) return false;
    if (!a->isConst() && !b->isConst()) exact = false;
    if (op == EQ) {
      if (t) { if (!a->isConst() && !refineRec(a, eb, depth + 1, exact)) return false; ea = eval(a); return b->isConst() || refineRec(b, ea, depth + 1, exact); }
      if (eb.isSingle() && !refineRec(a, ISet::full(aw).minus(eb), depth + 1, exact)) return false;
      if (ea.isSingle() && !b->isConst() && !refineRec(b, ISet::full(aw).minus(ea), depth + 1, exact)) return false;
      return true;
    }
    bool sg = op == SLT || op == SLE; bool strict = op == ULT || op == SLT;
    N l = a, h = b; ISet el = ea, eh = eb;
    if (!t) { std::swap(l, h); std::swap(el, eh); strict = !strict; }     // not(a<b)  ==  b<=a
    if (sg) { el = sgnSplitCmpRange(el, aw); eh = sgnSplitCmpRange(eh, aw); }
    // l < h (strict) or l <= h
    u64 hh = eh.hi(), ll = el.lo();
    if (strict && hh == 0) return false;
    if (strict && ll == maskw(aw)) return false;
    ISet rl(0, strict ? hh - 1 : hh), rh(strict ? ll + 1 : ll, maskw(aw));
    if (sg) { rl = sgnSplitCmpRange(rl, aw); rh = sgnSplitCmpRange(rh, aw); }
    if (!l->isConst() && !refineRec(l, rl, depth + 1, exact)) return false;
    if (!h->isConst() && !refineRec(h, rh, depth + 1, exact)) return false;
    return true; }
  case SELECT: { exact = false; ISet c = eval(a); if (c.isSingle()) return refineRec(c.lo() ? n->b : n->c, s, depth + 1, exact);
    if (eval(n->b).inter(s).empty()) return refineRec(a, ISet::single(0), depth + 1, exact) && refineRec(n->c, s, depth + 1, exact);
    if (eval(n->c).inter(s).empty()) return refineRec(a, ISet::single(1), depth + 1, exact) && refineRec(n->b, s, depth + 1, exact);
    return true; }
  default: exact = false; return true;
  }
}

// The exact set of values of symbol y (within dom) for which a boolean combination of comparisons holds.
bool Env::boolSet(N n, int y, const ISet &d, ISet &out, int depth) const {
  if (depth > 12 || n->w != 1) return false;
  if (n->op == CONST) { out = n->imm ? d : ISet(); return true; }
  if (n->op == XOR && n->b->isConst()) { ISet t; if (!boolSet(n->a, y, d, t, depth + 1)) return false; out = n->b->imm ? d.minus(t) : t; return true; }
  if (n->op == AND || n->op == OR) { ISet a, b; if (!boolSet(n->a, y, d, a, depth + 1) || !boolSet(n->b, y, d, b, depth + 1)) return false; out = n->op == AND ? a.inter(b) : a.uni(b); return true; }
  if (n->op == SELECT) { ISet c, a, b; if (!boolSet(n->a, y, d, c, depth + 1) || !boolSet(n->b, y, d, a, depth + 1) || !boolSet(n->c, y, d, b, depth + 1)) return false; out = c.inter(a).uni(d.minus(c).inter(b)); return true; }
  if (n->op < EQ || n->op > SLE) return false;
  Env e; e.dom.resize(y + 1); e.dom[y] = std::make_shared<ISet>(d); bool ex = true;
  if (d.empty()) { out = d; return true; }
  if (!e.refineRec(n, ISet::single(1), 0, ex)) { out = ISet(); return true; }
  if (ex) { out = *e.dom[y]; return true; }
  if (d.card() > (1u << 16)) return false;
  Evaluator ev({y}); int q = ev.add(n); ev.run(0); ISet r;
  d.each([&](u64 x) { ev.setSym(0, x); if (ev.val[q]) { if (!r.v.empty() && r.v.back().second + 1 == x) r.v.back().second = x; else r.v.push_back({x, x}); } return true; });
  out = r; return true;
}
bool Env::refine(N n, const ISet &s, bool *exactOut) {
  if (n->op == CONST) return s.contains(n->imm);
  bool exact = true;
  ISet before = eval(n);
  if (before.inter(s).empty()) return false;
  if (before.minus(s).empty()) { if (exactOut) *exactOut = true; return true; }   // already implied
  if (n->w == 1 && (n->op == AND || n->op == OR || n->op == XOR || n->op == SELECT) && n->sup.count() == 1 && s.isSingle()) {
    int y = n->sup.list()[0]; ISet t;
    if (boolSet(n, y, *dom[y], t, 0)) { if (!s.lo()) t = dom[y]->minus(t); if (t.empty()) return false; dom[y] = std::make_shared<ISet>(t); if (exactOut) *exactOut = true; return true; }
  }
  if (!refineRec(n, s, 0, exact)) return false;
  if (n->sup.count() == 1 && !exact) {
    int y = n->sup.list()[0];
    if (dom[y]->card() <= (1u << 22)) {
      Evaluator ev({y}); int d = ev.add(n); ev.run(0); ISet r;
      dom[y]->each([&](u64 x) { ev.setSym(0, x); if (s.contains(ev.val[d])) { if (!r.v.empty() && r.v.back().second + 1 == x) r.v.back().second = x; else r.v.push_back({x, x}); } return true; });
      STAT_enum += dom[y]->card();
      if (r.empty()) return false;
      dom[y] = std::make_shared<ISet>(std::move(r));
      exact = true;
    }
  }
  if (n->sup.count() != 1) exact = false;
  if (!exact) {
    auto it = fmap.find(n->id);
    ISet t = it == fmap.end() ? before.inter(s) : it->second->inter(s);
    if (t.empty()) return false;
    auto sp = std::make_shared<ISet>(t);
    if (it != fmap.end()) { it->second = sp; for (auto &f : facts) if (f.n == n) f.s = sp; }
    else { fmap[n->id] = sp; facts.push_back({n, sp}); }
  }
  if (exactOut) *exactOut = exact;
  return true;
}

// ---- finite search -------------------------------------------------------
static u64 boxCard(const Env &e, const Sup &s) {
  u128 p = 1; for (int y : s.list()) { p *= e.dom[y]->card(); if (p > ((u128)1 << 62)) return ~0ull; } return (u64)p;
}
struct Cons { N n; const ISet *s; };
// enumerate box over syms; cb at full tuples satisfying all cons. returns false if cb stopped.
static bool enumBox(const Env &env, std::vector<int> syms, const std::vector<Cons> &cons, N extra, const std::function<bool(Evaluator &, int)> &cb, u64 *budget) {
  std::sort(syms.begin(), syms.end(), [&](int x, int y) { u64 a = env.dom[x]->card(), b = env.dom[y]->card(); return a != b ? a < b : x < y; });
  Evaluator ev(syms);
  std::vector<std::vector<std::pair<int, const ISet *>>> at(syms.size() + 1);
  for (auto &c : cons) { int d = ev.add(c.n); at[ev.levelOf(c.n)].push_back({d, c.s}); }
  for (size_t i = 0; i < syms.size(); i++) ev.add(SYMS[syms[i]].node);
  int ex = extra ? ev.add(extra) : -1;
  ev.run(0);
  std::function<bool(size_t)> rec = [&](size_t k) -> bool {
    for (auto &c : at[k]) if (!c.second->contains(ev.val[c.first])) return true;
    if (k == syms.size()) return cb(ev, ex);
    return env.dom[syms[k]]->each([&](u64 x) {
      if (budget) { if (!*budget) return false; --*budget; }
      STAT_enum++;
      ev.setSym(k, x);
      return rec(k + 1);
    });
  };
  return rec(0);
}
static Sup closure(const Env &env, Sup s) {
  bool ch = true;
  while (ch) { ch = false; for (auto &f : env.facts) if (f.n->sup.intersects(s) && !f.n->sup.subsetOf(s)) { s = s | f.n->sup; ch = true; } }
  return s;
}
static Tri search(Env env, N n, const ISet &set, const Sup &S, const std::vector<Cons> &cons, u64 limit, Witness *w, int &boxes) {
  // interval pruning
  ISet e = env.eval(n); if (e.inter(set).empty()) return NO;
  for (auto &c : cons) if (env.eval(c.n).inter(*c.s).empty()) return NO;
  u64 card = boxCard(env, S);
  if (card <= limit) {
    std::vector<Cons> cs = cons; cs.push_back({n, &set});
    std::sort(cs.begin(), cs.end(), [](const Cons &a, const Cons &b) { return a.n->sup.count() < b.n->sup.count(); });
    bool found = false;
    enumBox(env, S.list(), cs, nullptr, [&](Evaluator &ev, int) { found = true; if (w) { w->clear(); for (size_t i = 0; i < ev.syms.size(); i++) w->push_back({ev.syms[i], ev.val[ev.symSlot[i]]}); } return false; }, nullptr);
    return found ? YES : NO;
  }
  if (boxes <= 0) return UNK;
  boxes--;
  int pick = -1; u64 best = 1;
  for (int y : S.list()) { u64 c = env.dom[y]->card(); if (c > best) { best = c; pick = y; } }
  if (pick < 0) return UNK;
  // split at median
  ISet d = *env.dom[pick], A, B; u64 half = best / 2, acc = 0;
  for (auto &p : d.v) { u64 sz = p.second - p.first + 1; if (sz == 0) { A.v.push_back({p.first, p.second / 2}); B.v.push_back({p.second / 2 + 1, p.second}); acc = half; continue; }
    if (acc >= half) B.v.push_back(p); else if (acc + sz <= half) { A.v.push_back(p); acc += sz; } else { u64 k = half - acc; A.v.push_back({p.first, p.first + k - 1}); B.v.push_back({p.first + k, p.second}); acc = half; } }
  bool unk = false;
  for (auto *h : {&A, &B}) { if (h->empty()) continue; Env e2 = env; e2.dom[pick] = std::make_shared<ISet>(*h); Tri t = search(std::move(e2), n, set, S, cons, limit, w, boxes); if (t == YES) return YES; if (t == UNK) unk = true; }
  return unk ? UNK : NO;
}
Tri existsIn(const Env &env, N n, const ISet &set, u64 limit, Witness *w, int boxes) {
  if (n->op == CONST) { if (!set.contains(n->imm)) return NO; if (w) w->clear(); return YES; }
  ISet e = env.eval(n);
  if (e.inter(set).empty()) return NO;
  Sup S = closure(env, n->sup);
  std::vector<Cons> cons;
  for (auto &f : env.facts) if (f.n->sup.subsetOf(S)) cons.push_back({f.n, f.s.get()});
  if (boxCard(env, S) <= limit) { int b = 1; return search(env, n, set, S, cons, limit, w, b); }
  // relaxed problem on the support alone: NO is definite
  Sup T = n->sup; std::vector<Cons> c2;
  for (auto &f : env.facts) if (f.n->sup.subsetOf(T)) c2.push_back({f.n, f.s.get()});
  if (boxCard(env, T) <= limit) { int b = 1; if (search(env, n, set, T, c2, limit, nullptr, b) == NO) return NO; }
  return search(env, n, set, S, cons, std::min<u64>(limit, 1 << 12), w, boxes);
}
bool valuesOf(const Env &env, N n, u64 limit, size_t maxCard, ISet &out) {
  if (n->op == CONST) { out = ISet::single(n->imm); return true; }
  Sup S = closure(env, n->sup);
  bool exactCons = true;
  if (n->op == SYM && S.count() == 1) { bool any = false; for (auto &f : env.facts) if (f.n->sup.subsetOf(S)) any = true; if (!any) { out = *env.dom[n->imm]; return exactCons; } }
  if (boxCard(env, S) <= limit) {
    std::vector<Cons> cons; for (auto &f : env.facts) if (f.n->sup.subsetOf(S)) cons.push_back({f.n, f.s.get()});
    std::unordered_set<u64> xs; bool over = false;
    enumBox(env, S.list(), cons, n, [&](Evaluator &ev, int ex) { xs.insert(ev.val[ex]); if (xs.size() > maxCard) { over = true; return false; } return true; }, nullptr);
    if (!over) { std::vector<u64> v(xs.begin(), xs.end()); std::sort(v.begin(), v.end()); out = ISet(); for (u64 x : v) { if (!out.v.empty() && x == out.v.back().second + 1) out.v.back().second = x; else out.v.push_back({x, x}); } return exactCons; }
  }
  {  // values of the term alone, each one then related to the remaining facts
    Sup T = n->sup; ISet rel;
    if (boxCard(env, T) <= limit) {
      std::vector<Cons> c2; for (auto &f : env.facts) if (f.n->sup.subsetOf(T)) c2.push_back({f.n, f.s.get()});
      std::unordered_set<u64> xs; bool over = false;
      enumBox(env, T.list(), c2, n, [&](Evaluator &ev, int ex) { xs.insert(ev.val[ex]); if (xs.size() > maxCard) { over = true; return false; } return true; }, nullptr);
      if (!over) { std::vector<u64> v(xs.begin(), xs.end()); std::sort(v.begin(), v.end());
        bool exact = true; out = ISet();
        for (u64 x : v) { Tri t = v.size() <= 512 ? existsIn(env, n, ISet::single(x), 1 << 16, nullptr, 40) : UNK; if (t == UNK) exact = false; if (t == NO) continue; if (!out.v.empty() && x == out.v.back().second + 1) out.v.back().second = x; else out.v.push_back({x, x}); }
        if (out.empty()) out = env.eval(n);
        return exact; }
    }
  }
  out = env.eval(n);
  return false;
}
bool fullWitness(const Env &env0, const Witness &seed, u64 limit, Witness &out) {
  Env env = env0;
  for (auto &p : seed) env.dom[p.first] = std::make_shared<ISet>(ISet::single(p.second));
  for (auto &f : env0.facts) {
    bool open = false; for (int y : f.n->sup.list()) if (!env.dom[y]->isSingle()) open = true;
    if (!open) { if (env.eval(f.n).inter(*f.s).empty()) return false; continue; }
    Witness w; Tri t = existsIn(env, f.n, *f.s, limit, &w);
    if (t == NO) return false;
    for (auto &p : w) env.dom[p.first] = std::make_shared<ISet>(ISet::single(p.second));
  }
  out.clear();
  for (size_t i = 0; i < env.dom.size(); i++) if (env.dom[i]) out.push_back({(int)i, env.dom[i]->lo()});
  return true;
}
