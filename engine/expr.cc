#include "expr.h"
#include <set>
#include <algorithm>
#include <cassert>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <map>
#include <sstream>
#include <unordered_map>
#include <unordered_set>
#include "llvm/ADT/APSInt.h"
#include "llvm/ADT/StringExtras.h"

namespace vp {
using llvm::APFloat;
using llvm::ArrayRef;
using llvm::SmallVector;

const char* kOpNames[] = {"const", "var", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr",
  "concat", "extract", "sext", "eq", "ult", "ule", "slt", "sle", "ite", "fadd", "fmul", "fdiv", "fsqrt", "fma", "frint", "fcvt", "ftosi", "ftoui", "sitof", "uitof", "uf"};

// ---------------------------------------------------------------- interning
static uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull; h ^= h >> 32;
  return h;
}
static std::vector<E> gTable;      // open addressing
static uint64_t gCount = 0;
static char* gArena = nullptr; static size_t gArenaLeft = 0;
static void* alloc(size_t n) {
  n = (n + 15) & ~size_t(15);
  if (n > gArenaLeft) { size_t sz = std::max<size_t>(n, 1 << 20); gArena = (char*)malloc(sz); gArenaLeft = sz; }
  void* p = gArena; gArena += n; gArenaLeft -= n; return p;
}
uint64_t nodeCount() { return gCount; }

static uint64_t hashNode(Op op, uint32_t w, uint32_t a, uint32_t b, ArrayRef<E> k, const APInt* c) {
  uint64_t h = mix(op * 1315423911u, w);
  h = mix(h, a); h = mix(h, b);
  for (E e : k) h = mix(h, e->id * 0x9E3779B1ull + 7);
  if (c) for (unsigned i = 0; i < c->getNumWords(); ++i) h = mix(h, c->getRawData()[i]);
  return h;
}
static void grow() {
  std::vector<E> old; old.swap(gTable);
  gTable.assign(old.empty() ? 1 << 14 : old.size() * 2, nullptr);
  size_t m = gTable.size() - 1;
  for (E e : old) if (e) { size_t i = e->h & m; while (gTable[i]) i = (i + 1) & m; gTable[i] = e; }
}
static E intern(Op op, uint32_t w, uint32_t a, uint32_t b, ArrayRef<E> k, const APInt* c = nullptr) {
  if (gTable.size() < 2 * (gCount + 1)) grow();
  uint64_t h = hashNode(op, w, a, b, k, c);
  size_t m = gTable.size() - 1, i = h & m;
  for (; gTable[i]; i = (i + 1) & m) {
    E e = gTable[i];
    if (e->h != h || e->op != op || e->w != w || e->a != a || e->b != b || e->nk != k.size()) continue;
    if (c && e->c != *c) continue;
    bool same = true;
    for (unsigned j = 0; j < k.size(); ++j) if (e->k[j] != k[j]) { same = false; break; }
    if (same) return e;
  }
  Node* n = new (alloc(sizeof(Node))) Node{op, w, (uint32_t)gCount, a, b, (uint32_t)k.size(), nullptr, c ? *c : APInt(1, 0), h};
  if (!k.empty()) {
    E* kk = (E*)alloc(sizeof(E) * k.size());
    for (unsigned j = 0; j < k.size(); ++j) kk[j] = k[j];
    n->k = kk;
  }
  ++gCount;
  gTable[i] = n;
  return n;
}
static E nd(Op op, uint32_t w, ArrayRef<E> k, uint32_t a = 0, uint32_t b = 0) { return intern(op, w, a, b, k); }

E mkConst(const APInt& v) { return intern(CONST, v.getBitWidth(), 0, 0, {}, &v); }
E mkC(unsigned w, uint64_t v) { return mkConst(w <= 64 ? APInt(w, w == 64 ? v : v & ((1ull << w) - 1)) : APInt(w, v)); }
E mkCS(unsigned w, int64_t v) { return mkConst(APInt(w, (uint64_t)v, true)); }
E mkOnes(unsigned w) { return mkConst(APInt::getAllOnes(w)); }
E mkBool(bool b) { return mkC(1, b); }

static std::vector<std::string> gVarNames; static std::vector<E> gVarNodes;
E mkVar(unsigned w, const std::string& name) {
  uint32_t i = gVarNames.size(); gVarNames.push_back(name);
  E e = intern(VAR, w, i, 0, {}); gVarNodes.push_back(e); return e;
}
const std::string& varName(uint32_t i) { return gVarNames[i]; }
uint32_t numVars() { return gVarNames.size(); }
E varByIndex(uint32_t i) { return gVarNodes[i]; }

static std::vector<std::string> gUFNames; static std::unordered_map<std::string, uint32_t> gUFIdx;
// vdpbf16ps on constants: odd then even products, each fused, round to nearest, subnormals are zero
static E dpbf16Const(ArrayRef<E> a) {
  auto flush = [](APInt v) { if ((v.lshr(23) & 255).isZero()) v &= APInt(32, 0x80000000u); return APFloat(APFloat::IEEEsingle(), v); };
  APFloat r = flush(a[0]->c);
  for (unsigned h : {1u, 0u}) {
    APFloat x = flush((a[1]->c.lshr(16 * h) << 16)), y = flush((a[2]->c.lshr(16 * h) << 16));
    x.fusedMultiplyAdd(y, r, llvm::RoundingMode::NearestTiesToEven); r = flush(x.bitcastToAPInt());
  }
  return mkConst(r.bitcastToAPInt());
}
E mkUF(const std::string& name, unsigned w, ArrayRef<E> args) {
  if (name == "x86.dpbf16ps" && isC(args[0]) && isC(args[1]) && isC(args[2])) return dpbf16Const(args);
  auto it = gUFIdx.find(name);
  if (it == gUFIdx.end()) { it = gUFIdx.emplace(name, (uint32_t)gUFNames.size()).first; gUFNames.push_back(name); }
  return nd(UF, w, args, it->second);
}
const std::string& ufName(uint32_t i) { return gUFNames[i]; }

// ---------------------------------------------------------------- helpers
bool isNot(E e, E* base) {
  if (e->op == XOR && isOnes(e->kid(1))) { if (base) *base = e->kid(0); return true; }
  return false;
}
static bool compl_(E a, E b) { E x; return (isNot(a, &x) && x == b) || (isNot(b, &x) && x == a); }
static bool isMaskIte(E e) { return e->op == ITE && isOnes(e->kid(1)) && isZero(e->kid(2)); }
static void sort2(E& a, E& b) {  // constants last, otherwise by id
  if (isC(a) && !isC(b)) std::swap(a, b);
  else if (!isC(b) && !isC(a) && a->id > b->id) std::swap(a, b);
}

// ---------------------------------------------------------------- extract / concat
static std::unordered_map<uint64_t, E> gExtMemo[2];

E mkExtract(E x, unsigned lo, unsigned w) {
  assert(w > 0 && lo + w <= x->w);
  if (w == x->w) return x;
  switch (x->op) {
    case CONST: return mkConst(x->c.extractBits(w, lo));
    case EXTRACT: return mkExtract(x->kid(0), x->a + lo, w);
    case CONCAT: {
      SmallVector<E, 8> parts;  // hi to lo
      unsigned pos = x->w;
      for (unsigned i = 0; i < x->nk; ++i) {
        E p = x->kid(i); pos -= p->w;  // p occupies [pos, pos+p->w)
        unsigned b = std::max(lo, pos), e = std::min(lo + w, pos + p->w);
        if (b < e) parts.push_back(mkExtract(p, b - pos, e - b));
      }
      return mkConcat(parts);
    }
    case SEXT: {
      E in = x->kid(0);
      if (lo + w <= in->w) return mkExtract(in, lo, w);
      if (lo >= in->w - 1) { E m = mkExtract(in, in->w - 1, 1); return mkSExt(m, w); }
      return mkSExt(mkExtract(in, lo, in->w - lo), w);
    }
    case SITOF: if (lo == x->w - 1 && w == 1) return mkExtract(x->kid(0), x->kid(0)->w - 1, 1); break;
    case UITOF: if (lo == x->w - 1 && w == 1) return mkC(1, 0); break;
    case AND: case OR: case XOR: case ITE: {
      uint64_t key = (uint64_t)x->id << 32 | lo << 16 | w;
      if (x->w < 65536) { auto it = gExtMemo[0].find(key); if (it != gExtMemo[0].end()) return it->second; }
      E r;
      if (x->op == ITE) r = mkIte(x->kid(0), mkExtract(x->kid(1), lo, w), mkExtract(x->kid(2), lo, w));
      else {
        E a = mkExtract(x->kid(0), lo, w), b = mkExtract(x->kid(1), lo, w);
        r = x->op == AND ? mkAnd(a, b) : x->op == OR ? mkOr(a, b) : mkXor(a, b);
      }
      if (x->w < 65536) gExtMemo[0][key] = r;
      return r;
    }
    default: break;
  }
  return nd(EXTRACT, w, {x}, lo);
}

// Tries to merge two adjacent concat parts into one expression.
static E tryMerge(E hi, E lo) {
  if (isC(hi) && isC(lo)) return mkConst(hi->c.concat(lo->c));
  if (hi->op == EXTRACT && lo->op == EXTRACT && hi->kid(0) == lo->kid(0) && hi->a == lo->a + lo->w)
    return mkExtract(hi->kid(0), lo->a, hi->w + lo->w);
  // extract of x on top of arithmetic low part of the same node cannot happen (extracts are not pushed through arithmetic here)
  if (hi->op == ITE && lo->op == ITE && hi->kid(0) == lo->kid(0))
    return mkIte(hi->kid(0), mkConcat2(hi->kid(1), lo->kid(1)), mkConcat2(hi->kid(2), lo->kid(2)));
  unsigned w = hi->w + lo->w;
  if (hi->w == 1 && !isC(hi)) {
    if (hi == lo) return mkIte(hi, mkOnes(w), mkC(w, 0));
    if (isMaskIte(lo) && lo->kid(0) == hi) return mkIte(hi, mkOnes(w), mkC(w, 0));
    if (lo->w > 1 && lo->op != CONST) {
      // replicated sign bit
      if (lo->op == VAR || lo->op == EXTRACT || lo->op == CONCAT || lo->op == SEXT || lo->op == ADD || lo->op == SUB || lo->op == MUL || lo->op == XOR || lo->op == AND || lo->op == OR || lo->op == ITE)
        if (mkExtract(lo, lo->w - 1, 1) == hi) return mkSExt(lo, w);
    }
  }
  if (isMaskIte(hi)) {
    E c = hi->kid(0);
    if (lo == c) return mkIte(c, mkOnes(w), mkC(w, 0));
    if (lo->op != CONST && lo->w > 1 && mkExtract(lo, lo->w - 1, 1) == c) return mkSExt(lo, w);
  }
  if (hi->op == SEXT) return mkSExt(mkConcat2(hi->kid(0), lo), w);
  return nullptr;
}
E mkConcat2(E hi, E lo) { E k[2] = {hi, lo}; return mkConcat(k); }
E mkConcat(ArrayRef<E> in) {
  SmallVector<E, 16> st;  // hi to lo
  unsigned total = 0;
  SmallVector<E, 16> flat;
  for (E e : in) {
    total += e->w;
    if (e->op == CONCAT) for (unsigned i = 0; i < e->nk; ++i) flat.push_back(e->kid(i));
    else flat.push_back(e);
  }
  for (E e : flat) {
    while (!st.empty()) {
      E m = tryMerge(st.back(), e);
      if (!m) break;
      st.pop_back();
      if (m->op == CONCAT) { // flatten again
        for (unsigned i = 0; i + 1 < m->nk; ++i) st.push_back(m->kid(i));
        e = m->kid(m->nk - 1);
        break;
      }
      e = m;
    }
    st.push_back(e);
  }
  if (st.size() == 1) return st[0];
  return nd(CONCAT, total, st);
}
E mkZExt(E x, unsigned w) { return w == x->w ? x : mkConcat2(mkC(w - x->w, 0), x); }
E mkTrunc(E x, unsigned w) { return mkExtract(x, 0, w); }
E mkZExtOrTrunc(E x, unsigned w) { return w >= x->w ? mkZExt(x, w) : mkTrunc(x, w); }
E mkSExt(E x, unsigned w) {
  if (w == x->w) return x;
  if (isC(x)) return mkConst(x->c.sext(w));
  if (x->w == 1) return mkIte(x, mkOnes(w), mkC(w, 0));
  if (x->op == SEXT) return mkSExt(x->kid(0), w);
  if (x->op == CONCAT && isC(x->kid(0))) {
    SmallVector<E, 8> k; k.push_back(mkConst(x->kid(0)->c.sext(x->kid(0)->w + (w - x->w))));
    for (unsigned i = 1; i < x->nk; ++i) k.push_back(x->kid(i));
    return mkConcat(k);
  }
  if (x->op == ITE && isC(x->kid(1)) && isC(x->kid(2))) return mkIte(x->kid(0), mkSExt(x->kid(1), w), mkSExt(x->kid(2), w));
  return nd(SEXT, w, {x});
}

// ---------------------------------------------------------------- bitwise
static E bitop(Op op, E a, E b) { return op == AND ? mkAnd(a, b) : op == OR ? mkOr(a, b) : mkXor(a, b); }

// Splits both operands at the union of their concat boundaries.
static E splitBit(Op op, E a, E b) {
  std::vector<unsigned> cuts;
  for (E e : {a, b}) {
    if (e->op == CONCAT) { unsigned pos = 0; for (int i = e->nk - 1; i > 0; --i) { pos += e->kid(i)->w; cuts.push_back(pos); } }
    else if (e->op == CONST) {
      for (unsigned i = 1; i < e->w; ++i) if (e->c[i] != e->c[i - 1]) cuts.push_back(i);
    }
  }
  std::sort(cuts.begin(), cuts.end()); cuts.erase(std::unique(cuts.begin(), cuts.end()), cuts.end());
  cuts.push_back(a->w);
  SmallVector<E, 16> parts; unsigned lo = 0;
  for (unsigned c : cuts) { parts.push_back(bitop(op, mkExtract(a, lo, c - lo), mkExtract(b, lo, c - lo))); lo = c; }
  std::reverse(parts.begin(), parts.end());
  return mkConcat(parts);
}
static unsigned runs(const APInt& c) { unsigned r = 1; for (unsigned i = 1; i < c.getBitWidth(); ++i) if (c[i] != c[i - 1]) ++r; return r; }
static bool wantSplit(E a, E b) {
  if (a->w == 1) return false;
  auto big = [](E e) { return e->op == CONCAT && e->nk > 600; };
  if (big(a) || big(b)) return false;
  if (a->op == CONCAT || b->op == CONCAT) return true;
  if (isC(b) && !b->c.isAllOnes() && !b->c.isZero()) return runs(b->c) <= 128;
  return false;
}

E mkNot(E a) { return mkXor(a, mkOnes(a->w)); }
E mkAnd(E a, E b) {
  assert(a->w == b->w);
  sort2(a, b);
  if (isC(b)) {
    if (isC(a)) return mkConst(a->c & b->c);
    if (b->c.isZero()) return b;
    if (b->c.isAllOnes()) return a;
  }
  if (a == b) return a;
  if (compl_(a, b)) return mkC(a->w, 0);
  for (int s = 0; s < 2; ++s, std::swap(a, b)) if (isMaskIte(a)) return mkIte(a->kid(0), b, mkC(a->w, 0));
  if (a->op == ITE && b->op == ITE && a->kid(0) == b->kid(0))
    return mkIte(a->kid(0), mkAnd(a->kid(1), b->kid(1)), mkAnd(a->kid(2), b->kid(2)));
  for (int s = 0; s < 2; ++s, std::swap(a, b))
    if (a->op == ITE && isC(a->kid(1)) && isC(a->kid(2)))
      return mkIte(a->kid(0), mkAnd(a->kid(1), b), mkAnd(a->kid(2), b));
  if (wantSplit(a, b)) return splitBit(AND, a, b);
  // x & (x & y) -> x & y ; x & (x | y) -> x ; x & (~x & y) -> 0
  for (int s = 0; s < 2; ++s, std::swap(a, b)) {
    if (b->op == AND && (b->kid(0) == a || b->kid(1) == a)) return b;
    if (b->op == AND && (compl_(b->kid(0), a) || compl_(b->kid(1), a))) return mkC(a->w, 0);
    if (b->op == OR && (b->kid(0) == a || b->kid(1) == a)) return a;
  }
  sort2(a, b);
  return nd(AND, a->w, {a, b});
}
E mkOr(E a, E b) {
  assert(a->w == b->w);
  sort2(a, b);
  if (isC(b)) {
    if (isC(a)) return mkConst(a->c | b->c);
    if (b->c.isZero()) return a;
    if (b->c.isAllOnes()) return b;
  }
  if (a == b) return a;
  if (compl_(a, b)) return mkOnes(a->w);
  for (int s = 0; s < 2; ++s, std::swap(a, b)) if (isMaskIte(a)) return mkIte(a->kid(0), mkOnes(a->w), b);
  if (a->op == ITE && b->op == ITE && a->kid(0) == b->kid(0))
    return mkIte(a->kid(0), mkOr(a->kid(1), b->kid(1)), mkOr(a->kid(2), b->kid(2)));
  if (a->op == ITE && b->op == ITE && a->kid(0)->op == b->kid(0)->op && (a->kid(0)->op == ULT || a->kid(0)->op == SLT) && a->kid(0)->kid(0) == b->kid(0)->kid(1) && a->kid(0)->kid(1) == b->kid(0)->kid(0) && (isZero(a->kid(2)) || isZero(b->kid(2)))) {
    // exclusive conditions: (p < q ? x : 0) | (q < p ? y : 0); absolute difference of unsigned values
    if (isZero(a->kid(2)) && isZero(b->kid(2))) {
      E p = a->kid(0)->kid(0), q = a->kid(0)->kid(1);
      if (p->w == a->w && a->kid(1) == mkSub(q, p) && b->kid(1) == mkSub(p, q)) return p->id < q->id ? mkIte(a->kid(0), a->kid(1), b->kid(1)) : mkIte(b->kid(0), b->kid(1), a->kid(1));
    }
  }
  for (int s = 0; s < 2; ++s, std::swap(a, b))
    if (a->op == ITE && isC(a->kid(1)) && isC(a->kid(2)))
      return mkIte(a->kid(0), mkOr(a->kid(1), b), mkOr(a->kid(2), b));
  if (wantSplit(a, b)) return splitBit(OR, a, b);
  for (int s = 0; s < 2; ++s, std::swap(a, b)) {
    if (b->op == OR && (b->kid(0) == a || b->kid(1) == a)) return b;
    if (b->op == OR && (compl_(b->kid(0), a) || compl_(b->kid(1), a))) return mkOnes(a->w);
    if (b->op == AND && (b->kid(0) == a || b->kid(1) == a)) return a;
    // (a & b) | (~a & c) for masks of any width: canonical form kept as is
  }
  sort2(a, b);
  return nd(OR, a->w, {a, b});
}
E mkXor(E a, E b) {
  assert(a->w == b->w);
  sort2(a, b);
  if (isC(b)) {
    if (isC(a)) return mkConst(a->c ^ b->c);
    if (b->c.isZero()) return a;
    if (a->op == XOR && isC(a->kid(1))) return mkXor(a->kid(0), mkConst(a->kid(1)->c ^ b->c));
    if (b->c.isAllOnes()) {
      if (a->w == 1) {
        switch (a->op) {
          case ULT: return mkUle(a->kid(1), a->kid(0));
          case ULE: return mkUlt(a->kid(1), a->kid(0));
          case SLT: return mkSle(a->kid(1), a->kid(0));
          case SLE: return mkSlt(a->kid(1), a->kid(0));
          default: break;
        }
      }
      if (a->op == CONCAT) { SmallVector<E, 16> p; for (unsigned i = 0; i < a->nk; ++i) p.push_back(mkNot(a->kid(i))); return mkConcat(p); }
      if (a->op == SEXT) return mkSExt(mkNot(a->kid(0)), a->w);
    }
  }
  if (a == b) return mkC(a->w, 0);
  if (compl_(a, b)) return mkOnes(a->w);
  E x;
  if (isNot(a, &x) && !isC(b)) return mkNot(mkXor(x, b));
  if (isNot(b, &x) && !isC(a)) return mkNot(mkXor(a, x));
  if (a->w > 1) for (int s = 0; s < 2; ++s, std::swap(a, b)) if (isMaskIte(a)) return mkIte(a->kid(0), mkNot(b), b);
  if (a->op == ITE && b->op == ITE && a->kid(0) == b->kid(0))
    return mkIte(a->kid(0), mkXor(a->kid(1), b->kid(1)), mkXor(a->kid(2), b->kid(2)));
  for (int s = 0; s < 2; ++s, std::swap(a, b))
    if (a->op == ITE && isC(a->kid(1)) && isC(a->kid(2)))
      return mkIte(a->kid(0), mkXor(a->kid(1), b), mkXor(a->kid(2), b));
  if (wantSplit(a, b)) return splitBit(XOR, a, b);
  for (int s = 0; s < 2; ++s, std::swap(a, b))
    if (b->op == XOR && !isC(b->kid(1))) { if (b->kid(0) == a) return b->kid(1); if (b->kid(1) == a) return b->kid(0); }
  sort2(a, b);
  return nd(XOR, a->w, {a, b});
}

// ---------------------------------------------------------------- arithmetic
static bool constTree(E e); static E overTree(E t, const std::function<E(E)>& f); extern bool gExpMode;
E mkAdd(E a, E b) {
  assert(a->w == b->w);
  if (a->w == 1) return mkXor(a, b);
  sort2(a, b);
  if (isC(b)) {
    if (isC(a)) return mkConst(a->c + b->c);
    if (b->c.isZero()) return a;
    if (a->op == ADD && isC(a->kid(1))) return mkAdd(a->kid(0), mkConst(a->kid(1)->c + b->c));
    if (a->op == SUB && isC(a->kid(0))) return mkSub(mkConst(a->kid(0)->c + b->c), a->kid(1));
    if (a->op == ITE && isC(a->kid(1)) && isC(a->kid(2))) return mkIte(a->kid(0), mkAdd(a->kid(1), b), mkAdd(a->kid(2), b));
    if (constTree(a)) return overTree(a, [&](E t) { return mkAdd(t, b); });
    if (gExpMode && (a->op == CONCAT || a->op == EXTRACT || a->op == VAR)) {
      unsigned tz = b->c.countr_zero();
      if (tz) return mkConcat2(mkAdd(mkExtract(a, tz, a->w - tz), mkConst(b->c.extractBits(a->w - tz, tz))), mkExtract(a, 0, tz));
    }
    if (gExpMode && a->op == CONCAT && isC(a->kid(0))) {
      unsigned hw = a->kid(0)->w, lw = a->w - hw; E y = mkExtract(a, 0, lw);
      APInt c = b->c.trunc(lw), ch = a->kid(0)->c + b->c.extractBits(hw, lw); if (c.isZero()) return mkConcat2(mkConst(ch), y);
      E carry = mkUlt(mkConst(~c), y), lo = mkAdd(y, mkConst(c));
      return mkIte(carry, mkConcat2(mkConst(ch + 1), lo), mkConcat2(mkConst(ch), lo));
    }
    // low zero bits of the constant do not disturb the low part
    if (a->op == CONCAT) {
      E lo = a->kid(a->nk - 1);
      unsigned tz = b->c.countr_zero();
      if (tz >= lo->w) return mkConcat2(mkAdd(mkExtract(a, lo->w, a->w - lo->w), mkConst(b->c.extractBits(a->w - lo->w, lo->w))), lo);
    }
  }
  if (b->op == ADD && isC(b->kid(1)) && !(a->op == ADD && isC(a->kid(1)))) return mkAdd(mkAdd(a, b->kid(0)), b->kid(1));
  if (a->op == ADD && isC(a->kid(1)) && !isC(b)) return mkAdd(mkAdd(a->kid(0), b), a->kid(1));
  for (int s = 0; s < 2; ++s, std::swap(a, b)) {
    if (a->op == SUB && a->kid(1) == b) return a->kid(0);                 // (x - b) + b
    if (a->op == SUB && isZero(a->kid(0))) return mkSub(b, a->kid(1));    // -x + b
  }
  if (compl_(a, b)) return mkOnes(a->w);
  sort2(a, b);
  return nd(ADD, a->w, {a, b});
}
E mkNeg(E a) { return mkSub(mkC(a->w, 0), a); }
E mkSub(E a, E b) {
  assert(a->w == b->w);
  if (a->w == 1) return mkXor(a, b);
  if (isZero(a) && a->w > 1 && b->op == CONCAT && b->nk == 2 && isZero(b->kid(0)) && b->kid(1)->w == 1) return mkSExt(b->kid(1), a->w);
  if (a == b) return mkC(a->w, 0);
  if (isC(b)) return mkAdd(a, mkConst(-b->c));
  if (isC(a)) {
    if (b->op == ADD && isC(b->kid(1))) return mkSub(mkConst(a->c - b->kid(1)->c), b->kid(0));
    if (b->op == SUB && isC(b->kid(0))) return mkAdd(b->kid(1), mkConst(a->c - b->kid(0)->c));
    if (b->op == ITE && isC(b->kid(1)) && isC(b->kid(2))) return mkIte(b->kid(0), mkSub(a, b->kid(1)), mkSub(a, b->kid(2)));
    if (constTree(b)) return overTree(b, [&](E t) { return mkSub(a, t); });
    if (gExpMode && b->op == CONCAT && isC(b->kid(0))) return mkAdd(mkNot(b), mkConst(a->c + 1));
    E x;
    if (a->c.isAllOnes()) return mkXor(b, a);
    if (a->c.isZero() && isNot(b, &x)) return mkAdd(x, mkC(a->w, 1));
    if (a->c.isZero() && b->op == SUB) return mkSub(b->kid(1), b->kid(0));
  }
  if (a->op == ADD) { if (a->kid(0) == b) return a->kid(1); if (a->kid(1) == b) return a->kid(0); }
  if (a->op == ADD && b->op == ADD) {
    // cancel common terms
    if (a->kid(0) == b->kid(0)) return mkSub(a->kid(1), b->kid(1));
    if (isC(a->kid(1)) && isC(b->kid(1))) return mkAdd(mkSub(a->kid(0), b->kid(0)), mkConst(a->kid(1)->c - b->kid(1)->c));
  }
  if (a->op == ADD && isC(a->kid(1))) return mkAdd(mkSub(a->kid(0), b), a->kid(1));
  if (b->op == ADD && isC(b->kid(1))) return mkAdd(mkSub(a, b->kid(0)), mkConst(-b->kid(1)->c));
  return nd(SUB, a->w, {a, b});
}
E mkMul(E a, E b) {
  assert(a->w == b->w);
  if (a->w == 1) return mkAnd(a, b);
  sort2(a, b);
  if (isC(b)) {
    if (isC(a)) return mkConst(a->c * b->c);
    if (b->c.isZero()) return b;
    if (b->c.isOne()) return a;
    if (b->c.isAllOnes()) return mkNeg(a);
    if (b->c.isPowerOf2()) return mkShl(a, mkC(a->w, b->c.logBase2()));
    if (a->op == ITE && isC(a->kid(1)) && isC(a->kid(2))) return mkIte(a->kid(0), mkMul(a->kid(1), b), mkMul(a->kid(2), b));
  }
  return nd(MUL, a->w, {a, b});
}
static unsigned topZeros(E e);
static unsigned signExtraBits(E e);
E mkUDiv(E a, E b) {
  if (isC(b) && !b->c.isZero()) {
    if (isC(a)) return mkConst(a->c.udiv(b->c));
    if (b->c.isOne()) return a;
    if (b->c.isPowerOf2()) return mkLShr(a, mkC(a->w, b->c.logBase2()));
  }
  if (isC(a) && isC(b)) return mkOnes(a->w);
  unsigned z = std::min(topZeros(a), topZeros(b)); if (z >= a->w) z = a->w - 1;
  if (z) { unsigned n = a->w - z; return mkIte(mkEq(b, mkC(b->w, 0)), mkOnes(a->w), mkZExt(mkUDiv(mkTrunc(a, n), mkTrunc(b, n)), a->w)); }
  return nd(UDIV, a->w, {a, b});
}
E mkURem(E a, E b) {
  if (isC(b) && !b->c.isZero()) {
    if (isC(a)) return mkConst(a->c.urem(b->c));
    if (b->c.isOne()) return mkC(a->w, 0);
    if (b->c.isPowerOf2()) return mkZExt(mkExtract(a, 0, b->c.logBase2()), a->w);
  }
  if (isC(a) && isC(b)) return a;
  unsigned z = std::min(topZeros(a), topZeros(b)); if (z >= a->w) z = a->w - 1;
  if (z) { unsigned n = a->w - z; return mkZExt(mkURem(mkTrunc(a, n), mkTrunc(b, n)), a->w); }
  return nd(UREM, a->w, {a, b});
}
E mkSDiv(E a, E b) {
  if (isC(b) && !b->c.isZero()) {
    if (isC(a) && !(a->c.isMinSignedValue() && b->c.isAllOnes())) return mkConst(a->c.sdiv(b->c));
    if (b->c.isOne() && b->w > 1) return a;
  }
  if (topZeros(a) && topZeros(b)) return mkUDiv(a, b);
  unsigned x = std::min(signExtraBits(a), signExtraBits(b));
  if (x > 1) { unsigned m = a->w - x + 1; return mkSExt(mkSDiv(mkTrunc(a, m), mkTrunc(b, m)), a->w); }
  return nd(SDIV, a->w, {a, b});
}
E mkSRem(E a, E b) {
  if (isC(b) && !b->c.isZero()) {
    if (isC(a) && !(a->c.isMinSignedValue() && b->c.isAllOnes())) return mkConst(a->c.srem(b->c));
  }
  if (topZeros(a) && topZeros(b)) return mkURem(a, b);
  unsigned x = std::min(signExtraBits(a), signExtraBits(b));
  if (x) { unsigned m = a->w - x; return mkSExt(mkSRem(mkTrunc(a, m), mkTrunc(b, m)), a->w); }
  return nd(SREM, a->w, {a, b});
}
static bool pow2Width(unsigned w) { return (w & (w - 1)) == 0; }
E mkShl(E a, E s) {
  assert(a->w == s->w);
  if (isC(s)) {
    if (s->c.uge(a->w)) return mkC(a->w, 0);
    unsigned k = s->c.getZExtValue();
    if (k == 0) return a;
    return mkConcat2(mkExtract(a, 0, a->w - k), mkC(k, 0));
  }
  if (isZero(a)) return a;
  if (s->op == ITE && isC(s->kid(1)) && isC(s->kid(2))) return mkIte(s->kid(0), mkShl(a, s->kid(1)), mkShl(a, s->kid(2)));
  if (constTree(s)) return overTree(s, [&](E t) { return mkShl(a, t); });
  return nd(SHL, a->w, {a, s});
}
E mkLShr(E a, E s) {
  assert(a->w == s->w);
  if (isC(s)) {
    if (s->c.uge(a->w)) return mkC(a->w, 0);
    unsigned k = s->c.getZExtValue();
    if (k == 0) return a;
    return mkConcat2(mkC(k, 0), mkExtract(a, k, a->w - k));
  }
  if (isZero(a)) return a;
  if (s->op == ITE && isC(s->kid(1)) && isC(s->kid(2))) return mkIte(s->kid(0), mkLShr(a, s->kid(1)), mkLShr(a, s->kid(2)));
  if (constTree(s)) return overTree(s, [&](E t) { return mkLShr(a, t); });
  return nd(LSHR, a->w, {a, s});
}
E mkAShr(E a, E s) {
  assert(a->w == s->w);
  if (isC(s)) {
    unsigned k = s->c.uge(a->w) ? a->w - 1 : s->c.getZExtValue();
    if (k == 0) return a;
    return mkSExt(mkExtract(a, k, a->w - k), a->w);
  }
  if (isZero(a) || isOnes(a)) return a;
  if (s->op == ITE && isC(s->kid(1)) && isC(s->kid(2))) return mkIte(s->kid(0), mkAShr(a, s->kid(1)), mkAShr(a, s->kid(2)));
  if (constTree(s)) return overTree(s, [&](E t) { return mkAShr(a, t); });
  return nd(ASHR, a->w, {a, s});
}

// ---------------------------------------------------------------- comparisons
static unsigned topZeros(E e) {
  if (isC(e)) return e->c.countl_zero();
  if (e->op == CONCAT) {
    E k0 = e->kid(0);
    if (isC(k0)) { unsigned z = k0->c.countl_zero(); return z; }
  }
  return 0;
}
E mkEq(E a, E b) {
  assert(a->w == b->w);
  if (a == b) return mkBool(true);
  sort2(a, b);
  if (isC(a) && isC(b)) return mkBool(a->c == b->c);
  if (compl_(a, b)) return mkBool(false);
  if (a->w == 1) {
    if (isC(b)) return b->c.isZero() ? mkNot(a) : a;
    return mkNot(mkXor(a, b));
  }
  if (a->op == ITE && b->op == ITE && a->kid(0) == b->kid(0))
    return mkIte(a->kid(0), mkEq(a->kid(1), b->kid(1)), mkEq(a->kid(2), b->kid(2)));
  if (isC(b)) {
    if (a->op == ITE && (isC(a->kid(1)) || isC(a->kid(2)))) return mkIte(a->kid(0), mkEq(a->kid(1), b), mkEq(a->kid(2), b));
    if (a->op == ADD && isC(a->kid(1))) return mkEq(a->kid(0), mkConst(b->c - a->kid(1)->c));
    if (a->op == XOR && isC(a->kid(1))) return mkEq(a->kid(0), mkConst(b->c ^ a->kid(1)->c));
    if (a->op == SEXT) {
      unsigned iw = a->kid(0)->w;
      if (b->c.getNumSignBits() > a->w - iw) return mkEq(a->kid(0), mkConst(b->c.trunc(iw)));
      return mkBool(false);
    }
  }
  if (a->op == SEXT && b->op == SEXT && a->kid(0)->w == b->kid(0)->w) return mkEq(a->kid(0), b->kid(0));
  if (a->op == CONCAT && (b->op == CONCAT || isC(b))) {
    // quick disequality / trim: split at common boundaries
    std::vector<unsigned> ca, cb, cuts;
    unsigned pos = 0; for (int i = a->nk - 1; i >= 0; --i) { pos += a->kid(i)->w; ca.push_back(pos); }
    if (isC(b)) cuts = ca;
    else {
      pos = 0; for (int i = b->nk - 1; i >= 0; --i) { pos += b->kid(i)->w; cb.push_back(pos); }
      std::set_intersection(ca.begin(), ca.end(), cb.begin(), cb.end(), std::back_inserter(cuts));
    }
    if (cuts.size() > 1) {
      E r = mkBool(true); unsigned lo = 0;
      for (unsigned c : cuts) { r = mkAnd(r, mkEq(mkExtract(a, lo, c - lo), mkExtract(b, lo, c - lo))); lo = c; if (isFalse(r)) return r; }
      return r;
    }
  }
  return nd(EQ, 1, {a, b});
}
E mkNe(E a, E b) { return mkNot(mkEq(a, b)); }

// x with flipped sign bit?
static bool isFlip(E e, E* out) {
  if (e->op == CONCAT) {
    E t = e->kid(0), x;
    if (t->w == 1 && isNot(t, &x)) {
      SmallVector<E, 8> k; k.push_back(x);
      for (unsigned i = 1; i < e->nk; ++i) k.push_back(e->kid(i));
      *out = mkConcat(k); return true;
    }
    // NOT of comparison at the top
  }
  if (e->op == ADD && isC(e->kid(1)) && e->kid(1)->c.isMinSignedValue()) { *out = e->kid(0); return true; }
  if (isC(e)) { APInt v = e->c; v.flipBit(e->w - 1); *out = mkConst(v); return true; }
  return false;
}
static E narrowCmp(Op op, E a, E b, E (*self)(E, E), E (*uns)(E, E));
// The known constant at the top of e (0 bits when there is none).
static unsigned topConst(E e, APInt* v) {
  if (isC(e)) { *v = e->c; return e->w; }
  if (e->op == CONCAT && isC(e->kid(0))) { *v = e->kid(0)->c; return e->kid(0)->w; }
  return 0;
}
// 0: unknown, 1: a < b, 2: a > b; 3: equal prefix of *n bits
static int prefixOrder(E a, E b, unsigned* n) {
  APInt va(1, 0), vb(1, 0); unsigned na = topConst(a, &va), nb = topConst(b, &vb); *n = std::min(na, nb);
  if (!*n) return 0;
  APInt x = va.extractBits(*n, na - *n), y = vb.extractBits(*n, nb - *n);
  return x.ult(y) ? 1 : y.ult(x) ? 2 : *n < a->w ? 3 : 0;
}
bool gExpMode = false;  // rules that only pay off once the exponent of a floating-point input is fixed
static unsigned constLeaves(E e, unsigned lim) { if (isC(e)) return 1; if (e->op != ITE || lim == 0) return 99; unsigned l = constLeaves(e->kid(1), lim - 1); return l > 8 ? 99 : l + constLeaves(e->kid(2), lim - 1); }
static bool constTree(E e) { return gExpMode && e->op == ITE && constLeaves(e, 5) <= 8; }
static E overTree(E t, const std::function<E(E)>& f) { return isC(t) ? f(t) : mkIte(t->kid(0), overTree(t->kid(1), f), overTree(t->kid(2), f)); }
E mkUlt(E a, E b) {
  assert(a->w == b->w);
  if (!(isC(a) && isC(b))) { unsigned n; int o = prefixOrder(a, b, &n); if (o == 1 || o == 2) return mkBool(o == 1); if (o == 3) return mkUlt(mkExtract(a, 0, a->w - n), mkExtract(b, 0, a->w - n)); }
  if (isC(b) && constTree(a)) return overTree(a, [&](E t) { return mkUlt(t, b); });
  if (isC(a) && constTree(b)) return overTree(b, [&](E t) { return mkUlt(a, t); });
  if (a == b) return mkBool(false);
  if (isC(a) && isC(b)) return mkBool(a->c.ult(b->c));
  if (isC(b) && b->c.isZero()) return mkBool(false);
  if (isC(a) && a->c.isAllOnes()) return mkBool(false);
  if (a->w == 1) return mkAnd(mkNot(a), b);
  if (isC(b) && b->c.isOne()) return mkEq(a, mkC(a->w, 0));
  if (isC(a) && a->c.isZero()) return mkNe(b, a);
  if (isC(b) && b->c.isPowerOf2()) return mkEq(mkExtract(a, b->c.logBase2(), a->w - b->c.logBase2()), mkC(a->w - b->c.logBase2(), 0));
  if (isC(a) && (a->c + 1).isPowerOf2()) { unsigned t = (a->c + 1).logBase2(); return mkNe(mkExtract(b, t, b->w - t), mkC(b->w - t, 0)); }
  if (a->op == ITE && isC(a->kid(1)) && isC(a->kid(2)) && isC(b)) return mkIte(a->kid(0), mkUlt(a->kid(1), b), mkUlt(a->kid(2), b));
  if (b->op == ITE && isC(b->kid(1)) && isC(b->kid(2)) && isC(a)) return mkIte(b->kid(0), mkUlt(a, b->kid(1)), mkUlt(a, b->kid(2)));
  unsigned za = topZeros(a), zb = topZeros(b);
  if (za && zb) { unsigned z = std::min(std::min(za, zb), a->w - 1); return mkUlt(mkExtract(a, 0, a->w - z), mkExtract(b, 0, a->w - z)); }
  if (za && isC(b) && zb == 0) return mkBool(true);
  if (zb && isC(a) && za == 0) return mkBool(false);
  // common low part is irrelevant only if equal; common high constant handled by equal prefix
  if (a->op == CONCAT && b->op == CONCAT && a->kid(0) == b->kid(0)) { unsigned t = a->w - a->kid(0)->w; return mkUlt(mkExtract(a, 0, t), mkExtract(b, 0, t)); }
  E fa, fb;
  if (isNot(a, &fa) && isNot(b, &fb)) return mkUlt(fb, fa);
  if (!isC(a) && !isC(b) && isFlip(a, &fa) && isFlip(b, &fb)) return mkSlt(fa, fb);
  if ((isC(b) && !isC(a) && isFlip(a, &fa)) ) { isFlip(b, &fb); return mkSlt(fa, fb); }
  if ((isC(a) && !isC(b) && isFlip(b, &fb)) ) { isFlip(a, &fa); return mkSlt(fa, fb); }
  return nd(ULT, 1, {a, b});
}
E mkUle(E a, E b) {
  assert(a->w == b->w);
  if (a == b) return mkBool(true);
  if (isC(a) && isC(b)) return mkBool(a->c.ule(b->c));
  if (isC(a)) { if (a->c.isZero()) return mkBool(true); return mkUlt(mkConst(a->c - 1), b); }
  if (isC(b)) { if (b->c.isAllOnes()) return mkBool(true); return mkUlt(a, mkConst(b->c + 1)); }
  if (a->w == 1) return mkOr(mkNot(a), b);
  { unsigned n; int o = prefixOrder(a, b, &n); if (o == 1 || o == 2) return mkBool(o == 1); if (o == 3) return mkUle(mkExtract(a, 0, a->w - n), mkExtract(b, 0, a->w - n)); }
  unsigned z = std::min(std::min(topZeros(a), topZeros(b)), a->w - 1);
  if (z) return mkUle(mkExtract(a, 0, a->w - z), mkExtract(b, 0, a->w - z));
  if (a->op == CONCAT && b->op == CONCAT && a->kid(0) == b->kid(0)) { unsigned t = a->w - a->kid(0)->w; return mkUle(mkExtract(a, 0, t), mkExtract(b, 0, t)); }
  E fa, fb;
  if (isFlip(a, &fa) && isFlip(b, &fb)) return mkSle(fa, fb);
  return nd(ULE, 1, {a, b});
}
static unsigned signExtraBits(E e) {  // number of redundant sign bits
  if (isC(e)) return e->c.getNumSignBits() - 1;
  if (e->op == SEXT) return e->w - e->kid(0)->w;
  unsigned z = topZeros(e);
  return z ? z - 1 : 0;
}
E mkSlt(E a, E b) {
  assert(a->w == b->w);
  if (a == b) return mkBool(false);
  if (isC(a) && isC(b)) return mkBool(a->c.slt(b->c));
  if (a->w == 1) return mkAnd(a, mkNot(b));
  if (isC(b) && b->c.isZero()) return mkExtract(a, a->w - 1, 1);
  if (isC(a) && a->c.isAllOnes()) return mkNot(mkExtract(b, b->w - 1, 1));
  if (isC(b) && b->c.isMinSignedValue()) return mkBool(false);
  if (isC(a) && a->c.isMaxSignedValue()) return mkBool(false);
  if (a->op == ITE && isC(a->kid(1)) && isC(a->kid(2)) && isC(b)) return mkIte(a->kid(0), mkSlt(a->kid(1), b), mkSlt(a->kid(2), b));
  if (b->op == ITE && isC(b->kid(1)) && isC(b->kid(2)) && isC(a)) return mkIte(b->kid(0), mkSlt(a, b->kid(1)), mkSlt(a, b->kid(2)));
  unsigned za = topZeros(a), zb = topZeros(b);
  if (za && zb) return mkUlt(a, b);
  if (za && isC(b) && b->c.isNegative()) return mkBool(false);
  if (zb && isC(a) && a->c.isNegative()) return mkBool(true);
  unsigned n = std::min(signExtraBits(a), signExtraBits(b));
  if (n) return mkSlt(mkExtract(a, 0, a->w - n), mkExtract(b, 0, a->w - n));
  // narrow value vs. constant outside of its range
  if (isC(b)) { unsigned s = signExtraBits(a); if (s && b->c.getNumSignBits() - 1 < s) return mkBool(!b->c.isNegative()); }
  if (isC(a)) { unsigned s = signExtraBits(b); if (s && a->c.getNumSignBits() - 1 < s) return mkBool(a->c.isNegative()); }
  E fa, fb;
  if (isNot(a, &fa) && isNot(b, &fb)) return mkSlt(fb, fa);
  if (!isC(a) && isFlip(a, &fa) && isFlip(b, &fb)) return mkUlt(fa, fb);
  if (!isC(b) && isFlip(b, &fb) && isFlip(a, &fa)) return mkUlt(fa, fb);
  return nd(SLT, 1, {a, b});
}
E mkSle(E a, E b) {
  if (a == b) return mkBool(true);
  if (isC(a) && isC(b)) return mkBool(a->c.sle(b->c));
  if (isC(a)) { if (a->c.isMinSignedValue()) return mkBool(true); return mkSlt(mkConst(a->c - 1), b); }
  if (isC(b)) { if (b->c.isMaxSignedValue()) return mkBool(true); return mkSlt(a, mkConst(b->c + 1)); }
  if (a->w == 1) return mkOr(a, mkNot(b));
  if (topZeros(a) && topZeros(b)) return mkUle(a, b);
  unsigned n = std::min(signExtraBits(a), signExtraBits(b));
  if (n) return mkSle(mkExtract(a, 0, a->w - n), mkExtract(b, 0, a->w - n));
  E fa, fb;
  if (isFlip(a, &fa) && isFlip(b, &fb)) return mkUle(fa, fb);
  return nd(SLE, 1, {a, b});
}
E mkUMin(E a, E b) { return mkIte(mkUlt(a, b), a, b); }
E mkUMax(E a, E b) { return mkIte(mkUlt(a, b), b, a); }
E mkSMin(E a, E b) { return mkIte(mkSlt(a, b), a, b); }
E mkSMax(E a, E b) { return mkIte(mkSlt(a, b), b, a); }

// ---------------------------------------------------------------- ite
E mkIte(E c, E a, E b) {
  assert(c->w == 1 && a->w == b->w);
  if (isC(c)) return isTrue(c) ? a : b;
  if (a == b) return a;
  E x;
  if (isNot(c, &x)) return mkIte(x, b, a);
  // canonical polarity: prefer strict comparisons
  if (c->op == ULE || c->op == SLE) return mkIte(mkNot(c), b, a);
  if (a->op == ITE && a->kid(0) == c) return mkIte(c, a->kid(1), b);
  if (b->op == ITE && b->kid(0) == c) return mkIte(c, a, b->kid(2));
  if (a->w == 1) {
    if (isTrue(a)) return mkOr(c, b);
    if (isFalse(a)) return mkAnd(mkNot(c), b);
    if (isTrue(b)) return mkOr(mkNot(c), a);
    if (isFalse(b)) return mkAnd(c, a);
    if (a == c) return mkOr(c, b);
    if (b == c) return mkAnd(c, a);
    if (compl_(a, b)) return mkXor(c, b);
  }
  // ite(c, x, ite(d, x, y)) -> ite(c|d, x, y)
  if (b->op == ITE && b->kid(1) == a) return mkIte(mkOr(c, b->kid(0)), a, b->kid(2));
  if (b->op == ITE && b->kid(2) == a) return mkIte(mkOr(c, mkNot(b->kid(0))), a, b->kid(1));
  if (a->op == ITE && a->kid(2) == b) return mkIte(mkAnd(c, a->kid(0)), a->kid(1), b);
  if (a->op == ITE && a->kid(1) == b) return mkIte(mkAnd(c, mkNot(a->kid(0))), a->kid(2), b);
  // common parts of concats
  if (a->w > 1 && (a->op == CONCAT || b->op == CONCAT) && !(a->op == CONCAT && a->nk > 200)) {
    // strip equal low / high parts
    auto part = [](E e, bool hi) -> unsigned { return e->op == CONCAT ? (hi ? e->kid(0)->w : e->kid(e->nk - 1)->w) : e->w; };
    unsigned lw = std::min(part(a, false), part(b, false)), hw = std::min(part(a, true), part(b, true));
    if (lw < a->w) {
      E al = mkExtract(a, 0, lw), bl = mkExtract(b, 0, lw);
      if (al == bl) return mkConcat2(mkIte(c, mkExtract(a, lw, a->w - lw), mkExtract(b, lw, a->w - lw)), al);
    }
    if (hw < a->w) {
      E ah = mkExtract(a, a->w - hw, hw), bh = mkExtract(b, a->w - hw, hw);
      if (ah == bh) return mkConcat2(ah, mkIte(c, mkExtract(a, 0, a->w - hw), mkExtract(b, 0, a->w - hw)));
    }
  }
  if ((c->op == ULT || c->op == SLT) && a->op == SUB && b->op == SUB && a->kid(0) == b->kid(1) && a->kid(1) == b->kid(0) && c->kid(0)->w == a->w &&
      c->kid(0) == a->kid(1) && c->kid(1) == a->kid(0) && c->kid(0)->id > c->kid(1)->id)
    return mkIte(c->op == ULT ? mkUlt(c->kid(1), c->kid(0)) : mkSlt(c->kid(1), c->kid(0)), b, a);
  // ite(x == k, k, x) -> x
  if (c->op == EQ) {
    E p = c->kid(0), q = c->kid(1);
    if ((p == a && q == b) || (p == b && q == a)) return b;
  }
  return nd(ITE, a->w, {c, a, b});
}

// ---------------------------------------------------------------- counting
E mkPopcount(E x) {
  std::vector<E> v;
  for (unsigned i = 0; i < x->w; ++i) v.push_back(mkExtract(x, i, 1));
  while (v.size() > 1) {
    std::vector<E> n;
    for (size_t i = 0; i + 1 < v.size(); i += 2) {
      unsigned w = std::max(v[i]->w, v[i + 1]->w) + 1;
      n.push_back(mkAdd(mkZExt(v[i], w), mkZExt(v[i + 1], w)));
    }
    if (v.size() & 1) n.push_back(v.back());
    v.swap(n);
  }
  E r = v[0];
  return r->w > x->w ? mkTrunc(r, x->w) : mkZExt(r, x->w);
}
E mkCtlz(E x) {
  E r = mkC(x->w, x->w);
  for (unsigned i = 0; i < x->w; ++i) r = mkIte(mkExtract(x, i, 1), mkC(x->w, x->w - 1 - i), r);
  return r;
}
E mkCttz(E x) {
  E r = mkC(x->w, x->w);
  for (int i = x->w - 1; i >= 0; --i) r = mkIte(mkExtract(x, i, 1), mkC(x->w, i), r);
  return r;
}
E mkBswap(E x) {
  SmallVector<E, 8> k;
  for (unsigned i = 0; i < x->w; i += 8) k.push_back(mkExtract(x, i, 8));
  return mkConcat(k);
}
E mkBitreverse(E x) {
  SmallVector<E, 64> k;
  for (unsigned i = 0; i < x->w; ++i) k.push_back(mkExtract(x, i, 1));
  return mkConcat(k);
}

// ---------------------------------------------------------------- floats
unsigned fmtWidth(unsigned f) { return f == F32 ? 32 : f == F64 ? 64 : 16; }
const llvm::fltSemantics& fmtSem(unsigned f) {
  return f == F16 ? APFloat::IEEEhalf() : f == F32 ? APFloat::IEEEsingle() : f == F64 ? APFloat::IEEEdouble() : APFloat::BFloat();
}
unsigned fmtMant(unsigned f) { return f == F16 ? 10 : f == F32 ? 23 : f == F64 ? 52 : 7; }
static APInt infMag(unsigned f) {  // magnitude bits of infinity, width w-1
  unsigned w = fmtWidth(f), m = fmtMant(f);
  return APInt::getBitsSet(w - 1, m, w - 1);
}
static E mag(E x) { return mkExtract(x, 0, x->w - 1); }
static E sgn(E x) { return mkExtract(x, x->w - 1, 1); }
static bool neverNan(unsigned f, E x) {
  switch (x->op) {
    case SITOF: case UITOF: return true;
    case FCVT: return neverNan(x->a, x->kid(0));
    case ITE: return neverNan(f, x->kid(1)) && neverNan(f, x->kid(2));
    default: return false;
  }
}
E fIsNan(unsigned f, E x) {
  if (neverNan(f, x)) return mkBool(false);
  if (x->op == FCVT) return fIsNan(x->a, x->kid(0));
  if (x->op == FRINT) return fIsNan(f, x->kid(0));
  return mkUlt(mkConst(infMag(f)), mag(x));
}
E fIsInf(unsigned f, E x) { return mkEq(mag(x), mkConst(infMag(f))); }
E fIsZero(unsigned f, E x) { return mkEq(mag(x), mkC(x->w - 1, 0)); }
E fUno(unsigned f, E a, E b) { return mkOr(fIsNan(f, a), fIsNan(f, b)); }
E fOeq(unsigned f, E a, E b) {
  if (a->id > b->id) std::swap(a, b);
  E bz = mkAnd(fIsZero(f, a), fIsZero(f, b));
  return mkAnd(mkNot(fUno(f, a, b)), mkOr(mkEq(a, b), bz));
}
E fOlt(unsigned f, E a, E b) {
  if (a == b) return mkBool(false);
  E bz = mkAnd(fIsZero(f, a), fIsZero(f, b));
  E sa = sgn(a), sb = sgn(b);
  E lt = mkIte(sa, mkIte(sb, mkUlt(mag(b), mag(a)), mkNot(bz)), mkIte(sb, mkBool(false), mkUlt(mag(a), mag(b))));
  return mkAnd(mkNot(fUno(f, a, b)), lt);
}
E fOle(unsigned f, E a, E b) {
  E bz = mkAnd(fIsZero(f, a), fIsZero(f, b));
  E sa = sgn(a), sb = sgn(b);
  E le = mkIte(sa, mkIte(sb, mkUle(mag(b), mag(a)), mkBool(true)), mkIte(sb, bz, mkUle(mag(a), mag(b))));
  return mkAnd(mkNot(fUno(f, a, b)), le);
}
E fNeg(unsigned, E a) { return mkConcat2(mkNot(sgn(a)), mag(a)); }
E fAbs(unsigned, E a) { return mkConcat2(mkC(1, 0), mag(a)); }

static llvm::RoundingMode rmOf(unsigned rm) {
  switch (rm) { case RTZ: return llvm::RoundingMode::TowardZero; case RUP: return llvm::RoundingMode::TowardPositive;
    case RDN: return llvm::RoundingMode::TowardNegative; default: return llvm::RoundingMode::NearestTiesToEven; }
}
static APFloat flt(unsigned f, E e) { return APFloat(fmtSem(f), e->c); }
static E fromFlt(const APFloat& v) { return mkConst(v.bitcastToAPInt()); }
static bool stripNeg(E e, E* out) {  // e == -out (sign flipped)
  if (isC(e)) { if (e->c.isNegative()) { APInt v = e->c; v.clearSignBit(); *out = mkConst(v); return true; } return false; }
  if (e->op == CONCAT && e->kid(0)->w == 1) {
    E x;
    if (isNot(e->kid(0), &x)) {
      SmallVector<E, 8> k; k.push_back(x);
      for (unsigned i = 1; i < e->nk; ++i) k.push_back(e->kid(i));
      *out = mkConcat(k); return true;
    }
  }
  return false;
}
// Integer-valued floats: a conversion from an integer that is exact, a constant, or a fixed exponent over symbolic mantissa bits.
// Kept as a linear form over bit fields; sums of two such values are one rounding of an integer (never -0, and an exact zero
// sum is +0 unless rounding down).
namespace {
constexpr unsigned IVW = 320;
struct IntView { bool ok = false, nz = false; /* nz: may be -0 */ std::vector<std::pair<E, APInt>> t; APInt c{IVW, 0}; };
std::unordered_map<E, IntView> gIntViews;
void ivTerm(IntView& r, E x, const APInt& k) {
  if (k.isZero()) return;
  if (isC(x)) { r.c += x->c.zext(IVW) * k; return; }
  E y;
  if (x->w == 1 && isNot(x, &y)) { r.c += k; ivTerm(r, y, -k); return; }
  if (x->op == CONCAT) {
    unsigned lo = x->w;
    for (unsigned i = 0; i < x->nk; ++i) { lo -= x->kid(i)->w; ivTerm(r, x->kid(i), k.shl(lo)); }
    return;
  }
  if (x->op == SEXT) { unsigned n = x->kid(0)->w; if (n > 1) ivTerm(r, mkExtract(x, 0, n - 1), k); ivTerm(r, mkExtract(x, n - 1, 1), (APInt::getOneBitSet(IVW, x->w) - APInt::getOneBitSet(IVW, n - 1)) * k); return; }
  for (auto& p : r.t) if (p.first == x) { p.second += k; return; }
  r.t.push_back({x, k});
}
void ivRange(const IntView& v, APInt& lo, APInt& hi) {
  lo = hi = v.c;
  for (auto& p : v.t) { APInt m = APInt::getLowBitsSet(IVW, p.first->w) * p.second; if (p.second.isNegative()) lo += m; else hi += m; }
}
bool ivExact(unsigned f, const IntView& v) {
  APInt lo, hi; ivRange(v, lo, hi);
  APInt m = llvm::APIntOps::umax(lo.abs(), hi.abs());
  if (m.isZero()) return true;
  unsigned p = fmtMant(f) + 1, tz = v.c.isZero() ? IVW : v.c.countTrailingZeros();
  for (auto& q : v.t) if (!q.second.isZero()) tz = std::min(tz, (unsigned)q.second.countTrailingZeros());
  unsigned bias = (unsigned)infMag(f).lshr(fmtMant(f)).getZExtValue() >> 1;
  return m.getActiveBits() - std::min(tz, m.getActiveBits()) <= p && m.getActiveBits() <= bias;
}
IntView intView(unsigned f, E e) {
  IntView r; APInt one(IVW, 1);
  if (f == BF16) return r;
  if (auto it = gIntViews.find(e); it != gIntViews.end()) if (ivExact(f, it->second)) return it->second;
  unsigned m = fmtMant(f), w = e->w; int emax = (int)infMag(f).lshr(m).getZExtValue(), bias = emax >> 1;
  auto scaled = [&](E sig, int ex, bool neg) {  // sig * 2^ex
    APInt k = neg ? -one : one;
    if (ex < 0 || ex > 150) return;
    ivTerm(r, sig, k.shl(ex)); r.ok = true;
  };
  if (e->op == UITOF || e->op == SITOF) {
    E x = e->kid(0); if (e->a != f || x->w > 128) return r;
    if (e->op == UITOF) ivTerm(r, x, one);
    else { ivTerm(r, mkExtract(x, 0, x->w - 1), one); ivTerm(r, mkExtract(x, x->w - 1, 1), -one.shl(x->w - 1)); }
    r.ok = ivExact(f, r);
    unsigned p = m + 1;
    if (!r.ok && e->op == SITOF && e->b == RNE && x->w > p + 1 && x->w < 120 && (int)x->w < bias && isTrue(mkExtract(x, x->w - 1, 1)) && isFalse(mkExtract(x, x->w - 2, 1))) {
      unsigned d = x->w - 1 - p; E g = mkExtract(x, d - 1, 1), st = d > 1 ? mkNot(mkEq(mkExtract(x, 0, d - 1), mkC(d - 1, 0))) : mkBool(false);
      r = IntView(); ivTerm(r, mkExtract(x, d, p), one.shl(d)); ivTerm(r, mkAnd(g, mkOr(st, mkExtract(x, d, 1))), one.shl(d)); r.c -= one.shl(x->w - 1); r.ok = true;
    }
    if (!r.ok && e->op == UITOF && e->b == RNE && x->w > p && x->w < 120 && (int)x->w < bias && isTrue(mkExtract(x, x->w - 1, 1))) {  // the rounding depends on fixed positions
      unsigned d = x->w - p; E g = mkExtract(x, d - 1, 1), st = d > 1 ? mkNot(mkEq(mkExtract(x, 0, d - 1), mkC(d - 1, 0))) : mkBool(false);
      r = IntView(); ivTerm(r, mkExtract(x, d, p), one.shl(d)); ivTerm(r, mkAnd(g, mkOr(st, mkExtract(x, d, 1))), one.shl(d)); r.ok = true;
    }
  } else if (e->op == CONCAT && e->nk == 2 && e->kid(0)->w == 1 && e->kid(1)->op == EXTRACT && e->kid(1)->a == 0 && e->kid(1)->w == w - 1 && e->kid(1)->kid(0)->w == w && (e->kid(1)->kid(0)->op == UITOF || e->kid(1)->kid(0)->op == SITOF) && e->kid(0) == mkNot(mkExtract(e->kid(1)->kid(0), w - 1, 1))) {  // negated
    IntView v = intView(f, e->kid(1)->kid(0)); if (!v.ok) return r;
    r.c = -v.c; for (auto& p : v.t) r.t.push_back({p.first, -p.second}); r.ok = r.nz = true;
  } else if (isC(e)) {
    APInt v = e->c; bool neg = v.isNegative(); v.clearSignBit();
    if (v.isZero()) { r.ok = !neg; return r; }
    int ex = (int)v.lshr(m).getZExtValue(); if (ex == 0 || ex == emax) return r;
    APInt sig = v.getLoBits(m) | APInt::getOneBitSet(w, m); int s = ex - bias - (int)m;
    unsigned tz = sig.countTrailingZeros(); sig.lshrInPlace(tz); s += tz;
    scaled(mkConst(sig), s, neg);
  } else if (e->op == CONCAT) {
    E top = mkExtract(e, m, w - m); if (!isC(top)) return r;
    bool neg = top->c.isNegative(); APInt t = top->c; t.clearSignBit(); int ex = (int)t.getZExtValue();
    if (ex == 0 || ex == emax) return r;
    E sig = mkConcat2(mkC(1, 1), mkExtract(e, 0, m)); int s = ex - bias - (int)m; E last = sig->op == CONCAT ? sig->kid(sig->nk - 1) : sig;
    if (isC(last) && s < 0) { unsigned tz = std::min<unsigned>(last->c.isZero() ? last->w : last->c.countTrailingZeros(), -s); if (tz < sig->w) { sig = mkExtract(sig, tz, sig->w - tz); s += tz; } }
    scaled(sig, s, neg);
  } else if (e->op == ITE && isC(e->kid(1)) && e->kid(2)->op == CONST) {
    IntView a = intView(f, e->kid(1)), b = intView(f, e->kid(2));
    if (!a.ok || !b.ok) return r;
    r.c = b.c; ivTerm(r, e->kid(0), a.c - b.c); r.ok = true;
  }
  return r;
}
bool ivSum(IntView& a, const IntView& b, const APInt& k) {
  a.c += b.c * k; for (auto& p : b.t) ivTerm(a, p.first, p.second * k);
  // fields of the same expression that overlap are cut at their common boundaries
  std::unordered_map<E, std::vector<unsigned>> cut; auto base = [](E x) { return x->op == EXTRACT ? x->kid(0) : x; }; auto at = [](E x) { return x->op == EXTRACT ? (unsigned)x->a : 0u; };
  for (auto& p : a.t) { auto& v = cut[base(p.first)]; v.push_back(at(p.first)); v.push_back(at(p.first) + p.first->w); }
  auto old = std::move(a.t); a.t.clear();
  for (auto& p : old) {
    auto& v = cut[base(p.first)]; std::vector<unsigned> in; unsigned lo = at(p.first), hi = lo + p.first->w;
    for (unsigned x : v) if (x > lo && x < hi) in.push_back(x);
    in.push_back(hi); std::sort(in.begin(), in.end()); in.erase(std::unique(in.begin(), in.end()), in.end());
    unsigned q = lo; for (unsigned x : in) { ivTerm(a, mkExtract(base(p.first), q, x - q), p.second.shl(q - lo)); q = x; }
  }
  a.t.erase(std::remove_if(a.t.begin(), a.t.end(), [](auto& p) { return p.second.isZero(); }), a.t.end());
  return a.t.size() <= 40;
}
E ivToF(unsigned f, const IntView& v, unsigned rm) {
  if (v.t.empty() && v.c.isZero()) return mkC(fmtWidth(f), 0);
  APInt lo, hi; ivRange(v, lo, hi);
  bool sg = lo.isNegative(); unsigned W = sg ? std::max(lo.getSignificantBits(), hi.getSignificantBits()) : hi.getActiveBits();
  if (W > 200) return nullptr;
  // disjoint fields (and one negated top bit) form a concatenation
  std::vector<std::pair<unsigned, E>> fld; bool ok = true; E neg = nullptr; APInt c = v.c;
  for (auto& p : v.t) {
    if (p.second.isPowerOf2() && !p.second.isNegative()) fld.push_back({(unsigned)p.second.logBase2(), p.first});
    else if ((-p.second).isPowerOf2() && p.first->w == 1 && !neg && (unsigned)(-p.second).logBase2() == W - 1) neg = p.first;
    else ok = false;
  }
  if (ok && sg && !neg && c.isNegative() && !(c + APInt::getOneBitSet(IVW, W - 1)).isNegative()) { neg = mkC(1, 1); c += APInt::getOneBitSet(IVW, W - 1); }
  if (ok && !c.isNegative()) {
    for (unsigned i = 0; i < c.getActiveBits();) { if (!c[i]) { ++i; continue; } unsigned j = i; while (c[j]) ++j; fld.push_back({i, mkOnes(j - i)}); i = j; }
    std::sort(fld.begin(), fld.end(), [](auto& a, auto& b) { return a.first < b.first; });
    std::vector<E> parts; unsigned at = 0;
    for (auto& p : fld) { if (p.first < at) { ok = false; break; } if (p.first > at) parts.push_back(mkC(p.first - at, 0)); parts.push_back(p.second); at = p.first + p.second->w; }
    if (ok && neg) { if (at > W - 1) ok = false; else { if (at < W - 1) parts.push_back(mkC(W - 1 - at, 0)); parts.push_back(neg); at = W; } }
    if (ok && (sg ? neg != nullptr : true)) {
      std::reverse(parts.begin(), parts.end());
      E x = mkConcat(parts);
      return sg ? siToF(f, x, rm) : uiToF(f, x, rm);
    }
  }
  E s = mkConst(v.c.trunc(W));
  for (auto& p : v.t) {
    E x = p.first->w <= W ? mkZExt(p.first, W) : mkTrunc(p.first, W);
    s = mkAdd(s, mkMul(x, mkConst(p.second.trunc(W))));
  }
  E r = sg ? siToF(f, s, rm) : uiToF(f, s, rm);
  return r;
}
E ivMake(unsigned f, const IntView& v, unsigned rm) {
  E r = ivToF(f, v, rm);
  if (r && (r->op == SITOF || r->op == UITOF)) gIntViews.emplace(r, v).first->second.ok = true;
  return r;
}
}  // namespace
E fAdd(unsigned f, E a, E b, unsigned rm) {
  if (isC(a) && isC(b)) { APFloat r = flt(f, a); r.add(flt(f, b), rmOf(rm)); return fromFlt(r); }
  if (isC(a)) std::swap(a, b);
  if (isC(b) && rm == RNE && isZero(mkExtract(b, 0, b->w - 1))) {  // x + (+-0)
    unsigned w = a->w; APInt q = infMag(f).zext(w); q.setBit(fmtMant(f) - 1);
    if (a->op == ITE && b->c.isZero() && a->kid(2)->op == CONCAT) {  // (y + 0) + 0 = y + 0
      E l = a->kid(2)->kid(a->kid(2)->nk - 1);
      if (l->op == EXTRACT && l->a == 0 && l->kid(0)->w == w && l->kid(0) != a && l->kid(0)->op != ITE && fAdd(f, l->kid(0), b, rm) == a) return a;
    }
    E nan = mkOr(mkUF("nan_FADD_zero", w, {a}), mkConst(q));
    E v = b->c.isZero() ? mkConcat2(mkAnd(sgn(a), mkNot(mkEq(mag(a), mkC(w - 1, 0)))), mag(a)) : a;
    return mkIte(fIsNan(f, a), nan, v);
  }
  if (rm == RNE) for (int sw = 0; sw < 2; ++sw, std::swap(a, b)) if (a->op == SITOF && a->a == f && b->op == ITE && isZero(b->kid(2)) && isC(b->kid(1))) {  // signed conversion + 2^w if negative
    E x = a->kid(0); unsigned m = fmtMant(f), bias = (unsigned)infMag(f).lshr(m).getZExtValue() >> 1;
    if (x->w < m && b->kid(0) == mkExtract(x, x->w - 1, 1) && b->kid(1)->c == APInt(a->w, bias + x->w).shl(m)) return uiToF(f, x, RNE);
  }
  if (rm == RNE && isC(b) && f != BF16) {  // (2^m | x) - 2^m = x: the usual conversion of integers
    unsigned m = fmtMant(f), w = a->w; APInt magic = infMag(f).zext(w).lshr(m); unsigned bias = (unsigned)magic.getZExtValue() >> 1;
    APInt pw = APInt(w, bias + m).shl(m);
    E hi = mkExtract(a, m, w - m);
    if (isC(hi) && hi->c == pw.lshr(m).trunc(w - m) && b->c == (pw | APInt::getSignedMinValue(w))) return uiToF(f, mkExtract(a, 0, m), RNE);
  }
  if (rm != RDN) if (IntView x = intView(f, a); x.ok) if (IntView y = intView(f, b); y.ok && !(x.nz && y.nz) && ivSum(x, y, APInt(IVW, 1))) if (E r = ivMake(f, x, rm)) return r;
  if (a->id > b->id) std::swap(a, b);
  return nd(FADD, a->w, {a, b}, f, rm);
}
E fSub(unsigned f, E a, E b, unsigned rm) {
  if (isC(a) && isC(b)) { APFloat r = flt(f, a); r.subtract(flt(f, b), rmOf(rm)); return fromFlt(r); }
  return fAdd(f, a, fNeg(f, b), rm);
}
E fMul(unsigned f, E a, E b, unsigned rm) {
  if (isC(a) && isC(b)) { APFloat r = flt(f, a); r.multiply(flt(f, b), rmOf(rm)); return fromFlt(r); }
  bool neg = false; E x;
  if (rm == RNE || rm == RTZ) {
    if (stripNeg(a, &x)) { neg = !neg; a = x; }
    if (stripNeg(b, &x)) { neg = !neg; b = x; }
  }
  if (rm != RDN) {
    E u = a, v = b; if (!isC(u)) std::swap(u, v);
    if (isC(u) && !isC(v)) if (IntView k = intView(f, u); k.ok && k.c.isStrictlyPositive()) if (IntView x = intView(f, v); x.ok && !x.nz) { IntView y; if (ivSum(y, x, k.c)) if (E r = ivMake(f, y, rm)) return neg ? fNeg(f, r) : r; }
  }
  if (a->id > b->id) std::swap(a, b);
  E r = nd(FMUL, a->w, {a, b}, f, rm);
  return neg ? fNeg(f, r) : r;
}
E fDiv(unsigned f, E a, E b, unsigned rm) {
  if (isC(a) && isC(b)) { APFloat r = flt(f, a); r.divide(flt(f, b), rmOf(rm)); return fromFlt(r); }
  return nd(FDIV, a->w, {a, b}, f, rm);
}
static bool sqrtConst(unsigned f, E a, E* out) {
  // exact via double / float library sqrt (round to nearest even); halves via float (double rounding is innocuous).
  uint64_t bits = a->c.getZExtValue();
  if (f == F64) { double d; memcpy(&d, &bits, 8); d = __builtin_sqrt(d); memcpy(&bits, &d, 8); *out = mkC(64, bits); return true; }
  if (f == F32) { float d; uint32_t b = bits; memcpy(&d, &b, 4); d = __builtin_sqrtf(d); memcpy(&b, &d, 4); *out = mkC(32, b); return true; }
  APFloat v = flt(f, a); bool li; v.convert(APFloat::IEEEsingle(), llvm::RoundingMode::NearestTiesToEven, &li);
  float d = __builtin_sqrtf(v.convertToFloat());
  APFloat r(d); r.convert(fmtSem(f), llvm::RoundingMode::NearestTiesToEven, &li);
  *out = fromFlt(r); return true;
}
E fSqrt(unsigned f, E a, unsigned rm) {
  E r;
  if (isC(a) && rm == RNE && sqrtConst(f, a, &r)) return r;
  return nd(FSQRT, a->w, {a}, f, rm);
}
E fFma(unsigned f, E a, E b, E c, unsigned rm) {
  if (isC(a) && isC(b) && isC(c)) { APFloat r = flt(f, a); r.fusedMultiplyAdd(flt(f, b), flt(f, c), rmOf(rm)); return fromFlt(r); }
  bool neg = false; E x;
  if (stripNeg(a, &x)) { neg = !neg; a = x; }
  if (stripNeg(b, &x)) { neg = !neg; b = x; }
  if (a->id > b->id) std::swap(a, b);
  if (rm != RDN) {
    E u = a, v = b; if (!isC(u)) std::swap(u, v);
    if (isC(u)) if (IntView k = intView(f, u); k.ok && k.c.isStrictlyPositive()) if (IntView x = intView(f, v); x.ok && !x.nz) if (IntView y = intView(f, c); y.ok && !y.nz && ivSum(y, x, neg ? -k.c : k.c)) if (E r = ivMake(f, y, rm)) return r;
  }
  if (neg) a = fNeg(f, a);
  return nd(FMA, a->w, {a, b, c}, f, rm);
}
E fRint(unsigned f, E a, unsigned rm) {
  if (isC(a)) { APFloat r = flt(f, a); r.roundToIntegral(rmOf(rm)); return fromFlt(r); }
  return nd(FRINT, a->w, {a}, f, rm);
}
E fCvt(unsigned from, unsigned to, E a, unsigned rm) {
  if (from == to) return a;
  if (isC(a)) { APFloat r = flt(from, a); bool li; r.convert(fmtSem(to), rmOf(rm), &li); return fromFlt(r); }
  // exact widening followed by narrowing back is handled by the solver (NaN quieting)
  return nd(FCVT, fmtWidth(to), {a}, from, to | rm << 4);
}
// Quotients of small integers: with |x|, |y| < 2^(p-1), y != 0, truncating the correctly rounded x / y gives the truncated
// quotient, because the gap between x / y and the next integer is at least 1 / |y|, more than half a unit in the last place.
struct IntQuot { bool ok = false; E x, y; bool sg; unsigned n; };
static unsigned signExtraBits(E e);
static IntQuot intQuot(unsigned f, E a, unsigned rm) {
  IntQuot r;
  if (a->op != FDIV || a->a != f || a->b != RNE || rm != RTZ) return r;
  unsigned p = fmtMant(f) + 1; E c[2]; bool sg[2];
  for (int i = 0; i < 2; ++i) {
    E k = a->kid(i);
    if (k->op == SITOF || k->op == UITOF) { if (k->a != f) return r; c[i] = k->kid(0); sg[i] = k->op == SITOF; }
    else if (isC(k)) {
      llvm::APSInt v(p + 1, false); bool ex; if (flt(f, k).convertToInteger(v, llvm::RoundingMode::TowardZero, &ex) != APFloat::opOK || !ex) return r;
      if (k->c.isSignBitSet() && v.isZero()) return r;
      c[i] = mkConst(v); sg[i] = true; if (!v.isNegative()) { unsigned n = std::max(1u, v.getActiveBits()); c[i] = mkConst(v.trunc(n)); sg[i] = false; }
    } else return r;
    if (c[i]->w > (sg[i] ? p - 1 : p - 2)) return r;
  }
  r.sg = sg[0] || sg[1];
  r.n = std::max(c[0]->w + (r.sg && !sg[0]), c[1]->w + (r.sg && !sg[1]));
  r.x = sg[0] ? mkSExt(c[0], r.n) : mkZExt(c[0], r.n); r.y = sg[1] ? mkSExt(c[1], r.n) : mkZExt(c[1], r.n);
  r.ok = true;
  return r;
}
static E intQuotOvf(const IntQuot& q) { return mkAnd(mkEq(q.x, mkConst(APInt::getSignedMinValue(q.n))), mkEq(q.y, mkConst(APInt::getAllOnes(q.n)))); }
// the quotient in w bits, signed (w > n: exact)
static E intQuotTo(const IntQuot& q, unsigned w) {
  if (!q.sg) return w < q.n ? mkTrunc(mkUDiv(q.x, q.y), w) : mkUDiv(mkZExt(q.x, w), mkZExt(q.y, w));
  E v = mkSDiv(q.x, q.y);  // wraps in n bits, right in that width too
  if (w <= q.n) return mkTrunc(v, w);
  return mkIte(intQuotOvf(q), mkConst(APInt::getOneBitSet(w, q.n - 1)), mkSExt(v, w));
}
static E intQuotWide(const IntQuot& q) { return intQuotTo(q, q.n + 1); }
E fToSI(unsigned f, E a, unsigned w, unsigned rm) {
  if (IntQuot q = intQuot(f, a, rm); q.ok) return intQuotTo(q, w);
  if (isC(a)) {
    APFloat v = flt(f, a); llvm::APSInt r(w, false); bool ex;
    auto st = v.convertToInteger(r, rmOf(rm), &ex);
    if (!(st & APFloat::opInvalidOp)) return mkConst(r);
  }
  return nd(FTOSI, w, {a}, f, rm);
}
E fToUI(unsigned f, E a, unsigned w, unsigned rm) {
  if (IntQuot q = intQuot(f, a, rm); q.ok) return intQuotTo(q, w);
  if (isC(a)) {
    APFloat v = flt(f, a); llvm::APSInt r(w, true); bool ex;
    auto st = v.convertToInteger(r, rmOf(rm), &ex);
    if (!(st & APFloat::opInvalidOp)) return mkConst(r);
  }
  return nd(FTOUI, w, {a}, f, rm);
}
E siToF(unsigned f, E a, unsigned rm) {
  if (isC(a)) { APFloat r(fmtSem(f)); r.convertFromAPInt(a->c, true, rmOf(rm)); return fromFlt(r); }
  if (a->op == SEXT) return siToF(f, a->kid(0), rm);
  if (a->op == CONCAT && isC(a->kid(0)) && a->kid(0)->c.isNegative()) if (unsigned o = a->kid(0)->c.countLeadingOnes(); o > 1) return siToF(f, mkExtract(a, 0, a->w - o + 1), rm);
  if (a->op == FTOSI && a->a == f && (a->b == RTZ || a->b == RNE)) {  // an integer that came from this format (used in range only): the rounded value, +0 for zero
    E r = fRint(f, a->kid(0), a->b);
    return mkIte(mkEq(mag(r), mkC(r->w - 1, 0)), mkC(r->w, 0), r);
  }
  if (a->op == ITE && (isC(a->kid(1)) || isC(a->kid(2))) && (a->kid(1)->op == FTOSI || a->kid(2)->op == FTOSI)) return mkIte(a->kid(0), siToF(f, a->kid(1), rm), siToF(f, a->kid(2), rm));
  if (a->op == CONCAT && topZeros(a) > 0) { unsigned z = topZeros(a); return uiToF(f, mkExtract(a, 0, a->w - z), rm); }
  return nd(SITOF, fmtWidth(f), {a}, f, rm);
}
E uiToF(unsigned f, E a, unsigned rm) {
  if (isC(a)) { APFloat r(fmtSem(f)); r.convertFromAPInt(a->c, false, rmOf(rm)); return fromFlt(r); }
  if (a->op == CONCAT && topZeros(a) > 0) { unsigned z = topZeros(a); return uiToF(f, mkExtract(a, 0, a->w - z), rm); }
  return nd(UITOF, fmtWidth(f), {a}, f, rm);
}
bool isFpOp(Op o) { return o >= FADD && o <= UITOF; }

static E fConstD(unsigned f, double d, bool* exact) {
  APFloat v(d); bool li; v.convert(fmtSem(f), llvm::RoundingMode::NearestTiesToEven, &li);
  *exact = !li; return fromFlt(v);
}
E fInRangeSI(unsigned f, E a, unsigned w, unsigned rm) {
  if (IntQuot q = intQuot(f, a, rm); q.ok) {
    E nz = mkNot(mkEq(q.y, mkC(q.n, 0)));
    if (q.n < w) return nz;
    E v = intQuotWide(q); if (!q.sg) return mkAnd(nz, mkUlt(v, mkConst(APInt::getOneBitSet(q.n + 1, w - 1))));
    E d = mkSDiv(q.x, q.y);
    return mkAnd(nz, mkAnd(mkNot(intQuotOvf(q)), w == q.n ? mkBool(true) : mkEq(mkSExt(mkTrunc(d, w), q.n), d)));
  }
  double two = std::ldexp(1.0, w - 1);
  double hi = rm == RNE ? two - 0.5 : two, lo = rm == RNE ? -two - 0.5 : -two - 1;
  // widths up to 64: two-0.5 may not be exact in double; then the neighbouring representable bound is equivalent
  bool exH, exL; bool dHi = (rm != RNE) || (two - hi == 0.5), dLo = rm == RNE ? (-two - lo == 0.5) : (-two - lo == 1);
  E ch = fConstD(f, dHi ? hi : two, &exH), cl = fConstD(f, dLo ? lo : -two, &exL);
  bool ex2; E c2 = fConstD(f, two, &ex2), c2n = fConstD(f, -two, &ex2);
  E up = (dHi && exH) ? fOlt(f, a, ch) : fOlt(f, a, c2);
  E dn;
  if (dLo && exL) dn = rm == RNE ? fOle(f, cl, a) : fOlt(f, cl, a);
  else dn = isTrue(mkBool(ex2)) ? fOle(f, c2n, a) : fOlt(f, c2n, a);
  return mkAnd(up, dn);
}
E fInRangeUI(unsigned f, E a, unsigned w, unsigned rm) {
  if (IntQuot q = intQuot(f, a, rm); q.ok) {
    E nz = mkNot(mkEq(q.y, mkC(q.n, 0))), v = intQuotWide(q);
    if (q.sg) nz = mkAnd(nz, mkNot(mkExtract(v, q.n, 1)));
    if (w >= q.n) return nz;
    return mkAnd(nz, mkUlt(v, mkConst(APInt::getOneBitSet(q.n + 1, w))));
  }
  double two = std::ldexp(1.0, w);
  double hi = rm == RNE ? two - 0.5 : two;
  bool dHi = rm != RNE || (two - hi == 0.5), exH, ex2, exL;
  E ch = fConstD(f, dHi ? hi : two, &exH), c2 = fConstD(f, two, &ex2);
  E cl = fConstD(f, rm == RNE ? -0.5 : -1.0, &exL);
  E up = (dHi && exH) ? fOlt(f, a, ch) : fOlt(f, a, c2);
  E dn = rm == RNE ? fOle(f, cl, a) : fOlt(f, cl, a);
  return mkAnd(up, dn);
}

// ---------------------------------------------------------------- bounds
static std::unordered_map<E, APInt> gUmax;
APInt umaxOf(E e) {
  auto it = gUmax.find(e);
  if (it != gUmax.end()) return it->second;
  unsigned w = e->w; APInt r = APInt::getAllOnes(w);
  switch (e->op) {
    case CONST: r = e->c; break;
    case CONCAT: { r = APInt(w, 0); for (unsigned i = 0; i < e->nk; ++i) { r = (e->kid(i)->w < w) ? r.shl(e->kid(i)->w) : r; r |= umaxOf(e->kid(i)).zext(w); } break; }
    case EXTRACT: { APInt m = umaxOf(e->kid(0)).lshr(e->a); if (m.getActiveBits() <= w) r = m.trunc(w); break; }
    case AND: { APInt a = umaxOf(e->kid(0)), b = umaxOf(e->kid(1)); r = a.ult(b) ? a : b; break; }
    case OR: case XOR: { unsigned n = std::max(umaxOf(e->kid(0)).getActiveBits(), umaxOf(e->kid(1)).getActiveBits()); r = n >= w ? r : APInt::getLowBitsSet(w, n); break; }
    case ADD: { bool o; APInt s = umaxOf(e->kid(0)).uadd_ov(umaxOf(e->kid(1)), o); if (!o) r = s; break; }
    case MUL: { bool o; APInt s = umaxOf(e->kid(0)).umul_ov(umaxOf(e->kid(1)), o); if (!o) r = s; break; }
    case ITE: { APInt a = umaxOf(e->kid(1)), b = umaxOf(e->kid(2)); r = a.ugt(b) ? a : b; break; }
    case LSHR: r = umaxOf(e->kid(0)); break;
    case UREM: { if (isC(e->kid(1)) && !e->kid(1)->c.isZero()) r = e->kid(1)->c - 1; APInt a = umaxOf(e->kid(0)); if (a.ult(r)) r = a; break; }
    case UDIV: { if (isC(e->kid(1)) && !e->kid(1)->c.isZero()) r = umaxOf(e->kid(0)).udiv(e->kid(1)->c); break; }
    default: break;
  }
  gUmax.emplace(e, r);
  return r;
}

// ---------------------------------------------------------------- rebuild / normalise
static bool anyNode(E e, const std::function<bool(E)>& f);
static E rebuild(E e, ArrayRef<E> k) {
  switch (e->op) {
    case CONST: case VAR: return e;
    case ADD: return mkAdd(k[0], k[1]); case SUB: return mkSub(k[0], k[1]); case MUL: return mkMul(k[0], k[1]);
    case UDIV: return mkUDiv(k[0], k[1]); case SDIV: return mkSDiv(k[0], k[1]); case UREM: return mkURem(k[0], k[1]); case SREM: return mkSRem(k[0], k[1]);
    case AND: return mkAnd(k[0], k[1]); case OR: return mkOr(k[0], k[1]); case XOR: return mkXor(k[0], k[1]);
    case SHL: return mkShl(k[0], k[1]); case LSHR: return mkLShr(k[0], k[1]); case ASHR: return mkAShr(k[0], k[1]);
    case CONCAT: return mkConcat(k);
    case EXTRACT: return mkExtract(k[0], e->a, e->w);
    case SEXT: return mkSExt(k[0], e->w);
    case EQ: return mkEq(k[0], k[1]); case ULT: return mkUlt(k[0], k[1]); case ULE: return mkUle(k[0], k[1]);
    case SLT: return mkSlt(k[0], k[1]); case SLE: return mkSle(k[0], k[1]);
    case ITE: return mkIte(k[0], k[1], k[2]);
    case FADD: return fAdd(e->a, k[0], k[1], e->b); case FMUL: return fMul(e->a, k[0], k[1], e->b);
    case FDIV: return fDiv(e->a, k[0], k[1], e->b); case FSQRT: return fSqrt(e->a, k[0], e->b);
    case FMA: return fFma(e->a, k[0], k[1], k[2], e->b);
    case FRINT: return fRint(e->a, k[0], e->b);
    case FCVT: return fCvt(e->a, e->b & 15, k[0], e->b >> 4);
    case FTOSI: return fToSI(e->a, k[0], e->w, e->b); case FTOUI: return fToUI(e->a, k[0], e->w, e->b);
    case SITOF: return siToF(e->a, k[0], e->b); case UITOF: return uiToF(e->a, k[0], e->b);
    case UF: return nd(UF, e->w, k, e->a, e->b);
    default: abort();
  }
}
// Iterative post-order rebuild with a per-node hook.
static E rebuildAll(E root, std::unordered_map<E, E>& memo, const std::function<E(E, ArrayRef<E>)>& f) {
  std::vector<E> st{root};
  while (!st.empty()) {
    E e = st.back();
    if (memo.count(e)) { st.pop_back(); continue; }
    bool ready = true;
    for (unsigned i = 0; i < e->nk; ++i) if (!memo.count(e->kid(i))) { st.push_back(e->kid(i)); ready = false; }
    if (!ready) continue;
    st.pop_back();
    SmallVector<E, 8> k;
    for (unsigned i = 0; i < e->nk; ++i) k.push_back(memo[e->kid(i)]);
    memo[e] = f(e, k);
  }
  return memo[root];
}
E substitute(E e, const std::function<E(E)>& var) {
  std::unordered_map<E, E> memo;
  return rebuildAll(e, memo, [&](E n, ArrayRef<E> k) -> E { if (n->op == VAR) { E r = var(n); return r ? r : n; } return rebuild(n, k); });
}

E substituteMemo(E e, std::unordered_map<E, E>& memo, const std::function<E(E)>& var) {
  return rebuildAll(e, memo, [&](E n, ArrayRef<E> k) -> E { if (n->op == VAR) { E r = var(n); return r ? r : n; } return rebuild(n, k); });
}
E rewriteMuls(E root, std::unordered_map<E, E>& memo, const std::function<E(E, E)>& f) {
  return rebuildAll(root, memo, [&](E n, ArrayRef<E> k) -> E { if (n->op == MUL && !isC(k[0]) && !isC(k[1])) return f(k[0], k[1]); return rebuild(n, k); });
}
bool hasMul(E e) { return anyNode(e, [](E n) { return n->op == MUL && !isC(n->kid(0)) && !isC(n->kid(1)); }); }

// Linear combination: sum of coeff * atom (mod 2^w), atoms are products or opaque nodes.
struct Lin { APInt c; std::map<uint32_t, std::pair<E, APInt>> t; };
static void linAdd(Lin& l, E e, const APInt& k, int depth) {
  if (k.isZero()) return;
  if (isC(e)) { l.c += e->c * k; return; }
  if (depth > 0) {
    if (e->op == ADD) { linAdd(l, e->kid(0), k, depth - 1); linAdd(l, e->kid(1), k, depth - 1); return; }
    if (e->op == SUB) { linAdd(l, e->kid(0), k, depth - 1); linAdd(l, e->kid(1), -k, depth - 1); return; }
    if (e->op == MUL && isC(e->kid(1))) { linAdd(l, e->kid(0), k * e->kid(1)->c, depth - 1); return; }
    E x;
    if (isNot(e, &x)) { l.c -= k; linAdd(l, x, -k, depth - 1); return; }
    if (e->op == CONCAT && isZero(e->kid(e->nk - 1))) {  // shifted left: x << n, x the low part of something
      E lo = e->kid(e->nk - 1); unsigned n = lo->w;
      E hi = mkExtract(e, n, e->w - n);
      if (hi->op == EXTRACT && hi->a == 0 && hi->kid(0)->w == e->w) { linAdd(l, hi->kid(0), k.shl(n), depth - 1); return; }
      if (hi->op == ADD || hi->op == SUB || hi->op == MUL) { linAdd(l, mkZExt(hi, e->w), k.shl(n), 0); return; }
    }
  }
  auto it = l.t.find(e->id);
  if (it == l.t.end()) l.t.emplace(e->id, std::make_pair(e, k));
  else { it->second.second += k; if (it->second.second.isZero()) l.t.erase(it); }
}
static E fromLin(const Lin& l, unsigned w) {
  E pos = nullptr, neg = nullptr;
  for (auto& p : l.t) {
    APInt k = p.second.second; bool n = k.isNegative() && !k.isMinSignedValue();
    if (n) k = -k;
    E term = mkMul(p.second.first, mkConst(k));
    E& acc = n ? neg : pos;
    acc = acc ? mkAdd(acc, term) : term;
  }
  E r;
  if (!pos && !neg) return mkConst(l.c);
  if (pos) { r = mkAdd(pos, mkConst(l.c)); if (neg) r = mkSub(r, neg); }
  else r = mkSub(mkConst(l.c), neg);
  return r;
}
// Polynomial over opaque atoms (mod 2^w).
using Mono = std::vector<uint32_t>;
struct Poly { std::map<Mono, APInt> t; };
static std::unordered_map<uint32_t, E> gAtomById;
static bool polyAddTo(Poly& p, const Mono& m, const APInt& k) {
  auto it = p.t.find(m);
  if (it == p.t.end()) { if (!k.isZero()) p.t.emplace(m, k); }
  else { it->second += k; if (it->second.isZero()) p.t.erase(it); }
  return p.t.size() < 4000;
}
static bool polyMul(const Poly& a, const Poly& b, Poly& out) {
  if (a.t.size() * b.t.size() > 4000) return false;
  for (auto& x : a.t) for (auto& y : b.t) {
    APInt k = x.second * y.second;
    if (k.isZero()) continue;
    Mono m = x.first; m.insert(m.end(), y.first.begin(), y.first.end()); std::sort(m.begin(), m.end());
    if (!polyAddTo(out, m, k)) return false;
  }
  return true;
}
static bool polyAcc(Poly& p, const Poly& q, const APInt& k) {
  for (auto& x : q.t) if (!polyAddTo(p, x.first, x.second * k)) return false;
  return true;
}
// Cut positions of the atoms: every extract of a base splits the base into pieces, so that x and its parts can be related.
using Cuts = std::unordered_map<E, std::set<unsigned>>;
static void collectCuts(E e, Cuts& c, std::unordered_set<E>& seen) {
  std::vector<E> st{e};
  while (!st.empty()) {
    E n = st.back(); st.pop_back();
    if (!seen.insert(n).second) continue;
    if (n->op == EXTRACT) { auto& s = c[n->kid(0)]; s.insert(n->a); s.insert(n->a + n->w); }
    for (unsigned i = 0; i < n->nk; ++i) st.push_back(n->kid(i));
  }
}
static Cuts* gCuts = nullptr;
// Interprets zext(e) modulo 2^w when only its residue modulo 2^eff matters (the caller multiplies by 2^(w-eff)).
static bool toPoly2(E e, unsigned w, unsigned eff, Poly& out, int depth, std::unordered_map<E, Poly>& memo);
static bool toPoly(E e, unsigned w, Poly& out, int depth, std::unordered_map<E, Poly>& memo) { return toPoly2(e, w, w, out, depth, memo); }
static bool toPoly2(E e, unsigned w, unsigned eff, Poly& out, int depth, std::unordered_map<E, Poly>& memo) {
  if (eff == w) { auto it = memo.find(e); if (it != memo.end()) { out = it->second; return true; } }
  out = Poly();
  auto pieces = [&](E base, unsigned lo, unsigned n) {
    std::vector<unsigned> cut{lo};
    if (gCuts) { auto it = gCuts->find(base); if (it != gCuts->end()) for (unsigned c : it->second) if (c > lo && c < lo + n) cut.push_back(c); }
    cut.push_back(lo + n);
    for (size_t i = 0; i + 1 < cut.size(); ++i) {
      if (cut[i] - lo >= w) break;
      E x = mkExtract(base, cut[i], cut[i + 1] - cut[i]);
      if (isC(x)) { if (!polyAddTo(out, {}, x->c.zextOrTrunc(w).shl(cut[i] - lo))) return false; continue; }
      gAtomById[x->id] = x;
      if (!polyAddTo(out, {x->id}, APInt::getOneBitSet(w, cut[i] - lo))) return false;
    }
    return true;
  };
  auto atom = [&](E x) {
    if (x->op == EXTRACT) return pieces(x->kid(0), x->a, x->w);
    return pieces(x, 0, x->w);
  };
  bool ok = true;
  if (depth <= 0) { ok = isC(e) ? polyAddTo(out, {}, e->c.zextOrTrunc(w)) : atom(e); return ok; }
  auto noOvf = [&](E x) {
    if (x->w >= eff) return true;
    bool o = false;
    if (x->op == ADD) { (void)umaxOf(x->kid(0)).uadd_ov(umaxOf(x->kid(1)), o); return !o; }
    if (x->op == MUL) { (void)umaxOf(x->kid(0)).umul_ov(umaxOf(x->kid(1)), o); return !o; }
    return false;
  };
  switch (e->op) {
    case CONST: ok = polyAddTo(out, {}, e->c.zextOrTrunc(w)); break;
    case ADD: case SUB: case MUL:
      if (noOvf(e)) {
        unsigned ke = e->w >= eff ? eff : w;  // the operands' residues modulo 2^eff suffice when this is a ring operation
        Poly a, b;
        ok = toPoly2(e->kid(0), w, ke, a, depth - 1, memo) && toPoly2(e->kid(1), w, ke, b, depth - 1, memo);
        if (!ok) break;
        if (e->op == MUL) ok = polyMul(a, b, out);
        else { out = a; ok = polyAcc(out, b, e->op == ADD ? APInt(w, 1) : APInt::getAllOnes(w)); }
      } else if (e->op == MUL && 2 * e->w <= w && !isC(e->kid(0)) && !isC(e->kid(1))) {
        // low half of a product: the double-width product minus its high half
        unsigned n = e->w; E wide = mkMul(mkZExt(e->kid(0), 2 * n), mkZExt(e->kid(1), 2 * n));
        Poly p; ok = toPoly2(wide, w, w, p, depth - 1, memo) && polyAcc(out, p, APInt(w, 1));
        E hi = mkExtract(wide, n, n);
        if (ok) { gAtomById[hi->id] = hi; ok = polyAddTo(out, {hi->id}, -APInt::getOneBitSet(w, n)); }
      } else ok = atom(e);
      break;
    case CONCAT: {
      unsigned pos = e->w;
      for (unsigned i = 0; i < e->nk && ok; ++i) {
        pos -= e->kid(i)->w;
        if (pos >= eff) continue;
        Poly q; ok = toPoly2(e->kid(i), w, eff - pos, q, depth - 1, memo) && polyAcc(out, q, APInt::getOneBitSet(w, pos));
      }
      break;
    }
    case SEXT:
      // sext(x) = zext(x) - 2^n * msb(x), needs full width
      if (e->w >= eff) {
        E x = e->kid(0); Poly q, m;
        ok = toPoly2(x, w, w, q, depth - 1, memo) && toPoly2(mkExtract(x, x->w - 1, 1), w, w, m, depth - 1, memo) && polyAcc(out, q, APInt(w, 1));
        if (ok && x->w < w) ok = polyAcc(out, m, -APInt::getOneBitSet(w, x->w));
      } else ok = atom(e);
      break;
    case EXTRACT: {
      E x = e->kid(0);
      if (e->a == 0 && e->w >= eff && (x->op == ADD || x->op == MUL || x->op == SUB || x->op == CONCAT || x->op == SEXT)) { ok = toPoly2(x, w, eff, out, depth - 1, memo); break; }
      if (e->a == 0 && (x->op == ADD || x->op == MUL || x->op == SUB) && x->w <= w) {
        unsigned save = eff; eff = w; bool nv = noOvf(x); eff = save;
        if (nv) {
          Poly q; ok = toPoly2(x, w, w, q, depth - 1, memo) && polyAcc(out, q, APInt(w, 1));
          E hi = nd(EXTRACT, x->w - e->w, {x}, e->w);
          gAtomById[hi->id] = hi;
          ok = ok && polyAddTo(out, {hi->id}, e->w < w ? -APInt::getOneBitSet(w, e->w) : APInt(w, 0));
          break;
        }
      }
      ok = atom(e);
      break;
    }
    case XOR: {
      E x;
      if (isNot(e, &x)) {  // ~x = (2^n - 1) - x  (as an n-bit value; exact)
        Poly q; ok = toPoly2(x, w, w, q, depth - 1, memo) && polyAddTo(out, {}, APInt::getLowBitsSet(w, std::min(w, e->w))) && polyAcc(out, q, APInt::getAllOnes(w));
      } else ok = atom(e);
      break;
    }
    case SHL:
      if (isC(e->kid(1)) && e->kid(1)->c.ult(e->w) && e->w >= eff) { unsigned k = e->kid(1)->c.getZExtValue(); Poly q; if (k < eff) ok = toPoly2(e->kid(0), w, eff - k, q, depth - 1, memo) && polyAcc(out, q, APInt::getOneBitSet(w, k)); }
      else ok = atom(e);
      break;
    case ITE:
      if (isC(e->kid(1)) && isC(e->kid(2))) {  // c ? a : b = b + c*(a-b)
        Poly q; ok = toPoly2(e->kid(0), w, w, q, depth - 1, memo) && polyAddTo(out, {}, e->kid(2)->c.zextOrTrunc(w)) && polyAcc(out, q, e->kid(1)->c.zextOrTrunc(w) - e->kid(2)->c.zextOrTrunc(w));
      } else ok = atom(e);
      break;
    default: ok = atom(e);
  }
  if (ok && eff == w) memo[e] = out;
  return ok;
}
static bool polyEqual(E a, E b) {
  if (a->w != b->w || a->w == 1) return false;
  for (int mode = 0; mode < 2; ++mode) {
    std::unordered_map<E, Poly> memo; Poly p, q; Cuts cuts; std::unordered_set<E> seen;
    if (mode) { collectCuts(a, cuts, seen); collectCuts(b, cuts, seen); gCuts = &cuts; }
    bool ok = toPoly(a, a->w, p, 60, memo) && toPoly(b, a->w, q, 60, memo) && polyAcc(p, q, APInt::getAllOnes(a->w));
    gCuts = nullptr;
    if (ok && p.t.empty()) return true;
  }
  return false;
}

static std::unordered_map<E, E> gNormMemo;
static E normNode(E e, ArrayRef<E> k);
static std::unordered_map<E, APInt> gMaybe;
static const APInt& maybeOne(E e) {  // bits that can be nonzero
  auto it = gMaybe.find(e);
  if (it != gMaybe.end()) return it->second;
  APInt r = APInt::getAllOnes(e->w);
  switch (e->op) {
    case CONST: r = e->c; break;
    case CONCAT: { unsigned pos = e->w; r = APInt(e->w, 0); for (unsigned i = 0; i < e->nk; ++i) { pos -= e->kid(i)->w; r.insertBits(maybeOne(e->kid(i)), pos); } break; }
    case AND: r = maybeOne(e->kid(0)); r &= maybeOne(e->kid(1)); break;
    case OR: case XOR: r = maybeOne(e->kid(0)); r |= maybeOne(e->kid(1)); break;
    case ITE: r = maybeOne(e->kid(1)); r |= maybeOne(e->kid(2)); break;
    case EXTRACT: r = maybeOne(e->kid(0)).extractBits(e->w, e->a); break;
    default: break;
  }
  return gMaybe[e] = r;
}
// Bit p of a product of sparse factors is the parity of its partial products when no carry can reach it.
static std::unordered_map<E, std::vector<uint32_t>> gCarry;
static E sparseMulBit(E m, unsigned p) {
  E x = m->kid(0), y = m->kid(1);
  const APInt a = maybeOne(x), b = maybeOne(y);
  auto& c = gCarry[m];
  if (c.empty()) {
    c.resize(m->w + 1);
    for (unsigned q = 0; q < m->w; ++q) {
      uint32_t n = 0;
      for (unsigned i = 0; i <= q; ++i) if (a[i] && b[q - i]) ++n;
      c[q + 1] = (n + c[q]) / 2;
    }
  }
  if (c[p]) return nullptr;
  E r = mkC(1, 0);
  for (unsigned i = 0; i <= p; ++i) if (a[i] && b[p - i]) r = mkXor(r, mkAnd(mkExtract(x, i, 1), mkExtract(y, p - i, 1)));
  return r;
}
static std::unordered_map<E, std::vector<E>> gXorLeaves;
static E xorCanon(E r) {  // 1-bit parity chains: sorted, duplicates cancelled
  if (r->op != XOR || r->w != 1 || gXorLeaves.count(r)) return r;
  std::vector<E> l;
  for (unsigned i = 0; i < r->nk; ++i) {
    E k = r->kid(i); auto it = gXorLeaves.find(k);
    if (it != gXorLeaves.end()) l.insert(l.end(), it->second.begin(), it->second.end());
    else if (k->op == XOR) { l.push_back(k->kid(0)); l.push_back(k->kid(1)); }
    else l.push_back(k);
  }
  bool flip = false; std::vector<E> v;
  for (E& e : l) { if (isC(e)) flip ^= isTrue(e); else v.push_back(e); }
  std::sort(v.begin(), v.end(), [](E a, E b) { return a->id < b->id; });
  std::vector<E> u;
  for (E e : v) { if (!u.empty() && u.back() == e) u.pop_back(); else u.push_back(e); }
  E acc = mkBool(false);
  for (size_t i = 0; i < u.size(); ++i) {
    acc = mkXor(acc, u[i]);
    if (acc->op == XOR && i) gXorLeaves[acc] = std::vector<E>(u.begin(), u.begin() + i + 1);
  }
  if (flip) { acc = mkNot(acc); if (acc->op == XOR) { u.push_back(mkBool(true)); gXorLeaves[acc] = u; } }
  return acc;
}
static E normExtract(E x, unsigned lo, unsigned w) {
  if (w == 1 && x->op == MUL && !isC(x->kid(1))) if (E r = sparseMulBit(x, lo)) return r->op == XOR ? xorCanon(r) : r;
  // push truncation through low-order arithmetic
  if (lo == 0 && w < x->w && (x->op == ADD || x->op == SUB || x->op == MUL)) {
    E a = normExtract(x->kid(0), 0, w), b = normExtract(x->kid(1), 0, w);
    E ab[2] = {a, b};
    E t = x->op == ADD ? mkAdd(a, b) : x->op == SUB ? mkSub(a, b) : mkMul(a, b);
    (void)ab;
    return t->op == ADD || t->op == SUB ? normNode(t, ArrayRef<E>(t->k, t->nk)) : t;
  }
  return mkExtract(x, lo, w);
}
// Minimum/maximum trees: associative, commutative and idempotent, hence one canonical chain over the sorted set of leaves.
struct MM { int kind; std::vector<E> leaves; };  // kind: 0 umin, 1 umax, 2 smin, 3 smax
static std::unordered_map<E, MM> gMM;
static bool bitFlip(E x, E p) { return x->w == p->w && mkNot(p) == x; }
static E minMaxCanon(E r) {
  if (r->op != ITE || gMM.count(r)) return r;
  E c = r->kid(0), x = r->kid(1), y = r->kid(2);
  if (c->op != ULT && c->op != ULE && c->op != SLT && c->op != SLE) return r;
  bool sg = c->op == SLT || c->op == SLE;
  E p = c->kid(0), q = c->kid(1), t;
  bool mx = false;
  unsigned w = r->w;
  enum { SAME, ZX, SX, FLIP, NOTF } how;
  auto match = [&](E a, E b) -> int {  // a, b are the comparison's operands seen through an order-preserving (or reversing) map
    if (a->w == w) {
      if (a == x && b == y) return SAME;
      if (isFlip(x, &t) && t == a && isFlip(y, &t) && t == b) return FLIP;
      if (bitFlip(x, a) && bitFlip(y, b)) return NOTF;
    } else if (a->w < w) {
      if (!sg && mkZExt(a, w) == x && mkZExt(b, w) == y) return ZX;
      if (sg && mkSExt(a, w) == x && mkSExt(b, w) == y) return SX;
    }
    return -1;
  };
  int m = match(p, q);
  if (m < 0) { m = match(q, p); mx = true; std::swap(p, q); }
  if (m < 0) return r;
  how = (decltype(how))m;
  MM out; out.kind = (sg ? 2 : 0) + (mx ? 1 : 0);
  for (E e : {p, q}) { auto it = gMM.find(e); if (it != gMM.end() && it->second.kind == out.kind) out.leaves.insert(out.leaves.end(), it->second.leaves.begin(), it->second.leaves.end()); else out.leaves.push_back(e); }
  std::sort(out.leaves.begin(), out.leaves.end(), [](E a, E b) { return a->id < b->id; });
  out.leaves.erase(std::unique(out.leaves.begin(), out.leaves.end()), out.leaves.end());
  E a = out.leaves[0];
  for (size_t i = 1; i < out.leaves.size(); ++i) {
    E b = out.leaves[i];
    a = out.kind == 0 ? mkUMin(a, b) : out.kind == 1 ? mkUMax(a, b) : out.kind == 2 ? mkSMin(a, b) : mkSMax(a, b);
    if (a->op == ITE && !gMM.count(a)) gMM[a] = MM{out.kind, std::vector<E>(out.leaves.begin(), out.leaves.begin() + i + 1)};
  }
  switch (how) {
    case SAME: return a;
    case ZX: return mkZExt(a, w);
    case SX: return mkSExt(a, w);
    case FLIP: return mkXor(a, mkConst(APInt::getSignedMinValue(w)));
    case NOTF: return mkNot(a);
  }
  return r;
}
static E normNode(E e, ArrayRef<E> k) {
  switch (e->op) {
    case ITE: return minMaxCanon(rebuild(e, k));
    case EXTRACT: return normExtract(k[0], e->a, e->w);
    case UREM: { E r = rebuild(e, k); if (r->op != UREM || isC(r->kid(1))) return r; E a = r->kid(0), b = r->kid(1), s = mkSub(a, mkMul(b, mkUDiv(a, b))); return s->op == SUB ? normNode(s, ArrayRef<E>(s->k, s->nk)) : s; }
    case SREM: { E r = rebuild(e, k); if (r->op != SREM || isC(r->kid(1))) return r; E a = r->kid(0), b = r->kid(1), s = mkSub(a, mkMul(b, mkSDiv(a, b))); return s->op == SUB ? normNode(s, ArrayRef<E>(s->k, s->nk)) : s; }
    case XOR: return xorCanon(rebuild(e, k));
    case ADD: case SUB: {
      E r = rebuild(e, k);
      if (r->op != ADD && r->op != SUB) return r;
      Lin l; l.c = APInt(e->w, 0);
      linAdd(l, r, APInt(e->w, 1), 40);
      return fromLin(l, e->w);
    }
    case EQ: {
      E a = k[0], b = k[1];
      if (a == b) return mkBool(true);
      if (a->w > 1 && (a->op == ADD || a->op == SUB || a->op == MUL || b->op == ADD || b->op == SUB || b->op == MUL || a->op == CONCAT || b->op == CONCAT)) {
        if (polyEqual(a, b)) return mkBool(true);
      }
      return mkEq(a, b);
    }
    default: return rebuild(e, k);
  }
}
E normalize(E e) {
  for (int i = 0; i < 4; ++i) {
    E r = rebuildAll(e, gNormMemo, normNode);
    if (r == e) break;
    e = r;
  }
  return e;
}

// ---------------------------------------------------------------- truth tables
// Nodes that depend on at most 8 variable bits are represented by one expression per truth table, and parity chains are
// regrouped by the bits their leaves depend on.
using Supp = std::vector<uint64_t>;  // sorted var << 16 | bit
struct LutInfo { bool small = false, undef = false; Supp s; std::vector<APInt> t; std::vector<char> bad; };  // bad: no defined value
static bool lutUsable(const LutInfo& l) { return l.small && !l.undef; }
static std::unordered_map<E, LutInfo> gLut;
static std::map<std::pair<uint32_t, Supp>, std::vector<E>> gLutCls;
static const LutInfo& lutOf(E e) {
  auto it = gLut.find(e);
  if (it != gLut.end()) return it->second;
  LutInfo r;
  if (isC(e)) { r.small = true; r.t = {e->c}; }
  else if (e->op == VAR || (e->op == EXTRACT && e->kid(0)->op == VAR)) {
    if (e->w <= 8) {
      r.small = true; uint64_t v = e->op == VAR ? e->a : e->kid(0)->a, lo = e->op == VAR ? 0 : e->a;
      for (unsigned i = 0; i < e->w; ++i) r.s.push_back(v << 16 | (lo + i));
      for (unsigned i = 0; i < 1u << e->w; ++i) r.t.push_back(APInt(e->w, i));
    }
  } else if (e->op != UF && e->w <= 64 && e->nk) {
    bool ok = true; Supp s;
    for (unsigned i = 0; i < e->nk && ok; ++i) { const LutInfo& k = lutOf(e->kid(i)); ok = k.small; if (ok) { Supp u; std::set_union(s.begin(), s.end(), k.s.begin(), k.s.end(), std::back_inserter(u)); s = u; ok = s.size() <= 8; } }
    if (ok) {
      r.small = true; r.s = s; r.t.reserve(1u << s.size());
      std::vector<std::vector<unsigned>> pos(e->nk);
      for (unsigned i = 0; i < e->nk; ++i) for (uint64_t b : lutOf(e->kid(i)).s) pos[i].push_back(std::lower_bound(s.begin(), s.end(), b) - s.begin());
      for (unsigned a = 0; a < 1u << s.size(); ++a) {
        std::vector<E> k; bool bad = false; E sel = nullptr;
        for (unsigned i = 0; i < e->nk; ++i) {
          unsigned x = 0; for (unsigned j = 0; j < pos[i].size(); ++j) x |= (a >> pos[i][j] & 1) << j;
          const LutInfo& l = gLut[e->kid(i)]; bool b = l.undef && l.bad[x];
          k.push_back(mkConst(l.t[x]));
          if (e->op == ITE && i && (i == 1) == !k[0]->c.isZero()) { sel = k[i]; bad |= b; }
          else if (!(e->op == ITE && i)) bad |= b;
        }
        E v = e->op == ITE ? sel : rebuild(e, k);
        if (!isC(v)) { bad = true; v = mkC(e->w, 0); }
        if (bad) r.undef = true;
        r.t.push_back(v->c); r.bad.push_back(bad);
      }
    }
  }
  for (unsigned j = 0; r.small && j < r.s.size();) {  // drop bits without influence
    bool dep = false; unsigned n = r.t.size();
    for (unsigned a = 0; a < n && !dep; ++a) if (!(a >> j & 1)) dep = r.t[a] != r.t[a | 1u << j] || (r.undef && r.bad[a] != r.bad[a | 1u << j]);
    if (dep) { ++j; continue; }
    std::vector<APInt> t; for (unsigned a = 0; a < n; ++a) if (!(a >> j & 1)) t.push_back(r.t[a]);
    if (r.undef) { std::vector<char> bd; for (unsigned a = 0; a < n; ++a) if (!(a >> j & 1)) bd.push_back(r.bad[a]); r.bad = bd; }
    r.t = t; r.s.erase(r.s.begin() + j);
  }
  return gLut[e] = r;
}
static E lutRep(E e) {
  if (isC(e) || e->op == VAR) return e;
  const LutInfo& l = lutOf(e);
  if (!lutUsable(l)) return e;
  bool same = true; for (auto& v : l.t) if (v != l.t[0]) { same = false; break; }
  if (same) return mkConst(l.t[0]);
  auto& c = gLutCls[{e->w, l.s}];
  for (E x : c) if (gLut[x].t == l.t) return x;
  c.push_back(e);
  return e;
}
static std::unordered_map<E, std::vector<E>> gLutXor;
static E lutNode(E e, ArrayRef<E> k) {
  E r = rebuild(e, k);
  if (r->op == EQ && !lutUsable(lutOf(r)) && r->kid(0)->w > 1 && r->kid(0)->w <= 64 && (r->kid(0)->op == XOR || r->kid(1)->op == XOR)) {
    E acc = mkBool(true);
    for (unsigned i = 0; i < r->kid(0)->w && !isFalse(acc); ++i) acc = mkAnd(acc, mkNot(lutCanon(mkXor(mkExtract(r->kid(0), i, 1), mkExtract(r->kid(1), i, 1)))));
    return acc;
  }
  if (r->op != XOR) return lutRep(r);
  if (lutUsable(lutOf(r))) return lutRep(r);
  std::vector<E> l, st{r}; unsigned w = r->w; APInt cst(w, 0);
  while (!st.empty()) { E x = st.back(); st.pop_back(); auto it = gLutXor.find(x); if (it != gLutXor.end()) l.insert(l.end(), it->second.begin(), it->second.end()); else if (x->op == XOR && !lutUsable(lutOf(x))) for (unsigned i = 0; i < x->nk; ++i) st.push_back(x->kid(i)); else l.push_back(x); }
  std::map<Supp, E> grp; std::vector<E> big;
  for (E x : l) {
    const LutInfo& f = lutOf(x);
    if (isC(x)) cst ^= x->c;
    else if (lutUsable(f)) {
      // leaves that share bits are joined as long as there are at most 8
      E g = x;
      for (bool again = true; again;) {
        again = false; const Supp fs = lutOf(g).s;
        for (auto it = grp.begin(); it != grp.end(); ++it) {
          Supp u, c; std::set_union(fs.begin(), fs.end(), it->first.begin(), it->first.end(), std::back_inserter(u));
          if (u.size() > 8 || u.size() == fs.size() + it->first.size()) continue;
          g = lutRep(mkXor(g, it->second)); grp.erase(it); again = !isC(g); (void)lutOf(g);
          break;
        }
      }
      if (isC(g)) { cst ^= g->c; continue; }
      // bits that enter linearly stand alone
      if (w == 1) for (bool again = true; again && !isC(g);) {
        again = false; const LutInfo l = lutOf(g);
        if (l.s.size() <= 1) break;
        for (unsigned j = 0; j < l.s.size() && !again; ++j) {
          bool lin = true; for (unsigned a = 0; a < l.t.size() && lin; ++a) lin = l.t[a] != l.t[a ^ (1u << j)];
          if (!lin) continue;
          E bit = mkExtract(varByIndex(l.s[j] >> 16), l.s[j] & 0xFFFF, 1);
          E& h = grp[Supp{l.s[j]}];
          h = h ? mkXor(h, bit) : bit;
          if (isC(h)) { cst ^= h->c; grp.erase(Supp{l.s[j]}); }
          g = lutRep(mkXor(g, bit)); (void)lutOf(g); again = true;
        }
      }
      if (isC(g)) cst ^= g->c;
      else { E& h = grp[lutOf(g).s]; h = h ? lutRep(mkXor(h, g)) : g; if (isC(h)) { cst ^= h->c; for (auto it = grp.begin(); it != grp.end(); ++it) if (&it->second == &h) { grp.erase(it); break; } } }
    }
    else big.push_back(x);
  }
  for (auto& g : grp) if (isC(g.second)) cst ^= g.second->c; else {
    // constants are collected in one place: a group's function is represented with value 0 at input 0
    APInt z = lutOf(g.second).t.empty() ? APInt(w, 0) : gLut[g.second].t[0];
    E x = g.second; if (!z.isZero()) { cst ^= z; x = lutRep(mkXor(x, mkConst(z))); }
    if (!isZero(x)) big.push_back(x);
  }
  std::sort(big.begin(), big.end(), [](E a, E b) { return a->id < b->id; });
  std::vector<E> u; for (E x : big) { if (!u.empty() && u.back() == x) u.pop_back(); else u.push_back(x); }
  E acc = mkConst(cst);
  for (E x : u) acc = acc->op == CONST && acc->c.isZero() ? x : nd(XOR, w, {acc, x});
  if (!cst.isZero()) u.push_back(mkConst(cst));
  if (acc->op == XOR) gLutXor[acc] = u;
  return lutRep(acc);
}
static std::unordered_map<E, E> gLutMemo;
E lutCanon(E e) { return rebuildAll(e, gLutMemo, lutNode); }

bool smallSupport(ArrayRef<E> es) { Supp u; for (E e : es) { const LutInfo& l = lutOf(e); if (!lutUsable(l)) return false; Supp t; std::set_union(u.begin(), u.end(), l.s.begin(), l.s.end(), std::back_inserter(t)); u = t; } return u.size() <= 8; }
E rewriteIntQuots(E root, std::unordered_map<E, E>& memo, std::vector<E>& side) {
  return rebuildAll(root, memo, [&](E n, ArrayRef<E> k) -> E {
    E r = rebuild(n, k);
    if (r->op != FDIV) return r;
    IntQuot q = intQuot(r->a, r, RTZ);
    if (!q.ok) return r;
    E v = mkVar(r->w, "quot"), ok = mkNot(mkEq(q.y, mkC(q.n, 0)));
    E wide = intQuotWide(q);
    side.push_back(mkOr(mkNot(ok), mkAnd(fInRangeSI(r->a, v, q.n + 1, RTZ), mkEq(fToSI(r->a, v, q.n + 1, RTZ), wide))));
    if (!q.sg) side.push_back(mkOr(mkNot(ok), mkNot(mkExtract(v, v->w - 1, 1))));
    return v;
  });
}

unsigned redundantSignBits(E e) { return signExtraBits(e); }
E rebuildNode(E e, ArrayRef<E> k) { return rebuild(e, k); }
// ---------------------------------------------------------------- misc
std::string toString(E e, unsigned depth) {
  if (e->op == CONST) { std::string s = "#" + llvm::toString(e->c, 16, false) + ":" + std::to_string(e->w); return s; }
  if (e->op == VAR) return varName(e->a) + ":" + std::to_string(e->w);
  if (depth == 0) return "…" + std::to_string(e->id);
  std::string s = "("; s += e->op == UF ? ufName(e->a) : kOpNames[e->op];
  if (e->op == EXTRACT) s += "[" + std::to_string(e->a) + "+" + std::to_string(e->w) + "]";
  if (e->op == SEXT) s += std::to_string(e->w);
  if (isFpOp(e->op)) s += "." + std::to_string(e->a) + "." + std::to_string(e->b);
  for (unsigned i = 0; i < e->nk; ++i) s += " " + toString(e->kid(i), depth - 1);
  return s + ")";
}
static std::unordered_map<E, std::vector<uint32_t>> gVarsMemo;
const std::vector<uint32_t>& varsOf(E e) {
  auto it = gVarsMemo.find(e);
  if (it != gVarsMemo.end()) return it->second;
  std::unordered_set<E> seen; std::vector<E> st{e}; std::vector<uint32_t> out;
  while (!st.empty()) {
    E n = st.back(); st.pop_back();
    if (!seen.insert(n).second) continue;
    if (n->op == VAR) out.push_back(n->a);
    for (unsigned i = 0; i < n->nk; ++i) st.push_back(n->kid(i));
  }
  std::sort(out.begin(), out.end());
  return gVarsMemo.emplace(e, std::move(out)).first->second;
}
static bool anyNode(E e, const std::function<bool(E)>& f) {
  std::unordered_set<E> seen; std::vector<E> st{e};
  while (!st.empty()) {
    E n = st.back(); st.pop_back();
    if (!seen.insert(n).second) continue;
    if (f(n)) return true;
    for (unsigned i = 0; i < n->nk; ++i) st.push_back(n->kid(i));
  }
  return false;
}
bool hasFp(E e) { return anyNode(e, [](E n) { return isFpOp(n->op); }); }
bool hasUF(E e) { return anyNode(e, [](E n) { return n->op == UF; }); }
uint64_t dagSize(ArrayRef<E> es) {
  std::unordered_set<E> seen; std::vector<E> st(es.begin(), es.end());
  while (!st.empty()) {
    E n = st.back(); st.pop_back();
    if (!seen.insert(n).second) continue;
    for (unsigned i = 0; i < n->nk; ++i) st.push_back(n->kid(i));
  }
  return seen.size();
}
Hash128 alphaHash(ArrayRef<E> es) {
  std::unordered_map<E, uint32_t> idx; std::unordered_map<uint32_t, uint32_t> vars;
  Hash128 h{0x1234567, 0x89abcdef};
  auto put = [&](uint64_t v) { h.a = mix(h.a, v); h.b = (h.b ^ v) * 0x9FB21C651E98DF25ull; h.b ^= h.b >> 28; h.b = mix(h.b, v * 3 + 1); };
  for (E root : es) {
    std::vector<std::pair<E, unsigned>> st{{root, 0}};
    while (!st.empty()) {
      E e = st.back().first; unsigned& i = st.back().second;
      if (idx.count(e)) { st.pop_back(); continue; }
      if (i < e->nk) { E k = e->kid(i++); if (!idx.count(k)) st.push_back({k, 0}); continue; }
      uint32_t n = idx.size(); idx[e] = n;
      put(e->op); put(e->w);
      if (e->op == VAR) { auto it = vars.emplace(e->a, (uint32_t)vars.size()).first; put(it->second); }
      else if (e->op == CONST) { for (unsigned j = 0; j < e->c.getNumWords(); ++j) put(e->c.getRawData()[j]); }
      else if (e->op == UF) { for (char c : ufName(e->a)) put((unsigned char)c); }
      else { put(e->a); put(e->b); }
      put(e->nk);
      for (unsigned j = 0; j < e->nk; ++j) put(idx[e->kid(j)]);
      st.pop_back();
    }
    put(0xfeed); put(idx[root]);
  }
  return h;
}
}  // namespace vp
