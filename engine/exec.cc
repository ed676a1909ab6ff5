#include "exec.h"
#include "llvm/Analysis/PostDominators.h"
#include "llvm/IR/CFG.h"
#include <algorithm>
#include <cstdio>
#include <cstring>
#include "llvm/ADT/SmallString.h"
#include "llvm/ADT/StringExtras.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/Operator.h"
#include "llvm/Support/raw_ostream.h"

namespace vp {
using namespace llvm;

static std::string hex(const APInt& v) { return llvm::toString(v, 16, false); }

Exec::Exec(Module& m, const Options& o) : M(m), DL(m.getDataLayout()), opt(o) { rng = o.seed * 0x9E3779B97F4A7C15ull + 12345; }

// ------------------------------------------------------------------ types
unsigned Exec::fmtOf(Type* t) {
  t = t->getScalarType();
  if (t->isHalfTy()) return F16;
  if (t->isBFloatTy()) return BF16;
  if (t->isFloatTy()) return F32;
  if (t->isDoubleTy()) return F64;
  throw Unsupported{"float type"};
}
unsigned Exec::leaves(Type* t) {
  if (auto* v = dyn_cast<FixedVectorType>(t)) return v->getNumElements() * leaves(v->getElementType());
  if (auto* a = dyn_cast<ArrayType>(t)) return a->getNumElements() * leaves(a->getElementType());
  if (auto* s = dyn_cast<StructType>(t)) { unsigned n = 0; for (Type* e : s->elements()) n += leaves(e); return n; }
  return 1;
}
void Exec::leafTypes(Type* t, std::vector<Type*>& out) {
  if (auto* v = dyn_cast<FixedVectorType>(t)) { for (unsigned i = 0; i < v->getNumElements(); ++i) leafTypes(v->getElementType(), out); return; }
  if (auto* a = dyn_cast<ArrayType>(t)) { for (unsigned i = 0; i < a->getNumElements(); ++i) leafTypes(a->getElementType(), out); return; }
  if (auto* s = dyn_cast<StructType>(t)) { for (Type* e : s->elements()) leafTypes(e, out); return; }
  out.push_back(t);
}
unsigned Exec::leafBits(Type* t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64;
  if (t->isHalfTy() || t->isBFloatTy()) return 16;
  if (t->isFloatTy()) return 32;
  if (t->isDoubleTy()) return 64;
  std::string s; raw_string_ostream os(s); t->print(os);
  throw Unsupported{"type " + os.str()};
}

std::string Exec::where() {
  if (!S || S->threads.empty() || S->threads[S->cur].stack.empty()) return "?";
  std::string s;
  auto& st = S->threads[S->cur].stack;
  for (int i = (int)st.size() - 1, n = 0; i >= 0 && n < 3; --i, ++n) { if (n) s += " < "; s += st[i].f->getName().str(); }
  return s;
}

// ------------------------------------------------------------------ path conditions
E Exec::fresh(unsigned w, const char* why) { return mkVar(w, std::string("$") + why); }

std::vector<E> Exec::slice(E q) {
  // conjuncts of the path condition that share variables (transitively) with q
  std::vector<E> out;
  if (S->pc.empty()) return out;
  std::set<uint32_t> vs(varsOf(q).begin(), varsOf(q).end());
  std::vector<bool> in(S->pc.size(), false);
  bool changed = true;
  while (changed) {
    changed = false;
    for (size_t i = 0; i < S->pc.size(); ++i) {
      if (in[i]) continue;
      bool hit = false;
      for (uint32_t v : varsOf(S->pc[i])) if (vs.count(v)) { hit = true; break; }
      if (hit) { in[i] = true; changed = true; for (uint32_t v : varsOf(S->pc[i])) vs.insert(v); }
    }
  }
  for (size_t i = 0; i < S->pc.size(); ++i) if (in[i]) out.push_back(S->pc[i]);
  return out;
}
void Exec::addPc(E c) {
  if (isTrue(c)) return;
  if (c->op == AND && c->w == 1) { addPc(c->kid(0)); addPc(c->kid(1)); return; }
  for (E p : S->pc) if (p == c) return;
  S->pc.push_back(c);
}
bool Exec::feasible(E c) {
  if (isTrue(c)) return true;
  if (isFalse(c)) return false;
  for (E p : S->pc) { if (p == c) return true; E x; if ((isNot(c, &x) && x == p) || (isNot(p, &x) && x == c)) return false; }
  if (mergeGuard) { c = mkAnd(c, mergeGuard); if (isFalse(c)) return false; }
  std::vector<E> q = slice(c); q.push_back(c);
  return solveRefine(q, nullptr, opt.timeoutMs) != Res::UNSAT;
}
bool Exec::mustBe(E c) {
  if (isTrue(c)) return true;
  return !feasible(mkNot(c));
}
bool Exec::branchCond(E c) {
  if (isC(c)) return isTrue(c);
  for (E p : S->pc) { if (p == c) return true; E x; if ((isNot(c, &x) && x == p) || (isNot(p, &x) && x == c)) return false; }
  E n = normalize(c);
  if (isC(n)) return isTrue(n);
  bool t = feasible(c), f = feasible(mkNot(c));
  if (t && f) throw ForkOn{c};
  if (!t && !f) throw PathEnd{};
  return t;
}
uint64_t Exec::concretize(E e, const char* why) {
  if (isC(e)) return e->c.getZExtValue();
  Model m;
  std::vector<E> q = slice(e);
  Res r = q.empty() ? Res::SAT : solveRefine(q, &m, opt.timeoutMs);
  if (r == Res::UNSAT) throw PathEnd{};
  if (r == Res::UNKNOWN) throw Unsupported{std::string("solver gave up while concretising ") + why};
  APInt v = evalModel(e, m);
  E eq = mkEq(e, mkConst(v));
  if (mustBe(eq)) return v.getZExtValue();
  throw ForkOn{eq};
}

void Exec::fail(const std::string& kind, const std::string& label, E cond) {
  // cond: the violating condition; find a model together with the whole path condition
  Model m; std::vector<E> q(S->pc); q.push_back(cond);
  if (mergeGuard) q.push_back(mergeGuard);
  Res r = solveRefine(q, &m, opt.timeoutMs);
  if (r == Res::UNSAT) return;
  Failure f; f.kind = kind; f.label = label; f.where = where(); f.decided = r == Res::SAT;
  for (auto& l : S->log) f.inputs.push_back({l.name, std::to_string(l.e->w) + ":" + hex(evalModel(l.e, m))});
  if (opt.verbose) f.detail = toString(cond, 12);
  res.failures.push_back(f);
  if (!f.decided) { res.undecided++; if (res.undecided >= 2) throw GoalStop{}; return; }
  throw GoalStop{};
}
void Exec::check(E c, const std::string& label) {
  res.checks++;
  if (opt.concrete || opt.haveReplay) {
    if (opt.trace) res.traceOut.push_back("C " + label + " " + (isTrue(c) ? "1" : isFalse(c) ? "0" : "?"));
  }
  if (isTrue(c)) return;
  c = normalize(c);
  if (isTrue(c)) return;
  E n = mkNot(c);
  std::vector<E> q = slice(n); q.push_back(n);
  Model m;
  auto t0 = std::chrono::steady_clock::now();
  Res r = solveRefine(q, &m, opt.timeoutMs);
  static const char* slow = getenv("VP_SLOW");
  if (slow && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > atof(slow)) { fprintf(stderr, "slow check %s\n", label.c_str()); for (E e : q) fprintf(stderr, "  %s\n", toString(e, 14).c_str()); }
  if (r == Res::UNSAT) return;
  if (opt.dumpQueries) fprintf(stderr, "; query for %s\n%s\n", label.c_str(), toSmt2(q, true).c_str());
  if (r == Res::SAT) { fail("check", label, n); return; }
  Failure f; f.kind = "check"; f.label = label; f.where = where(); f.decided = false;
  for (auto& l : S->log) f.inputs.push_back({l.name, std::to_string(l.e->w) + ":" + hex(evalModel(l.e, m))});
  if (opt.verbose) f.detail = toString(c, 12);
  res.failures.push_back(f);
  if (++res.undecided >= 2) throw GoalStop{};
}

// ------------------------------------------------------------------ memory
E Exec::alloc(uint64_t size, const std::string& name, int kind, E symBase, uint64_t align) {
  auto o = std::make_shared<MemObj>();
  o->size = size; o->name = name; o->kind = kind; o->b.resize(size);
  if (symBase) { o->symBase = symBase; S->symMem.push_back(o); return symBase; }
  if (align < 16) align = 16;
  uint64_t a = (S->nextAddr + align - 1) / align * align;
  // keep objects apart, and do not let unaligned code pass because of generous alignment
  o->base = a; S->nextAddr = a + size + 4096 + 16;
  S->mem[a] = o;
  return mkC(64, a);
}
MemObj& Exec::writable(ObjP o) {
  // copy on write: objects may be shared with forked states
  if (o->symBase) {
    for (auto& p : S->symMem) if (p == o) { if (p.use_count() > 2) p = std::make_shared<MemObj>(*p); return *p; }
    throw Unsupported{"lost symbolic object"};
  }
  auto it = S->mem.find(o->base);
  if (it->second.use_count() > 2) it->second = std::make_shared<MemObj>(*it->second);
  return *it->second;
}
static void linTerms(E e, int sign, APInt& c, std::vector<std::pair<E, int>>& t, int depth = 0) {
  if (isC(e)) { if (sign > 0) c += e->c; else c -= e->c; return; }
  if (depth < 30 && e->op == ADD) { linTerms(e->kid(0), sign, c, t, depth + 1); linTerms(e->kid(1), sign, c, t, depth + 1); return; }
  if (depth < 30 && e->op == SUB) { linTerms(e->kid(0), sign, c, t, depth + 1); linTerms(e->kid(1), -sign, c, t, depth + 1); return; }
  t.push_back({e, sign});
}
ObjP Exec::resolve(E addr, uint64_t n, E guard, E* off, bool forWrite) {
  auto oob = [&](const char* k, E cond, const std::string& what) {
    E g = guard ? mkAnd(guard, cond) : cond;
    if (guard && !feasible(g)) throw PathEnd{};  // unreachable access; callers test the guard first
    fail("memory", std::string(k) + ": " + what, g);
    throw PathEnd{};
  };
  auto findC = [&](uint64_t a) -> ObjP {
    auto it = S->mem.upper_bound(a);
    if (it == S->mem.begin()) return nullptr;
    --it;
    MemObj& o = *it->second;
    if (a < o.base || a > o.base + o.size) return nullptr;
    return it->second;
  };
  auto verdict = [&](ObjP o, const char* what) {
    if (o->freed) oob("use after free", mkBool(true), o->name);
    if (forWrite && o->ro) oob("write to constant", mkBool(true), o->name);
    if (o->kind == 3) oob("access to code", mkBool(true), o->name);
    (void)what;
  };
  if (isC(addr)) {
    uint64_t a = addr->c.getZExtValue();
    ObjP o = findC(a);
    if (!o || a + n > o->base + o->size) {
      std::string nm = o ? o->name : (a < 4096 ? "null" : "wild");
      oob("out of bounds", mkBool(true), nm + " offset " + std::to_string(o ? (int64_t)(a - o->base) : (int64_t)a) + " size " + std::to_string(n) + (o ? " of " + std::to_string(o->size) : ""));
    }
    verdict(o, "");
    *off = mkC(64, a - o->base);
    return o;
  }
  APInt c(64, 0); std::vector<std::pair<E, int>> terms;
  linTerms(addr, 1, c, terms);
  ObjP cand;
  for (auto& t : terms) if (t.second > 0) for (auto& o : S->symMem) if (o->symBase == t.first) cand = o;
  if (!cand) {
    // nearest object for the constant part
    uint64_t a = c.getZExtValue();
    cand = findC(a);
    if (!cand) {
      auto it = S->mem.upper_bound(a);
      if (it != S->mem.end() && it->second->base - a < 4096) cand = it->second;
      else if (it != S->mem.begin()) { --it; if (a - (it->second->base + it->second->size) < 4096) cand = it->second; }
    }
  }
  auto inRange = [&](ObjP o) -> E {
    if (o->size < n) return mkBool(false);
    E base = o->symBase ? o->symBase : mkC(64, o->base);
    return mkUlt(mkSub(addr, base), mkC(64, o->size - n + 1));
  };
  for (int attempt = 0; attempt < 2; ++attempt) {
    if (cand) {
      E in = inRange(cand);
      E bad = guard ? mkAnd(guard, mkNot(in)) : mkNot(in);
      bad = normalize(bad);
      if (!feasible(bad)) {
        verdict(cand, "");
        *off = mkSub(addr, cand->symBase ? cand->symBase : mkC(64, cand->base));
        return cand;
      }
    }
    // which object does a model point to?
    Model m; std::vector<E> q(S->pc); if (guard) q.push_back(guard);
    if (cand) q.push_back(mkNot(inRange(cand)));
    Res r = solveRefine(q, &m, opt.timeoutMs);
    if (r == Res::UNSAT) { if (cand) { *off = mkSub(addr, cand->symBase ? cand->symBase : mkC(64, cand->base)); return cand; } throw PathEnd{}; }
    if (r == Res::UNKNOWN) throw Unsupported{"solver gave up on an address"};
    uint64_t a = evalModel(addr, m).getZExtValue();
    ObjP o2;
    for (auto& o : S->symMem) { uint64_t b = evalModel(o->symBase, m).getZExtValue(); if (a >= b && a - b + n <= o->size && o != cand) o2 = o; }
    if (!o2) { o2 = findC(a); if (o2 && (a + n > o2->base + o2->size || o2 == cand)) o2 = nullptr; }
    if (!o2) {
      E bad = cand ? mkNot(inRange(cand)) : mkEq(addr, mkC(64, a));
      oob("out of bounds", bad, (cand ? cand->name : std::string("wild")) + " (symbolic offset) size " + std::to_string(n) + (cand ? " of " + std::to_string(cand->size) : ""));
    }
    if (attempt == 0 && (!cand || !feasible(guard ? mkAnd(guard, inRange(cand)) : inRange(cand)))) { cand = o2; continue; }
    throw ForkOn{inRange(o2)};
  }
  throw Unsupported{"address resolution"};
}

uint64_t Exec::cellsLoadRun(const MemObj& o, uint64_t off, unsigned nb, E* out) {
  const Cell& c0 = o.b[off];
  if (c0.e && c0.idx == 0 && c0.e->w == nb * 8) {
    bool all = true;
    for (unsigned i = 1; i < nb; ++i) if (o.b[off + i].e != c0.e || o.b[off + i].idx != i) { all = false; break; }
    if (all) { *out = c0.e; return nb; }
  }
  SmallVector<E, 8> parts;  // lo to hi
  for (unsigned i = 0; i < nb;) {
    const Cell& c = o.b[off + i];
    unsigned j = i + 1;
    while (j < nb && o.b[off + j].e == c.e && o.b[off + j].idx == c.idx + (j - i)) ++j;
    parts.push_back(mkExtract(c.e, c.idx * 8, (j - i) * 8));
    i = j;
  }
  std::reverse(parts.begin(), parts.end());
  *out = mkConcat(parts);
  return nb;
}
static unsigned trailingZeros(E e) {
  if (isC(e)) return e->c.isZero() ? e->w : e->c.countr_zero();
  if (e->op == CONCAT) { E k = e->kid(e->nk - 1); return isC(k) ? (k->c.isZero() ? k->w : k->c.countr_zero()) : trailingZeros(k); }
  if (e->op == ADD || e->op == SUB) return std::min(trailingZeros(e->kid(0)), trailingZeros(e->kid(1)));
  if (e->op == MUL) return std::min(e->w, trailingZeros(e->kid(0)) + trailingZeros(e->kid(1)));
  if (e->op == ITE) return std::min(trailingZeros(e->kid(1)), trailingZeros(e->kid(2)));
  if (e->op == SEXT) { unsigned t = trailingZeros(e->kid(0)); return std::min(t, e->kid(0)->w); }
  return 0;
}
static E muxTree(E idx, const std::vector<E>& v, uint64_t lo, unsigned bit) {
  if (lo >= v.size()) return nullptr;
  if (bit == 0) return v[lo];
  E a = muxTree(idx, v, lo, bit - 1), b = muxTree(idx, v, lo + (1ull << (bit - 1)), bit - 1);
  if (!b) return a;
  return mkIte(mkExtract(idx, bit - 1, 1), b, a);
}
E Exec::loadBits(E addr, unsigned bits, E guard) {
  unsigned nb = (bits + 7) / 8;
  if (mergeGuard) guard = guard ? mkAnd(guard, mergeGuard) : mergeGuard;
  struct NoGuard { E& g; E s; NoGuard(E& x) : g(x), s(x) { g = nullptr; } ~NoGuard() { g = s; } } noGuard(mergeGuard);
  if (guard && isFalse(guard)) return fresh(bits, "masked");
  if (addr->op == ITE) {  // select of pointers: read both, each under its condition
    E c = addr->kid(0), n = mkNot(c);
    E x = loadBits(addr->kid(1), bits, guard ? mkAnd(guard, c) : c), y = loadBits(addr->kid(2), bits, guard ? mkAnd(guard, n) : n);
    return mkIte(c, x, y);
  }
  E off;
  ObjP o;
  try { o = resolve(addr, nb, guard, &off, false); }
  catch (PathEnd&) { if (guard && !feasible(guard)) return fresh(bits, "masked"); throw; }
  // materialise uninitialised bytes as unconstrained values
  auto ensure = [&](uint64_t a, unsigned n) {
    bool need = false;
    for (unsigned i = 0; i < n; ++i) if (!o->b[a + i].e) { need = true; break; }
    if (!need) return;
    MemObj& wo = writable(o);
    for (auto& kv : S->mem) if (kv.second.get() == &wo) { o = kv.second; break; }
    if (o->symBase) for (auto& p : S->symMem) if (p.get() == &wo) o = p;
    for (unsigned i = 0; i < n; ++i) if (!wo.b[a + i].e) wo.b[a + i] = {fresh(8, "uninit"), 0};
  };
  E r;
  if (isC(off)) {
    uint64_t a = off->c.getZExtValue();
    ensure(a, nb);
    cellsLoadRun(*o, a, nb, &r);
  } else {
    unsigned tz = std::min(trailingZeros(off), 12u);
    uint64_t step = 1ull << tz;
    APInt um = umaxOf(off);
    uint64_t maxOff = o->size - nb;
    if (um.ult(maxOff)) maxOff = um.getZExtValue();
    uint64_t cnt = maxOff / step + 1;
    if (cnt > 70000) throw Unsupported{"symbolic offset into a large object (" + o->name + ", " + std::to_string(o->size) + " bytes)"};
    ensure(0, o->size);
    std::vector<E> vals;
    for (uint64_t k = 0; k < cnt; ++k) { E x; cellsLoadRun(*o, k * step, nb, &x); vals.push_back(x); }
    unsigned ib = 0; while ((1ull << ib) < cnt) ++ib;
    r = ib ? muxTree(mkExtract(off, tz, ib), vals, 0, ib) : vals[0];
  }
  return bits == nb * 8 ? r : mkExtract(r, 0, bits);
}
void Exec::storeBits(E addr, E v, E guard) {
  unsigned nb = (v->w + 7) / 8;
  if (v->w != nb * 8) v = mkZExt(v, nb * 8);
  if (mergeGuard) guard = guard ? mkAnd(guard, mergeGuard) : mergeGuard;
  struct NoGuard { E& g; E s; NoGuard(E& x) : g(x), s(x) { g = nullptr; } ~NoGuard() { g = s; } } noGuard(mergeGuard);
  if (guard && isFalse(guard)) return;
  if (guard && isTrue(guard)) guard = nullptr;
  if (addr->op == ITE) {
    E c = addr->kid(0), n = mkNot(c);
    storeBits(addr->kid(1), v, guard ? mkAnd(guard, c) : c); storeBits(addr->kid(2), v, guard ? mkAnd(guard, n) : n);
    return;
  }
  E off;
  ObjP o;
  try { o = resolve(addr, nb, guard, &off, true); }
  catch (PathEnd&) { if (guard && !feasible(guard)) return; throw; }
  MemObj& w = writable(o);
  auto put = [&](uint64_t a, E val) { for (unsigned i = 0; i < nb; ++i) w.b[a + i] = {val, i}; };
  auto old = [&](uint64_t a) {
    for (unsigned i = 0; i < nb; ++i) if (!w.b[a + i].e) w.b[a + i] = {fresh(8, "uninit"), 0};
    E x; cellsLoadRun(w, a, nb, &x); return x;
  };
  if (isC(off)) {
    uint64_t a = off->c.getZExtValue();
    put(a, guard ? mkIte(guard, v, old(a)) : v);
    return;
  }
  unsigned tz = std::min(trailingZeros(off), 12u);
  uint64_t step = 1ull << tz;
  APInt um = umaxOf(off);
  uint64_t maxOff = o->size - nb;
  if (um.ult(maxOff)) maxOff = um.getZExtValue();
  uint64_t cnt = maxOff / step + 1;
  if (cnt > 20000) throw Unsupported{"symbolic store into a large object"};
  for (uint64_t k = 0; k < cnt; ++k) {
    E cond = mkEq(off, mkC(64, k * step));
    if (guard) cond = mkAnd(cond, guard);
    if (isFalse(cond)) continue;
    put(k * step, mkIte(cond, v, old(k * step)));
  }
}
Val Exec::loadTyped(Type* t, E addr) {
  Val out;
  if (auto* v = dyn_cast<FixedVectorType>(t)) {
    unsigned eb = leafBits(v->getElementType());
    unsigned n = v->getNumElements();
    if (eb % 8 != 0) {
      E w = loadBits(addr, (unsigned)DL.getTypeStoreSize(t) * 8);
      for (unsigned i = 0; i < n; ++i) out.push_back(mkExtract(w, i * eb, eb));
      return out;
    }
    // one bounds check for the whole vector
    if (addr->op != ITE && !mergeGuard) { E off; resolve(addr, n * eb / 8, nullptr, &off, false); }
    for (unsigned i = 0; i < n; ++i) out.push_back(loadBits(mkAdd(addr, mkC(64, i * eb / 8)), eb));
    return out;
  }
  if (auto* a = dyn_cast<ArrayType>(t)) {
    uint64_t es = DL.getTypeAllocSize(a->getElementType());
    for (unsigned i = 0; i < a->getNumElements(); ++i) { Val x = loadTyped(a->getElementType(), mkAdd(addr, mkC(64, i * es))); out.append(x.begin(), x.end()); }
    return out;
  }
  if (auto* s = dyn_cast<StructType>(t)) {
    const StructLayout* sl = DL.getStructLayout(s);
    for (unsigned i = 0; i < s->getNumElements(); ++i) { Val x = loadTyped(s->getElementType(i), mkAdd(addr, mkC(64, sl->getElementOffset(i)))); out.append(x.begin(), x.end()); }
    return out;
  }
  unsigned b = leafBits(t);
  out.push_back(mkExtract(loadBits(addr, (unsigned)DL.getTypeStoreSize(t) * 8), 0, b));
  return out;
}
void Exec::storeTyped(Type* t, E addr, const Val& v) {
  if (auto* vt = dyn_cast<FixedVectorType>(t)) {
    unsigned eb = leafBits(vt->getElementType()), n = vt->getNumElements();
    if (eb % 8 != 0) {
      SmallVector<E, 16> p(v.rbegin(), v.rend());
      E w = mkConcat(p);
      storeBits(addr, mkZExt(w, (unsigned)DL.getTypeStoreSize(t) * 8));
      return;
    }
    if (addr->op != ITE && !mergeGuard) { E off; resolve(addr, n * eb / 8, nullptr, &off, true); }
    for (unsigned i = 0; i < n; ++i) storeBits(mkAdd(addr, mkC(64, i * eb / 8)), v[i]);
    return;
  }
  if (auto* a = dyn_cast<ArrayType>(t)) {
    uint64_t es = DL.getTypeAllocSize(a->getElementType()); unsigned ln = leaves(a->getElementType());
    for (unsigned i = 0; i < a->getNumElements(); ++i) storeTyped(a->getElementType(), mkAdd(addr, mkC(64, i * es)), Val(v.begin() + i * ln, v.begin() + (i + 1) * ln));
    return;
  }
  if (auto* s = dyn_cast<StructType>(t)) {
    const StructLayout* sl = DL.getStructLayout(s); unsigned p = 0;
    for (unsigned i = 0; i < s->getNumElements(); ++i) { unsigned ln = leaves(s->getElementType(i)); storeTyped(s->getElementType(i), mkAdd(addr, mkC(64, sl->getElementOffset(i))), Val(v.begin() + p, v.begin() + p + ln)); p += ln; }
    return;
  }
  storeBits(addr, mkZExt(v[0], (unsigned)DL.getTypeStoreSize(t) * 8));
}
void Exec::memcpyBytes(E dst, E src, uint64_t n) {
  if (n == 0) return;
  E so, dof;
  ObjP s = resolve(src, n, nullptr, &so, false);
  ObjP d = resolve(dst, n, nullptr, &dof, true);
  if (isC(so) && isC(dof)) {
    uint64_t a = so->c.getZExtValue(), b = dof->c.getZExtValue();
    std::vector<Cell> tmp(s->b.begin() + a, s->b.begin() + a + n);
    s.reset();
    MemObj& w = writable(d);
    std::copy(tmp.begin(), tmp.end(), w.b.begin() + b);
    return;
  }
  s.reset(); d.reset();
  // one chunk at a time
  std::vector<E> bytes;
  for (uint64_t i = 0; i < n; ++i) bytes.push_back(loadBits(mkAdd(src, mkC(64, i)), 8));
  for (uint64_t i = 0; i < n; ++i) storeBits(mkAdd(dst, mkC(64, i)), bytes[i]);
}
void Exec::freePtr(E p) {
  if (isZero(p)) return;
  if (isC(p)) {
    uint64_t a = p->c.getZExtValue();
    auto it = S->mem.find(a);
    if (it == S->mem.end() || it->second->kind != 2) { fail("memory", "free of a pointer that was not allocated", mkBool(true)); throw PathEnd{}; }
    if (it->second->freed) { fail("memory", "double free", mkBool(true)); throw PathEnd{}; }
    ObjP o = it->second; writable(o).freed = true; return;
  }
  for (auto& o : S->symMem) {
    E eq = mkEq(p, o->symBase);
    if (mustBe(eq)) {
      if (o->freed) { fail("memory", "double free", mkBool(true)); throw PathEnd{}; }
      ObjP oo = o; writable(oo).freed = true; return;
    }
  }
  fail("memory", "free of a pointer that was not allocated", mkBool(true)); throw PathEnd{};
}
std::string Exec::cstr(E p) {
  std::string s;
  for (unsigned i = 0; i < 300; ++i) { E c = loadBits(mkAdd(p, mkC(64, i)), 8); if (!isC(c)) return s + "?"; if (isZero(c)) break; s += (char)c->c.getZExtValue(); }
  return s;
}

// ------------------------------------------------------------------ constants
uint64_t Exec::globalAddr(const GlobalValue* g) {
  if (auto* ga = dyn_cast<GlobalAlias>(g)) { if (auto* b = dyn_cast<GlobalValue>(ga->getAliasee()->stripPointerCasts())) return globalAddr(b); }
  auto it = gaddr.find(g);
  if (it != gaddr.end()) return it->second;
  auto o = std::make_shared<MemObj>();
  uint64_t size = 1, align = 16;
  if (auto* gv = dyn_cast<GlobalVariable>(g)) {
    size = DL.getTypeAllocSize(gv->getValueType());
    align = std::max<uint64_t>(gv->getAlign() ? gv->getAlign()->value() : 1, 16);
    o->ro = gv->isConstant(); o->kind = 0;
  } else o->kind = 3;
  nextGlobal = (nextGlobal + align - 1) / align * align;
  uint64_t a = nextGlobal; nextGlobal += size + 4096;
  gaddr[g] = a;
  o->base = a; o->size = size; o->name = g->getName().str(); o->b.resize(size);
  if (auto* gv = dyn_cast<GlobalVariable>(g)) { if (gv->hasInitializer()) initBytes(*o, 0, gv->getInitializer()); }
  else fnByAddr[a] = const_cast<Function*>(cast_or_null<Function>(g));
  baseMem[a] = o;
  if (S) S->mem[a] = o;
  return a;
}
void Exec::initBytes(MemObj& o, uint64_t off, const Constant* c) {
  Type* t = c->getType();
  if (isa<ConstantAggregateZero>(c)) { uint64_t n = DL.getTypeAllocSize(t); for (uint64_t i = 0; i < n; ++i) o.b[off + i] = {mkC(8, 0), 0}; return; }
  if (isa<UndefValue>(c)) { return; }
  if (auto* ca = dyn_cast<ConstantDataSequential>(c)) {
    uint64_t es = DL.getTypeAllocSize(ca->getElementType());
    for (unsigned i = 0; i < ca->getNumElements(); ++i) initBytes(o, off + i * es, ca->getElementAsConstant(i));
    return;
  }
  if (auto* ca = dyn_cast<ConstantArray>(c)) {
    uint64_t es = DL.getTypeAllocSize(ca->getType()->getElementType());
    for (unsigned i = 0; i < ca->getNumOperands(); ++i) initBytes(o, off + i * es, ca->getOperand(i));
    return;
  }
  if (auto* cs = dyn_cast<ConstantStruct>(c)) {
    const StructLayout* sl = DL.getStructLayout(cs->getType());
    for (unsigned i = 0; i < cs->getNumOperands(); ++i) initBytes(o, off + sl->getElementOffset(i), cs->getOperand(i));
    return;
  }
  Val v = constant(c);
  std::vector<Type*> lt; leafTypes(t, lt);
  uint64_t p = off;
  if (t->isVectorTy() && leafBits(lt[0]) % 8) { SmallVector<E, 16> r(v.rbegin(), v.rend()); E w = mkConcat(r); unsigned nb = DL.getTypeStoreSize(t); w = mkZExt(w, nb * 8); for (unsigned i = 0; i < nb; ++i) o.b[off + i] = {w, i}; return; }
  for (unsigned i = 0; i < v.size(); ++i) {
    unsigned nb = DL.getTypeStoreSize(lt[i]); E w = mkZExt(v[i], nb * 8);
    for (unsigned j = 0; j < nb; ++j) o.b[p + j] = {w, j};
    p += nb;
  }
}
Val Exec::constant(const Constant* c) {
  if (isa<UndefValue>(c)) {  // includes poison: a new unconstrained value at every use
    std::vector<Type*> lt; leafTypes(c->getType(), lt);
    Val v; for (Type* t : lt) v.push_back(opt.concrete ? mkC(leafBits(t), 0) : fresh(leafBits(t), "undef"));
    return v;
  }
  auto it = constMemo.find(c);
  if (it != constMemo.end()) return it->second;
  Val v; bool memo = true;
  if (auto* ci = dyn_cast<ConstantInt>(c)) {
    if (auto* vt = dyn_cast<FixedVectorType>(c->getType())) v.assign(vt->getNumElements(), mkConst(ci->getValue()));
    else v.push_back(mkConst(ci->getValue()));
  }
  else if (auto* cf = dyn_cast<ConstantFP>(c)) v.push_back(mkConst(cf->getValueAPF().bitcastToAPInt()));
  else if (isa<ConstantPointerNull>(c)) v.push_back(mkC(64, 0));
  else if (isa<ConstantAggregateZero>(c)) { std::vector<Type*> lt; leafTypes(c->getType(), lt); for (Type* t : lt) v.push_back(mkC(leafBits(t), 0)); }
  else if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); ++i) { Val x = constant(cd->getElementAsConstant(i)); v.append(x.begin(), x.end()); } }
  else if (isa<ConstantAggregate>(c)) { for (const Use& u : c->operands()) { const Constant* k = cast<Constant>(u); if (k->containsUndefOrPoisonElement() || isa<UndefValue>(k)) memo = false; Val x = constant(k); v.append(x.begin(), x.end()); } }
  else if (auto* g = dyn_cast<GlobalValue>(c)) v.push_back(mkC(64, globalAddr(g)));
  else if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    if (auto* gep = dyn_cast<GEPOperator>(ce)) v.push_back(gepAddr(gep));
    else if (ce->isCast()) v = castOp(ce->getOpcode(), constant(ce->getOperand(0)), ce->getOperand(0)->getType(), ce->getType());
    else if (ce->getOpcode() == Instruction::Add || ce->getOpcode() == Instruction::Sub || ce->getOpcode() == Instruction::Mul || ce->getOpcode() == Instruction::Shl || ce->getOpcode() == Instruction::Xor) v = binop(ce->getOpcode(), ce->getType(), constant(ce->getOperand(0)), constant(ce->getOperand(1)), nullptr);
    else if (ce->getOpcode() == Instruction::ICmp) v = icmp(ce->getPredicate(), constant(ce->getOperand(0)), constant(ce->getOperand(1)));
    else throw Unsupported{"constant expression"};
  } else throw Unsupported{"constant kind"};
  if (memo) constMemo[c] = v;
  return v;
}
FnInfo& Exec::info(Function* f) {
  FnInfo& i = infos[f];
  if (i.n == 0) {
    unsigned n = 1;
    for (auto& a : f->args()) i.num[&a] = n++;
    for (auto& bb : *f) for (auto& in : bb) if (!in.getType()->isVoidTy()) i.num[&in] = n++;
    i.n = n;
  }
  return i;
}
Val Exec::get(const Value* v) {
  if (auto* c = dyn_cast<Constant>(v)) return constant(c);
  Frame& f = S->top();
  return f.regs[info(f.f).num[v]];
}
void Exec::set(const Value* v, Val x) {
  Frame& f = S->top();
  f.regs[info(f.f).num[v]] = std::move(x);
}
E Exec::gepAddr(const GEPOperator* g) {
  Val b = get(g->getPointerOperand());
  if (g->getType()->isVectorTy()) throw Unsupported{"vector gep"};
  E a = b[0];
  for (gep_type_iterator it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
    const Value* idx = it.getOperand();
    if (StructType* st = it.getStructTypeOrNull()) {
      uint64_t o = DL.getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
      a = mkAdd(a, mkC(64, o));
    } else {
      uint64_t sz = DL.getTypeAllocSize(it.getIndexedType());
      E i = get(idx)[0];
      i = i->w < 64 ? mkSExt(i, 64) : mkTrunc(i, 64);
      a = mkAdd(a, mkMul(i, mkC(64, sz)));
    }
  }
  return a;
}

// ------------------------------------------------------------------ operators
Val Exec::binop(unsigned opc, Type* t, const Val& a, const Val& b, const Instruction* I) {
  Val r;
  bool fp = t->getScalarType()->isFloatingPointTy();
  unsigned f = fp ? fmtOf(t) : 0;
  for (unsigned i = 0; i < a.size(); ++i) {
    E x = a[i], y = b[i], z = nullptr;
    unsigned w = x->w;
    auto shift = [&](E s) -> E {
      APInt um = umaxOf(y);
      if (um.ult(w)) return s;
      if (isC(y)) return y->c.ult(w) ? s : fresh(w, "overshift");
      return mkIte(mkUlt(y, mkC(w, w)), s, opt.concrete ? mkC(w, 0) : fresh(w, "overshift"));
    };
    auto divchk = [&](bool sgn) {
      E bad = mkEq(y, mkC(w, 0));
      if (sgn) bad = mkOr(bad, mkAnd(mkEq(x, mkConst(APInt::getSignedMinValue(w))), mkEq(y, mkOnes(w))));
      if (isFalse(bad)) return;
      if (isTrue(bad) || feasible(bad)) { fail("ub", "division by zero or overflow", bad); throw PathEnd{}; }
    };
    switch (opc) {
      case Instruction::Add: z = mkAdd(x, y); break;
      case Instruction::Sub: z = mkSub(x, y); break;
      case Instruction::Mul: z = mkMul(x, y); break;
      case Instruction::And: z = mkAnd(x, y); break;
      case Instruction::Or: z = mkOr(x, y); break;
      case Instruction::Xor: z = mkXor(x, y); break;
      case Instruction::Shl: z = shift(mkShl(x, y)); break;
      case Instruction::LShr: z = shift(mkLShr(x, y)); break;
      case Instruction::AShr: z = shift(mkAShr(x, y)); break;
      case Instruction::UDiv: divchk(false); z = mkUDiv(x, y); break;
      case Instruction::SDiv: divchk(true); z = mkSDiv(x, y); break;
      case Instruction::URem: divchk(false); z = mkURem(x, y); break;
      case Instruction::SRem: divchk(true); z = mkSRem(x, y); break;
      case Instruction::FAdd: z = fAdd(f, x, y); break;
      case Instruction::FSub: z = fSub(f, x, y); break;
      case Instruction::FMul: z = fMul(f, x, y); break;
      case Instruction::FDiv: z = fDiv(f, x, y); break;
      default: throw Unsupported{std::string("binop ") + Instruction::getOpcodeName(opc)};
    }
    r.push_back(z);
  }
  (void)I;
  return r;
}
Val Exec::bitcast(const Val& a, Type* from, Type* to) {
  std::vector<Type*> lt; leafTypes(to, lt);
  unsigned tb = leafBits(lt[0]), fb = a[0]->w;
  Val r;
  if (tb == fb) return a;
  if (fb > tb && fb % tb == 0) { for (E e : a) for (unsigned i = 0; i < fb; i += tb) r.push_back(mkExtract(e, i, tb)); return r; }
  if (tb % fb == 0) {
    unsigned n = tb / fb;
    for (unsigned i = 0; i < a.size(); i += n) { SmallVector<E, 16> p; for (int j = n - 1; j >= 0; --j) p.push_back(a[i + j]); r.push_back(mkConcat(p)); }
    return r;
  }
  SmallVector<E, 16> p(a.rbegin(), a.rend()); E all = mkConcat(p);
  for (unsigned i = 0; i < all->w; i += tb) r.push_back(mkExtract(all, i, tb));
  return r;
}
Val Exec::castOp(unsigned opc, const Val& a, Type* from, Type* to) {
  if (opc == Instruction::BitCast) return bitcast(a, from, to);
  Val r; unsigned w = leafBits(to->getScalarType());
  for (E x : a) {
    E z;
    switch (opc) {
      case Instruction::ZExt: z = mkZExt(x, w); break;
      case Instruction::SExt: z = mkSExt(x, w); break;
      case Instruction::Trunc: z = mkTrunc(x, w); break;
      case Instruction::PtrToInt: case Instruction::IntToPtr: z = mkZExtOrTrunc(x, w); break;
      case Instruction::AddrSpaceCast: z = x; break;
      case Instruction::FPExt: case Instruction::FPTrunc: z = fCvt(fmtOf(from), fmtOf(to), x); break;
      case Instruction::SIToFP: z = siToF(fmtOf(to), x); break;
      case Instruction::UIToFP: z = uiToF(fmtOf(to), x); break;
      case Instruction::FPToSI: {
        unsigned f = fmtOf(from); E in = fInRangeSI(f, x, w, RTZ);
        z = mkIte(in, fToSI(f, x, w, RTZ), opt.concrete ? mkC(w, 0) : fresh(w, "fptosi")); break;
      }
      case Instruction::FPToUI: {
        unsigned f = fmtOf(from); E in = fInRangeUI(f, x, w, RTZ);
        z = mkIte(in, fToUI(f, x, w, RTZ), opt.concrete ? mkC(w, 0) : fresh(w, "fptoui")); break;
      }
      default: throw Unsupported{"cast"};
    }
    r.push_back(z);
  }
  return r;
}
Val Exec::fcmp(unsigned pred, Type* t, const Val& a, const Val& b) {
  unsigned f = fmtOf(t); Val r;
  for (unsigned i = 0; i < a.size(); ++i) {
    E x = a[i], y = b[i], z;
    switch (pred) {
      case CmpInst::FCMP_FALSE: z = mkBool(false); break;
      case CmpInst::FCMP_TRUE: z = mkBool(true); break;
      case CmpInst::FCMP_OEQ: z = fOeq(f, x, y); break;
      case CmpInst::FCMP_OGT: z = fOlt(f, y, x); break;
      case CmpInst::FCMP_OGE: z = fOle(f, y, x); break;
      case CmpInst::FCMP_OLT: z = fOlt(f, x, y); break;
      case CmpInst::FCMP_OLE: z = fOle(f, x, y); break;
      case CmpInst::FCMP_ONE: z = mkAnd(mkNot(fUno(f, x, y)), mkNot(fOeq(f, x, y))); break;
      case CmpInst::FCMP_ORD: z = mkNot(fUno(f, x, y)); break;
      case CmpInst::FCMP_UNO: z = fUno(f, x, y); break;
      case CmpInst::FCMP_UEQ: z = mkOr(fUno(f, x, y), fOeq(f, x, y)); break;
      case CmpInst::FCMP_UGT: z = mkNot(fOle(f, x, y)); break;
      case CmpInst::FCMP_UGE: z = mkNot(fOlt(f, x, y)); break;
      case CmpInst::FCMP_ULT: z = mkNot(fOle(f, y, x)); break;
      case CmpInst::FCMP_ULE: z = mkNot(fOlt(f, y, x)); break;
      case CmpInst::FCMP_UNE: z = mkNot(fOeq(f, x, y)); break;
      default: throw Unsupported{"fcmp"};
    }
    r.push_back(z);
  }
  return r;
}
Val Exec::icmp(unsigned pred, const Val& a, const Val& b) {
  Val r;
  for (unsigned i = 0; i < a.size(); ++i) {
    E x = a[i], y = b[i], z;
    switch (pred) {
      case CmpInst::ICMP_EQ: z = mkEq(x, y); break; case CmpInst::ICMP_NE: z = mkNe(x, y); break;
      case CmpInst::ICMP_UGT: z = mkUlt(y, x); break; case CmpInst::ICMP_UGE: z = mkUle(y, x); break;
      case CmpInst::ICMP_ULT: z = mkUlt(x, y); break; case CmpInst::ICMP_ULE: z = mkUle(x, y); break;
      case CmpInst::ICMP_SGT: z = mkSlt(y, x); break; case CmpInst::ICMP_SGE: z = mkSle(y, x); break;
      case CmpInst::ICMP_SLT: z = mkSlt(x, y); break; case CmpInst::ICMP_SLE: z = mkSle(x, y); break;
      default: throw Unsupported{"icmp"};
    }
    r.push_back(z);
  }
  return r;
}

// ------------------------------------------------------------------ control flow
void Exec::pushFrame(Function* f, const std::vector<Val>& args, const CallBase* site) {
  if (f->isDeclaration()) throw Unsupported{"call to undefined function " + f->getName().str()};
  if (S->threads[S->cur].stack.size() > 400) throw Unsupported{"recursion limit"};
  FnInfo& fi = info(f);
  Frame fr; fr.f = f; fr.bb = &f->getEntryBlock(); fr.ip = fr.bb->begin(); fr.site = site;
  fr.regs.resize(fi.n);
  unsigned i = 0;
  for (auto& a : f->args()) {
    Val v = i < args.size() ? args[i] : Val();
    if (a.hasByValAttr()) {  // callee owns a copy
      uint64_t n = DL.getTypeAllocSize(a.getParamByValType());
      E p = alloc(n, "byval", 1, nullptr, 64);
      memcpyBytes(p, v[0], n);
      fr.allocas.push_back(p->c.getZExtValue());
      v = Val{p};
    }
    fr.regs[fi.num[&a]] = v; ++i;
  }
  res.functions.insert(f->getName().str());
  S->threads[S->cur].stack.push_back(std::move(fr));
}
void Exec::branchTo(BasicBlock* bb) {
  Frame& f = S->top();
  f.prev = f.bb; f.bb = bb; f.ip = bb->begin();
  std::vector<std::pair<const PHINode*, Val>> vals;
  for (auto& in : *bb) {
    auto* p = dyn_cast<PHINode>(&in);
    if (!p) break;
    vals.push_back({p, get(p->getIncomingValueForBlock(f.prev))});
  }
  for (auto& v : vals) { set(v.first, v.second); ++S->top().ip; }
}
void Exec::ret(Val v) {
  Thread& th = S->threads[S->cur];
  Frame fr = std::move(th.stack.back());
  th.stack.pop_back();
  for (uint64_t a : fr.allocas) { auto it = S->mem.find(a); if (it != S->mem.end()) S->mem.erase(it); }
  if (th.stack.empty()) { if (S->cur != 0) throw Unsupported{"coroutine returned"}; th.state = 1; return; }
  const CallBase* cb = fr.site;
  if (cb) {
    if (!cb->getType()->isVoidTy() && cb->getFunctionType()->getReturnType() == cb->getType()) set(cb, v);
    if (auto* iv = dyn_cast<InvokeInst>(cb)) branchTo(iv->getNormalDest());
    else ++S->top().ip;
  } else {
    // continuation frames (thread entry stubs) have no call site
  }
}
void Exec::call(const CallBase& cb) {
  std::vector<Val> args;
  for (const Use& u : cb.args()) {
    if (u->getType()->isMetadataTy()) { args.push_back(Val()); continue; }
    args.push_back(get(u.get()));
  }
  auto done = [&](Val v) {
    if (!cb.getType()->isVoidTy()) set(&cb, v);
    if (auto* iv = dyn_cast<InvokeInst>(&cb)) branchTo(iv->getNormalDest()); else ++S->top().ip;
  };
  if (cb.isInlineAsm()) { done(inlineAsm(cb, args)); return; }
  Function* f = cb.getCalledFunction();
  if (!f) {
    if (auto* g = dyn_cast<GlobalAlias>(cb.getCalledOperand())) f = dyn_cast<Function>(g->getAliaseeObject());
  }
  if (!f) {
    E p = get(cb.getCalledOperand())[0];
    uint64_t a = concretize(p, "function pointer");
    auto it = fnByAddr.find(a);
    if (it == fnByAddr.end()) { fail("memory", "call through an invalid function pointer", mkBool(true)); throw PathEnd{}; }
    f = it->second;
  }
  if (f->isIntrinsic()) {
    std::string n = f->getName().str();
    Val out; bool ok = false;
    if (n.compare(0, 9, "llvm.x86.") == 0) { ok = x86Intrinsic(*this, n, cb, args, &out); }
    else out = genericIntrinsic(cb, f, args, &ok);
    if (!ok) throw Unsupported{"intrinsic " + n};
    done(out); return;
  }
  if (f->isDeclaration() || f->getName().starts_with("vp_ov_")) {
    if (builtin(cb, f, args)) return;
    throw Unsupported{"external function " + f->getName().str()};
  }
  if (builtin(cb, f, args)) return;
  pushFrame(f, args, &cb);
}

// ------------------------------------------------------------------ merging of small regions
struct Exec::PDom { llvm::PostDominatorTree t; };
const Exec::Region& Exec::regionOf(const Instruction& term) {
  auto it = regions.find(&term);
  if (it != regions.end()) return it->second;
  Region& r = regions[&term];
  auto* B = const_cast<BasicBlock*>(term.getParent()); auto* F = B->getParent();
  auto& pd = pdoms[F];
  if (!pd) { pd = std::make_shared<PDom>(); pd->t.recalculate(*F); }
  auto* node = pd->t.getNode(B); if (!node || !node->getIDom()) return r;
  BasicBlock* P = node->getIDom()->getBlock(); if (!P || P == B) return r;
  std::unordered_map<BasicBlock*, int> st; bool bad = false; unsigned insts = 0; std::vector<BasicBlock*> post;
  std::function<void(BasicBlock*)> dfs = [&](BasicBlock* b) {
    if (bad || b == P) return;
    if (b == B) { bad = true; return; }
    int& s = st[b]; if (s == 1) { bad = true; return; } if (s == 2) return; s = 1;
    for (auto& I : *b) {
      if (++insts > 200) { bad = true; return; }
      switch (I.getOpcode()) {
        case Instruction::PHI: case Instruction::GetElementPtr: case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
        case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv:
        case Instruction::FNeg: case Instruction::ICmp: case Instruction::FCmp: case Instruction::Select: case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr:
        case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::Freeze: case Instruction::ExtractElement: case Instruction::InsertElement:
        case Instruction::ShuffleVector: case Instruction::ExtractValue: case Instruction::InsertValue: break;
        case Instruction::Load: if (!::llvm::cast<LoadInst>(I).isSimple()) bad = true; break;
        case Instruction::Store: if (!::llvm::cast<StoreInst>(I).isSimple()) bad = true; r.stores = true; break;
        case Instruction::Br: case Instruction::Switch: break;
        case Instruction::Call: {
          auto* ii = dyn_cast<IntrinsicInst>(&I);
          if (!ii) { bad = true; break; }
          auto id = ii->getIntrinsicID();
          if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::assume || id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::prefetch || ii->isAssumeLikeIntrinsic()) break;
          if (ii->mayReadOrWriteMemory()) bad = true;
          break;
        }
        default: bad = true;
      }
      if (bad) return;
    }
    for (BasicBlock* n : successors(b)) { dfs(n); if (bad) return; }
    st[b] = 2; post.push_back(b);
    if (post.size() > 24) bad = true;
  };
  for (BasicBlock* n : successors(B)) { dfs(n); if (bad) break; }
  if (bad) return r;
  r.join = P; r.order.assign(post.rbegin(), post.rend()); r.ok = true;
  return r;
}
bool Exec::tryMerge(const Instruction& term, E c0) {
  if (!opt.merge || opt.concrete || multi() || mergeGuard) return false;
  const Region& R = regionOf(term);
  if (!R.ok) return false;
  // pointers that would become a choice are left to forking
  for (auto& p : R.join->phis()) if (p.getType()->isPtrOrPtrVectorTy()) return false;
  for (E p : S->pc) { E x; if (p == c0 || (isNot(c0, &x) && x == p) || (isNot(p, &x) && x == c0)) return false; }
  std::unique_ptr<State> saved; if (R.stores) saved = std::make_unique<State>(*S);
  Frame keep; BasicBlock* B = const_cast<BasicBlock*>(term.getParent());
  { Frame& f = S->top(); keep.bb = f.bb; keep.prev = f.prev; keep.ip = f.ip; }
  std::map<std::pair<BasicBlock*, BasicBlock*>, E> edge;
  auto addEdge = [&](BasicBlock* a, BasicBlock* b, E g) { auto& e = edge[{a, b}]; e = e ? mkOr(e, g) : g; };
  auto edges = [&](const Instruction& t, BasicBlock* b, E g) {
    if (auto* br = dyn_cast<BranchInst>(const_cast<Instruction*>(&t))) {
      if (br->isUnconditional()) { addEdge(b, br->getSuccessor(0), g); return; }
      E c = get(br->getCondition())[0]; addEdge(b, br->getSuccessor(0), mkAnd(g, c)); addEdge(b, br->getSuccessor(1), mkAnd(g, mkNot(c)));
    } else {
      auto& s = ::llvm::cast<SwitchInst>(const_cast<Instruction&>(t)); E c = get(s.getCondition())[0], none = mkBool(true);
      for (auto& cs : s.cases()) { E h = mkEq(c, mkConst(cs.getCaseValue()->getValue())); addEdge(b, cs.getCaseSuccessor(), mkAnd(g, h)); none = mkAnd(none, mkNot(h)); }
      addEdge(b, s.getDefaultDest(), mkAnd(g, none));
    }
  };
  auto phis = [&](BasicBlock* b) {
    std::vector<std::pair<const PHINode*, Val>> vals;
    for (auto& p : b->phis()) {
      Val v; bool first = true;
      for (unsigned i = 0; i < p.getNumIncomingValues(); ++i) {
        auto it = edge.find({p.getIncomingBlock(i), b}); if (it == edge.end() || isFalse(it->second)) continue;
        bool dup = false; for (unsigned j = 0; j < i; ++j) if (p.getIncomingBlock(j) == p.getIncomingBlock(i)) dup = true;
        if (dup) continue;
        Val x = get(p.getIncomingValue(i));
        if (first) { v = x; first = false; } else for (unsigned k = 0; k < v.size(); ++k) v[k] = mkIte(it->second, x[k], v[k]);
      }
      if (first) { v.clear(); std::vector<Type*> lt; leafTypes(p.getType(), lt); for (Type* t : lt) v.push_back(fresh(leafBits(t), "dead")); }
      vals.push_back({&p, v});
    }
    for (auto& v : vals) set(v.first, v.second);
  };
  auto restore = [&] { mergeGuard = nullptr; if (saved) { *S = *saved; } else { Frame& f = S->top(); f.bb = keep.bb; f.prev = keep.prev; f.ip = keep.ip; } };
  try {
    edges(term, B, mkBool(true));
    for (BasicBlock* b : R.order) {
      E g = mkBool(false); for (BasicBlock* p : predecessors(b)) { auto it = edge.find({p, b}); if (it != edge.end()) g = mkOr(g, it->second); }
      if (isFalse(g)) continue;
      phis(b);
      auto ip = b->getFirstNonPHI()->getIterator();
      mergeGuard = isTrue(g) ? nullptr : g;
      Frame& f = S->top(); f.bb = b; f.ip = ip;
      while (!S->top().ip->isTerminator()) step();
      mergeGuard = nullptr;
      edges(*S->top().ip, b, g);
    }
    phis(R.join);
    Frame& f = S->top(); f.prev = B; f.bb = R.join; f.ip = R.join->getFirstNonPHI()->getIterator();
    return true;
  } catch (ForkOn&) { restore(); throw; }
  catch (PathEnd&) { restore(); return false; }
  catch (Unsupported&) { restore(); return false; }
  catch (...) { mergeGuard = nullptr; throw; }
}

bool Exec::step() {
  Frame& fr = S->top();
  Instruction& I = *fr.ip;
  ++S->steps; ++res.steps;
  switch (I.getOpcode()) {
    case Instruction::Alloca: {
      auto& ai = ::llvm::cast<AllocaInst>(I);
      uint64_t n = DL.getTypeAllocSize(ai.getAllocatedType());
      if (ai.isArrayAllocation()) n *= concretize(get(ai.getArraySize())[0], "alloca size");
      E p = alloc(n, ai.hasName() ? ai.getName().str() : "stack", 1, nullptr, ai.getAlign().value());
      S->top().allocas.push_back(p->c.getZExtValue());
      set(&I, Val{p}); break;
    }
    case Instruction::Load: {
      auto& l = ::llvm::cast<LoadInst>(I);
      E a = get(l.getPointerOperand())[0];
      if (l.getAlign().value() > 1 && !opt.concrete) {
        unsigned lg = Log2(l.getAlign());
        E low = mkExtract(a, 0, lg);
        if (!isZero(low)) { E bad = mkNe(low, mkC(lg, 0)); if (l.getType()->isVectorTy() && feasible(bad)) { fail("memory", "misaligned vector load", bad); throw PathEnd{}; } }
      }
      set(&I, loadTyped(l.getType(), a)); break;
    }
    case Instruction::Store: {
      auto& s = ::llvm::cast<StoreInst>(I);
      E a = get(s.getPointerOperand())[0];
      if (s.getAlign().value() > 1 && !opt.concrete) {
        unsigned lg = Log2(s.getAlign());
        E low = mkExtract(a, 0, lg);
        if (!isZero(low)) { E bad = mkNe(low, mkC(lg, 0)); if (s.getValueOperand()->getType()->isVectorTy() && feasible(bad)) { fail("memory", "misaligned vector store", bad); throw PathEnd{}; } }
      }
      storeTyped(s.getValueOperand()->getType(), a, get(s.getValueOperand())); break;
    }
    case Instruction::GetElementPtr: set(&I, Val{gepAddr(::llvm::cast<GEPOperator>(&I))}); break;
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
    case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
      set(&I, binop(I.getOpcode(), I.getType(), get(I.getOperand(0)), get(I.getOperand(1)), &I)); break;
    case Instruction::FNeg: { Val a = get(I.getOperand(0)); for (E& e : a) e = fNeg(0, e); set(&I, a); break; }
    case Instruction::ICmp: set(&I, icmp(::llvm::cast<ICmpInst>(I).getPredicate(), get(I.getOperand(0)), get(I.getOperand(1)))); break;
    case Instruction::FCmp: set(&I, fcmp(::llvm::cast<FCmpInst>(I).getPredicate(), I.getOperand(0)->getType(), get(I.getOperand(0)), get(I.getOperand(1)))); break;
    case Instruction::Select: {
      Val c = get(I.getOperand(0)), a = get(I.getOperand(1)), b = get(I.getOperand(2));
      for (unsigned i = 0; i < a.size(); ++i) a[i] = mkIte(c.size() == 1 ? c[0] : c[i], a[i], b[i]);
      set(&I, a); break;
    }
    case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr:
    case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::AddrSpaceCast:
      set(&I, castOp(I.getOpcode(), get(I.getOperand(0)), I.getOperand(0)->getType(), I.getType())); break;
    case Instruction::Freeze: set(&I, get(I.getOperand(0))); break;
    case Instruction::ExtractElement: {
      Val v = get(I.getOperand(0)); E i = get(I.getOperand(1))[0];
      if (isC(i)) { uint64_t k = i->c.getZExtValue(); set(&I, Val{k < v.size() ? v[k] : fresh(v[0]->w, "poison")}); }
      else { E r = fresh(v[0]->w, "poison"); for (unsigned k = 0; k < v.size(); ++k) r = mkIte(mkEq(i, mkC(i->w, k)), v[k], r); set(&I, Val{r}); }
      break;
    }
    case Instruction::InsertElement: {
      Val v = get(I.getOperand(0)); E x = get(I.getOperand(1))[0]; E i = get(I.getOperand(2))[0];
      for (unsigned k = 0; k < v.size(); ++k) v[k] = mkIte(mkEq(i, mkC(i->w, k)), x, v[k]);
      set(&I, v); break;
    }
    case Instruction::ShuffleVector: {
      auto& s = ::llvm::cast<ShuffleVectorInst>(I);
      Val a = get(s.getOperand(0)), b = get(s.getOperand(1)), r;
      for (int m : s.getShuffleMask()) {
        if (m < 0) r.push_back(opt.concrete ? mkC(a[0]->w, 0) : fresh(a[0]->w, "undef"));
        else r.push_back((unsigned)m < a.size() ? a[m] : b[m - a.size()]);
      }
      set(&I, r); break;
    }
    case Instruction::ExtractValue: {
      auto& ev = ::llvm::cast<ExtractValueInst>(I);
      Val v = get(ev.getAggregateOperand()); Type* t = ev.getAggregateOperand()->getType(); unsigned off = 0;
      for (unsigned ix : ev.indices()) {
        if (auto* st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < ix; ++k) off += leaves(st->getElementType(k)); t = st->getElementType(ix); }
        else { t = ::llvm::cast<ArrayType>(t)->getElementType(); off += ix * leaves(t); }
      }
      set(&I, Val(v.begin() + off, v.begin() + off + leaves(t))); break;
    }
    case Instruction::InsertValue: {
      auto& iv = ::llvm::cast<InsertValueInst>(I);
      Val v = get(iv.getAggregateOperand()), x = get(iv.getInsertedValueOperand()); Type* t = iv.getAggregateOperand()->getType(); unsigned off = 0;
      for (unsigned ix : iv.indices()) {
        if (auto* st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < ix; ++k) off += leaves(st->getElementType(k)); t = st->getElementType(ix); }
        else { t = ::llvm::cast<ArrayType>(t)->getElementType(); off += ix * leaves(t); }
      }
      std::copy(x.begin(), x.end(), v.begin() + off);
      set(&I, v); break;
    }
    case Instruction::Br: {
      auto& b = ::llvm::cast<BranchInst>(I);
      if (b.isUnconditional()) branchTo(b.getSuccessor(0));
      else if (E c = get(b.getCondition())[0]; !isC(c) && tryMerge(I, c)) {}
      else branchTo(b.getSuccessor(branchCond(get(b.getCondition())[0]) ? 0 : 1));
      return true;
    }
    case Instruction::Switch: {
      auto& s = ::llvm::cast<SwitchInst>(I);
      E c = get(s.getCondition())[0];
      if (!isC(c) && tryMerge(I, c)) return true;
      for (auto& cs : s.cases()) if (branchCond(mkEq(c, mkConst(cs.getCaseValue()->getValue())))) { branchTo(cs.getCaseSuccessor()); return true; }
      branchTo(s.getDefaultDest()); return true;
    }
    case Instruction::Ret: {
      auto& r = ::llvm::cast<ReturnInst>(I);
      Val v; if (r.getReturnValue()) v = get(r.getReturnValue());
      ret(v); return S->threads[0].state != 1;
    }
    case Instruction::Call: case Instruction::Invoke: call(::llvm::cast<CallBase>(I)); return S->threads[0].state != 1;
    case Instruction::Unreachable: fail("ub", "unreachable executed", mkBool(true)); throw PathEnd{};
    case Instruction::Fence: break;
    case Instruction::AtomicRMW: {
      auto& a = ::llvm::cast<AtomicRMWInst>(I);
      E p = get(a.getPointerOperand())[0], v = get(a.getValOperand())[0];
      E old = loadTyped(a.getType(), p)[0], n;
      switch (a.getOperation()) {
        case AtomicRMWInst::Xchg: n = v; break; case AtomicRMWInst::Add: n = mkAdd(old, v); break; case AtomicRMWInst::Sub: n = mkSub(old, v); break;
        case AtomicRMWInst::And: n = mkAnd(old, v); break; case AtomicRMWInst::Or: n = mkOr(old, v); break; case AtomicRMWInst::Xor: n = mkXor(old, v); break;
        case AtomicRMWInst::UMax: n = mkUMax(old, v); break; case AtomicRMWInst::UMin: n = mkUMin(old, v); break;
        default: throw Unsupported{"atomicrmw"};
      }
      storeTyped(a.getType(), p, Val{n}); set(&I, Val{old}); break;
    }
    case Instruction::AtomicCmpXchg: {
      auto& a = ::llvm::cast<AtomicCmpXchgInst>(I);
      E p = get(a.getPointerOperand())[0], c = get(a.getCompareOperand())[0], v = get(a.getNewValOperand())[0];
      Type* t = a.getCompareOperand()->getType();
      E old = loadTyped(t, p)[0]; E eq = mkEq(old, c);
      storeTyped(t, p, Val{mkIte(eq, v, old)}); set(&I, Val{old, eq}); break;
    }
    case Instruction::LandingPad: case Instruction::Resume: throw Unsupported{"exception handling"};
    default: throw Unsupported{std::string("instruction ") + I.getOpcodeName()};
  }
  ++S->top().ip;
  return true;
}

// ------------------------------------------------------------------ generic intrinsics
Val Exec::genericIntrinsic(const CallBase& cb, Function* f, std::vector<Val>& A, bool* ok) {
  *ok = true;
  Type* rt = cb.getType();
  auto map1 = [&](const std::function<E(E)>& g) { Val r; for (E e : A[0]) r.push_back(g(e)); return r; };
  auto map2 = [&](const std::function<E(E, E)>& g) { Val r; for (unsigned i = 0; i < A[0].size(); ++i) r.push_back(g(A[0][i], A[1][i])); return r; };
  auto fl = [&]() { return fmtOf(rt); };
  switch (f->getIntrinsicID()) {
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_value: case Intrinsic::dbg_declare: case Intrinsic::assume:
    case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::var_annotation:
      return Val{rt->isVoidTy() ? nullptr : mkC(64, 0)};
    case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptr_annotation: case Intrinsic::annotation: return A[0];
    case Intrinsic::objectsize: return Val{mkOnes(rt->getIntegerBitWidth())};
    case Intrinsic::is_constant: return Val{mkBool(false)};
    case Intrinsic::stacksave: return Val{mkC(64, 0)};
    case Intrinsic::stackrestore: return Val{};
    case Intrinsic::threadlocal_address: return A[0];
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { uint64_t n = concretize(A[2][0], "memcpy size"); memcpyBytes(A[0][0], A[1][0], n); return {}; }
    case Intrinsic::memset: case Intrinsic::memset_inline: { uint64_t n = concretize(A[2][0], "memset size"); if (n) { E off; resolve(A[0][0], n, nullptr, &off, true); } for (uint64_t i = 0; i < n; ++i) storeBits(mkAdd(A[0][0], mkC(64, i)), A[1][0]); return {}; }
    case Intrinsic::ctpop: return map1(mkPopcount);
    case Intrinsic::ctlz: return map1(mkCtlz);   // zero-is-poison ignored: defined as width
    case Intrinsic::cttz: return map1(mkCttz);
    case Intrinsic::bswap: return map1(mkBswap);
    case Intrinsic::bitreverse: return map1(mkBitreverse);
    case Intrinsic::abs: return map1([](E e) { return mkIte(mkExtract(e, e->w - 1, 1), mkNeg(e), e); });
    case Intrinsic::umin: return map2(mkUMin); case Intrinsic::umax: return map2(mkUMax); case Intrinsic::smin: return map2(mkSMin); case Intrinsic::smax: return map2(mkSMax);
    case Intrinsic::uadd_sat: return map2([](E a, E b) { E s = mkAdd(mkZExt(a, a->w + 1), mkZExt(b, a->w + 1)); return mkIte(mkExtract(s, a->w, 1), mkOnes(a->w), mkTrunc(s, a->w)); });
    case Intrinsic::usub_sat: return map2([](E a, E b) { return mkIte(mkUlt(a, b), mkC(a->w, 0), mkSub(a, b)); });
    case Intrinsic::sadd_sat: case Intrinsic::ssub_sat: {
      bool add = f->getIntrinsicID() == Intrinsic::sadd_sat;
      return map2([&](E a, E b) {
        unsigned w = a->w; E x = mkSExt(a, w + 1), y = mkSExt(b, w + 1); E s = add ? mkAdd(x, y) : mkSub(x, y);
        E mx = mkConst(APInt::getSignedMaxValue(w)), mn = mkConst(APInt::getSignedMinValue(w));
        return mkIte(mkSlt(mkSExt(mx, w + 1), s), mx, mkIte(mkSlt(s, mkSExt(mn, w + 1)), mn, mkTrunc(s, w)));
      });
    }
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
      if (rt->isVectorTy() || A[0].size() != 1) throw Unsupported{"vector overflow op"};
      E a = A[0][0], b = A[1][0]; unsigned w = a->w; auto id = f->getIntrinsicID();
      bool mul = id == Intrinsic::umul_with_overflow || id == Intrinsic::smul_with_overflow;
      bool uns = id == Intrinsic::uadd_with_overflow || id == Intrinsic::usub_with_overflow || id == Intrinsic::umul_with_overflow;
      unsigned ww = mul ? 2 * w : w + 1;
      E x = uns ? mkZExt(a, ww) : mkSExt(a, ww), y = uns ? mkZExt(b, ww) : mkSExt(b, ww);
      E r = mul ? mkMul(x, y) : (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? mkAdd(x, y) : mkSub(x, y);
      E t = mkTrunc(r, w);
      E o = uns ? mkNe(mkExtract(r, w, ww - w), mkC(ww - w, 0)) : mkNe(mkSExt(t, ww), r);
      return Val{t, o};
    }
    case Intrinsic::fshl: case Intrinsic::fshr: {
      Val r; bool l = f->getIntrinsicID() == Intrinsic::fshl;
      for (unsigned i = 0; i < A[0].size(); ++i) {
        E a = A[0][i], b = A[1][i], s = A[2][i]; unsigned w = a->w;
        E k = mkURem(s, mkC(w, w));
        if (isC(k)) {
          unsigned n = k->c.getZExtValue();
          E cat = mkConcat2(a, b);
          r.push_back(l ? mkExtract(cat, w - n, w) : mkExtract(cat, n, w));
        } else {
          E inv = mkSub(mkC(w, w), k);
          E z = mkEq(k, mkC(w, 0));
          if (l) r.push_back(mkIte(z, a, mkOr(mkShl(a, k), mkLShr(b, inv))));
          else r.push_back(mkIte(z, b, mkOr(mkShl(a, inv), mkLShr(b, k))));
        }
      }
      return r;
    }
    case Intrinsic::fabs: return map1([&](E e) { return fAbs(0, e); });
    case Intrinsic::copysign: return map2([](E a, E b) { return mkConcat2(mkExtract(b, b->w - 1, 1), mkExtract(a, 0, a->w - 1)); });
    case Intrinsic::sqrt: { unsigned k = fl(); return map1([&](E e) { return fSqrt(k, e); }); }
    case Intrinsic::fma: { unsigned k = fl(); Val r; for (unsigned i = 0; i < A[0].size(); ++i) r.push_back(fFma(k, A[0][i], A[1][i], A[2][i])); return r; }
    case Intrinsic::fmuladd: { unsigned k = fl(); Val r; for (unsigned i = 0; i < A[0].size(); ++i) r.push_back(fAdd(k, fMul(k, A[0][i], A[1][i]), A[2][i])); return r; }
    case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: { unsigned k = fl(); return map1([&](E e) { return fRint(k, e, RNE); }); }
    case Intrinsic::floor: { unsigned k = fl(); return map1([&](E e) { return fRint(k, e, RDN); }); }
    case Intrinsic::ceil: { unsigned k = fl(); return map1([&](E e) { return fRint(k, e, RUP); }); }
    case Intrinsic::trunc: { unsigned k = fl(); return map1([&](E e) { return fRint(k, e, RTZ); }); }
    case Intrinsic::minnum: { unsigned k = fl(); return map2([&](E a, E b) { return mkIte(fIsNan(k, a), b, mkIte(fIsNan(k, b), a, mkIte(fOlt(k, b, a), b, a))); }); }
    case Intrinsic::maxnum: { unsigned k = fl(); return map2([&](E a, E b) { return mkIte(fIsNan(k, a), b, mkIte(fIsNan(k, b), a, mkIte(fOlt(k, a, b), b, a))); }); }
    case Intrinsic::is_fpclass: {
      unsigned k = fmtOf(cb.getArgOperand(0)->getType()); uint64_t m = A[1][0]->c.getZExtValue();
      return map1([&](E e) {
        unsigned w = fmtWidth(k), mb = fmtMant(k);
        E s = mkExtract(e, w - 1, 1), ex = mkExtract(e, mb, w - 1 - mb), ma = mkExtract(e, 0, mb);
        E e1 = mkEq(ex, mkOnes(ex->w)), e0 = mkEq(ex, mkC(ex->w, 0)), m0 = mkEq(ma, mkC(mb, 0)), q = mkExtract(ma, mb - 1, 1);
        E ns = mkNot(s); E nan = mkAnd(e1, mkNot(m0));
        E cls[10] = {mkAnd(nan, mkNot(q)), mkAnd(nan, q), mkAnd(s, mkAnd(e1, m0)), mkAnd(s, mkAnd(mkNot(e1), mkNot(e0))), mkAnd(s, mkAnd(e0, mkNot(m0))), mkAnd(s, mkAnd(e0, m0)),
          mkAnd(ns, mkAnd(e0, m0)), mkAnd(ns, mkAnd(e0, mkNot(m0))), mkAnd(ns, mkAnd(mkNot(e1), mkNot(e0))), mkAnd(ns, mkAnd(e1, m0))};
        E r = mkBool(false); for (int i = 0; i < 10; ++i) if (m >> i & 1) r = mkOr(r, cls[i]); return r;
      });
    }
    case Intrinsic::fptosi_sat: case Intrinsic::fptoui_sat: {
      unsigned k = fmtOf(cb.getArgOperand(0)->getType()), w = leafBits(rt->getScalarType()); bool sg = f->getIntrinsicID() == Intrinsic::fptosi_sat;
      return map1([&](E e) {
        E mx = sg ? mkConst(APInt::getSignedMaxValue(w)) : mkOnes(w), mn = sg ? mkConst(APInt::getSignedMinValue(w)) : mkC(w, 0);
        E in = sg ? fInRangeSI(k, e, w, RTZ) : fInRangeUI(k, e, w, RTZ);
        E v = sg ? fToSI(k, e, w, RTZ) : fToUI(k, e, w, RTZ);
        return mkIte(fIsNan(k, e), mkC(w, 0), mkIte(in, v, mkIte(mkExtract(e, e->w - 1, 1), mn, mx)));
      });
    }
    case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_mul: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_xor:
    case Intrinsic::vector_reduce_umin: case Intrinsic::vector_reduce_umax: case Intrinsic::vector_reduce_smin: case Intrinsic::vector_reduce_smax: {
      E r = A[0][0];
      for (unsigned i = 1; i < A[0].size(); ++i) {
        E x = A[0][i];
        switch (f->getIntrinsicID()) {
          case Intrinsic::vector_reduce_add: r = mkAdd(r, x); break; case Intrinsic::vector_reduce_mul: r = mkMul(r, x); break;
          case Intrinsic::vector_reduce_and: r = mkAnd(r, x); break; case Intrinsic::vector_reduce_or: r = mkOr(r, x); break;
          case Intrinsic::vector_reduce_xor: r = mkXor(r, x); break; case Intrinsic::vector_reduce_umin: r = mkUMin(r, x); break;
          case Intrinsic::vector_reduce_umax: r = mkUMax(r, x); break; case Intrinsic::vector_reduce_smin: r = mkSMin(r, x); break;
          default: r = mkSMax(r, x); break;
        }
      }
      return Val{r};
    }
    case Intrinsic::vector_reduce_fmin: case Intrinsic::vector_reduce_fmax: {
      unsigned k = fmtOf(rt); E r = A[0][0]; bool mn = f->getIntrinsicID() == Intrinsic::vector_reduce_fmin;
      for (unsigned i = 1; i < A[0].size(); ++i) { E b = A[0][i]; E a = r; r = mkIte(fIsNan(k, a), b, mkIte(fIsNan(k, b), a, mkIte(mn ? fOlt(k, b, a) : fOlt(k, a, b), b, a))); }
      return Val{r};
    }
    case Intrinsic::vector_reduce_fadd: case Intrinsic::vector_reduce_fmul: {
      unsigned k = fmtOf(rt); E r = A[0][0];
      // "reassoc" reductions (from _mm512_reduce_add_*): use the sequential order; callers compare modulo association.
      for (E e : A[1]) r = f->getIntrinsicID() == Intrinsic::vector_reduce_fadd ? fAdd(k, r, e) : fMul(k, r, e);
      return Val{r};
    }
    case Intrinsic::masked_load: {  // ptr, align, mask, passthru
      auto* vt = ::llvm::cast<FixedVectorType>(rt); unsigned eb = leafBits(vt->getElementType()); Val r;
      for (unsigned i = 0; i < vt->getNumElements(); ++i) r.push_back(isFalse(A[2][i]) ? A[3][i] : mkIte(A[2][i], loadBits(mkAdd(A[0][0], mkC(64, i * eb / 8)), eb, A[2][i]), A[3][i]));
      return r;
    }
    case Intrinsic::masked_store: {  // val, ptr, align, mask
      unsigned eb = A[0][0]->w;
      for (unsigned i = 0; i < A[0].size(); ++i) storeBits(mkAdd(A[1][0], mkC(64, i * eb / 8)), A[0][i], A[3][i]);
      return {};
    }
    case Intrinsic::masked_gather: {  // ptrs, align, mask, passthru
      unsigned eb = leafBits(rt->getScalarType()); Val r;
      for (unsigned i = 0; i < A[0].size(); ++i) r.push_back(isFalse(A[2][i]) ? A[3][i] : mkIte(A[2][i], loadBits(A[0][i], eb, A[2][i]), A[3][i]));
      return r;
    }
    case Intrinsic::masked_scatter: for (unsigned i = 0; i < A[0].size(); ++i) storeBits(A[1][i], A[0][i], A[3][i]); return {};
    case Intrinsic::masked_expandload: {  // ptr, mask, passthru
      auto* vt = ::llvm::cast<FixedVectorType>(rt); unsigned eb = leafBits(vt->getElementType()), n = vt->getNumElements(); Val r;
      E cnt = mkC(64, 0);
      for (unsigned i = 0; i < n; ++i) {
        E m = A[1][i];
        r.push_back(isFalse(m) ? A[2][i] : mkIte(m, loadBits(mkAdd(A[0][0], mkMul(cnt, mkC(64, eb / 8))), eb, m), A[2][i]));
        cnt = mkAdd(cnt, mkZExt(m, 64));
      }
      return r;
    }
    case Intrinsic::masked_compressstore: {  // val, ptr, mask
      unsigned eb = A[0][0]->w, n = A[0].size();
      // out position j receives lane i when popcount(mask[0..i)) == j
      std::vector<E> pre; E c = mkC(8, 0); for (unsigned i = 0; i < n; ++i) { pre.push_back(c); c = mkAdd(c, mkZExt(A[2][i], 8)); }
      for (unsigned j = 0; j < n; ++j) {
        E g = mkUlt(mkC(8, j), c); E v = fresh(eb, "none");
        for (unsigned i = j; i < n; ++i) v = mkIte(mkAnd(A[2][i], mkEq(pre[i], mkC(8, j))), A[0][i], v);
        storeBits(mkAdd(A[1][0], mkC(64, j * eb / 8)), v, g);
      }
      return {};
    }
    case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: fail("abort", "trap executed", mkBool(true)); throw PathEnd{};
    case Intrinsic::readcyclecounter: return Val{fresh(64, "tsc")};
    case Intrinsic::vastart: case Intrinsic::vaend: case Intrinsic::vacopy: return {};
    case Intrinsic::ldexp: case Intrinsic::exp: case Intrinsic::log: case Intrinsic::pow: case Intrinsic::exp2: case Intrinsic::log2: case Intrinsic::sin: case Intrinsic::cos: {
      Val r; for (unsigned i = 0; i < A[0].size(); ++i) { std::vector<E> as; for (auto& a : A) as.push_back(a[i]); r.push_back(mkUF(f->getName().str(), A[0][0]->w, as)); } return r;
    }
    default: *ok = false; return {};
  }
}
Val Exec::inlineAsm(const CallBase& cb, std::vector<Val>& A) {
  auto* ia = ::llvm::cast<InlineAsm>(cb.getCalledOperand());
  std::string s = ia->getAsmString(), con = ia->getConstraintString();
  Type* rt = cb.getType();
  if (s.empty() || s.find_first_not_of(" \t\n") == std::string::npos) {
    // barrier: "+r"(x) is an identity, otherwise nothing
    if (rt->isVoidTy()) return {};
    if (!A.empty() && A.back().size() == leaves(rt)) return A.back();
    throw Unsupported{"empty inline asm with outputs: " + con};
  }
  Val out;
  std::string mn;
  size_t p = s.find("vcvt"); if (p == std::string::npos) p = s.find("cvt");
  if (p != std::string::npos) { size_t e = s.find_first_of(" \t{", p); mn = s.substr(p, e - p); }
  if (!mn.empty() && x86Intrinsic(*this, "asm." + mn, cb, A, &out)) return out;
  if (s.find("pause") != std::string::npos) return {};
  if (s.find("cpuid") != std::string::npos || s.find("xgetbv") != std::string::npos || s.find("0x0F, 0x01, 0xD0") != std::string::npos || s.find("0x0F,0x01,0xD0") != std::string::npos) {
    // environment: values given by vp_cpu_leaf/vp_cpu_xcr0, otherwise arbitrary functions of the arguments
    const bool id = s.find("cpuid") != std::string::npos;
    if (S->counters.count("cpu_xcr0")) {
      std::vector<Type*> lt; leafTypes(rt, lt); uint64_t at = 0; std::string key = "cpu_xcr0";
      if (id) {
        if (A.size() < 2 || !isC(A[0][0]) || !isC(A[1][0])) throw Unsupported{"cpuid with symbolic arguments"};
        key = "cpu_" + std::to_string(A[0][0]->c.getZExtValue() & 0xFFFFFFFFu) + "_" + std::to_string(A[1][0]->c.getZExtValue() & 0xFFFFFFFFu);
      }
      auto it = S->counters.find(key); if (it != S->counters.end()) at = it->second;
      for (unsigned i = 0; i < lt.size(); ++i) { unsigned w = leafBits(lt[i]); out.push_back(at ? mkZExt(loadBits(mkC(64, at + 4 * i), 32), w) : mkC(w, 0)); }
      return out;
    }
    std::vector<E> as; for (auto& a : A) if (!a.empty()) as.push_back(a[0]);
    std::vector<Type*> lt; leafTypes(rt, lt);
    for (unsigned i = 0; i < lt.size(); ++i) out.push_back(mkUF("asm_" + std::to_string(i) + (s.find("cpuid") != std::string::npos ? "cpuid" : "xgetbv"), leafBits(lt[i]), as));
    return out;
  }
  throw Unsupported{"inline asm: " + s + " : " + con};
}

// ------------------------------------------------------------------ harness API and library functions
E Exec::symInput(unsigned w, const std::string& name) {
  E e;
  if (opt.haveReplay) {
    APInt v(w, 0);
    if (replayPos < opt.replay.size()) v = opt.replay[replayPos].second.zextOrTrunc(w);
    ++replayPos; e = mkConst(v);
  } else if (opt.concrete) {
    auto next = [&]() { uint64_t z = (rng += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); };
    APInt v(w, 0);
    for (unsigned i = 0; i < w; i += 64) v.insertBits(APInt(std::min(64u, w - i), next() & (w - i >= 64 ? ~0ull : (1ull << (w - i)) - 1)), i);
    switch (next() % 8) {
      case 0: v = APInt(w, 0); break;
      case 1: v = APInt::getAllOnes(w); break;
      case 2: v = v.lshr(next() % w); break;
      case 3: v = v.ashr(next() % w); break;
      case 4: if (w == 32) v = APFloat((float)((double)(int64_t)(next() % 200000) / 16.0 - 5000)).bitcastToAPInt(); else if (w == 64) v = APFloat((double)(int64_t)(next() % 200000) / 16.0 - 5000).bitcastToAPInt(); break;
      case 5: v = APInt::getOneBitSet(w, next() % w) - APInt(w, next() & 1); break;
      default: break;
    }
    e = mkConst(v);
  } else e = mkVar(w, name);
  S->log.push_back({name, e});
  return e;
}

static bool startsWith(const std::string& s, const char* p) { return s.compare(0, strlen(p), p) == 0; }

bool Exec::builtin(const CallBase& cb, Function* f, std::vector<Val>& A) {
  std::string n = f->getName().str();
  auto done = [&](Val v = {}) {
    if (!cb.getType()->isVoidTy()) { if (v.empty()) v.push_back(mkC(leafBits(cb.getType()), 0)); set(&cb, v); }
    if (auto* iv = dyn_cast<InvokeInst>(&cb)) branchTo(iv->getNormalDest()); else ++S->top().ip;
    return true;
  };
  auto i64 = [&](unsigned i) { return concretize(A[i][0], "argument"); };
  if (startsWith(n, "vp_")) {
    if (n == "vp_sym") {  // (void* p, size_t n, size_t elemBytes, const char* name)
      uint64_t cnt = i64(1), eb = i64(2); std::string nm = cstr(A[3][0]);
      for (uint64_t i = 0; i < cnt; ++i) storeBits(mkAdd(A[0][0], mkC(64, i * eb)), symInput(eb * 8, nm + "[" + std::to_string(i) + "]"));
      return done();
    }
    if (n == "vp_sym_u64") { std::string nm = cstr(A[0][0]); return done(Val{symInput(64, nm)}); }
    if (n == "vp_range") {  // (lo, hi, name): symbolic in [lo,hi]
      std::string nm = cstr(A[2][0]);
      E lo = A[0][0], hi = A[1][0];
      if (opt.concrete && !opt.haveReplay) {
        uint64_t l = lo->c.getZExtValue(), h = hi->c.getZExtValue(); E r = symInput(64, nm);
        uint64_t v = l + (h - l == ~0ull ? r->c.getZExtValue() : r->c.getZExtValue() % (h - l + 1));
        E e = mkC(64, v); S->log.back().e = e; return done(Val{e});
      }
      E e = symInput(64, nm);
      if (isC(e)) return done(Val{e});
      // narrow variable when possible
      if (isC(lo) && isC(hi) && hi->c.getZExtValue() < (1ull << 62)) {
        unsigned b = 1; while (b < 63 && (hi->c.getZExtValue() >> b)) ++b;
        E v = mkVar(b, nm); e = mkZExt(v, 64); S->log.back().e = e;
      }
      addPc(mkAnd(mkUle(lo, e), mkUle(e, hi)));
      return done(Val{e});
    }
    if (n == "vp_co_create") {  // (void (*fn)(void*), void* arg): a coroutine that runs when switched to; never returns
      if (mergeGuard) throw Unsupported{"coroutine in a merged region"};
      uint64_t fa = i64(0); auto it = fnByAddr.find(fa); if (it == fnByAddr.end()) throw Unsupported{"coroutine entry"};
      int keep = S->cur, id = (int)S->threads.size(); S->threads.emplace_back(); S->cur = id; std::vector<Val> as{A[1]}; pushFrame(it->second, as, nullptr); S->cur = keep;
      return done(Val{mkC(64, (uint64_t)id)});
    }
    if (n == "vp_co_switch") {
      if (mergeGuard) throw Unsupported{"coroutine in a merged region"};
      uint64_t id = i64(0); if (id >= S->threads.size()) throw Unsupported{"coroutine id"};
      done(); S->cur = (int)id; return true;
    }
    if (n == "vp_choose") {  // like vp_range, but every value gets its own path
      uint64_t lo = i64(0), hi = i64(1); std::string nm = cstr(A[2][0]);
      if (opt.concrete || opt.haveReplay) {
        E r = symInput(64, nm); uint64_t v = r->c.getZExtValue();
        if (!opt.haveReplay) { v = lo + v % (hi - lo + 1); }
        E e = mkC(64, v); S->log.back().e = e; return done(Val{e});
      }
      // fork: clone the state for every value except the first
      for (uint64_t v = hi; v > lo; --v) {
        auto c = std::make_unique<State>(*S); State* keep = S; S = c.get();
        S->log.push_back({nm, mkC(64, v)}); done(Val{mkC(64, v)});
        S = keep; work.push_back(std::move(c)); res.forks++;
      }
      S->log.push_back({nm, mkC(64, lo)});
      return done(Val{mkC(64, lo)});
    }
    if (n == "vp_concretize") { return done(Val{mkC(64, concretize(A[0][0], "vp_concretize"))}); }
    if (n == "vp_assume") {
      E c = A[0][0]; c = c->w == 1 ? c : mkNe(c, mkC(c->w, 0));
      if (isFalse(c) || !feasible(c)) throw PathEnd{};
      addPc(c); return done();
    }
    if (n == "vp_check") {
      E c = A[0][0]; c = c->w == 1 ? c : mkNe(c, mkC(c->w, 0));
      check(c, cstr(A[1][0])); return done();
    }
    if (n == "vp_check_eq" || n == "vp_check_feq") {  // (const void* got, const void* want, size_t lanes, size_t laneBytes, [fmt], label)
      bool fp = n == "vp_check_feq";
      uint64_t cnt = i64(2), eb = i64(3); unsigned fmt = fp ? (unsigned)i64(4) : 0; std::string lab = cstr(A[fp ? 5 : 4][0]);
      for (uint64_t i = 0; i < cnt; ++i) {
        E a = loadBits(mkAdd(A[0][0], mkC(64, i * eb)), eb * 8), b = loadBits(mkAdd(A[1][0], mkC(64, i * eb)), eb * 8);
        if (opt.trace) {
          auto show = [&](E x) -> std::string { if (!isC(x)) return "?"; if (fp && isTrue(fIsNan(fmt, x))) return "nan"; return hex(x->c); };
          res.traceOut.push_back("V " + lab + " " + std::to_string(i) + " " + show(a) + " " + show(b));
        }
        E c = mkEq(a, b);
        if (fp && !isTrue(c)) c = mkOr(c, mkAnd(fIsNan(fmt, a), fIsNan(fmt, b)));
        check(c, lab + " lane " + std::to_string(i));
      }
      return done();
    }
    if (n == "vp_check_real") {  // (const void* got, const void* want, size_t n, size_t fmt, label): equal as real numbers, up to rounding
      uint64_t cnt = i64(2); unsigned fmt = (unsigned)i64(3), eb = fmtWidth(fmt); std::string lab = cstr(A[4][0]);
      for (uint64_t i = 0; i < cnt; ++i) {
        E a = loadBits(mkAdd(A[0][0], mkC(64, i * (eb / 8))), eb), b = loadBits(mkAdd(A[1][0], mkC(64, i * (eb / 8))), eb); std::string ll = lab + " lane " + std::to_string(i);
        if (isC(a) && isC(b)) { check(mkBool(realNear(fmt, a, b)), ll); continue; }
        res.checks++; Model m; int r = realClose(fmt, a, b, S->pc, &m); if (r == 1) continue;
        Failure f; f.kind = "check"; f.label = ll; f.where = where(); f.decided = r == 0;
        for (auto& l : S->log) f.inputs.push_back({l.name, std::to_string(l.e->w) + ":" + hex(evalModel(l.e, m))});
        if (opt.verbose) f.detail = toString(a, 12) + " vs " + toString(b, 12);
        res.failures.push_back(f); if (r == 0 || ++res.undecided >= 2) throw GoalStop{};
      }
      return done();
    }
    if (n == "vp_alloc") {  // (size, align)
      uint64_t sz = i64(0), al = i64(1); std::string nm = A.size() > 2 ? cstr(A[2][0]) : "buf";
      E p = alloc(sz, nm, 2, nullptr, std::max<uint64_t>(al, 1));
      // place the block so that it has exactly the requested alignment and no more
      return done(Val{p});
    }
    if (n == "vp_alloc_at") {  // (size, misalign): address = 64*k + misalign
      uint64_t sz = i64(0), mis = i64(1);
      auto o = std::make_shared<MemObj>(); o->size = sz; o->name = "buf"; o->kind = 2; o->b.resize(sz);
      uint64_t a = (S->nextAddr + 255) / 256 * 256 + mis; o->base = a; S->nextAddr = a + sz + 4096 + 16; S->mem[a] = o;
      return done(Val{mkC(64, a)});
    }
    if (n == "vp_alloc_sym") {  // (size, align, name): arbitrary address with the given power-of-two alignment
      uint64_t sz = i64(0), al = i64(1);
      if (opt.concrete || opt.haveReplay) { E p = alloc(sz, "buf", 2, nullptr, al); return done(Val{p}); }
      unsigned lg = 0; while ((1ull << lg) < al) ++lg;
      E v = mkVar(64, "addr");
      E base = lg ? mkConcat2(mkExtract(v, lg, 64 - lg), mkC(lg, 0)) : v;
      // below 2^47, not near zero, no wrap-around
      addPc(mkUlt(base, mkC(64, 1ull << 47))); addPc(mkUlt(mkC(64, 1ull << 16), base));
      alloc(sz, "buf", 2, base);
      for (auto& o : S->symMem) { if (o->symBase == base) continue; // disjoint
        addPc(mkOr(mkUle(mkAdd(base, mkC(64, sz)), o->symBase), mkUle(mkAdd(o->symBase, mkC(64, o->size)), base))); }
      addPc(mkOr(mkUlt(mkAdd(base, mkC(64, sz)), mkC(64, 0x10000000ull)), mkUlt(mkC(64, 0x8000000000ull), base)));
      return done(Val{base});
    }
    if (n == "vp_free") { freePtr(A[0][0]); return done(); }
    if (n == "vp_is_freed") {
      E p = A[0][0]; bool fr = false;
      if (isC(p)) { auto it = S->mem.find(p->c.getZExtValue()); fr = it == S->mem.end() || it->second->freed; }
      else for (auto& o : S->symMem) if (o->symBase == p) fr = o->freed;
      return done(Val{mkC(leafBits(cb.getType()), fr)});
    }
    if (n == "vp_cpu_leaf") { S->counters["cpu_" + std::to_string(i64(0) & 0xFFFFFFFFu) + "_" + std::to_string(i64(1))] = i64(2); return done(); }
    if (n == "vp_cpu_xcr0") { S->counters["cpu_xcr0"] = i64(0); return done(); }
    if (n == "vp_expect_abort") { S->counters["abort_ok"] = i64(0); return done(); }
    if (n == "vp_uf1" || n == "vp_uf2" || n == "vp_uf4") {  // arbitrary function of the arguments: (name, args...) -> u64
      std::vector<E> as; for (unsigned i = 1; i < A.size(); ++i) as.push_back(A[i][0]);
      std::string nm = cstr(A[0][0]);
      return done(Val{mkUF(nm, 64, as)});
    }
    if (n == "vp_note") { if (opt.verbose) fprintf(stderr, "note %s %s\n", cstr(A[0][0]).c_str(), toString(A[1][0], 8).c_str()); return done(); }
    if (n == "vp_in_engine") return done(Val{mkC(leafBits(cb.getType()), 1)});
    if (n == "vp_ring_eq32" || n == "vp_ring_eq64") {
      return false;
    }
    if (f->isDeclaration()) throw Unsupported{"unknown harness call " + n};
    return false;
  }
  if (n == "malloc" || n == "_Znwm" || n == "_Znam" || n == "valloc" || n == "_ZnwmRKSt9nothrow_t" || n == "_ZnamRKSt9nothrow_t") { uint64_t sz = i64(0); return done(Val{alloc(sz, "heap", 2)}); }
  if (n == "_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE9_M_createERmm") {  // (this, &capacity, old capacity)
    E c = loadBits(A[1][0], 64); if (!isC(c)) throw Unsupported{"symbolic string capacity"};
    uint64_t cap = c->c.getZExtValue(), old = i64(2); if (cap > old && cap < 2 * old) { cap = 2 * old; storeBits(A[1][0], mkC(64, cap)); }
    return done(Val{alloc(cap + 1, "heap", 2)});
  }
  if (n == "_ZnwmSt11align_val_t" || n == "_ZnamSt11align_val_t") { uint64_t sz = i64(0), al = i64(1); return done(Val{alloc(sz, "heap", 2, nullptr, al)}); }
  if (n == "aligned_alloc" || n == "memalign") { uint64_t al = i64(0), sz = i64(1); return done(Val{alloc(sz, "heap", 2, nullptr, al)}); }
  if (n == "posix_memalign") { uint64_t al = i64(1), sz = i64(2); E p = alloc(sz, "heap", 2, nullptr, al); storeBits(A[0][0], p); return done(Val{mkC(32, 0)}); }
  if (n == "calloc") { uint64_t sz = i64(0) * i64(1); E p = alloc(sz, "heap", 2); for (uint64_t i = 0; i < sz; ++i) storeBits(mkAdd(p, mkC(64, i)), mkC(8, 0)); return done(Val{p}); }
  if (n == "free" || n == "_ZdlPv" || n == "_ZdaPv" || n == "_ZdlPvm" || n == "_ZdaPvm" || n == "_ZdlPvSt11align_val_t" || n == "_ZdaPvSt11align_val_t" || n == "_ZdlPvmSt11align_val_t") { freePtr(A[0][0]); return done(); }
  if (n == "memcpy" || n == "memmove") { memcpyBytes(A[0][0], A[1][0], i64(2)); return done(Val{A[0][0]}); }
  if (n == "memset") { uint64_t c = i64(2); E b = mkTrunc(A[1][0], 8); for (uint64_t i = 0; i < c; ++i) storeBits(mkAdd(A[0][0], mkC(64, i)), b); return done(Val{A[0][0]}); }
  if (n == "memcmp" || n == "bcmp") {
    uint64_t c = i64(2); E r = mkC(32, 0);
    for (uint64_t i = c; i-- > 0;) { E a = loadBits(mkAdd(A[0][0], mkC(64, i)), 8), b = loadBits(mkAdd(A[1][0], mkC(64, i)), 8); r = mkIte(mkEq(a, b), r, mkIte(mkUlt(a, b), mkOnes(32), mkC(32, 1))); }
    return done(Val{r});
  }
  if (n == "strlen") { uint64_t i = 0; for (;; ++i) { E c = loadBits(mkAdd(A[0][0], mkC(64, i)), 8); if (branchCond(mkEq(c, mkC(8, 0)))) break; } return done(Val{mkC(64, i)}); }
  if (n == "_ZN3hwy5AbortEPKciS1_z" || n == "abort" || n == "_ZSt9terminatev" || n == "__assert_fail" || n == "exit" || n == "_exit") {
    if (S->counters["abort_ok"]) {
      if (!res.reached) { if (S->pc.empty() || solveRefine(S->pc, nullptr, opt.timeoutMs) == Res::SAT) res.reached++; } else res.reached++;
      throw PathEnd{};
    }
    std::string msg = n == "_ZN3hwy5AbortEPKciS1_z" ? cstr(A[2][0]) + " at line " + std::to_string(i64(1)) : n;
    fail("abort", "abort: " + msg, mkBool(true)); throw PathEnd{};
  }
  if (startsWith(n, "_ZSt20__throw_") || startsWith(n, "_ZSt17__throw_") || startsWith(n, "_ZSt19__throw_") || startsWith(n, "_ZSt24__throw_") || startsWith(n, "_ZSt28__throw_") || n == "__cxa_throw" || n == "__cxa_pure_virtual") {
    fail("abort", "exception thrown: " + n, mkBool(true)); throw PathEnd{};
  }
  if (n == "_ZN3hwy4WarnEPKciS1_z") return done();
  if (n == "__cxa_guard_acquire") { E g = loadBits(A[0][0], 8); if (isC(g) && !isZero(g)) return done(Val{mkC(32, 0)}); return done(Val{mkC(32, 1)}); }
  if (n == "__cxa_guard_release") { storeBits(A[0][0], mkC(8, 1)); return done(); }
  if (n == "__cxa_atexit" || n == "fflush" || n == "fprintf" || n == "printf" || n == "puts" || n == "putchar" || n == "vfprintf" || n == "fputs" || n == "fwrite" || n == "sched_yield") return done();
  if (n == "fma" || n == "fmaf") { unsigned k = n == "fma" ? F64 : F32; return done(Val{fFma(k, A[0][0], A[1][0], A[2][0])}); }
  if (n == "sqrt" || n == "sqrtf") return done(Val{fSqrt(n == "sqrt" ? F64 : F32, A[0][0])});
  if (n == "nearbyint" || n == "rint" || n == "roundeven") return done(Val{fRint(F64, A[0][0], RNE)});
  if (n == "nearbyintf" || n == "rintf" || n == "roundevenf") return done(Val{fRint(F32, A[0][0], RNE)});
  if (n == "trunc" || n == "truncf") return done(Val{fRint(n == "trunc" ? F64 : F32, A[0][0], RTZ)});
  if (n == "floor" || n == "floorf") return done(Val{fRint(n == "floor" ? F64 : F32, A[0][0], RDN)});
  if (n == "ceil" || n == "ceilf") return done(Val{fRint(n == "ceil" ? F64 : F32, A[0][0], RUP)});
  if (n == "exp" || n == "log" || n == "pow" || n == "expf" || n == "logf" || n == "powf") { std::vector<E> as; for (auto& a : A) as.push_back(a[0]); return done(Val{mkUF(n, A[0][0]->w, as)}); }
  if (n == "__truncsfbf2") return done(Val{fCvt(F32, BF16, A[0][0])});
  if (n == "__truncdfbf2") return done(Val{fCvt(F64, BF16, A[0][0])});
  if (n == "__extendhfsf2") return done(Val{fCvt(F16, F32, A[0][0])});
  return false;
}

// ------------------------------------------------------------------ driver
GoalResult Exec::run(const std::string& goal) {
  Function* f = M.getFunction(goal);
  res = GoalResult();
  if (!f || f->isDeclaration()) { res.status = "unsupported"; res.failures.push_back({"internal", "no such goal", "", false, {}, ""}); return res; }
  auto st = std::make_unique<State>();
  S = st.get();
  bool stop = false; std::string why;
  try {
    for (auto& g : M.globals()) globalAddr(&g);
    for (auto& fn : M.functions()) if (!fn.isIntrinsic() && fn.hasAddressTaken()) globalAddr(&fn);
    S->mem = baseMem;
    S->threads.resize(1);
    pushFrame(f, {}, nullptr);
  } catch (Unsupported& u) { res.status = "unsupported"; res.failures.push_back({"internal", u.what, "", false, {}, ""}); return res; }
  work.push_back(std::move(st));
  while (!work.empty() && !stop) {
    auto cur = std::move(work.back()); work.pop_back();
    S = cur.get();
    try {
      for (;;) {
        if (res.steps > opt.maxSteps) { why = "step limit"; stop = true; break; }
        bool alive;
        try { alive = step(); }
        catch (ForkOn& fk) {
          res.forks++;
          if (res.paths + work.size() > opt.maxPaths) { why = "path limit"; stop = true; break; }
          auto other = std::make_unique<State>(*S);
          S->pc.push_back(fk.cond);
          other->pc.push_back(mkNot(fk.cond));
          work.push_back(std::move(other));
          continue;
        }
        if (!alive) {
          res.paths++;
          if (opt.concrete) { res.inputs.clear(); for (auto& l : S->log) if (isC(l.e)) res.inputs.push_back({l.name, std::to_string(l.e->w) + ":" + hex(l.e->c)}); }
          // reachability witness: the end of the goal is reached by at least one input
          if (!res.reached) {
            if (S->pc.empty()) res.reached++;
            else { Res r = solveRefine(S->pc, nullptr, opt.timeoutMs); if (r == Res::SAT) res.reached++; }
          } else res.reached++;
          break;
        }
      }
    } catch (PathEnd&) { res.paths++; }
    catch (GoalStop&) { res.paths++; stop = true; }
    catch (Unsupported& u) { res.status = "unsupported"; Failure fl; fl.kind = "internal"; fl.label = u.what; fl.where = where(); fl.decided = false; res.failures.push_back(fl); stop = true; }
  }
  work.clear(); S = nullptr;
  bool definite = false; for (auto& x : res.failures) if (x.decided) definite = true;
  if (definite) res.status = "fail";
  else if (!res.status.empty()) {}
  else if (!why.empty()) { res.status = "limit"; Failure fl; fl.kind = "internal"; fl.label = why; fl.decided = false; res.failures.push_back(fl); }
  else if (res.undecided) res.status = "unknown";
  else if (!res.reached) { res.status = "vacuous"; }
  else res.status = "ok";
  return res;
}
}  // namespace vp
