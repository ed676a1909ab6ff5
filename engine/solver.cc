#include "solver.h"
#include <atomic>
#include <chrono>
#include <algorithm>
#include <cstring>
#include <functional>
#include <unordered_map>
#include <unordered_set>
#include <tuple>
#include <z3.h>
#include "llvm/ADT/SmallString.h"
namespace vp {
SolverStats gStats;
static Z3_context C = nullptr;
static bool gErr = false;
static void onErr(Z3_context c, Z3_error_code e) { gErr = true; fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); }

struct Slot { std::atomic<uint64_t> a, b; };
static Slot* gSlots = nullptr; static size_t gNSlots = 0;
void setSharedCache(void* mem, size_t slots) { gSlots = (Slot*)mem; gNSlots = slots; }
static bool cacheHas(Hash128 h) {
  if (!gSlots) return false;
  if (!h.a) h.a = 1; if (!h.b) h.b = 1;
  for (size_t i = 0; i < 64; ++i) {
    Slot& s = gSlots[(h.a + i) % gNSlots];
    uint64_t a = s.a.load(std::memory_order_acquire);
    if (!a) return false;
    if (a == h.a && s.b.load(std::memory_order_acquire) == h.b) return true;
  }
  return false;
}
static void cachePut(Hash128 h) {
  if (!gSlots) return;
  if (!h.a) h.a = 1; if (!h.b) h.b = 1;
  for (size_t i = 0; i < 64; ++i) {
    Slot& s = gSlots[(h.a + i) % gNSlots];
    uint64_t exp = 0;
    if (s.a.compare_exchange_strong(exp, h.a)) { s.b.store(h.b, std::memory_order_release); return; }
  }
}

static void init() {
  if (C) return;
  Z3_config cfg = Z3_mk_config();
  C = Z3_mk_context(cfg);
  Z3_set_error_handler(C, onErr);
  Z3_del_config(cfg);
}

struct Tr {
  bool exact;
  std::unordered_map<E, Z3_ast> bvm, bom;
  std::vector<Z3_ast> side;  // side constraints
  std::unordered_map<std::string, Z3_func_decl> fds;
  Tr(bool ex) : exact(ex) {}
  Z3_sort bs(unsigned w) { return Z3_mk_bv_sort(C, w); }
  Z3_sort fs(unsigned f) {
    switch (f) { case F16: return Z3_mk_fpa_sort(C, 5, 11); case F32: return Z3_mk_fpa_sort_32(C); case F64: return Z3_mk_fpa_sort_64(C); default: return Z3_mk_fpa_sort(C, 8, 8); }
  }
  Z3_ast rm(unsigned r) {
    switch (r) { case RTZ: return Z3_mk_fpa_rtz(C); case RUP: return Z3_mk_fpa_rtp(C); case RDN: return Z3_mk_fpa_rtn(C); default: return Z3_mk_fpa_rne(C); }
  }
  Z3_ast cnst(const APInt& v) {
    llvm::SmallString<64> s; v.toString(s, 10, false);
    return Z3_mk_numeral(C, s.c_str(), bs(v.getBitWidth()));
  }
  static bool boolish(E e) {
    if (e->w != 1) return false;
    switch (e->op) { case EQ: case ULT: case ULE: case SLT: case SLE: case AND: case OR: case XOR: case ITE: return true; default: return false; }
  }
  void prep(E root) {  // iterative post-order to avoid deep recursion
    std::vector<std::pair<E, unsigned>> st{{root, 0}};
    std::unordered_set<E> seen;
    while (!st.empty()) {
      E e = st.back().first;
      if (bvm.count(e) || bom.count(e)) { st.pop_back(); continue; }
      unsigned& i = st.back().second;
      if (i < e->nk) { E k = e->kid(i++); if (!bvm.count(k) && !bom.count(k)) st.push_back({k, 0}); continue; }
      st.pop_back();
      if (boolish(e)) bom[e] = mkBoolNode(e); else bvm[e] = mkBvNode(e);
    }
  }
  Z3_ast bv(E e) {
    auto it = bvm.find(e); if (it != bvm.end()) return it->second;
    prep(e);
    it = bvm.find(e); if (it != bvm.end()) return it->second;
    Z3_ast r = Z3_mk_ite(C, bom[e], Z3_mk_unsigned_int(C, 1, bs(1)), Z3_mk_unsigned_int(C, 0, bs(1)));
    bvm[e] = r; return r;
  }
  Z3_ast bo(E e) {
    auto it = bom.find(e); if (it != bom.end()) return it->second;
    if (isC(e)) return bom[e] = isTrue(e) ? Z3_mk_true(C) : Z3_mk_false(C);
    prep(e);
    it = bom.find(e); if (it != bom.end()) return it->second;
    return bom[e] = Z3_mk_eq(C, bvm[e], Z3_mk_unsigned_int(C, 1, bs(1)));
  }
  Z3_ast mkBoolNode(E e) {
    switch (e->op) {
      case EQ:
        if (e->kid(0)->w == 1) return Z3_mk_iff(C, bo(e->kid(0)), bo(e->kid(1)));
        return Z3_mk_eq(C, bv(e->kid(0)), bv(e->kid(1)));
      case ULT: return Z3_mk_bvult(C, bv(e->kid(0)), bv(e->kid(1)));
      case ULE: return Z3_mk_bvule(C, bv(e->kid(0)), bv(e->kid(1)));
      case SLT: return Z3_mk_bvslt(C, bv(e->kid(0)), bv(e->kid(1)));
      case SLE: return Z3_mk_bvsle(C, bv(e->kid(0)), bv(e->kid(1)));
      case AND: { Z3_ast a[2] = {bo(e->kid(0)), bo(e->kid(1))}; return Z3_mk_and(C, 2, a); }
      case OR: { Z3_ast a[2] = {bo(e->kid(0)), bo(e->kid(1))}; return Z3_mk_or(C, 2, a); }
      case XOR: if (isTrue(e->kid(1))) return Z3_mk_not(C, bo(e->kid(0))); return Z3_mk_xor(C, bo(e->kid(0)), bo(e->kid(1)));
      case ITE: return Z3_mk_ite(C, bo(e->kid(0)), bo(e->kid(1)), bo(e->kid(2)));
      default: abort();
    }
  }
  Z3_ast uf(const std::string& name, unsigned w, E e) {
    std::string key = name; std::vector<Z3_sort> ss; std::vector<Z3_ast> as;
    for (unsigned i = 0; i < e->nk; ++i) { key += "_" + std::to_string(e->kid(i)->w); ss.push_back(bs(e->kid(i)->w)); as.push_back(bv(e->kid(i))); }
    key += "_" + std::to_string(w);
    auto it = fds.find(key);
    if (it == fds.end()) it = fds.emplace(key, Z3_mk_func_decl(C, Z3_mk_string_symbol(C, key.c_str()), ss.size(), ss.data(), bs(w))).first;
    return Z3_mk_app(C, it->second, as.size(), as.data());
  }
  Z3_ast toFp(Z3_ast b, unsigned f) { return Z3_mk_fpa_to_fp_bv(C, b, fs(f)); }
  // fp -> bits; NaN results get an arbitrary (uninterpreted) payload and sign.
  Z3_ast fromFp(Z3_ast x, unsigned f, E e) {
    unsigned w = fmtWidth(f), m = fmtMant(f);
    std::string nm = std::string("nan_") + kOpNames[e->op] + "_" + std::to_string(e->a) + "_" + std::to_string(e->b);
    APInt q = APInt::getBitsSet(w, m - 1, w - 1);
    Z3_ast nan = Z3_mk_bvor(C, uf(nm, w, e), cnst(q));
    Z3_ast r = Z3_mk_fresh_const(C, "fpbits", bs(w));
    Z3_ast is = Z3_mk_fpa_is_nan(C, x);
    side.push_back(Z3_mk_implies(C, Z3_mk_not(C, is), Z3_mk_eq(C, Z3_mk_fpa_to_fp_bv(C, r, fs(f)), x)));
    // to_fp(r) = x for non-NaN determines r uniquely except that fp equality here is structural (+0 != -0): exact.
    side.push_back(Z3_mk_implies(C, is, Z3_mk_eq(C, r, nan)));
    return r;
  }
  Z3_ast mkBvNode(E e) {
    auto k = [&](unsigned i) { return bv(e->kid(i)); };
    switch (e->op) {
      case CONST: return cnst(e->c);
      case VAR: return Z3_mk_const(C, Z3_mk_int_symbol(C, e->a), bs(e->w));
      case ADD: return Z3_mk_bvadd(C, k(0), k(1)); case SUB: return Z3_mk_bvsub(C, k(0), k(1)); case MUL: return Z3_mk_bvmul(C, k(0), k(1));
      case UDIV: return Z3_mk_bvudiv(C, k(0), k(1)); case SDIV: return Z3_mk_bvsdiv(C, k(0), k(1));
      case UREM: return Z3_mk_bvurem(C, k(0), k(1)); case SREM: return Z3_mk_bvsrem(C, k(0), k(1));
      case AND: return Z3_mk_bvand(C, k(0), k(1)); case OR: return Z3_mk_bvor(C, k(0), k(1));
      case XOR: if (isOnes(e->kid(1))) return Z3_mk_bvnot(C, k(0)); return Z3_mk_bvxor(C, k(0), k(1));
      case SHL: return Z3_mk_bvshl(C, k(0), k(1)); case LSHR: return Z3_mk_bvlshr(C, k(0), k(1)); case ASHR: return Z3_mk_bvashr(C, k(0), k(1));
      case CONCAT: { Z3_ast r = k(0); for (unsigned i = 1; i < e->nk; ++i) r = Z3_mk_concat(C, r, k(i)); return r; }
      case EXTRACT: return Z3_mk_extract(C, e->a + e->w - 1, e->a, k(0));
      case SEXT: return Z3_mk_sign_ext(C, e->w - e->kid(0)->w, k(0));
      case ITE: return Z3_mk_ite(C, bo(e->kid(0)), k(1), k(2));
      case UF: return uf("uf_" + ufName(e->a), e->w, e);
      default: break;
    }
    if (!isFpOp(e->op)) abort();
    if (!exact) {
      return uf(std::string(kOpNames[e->op]) + "_" + std::to_string(e->a) + "_" + std::to_string(e->b), e->w, e);
    }
    unsigned f = e->a;
    switch (e->op) {
      case FADD: return fromFp(Z3_mk_fpa_add(C, rm(e->b), toFp(k(0), f), toFp(k(1), f)), f, e);
      case FMUL: return fromFp(Z3_mk_fpa_mul(C, rm(e->b), toFp(k(0), f), toFp(k(1), f)), f, e);
      case FDIV: return fromFp(Z3_mk_fpa_div(C, rm(e->b), toFp(k(0), f), toFp(k(1), f)), f, e);
      case FSQRT: return fromFp(Z3_mk_fpa_sqrt(C, rm(e->b), toFp(k(0), f)), f, e);
      case FMA: return fromFp(Z3_mk_fpa_fma(C, rm(e->b), toFp(k(0), f), toFp(k(1), f), toFp(k(2), f)), f, e);
      case FRINT: return fromFp(Z3_mk_fpa_round_to_integral(C, rm(e->b), toFp(k(0), f)), f, e);
      case FCVT: { unsigned to = e->b & 15; return fromFp(Z3_mk_fpa_to_fp_float(C, rm(e->b >> 4), toFp(k(0), f), fs(to)), to, e); }
      case FTOSI: return Z3_mk_fpa_to_sbv(C, rm(e->b), toFp(k(0), f), e->w);
      case FTOUI: return Z3_mk_fpa_to_ubv(C, rm(e->b), toFp(k(0), f), e->w);
      case SITOF: return fromFp(Z3_mk_fpa_to_fp_signed(C, rm(e->b), k(0), fs(f)), f, e);
      case UITOF: return fromFp(Z3_mk_fpa_to_fp_unsigned(C, rm(e->b), k(0), fs(f)), f, e);
      default: abort();
    }
  }
};

std::string toSmt2(llvm::ArrayRef<E> conj, bool exactFp) {
  init();
  Tr t(exactFp);
  Z3_solver s = Z3_mk_solver(C); Z3_solver_inc_ref(C, s);
  for (E e : conj) Z3_solver_assert(C, s, t.bo(e));
  for (auto a : t.side) Z3_solver_assert(C, s, a);
  std::string r = Z3_solver_to_string(C, s);
  Z3_solver_dec_ref(C, s);
  return r;
}

static std::unordered_map<uint64_t, bool> gLocalUnsat;
Res solve(llvm::ArrayRef<E> in, Model* m, unsigned timeoutMs, bool exactFp) {
  std::vector<E> conj;
  for (E e : in) { if (isFalse(e)) { gStats.trivial++; return Res::UNSAT; } if (!isTrue(e)) conj.push_back(e); }
  if (conj.empty()) { if (m) m->v.clear(); gStats.trivial++; return Res::SAT; }
  Hash128 h = alphaHash(conj);
  if (exactFp) h.a ^= 0xE8AC7ull;
  if (cacheHas(h)) { gStats.cached++; return Res::UNSAT; }
  init();
  auto t0 = std::chrono::steady_clock::now();
  gErr = false;
  Tr t(exactFp);
  Z3_solver s = Z3_mk_solver(C); Z3_solver_inc_ref(C, s);
  Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
  Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), timeoutMs);
  Z3_solver_set_params(C, s, p);
  for (E e : conj) Z3_solver_assert(C, s, t.bo(e));
  for (auto a : t.side) Z3_solver_assert(C, s, a);
  Z3_lbool r = Z3_solver_check(C, s);
  if (gErr) r = Z3_L_UNDEF;
  gStats.queries++; if (exactFp) gStats.exactFp++;
  Res res = r == Z3_L_TRUE ? Res::SAT : r == Z3_L_FALSE ? Res::UNSAT : Res::UNKNOWN;
  if (res == Res::SAT && m) {
    m->v.clear();
    Z3_model mo = Z3_solver_get_model(C, s); Z3_model_inc_ref(C, mo);
    std::unordered_set<uint32_t> vs;
    for (E e : conj) for (uint32_t v : varsOf(e)) vs.insert(v);
    for (uint32_t v : vs) {
      E ve = varByIndex(v);
      Z3_ast out;
      if (Z3_model_eval(C, mo, t.bv(ve), true, &out) && Z3_get_ast_kind(C, out) == Z3_NUMERAL_AST)
        m->v[v] = APInt(ve->w, Z3_get_numeral_string(C, out), 10);
      else m->v[v] = APInt(ve->w, 0);
    }
    Z3_model_dec_ref(C, mo);
  }
  Z3_params_dec_ref(C, p);
  Z3_solver_dec_ref(C, s);
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  gStats.seconds += dt; if (dt > gStats.maxq) gStats.maxq = dt;
  if (res == Res::UNSAT) { gStats.unsat++; cachePut(h); } else if (res == Res::SAT) gStats.sat++; else gStats.unknown++;
  return res;
}

// ---- products: every product of two non-constants becomes a combination of opaque products of narrow unsigned parts
// (exact identities mod 2^w), each opaque product an unconstrained variable apart from its range. Unsatisfiable after
// this abstraction implies unsatisfiable before it.
struct MulAbs {
  struct Term { APInt c; E core; };  // core == nullptr: constant
  std::unordered_map<E, E> memo;
  std::map<std::pair<uint32_t, uint32_t>, E> prods;
  std::vector<E> side;
  bool giveUp = false;
  void terms(E x, unsigned W, unsigned off, std::vector<Term>& out, int depth) {
    if (out.size() > 40) { giveUp = true; return; }
    if (off >= W) return;
    if (isC(x)) { if (!isZero(x)) out.push_back({x->c.zextOrTrunc(W).shl(off), nullptr}); return; }
    if (x->op == CONCAT && x->nk <= 6 && depth < 6) {
      unsigned o = off;
      for (unsigned i = x->nk; i-- > 0;) { terms(x->kid(i), W, o, out, depth + 1); o += x->kid(i)->w; }
      return;
    }
    if (x->op == SEXT) {
      E c = x->kid(0); terms(c, W, off, out, depth + 1);
      APInt k = (APInt::getOneBitSet(W + 1, std::min(W, x->w + off)) - APInt::getOneBitSet(W + 1, std::min(W, c->w + off))).trunc(W);
      if (!k.isZero()) out.push_back({k, mkExtract(c, c->w - 1, 1)});
      return;
    }
    if (x->w > 32) {
      for (unsigned lo = 0; lo < x->w; lo += 32) { E p = mkExtract(x, lo, std::min(32u, x->w - lo)); if (p->op == EXTRACT || p->w <= 32) terms(p, W, off + lo, out, depth + 1); }
      return;
    }
    out.push_back({APInt::getOneBitSet(W, off), x});
  }
  E prod(E a, E b) {
    if (b->w == 1) std::swap(a, b);
    if (a->w == 1) return mkIte(a, b, mkC(b->w, 0));
    if (a->id > b->id) std::swap(a, b);
    byId[a->id] = a; byId[b->id] = b; auto& p = prods[{a->id, b->id}];
    if (!p) {
      unsigned n = a->w, m = b->w; p = mkVar(n + m, "prod");
      APInt mx = APInt::getAllOnes(n).zext(n + m) * APInt::getAllOnes(m).zext(n + m);
      side.push_back(mkUle(p, mkConst(mx)));
    }
    return p;
  }
  static bool terms1(E x) { return x->op != CONCAT && x->op != SEXT; }
  std::map<std::pair<uint32_t, uint32_t>, E> fprods;
  E prodW(E x, E y) { if (x->id > y->id) std::swap(x, y); byId[x->id] = x; byId[y->id] = y; auto& p = fprods[{x->id, y->id}]; if (!p) p = mkVar(x->w, "fprod"); return p; }
  bool whole = false;  // mode A: a product of two extended narrow values is one opaque (signed) value
  std::map<std::tuple<uint32_t, bool, uint32_t, bool>, E> wprods;
  static bool plain(E x, E* core, bool* sg, unsigned* sh) {
    *sh = 0;
    if (x->op == SEXT) { *core = x->kid(0); *sg = true; }
    else if (x->op == CONCAT && isZero(x->kid(0))) { *core = mkExtract(x, 0, x->w - x->kid(0)->w); *sg = false; if ((*core)->op == SEXT) return false; }
    else return false;
    if ((*core)->op == CONCAT && isZero((*core)->kid((*core)->nk - 1))) { *sh = (*core)->kid((*core)->nk - 1)->w; *core = mkExtract(*core, *sh, (*core)->w - *sh); }
    return (*core)->w > 1 && (*core)->w <= 32;
  }
  E mul(E x, E y) {
    if (whole) {
      E a, b; bool sa, sb; unsigned ha, hb;
      if (plain(x, &a, &sa, &ha) && plain(y, &b, &sb, &hb)) {
        if (std::make_pair(a->id, sa) > std::make_pair(b->id, sb)) { std::swap(a, b); std::swap(sa, sb); }
        unsigned n = a->w, m = b->w, w = n + m; auto& p = wprods[{a->id, sa, b->id, sb}];
        if (!p) {
          p = mkVar(w, "wprod");
          auto lo = [&](unsigned k, bool s) { return s ? APInt::getSignedMinValue(k).sext(w) : APInt(w, 0); };
          auto hi = [&](unsigned k, bool s) { return s ? APInt::getSignedMaxValue(k).zext(w) : APInt::getAllOnes(k).zext(w); };
          if (sa || sb) {
            APInt c[4] = {lo(n, sa) * lo(m, sb), lo(n, sa) * hi(m, sb), hi(n, sa) * lo(m, sb), hi(n, sa) * hi(m, sb)};
            APInt l = c[0], h = c[0]; for (auto& v : c) { if (v.slt(l)) l = v; if (v.sgt(h)) h = v; }
            side.push_back(mkSle(mkConst(l), p)); side.push_back(mkSle(p, mkConst(h)));
            if (sa && sb) side.push_back(mkEq(mkEq(p, mkConst(h)), mkAnd(mkEq(a, mkConst(APInt::getSignedMinValue(n))), mkEq(b, mkConst(APInt::getSignedMinValue(m))))));
          } else side.push_back(mkUle(p, mkConst(hi(n, false) * hi(m, false))));
        }
        E v = x->w <= w ? mkTrunc(p, x->w) : (sa || sb) ? mkSExt(p, x->w) : mkZExt(p, x->w);
        return mkShl(v, mkC(x->w, ha + hb));
      }
      if (terms1(x) && terms1(y)) return prodW(x, y);
      giveUp = true; return mkMul(x, y);
    }
    unsigned W = x->w; std::vector<Term> a, b; terms(x, W, 0, a, 0); terms(y, W, 0, b, 0);
    if (a.size() * b.size() > 150) giveUp = true;
    if (giveUp) return mkMul(x, y);
    E r = mkC(W, 0);
    for (auto& s : a) for (auto& t : b) {
      APInt k = s.c * t.c; if (k.isZero()) continue;
      E v = !s.core && !t.core ? mkC(W, 1) : !s.core ? mkZExtOrTrunc(t.core, W) : !t.core ? mkZExtOrTrunc(s.core, W) : mkZExtOrTrunc(prod(s.core, t.core), W);
      bool neg = k.isNegative() && !k.isMinSignedValue(); if (neg) k = -k;
      E term = mkMul(v, mkConst(k));
      r = neg ? mkSub(r, term) : mkAdd(r, term);
    }
    return r;
  }
  template <class M> void consistent(const M& ps, bool same) {  // equal factors, equal products
    if (ps.size() > 12) return;
    for (auto i = ps.begin(); i != ps.end(); ++i) for (auto j = std::next(i); j != ps.end(); ++j) {
      E a = byId[i->first.first], b = byId[i->first.second], c = byId[j->first.first], d = byId[j->first.second];
      if (!a || !b || !c || !d || i->second->w != j->second->w) continue;
      if (a->w == c->w && b->w == d->w) side.push_back(mkOr(mkNot(mkAnd(mkEq(a, c), mkEq(b, d))), mkEq(i->second, j->second)));
      if (a->w == d->w && b->w == c->w) side.push_back(mkOr(mkNot(mkAnd(mkEq(a, d), mkEq(b, c))), mkEq(i->second, j->second)));
    }
    (void)same;
  }
  std::unordered_map<uint32_t, E> byId;
  std::vector<E> run(llvm::ArrayRef<E> conj) {
    std::vector<E> out = run0(conj);
    consistent(fprods, true); consistent(prods, true);
    out.insert(out.end(), side.begin() + sideDone, side.end());
    return out;
  }
  size_t sideDone = 0;
  std::vector<E> run0(llvm::ArrayRef<E> conj) {
    std::vector<E> out;
    for (E e : conj) out.push_back(normalize(rewriteMuls(e, memo, [&](E x, E y) { return mul(x, y); })));
    out.insert(out.end(), side.begin(), side.end()); sideDone = side.size();
    return out;
  }
};
static bool holdsAll(llvm::ArrayRef<E> conj, const Model& m) {
  std::unordered_map<E, E> memo;
  for (E e : conj) { E r = substituteMemo(e, memo, [&](E v) -> E { auto it = m.v.find(v->a); return it == m.v.end() ? mkC(v->w, 0) : mkConst(it->second); }); if (!isTrue(r)) return false; }
  return true;
}
// A satisfying assignment may also be guessed: a witness is exact however it was found.
static uint64_t rnd64(uint64_t& s) { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static bool guess(llvm::ArrayRef<E> conj, Model* m, unsigned tries) {
  std::vector<uint32_t> vs; for (E e : conj) for (uint32_t v : varsOf(e)) vs.push_back(v);
  std::sort(vs.begin(), vs.end()); vs.erase(std::unique(vs.begin(), vs.end()), vs.end());
  if (dagSize(conj) > 20000) tries = tries / 8 + 1;
  uint64_t s = 0x1234567 + vs.size();
  for (unsigned t = 0; t < tries; ++t) {
    Model c; APInt prev; bool havePrev = false;
    for (uint32_t v : vs) {
      unsigned w = varByIndex(v)->w; APInt x(w, 0);
      switch (rnd64(s) % 12) {
        case 0: break; case 1: x = APInt::getAllOnes(w); break; case 2: x = APInt::getSignedMinValue(w); break; case 3: x = APInt::getSignedMaxValue(w); break;
        case 4: x = APInt(w, 1); break; case 5: x = APInt(w, rnd64(s) & 0xF); break; case 6: x = -APInt(w, rnd64(s) & 0xF); break;
        case 7: x = APInt::getOneBitSet(w, rnd64(s) % w); break;
        case 8: if (havePrev && prev.getBitWidth() == w) { x = prev; break; } [[fallthrough]];
        default: for (unsigned i = 0; i < w; i += 64) { APInt p(w < 64 ? 64 : w, rnd64(s)); x |= p.zextOrTrunc(w).shl(i); }
      }
      c.v[v] = x; prev = x; havePrev = true;
    }
    if (holdsAll(conj, c)) { if (m) *m = c; return true; }
  }
  return false;
}
// ---- sweeping: nodes that agree on random inputs are proved equal by short queries, smallest first, and merged; the
// conjunction that remains is equivalent to the original one.
static Res sweep(llvm::ArrayRef<E> conj, std::vector<E>& out, unsigned budgetMs) {
  auto t0 = std::chrono::steady_clock::now();
  auto spent = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() * 1000; };
  std::vector<E> nodes; { std::unordered_set<E> seen; std::vector<E> st(conj.begin(), conj.end());
    while (!st.empty()) { E e = st.back(); st.pop_back(); if (!seen.insert(e).second) continue; nodes.push_back(e); if (nodes.size() > 30000) return Res::UNKNOWN; for (unsigned i = 0; i < e->nk; ++i) st.push_back(e->kid(i)); } }
  std::sort(nodes.begin(), nodes.end(), [](E a, E b) { return a->id < b->id; });
  const unsigned K = 24; uint64_t s = 99;
  std::vector<std::vector<E>> sig(nodes.size());
  for (unsigned k = 0; k < K; ++k) {
    std::unordered_map<E, E> memo; std::unordered_map<uint32_t, E> val;
    auto var = [&](E v) -> E { auto& x = val[v->a]; if (!x) { APInt r(v->w, 0); for (unsigned i = 0; i < v->w; i += 64) { uint64_t z = rnd64(s); if (k % 4 == 3) z &= rnd64(s) & rnd64(s); APInt p(v->w < 64 ? 64 : v->w, z); r |= p.zextOrTrunc(v->w).shl(i); } x = mkConst(r); } return x; };
    for (size_t i = 0; i < nodes.size(); ++i) sig[i].push_back(substituteMemo(nodes[i], memo, var));
    if (spent() > budgetMs / 2) return Res::UNKNOWN;
  }
  std::map<std::vector<E>, std::vector<E>> cls;  // signature -> rebuilt representatives
  std::unordered_map<E, E> merged;  // original node -> rebuilt node
  std::unordered_map<E, E> memo; unsigned merges = 0;
  for (size_t i = 0; i < nodes.size(); ++i) {
    E n = nodes[i];
    E r = substituteMemo(n, memo, [](E v) { return v; });   // kids already replaced in memo
    bool flat = true; for (E x : sig[i]) if (!isC(x)) flat = false;
    if (flat && !isC(r) && n->op != VAR) {
      bool same = true; for (E x : sig[i]) if (x != sig[i][0]) same = false;
      auto& c = cls[sig[i]]; bool done = false;
      if (same && n->w > 1) { if (solve({mkNe(r, sig[i][0])}, nullptr, 500, false) == Res::UNSAT) { r = sig[i][0]; done = true; } }
      else if (n->w > 1) for (unsigned j = 0; j < c.size() && j < 3 && !done; ++j) {
        if (c[j] == r) { done = true; break; }
        E q = normalize(mkNe(c[j], r));
        if (isFalse(q) || solve({q}, nullptr, 500, false) == Res::UNSAT) { r = c[j]; done = true; ++merges; }
      }
      if (!done) c.push_back(r);
      memo[n] = r;
    } else if (n->op == VAR) cls[sig[i]].push_back(r);
    if (spent() > budgetMs) return Res::UNKNOWN;
  }
  out.clear(); for (E e : conj) { E r = normalize(substituteMemo(e, memo, [](E v) { return v; })); if (isFalse(r)) return Res::UNSAT; if (!isTrue(r)) out.push_back(r); }
  return Res::UNKNOWN;
}
static Res solveSweep(llvm::ArrayRef<E> conj, Model* m, unsigned timeoutMs) {
  Res r = solve(conj, m, std::min(timeoutMs, 1500u), false);
  if (r != Res::UNKNOWN || timeoutMs <= 1500u) return r;
  std::vector<E> lc; bool change = false;
  for (E e : conj) { E x = lutCanon(e); if (isFalse(x)) { cachePut(alphaHash(conj)); return Res::UNSAT; } change |= x != e; if (!isTrue(x)) lc.push_back(x); }
  if (getenv("VP_LUT")) for (E x : lc) fprintf(stderr, "lut: %s\n", toString(x, atoi(getenv("VP_LUT"))).c_str());
  if (change) { r = solve(lc, m, 1500u, false); if (r == Res::UNSAT) cachePut(alphaHash(conj)); if (r != Res::UNKNOWN) return r; }
  std::vector<E> q; r = sweep(conj, q, timeoutMs);
  if (getenv("VP_SWEEP")) fprintf(stderr, "sweep: %llu -> %llu nodes res %d\n", (unsigned long long)dagSize(conj), (unsigned long long)dagSize(q), (int)r);
  if (r == Res::UNSAT) { cachePut(alphaHash(conj)); return r; }
  if (!q.empty()) { r = solve(q, m, timeoutMs, false); if (r == Res::UNSAT) cachePut(alphaHash(conj)); if (r != Res::UNKNOWN) return r; }
  return solve(conj, m, timeoutMs, false);
}
// Conjuncts that fix a subexpression (x, not x, x = constant) are used in the others.
static std::vector<E> propagate(llvm::ArrayRef<E> in) {
  std::vector<E> cur;
  std::function<void(E)> add = [&](E e) { if (e->op == AND && e->w == 1) { for (unsigned i = 0; i < e->nk; ++i) add(e->kid(i)); } else if (!isTrue(e)) cur.push_back(e); };
  for (E e : in) add(e);
  if (cur.size() < 2 || cur.size() > 2000) return cur;
  for (int round = 0; round < 3; ++round) {
    std::unordered_map<E, E> facts; std::unordered_map<E, E> owner;
    for (E e : cur) {
      E k = e, b; E v = mkBool(true);
      if (isNot(e, &b)) { k = b; v = mkBool(false); }
      if (isC(k)) continue;
      facts[k] = v; owner[k] = e;
      if (v == mkBool(true) && e->op == EQ && isC(e->kid(1)) && !isC(e->kid(0))) { facts[e->kid(0)] = e->kid(1); owner[e->kid(0)] = e; }
    }
    std::vector<E> next = cur; cur.clear(); bool change = false;
    std::unordered_map<E, E> memo = facts;
    for (E e : next) {
      E r;
      bool own = false; E b; E k = isNot(e, &b) ? b : e; auto it = owner.find(k); own = it != owner.end() && it->second == e;
      if (own) {  // its own facts do not apply to itself
        std::unordered_map<E, E> m2 = facts; for (auto& o : owner) if (o.second == e) m2.erase(o.first);
        if (m2.size() > 64) r = e; else r = substituteMemo(e, m2, [](E v) { return v; });
      } else r = substituteMemo(e, memo, [](E v) { return v; });
      if (r != e) { r = normalize(r); change = true; }
      add(r);
    }
    if (!change) break;
  }
  return cur;
}
// Quotients of converted integers: the rounded quotient becomes a variable of which only what the truncation lemma gives is
// known. Unsatisfiable after this abstraction implies unsatisfiable before it.
static bool divAbs(llvm::ArrayRef<E> conj, std::vector<E>& out) {
  std::vector<E> side, cur; std::unordered_map<E, E> memo; bool any = false;
  for (E e : conj) cur.push_back(normalize(rewriteIntQuots(e, memo, side)));
  any = !side.empty();
  for (E e : side) cur.push_back(e);
  if (!any) { out = cur; return false; }
  // quotients and products become variables too: narrow operands first, equal operands give equal results
  std::map<std::tuple<int, uint32_t, uint32_t>, E> qv; std::vector<std::tuple<E, E, E>> prods; std::vector<E> extra;
  std::unordered_map<E, E> m2;
  std::function<E(E)> go = [&](E e) -> E {
    if (!e->nk) return e;
    auto it = m2.find(e); if (it != m2.end()) return it->second;
    std::vector<E> k; for (unsigned i = 0; i < e->nk; ++i) k.push_back(go(e->kid(i)));
    E r;
    if ((e->op == UDIV || e->op == SDIV) && !isC(k[1])) {
      bool sg = e->op == SDIV; unsigned w = e->w, n = w;
      if (sg) { n = w - std::min(redundantSignBits(k[0]), redundantSignBits(k[1])); }
      E x = mkTrunc(k[0], n), y = mkTrunc(k[1], n);
      E& v = qv[{sg, x->id, y->id}];
      if (!v) {
        v = mkVar(n, "intq"); E z = mkEq(y, mkC(n, 0));
        if (!sg) extra.push_back(mkOr(z, mkUle(v, x)));
        else extra.push_back(mkOr(mkNot(mkAnd(mkEq(x, mkConst(APInt::getSignedMinValue(n))), mkEq(y, mkConst(APInt::getAllOnes(n))))), mkEq(v, x)));
      }
      if (n == w) r = v;
      else r = mkIte(mkAnd(mkEq(x, mkConst(APInt::getSignedMinValue(n))), mkEq(y, mkConst(APInt::getAllOnes(n)))), mkConst(APInt::getOneBitSet(w, n - 1)), mkSExt(v, w));
    } else {
      r = rebuildNode(e, k);
      if (r->op == MUL && r->nk == 2 && !isC(r->kid(0)) && !isC(r->kid(1))) {
        E v = mkVar(r->w, "uprod"), a = r->kid(0), b = r->kid(1);
        for (auto& p : prods) { E a2, b2, v2; std::tie(a2, b2, v2) = p; if (a2->w != a->w) continue; extra.push_back(mkOr(mkOr(mkNot(mkEq(a, a2)), mkNot(mkEq(b, b2))), mkEq(v, v2))); extra.push_back(mkOr(mkOr(mkNot(mkEq(a, b2)), mkNot(mkEq(b, a2))), mkEq(v, v2))); }
        prods.emplace_back(a, b, v); r = v;
      }
    }
    return m2[e] = r;
  };
  for (E e : cur) out.push_back(go(e));
  out.insert(out.end(), extra.begin(), extra.end());
  return true;
}
static Res solveRefine1(llvm::ArrayRef<E> in, Model* m, unsigned timeoutMs);
// Queries with floating-point operations over at most 8 bits of input: one query per input value, most decided by folding.
static Res caseSplit(llvm::ArrayRef<E> conj, Model* m, unsigned timeoutMs, bool* done) {
  *done = false;
  std::vector<uint32_t> vs; std::unordered_map<uint32_t, unsigned> width;
  { std::unordered_set<E> seen; std::vector<E> st(conj.begin(), conj.end());
    while (!st.empty()) { E n = st.back(); st.pop_back(); if (!seen.insert(n).second) continue; if (n->op == VAR && varName(n->a)[0] != '$' && width.emplace(n->a, n->w).second) vs.push_back(n->a); for (unsigned i = 0; i < n->nk; ++i) st.push_back(n->kid(i)); } 
    if (seen.size() > 20000) return Res::UNKNOWN; }
  unsigned bits = 0; for (uint32_t v : vs) bits += width[v];
  if (bits == 0 || bits > 8) return Res::UNKNOWN;
  *done = true;
  for (unsigned x = 0; x < 1u << bits; ++x) {
    Model mm; unsigned at = 0; for (uint32_t v : vs) { mm.v[v] = APInt(width[v], x >> at & ((1u << width[v]) - 1)); at += width[v]; }
    std::vector<E> q; bool f = false;
    for (E e : conj) { E r = substitute(e, [&](E v) -> E { auto it = mm.v.find(v->a); return it == mm.v.end() ? v : mkConst(it->second); }); if (isFalse(r)) { f = true; break; } if (!isTrue(r)) q.push_back(r); }
    if (f) { gStats.trivial++; continue; }
    if (q.empty()) { if (m) *m = mm; return Res::SAT; }
    Model m2; Res r = solveRefine1(q, &m2, timeoutMs);
    if (r == Res::UNSAT) continue;
    if (r == Res::SAT && m) { *m = m2; for (auto& p : mm.v) m->v[p.first] = p.second; }
    return r;
  }
  return Res::UNSAT;
}
static std::vector<E> propagate(llvm::ArrayRef<E> in);
// One floating-point input, everything lowered to circuits: one query per value of its exponent field, so that shifts become fixed.
// Splits a query on its most frequent conditions.
static Res cubeSplit(llvm::ArrayRef<E> conj, Model* m, unsigned timeoutMs, unsigned firstMs, int depth, E pick = nullptr) {
  Res r = solve(conj, m, depth ? firstMs : timeoutMs, false);
  if (r != Res::UNKNOWN || !depth) return r;
  std::unordered_map<E, unsigned> cnt; std::unordered_set<E> seen; std::vector<E> st(conj.begin(), conj.end());
  while (!st.empty()) { E e = st.back(); st.pop_back(); if (!seen.insert(e).second) continue; if (e->op == ITE) cnt[e->kid(0)]++; for (unsigned i = 0; i < e->nk; ++i) st.push_back(e->kid(i)); }
  E best = pick; double bc = 0; if (!best) for (auto& k : cnt) { if (k.first->op == EXTRACT && k.first->kid(0)->op == VAR) continue; double sc = k.second; if (sc > bc || (sc == bc && best && k.first->id < best->id)) { best = k.first; bc = sc; } }
  if (!best) return solveSweep(conj, m, timeoutMs);
  if (getenv("VP_CUBE")) fprintf(stderr, "cube %d: %.2f %s\n", depth, bc, toString(best, 6).substr(0, 300).c_str());
  for (int v = 0; v < 2; ++v) {
    std::unordered_map<E, E> memo; memo[best] = mkBool(v); E b; if (isNot(best, &b)) memo[b] = mkBool(!v); else memo[mkNot(best)] = mkBool(!v);
    std::vector<E> q; bool f = false; gExpMode = true;
    for (E e : conj) { E x = substituteMemo(e, memo, [](E y) { return y; }); if (!isC(x)) x = normalize(x); if (isFalse(x)) f = true; if (!isTrue(x)) q.push_back(x); }
    gExpMode = false;
    if (f) continue;
    q.push_back(v ? best : mkNot(best)); q = propagate(q); for (E e : q) if (isFalse(e)) f = true; if (f) continue;
    r = cubeSplit(q, m, timeoutMs, firstMs, depth - 1);
    if (r != Res::UNSAT) return r;
  }
  cachePut(alphaHash(conj));
  return Res::UNSAT;
}
// One query per form of the variable v; the forms cover every value.
static Res subsSplit(llvm::ArrayRef<E> conj, E v, llvm::ArrayRef<E> subs, Model* m, unsigned timeoutMs, E pick) {
  auto t0 = std::chrono::steady_clock::now();
  for (E sub : subs) {
    std::unordered_map<E, E> memo; memo[v] = sub;
    std::vector<E> q; bool f = false;
    gExpMode = true;
    for (E e : conj) { E r = substituteMemo(e, memo, [](E y) { return y; }); if (!isFalse(r) && !isTrue(r)) r = normalize(r); if (isFalse(r)) { f = true; break; } if (!isTrue(r)) q.push_back(r); }
    gExpMode = false;
    if (f) { gStats.trivial++; continue; }
    Model m2; auto t1 = std::chrono::steady_clock::now(); Res r = q.empty() ? Res::SAT : cubeSplit(q, &m2, timeoutMs, 200, 5, pick);
    if (getenv("VP_SPLIT")) { double d = std::chrono::duration<double>(std::chrono::steady_clock::now() - t1).count(); if (d > 0.05) { fprintf(stderr, "form %s %.2f %d dag %lu\n", toString(sub, 3).c_str(), d, (int)r, dagSize(q)); if (d > 0.3) for (E e : q) fprintf(stderr, "   %s\n", toString(e, 12).substr(0, 3000).c_str()); } }
    if (r == Res::UNSAT) { if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() * 1000 > 10.0 * timeoutMs) return Res::UNKNOWN; continue; }
    if (r == Res::SAT && m) { APInt b = evalModel(sub, m2); *m = m2; m->v[v->a] = b; }
    return r;
  }
  return Res::UNSAT;
}
// An integer converted to floating point: one query per sign and position of the leading bit.
static Res intSplit(llvm::ArrayRef<E> conj, Model* m, unsigned timeoutMs, bool* done) {
  *done = false; E v = nullptr;
  for (E e : conj) for (uint32_t x : varsOf(e)) if (varName(x)[0] != '$') { E y = varByIndex(x); if (v && y != v) return Res::UNKNOWN; v = y; }
  if (!v || (v->w != 32 && v->w != 64) || dagSize(conj) > 20000) return Res::UNKNOWN;
  { Res r = solve(conj, m, 300, true); if (r != Res::UNKNOWN) { *done = true; return r; } }
  *done = true; if (getenv("VP_SPLIT")) fprintf(stderr, "int split dag %lu\n", dagSize(conj));
  std::vector<E> subs{mkC(v->w, 0), mkOnes(v->w)};
  for (int neg = 0; neg < 2; ++neg) for (unsigned p = 0; p < v->w; ++p) {
    if (neg && p == v->w - 1) continue;
    E top = neg ? mkConst(~APInt(v->w - p, 1)) : mkC(v->w - p, 1);
    subs.push_back(p ? mkConcat2(top, mkExtract(v, 0, p)) : top);
  }
  return subsSplit(conj, v, subs, m, timeoutMs, nullptr);
}
static bool hasIntToF(llvm::ArrayRef<E> conj) {
  std::unordered_set<E> seen; std::vector<E> st(conj.begin(), conj.end());
  while (!st.empty()) { E e = st.back(); st.pop_back(); if (!seen.insert(e).second) continue; if ((e->op == SITOF || e->op == UITOF)) { E k = e->kid(0); if (k->op == SEXT) k = k->kid(0); if (k->op == CONCAT && isZero(k->kid(0)) && k->nk == 2) k = k->kid(1); if (k->op == VAR) return true; } for (unsigned i = 0; i < e->nk; ++i) st.push_back(e->kid(i)); }
  return false;
}
static Res expSplit(llvm::ArrayRef<E> conj, Model* m, unsigned timeoutMs, bool* done) {
  *done = false; E v = nullptr;
  for (E e : conj) for (uint32_t x : varsOf(e)) if (varName(x)[0] != '$') { E y = varByIndex(x); if (v && y != v) return Res::UNKNOWN; v = y; }
  if (!v || (v->w != 32 && v->w != 64) || dagSize(conj) > 20000) return Res::UNKNOWN;
  unsigned M = v->w == 32 ? 23 : 52, EB = v->w == 32 ? 8 : 11;
  { Res r = solve(conj, m, 300, true); if (r != Res::UNKNOWN) { *done = true; return r; } }
  if (getenv("VP_SPLIT")) { fprintf(stderr, "split dag %lu\n", dagSize(conj)); for (E e : conj) fprintf(stderr, "   %s\n", toString(e, 9).substr(0, 2500).c_str()); }
  *done = true;
  const unsigned bias = (1u << (EB - 1)) - 1; unsigned lo = bias - M - 5, hi = bias + (M > 64 ? M : 64) + 3; bool useLo = false, useHi = false;
  E ex = mkExtract(v, M, EB);
  for (int k = 0; k < 2; ++k) {  // tiny and huge magnitudes first, each in one query
    std::vector<E> q(conj.begin(), conj.end()); q.push_back(k ? mkUle(mkC(EB, hi), ex) : mkUle(ex, mkC(EB, lo)));
    Res r = solveSweep(propagate(q), m, std::min(timeoutMs, 3000u));
    if (r == Res::SAT) return r;
    (k ? useHi : useLo) = r == Res::UNSAT;
  }
  std::vector<E> subs;
  for (unsigned x = useLo ? lo + 1 : 0; x < (useHi ? hi : 1u << EB); ++x) subs.push_back(mkConcat({mkExtract(v, v->w - 1, 1), mkC(EB, x), mkExtract(v, 0, M)}));
  return subsSplit(conj, v, subs, m, timeoutMs, mkExtract(v, v->w - 1, 1));
}
Res solveRefine(llvm::ArrayRef<E> in, Model* m, unsigned timeoutMs) {
  bool fp = false; for (E e : in) { if (isFalse(e)) return Res::UNSAT; fp = fp || hasFp(e); }
  if (fp) { bool done; Res r = caseSplit(in, m, timeoutMs, &done); if (done) return r; }
  return solveRefine1(in, m, timeoutMs);
}
static Res solveRefine1(llvm::ArrayRef<E> in, Model* m, unsigned timeoutMs) {
  bool fp = false, mul = false;
  std::vector<E> conj;
  for (E e : propagate(in)) { if (isFalse(e)) { gStats.trivial++; return Res::UNSAT; } if (!isTrue(e)) conj.push_back(e); }
  for (E e : conj) { if (!fp && hasFp(e)) fp = true; if (!mul && hasMul(e)) mul = true; }
  const bool lia = !fp && liaWants(conj);
  if (!fp && !mul && !lia) {
    if (timeoutMs < 3000 || dagSize(conj) > 400) return solveSweep(conj, m, timeoutMs);
    Res q = solveSweep(conj, m, 1500);  // then as integers, then as bits again
    if (q != Res::UNKNOWN) return q;
    Model m0; q = solveLia(conj, &m0, 4000);
    if (q == Res::UNSAT) return q;
    if (q == Res::SAT && holdsAll(conj, m0)) { if (m) *m = m0; return q; }
    return solveSweep(conj, m, timeoutMs);
  }
  Hash128 h = alphaHash(conj); h.a ^= 0x5EF14Eull;
  if (cacheHas(h)) { gStats.cached++; return Res::UNSAT; }
  Model m1; Res r = Res::UNKNOWN;
  if (lia) {
    r = solveLia(conj, &m1, std::min(timeoutMs, 4000u));
    if (r == Res::UNSAT) { cachePut(h); return r; }
    if (r == Res::SAT && holdsAll(conj, m1)) { if (m) *m = m1; return Res::SAT; }
    if (!mul) return solveSweep(conj, m, timeoutMs);
  }
  if (smallSupport(conj)) {
    std::vector<E> lc; for (E e : conj) { E x = lutCanon(e); if (isFalse(x)) { cachePut(h); return Res::UNSAT; } if (!isTrue(x)) lc.push_back(x); }
    r = solve(lc, m, timeoutMs, true); if (r == Res::UNSAT) cachePut(h); if (r != Res::UNKNOWN && (r == Res::UNSAT || !m || holdsAll(conj, *m))) return r;
  }
  if (fp) {
    std::vector<E> qd;
    if (divAbs(conj, qd)) { r = solve(qd, &m1, timeoutMs / 2, true); if (r == Res::UNSAT) { cachePut(h); return r; } if (r == Res::SAT && holdsAll(conj, m1)) { if (m) *m = m1; return Res::SAT; } }
  }
  if (fp) {  // conversions, roundings and sums as circuits
    std::vector<E> lc; bool rest = false, anyMul = false;
    for (E e : conj) { E x = fpLower(e, false); if (getenv("VP_SPLIT")) fprintf(stderr, "dag %lu -> %lu -> %lu\n", dagSize(e), dagSize(x), dagSize(normalize(x))); if (dagSize(x) < 2000) x = normalize(x); if (isFalse(x)) { cachePut(h); return Res::UNSAT; } if (!isTrue(x)) lc.push_back(x); }
    for (E e : lc) { rest = rest || hasFp(e); anyMul = anyMul || hasMul(e); }
    if (getenv("VP_SPLIT")) fprintf(stderr, "lowered: fp left %d products %d dag %lu\n", rest, anyMul, dagSize(lc));
    if (!rest && !anyMul) {
      bool done; r = hasIntToF(conj) ? intSplit(lc, &m1, timeoutMs, &done) : expSplit(lc, &m1, timeoutMs, &done);
      if (r == Res::UNSAT) { cachePut(h); return r; }
      if (r == Res::SAT) { if (m) *m = m1; return r; }
    }
    if (!rest) {
      r = anyMul ? solveRefine1(lc, m, timeoutMs) : solveSweep(lc, m, timeoutMs);
      if (r == Res::UNSAT) { cachePut(h); return r; }
      if (r == Res::SAT) return r;
    } else {
      r = solve(lc, &m1, std::min(timeoutMs, 5000u), false);
      if (r == Res::UNSAT) { cachePut(h); return r; }
    }
  }
  std::vector<E> q = conj;
  if (mul) {
    { MulAbs ab; ab.whole = true; std::vector<E> qa = ab.run(conj); if (!ab.giveUp) { r = solve(qa, &m1, std::max(1000u, timeoutMs / 2), false); if (r == Res::UNSAT) { cachePut(h); return r; } if (r == Res::SAT && holdsAll(conj, m1)) { if (m) *m = m1; return Res::SAT; } } }
    MulAbs ab; q = ab.run(conj);
    if (ab.giveUp) q = conj;
    else if (!fp && q.size() < 200) {
      r = solve(q, &m1, std::min(timeoutMs, 3000u), false);
      if (r == Res::UNKNOWN && dagSize(q) < 4000 && solveLia(q, nullptr, std::min(timeoutMs, 5000u)) == Res::UNSAT) { cachePut(h); return Res::UNSAT; }
    }
  }
  r = solve(q, &m1, mul && !fp ? timeoutMs : std::min(timeoutMs, 5000u), false);
  if (r == Res::UNSAT) { cachePut(h); return r; }
  if (r == Res::SAT && holdsAll(conj, m1)) { if (m) *m = m1; return Res::SAT; }
  if (guess(conj, m, 60)) return Res::SAT;
  Res r2 = solve(conj, m, timeoutMs, true);
  if (r2 == Res::UNKNOWN) { if (guess(conj, m, 600)) return Res::SAT; if (m) *m = m1; }  // candidate only; the caller treats UNKNOWN as undecided
  if (r2 == Res::UNSAT) cachePut(h);
  return r2;
}
APInt evalModel(E e, const Model& m) {
  E r = substitute(e, [&](E v) -> E { auto it = m.v.find(v->a); return it == m.v.end() ? mkC(v->w, 0) : mkConst(it->second); });
  if (isC(r)) return r->c;
  return APInt(e->w, 0);
}
}  // namespace vp
