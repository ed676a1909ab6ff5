// Agreement of two floating-point expressions over the reals: each is expanded to a polynomial over its leaves (anything that is not
// +, -, *, fused multiply-add, division by a constant or a widening/narrowing), and the solver decides whether the two polynomials can
// differ by more than the tolerance (relative to the sum of the magnitudes of the terms) for leaves in [-1, 1].
#include "solver.h"
#include <cmath>
#include <random>
#include <chrono>
#include <z3.h>
#include "llvm/ADT/APFloat.h"
#include <algorithm>
#include <unordered_map>
namespace vp {
using llvm::APFloat; using llvm::APInt;
namespace {
using Mono = std::vector<uint32_t>;            // sorted leaf ids, repeated for powers
using Poly = std::map<Mono, double>;
struct Expand {
  std::unordered_map<E, Poly> memo; bool big = false;
  static double toD(unsigned f, E e) { APFloat v(fmtSem(f), e->c); bool li; v.convert(APFloat::IEEEdouble(), llvm::RoundingMode::NearestTiesToEven, &li); return v.convertToDouble(); }
  static void acc(Poly& a, const Poly& b, double s) { for (auto& m : b) { double& v = a[m.first]; v += s * m.second; if (v == 0) a.erase(m.first); } }
  Poly mul(const Poly& a, const Poly& b) {
    Poly r; if (a.size() * b.size() > 200000) { big = true; return r; }
    for (auto& x : a) for (auto& y : b) { Mono m; m.reserve(x.first.size() + y.first.size()); std::merge(x.first.begin(), x.first.end(), y.first.begin(), y.first.end(), std::back_inserter(m)); double& v = r[m]; v += x.second * y.second; }
    return r;
  }
  static bool isNanUf(E e) { if (e->op != CONCAT && e->op != OR) return false; for (unsigned i = 0; i < e->nk; ++i) { E k = e->kid(i); if (k->op == EXTRACT) k = k->kid(0); if (k->op == UF && ufName(k->a).compare(0, 4, "nan_") == 0) return true; } return false; }
  // sum of the magnitudes of all terms before any cancel
  std::unordered_map<E, double> mags;
  double mag(unsigned f, E e) {
    auto it = mags.find(e); if (it != mags.end()) return it->second; double r = 1;
    if (isC(e)) { r = std::fabs(toD(f, e)); if (!(r < 1e300)) r = 1; }
    else switch (e->op) {
      case FADD: r = mag(f, e->kid(0)) + mag(f, e->kid(1)); break;
      case FMUL: r = mag(f, e->kid(0)) * mag(f, e->kid(1)); break;
      case FMA: r = mag(f, e->kid(0)) * mag(f, e->kid(1)) + mag(f, e->kid(2)); break;
      case FDIV: { Poly b = get(f, e->kid(1)); if (b.size() == 1 && b.begin()->first.empty()) r = mag(f, e->kid(0)) / std::fabs(b.begin()->second); break; }
      case FCVT: r = mag(e->a, e->kid(0)); break;
      case UF: if (isDp(e)) { r = mag(F32, e->kid(0)); for (unsigned h = 0; h < 2; ++h) r += mag(F32, half(e->kid(1), h)) * mag(F32, half(e->kid(2), h)); } break;
      case ITE: if (isNanUf(e->kid(1))) r = mag(f, e->kid(2)); break;
      case CONCAT: { E x = signedOf(e); if (x && x != e) r = mag(f, x); break; }
      default: break;
    }
    return mags[e] = r;
  }
  // e is x, -x, or x up to the sign of zero
  E signedOf(E e) {
    E s = e->kid(0); if (s->w != 1) return nullptr;
    std::vector<E> k; for (unsigned i = 1; i < e->nk; ++i) k.push_back(e->kid(i)); E mg = mkConcat(k), ns;
    if (mg->op == EXTRACT && mg->a == 0 && mg->kid(0)->w == e->w) return mg->kid(0);
    return isNot(s, &ns) ? mkConcat2(ns, mg) : nullptr;
  }
  static bool isDp(E e) { return ufName(e->a) == "x86.dpbf16ps"; }
  static E half(E e, unsigned h) { return mkConcat2(mkExtract(e, 16 * h, 16), mkC(16, 0)); }
  Poly leaf(E e) { return Poly{{Mono{e->id}, 1.0}}; }
  const Poly& get(unsigned f, E e) {
    auto it = memo.find(e); if (it != memo.end()) return it->second;
    Poly r = make(f, e); if (r.size() > 20000) big = true;
    return memo[e] = std::move(r);
  }
  Poly make(unsigned f, E e) {
    if (isC(e)) { double d = toD(f, e); if (d != d || std::isinf(d)) return leaf(e); if (d == 0) return {}; return Poly{{Mono{}, d}}; }
    switch (e->op) {
      case FADD: { Poly r = get(f, e->kid(0)); Poly b = get(f, e->kid(1)); acc(r, b, 1); return r; }
      case FMUL: { Poly a = get(f, e->kid(0)), b = get(f, e->kid(1)); return mul(a, b); }
      case FMA: { Poly a = get(f, e->kid(0)), b = get(f, e->kid(1)); Poly r = mul(a, b); acc(r, get(f, e->kid(2)), 1); return r; }
      case FDIV: { Poly b = get(f, e->kid(1)); if (b.size() != 1 || !b.begin()->first.empty()) return leaf(e); Poly a = get(f, e->kid(0)), r; acc(r, a, 1 / b.begin()->second); return r; }
      case FCVT: if (e->a == BF16 && (e->b & 15) == F32) return get(F32, mkConcat2(e->kid(0), mkC(16, 0))); return get(e->a, e->kid(0));
      case UF: {
        if (!isDp(e)) return leaf(e);
        Poly r = get(F32, e->kid(0));
        for (unsigned h = 0; h < 2; ++h) { Poly a = get(F32, half(e->kid(1), h)), b = get(F32, half(e->kid(2), h)); acc(r, mul(a, b), 1); }
        return r;
      }
      case ITE: if (isNanUf(e->kid(1))) return get(f, e->kid(2)); return leaf(e);   // NaN payloads of x + 0
      case CONCAT: {
        E x = signedOf(e), s = e->kid(0); if (!x || x == e) return leaf(e);
        E sg = mkExtract(x, x->w - 1, 1), b;
        int sign = 1; E t = s;
        for (int it = 0; it < 4; ++it) {
          if (t == sg) { if (x == e) return leaf(e); Poly r; acc(r, get(f, x), sign); return r; }
          if (isNot(t, &b)) { sign = -sign; t = b; continue; }
          E next = nullptr; if (t->op == AND) for (unsigned i = 0; i < t->nk; ++i) { E y = t->kid(i); if (y == sg || (isNot(y, &b) && b == sg)) next = y; }   // only the sign of zero differs
          if (!next) break; t = next;
        }
        return leaf(e);
      }
      default: return leaf(e);
    }
  }
};
}
bool realNear(unsigned f, E g, E w) { const double a = Expand::toD(f, g), b = Expand::toD(f, w); return std::fabs(a - b) <= (f == F64 ? 1e-7 : 4e-3) * std::max(1.0, std::fabs(b)); }
// drops the NaN branches of x + 0 wherever bits of it are used
static bool nanBits(E k) { E x; if (k->op == EXTRACT) k = k->kid(0); if (k->op == UF) return true; if (isNot(k, &x)) return nanBits(x); if (k->op == CONCAT || k->op == OR) for (unsigned i = 0; i < k->nk; ++i) { E c = k->kid(i); if (c->op == EXTRACT) c = c->kid(0); if (c->op == UF) return true; } return false; }
static E dropNan(E e, std::unordered_map<E, E>& memo) {
  if (e->nk == 0) return e; auto it = memo.find(e); if (it != memo.end()) return it->second; E r;
  if (e->op == ITE && nanBits(e->kid(1))) r = dropNan(e->kid(2), memo);
  else { std::vector<E> k; bool ch = false; for (unsigned i = 0; i < e->nk; ++i) { k.push_back(dropNan(e->kid(i), memo)); ch |= k.back() != e->kid(i); } r = ch ? rebuildNode(e, k) : e; }
  return memo[e] = r;
}
// 1: proved, 0: m is a counterexample, -1: undecided
int realClose(unsigned f, E got, E want, llvm::ArrayRef<E> pc, Model* m) {
  Expand x; std::unordered_map<E, E> dn; E g1 = dropNan(got, dn), w1 = dropNan(want, dn); Poly p = x.get(f, g1), q = x.get(f, w1);
  const double tol = f == F64 ? 1e-11 : 1e-5;
  if (!x.big) {
    const double scale = std::max(x.mag(f, g1), x.mag(f, w1)) + 1e-300;
    Poly d = p; Expand::acc(d, q, -1);
    auto t0 = std::chrono::steady_clock::now();
    Z3_config cfg = Z3_mk_config(); Z3_context C = Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(C, [](Z3_context, Z3_error_code) {});
    Z3_solver s = Z3_mk_solver(C); Z3_solver_inc_ref(C, s); Z3_sort R = Z3_mk_real_sort(C);
    auto num = [&](double v) { char b[400]; snprintf(b, sizeof b, "%.40f", v); return Z3_mk_numeral(C, b, R); };
    std::vector<Z3_ast> sum; sum.push_back(num(0)); unsigned k = 0; Z3_ast one = num(1), mone = num(-1);
    for (auto& t : d) { // each monomial of leaves in [-1, 1] is in [-1, 1]
      Z3_ast v = one; if (!t.first.empty()) { v = Z3_mk_const(C, Z3_mk_int_symbol(C, k++), R); Z3_solver_assert(C, s, Z3_mk_le(C, v, one)); Z3_solver_assert(C, s, Z3_mk_le(C, mone, v)); }
      Z3_ast a[2] = {num(t.second / scale), v}; sum.push_back(Z3_mk_mul(C, 2, a));
    }
    Z3_ast D = Z3_mk_add(C, sum.size(), sum.data()); Z3_ast o[2] = {Z3_mk_gt(C, D, num(tol)), Z3_mk_lt(C, D, num(-tol))};
    Z3_solver_assert(C, s, Z3_mk_or(C, 2, o)); Z3_lbool r = Z3_solver_check(C, s);
    Z3_solver_dec_ref(C, s); Z3_del_context(C);
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    ++gStats.queries; gStats.seconds += dt; gStats.maxq = std::max(gStats.maxq, dt);
    if (r == Z3_L_FALSE) { ++gStats.unsat; return 1; }
    ++gStats.sat;
  }
  // values for which the floating-point results differ visibly
  std::vector<E> all(pc.begin(), pc.end()); all.push_back(got); all.push_back(want); std::vector<uint32_t> vs; for (E e : all) for (uint32_t v : varsOf(e)) vs.push_back(v); std::sort(vs.begin(), vs.end()); vs.erase(std::unique(vs.begin(), vs.end()), vs.end());
  std::mt19937_64 rng(1);
  for (int it = 0; it < 400; ++it) {
    Model c; for (uint32_t v : vs) { unsigned w = varByIndex(v)->w; APInt a(w, 0); for (unsigned i = 0; i < w; i += 64) { APInt t = APInt(64, rng()).zextOrTrunc(w).shl(i); a |= t; } c.v[v] = a; }
    bool ok = true; for (E e : pc) if (evalModel(e, c).isZero()) { ok = false; break; } if (!ok) continue;
    if (!realNear(f, mkConst(evalModel(got, c)), mkConst(evalModel(want, c)))) { *m = c; return 0; }
  }
  if (getenv("VP_REAL")) { Poly d = p; Expand::acc(d, q, -1); fprintf(stderr, "undecided: big %d, %zu and %zu terms, %zu differ; mags %g %g\n", x.big, p.size(), q.size(), d.size(), x.mag(f, g1), x.mag(f, w1)); std::map<uint32_t, E> leaves; for (auto& k : x.memo) leaves[k.first->id] = k.first; int n = 0; for (auto& t : d) { fprintf(stderr, " %g *", t.second); for (uint32_t l : t.first) fprintf(stderr, " [%s]", leaves.count(l) ? toString(leaves[l], 5).substr(0, 300).c_str() : "?"); fprintf(stderr, "\n"); if (++n > 6) break; } }
  return -1;
}
}  // namespace vp
