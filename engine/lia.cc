// Linear integer view of a query: modular sums become integer sums with explicit carries, multiplications, quotients and
// remainders by constants become linear constraints; everything else is an integer variable of the right range. The view
// over-approximates, so unsatisfiable here implies unsatisfiable; a model is only a candidate.
#include "solver.h"
#include <unordered_map>
#include <z3.h>
#include "llvm/ADT/SmallString.h"
namespace vp {
namespace {
constexpr unsigned B = 400;
struct Lia {
  Z3_context C; Z3_solver S;
  struct V { Z3_ast x; APInt lo, hi; };
  std::unordered_map<E, V> mv; std::unordered_map<E, Z3_ast> mb; unsigned fresh = 0; bool any = false;
  std::unordered_map<E, Z3_ast> vars;
  Z3_ast num(const APInt& v) { llvm::SmallString<64> s; v.toString(s, 10, true); return Z3_mk_numeral(C, s.c_str(), Z3_mk_int_sort(C)); }
  Z3_ast num(int64_t v) { return Z3_mk_int64(C, v, Z3_mk_int_sort(C)); }
  static APInt p2(unsigned k) { return APInt::getOneBitSet(B, k); }
  static APInt cap(unsigned w) { return p2(w) - 1; }
  Z3_ast add(Z3_ast a, Z3_ast b) { Z3_ast k[2] = {a, b}; return Z3_mk_add(C, 2, k); }
  Z3_ast sub(Z3_ast a, Z3_ast b) { Z3_ast k[2] = {a, b}; return Z3_mk_sub(C, 2, k); }
  Z3_ast mul(const APInt& c, Z3_ast b) { if (c.isOne()) return b; Z3_ast k[2] = {num(c), b}; return Z3_mk_mul(C, 2, k); }
  Z3_ast var() { return Z3_mk_fresh_const(C, "i", Z3_mk_int_sort(C)); }
  void assume(Z3_ast a) { Z3_solver_assert(C, S, a); }
  V range(const APInt& lo, const APInt& hi) { if (lo == hi) return {num(lo), lo, hi}; Z3_ast v = var(); assume(Z3_mk_le(C, num(lo), v)); assume(Z3_mk_le(C, v, num(hi))); return {v, lo, hi}; }
  // x mod 2^w for an integer with known bounds
  V wrap(Z3_ast x, APInt lo, APInt hi, unsigned w) {
    if (!lo.isNegative() && hi.sle(cap(w))) return {x, lo, hi};
    APInt m = p2(w), kl = lo.ashr(w), kh = hi.ashr(w);
    if (kl == kh) return {sub(x, num(kl.shl(w))), lo - kl.shl(w), hi - kl.shl(w)};
    V k = range(kl, kh), v = range(APInt(B, 0), cap(w));
    assume(Z3_mk_eq(C, x, add(mul(m, k.x), v.x)));
    return v;
  }
  // x = c q + r
  void divide(V x, const APInt& c, V& q, V& r) {
    if (x.hi.ult(c)) { q = {num(0), APInt(B, 0), APInt(B, 0)}; r = x; return; }
    q = range(x.lo.udiv(c), x.hi.udiv(c)); r = range(APInt(B, 0), c - 1); any = true;
    assume(Z3_mk_eq(C, x.x, add(mul(c, q.x), r.x)));
  }
  std::unordered_map<E, std::unordered_map<unsigned, std::pair<V, V>>> splits;  // per node: quotient and remainder at 2^pos
  std::pair<V, V> split(E e, unsigned pos) {
    auto& m = splits[e]; auto it = m.find(pos); if (it != m.end()) return it->second;
    V q, r; divide(i(e), p2(pos), q, r); return splits[e][pos] = {q, r};
  }
  V opaque(E e) { return range(APInt(B, 0), cap(e->w)); }
  V i(E e) {
    auto it = mv.find(e); if (it != mv.end()) return it->second;
    V v = mk(e); mv[e] = v; return v;
  }
  V mk(E e) {
    if (e->w > 130) return opaque(e);
    switch (e->op) {
      case CONST: { APInt c = e->c.zext(B); return {num(c), c, c}; }
      case VAR: if (e->w > 1) { V v = opaque(e); vars[e] = v.x; return v; } break;
      case ADD: {
        V a = i(e->kid(0)), b = i(e->kid(1));
        // adding a constant with the top bit set is a subtraction
        if (isC(e->kid(1)) && e->kid(1)->c.isNegative()) { APInt c = e->kid(1)->c.sext(B); return wrap(add(a.x, num(c)), a.lo + c, a.hi + c, e->w); }
        return wrap(add(a.x, b.x), a.lo + b.lo, a.hi + b.hi, e->w);
      }
      case SUB: { V a = i(e->kid(0)), b = i(e->kid(1)); return wrap(sub(a.x, b.x), a.lo - b.hi, a.hi - b.lo, e->w); }
      case MUL: {
        E a = e->kid(0), b = e->kid(1); if (isC(a)) std::swap(a, b); if (!isC(b)) return opaque(e);
        any = true; V x = i(a);
        APInt c = b->c.zext(B); if (b->c.isNegative() && (-b->c).ult(b->c) && (-b->c).getActiveBits() < 40) c = b->c.sext(B);
        APInt l = x.lo * c, h = x.hi * c; if (l.sgt(h)) std::swap(l, h);
        return wrap(mul(c, x.x), l, h, e->w);
      }
      case UDIV: case UREM: { if (!isC(e->kid(1)) || isZero(e->kid(1))) return opaque(e); V q, r; divide(i(e->kid(0)), e->kid(1)->c.zext(B), q, r); return e->op == UDIV ? q : r; }
      case CONCAT: {
        V s{nullptr, APInt(B, 0), APInt(B, 0)}; unsigned at = 0;
        for (unsigned j = e->nk; j-- > 0;) { E k = e->kid(j); V x = i(k); if (!(isC(k) && k->c.isZero())) { Z3_ast t = mul(p2(at), x.x); s.x = s.x ? add(s.x, t) : t; s.lo += x.lo.shl(at); s.hi += x.hi.shl(at); } at += k->w; }
        return s.x ? s : V{num(0), APInt(B, 0), APInt(B, 0)};
      }
      case EXTRACT: {
        E k = e->kid(0); if (k->w > 130) return opaque(e);
        V hi = e->a ? split(k, e->a).first : i(k);
        if (e->a + e->w == k->w || hi.hi.sle(cap(e->w))) return hi;
        if (e->a == 0) return split(k, e->w).second;
        V q, r; divide(hi, p2(e->w), q, r); return r;
      }
      case SEXT: {
        E k = e->kid(0); V x = i(k); APInt c = p2(e->w) - p2(k->w);
        return {Z3_mk_ite(C, Z3_mk_ge(C, x.x, num(p2(k->w - 1))), add(x.x, num(c)), x.x), APInt(B, 0), cap(e->w)};
      }
      case ITE: if (e->w > 1) { V a = i(e->kid(1)), b = i(e->kid(2)); return {Z3_mk_ite(C, b_(e->kid(0)), a.x, b.x), a.lo.slt(b.lo) ? a.lo : b.lo, a.hi.sgt(b.hi) ? a.hi : b.hi}; } break;
      default: break;
    }
    if (e->w == 1) return {Z3_mk_ite(C, b_(e), num(1), num(0)), APInt(B, 0), APInt(B, 1)};
    return opaque(e);
  }
  Z3_ast sgn(E e) { V x = i(e); return Z3_mk_ite(C, Z3_mk_ge(C, x.x, num(p2(e->w - 1))), sub(x.x, num(p2(e->w))), x.x); }
  Z3_ast b_(E e) {
    auto it = mb.find(e); if (it != mb.end()) return it->second;
    Z3_ast r = mkB(e); mb[e] = r; return r;
  }
  Z3_ast mkB(E e) {
    if (isC(e)) return isTrue(e) ? Z3_mk_true(C) : Z3_mk_false(C);
    auto two = [&](auto f) { Z3_ast a[2] = {b_(e->kid(0)), b_(e->kid(1))}; return f(C, 2, a); };
    switch (e->op) {
      case EQ: if (e->kid(0)->w == 1) return Z3_mk_iff(C, b_(e->kid(0)), b_(e->kid(1))); return Z3_mk_eq(C, i(e->kid(0)).x, i(e->kid(1)).x);
      case ULT: return Z3_mk_lt(C, i(e->kid(0)).x, i(e->kid(1)).x);
      case ULE: return Z3_mk_le(C, i(e->kid(0)).x, i(e->kid(1)).x);
      case SLT: return Z3_mk_lt(C, sgn(e->kid(0)), sgn(e->kid(1)));
      case SLE: return Z3_mk_le(C, sgn(e->kid(0)), sgn(e->kid(1)));
      case AND: return two(Z3_mk_and); case OR: return two(Z3_mk_or);
      case XOR: return Z3_mk_xor(C, b_(e->kid(0)), b_(e->kid(1)));
      case ITE: return Z3_mk_ite(C, b_(e->kid(0)), b_(e->kid(1)), b_(e->kid(2)));
      case EXTRACT: if (e->kid(0)->w <= 130) {
        E k = e->kid(0); if (e->a + 1 == k->w) return Z3_mk_ge(C, i(k).x, num(p2(e->a)));
        V hi = e->a ? split(k, e->a).first : i(k); V q, r; divide(hi, p2(1), q, r); return Z3_mk_eq(C, r.x, num(1));
      } break;
      default: break;
    }
    if (e->op == VAR) { Z3_ast v = Z3_mk_fresh_const(C, "b", Z3_mk_bool_sort(C)); vars[e] = v; return v; }
    return Z3_mk_fresh_const(C, "b", Z3_mk_bool_sort(C));
  }
};
bool wants(E root, std::unordered_map<E, bool>& m) {
  auto it = m.find(root); if (it != m.end()) return it->second;
  bool r = false; m[root] = false;
  for (unsigned i = 0; i < root->nk && !r; ++i) r = wants(root->kid(i), m);
  if (!r && root->w >= 12) {
    if (root->op == MUL) { for (unsigned i = 0; i < 2; ++i) if (isC(root->kid(i)) && root->kid(i)->c.popcount() > 2) r = true; }
    if ((root->op == UDIV || root->op == UREM) && isC(root->kid(1))) r = true;
  }
  return m[root] = r;
}
}  // namespace
bool liaWants(llvm::ArrayRef<E> conj) { std::unordered_map<E, bool> m; if (dagSize(conj) > 4000) return false; for (E e : conj) if (wants(e, m)) return true; return false; }
Res solveLia(llvm::ArrayRef<E> conj, Model* m, unsigned timeoutMs) {
  Z3_config cfg = Z3_mk_config(); Z3_context C = Z3_mk_context(cfg); Z3_del_config(cfg);
  Z3_set_error_handler(C, [](Z3_context, Z3_error_code) {});
  Z3_solver s = Z3_mk_solver(C); Z3_solver_inc_ref(C, s);
  Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p); Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), timeoutMs); Z3_solver_set_params(C, s, p);
  Lia l; l.C = C; l.S = s;
  for (E e : conj) { Z3_ast a = l.b_(e); l.assume(a); }
  Z3_lbool r = Z3_solver_check(C, s);
  if (Z3_get_error_code(C) != Z3_OK) r = Z3_L_UNDEF;
  gStats.queries++;
  Res res = r == Z3_L_TRUE ? Res::SAT : r == Z3_L_FALSE ? Res::UNSAT : Res::UNKNOWN;
  if (res == Res::SAT && m) {
    m->v.clear(); Z3_model mo = Z3_solver_get_model(C, s); Z3_model_inc_ref(C, mo);
    for (auto& v : l.vars) {
      Z3_ast out; APInt x(v.first->w, 0);
      if (Z3_model_eval(C, mo, v.second, true, &out)) { if (v.first->w == 1) x = APInt(1, Z3_get_bool_value(C, out) == Z3_L_TRUE); else if (Z3_get_ast_kind(C, out) == Z3_NUMERAL_AST) x = APInt(v.first->w, Z3_get_numeral_string(C, out), 10); }
      m->v[v.first->a] = x;
    }
    Z3_model_dec_ref(C, mo);
  }
  if (res == Res::UNSAT) gStats.unsat++; else if (res == Res::SAT) gStats.sat++; else gStats.unknown++;
  Z3_params_dec_ref(C, p); Z3_solver_dec_ref(C, s); Z3_del_context(C);
  return res;
}
}  // namespace vp
