// Floating-point operations as bit-vector circuits: conversions, rounding to integral values, addition, and multiplication by
// powers of two. Products, quotients, roots and fused operations stay floating-point nodes unless asked for.
#include "expr.h"
#include <unordered_map>
#include <vector>
namespace vp {
namespace {
struct Fmt { unsigned f, w, m, eb, bias, emax; };
Fmt fm(unsigned f) { Fmt r; r.f = f; r.w = fmtWidth(f); r.m = fmtMant(f); r.eb = r.w - 1 - r.m; r.bias = (1u << (r.eb - 1)) - 1; r.emax = (1u << r.eb) - 1; return r; }
E sgn(E x) { return mkExtract(x, x->w - 1, 1); }
constexpr unsigned EW = 16;  // exponent arithmetic, signed
E C16(int v) { return mkCS(EW, v); }
E expo(const Fmt& F, E x) { return mkExtract(x, F.m, F.eb); }
E mant(const Fmt& F, E x) { return mkExtract(x, 0, F.m); }
E fit(E s, unsigned w) { return s->w >= w ? mkIte(s->w > w && true ? mkEq(mkExtract(s, w, s->w - w), mkC(s->w - w, 0)) : mkBool(true), mkExtract(s, 0, w), mkOnes(w)) : mkZExt(s, w); }
// shift right by s, bits shifted out are ORed into the lowest bit
E shrSticky(E x, E s) {
  E a = fit(s, x->w), r = mkLShr(x, a), lost = mkNot(mkEq(mkShl(r, a), x));
  return mkConcat2(mkExtract(r, 1, x->w - 1), mkOr(mkExtract(r, 0, 1), lost));
}
E shl(E x, E s) { return mkShl(x, fit(s, x->w)); }
// left-normalised x and the number of leading zeros (EW bits); zero stays zero
E normLeft(E x, E& lz) {
  E l = mkCtlz(x);
  lz = mkIte(mkEq(x, mkC(x->w, 0)), C16(0), mkZExtOrTrunc(l, EW));
  return mkShl(x, l);
}
// sig: leading bit at the top (or zero); value = sig / 2^(width-1) * 2^(be - bias)
E packRound(const Fmt& F, E s, E be, E sig, unsigned rm) {
  unsigned need = F.m + 3;
  if (sig->w < need) sig = mkConcat2(sig, mkC(need - sig->w, 0));
  E low = mkSlt(be, C16(1));
  E sh = mkIte(low, mkSub(C16(1), be), C16(0));
  if (!isC(low) || isTrue(low)) sig = shrSticky(sig, mkIte(mkSlt(C16((int)F.m + 3), sh), C16((int)F.m + 3), sh));
  unsigned L = sig->w, r0 = L - (F.m + 1);
  E mn = mkExtract(sig, r0, F.m + 1), g = mkExtract(sig, r0 - 1, 1), st = r0 > 1 ? mkNot(mkEq(mkExtract(sig, 0, r0 - 1), mkC(r0 - 1, 0))) : mkBool(false);
  E any = mkOr(g, st), inc;
  switch (rm) { case RTZ: inc = mkBool(false); break; case RUP: inc = mkAnd(mkNot(s), any); break; case RDN: inc = mkAnd(s, any); break; default: inc = mkAnd(g, mkOr(st, mkExtract(mn, 0, 1))); }
  E huge = mkSle(C16(F.emax), be);
  unsigned W = F.w - 1;
  E base = mkIte(low, mkC(F.eb, 0), mkExtract(mkSub(be, C16(1)), 0, F.eb));
  E r = mkAdd(mkConcat2(base, mkC(F.m, 0)), mkAdd(mkZExt(mn, W), mkZExt(inc, W)));
  E inf = mkConst(APInt::getBitsSet(W, F.m, W));
  E mx = mkConst(APInt::getBitsSet(W, F.m, W) - 1);
  E ovf = rm == RTZ ? mx : rm == RUP ? mkIte(s, mx, inf) : rm == RDN ? mkIte(s, inf, mx) : inf;
  r = mkIte(huge, ovf, r);
  r = mkIte(mkEq(sig, mkC(L, 0)), mkC(W, 0), r);
  return mkConcat2(s, r);
}
// significand normalised (leading bit at the top) and matching biased exponent; zero gives zero
E unpackNorm(const Fmt& F, E x, E& be) {
  E e = expo(F, x), den = mkEq(e, mkC(F.eb, 0));
  E sig = mkConcat2(mkNot(den), mant(F, x)), lz, n = normLeft(sig, lz);
  be = mkSub(mkIte(den, C16(1), mkZExt(e, EW)), lz);
  return n;
}
E nanOf(const Fmt& F, E e) {
  std::vector<E> k; for (unsigned i = 0; i < e->nk; ++i) k.push_back(e->kid(i));
  E u = mkUF(std::string("nan_") + kOpNames[e->op] + "_" + std::to_string(e->a) + "_" + std::to_string(e->b), F.w, k);
  return mkOr(u, mkConst(APInt::getBitsSet(F.w, F.m - 1, F.w - 1)));
}
E infOf(const Fmt& F, E s) { return mkConcat2(s, mkConst(APInt::getBitsSet(F.w - 1, F.m, F.w - 1))); }
E intToF(const Fmt& F, E s, E a, unsigned rm) {  // magnitude a
  E lz, n = normLeft(a, lz);
  return packRound(F, s, mkSub(C16((int)F.bias + (int)a->w - 1), lz), n, rm);
}
E rint(const Fmt& F, E x, unsigned rm, E e) {
  E ex = expo(F, x), s = sgn(x), m = mkExtract(x, 0, F.w - 1); unsigned W = F.w - 1;
  E one = mkConst(APInt(W, F.bias).shl(F.m));
  E small = mkUlt(ex, mkC(F.eb, F.bias)), big = mkUle(mkC(F.eb, F.bias + F.m), ex);
  // fraction bits: m - (e - bias), in 1..m when neither small nor big
  E fb = mkSub(mkC(F.eb, F.bias + F.m), ex);
  unsigned n = 1; while ((1u << n) <= F.m) ++n;
  E s5 = mkZExt(mkExtract(fb, 0, std::min(n, F.eb)), W);
  E unit = shl(mkC(W, 1), mkExtract(s5, 0, n)), mask = mkSub(unit, mkC(W, 1));
  E low = mkAnd(m, mask), t = mkAnd(m, mkNot(mask)), frac = mkNot(mkEq(low, mkC(W, 0))), up;
  switch (rm) {
    case RTZ: up = mkBool(false); break; case RUP: up = mkAnd(mkNot(s), frac); break; case RDN: up = mkAnd(s, frac); break;
    default: { E half = mkZExt(mkExtract(unit, 1, W - 1), W); E odd = mkNot(mkEq(mkAnd(m, unit), mkC(W, 0))); up = mkOr(mkUlt(half, low), mkAnd(mkEq(half, low), odd)); }
  }
  E r = mkIte(up, mkAdd(t, unit), t);
  E nz = mkNot(mkEq(m, mkC(W, 0))), upS;
  switch (rm) { case RTZ: upS = mkBool(false); break; case RUP: upS = mkAnd(mkNot(s), nz); break; case RDN: upS = mkAnd(s, nz); break; default: upS = mkUlt(mkConst(APInt(W, F.bias - 1).shl(F.m)), m); }
  r = mkIte(small, mkIte(upS, one, mkC(W, 0)), mkIte(big, m, r));
  return mkIte(fIsNan(F.f, x), nanOf(F, e), mkConcat2(s, r));
}
E fToI(const Fmt& F, E x, unsigned w, bool sg) {  // toward zero, meaningful in range only
  E ex = expo(F, x), sig = mkConcat2(mkNot(mkEq(ex, mkC(F.eb, 0))), mant(F, x));
  unsigned K = w + F.m + 1; E wide = mkZExt(sig, K);
  E sh = mkSub(mkZExt(ex, EW), C16(F.bias));
  unsigned n = 1; while ((1u << n) < w + 1) ++n;
  E v = mkExtract(shl(wide, mkExtract(sh, 0, n)), F.m, w);
  v = mkIte(mkUlt(ex, mkC(F.eb, F.bias)), mkC(w, 0), v);
  return mkIte(sgn(x), mkNeg(v), v);
}
E cvt(const Fmt& F, const Fmt& G, E x, unsigned rm, E e) {
  E be, n = unpackNorm(F, x, be); E s = sgn(x);
  E r = packRound(G, s, mkAdd(be, C16((int)G.bias - (int)F.bias)), n, rm);
  r = mkIte(fIsInf(F.f, x), infOf(G, s), r);
  return mkIte(fIsNan(F.f, x), nanOf(G, e), r);
}
E add(const Fmt& F, E x, E y, unsigned rm, E e) {
  unsigned W = F.w - 1;
  E mx = mkExtract(x, 0, W), my = mkExtract(y, 0, W), sw = mkUlt(mx, my);
  E a = mkIte(sw, y, x), b = mkIte(sw, x, y), sa = sgn(a), sb = sgn(b), sub = mkXor(sa, sb);
  E ea = expo(F, a), eb = expo(F, b), da = mkEq(ea, mkC(F.eb, 0)), db = mkEq(eb, mkC(F.eb, 0));
  unsigned L = F.m + 4;
  E ga = mkConcat({mkNot(da), mant(F, a), mkC(3, 0)}), gb = mkConcat({mkNot(db), mant(F, b), mkC(3, 0)});
  E xa = mkIte(da, mkC(F.eb, 1), ea), xb = mkIte(db, mkC(F.eb, 1), eb);
  gb = shrSticky(gb, mkSub(xa, xb));
  E sum = mkIte(sub, mkSub(mkZExt(ga, L + 1), mkZExt(gb, L + 1)), mkAdd(mkZExt(ga, L + 1), mkZExt(gb, L + 1)));
  E lz, n = normLeft(sum, lz), z = mkEq(sum, mkC(L + 1, 0));
  E s = mkIte(z, mkIte(sub, mkBool(rm == RDN), sa), sa);
  E r = packRound(F, s, mkSub(mkAdd(mkZExt(xa, EW), C16(1)), lz), n, rm);
  E ia = fIsInf(F.f, a);
  r = mkIte(ia, a, r);
  E nan = mkOr(fUno(F.f, x, y), mkAnd(mkAnd(fIsInf(F.f, x), fIsInf(F.f, y)), sub));
  return mkIte(nan, nanOf(F, e), r);
}
bool pow2ish(const Fmt& F, E x) { E m = mant(F, x); return isZero(m); }
E mulPow2(const Fmt& F, E x, E p, unsigned rm, E e) {
  E s = mkXor(sgn(x), sgn(p)), ep = expo(F, p), be, n = unpackNorm(F, x, be);
  E r = packRound(F, s, mkSub(mkAdd(be, mkZExt(ep, EW)), C16(F.bias)), n, rm);
  E pz = mkEq(ep, mkC(F.eb, 0)), pi = mkEq(ep, mkOnes(F.eb)), xz = fIsZero(F.f, x), xi = fIsInf(F.f, x);
  r = mkIte(mkOr(pz, xz), mkConcat2(s, mkC(F.w - 1, 0)), r);
  r = mkIte(mkOr(pi, xi), infOf(F, s), r);
  E nan = mkOr(fIsNan(F.f, x), mkOr(mkAnd(pi, xz), mkAnd(pz, xi)));
  return mkIte(nan, nanOf(F, e), r);
}
E mulGen(const Fmt& F, E x, E y, unsigned rm, E e) {
  E bx, by, nx = unpackNorm(F, x, bx), ny = unpackNorm(F, y, by), s = mkXor(sgn(x), sgn(y)); unsigned P = 2 * (F.m + 1);
  E pr = mkMul(mkZExt(nx, P), mkZExt(ny, P)), t = mkExtract(pr, P - 1, 1);
  E n = mkIte(t, pr, mkConcat2(mkExtract(pr, 0, P - 1), mkC(1, 0)));
  E r = packRound(F, s, mkAdd(mkSub(mkAdd(bx, by), C16(F.bias)), mkZExt(t, EW)), n, rm);
  E xz = fIsZero(F.f, x), yz = fIsZero(F.f, y), xi = fIsInf(F.f, x), yi = fIsInf(F.f, y);
  r = mkIte(mkOr(xi, yi), infOf(F, s), r);
  E nan = mkOr(fUno(F.f, x, y), mkOr(mkAnd(xi, yz), mkAnd(yi, xz)));
  return mkIte(nan, nanOf(F, e), r);
}
}  // namespace
// full: products as well
static std::unordered_map<E, E> gLow[2];
E fpLower(E root, bool full) {
  auto& memo = gLow[full];
  std::vector<std::pair<E, unsigned>> st{{root, 0}};
  while (!st.empty()) {
    E e = st.back().first; unsigned& i = st.back().second;
    if (memo.count(e)) { st.pop_back(); continue; }
    if (i < e->nk) { E k = e->kid(i++); if (!memo.count(k)) st.push_back({k, 0}); continue; }
    st.pop_back();
    if (!e->nk) { memo[e] = e; continue; }
    std::vector<E> k; bool ch = false; for (unsigned j = 0; j < e->nk; ++j) { k.push_back(memo[e->kid(j)]); ch |= k[j] != e->kid(j); }
    E n = ch ? rebuildNode(e, k) : e, r = n;
    switch (n->op) {
      case FRINT: r = rint(fm(n->a), n->kid(0), n->b, n); break;
      case FTOSI: case FTOUI: {
        Fmt F = fm(n->a); E x = n->kid(0);
        if (n->b != RTZ) x = rint(F, x, n->b, fRint(n->a, x, n->b)->op == FRINT ? fRint(n->a, x, n->b) : n);
        r = fToI(F, x, n->w, n->op == FTOSI); break;
      }
      case SITOF: { E x = n->kid(0), s = sgn(x); r = intToF(fm(n->a), s, mkIte(s, mkNeg(x), x), n->b); break; }
      case UITOF: r = intToF(fm(n->a), mkBool(false), n->kid(0), n->b); break;
      case FCVT: r = cvt(fm(n->a), fm(n->b & 15), n->kid(0), n->b >> 4, n); break;
      case FADD: r = add(fm(n->a), n->kid(0), n->kid(1), n->b, n); break;
      case FMUL: { Fmt F = fm(n->a); if (pow2ish(F, n->kid(1))) r = mulPow2(F, n->kid(0), n->kid(1), n->b, n); else if (pow2ish(F, n->kid(0))) r = mulPow2(F, n->kid(1), n->kid(0), n->b, n); else if (full) r = mulGen(F, n->kid(0), n->kid(1), n->b, n); break; }
      default: break;
    }
    memo[e] = r;
  }
  return memo[root];
}
}  // namespace vp
