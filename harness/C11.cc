// C11: floating-point lane operations against IEEE-754.
#include "../lib/vec.h"
namespace { namespace H {
template <class T> static inline T Sq(T x) { if constexpr (sizeof(T) == 4) return __builtin_sqrtf(x); else return __builtin_sqrt(x); }
template <class T> static inline T Fma(T a, T b, T c) { if constexpr (sizeof(T) == 4) return __builtin_fmaf(a, b, c); else return __builtin_fma(a, b, c); }
// multiply-add: one rounding where the target has the instruction, two otherwise
template <class T> static inline T MA(T a, T b, T c) {
#if HWY_NATIVE_FMA
  return Fma(a, b, c);
#else
  volatile T p = a * b; return p + c;
#endif
}
template <class T> static inline MakeUnsigned<T> Bits(T x) { MakeUnsigned<T> b; memcpy(&b, &x, sizeof b); return b; }
template <class T> static inline T From(MakeUnsigned<T> b) { T x; memcpy(&x, &b, sizeof b); return x; }
template <class T> constexpr int MB() { return sizeof(T) == 4 ? 23 : 52; }
// rounding to integral values from the bit pattern; mode 0 nearest even, 1 toward zero, 2 up, 3 down
template <class T> static inline T Rnd(T x, int mode) {
  using U = MakeUnsigned<T>; constexpr int M = MB<T>(), W = sizeof(T) * 8; constexpr U bias = (U)(((U)1 << (W - 2 - M)) - 1); const U b = Bits(x), sg = b >> (W - 1) << (W - 1), m = b ^ sg, e = m >> M, one = bias << M;
  const bool neg = sg != 0; const U frac = bias + M - e; // bits below the unit, when bias <= e < bias + M
  const U s = e < bias ? M : e >= bias + M ? 0 : frac; const U low = m & (((U)1 << s) - 1), t = m - low, half = s ? (U)1 << (s - 1) : 0;
  bool up = mode == 2 ? !neg && low : mode == 3 ? neg && low : mode == 0 ? low > half || (low == half && low && (t >> s & 1)) : false;
  U r = up ? t + ((U)1 << s) : t;
  if (e < bias) { up = mode == 2 ? !neg && m : mode == 3 ? neg && m : mode == 0 ? m > one - ((U)1 << M) : false; r = up ? one : 0; }
  if (e >= bias + M) r = m;
  return From<T>(r | sg);
}
VP_OP2(FAdd, Add(a, b), x + y)
VP_OP2(FSub, Sub(a, b), x - y)
VP_OP2(FMul, Mul(a, b), x * y)
VP_OP2(FDiv, Div(a, b), x / y)
VP_OP1(FSqrt, Sqrt(a), Sq(x))
VP_OP1(FNeg, Neg(a), From<T>(Bits(x) ^ (U)((U)1 << (sizeof(T) * 8 - 1))))
VP_OP1(FAbs, Abs(a), From<T>(Bits(x) & (U)~((U)1 << (sizeof(T) * 8 - 1))))
VP_OP2(FAbsDiff, AbsDiff(a, b), From<T>(Bits((T)(x - y)) & (U)~((U)1 << (sizeof(T) * 8 - 1))))
VP_P2(FCopySign, 0, CopySign(a, b), From<T>((Bits(A.v[i]) & (U)~((U)1 << (sizeof(T) * 8 - 1))) | (Bits(B.v[i]) & ((U)1 << (sizeof(T) * 8 - 1)))))
VP_P2(FCopySignToAbs, 0, CopySignToAbs(Abs(a), b), From<T>((Bits(A.v[i]) & (U)~((U)1 << (sizeof(T) * 8 - 1))) | (Bits(B.v[i]) & ((U)1 << (sizeof(T) * 8 - 1)))))
VP_OP3(FMulAdd, MulAdd(a, b, c), MA<T>(x, y, z))
VP_OP3(FNegMulAdd, NegMulAdd(a, b, c), MA<T>(-x, y, z))
VP_OP3(FMulSub, MulSub(a, b, c), MA<T>(x, y, -z))
VP_OP3(FNegMulSub, NegMulSub(a, b, c), MA<T>(-x, y, -z))
VP_OP3(FMulAddSub, MulAddSub(a, b, c), MA<T>(x, y, i & 1 ? z : -z))
VP_OP3(FMulSubAdd, MulSubAdd(a, b, c), MA<T>(x, y, i & 1 ? -z : z))
VP_OP2(FAddSub, AddSub(a, b), i & 1 ? x + y : x - y)
// the sign of a zero result is not specified
template <class T> static inline T Z(T x) { return x == 0 ? (T)0 : x; }
#define VP_RND(NAME, EXPR, SPEC) template <class D> static inline void NAME(D d) { (void)d; using T = TFromD<D>; constexpr size_t N = MaxLanes(D()); VpB<D> A, G; T W[N]; A.sym("a"); auto a = A.load(); G.store(EXPR); for (size_t i = 0; i < N; ++i) { T x = A.v[i]; W[i] = Z(SPEC); G.v[i] = Z(G.v[i]); } VpCheck(G.v, W, N, #NAME); }
VP_RND(FRound, Round(a), Rnd<T>(x, 0))
VP_RND(FTrunc, Trunc(a), Rnd<T>(x, 1))
VP_RND(FCeil, Ceil(a), Rnd<T>(x, 2))
VP_RND(FFloor, Floor(a), Rnd<T>(x, 3))
template <class D> static inline void FClass(D d) { (void)d; using T = TFromD<D>; constexpr size_t N = MaxLanes(D()); VpB<D> A, B; A.sym("a"); B.sym("b"); auto a = A.load(), b = B.load(); u8 g[N], w[N]; using U = MakeUnsigned<T>; constexpr U mx = (U)~((U)1 << (sizeof(T) * 8 - 1)), inf = (U)(mx >> MB<T>() << MB<T>());
#define CL(EXPR, SPEC, NAME) VpStoreMask(D(), EXPR, g); for (size_t i = 0; i < N; ++i) { const U x = Bits(A.v[i]) & mx, y = Bits(B.v[i]) & mx; (void)y; w[i] = SPEC; } vp_check_eq(g, w, N, 1, NAME);
  CL(IsNaN(a), x > inf, "IsNaN") CL(IsEitherNaN(a, b), (x > inf) | (y > inf), "IsEitherNaN") CL(IsInf(a), x == inf, "IsInf") CL(IsFinite(a), x < inf, "IsFinite")
}
// normal values only: the result for zero, subnormals, infinities and NaN depends on the target
template <class D> static inline void FExp(D d) { (void)d; using T = TFromD<D>; using U = MakeUnsigned<T>; constexpr size_t N = MaxLanes(D()); VpB<D> A, G; VpB<RebindToUnsigned<D>> GU; T W[N]; U WU[N]; A.sym("a"); constexpr U mx = (U)~((U)1 << (sizeof(T) * 8 - 1)); constexpr int M = MB<T>();
  GU.store(GetBiasedExponent(A.load())); for (size_t i = 0; i < N; ++i) WU[i] = (Bits(A.v[i]) & mx) >> M; VpCheckBits(GU.v, WU, N, "GetBiasedExponent");
  for (size_t i = 0; i < N; ++i) { const U e = (Bits(A.v[i]) & mx) >> M; vp_assume((e != 0) & (e != mx >> M)); W[i] = (T)(MakeSigned<T>)(e - (mx >> M >> 1)); } G.store(GetExponent(A.load())); VpCheck(G.v, W, N, "GetExponent"); }
VP_F32F64(FAdd) VP_F32F64(FSub) VP_F32F64(FMul) VP_F32F64(FDiv) VP_F32F64(FSqrt) VP_F32F64(FNeg) VP_F32F64(FAbs) VP_F32F64(FCopySign) VP_F32F64(FCopySignToAbs)
VP_F32F64(FMulAdd) VP_F32F64(FNegMulAdd) VP_F32F64(FMulSub) VP_F32F64(FNegMulSub) VP_F32F64(FAbsDiff)
#if HWY_TARGET != HWY_SCALAR
VP_F32F64(FMulAddSub) VP_F32F64(FMulSubAdd) VP_F32F64(FAddSub)
#endif
VP_F32F64(FRound) VP_F32F64(FTrunc) VP_F32F64(FCeil) VP_F32F64(FFloor) VP_F32F64(FClass) VP_F32F64(FExp)
} }
