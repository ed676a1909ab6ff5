// C08: masked operations: the unmasked result in selected lanes, the documented fallback elsewhere.
#include "../lib/vec.h"
namespace { namespace H {
#define MKD(NAME, PRE, DOUT, MASKED, PLAIN, FALLBACK) \
  template <class D> static inline void NAME(D d) { using T = TFromD<D>; constexpr size_t N = MaxLanes(D()); (void)N; using DO = DOUT; const DO dw; (void)dw; using TO = TFromD<DO>; constexpr size_t M = MaxLanes(DO()); VpB<D> A, B, C; VpB<DO> NO, G, R; TO W[M]; VpM<DO> K; \
    A.sym("a"); B.sym("b"); C.sym("c"); NO.sym("no"); K.sym("mask"); PRE; auto a = A.load(); auto b = B.load(); auto c = C.load(); auto no = NO.load(); auto m = K.mask(); (void)a; (void)b; (void)c; (void)no; (void)m; \
    G.store(MASKED); R.store(PLAIN); TO zero; memset(&zero, 0, sizeof(TO)); for (size_t i = 0; i < M; ++i) { TO no_i = NO.v[i]; (void)no_i; W[i] = K.m[i] ? R.v[i] : (FALLBACK); } VpCheck(G.v, W, M, #NAME); }
#define MK(NAME, MASKED, PLAIN, FALLBACK) MKD(NAME, , D, MASKED, PLAIN, FALLBACK)
#define MKF(NAME, MASKED, PLAIN) MKD(NAME##Op, , D, MASKED, PLAIN, no_i) VP_F32F64(NAME##Op)
#define MKZF(NAME, MASKED, PLAIN) MKD(NAME##Op, , D, MASKED, PLAIN, zero) VP_F32F64(NAME##Op)
// selection
MK(KIfThenElse, hn::IfThenElse(m, a, no), a, no_i) VP_ALL(KIfThenElse)
MK(KIfThenElseZero, hn::IfThenElseZero(m, a), a, zero) VP_ALL(KIfThenElseZero)
MK(KIfThenZeroElse, hn::IfThenZeroElse(hn::Not(m), a), a, zero) VP_ALL(KIfThenZeroElse)
MK(KIfVecThenElse, hn::IfVecThenElse(hn::VecFromMask(d, m), a, no), a, no_i) VP_ALL(KIfVecThenElse)
MK(KMaskedSetOr, hn::MaskedSetOr(no, m, A.v[0]), hn::Set(d, A.v[0]), no_i) VP_ALL(KMaskedSetOr)
MK(KMaskedSet, hn::MaskedSet(d, m, A.v[0]), hn::Set(d, A.v[0]), zero) VP_ALL(KMaskedSet)
// arithmetic with a fallback vector
MK(KMinOr, hn::MaskedMinOr(no, m, a, b), hn::Min(a, b), no_i) VP_ALL(KMinOr)
MK(KMaxOr, hn::MaskedMaxOr(no, m, a, b), hn::Max(a, b), no_i) VP_ALL(KMaxOr)
MK(KAddOr, hn::MaskedAddOr(no, m, a, b), hn::Add(a, b), no_i) VP_ALL(KAddOr)
MK(KSubOr, hn::MaskedSubOr(no, m, a, b), hn::Sub(a, b), no_i) VP_ALL(KSubOr)
MK(KMulOr, hn::MaskedMulOr(no, m, a, b), hn::Mul(a, b), no_i) VP_ALL(KMulOr)
MK(KMulAddOr, hn::MaskedMulAddOr(no, m, a, b, c), hn::MulAdd(a, b, c), no_i) VP_ALL(KMulAddOr)
MK(KSatAddOr, hn::MaskedSatAddOr(no, m, a, b), hn::SaturatedAdd(a, b), no_i) VP_UI8(KSatAddOr) VP_UI16(KSatAddOr)
MK(KSatSubOr, hn::MaskedSatSubOr(no, m, a, b), hn::SaturatedSub(a, b), no_i) VP_UI8(KSatSubOr) VP_UI16(KSatSubOr)
MK(KAbsOr, hn::MaskedAbsOr(no, m, a), hn::Abs(a), no_i) VP_SIGNED(KAbsOr)
MKF(SqrtOr, hn::MaskedSqrtOr(no, m, a), hn::Sqrt(a)) MKF(DivOr, hn::MaskedDivOr(no, m, a, b), hn::Div(a, b))
// zero masked
MK(KAbs, hn::MaskedAbs(m, a), hn::Abs(a), zero) VP_SIGNED(KAbs)
MK(KMax, hn::MaskedMax(m, a, b), hn::Max(a, b), zero) VP_ALL(KMax)
MK(KAdd, hn::MaskedAdd(m, a, b), hn::Add(a, b), zero) VP_ALL(KAdd)
MK(KSub, hn::MaskedSub(m, a, b), hn::Sub(a, b), zero) VP_ALL(KSub)
MK(KMul, hn::MaskedMul(m, a, b), hn::Mul(a, b), zero) VP_ALL(KMul)
MK(KMulAdd, hn::MaskedMulAdd(m, a, b, c), hn::MulAdd(a, b, c), zero) VP_ALL(KMulAdd)
MK(KNegMulAdd, hn::MaskedNegMulAdd(m, a, b, c), hn::NegMulAdd(a, b, c), zero) VP_ALL(KNegMulAdd)
MK(KSatAdd, hn::MaskedSaturatedAdd(m, a, b), hn::SaturatedAdd(a, b), zero) VP_UI8(KSatAdd) VP_UI16(KSatAdd)
MK(KSatSub, hn::MaskedSaturatedSub(m, a, b), hn::SaturatedSub(a, b), zero) VP_UI8(KSatSub) VP_UI16(KSatSub)
MK(KMulFixed, hn::MaskedMulFixedPoint15(m, a, b), hn::MulFixedPoint15(a, b), zero) VP_TYPE_GOAL(KMulFixed, i16)
MKZF(Sqrt, hn::MaskedSqrt(m, a), hn::Sqrt(a)) MKZF(FDiv, hn::MaskedDiv(m, a, b), hn::Div(a, b)) MKZF(ApproxRsqrt, hn::MaskedApproximateReciprocalSqrt(m, a), hn::ApproximateReciprocalSqrt(a)) MKZF(ApproxRcp, hn::MaskedApproximateReciprocal(m, a), hn::ApproximateReciprocal(a))
MK(KOr, hn::MaskedOr(m, a, b), hn::Or(a, b), zero) VP_INT(KOr)
MK(KLzc, hn::MaskedLeadingZeroCount(m, a), hn::LeadingZeroCount(a), zero) VP_INT(KLzc)
// integer division: divisors of selected lanes are nonzero and the quotient representable; unselected lanes are arbitrary
#define DIVPRE for (size_t i = 0; i < N; ++i) { bool z = B.v[i] == 0, o = hwy::IsSigned<T>() & (A.v[i] == LimitsMin<T>()) & (B.v[i] == (T)-1); vp_assume(!(K.m[i] & (z | o))); }
#if HWY_TARGET != HWY_EMU128  // there, every lane branches on the divisor
MKD(KIDivOr, DIVPRE, D, hn::MaskedDivOr(no, m, a, b), hn::Div(a, b), no_i) VP_INT(KIDivOr)
MKD(KIDiv, DIVPRE, D, hn::MaskedDiv(m, a, b), hn::Div(a, b), zero) VP_INT(KIDiv)
MKD(KIModOr, DIVPRE, D, hn::MaskedModOr(no, m, a, b), hn::Mod(a, b), no_i) VP_INT(KIModOr)
#endif
// shifts
#define KSH(K) MK(KShl##K, hn::MaskedShiftLeft<K>(m, a), hn::ShiftLeft<K>(a), zero) MK(KShr##K, hn::MaskedShiftRight<K>(m, a), hn::ShiftRight<K>(a), zero) MK(KShrOr##K, hn::MaskedShiftRightOr<K>(no, m, a), hn::ShiftRight<K>(a), no_i)
KSH(0) KSH(1) KSH(3) KSH(7) KSH(15) KSH(31) KSH(63) KSH(12) KSH(24) KSH(47)
#define KSHI(K, L) L(KShl##K) L(KShr##K) L(KShrOr##K)
KSHI(0, VP_INT) KSHI(1, VP_INT) KSHI(3, VP_INT) KSHI(7, VP_INT)
KSHI(12, VP_UI16) KSHI(12, VP_UI32) KSHI(15, VP_UI16) KSHI(15, VP_UI32) KSHI(15, VP_UI64) KSHI(24, VP_UI32) KSHI(24, VP_UI64) KSHI(31, VP_UI32) KSHI(31, VP_UI64) KSHI(47, VP_UI64) KSHI(63, VP_UI64)
MKD(KShrVOr, for (size_t i = 0; i < N; ++i) vp_assume(!K.m[i] | ((MakeUnsigned<T>)(B.v[i]) < sizeof(T) * 8)); for (size_t i = 0; i < N; ++i) B.v[i] = (T)(B.v[i] & (sizeof(T) * 8 - 1)), D, hn::MaskedShrOr(no, m, a, b), hn::Shr(a, b), no_i) VP_INT(KShrVOr)
// comparisons
#define MC(NAME, MASKED, PLAIN) template <class D> static inline void NAME(D d) { constexpr size_t N = MaxLanes(D()); VpB<D> A, B; VpM<D> K; A.sym("a"); B.sym("b"); K.sym("mask"); auto a = A.load(); auto b = B.load(); auto m = K.mask(); (void)b; u8 G[N], R[N], W[N]; VpStoreMask(d, MASKED, G); VpStoreMask(d, PLAIN, R); for (size_t i = 0; i < N; ++i) W[i] = R[i] & (u8)K.m[i]; vp_check_eq(G, W, N, 1, #NAME); }
MC(CEq, hn::MaskedEq(m, a, b), hn::Eq(a, b)) VP_ALL(CEq) MC(CNe, hn::MaskedNe(m, a, b), hn::Ne(a, b)) VP_ALL(CNe) MC(CLt, hn::MaskedLt(m, a, b), hn::Lt(a, b)) VP_ALL(CLt) MC(CGt, hn::MaskedGt(m, a, b), hn::Gt(a, b)) VP_ALL(CGt) MC(CLe, hn::MaskedLe(m, a, b), hn::Le(a, b)) VP_ALL(CLe) MC(CGe, hn::MaskedGe(m, a, b), hn::Ge(a, b)) VP_ALL(CGe) MC(CNaN, hn::MaskedIsNaN(m, a), hn::IsNaN(a)) VP_F32F64(CNaN)
// conversions of equal lane size
template <class TT, class D> static inline void KConv(D d) { using DT = Rebind<TT, D>; DT dt; constexpr size_t N = MaxLanes(D()); VpB<D> A; VpM<DT> K; VpB<DT> G, R; TT W[N]; A.sym("a"); K.sym("mask"); G.store(hn::MaskedConvertTo(K.mask(), dt, A.load())); R.store(hn::ConvertTo(dt, A.load())); for (size_t i = 0; i < N; ++i) W[i] = K.m[i] ? R.v[i] : (TT)0; VpCheck(G.v, W, N, "MaskedConvertTo"); }
#define KC(F, T) VP_GOAL(KConv_##F##_##T) { VpSizes<F>([](auto d) __attribute__((always_inline)) { KConv<T>(d); }); }
KC(i32, f32) KC(u32, f32) KC(f32, i32) KC(f32, u32) KC(i64, f64) KC(u64, f64) KC(f64, i64) KC(f64, u64)
#if HWY_TARGET != HWY_SCALAR
#define WIDE RepartitionToWide<D>
#define MKW(NAME, MASKED, PLAIN) MKD(NAME, , WIDE, MASKED, PLAIN, zero)
MKW(KWMPA_, hn::MaskedWidenMulPairwiseAdd(dw, m, a, b), hn::WidenMulPairwiseAdd(dw, a, b))
template <class D> static inline void KWMPA(D d) { if constexpr (MaxLanes(D()) >= 2) KWMPA_(d); } VP_UI16(KWMPA)
#define MCX(NAME, MASKED, PLAIN, FALLBACK) MKD(NAME##_, , D, MASKED, PLAIN, FALLBACK) template <class D> static inline void NAME(D d) { if constexpr (MaxLanes(D()) >= 2) NAME##_(d); } VP_F32F64(NAME)
MCX(KMulCConj, hn::MaskedMulComplexConj(m, a, b), hn::MulComplexConj(a, b), zero) MCX(KMulCConjAdd, hn::MaskedMulComplexConjAdd(m, a, b, c), hn::MulComplexConjAdd(a, b, c), zero) MCX(KMulCOr, hn::MaskedMulComplexOr(no, m, a, b), hn::MulComplex(a, b), no_i)
#endif
} }
