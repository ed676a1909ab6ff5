// C16: reductions.
#include "../lib/vec.h"
namespace { namespace H {
#define BEG using T = TFromD<D>; constexpr size_t N = MaxLanes(D()); VpB<D> A, G; T W[N];
#define ALLEQ(EXPR, VAL, L) { G.store(EXPR); for (size_t i = 0; i < N; ++i) W[i] = (VAL); VpCheckBits(G.v, W, N, L); }
#define ONEEQ(EXPR, VAL, L) { T got_ = (EXPR), want_ = (VAL); vp_check_eq(&got_, &want_, 1, sizeof(T), L); }
template <class D> static inline void Sum(D d) { BEG using U = MakeUnsigned<T>; A.sym("a"); auto a = A.load(); U s = 0; for (size_t i = 0; i < N; ++i) s = (U)(s + (U)A.v[i]); ALLEQ(hn::SumOfLanes(d, a), (T)s, "SumOfLanes") ONEEQ(hn::ReduceSum(d, a), (T)s, "ReduceSum") }
template <class D> static inline void MSum(D d) { BEG (void)W; (void)sizeof(G); using U = MakeUnsigned<T>; A.sym("a"); VpM<D> K; K.sym("m"); auto a = A.load(); U s = 0; for (size_t i = 0; i < N; ++i) s = (U)(s + (K.m[i] ? (U)A.v[i] : (U)0)); bool any = false; for (size_t i = 0; i < N; ++i) any |= K.m[i]; vp_assume(any); ONEEQ(hn::MaskedReduceSum(d, K.mask(), a), (T)s, "MaskedReduceSum") }
template <class D> static inline void MinMax(D d) { BEG A.sym("a"); auto a = A.load(); T lo = A.v[0], hi = A.v[0]; for (size_t i = 1; i < N; ++i) { lo = A.v[i] < lo ? A.v[i] : lo; hi = A.v[i] > hi ? A.v[i] : hi; }
  ALLEQ(hn::MinOfLanes(d, a), lo, "MinOfLanes") ALLEQ(hn::MaxOfLanes(d, a), hi, "MaxOfLanes") ONEEQ(hn::ReduceMin(d, a), lo, "ReduceMin") ONEEQ(hn::ReduceMax(d, a), hi, "ReduceMax") }
template <class D> static inline void MMinMax(D d) { BEG (void)W; (void)sizeof(G); A.sym("a"); VpM<D> K; K.sym("m"); auto a = A.load(); T lo = LimitsMax<T>(), hi = LimitsMin<T>(); bool any = false; for (size_t i = 0; i < N; ++i) { T x = K.m[i] ? A.v[i] : LimitsMax<T>(), y = K.m[i] ? A.v[i] : LimitsMin<T>(); lo = x < lo ? x : lo; hi = y > hi ? y : hi; any |= K.m[i]; } vp_assume(any);
  ONEEQ(hn::MaskedReduceMin(d, K.mask(), a), lo, "MaskedReduceMin") ONEEQ(hn::MaskedReduceMax(d, K.mask(), a), hi, "MaskedReduceMax") }
VP_INT(Sum) VP_INT(MSum) VP_INT(MinMax) VP_INT(MMinMax)
// Floating point: with all other lanes zero, the sum is the one arbitrary lane; minima and maxima bound all lanes and are one of them.
template <class D> static inline void FSum(D d) { BEG size_t k = vp_choose(0, N - 1, "lane"); T x; vp_sym(&x, 1, sizeof(T), "x"); vp_assume(x != 0); for (size_t i = 0; i < N; ++i) A.v[i] = i == k ? x : (T)0; auto a = A.load(); G.store(hn::SumOfLanes(d, a)); for (size_t i = 0; i < N; ++i) W[i] = x; VpCheck(G.v, W, N, "SumOfLanes"); T r = hn::ReduceSum(d, a); VpCheck(&r, &x, 1, "ReduceSum");
  VpB<D> B; B.sym("others"); VpM<D> K; K.sym("m"); for (size_t i = 0; i < N; ++i) { T z = K.m[i] ? (T)0 : B.v[i]; B.v[i] = i == k ? x : z; } K.m[k] = true; r = hn::MaskedReduceSum(d, K.mask(), B.load()); VpCheck(&r, &x, 1, "MaskedReduceSum"); }
VP_ONE_GOAL(FSum, f32) VP_ONE_GOAL(FSum, f64)
// Up to 4 lanes: arbitrary non-NaN values, k is the lane of a smallest (largest) one. More lanes: values of one sign and magnitude below 2 (Min and Max themselves: C06).
template <class D> static inline void FMinMax(D d) { BEG (void)W; size_t k = vp_choose(0, HWY_MIN(N, 4) - 1, "lane"); bool ok = true; bool good = true;
  if constexpr (N <= 4) { A.sym("a"); for (size_t i = 0; i < N; ++i) ok &= A.v[k] <= A.v[i]; vp_assume(ok); auto a = A.load(); T x = A.v[k]; G.store(hn::MinOfLanes(d, a)); for (size_t i = 0; i < N; ++i) good &= G.v[i] == x; vp_check(good, "MinOfLanes"); vp_check(hn::ReduceMin(d, a) == x, "ReduceMin"); }
  else { using DU = RebindToUnsigned<D>; using TU = TFromD<DU>; if (k >= 2) return; VpB<DU> B; B.sym("a"); constexpr int S = 8 * sizeof(T) - 1; for (size_t i = 0; i < N; ++i) { B.v[i] = (TU)((B.v[i] << 2 >> 2) | (TU)((TU)k << S)); CopySameSize(&B.v[i], &A.v[i]); } auto a = A.load(); VpM<D> K; K.sym("m"); bool any = false; for (size_t i = 0; i < N; ++i) any |= K.m[i];
    TU lo = B.v[0], hi = B.v[0]; for (size_t i = 1; i < N; ++i) { lo = B.v[i] < lo ? B.v[i] : lo; hi = B.v[i] > hi ? B.v[i] : hi; } TU mn = k ? hi : lo, mx = k ? lo : hi; VpB<DU> R; TU Z[N];
    Store(BitCast(DU(), hn::MinOfLanes(d, a)), DU(), R.v); for (size_t i = 0; i < N; ++i) Z[i] = mn; VpCheckBits(R.v, Z, N, "MinOfLanes"); Store(BitCast(DU(), hn::MaxOfLanes(d, a)), DU(), R.v); for (size_t i = 0; i < N; ++i) Z[i] = mx; VpCheckBits(R.v, Z, N, "MaxOfLanes");
    TU b; T r = hn::ReduceMin(d, a); CopySameSize(&r, &b); VpCheckBits(&b, &mn, 1, "ReduceMin"); r = hn::ReduceMax(d, a); CopySameSize(&r, &b); VpCheckBits(&b, &mx, 1, "ReduceMax"); (void)any; } }
template <class D> static inline void FMaxMin(D d) { BEG (void)W; size_t k = vp_choose(0, HWY_MIN(N, 4) - 1, "lane"); bool ok = true; bool good = true; if constexpr (N <= 4) { A.sym("a"); for (size_t i = 0; i < N; ++i) ok &= A.v[k] >= A.v[i]; vp_assume(ok); auto a = A.load(); T x = A.v[k]; G.store(hn::MaxOfLanes(d, a)); for (size_t i = 0; i < N; ++i) good &= G.v[i] == x; vp_check(good, "MaxOfLanes"); vp_check(hn::ReduceMax(d, a) == x, "ReduceMax"); } else { (void)k; (void)ok; (void)good; (void)d; } }
// masked: the k-th lane is selected and a smallest (largest) one; 8 lanes and more: all other lanes are equal to each other
template <class D> static inline void FMask(D d) { BEG (void)W; (void)sizeof(G); size_t k = vp_choose(0, N - 1, "lane"); A.sym("a"); VpM<D> K; K.sym("m"); K.m[k] = true; bool lo = true, hi = true; if (N > 4) for (size_t i = 0; i < N; ++i) if (i != k) A.v[i] = A.v[k == 0]; for (size_t i = 0; i < N; ++i) { lo &= !K.m[i] | (A.v[k] <= A.v[i]); hi &= !K.m[i] | (A.v[k] >= A.v[i]); }
  vp_check(!lo | (hn::MaskedReduceMin(d, K.mask(), A.load()) == A.v[k]), "MaskedReduceMin"); vp_check(!hi | (hn::MaskedReduceMax(d, K.mask(), A.load()) == A.v[k]), "MaskedReduceMax"); }
#define FMM(FN) VP_ONE_GOAL(FN, f32) VP_ONE_GOAL(FN, f64)
FMM(FMinMax) FMM(FMaxMin) FMM(FMask)

#if HWY_TARGET != HWY_SCALAR
template <class T> static inline unsigned AD(T x, T y) { return (u8)(x < y ? (u8)y - (u8)x : (u8)x - (u8)y); }
#define SUMS(NAME, K, DW, EXPR, TERM) template <class D> static inline void NAME(D d) { (void)d; using T = TFromD<D>; constexpr size_t N = MaxLanes(D()); if constexpr (N >= K) { using DWt = DW; using TW = TFromD<DWt>; constexpr size_t M = N / K; VpB<D> A, B; A.sym("a"); B.sym("b"); VpB<DWt> G; TW W[M]; auto a = A.load(); auto b = B.load(); (void)b; (void)sizeof(T); G.store(EXPR); for (size_t i = 0; i < M; ++i) { W[i] = 0; for (size_t j = K * i; j < K * i + K; ++j) W[i] = (TW)(W[i] + (TW)(TERM)); } VpCheck(G.v, W, M, #NAME); } }
SUMS(SumsOf2, 2, RepartitionToWide<D>, hn::SumsOf2(a), A.v[j])
SUMS(SumsOf4, 4, RepartitionToWideX2<D>, hn::SumsOf4(a), A.v[j])
SUMS(SumsOf8, 8, RepartitionToWideX3<D>, hn::SumsOf8(a), A.v[j])
SUMS(SumsOf8AbsDiff, 8, RepartitionToWideX3<D>, hn::SumsOf8AbsDiff(a, b), AD<T>(A.v[j], B.v[j]))
VP_UI8(SumsOf2) VP_UI16(SumsOf2) VP_UI32(SumsOf2) VP_UI8(SumsOf4) VP_UI16(SumsOf4) VP_UI8(SumsOf8) VP_UI8(SumsOf8AbsDiff)
template <class D> static inline void AdjQuad(D d) { using T = TFromD<D>; constexpr size_t N = MaxLanes(D()); if constexpr (N >= 4) { using DW = RepartitionToWide<D>; using TW = TFromD<DW>; constexpr size_t M = N / 2; constexpr int MA = (int)HWY_MIN(1, (HWY_MAX_LANES_D(D) - 1) / 4), MB = (int)HWY_MIN(3, (HWY_MAX_LANES_D(D) - 1) / 4);
  VpB<D> A, B; VpB<DW> G; TW W[M]; A.sym("a"); B.sym("b"); (void)d;
  VpUpTo<MA + 1>([&](auto ka) __attribute__((always_inline)) { VpUpTo<MB + 1>([&](auto kb) __attribute__((always_inline)) { constexpr size_t KA = decltype(ka)::value, KB = decltype(kb)::value; G.store(hn::SumsOfAdjQuadAbsDiff<(int)KA, (int)KB>(A.load(), B.load())); constexpr size_t L = N < (8 << KA) ? 1 : M; bool def[M]; size_t cnt = 0;
    for (size_t i = 0; i < L; ++i) { size_t ai = KA * 4 + (i / 8) * 16 + (i & 7), bi = KB * 4 + (i / 8) * 16; def[i] = ai + 3 < N && bi + 3 < N; W[i] = 0; if (def[i]) { ++cnt; for (size_t j = 0; j < 4; ++j) W[i] = (TW)(W[i] + AD<T>(A.v[ai + j], B.v[bi + j])); } else { W[i] = G.v[i]; } } (void)cnt; VpCheckBits(G.v, W, L, "SumsOfAdjQuadAbsDiff"); }); }); } }
VP_UI8(AdjQuad)
template <class D> static inline void ShufQuad(D d) { using T = TFromD<D>; constexpr size_t N = MaxLanes(D()); if constexpr (N >= 16) { using DW = RepartitionToWide<D>; using TW = TFromD<DW>; constexpr size_t M = N / 2; VpB<D> A, B; VpB<DW> G; TW W[M]; A.sym("a"); B.sym("b"); (void)d;
  VpUpTo<12>([&](auto kk) __attribute__((always_inline)) { constexpr int P[12] = {0xE4, 0x1B, 0x00, 0xFF, 0x39, 0x93, 0x4E, 0xB1, 0x55, 0xAA, 0xC6, 0x72}; constexpr int I = P[decltype(kk)::value]; constexpr int I0 = I & 3, I1 = (I >> 2) & 3, I2 = (I >> 4) & 3, I3 = (I >> 6) & 3; constexpr int id[4] = {I0, I1, I2, I3};
    G.store(hn::SumsOfShuffledQuadAbsDiff<I3, I2, I1, I0>(A.load(), B.load())); T S[N]; for (size_t i = 0; i < N; ++i) S[i] = A.v[(i & ~(size_t)15) + 4 * id[(i / 4) & 3] + (i & 3)]; size_t K = 0; (void)K; for (size_t i = 0; i < M; ++i) { size_t ai = (i / 4) * 8 + (i & 3), bi = (i / 2) * 4; W[i] = 0; if (ai + 3 < N) for (size_t j = 0; j < 4; ++j) W[i] = (TW)(W[i] + AD<T>(S[ai + j], B.v[bi + j])); else W[i] = G.v[i]; } VpCheckBits(G.v, W, M, "SumsOfShuffledQuadAbsDiff"); }); } }
VP_UI8(ShufQuad)
#endif
} }
