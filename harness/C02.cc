// C02: high-half, widening and multiply-accumulate integer products.
#include "../lib/vec.h"
namespace { namespace H {
using i128 = __int128;
template <class T> constexpr i128 Lo() { return (i128)hwy::LowestValue<T>(); }
template <class T> constexpr i128 Hi() { return (i128)hwy::HighestValue<T>(); }
template <class T> static inline T Clamp(i128 v) { return v < Lo<T>() ? (T)Lo<T>() : v > Hi<T>() ? (T)Hi<T>() : (T)v; }
template <class T> static inline T HighHalf(T x, T y) {
  if constexpr (sizeof(T) == 8) { if constexpr (hwy::IsSigned<T>()) return (T)(u64)((unsigned __int128)((i128)x * (i128)y) >> 64); else return (T)(((unsigned __int128)x * y) >> 64); }
  else if constexpr (hwy::IsSigned<T>()) return (T)(((i64)x * (i64)y) >> (8 * sizeof(T))); else return (T)(((u64)x * (u64)y) >> (8 * sizeof(T)));
}
VP_OP2(MulHigh, hn::MulHigh(a, b), HighHalf<T>(x, y))
VP_INT(MulHigh)

template <class D> static inline void MulFix15(D d) {
  constexpr size_t N = MaxLanes(D()); VpB<D> A, B, G; i16 W[N]; A.sym("a"); B.sym("b"); G.store(hn::MulFixedPoint15(A.load(), B.load()));
  for (size_t i = 0; i < N; ++i) { i32 p = (i32)A.v[i] * B.v[i]; i16 g = G.v[i], w = (i16)((p + 0x4000) >> 15); W[i] = ((A.v[i] == -32768) & (B.v[i] == -32768)) ? g : w; }
  VpCheckBits(G.v, W, N, "MulFixedPoint15");
}
VP_TYPE_GOAL(MulFix15, i16)
// Even / odd products: double-width lanes.
VP_X(MulEven, -2, RepartitionToWide<D>, 2, hn::MulEven(a, b), (u64)((i64)A.v[2 * i] * (i64)B.v[2 * i]), VpCheckBits)
VP_X(MulOdd, 2, RepartitionToWide<D>, 2, hn::MulOdd(a, b), (u64)((i64)A.v[2 * i + 1] * (i64)B.v[2 * i + 1]), VpCheckBits)
VP_UI8(MulEven) VP_UI16(MulEven) VP_UI32(MulEven)
#if HWY_TARGET != HWY_SCALAR
VP_UI8(MulOdd) VP_UI16(MulOdd) VP_UI32(MulOdd)
VP_P2(MulEven64, 2, hn::MulEven(a, b), (i & 1) ? (T)HighHalf<T>(A.v[i - 1], B.v[i - 1]) : (T)((u64)A.v[i] * (u64)B.v[i]))
VP_P2(MulOdd64, 2, hn::MulOdd(a, b), (i & 1) ? (T)HighHalf<T>(A.v[i], B.v[i]) : (T)((u64)A.v[i + 1] * (u64)B.v[i + 1]))
VP_UI64(MulEven64) VP_UI64(MulOdd64)
#endif
#define PR(k) ((i64)A.v[k] * (i64)B.v[k])
VP_X(WidenMulPairwiseAdd, 2, RepartitionToWide<D>, 2, hn::WidenMulPairwiseAdd(dw, a, b), (N == 1 ? PR(i) : PR(2 * i) + PR(2 * i + 1)), VpCheckBits)
VP_UI16(WidenMulPairwiseAdd)
template <class D> static inline void SatWidenMulPairwiseAdd(D d) {  // D: i8
  constexpr size_t N = MaxLanes(D()); if constexpr (N >= 2 || HWY_TARGET == HWY_SCALAR) { RebindToUnsigned<D> du; RepartitionToWide<D> dw; VpB<decltype(du)> A; VpB<D> B; VpB<decltype(dw)> G; constexpr size_t M = MaxLanes(dw); i16 W[M];
  A.sym("a"); B.sym("b"); G.store(hn::SatWidenMulPairwiseAdd(dw, A.load(), B.load())); for (size_t i = 0; i < M; ++i) W[i] = Clamp<i16>(N == 1 ? PR(i) : PR(2 * i) + PR(2 * i + 1)); VpCheckBits(G.v, W, M, "SatWidenMulPairwiseAdd"); }
}
VP_TYPE_GOAL(SatWidenMulPairwiseAdd, i8)
template <class D> static inline void SatWidenMulPairwiseAccumulate(D d) {  // D: i16
  constexpr size_t N = MaxLanes(D()); if constexpr (N >= 2) { RepartitionToWide<D> dw; VpB<D> A, B; VpB<decltype(dw)> S, G; constexpr size_t M = MaxLanes(dw); i32 W[M];
  A.sym("a"); B.sym("b"); S.sym("s"); G.store(hn::SatWidenMulPairwiseAccumulate(dw, A.load(), B.load(), S.load())); for (size_t i = 0; i < M; ++i) W[i] = Clamp<i32>((N == 1 ? PR(i) : PR(2 * i) + PR(2 * i + 1)) + (i64)S.v[i]); VpCheckBits(G.v, W, M, "SatWidenMulPairwiseAccumulate"); }
}
VP_TYPE_GOAL(SatWidenMulPairwiseAccumulate, i16)
template <class D> static inline void SatWidenMulAccumFixedPoint(D d) {  // D: i32
  constexpr size_t N = MaxLanes(D()); Rebind<i16, D> dn; VpB<decltype(dn)> A, B; VpB<D> S, G; i32 W[N];
  A.sym("a"); B.sym("b"); S.sym("s"); G.store(hn::SatWidenMulAccumFixedPoint(d, A.load(), B.load(), S.load()));
  for (size_t i = 0; i < N; ++i) { i32 w = Clamp<i32>((i64)S.v[i] + 2 * PR(i)), alt = Clamp<i32>((i64)S.v[i] + 0x7FFFFFFF), g = G.v[i]; W[i] = ((A.v[i] == -32768) & (B.v[i] == -32768) & (g == alt)) ? alt : w; }
  VpCheckBits(G.v, W, N, "SatWidenMulAccumFixedPoint");
}
VP_TYPE_GOAL(SatWidenMulAccumFixedPoint, i32)
template <class D> static inline void ReorderWidenMulAccumulate(D d) {  // D: 16-bit
  constexpr size_t N = MaxLanes(D()); if constexpr (N >= 2 || HWY_TARGET == HWY_SCALAR) { RepartitionToWide<D> dw; using TW = TFromD<decltype(dw)>; VpB<D> A, B; VpB<decltype(dw)> S0, R, S1, G; constexpr size_t M = MaxLanes(dw);
  A.sym("a"); B.sym("b"); S0.sym("s"); auto s1 = Zero(dw); auto r = hn::ReorderWidenMulAccumulate(dw, A.load(), B.load(), S0.load(), s1); R.store(r); S1.store(s1);
  u32 got = 0, want = 0; for (size_t i = 0; i < M; ++i) { got += (u32)R.v[i] + (u32)S1.v[i]; want += (u32)S0.v[i]; } for (size_t i = 0; i < N; ++i) want += (u32)PR(i);
  vp_check_eq(&got, &want, 1, 4, "ReorderWidenMulAccumulate total"); 
  // second accumulation, then the stronger per-lane invariant, from a zero start
  auto z1 = Zero(dw); auto q = hn::ReorderWidenMulAccumulate(dw, A.load(), B.load(), Zero(dw), z1); q = hn::ReorderWidenMulAccumulate(dw, B.load(), A.load(), q, z1); G.store(hn::RearrangeToOddPlusEven(q, z1)); TW W[M];
  for (size_t i = 0; i < M; ++i) W[i] = (TW)(u32)(N == 1 ? 2 * PR(i) : 2 * (PR(2 * i) + PR(2 * i + 1)));
  VpCheckBits(G.v, W, M, "RearrangeToOddPlusEven"); }
}
VP_UI16(ReorderWidenMulAccumulate)
#define PQ(k) ((u64)PR(4 * i + k))
VP_X(SumOfMulQuadAccumulateProducts, 4, RepartitionToWideX2<D>, 2, hn::SumOfMulQuadAccumulate(dw, a, b, Zero(dw)), N == 1 ? (u64)PR(i) : PQ(0) + PQ(1) + PQ(2) + PQ(3), VpCheckBits)
VP_UI8(SumOfMulQuadAccumulateProducts) VP_UI16(SumOfMulQuadAccumulateProducts)
template <class D> static inline void SumOfMulQuadAccumulate(D d) {
  constexpr size_t N = MaxLanes(D()); if constexpr (N >= 4) { RepartitionToWideX2<D> dw; using TW = TFromD<decltype(dw)>; VpB<D> A, B; VpB<decltype(dw)> S, G; constexpr size_t M = MaxLanes(dw); TW W[M];
  A.sym("a"); B.sym("b"); S.sym("s"); G.store(hn::SumOfMulQuadAccumulate(dw, A.load(), B.load(), S.load())); for (size_t i = 0; i < M; ++i) W[i] = (TW)((u64)S.v[i] + (N == 1 ? (u64)PR(i) : PQ(0) + PQ(1) + PQ(2) + PQ(3))); VpCheckBits(G.v, W, M, "SumOfMulQuadAccumulate"); }
}
VP_UI8(SumOfMulQuadAccumulate) VP_UI16(SumOfMulQuadAccumulate)
template <class D> static inline void SumOfMulQuadAccumulateUI(D d) {  // D: i8
  constexpr size_t N = MaxLanes(D()); if constexpr (N >= 4) { RebindToUnsigned<D> du; Repartition<i32, D> dw; VpB<decltype(du)> A; VpB<D> B; VpB<decltype(dw)> S, G; constexpr size_t M = MaxLanes(dw); i32 W[M];
  A.sym("a"); B.sym("b"); S.sym("s"); G.store(hn::SumOfMulQuadAccumulate(dw, A.load(), B.load(), S.load())); for (size_t i = 0; i < M; ++i) W[i] = (i32)(u32)((u64)S.v[i] + (N == 1 ? (u64)PR(i) : PQ(0) + PQ(1) + PQ(2) + PQ(3))); VpCheckBits(G.v, W, M, "SumOfMulQuadAccumulate u8*i8"); }
}
VP_TYPE_GOAL(SumOfMulQuadAccumulateUI, i8)
#if HWY_TARGET != HWY_SCALAR
template <class D> static inline void WidenMulAccumulate(D d) {
  constexpr size_t N = MaxLanes(D()); if constexpr (N >= 2) { RepartitionToWide<D> dw; using TW = TFromD<decltype(dw)>; VpB<D> A, B; VpB<decltype(dw)> L, Hh, GL, GH; constexpr size_t M = MaxLanes(dw); TW WL[M], WH[M];
  A.sym("a"); B.sym("b"); L.sym("l"); Hh.sym("h"); auto hi = Hh.load(); GL.store(hn::WidenMulAccumulate(dw, A.load(), B.load(), L.load(), hi)); GH.store(hi);
  for (size_t i = 0; i < M; ++i) { WL[i] = (TW)((u64)L.v[i] + (u64)PR(i)); WH[i] = (TW)((u64)Hh.v[i] + (u64)PR(i + M)); } VpCheckBits(GL.v, WL, M, "WidenMulAccumulate low"); VpCheckBits(GH.v, WH, M, "WidenMulAccumulate high"); }
}
VP_UI8(WidenMulAccumulate) VP_UI16(WidenMulAccumulate) VP_UI32(WidenMulAccumulate)
#endif
} }
