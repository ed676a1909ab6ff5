// C12, table lookups and compile-time shuffles.
#include "../lib/vec.h"
namespace { namespace H {
template <class T> static inline T Zero1() { T z; memset(&z, 0, sizeof(T)); return z; }
#define IDX_OK(TI, k, n) vp_assume((u64)(k) < (u64)(n))
template <class D> static inline void TblLanes(D d) { using T = TFromD<D>; using TI = MakeSigned<T>; constexpr size_t N = MaxLanes(D()); RebindToSigned<D> di; VpB<D> A, G; VpB<RebindToSigned<D>> I; T W[N]; A.sym("a"); I.sym("idx"); for (size_t i = 0; i < N; ++i) I.v[i] = (TI)(I.v[i] & (TI)(N - 1)); G.store(hn::TableLookupLanes(A.load(), hn::SetTableIndices(d, I.v))); for (size_t i = 0; i < N; ++i) W[i] = A.v[(size_t)I.v[i]]; VpCheckBits(G.v, W, N, "TableLookupLanes SetTableIndices"); G.store(hn::TableLookupLanes(A.load(), hn::IndicesFromVec(d, I.load()))); VpCheckBits(G.v, W, N, "TableLookupLanes IndicesFromVec"); (void)di; }
VP_ALL(TblLanes)
template <class D> static inline void TblTwo(D d) { using T = TFromD<D>; using TI = MakeUnsigned<T>; constexpr size_t N = MaxLanes(D()); VpB<D> A, B, G; VpB<RebindToUnsigned<D>> I; T W[N]; A.sym("a"); B.sym("b"); I.sym("idx"); for (size_t i = 0; i < N; ++i) I.v[i] = (TI)(I.v[i] & (TI)(2 * N - 1)); for (size_t i = 0; i < N; ++i) { size_t k = (size_t)I.v[i]; T x = A.v[k % N], y = B.v[k % N]; W[i] = k < N ? x : y; } G.store(hn::TwoTablesLookupLanes(d, A.load(), B.load(), hn::SetTableIndices(d, I.v))); VpCheckBits(G.v, W, N, "TwoTablesLookupLanes SetTableIndices"); G.store(hn::TwoTablesLookupLanes(A.load(), B.load(), hn::IndicesFromVec(d, I.load()))); VpCheckBits(G.v, W, N, "TwoTablesLookupLanes IndicesFromVec"); }
#if HWY_TARGET == HWY_EMU128  // selects between pointers: one path per lane
VP_UI32(TblTwo) VP_UI64(TblTwo) VP_F32F64(TblTwo)
#else
VP_ALL(TblTwo)
#endif
#if HWY_TARGET != HWY_SCALAR
// byte tables: N bytes each, indices relative to the own block
#define BY(X) ((u8*)(X).v)
template <class D> static inline void TblBytes(D d) { using T = TFromD<D>; constexpr size_t N = MaxLanes(D()), NB = N * sizeof(T), L = HWY_MIN(NB, 16); VpB<D> A, I, G; u8 W[NB]; A.sym("a"); I.sym("idx"); for (size_t i = 0; i < NB; ++i) BY(I)[i] &= L - 1; G.store(hn::TableLookupBytes(A.load(), I.load())); for (size_t i = 0; i < NB; ++i) W[i] = BY(A)[i / L * L + BY(I)[i]]; vp_check_eq(G.v, W, NB, 1, "TableLookupBytes"); }
template <class D> static inline void TblBytesOr0(D d) { using T = TFromD<D>; constexpr size_t N = MaxLanes(D()), NB = N * sizeof(T), L = HWY_MIN(NB, 16); VpB<D> A, I, G; u8 W[NB]; A.sym("a"); I.sym("idx"); for (size_t i = 0; i < NB; ++i) BY(I)[i] = (BY(I)[i] & 0x80) ? BY(I)[i] : BY(I)[i] & (L - 1); G.store(hn::TableLookupBytesOr0(A.load(), I.load())); for (size_t i = 0; i < NB; ++i) { u8 x = BY(A)[i / L * L + (BY(I)[i] & (L - 1))]; W[i] = (BY(I)[i] & 0x80) ? 0 : x; } vp_check_eq(G.v, W, NB, 1, "TableLookupBytesOr0"); }
VP_INT(TblBytes) VP_INT(TblBytesOr0)
// table and index vectors of different sizes: blocks correspond one to one; a single block table serves only index vectors of one block at most
template <class DT, class DI> static inline void TblMixed1(DT dt, DI di) { constexpr size_t NT = MaxLanes(DT()), NI = MaxLanes(DI()), L = HWY_MIN(NT, 16); VpB<DT> A; VpB<DI> I, G; u8 W[NI]; A.sym("tbl"); I.sym("idx"); for (size_t i = 0; i < NI; ++i) I.v[i] &= L - 1; G.store(hn::TableLookupBytes(A.load(), I.load())); for (size_t i = 0; i < NI; ++i) W[i] = A.v[i / 16 * 16 + I.v[i]]; vp_check_eq(G.v, W, NI, 1, "TableLookupBytes mixed sizes");
  for (size_t i = 0; i < NI; ++i) I.v[i] |= 0x80; G.store(hn::TableLookupBytesOr0(A.load(), I.load())); memset(W, 0, NI); vp_check_eq(G.v, W, NI, 1, "TableLookupBytesOr0 mixed sizes"); }
VP_GOAL(TblMixed_u8) { VpSizes<u8>([](auto dt) __attribute__((always_inline)) { VpSizes<u8>([=](auto di) __attribute__((always_inline)) { constexpr size_t NT = MaxLanes(decltype(dt)()), NI = MaxLanes(decltype(di)()); if constexpr (NI <= 16 || NI <= NT) if constexpr (NI != NT) TblMixed1(dt, di); }); }); }
#endif
// Per4LaneBlockShuffle: the 256 patterns (a vector of fewer than four lanes only reads indices below its size)
template <int K, class D> static HWY_NOINLINE void Per4One(D d) { using T = TFromD<D>; constexpr size_t N = MaxLanes(D()); constexpr int k[4] = {K & 3, (K >> 2) & 3, (K >> 4) & 3, (K >> 6) & 3}; VpB<D> A, G; T W[N], R[N]; A.sym("a"); G.store(hn::Per4LaneBlockShuffle<(size_t)k[3], (size_t)k[2], (size_t)k[1], (size_t)k[0]>(A.load()));
  for (size_t i = 0; i < N; ++i) { bool ok = (size_t)k[i & 3] < N || N >= 4; W[i] = ok ? A.v[(i & ~(size_t)3) + (ok ? k[i & 3] : 0)] : Zero1<T>(); R[i] = ok ? G.v[i] : Zero1<T>(); } VpCheckBits(R, W, N, "Per4LaneBlockShuffle"); }
template <int FROM, class D> static inline void Per4(D d) { VpUpTo<64>([&](auto kk) __attribute__((always_inline)) { Per4One<decltype(kk)::value + FROM>(d); }); }
#define VP_PER4(T) VP_GOAL(Per4_##T##_0) { Per4<0>(ScalableTag<T>()); } VP_GOAL(Per4_##T##_1) { Per4<64>(ScalableTag<T>()); } VP_GOAL(Per4_##T##_2) { Per4<128>(ScalableTag<T>()); } VP_GOAL(Per4_##T##_3) { Per4<192>(ScalableTag<T>()); }
#ifdef VP_DEEP
VP_PER4(u8) VP_PER4(u16) VP_PER4(u32) VP_PER4(u64) VP_PER4(f32) VP_PER4(f64)
#define VP_PER4S(T, N) VP_GOAL(Per4s_##T##_##N) { Per4<0>(CappedTag<T, N>()); Per4<64>(CappedTag<T, N>()); Per4<128>(CappedTag<T, N>()); Per4<192>(CappedTag<T, N>()); }
VP_PER4S(u8, 4) VP_PER4S(u8, 2) VP_PER4S(u8, 8) VP_PER4S(u16, 4) VP_PER4S(u16, 2) VP_PER4S(u32, 2) VP_PER4S(u32, 4) VP_PER4S(u64, 2) VP_PER4S(f32, 2) VP_PER4S(u64, 1)
#else
VP_PER4(u16) VP_PER4(u32) VP_PER4(u64)
#define VP_PER4S(T, N) VP_GOAL(Per4s_##T##_##N) { Per4<0>(CappedTag<T, N>()); Per4<64>(CappedTag<T, N>()); Per4<128>(CappedTag<T, N>()); Per4<192>(CappedTag<T, N>()); }
VP_PER4S(u8, 4) VP_PER4S(u32, 2)
#endif
} }
