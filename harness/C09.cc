// C09: integer promotion, demotion (saturating) and truncation.
#include "../lib/vec.h"
namespace { namespace H {
template <class TO, class TI> static inline TO Sat(TI x) { // nearest value of TO
  __int128 w = (__int128)x, lo = (__int128)LimitsMin<TO>(), hi = (__int128)LimitsMax<TO>(); return w < lo ? LimitsMin<TO>() : w > hi ? LimitsMax<TO>() : (TO)x; }
// NAME over input type TI, output type TO with the same number of lanes; sizes: those for which both exist.
template <class TI, class TO, size_t N, class F> static inline __attribute__((always_inline)) void PairsFrom(F f) { constexpr size_t S = sizeof(TI) > sizeof(TO) ? sizeof(TI) : sizeof(TO); if constexpr (N * S <= HWY_LANES(u8) || N == 1) { f(CappedTag<TI, N>(), Rebind<TO, CappedTag<TI, N>>()); if constexpr (N * 2 * S <= HWY_LANES(u8) && HWY_TARGET != HWY_SCALAR) PairsFrom<TI, TO, N * 2>(f); } }
#define PAIR(FN, TI, TO) VP_GOAL(FN##_##TI##_##TO) { PairsFrom<TI, TO, 1>([](auto di, auto dw) __attribute__((always_inline)) { FN(di, dw); }); }
#define BODY using T = TFromD<DI>; using TO = TFromD<DO>; constexpr size_t N = MaxLanes(DI()), M = MaxLanes(DO()); (void)N; VpB<DI> A; VpB<DO> G; TO W[M]; A.sym("a"); auto a = A.load();
#define OUT(EXPR, SPEC, L) { G.store(EXPR); for (size_t i = 0; i < M; ++i) { W[i] = (TO)(SPEC); } VpCheckBits(G.v, W, M, L); }
template <class DI, class DO> static inline void Promote(DI di, DO dw) { BODY (void)di; OUT(hn::PromoteTo(dw, a), A.v[i], "PromoteTo") }
#define PROM(TI, TO) PAIR(Promote, TI, TO)
PROM(u8, u16) PROM(u8, u32) PROM(u8, u64) PROM(u16, u32) PROM(u16, u64) PROM(u32, u64)
PROM(u8, i16) PROM(u8, i32) PROM(u8, i64) PROM(u16, i32) PROM(u16, i64) PROM(u32, i64)
PROM(i8, i16) PROM(i8, i32) PROM(i8, i64) PROM(i16, i32) PROM(i16, i64) PROM(i32, i64)
template <class DI, class DO> static inline void Demote(DI di, DO dw) { BODY (void)di; OUT(hn::DemoteTo(dw, a), (Sat<TO, T>(A.v[i])), "DemoteTo") }
#define DEM(TI, TO) PAIR(Demote, TI, TO)
DEM(i16, i8) DEM(i32, i8) DEM(i64, i8) DEM(i32, i16) DEM(i64, i16) DEM(i64, i32) DEM(u16, i8) DEM(u32, i8) DEM(u64, i8) DEM(u32, i16) DEM(u64, i16) DEM(u64, i32)
DEM(i16, u8) DEM(i32, u8) DEM(i64, u8) DEM(i32, u16) DEM(i64, u16) DEM(i64, u32) DEM(u16, u8) DEM(u32, u8) DEM(u64, u8) DEM(u32, u16) DEM(u64, u16) DEM(u64, u32)
template <class DI, class DO> static inline void Truncate(DI di, DO dw) { BODY (void)di; OUT(hn::TruncateTo(dw, a), A.v[i], "TruncateTo") }
#define TRU(TI, TO) PAIR(Truncate, TI, TO)
TRU(u64, u32) TRU(u64, u16) TRU(u64, u8) TRU(u32, u16) TRU(u32, u8) TRU(u16, u8)
template <class DI, class DO> static inline void U8From32(DI di, DO dw) { using T = TFromD<DI>; using TO = TFromD<DO>; constexpr size_t N = MaxLanes(DI()), M = N; (void)dw; (void)di; VpB<DI> A; VpB<DO> G; TO W[M]; A.sym("a"); for (size_t i = 0; i < N; ++i) A.v[i] &= (T)255; auto a = A.load(); OUT(hn::U8FromU32(a), A.v[i], "U8FromU32") }
PAIR(U8From32, u32, u8)
template <class DI, class DO> static inline void Lower(DI di, DO dw) { (void)di; if constexpr (MaxLanes(DI()) == 2 * MaxLanes(DO()) || HWY_TARGET == HWY_SCALAR) { BODY OUT(hn::PromoteLowerTo(dw, a), A.v[i], "PromoteLowerTo") OUT(hn::PromoteEvenTo(dw, a), A.v[2 * i], "PromoteEvenTo") } }
#if HWY_TARGET != HWY_SCALAR
template <class DI, class DO> static inline void Upper(DI di, DO dw) { (void)di; { BODY OUT(hn::PromoteUpperTo(dw, a), A.v[M + i], "PromoteUpperTo") OUT(hn::PromoteOddTo(dw, a), A.v[2 * i + 1], "PromoteOddTo") } }
// the input has twice the lanes of the output
template <class TI, class TO, size_t M, class F> static inline __attribute__((always_inline)) void WideFrom(F f) { if constexpr (M * sizeof(TO) <= HWY_LANES(u8)) { f(CappedTag<TI, 2 * M>(), CappedTag<TO, M>()); WideFrom<TI, TO, 2 * M>(f); } }
#define WPAIR(FN, TI, TO) VP_GOAL(FN##_##TI##_##TO) { WideFrom<TI, TO, 1>([](auto di, auto dw) __attribute__((always_inline)) { FN(di, dw); }); }
#else
#define WPAIR(FN, TI, TO) VP_GOAL(FN##_##TI##_##TO) { FN(Sisd<TI>(), Sisd<TO>()); }
#endif
#define WALL(FN) WPAIR(FN, u8, u16) WPAIR(FN, u8, i16) WPAIR(FN, i8, i16) WPAIR(FN, u16, u32) WPAIR(FN, u16, i32) WPAIR(FN, i16, i32) WPAIR(FN, u32, u64) WPAIR(FN, u32, i64) WPAIR(FN, i32, i64)
WALL(Lower)
#if HWY_TARGET != HWY_SCALAR
WALL(Upper)
// two-vector demotion: the output has twice the lanes of each input
template <class DI, class DO> static inline void Demote2(DI di, DO dw) { using T = TFromD<DI>; using TO = TFromD<DO>; constexpr size_t N = MaxLanes(DI()), M = 2 * N; static_assert(M == MaxLanes(DO()), ""); VpB<DI> A, B; VpB<DO> G; TO W[M]; A.sym("a"); B.sym("b");
  T in[M]; for (size_t i = 0; i < N; ++i) { in[i] = A.v[i]; in[N + i] = B.v[i]; }
  G.store(hn::OrderedDemote2To(dw, A.load(), B.load())); for (size_t i = 0; i < M; ++i) W[i] = Sat<TO, T>(in[i]); VpCheckBits(G.v, W, M, "OrderedDemote2To");
  // the order: taken from the result for distinct small values
  VpB<DI> P; VpB<DO> Q; for (size_t i = 0; i < N; ++i) { A.v[i] = (T)i; P.v[i] = (T)(N + i); } Q.store(hn::ReorderDemote2To(dw, A.load(), P.load())); bool seen[M] = {}; bool ok = true;
  for (size_t i = 0; i < N; ++i) A.v[i] = in[i]; G.store(hn::ReorderDemote2To(dw, A.load(), B.load()));
  for (size_t i = 0; i < M; ++i) { size_t k = (size_t)Q.v[i]; if (k >= M) { vp_check(false, "order: not an input lane"); return; } ok &= !seen[k]; seen[k] = true; W[i] = Sat<TO, T>(in[k]); } vp_check(ok, "order: a permutation"); VpCheckBits(G.v, W, M, "ReorderDemote2To"); }
template <class TI, class TO, size_t N, class F> static inline __attribute__((always_inline)) void NarrowFrom(F f) { if constexpr (N * sizeof(TI) <= HWY_LANES(u8)) { f(CappedTag<TI, N>(), CappedTag<TO, 2 * N>()); NarrowFrom<TI, TO, 2 * N>(f); } }
#define NPAIR(FN, TI, TO) VP_GOAL(FN##_##TI##_##TO) { NarrowFrom<TI, TO, 1>([](auto di, auto dw) __attribute__((always_inline)) { FN(di, dw); }); }
#define N2(TI, TO) NPAIR(Demote2, TI, TO)
N2(i16, i8) N2(i32, i16) N2(i64, i32) N2(u16, i8) N2(u32, i16) N2(u64, i32) N2(i16, u8) N2(i32, u16) N2(i64, u32) N2(u16, u8) N2(u32, u16) N2(u64, u32)
template <class DI, class DO> static inline void Trunc2(DI di, DO dw) { (void)di; using TO = TFromD<DO>; constexpr size_t N = MaxLanes(DI()), M = 2 * N; VpB<DI> A, B; VpB<DO> G; TO W[M]; A.sym("a"); B.sym("b"); G.store(hn::OrderedTruncate2To(dw, A.load(), B.load())); for (size_t i = 0; i < M; ++i) W[i] = (TO)(i < N ? A.v[i % N] : B.v[i % N]); VpCheckBits(G.v, W, M, "OrderedTruncate2To"); }
NPAIR(Trunc2, u16, u8) NPAIR(Trunc2, u32, u16) NPAIR(Trunc2, u64, u32)
#endif
} }
