// C15: gathers, scatters and interleaved loads and stores.
#include "../lib/vec.h"
namespace { namespace H {
template <class T> struct VpMem { T* p; size_t n; VpMem(size_t k, const char* name, size_t align = sizeof(T)) : n(k) { p = (T*)vp_alloc(k * sizeof(T), align); vp_sym(p, k, sizeof(T), name); } ~VpMem() { vp_free(p); } };
constexpr size_t K = 5;  // elements of the table
#define BEG using T = TFromD<D>; constexpr size_t N = MaxLanes(D()); using DI = RebindToSigned<D>; using TI = TFromD<DI>; VpB<D> G; VpB<DI> I; T W[N]; T z; memset(&z, 0, sizeof(T)); (void)z; I.sym("index"); VpMem<T> t(K, "table");
#define INRANGE(COND) for (size_t i = 0; i < N; ++i) vp_assume(!(COND) | ((u64)I.v[i] < K));
#define OFFSETS VpB<DI> O; for (size_t i = 0; i < N; ++i) O.v[i] = (TI)(I.v[i] * (TI)sizeof(T));
template <class D> static inline void GOff(D d) { BEG INRANGE(true) OFFSETS G.store(hn::GatherOffset(d, t.p, O.load())); for (size_t i = 0; i < N; ++i) W[i] = t.p[I.v[i]]; VpCheckBits(G.v, W, N, "GatherOffset"); }
template <class D> static inline void GIdx(D d) { BEG INRANGE(true) G.store(hn::GatherIndex(d, t.p, I.load())); for (size_t i = 0; i < N; ++i) W[i] = t.p[I.v[i]]; VpCheckBits(G.v, W, N, "GatherIndex"); }
template <class D> static inline void GIdxM(D d) { BEG VpM<D> M; M.sym("mask"); VpB<D> NO; NO.sym("no"); INRANGE(M.m[i]) G.store(hn::MaskedGatherIndexOr(NO.load(), M.mask(), d, t.p, I.load())); for (size_t i = 0; i < N; ++i) { size_t j = M.m[i] ? (size_t)I.v[i] : 0; T x = t.p[j], y = NO.v[i]; W[i] = M.m[i] ? x : y; } VpCheckBits(G.v, W, N, "MaskedGatherIndexOr"); }
template <class D> static inline void GIdxMZ(D d) { BEG VpM<D> M; M.sym("mask"); INRANGE(M.m[i]) G.store(hn::MaskedGatherIndex(M.mask(), d, t.p, I.load())); for (size_t i = 0; i < N; ++i) { size_t j = M.m[i] ? (size_t)I.v[i] : 0; T x = t.p[j]; W[i] = M.m[i] ? x : z; } VpCheckBits(G.v, W, N, "MaskedGatherIndex"); }
static inline size_t AnyN(size_t k, size_t N) { if (k < N) return k; size_t n = vp_sym_u64("n"); vp_assume((n >= N) & (n <= 0x7fffffff)); return n; }
template <class D> static inline void GIdxN(D d) { BEG size_t k = vp_choose(0, N, "min(n, N)"); INRANGE(i < k) G.store(hn::GatherIndexN(d, t.p, I.load(), AnyN(k, N))); for (size_t i = 0; i < N; ++i) { T x = z; if (i < k) x = t.p[I.v[i]]; W[i] = x; } VpCheckBits(G.v, W, N, "GatherIndexN"); }
template <class D> static inline void GIdxNOr(D d) { BEG size_t k = vp_choose(0, N, "min(n, N)"); VpB<D> NO; NO.sym("no"); INRANGE(i < k) G.store(hn::GatherIndexNOr(NO.load(), d, t.p, I.load(), AnyN(k, N))); for (size_t i = 0; i < N; ++i) { T x = NO.v[i]; if (i < k) x = t.p[I.v[i]]; W[i] = x; } VpCheckBits(G.v, W, N, "GatherIndexNOr"); }
#define SBEG BEG VpB<D> A; A.sym("v"); T X[K]; memcpy(X, t.p, sizeof(X)); (void)W; (void)sizeof(G);
template <class D> static inline void SOff(D d) { SBEG INRANGE(true) OFFSETS hn::ScatterOffset(A.load(), d, t.p, O.load()); for (size_t i = 0; i < N; ++i) X[I.v[i]] = A.v[i]; VpCheckBits(t.p, X, K, "ScatterOffset"); }
template <class D> static inline void SIdx(D d) { SBEG INRANGE(true) hn::ScatterIndex(A.load(), d, t.p, I.load()); for (size_t i = 0; i < N; ++i) X[I.v[i]] = A.v[i]; VpCheckBits(t.p, X, K, "ScatterIndex"); }
template <class D> static inline void SIdxM(D d) { SBEG VpM<D> M; M.sym("mask"); INRANGE(M.m[i]) hn::MaskedScatterIndex(A.load(), M.mask(), d, t.p, I.load()); for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < K; ++j) X[j] = M.m[i] & (I.v[i] == (TI)j) ? A.v[i] : X[j]; VpCheckBits(t.p, X, K, "MaskedScatterIndex"); }
template <class D> static inline void SIdxN(D d) { SBEG size_t k = vp_choose(0, N, "min(n, N)"); INRANGE(i < k) hn::ScatterIndexN(A.load(), d, t.p, I.load(), AnyN(k, N)); for (size_t i = 0; i < k; ++i) X[I.v[i]] = A.v[i]; VpCheckBits(t.p, X, K, "ScatterIndexN"); }
#define VP_GS(FN) VP_UI32(FN) VP_UI64(FN) VP_F32F64(FN)
#define VP_GSN(FN) VP_ONE_GOAL(FN, u32) VP_ONE_GOAL(FN, i32) VP_ONE_GOAL(FN, f32) VP_ONE_GOAL(FN, u64) VP_ONE_GOAL(FN, i64) VP_ONE_GOAL(FN, f64)
VP_GS(GOff) VP_GS(GIdx) VP_GS(GIdxM) VP_GS(GIdxMZ) VP_GSN(GIdxN) VP_GSN(GIdxNOr) VP_GS(SOff) VP_GS(SIdx) VP_GS(SIdxM) VP_GSN(SIdxN)
// interleaved
template <class D> static inline void LI2(D d) { using T = TFromD<D>; constexpr size_t N = MaxLanes(D()); VpMem<T> a(2 * N, "p"); Vec<D> v0, v1; hn::LoadInterleaved2(d, a.p, v0, v1); VpB<D> G[2]; G[0].store(v0); G[1].store(v1); T W[N]; for (size_t c = 0; c < 2; ++c) { for (size_t i = 0; i < N; ++i) W[i] = a.p[2 * i + c]; VpCheckBits(G[c].v, W, N, "LoadInterleaved2"); } }
template <class D> static inline void LI3(D d) { using T = TFromD<D>; constexpr size_t N = MaxLanes(D()); VpMem<T> a(3 * N, "p"); Vec<D> v0, v1, v2; hn::LoadInterleaved3(d, a.p, v0, v1, v2); VpB<D> G[3]; G[0].store(v0); G[1].store(v1); G[2].store(v2); T W[N]; for (size_t c = 0; c < 3; ++c) { for (size_t i = 0; i < N; ++i) W[i] = a.p[3 * i + c]; VpCheckBits(G[c].v, W, N, "LoadInterleaved3"); } }
template <class D> static inline void LI4(D d) { using T = TFromD<D>; constexpr size_t N = MaxLanes(D()); VpMem<T> a(4 * N, "p"); Vec<D> v0, v1, v2, v3; hn::LoadInterleaved4(d, a.p, v0, v1, v2, v3); VpB<D> G[4]; G[0].store(v0); G[1].store(v1); G[2].store(v2); G[3].store(v3); T W[N]; for (size_t c = 0; c < 4; ++c) { for (size_t i = 0; i < N; ++i) W[i] = a.p[4 * i + c]; VpCheckBits(G[c].v, W, N, "LoadInterleaved4"); } }
template <class D> static inline void SI2(D d) { using T = TFromD<D>; constexpr size_t N = MaxLanes(D()); VpMem<T> a(2 * N, "old"); VpB<D> A[2]; A[0].sym("v0"); A[1].sym("v1"); hn::StoreInterleaved2(A[0].load(), A[1].load(), d, a.p); T W[2 * N]; for (size_t i = 0; i < 2 * N; ++i) W[i] = A[i % 2].v[i / 2]; VpCheckBits(a.p, W, 2 * N, "StoreInterleaved2"); }
template <class D> static inline void SI3(D d) { using T = TFromD<D>; constexpr size_t N = MaxLanes(D()); VpMem<T> a(3 * N, "old"); VpB<D> A[3]; A[0].sym("v0"); A[1].sym("v1"); A[2].sym("v2"); hn::StoreInterleaved3(A[0].load(), A[1].load(), A[2].load(), d, a.p); T W[3 * N]; for (size_t i = 0; i < 3 * N; ++i) W[i] = A[i % 3].v[i / 3]; VpCheckBits(a.p, W, 3 * N, "StoreInterleaved3"); }
template <class D> static inline void SI4(D d) { using T = TFromD<D>; constexpr size_t N = MaxLanes(D()); VpMem<T> a(4 * N, "old"); VpB<D> A[4]; A[0].sym("v0"); A[1].sym("v1"); A[2].sym("v2"); A[3].sym("v3"); hn::StoreInterleaved4(A[0].load(), A[1].load(), A[2].load(), A[3].load(), d, a.p); T W[4 * N]; for (size_t i = 0; i < 4 * N; ++i) W[i] = A[i % 4].v[i / 4]; VpCheckBits(a.p, W, 4 * N, "StoreInterleaved4"); }
VP_ALL(LI2) VP_ALL(LI3) VP_ALL(LI4) VP_ALL(SI2) VP_ALL(SI3) VP_ALL(SI4)
} }
