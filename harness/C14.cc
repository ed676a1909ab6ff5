// C14: loads and stores. Every object has exactly the documented size, so any other access is an error in the executor.
#include "../lib/vec.h"
#include "hwy/cache_control.h"
namespace { namespace H {
template <class T> struct VpMem { T* p; size_t n; VpMem(size_t k, const char* name, size_t align = sizeof(T)) : n(k) { p = (T*)vp_alloc(k * sizeof(T), align); vp_sym(p, k, sizeof(T), name); } ~VpMem() { vp_free(p); } };
#define BEG using T = TFromD<D>; constexpr size_t N = MaxLanes(D()); VpB<D> G; T W[N]; (void)W; (void)sizeof(G);
template <class D> static inline void Loads(D d) { BEG { VpMem<T> a(N, "aligned", N * sizeof(T)); G.store(hn::Load(d, a.p)); VpCheckBits(G.v, a.p, N, "Load"); } { VpMem<T> a(N, "p"); G.store(hn::LoadU(d, a.p)); VpCheckBits(G.v, a.p, N, "LoadU"); }
  { VpMem<T> a(N, "old", N * sizeof(T)); VpB<D> A; A.sym("v"); hn::Store(A.load(), d, a.p); VpCheckBits(a.p, A.v, N, "Store"); } { VpMem<T> a(N, "old"); VpB<D> A; A.sym("v"); hn::StoreU(A.load(), d, a.p); VpCheckBits(a.p, A.v, N, "StoreU"); }
  { VpMem<T> a(HWY_MAX(N, HWY_STREAM_MULTIPLE / sizeof(T)), "old", 64); VpB<D> A; A.sym("v"); hn::Stream(A.load(), d, a.p); hwy::FlushStream(); VpCheckBits(a.p, A.v, N, "Stream"); } }
VP_ALL(Loads) VP_TYPE_GOAL(Loads, bf16) VP_TYPE_GOAL(Loads, f16)
template <class D> static inline void MLoads(D d) { BEG T z; memset(&z, 0, sizeof(T)); VpMem<T> a(N, "p"); VpB<D> NO; NO.sym("no"); VpM<D> K; K.sym("mask"); G.store(hn::MaskedLoadOr(NO.load(), K.mask(), d, a.p)); for (size_t i = 0; i < N; ++i) W[i] = K.m[i] ? a.p[i] : NO.v[i]; VpCheckBits(G.v, W, N, "MaskedLoadOr"); G.store(hn::MaskedLoad(K.mask(), d, a.p)); for (size_t i = 0; i < N; ++i) W[i] = K.m[i] ? a.p[i] : z; VpCheckBits(G.v, W, N, "MaskedLoad");
  VpB<D> A; A.sym("v"); for (size_t i = 0; i < N; ++i) W[i] = K.m[i] ? A.v[i] : a.p[i]; hn::BlendedStore(A.load(), K.mask(), d, a.p); VpCheckBits(a.p, W, N, "BlendedStore"); }
VP_ALL(MLoads)
#if !HWY_MEM_OPS_MIGHT_FAULT
// Only the first k elements are accessible, and no lane beyond them is selected.
template <class D> static inline void NoFault(D d) { BEG T z; memset(&z, 0, sizeof(T)); size_t k = vp_choose(0, N, "accessible"); VpMem<T> a(k, "p"); VpB<D> NO; NO.sym("no"); VpM<D> K; K.sym("mask"); for (size_t i = k; i < N; ++i) K.m[i] = false; G.store(hn::MaskedLoadOr(NO.load(), K.mask(), d, a.p)); for (size_t i = 0; i < N; ++i) W[i] = K.m[i] ? a.p[i] : NO.v[i]; VpCheckBits(G.v, W, N, "MaskedLoadOr"); G.store(hn::MaskedLoad(K.mask(), d, a.p)); for (size_t i = 0; i < N; ++i) W[i] = K.m[i] ? a.p[i] : z; VpCheckBits(G.v, W, N, "MaskedLoad");
  VpB<D> A; A.sym("v"); for (size_t i = 0; i < k; ++i) W[i] = K.m[i] ? A.v[i] : a.p[i]; hn::BlendedStore(A.load(), K.mask(), d, a.p); VpCheckBits(a.p, W, k, "BlendedStore"); }
VP_ONE_GOAL(NoFault, u8) VP_ONE_GOAL(NoFault, i16) VP_ONE_GOAL(NoFault, u32) VP_ONE_GOAL(NoFault, f32) VP_ONE_GOAL(NoFault, i64) VP_ONE_GOAL(NoFault, f64)
#endif
// first n lanes: exactly min(n, N) elements are accessible, or n is any value >= N and all memory of the aligned block is accessible.
template <class T> struct VpPart : VpMem<T> { size_t cnt; VpPart(size_t k, bool any, size_t N, const char* name) : VpMem<T>(any ? 64 / sizeof(T) : k, name, any ? 64 : sizeof(T)) { cnt = k; if (any) { cnt = vp_sym_u64("n"); vp_assume(cnt >= N); } } };
template <class D> static inline void LoadNs(D d) { BEG size_t k = vp_choose(0, N + 1, "min(n, N)"); const bool any = k > N; if (any) k = N; VpPart<T> a(k, any, N, "p"); size_t n = a.cnt; T z; memset(&z, 0, sizeof(T)); G.store(hn::LoadN(d, a.p, n)); for (size_t i = 0; i < N; ++i) W[i] = i < k ? a.p[i < k ? i : 0] : z; VpCheckBits(G.v, W, N, "LoadN"); }
template <class D> static inline void LoadNOrs(D d) { BEG size_t k = vp_choose(0, N + 1, "min(n, N)"); const bool any = k > N; if (any) k = N; VpPart<T> a(k, any, N, "p"); size_t n = a.cnt; VpB<D> NO; NO.sym("no"); G.store(hn::LoadNOr(NO.load(), d, a.p, n)); for (size_t i = 0; i < N; ++i) W[i] = i < k ? a.p[i < k ? i : 0] : NO.v[i]; VpCheckBits(G.v, W, N, "LoadNOr"); }
template <class D> static inline void StoreNs(D d) { BEG size_t k = vp_choose(0, N + 1, "min(n, N)"); const bool any = k > N; if (any) k = N; VpPart<T> a(k, any, N, "old"); size_t n = a.cnt; VpB<D> A; A.sym("v"); hn::StoreN(A.load(), d, a.p, n); VpCheckBits(a.p, A.v, k, "StoreN"); }
template <class D> static inline void SafeNs(D d) { BEG size_t k = vp_choose(0, N, "num"); { VpMem<T> f(k, "from"), t(k, "to"); hn::SafeCopyN(k, d, f.p, t.p); VpCheckBits(t.p, f.p, k, "SafeCopyN"); } { VpMem<T> t(k, "to"); T v; vp_sym(&v, 1, sizeof(T), "value"); hn::SafeFillN(k, v, d, t.p); for (size_t i = 0; i < k; ++i) W[i] = v; VpCheckBits(t.p, W, k, "SafeFillN"); } }
VP_ONE_ALL(LoadNs) VP_ONE_GOAL(LoadNs, bf16) VP_ONE_GOAL(LoadNs, f16) VP_ONE_ALL(LoadNOrs) VP_ONE_GOAL(LoadNOrs, bf16) VP_ONE_ALL(StoreNs) VP_ONE_GOAL(StoreNs, bf16) VP_ONE_GOAL(StoreNs, f16) VP_ONE_ALL(SafeNs)
// narrowing store
template <class TT, class D> static inline void TruncSt(D d) { BEG using DT = Rebind<TT, D>; VpMem<TT> a(N, "old"); VpB<D> A; A.sym("v"); TT X[N]; hn::TruncateStore(A.load(), d, a.p); for (size_t i = 0; i < N; ++i) X[i] = (TT)A.v[i]; vp_check_eq(a.p, X, N, sizeof(TT), "TruncateStore"); }
#define TS(F, T) VP_GOAL(TruncSt_##F##_##T) { VpSizes<F>([](auto d) __attribute__((always_inline)) { TruncSt<T>(d); }); }
TS(u16, u8) TS(u32, u8) TS(u64, u8) TS(u32, u16) TS(u64, u16) TS(u64, u32)
#if HWY_TARGET != HWY_SCALAR
template <class D> static inline void Dup128(D d) { BEG if constexpr (N * sizeof(T) >= 16) { constexpr size_t L = 16 / sizeof(T); VpMem<T> a(L, "p"); G.store(hn::LoadDup128(d, a.p)); for (size_t i = 0; i < N; ++i) W[i] = a.p[i % L]; VpCheckBits(G.v, W, N, "LoadDup128"); } }
VP_ALL(Dup128) VP_TYPE_GOAL(Dup128, bf16)
template <class D> static inline void InsUpper(D d) { BEG if constexpr (N >= 2) { VpMem<T> a(N / 2, "p"); VpB<D> A; A.sym("v"); G.store(hn::InsertIntoUpper(d, a.p, A.load())); for (size_t i = 0; i < N; ++i) W[i] = i < N / 2 ? A.v[i] : a.p[i % (N / 2)]; VpCheckBits(G.v, W, N, "InsertIntoUpper"); } }
VP_ALL(InsUpper)
#endif
} }
