// C19: contrib/algo. Arrays of exactly `count` elements: any other access is an error in the executor.
#include "../lib/vec.h"
#include "hwy/contrib/algo/copy-inl.h"
#include "hwy/contrib/algo/find-inl.h"
#include "hwy/contrib/algo/transform-inl.h"
namespace { namespace H {
template <class T> struct Mem { T* p; size_t n; Mem(size_t k, const char* name) : n(k) { p = (T*)vp_alloc(k * sizeof(T), sizeof(T)); vp_sym(p, k, sizeof(T), name); } ~Mem() { vp_free(p); } };
template <class T> static inline T Sy(const char* n) { T x; vp_sym(&x, 1, sizeof(T), n); return x; }
// every count up to 3N+1 for N <= 4 lanes, otherwise around the multiples of N up to 3N
static inline size_t Count(size_t N) {
  if (N <= 4) return vp_choose(0, 3 * N + 1, "count");
  const size_t C[12] = {0, 1, N / 2, N - 1, N, N + 1, N + N / 2, 2 * N - 1, 2 * N, 2 * N + 1, 3 * N - 1, 3 * N}; return C[vp_choose(0, 11, "count index")];
}
constexpr size_t kMax = 3 * 64 + 2;
#define BEG using T = TFromD<D>; constexpr size_t N = MaxLanes(D()); const size_t n = Count(N); T W[3 * N + 2]; (void)W; 
template <class D> static inline void Fills(D d) { BEG Mem<T> to(n, "to"); const T v = Sy<T>("value"); hn::Fill(d, v, n, to.p); for (size_t i = 0; i < n; ++i) W[i] = v; VpCheckBits(to.p, W, n, "Fill"); }
template <class D> static inline void Copys(D d) { BEG Mem<T> f(n, "from"), to(n, "to"); for (size_t i = 0; i < n; ++i) W[i] = f.p[i]; hn::Copy(d, f.p, n, to.p); VpCheckBits(to.p, W, n, "Copy"); VpCheckBits(f.p, W, n, "Copy source"); }
VP_ONE_ALL(Fills) VP_ONE_ALL(Copys) VP_ONE_GOAL(Fills, bf16) VP_ONE_GOAL(Copys, bf16)
// The lowest bit decides; which elements are kept is chosen, the other bits are arbitrary. `to` has room for exactly the kept elements and what CompressBlendedStore may touch: nothing beyond.
struct Odd { template <class D, class V> HWY_INLINE auto operator()(D d, V v) const { return TestBit(v, Set(d, TFromD<D>{1})); } };
template <class D> static inline void CopyIfs(D d) { BEG
  u64 keep; if (n <= 9) keep = vp_choose(0, (1ull << n) - 1, "keep"); else { const u64 b = vp_choose(0, N <= 8 ? 255 : N <= 16 ? 15 : 7, "keep byte"), at = vp_choose(0, n <= 16 ? 1 : 2, "position"), o = vp_choose(0, n <= 16 ? 1 : 2, "others"); const size_t s = at == 0 ? 0 : at == 1 ? n - 8 : (n - 8) / 2; const u64 all = (o == 0 ? 0 : o == 2 ? ~0ull : 0x9669C33CA55AF00Full); keep = (all & ~(255ull << s)) | b << s; }
  Mem<T> f(n, "from"); size_t k = 0; for (size_t i = 0; i < n; ++i) { f.p[i] = (T)((f.p[i] & ~(T)1) | (T)(keep >> i & 1)); if (keep >> i & 1) W[k++] = f.p[i]; }
  Mem<T> to(k, "to"); T* end = hn::CopyIf(d, f.p, n, to.p, Odd()); vp_check(end == to.p + k, "CopyIf end"); VpCheckBits(to.p, W, k, "CopyIf"); }
#if HWY_TARGET != HWY_SCALAR
VP_ONE_GOAL(CopyIfs, u16) VP_ONE_GOAL(CopyIfs, u32) VP_ONE_GOAL(CopyIfs, i32) VP_ONE_GOAL(CopyIfs, u64)
#endif
template <class D> static inline void Finds(D d) { BEG Mem<T> f(n, "in"); const T v = Sy<T>("value"); size_t w = n; for (size_t i = n; i-- > 0;) w = f.p[i] == v ? i : w; vp_check(hn::Find(d, v, f.p, n) == w, "Find"); }
struct Below { const void* p; template <class D, class V> HWY_INLINE auto operator()(D d, V v) const { TFromD<D> t; memcpy(&t, p, sizeof t); return Lt(v, Set(d, t)); } };
template <class D> static inline void FindIfs(D d) { BEG Mem<T> f(n, "in"); size_t w = n; for (size_t i = n; i-- > 0;) w = (f.p[i] & 1) ? i : w; vp_check(hn::FindIf(d, f.p, n, Odd()) == w, "FindIf"); }
#if HWY_TARGET == HWY_EMU128  // one branch per lane
#undef VP_ONE_INT
#define VP_ONE_INT(FN) VP_ONE_GOAL(FN, u16) VP_ONE_GOAL(FN, i16) VP_ONE_GOAL(FN, u32) VP_ONE_GOAL(FN, i32) VP_ONE_GOAL(FN, u64) VP_ONE_GOAL(FN, i64)
#endif
VP_ONE_ALL(Finds) VP_ONE_INT(FindIfs)
struct Gen { u64 k; template <class D, class V> HWY_INLINE Vec<D> operator()(D d, V vi) const { const RebindToUnsigned<D> du; return BitCast(d, Add(vi, Set(du, (TFromD<decltype(du)>)k))); } };
template <class D> static inline void Gens(D d) { BEG using TU = MakeUnsigned<T>; Mem<T> o(n, "out"); const u64 k = vp_sym_u64("k"); hn::Generate(d, o.p, n, Gen{k}); for (size_t i = 0; i < n; ++i) { TU u = (TU)(k + i); memcpy(&W[i], &u, sizeof u); } VpCheckBits(o.p, W, n, "Generate"); }
template <class T> struct Log { T v[4 * 64 + 2]; size_t n; };
template <class T> struct Rec { Log<T>* l; template <class D, class V> HWY_INLINE void operator()(D d, V v) const { StoreU(v, d, l->v + l->n); l->n += Lanes(d); } };
template <class D> static inline void Eachs(D d) { BEG Mem<T> f(n, "in"); VpB<D> NO; NO.sym("no"); Log<T> l; l.n = 0; hn::Foreach(d, f.p, n, NO.load(), Rec<T>{&l}); const size_t m = (n + N - 1) / N * N; vp_check(l.n == m, "Foreach calls"); T X[4 * N]; for (size_t i = 0; i < m; ++i) X[i] = i < n ? f.p[i < n ? i : 0] : NO.v[i % N]; VpCheckBits(l.v, X, m, "Foreach"); }
VP_ONE_ALL(Gens) VP_ONE_ALL(Eachs)
struct Op1 { template <class D, class V> HWY_INLINE V operator()(D d, V v) const { const RebindToUnsigned<D> du; return BitCast(d, Add(BitCast(du, v), Set(du, 77))); } };
struct Op2 { template <class D, class V> HWY_INLINE V operator()(D d, V a, V b) const { const RebindToUnsigned<D> du; return BitCast(d, Sub(BitCast(du, a), Xor(BitCast(du, b), Set(du, 5)))); } };
struct Op3 { template <class D, class V> HWY_INLINE V operator()(D d, V a, V b, V c) const { const RebindToUnsigned<D> du; return BitCast(d, Sub(Sub(BitCast(du, a), Xor(BitCast(du, b), Set(du, 5))), And(BitCast(du, c), Set(du, 99)))); } };
template <class D> static inline void Trans(D d) { BEG using U = MakeUnsigned<T>; const size_t kind = vp_choose(1, 3, "inputs"); Mem<T> a(n, "inout"), b(n, "in1"), c(n, "in2"); Mem<T> b0(0, ""), c0(0, ""); T B[3 * N + 2], C[3 * N + 2];
  for (size_t i = 0; i < n; ++i) { U x, y, z; B[i] = b.p[i]; C[i] = c.p[i]; memcpy(&x, &a.p[i], sizeof x); memcpy(&y, &B[i], sizeof y); memcpy(&z, &C[i], sizeof z); U r = kind == 1 ? (U)(x + 77) : (U)(x - (y ^ 5)); if (kind == 3) r = (U)(r - (z & 99)); memcpy(&W[i], &r, sizeof r); }
  if (kind == 1) hn::Transform(d, a.p, n, Op1()); else if (kind == 2) hn::Transform1(d, a.p, n, b.p, Op2()); else hn::Transform2(d, a.p, n, b.p, c.p, Op3()); VpCheckBits(a.p, W, n, "Transform"); VpCheckBits(b.p, B, n, "in1"); VpCheckBits(c.p, C, n, "in2"); }
VP_ONE_INT(Trans) VP_ONE_GOAL(Trans, f32) VP_ONE_GOAL(Trans, f64)
template <class D> static inline void Repls(D d) { BEG Mem<T> a(n, "inout"); const T nw = Sy<T>("new"), old = Sy<T>("old"); for (size_t i = 0; i < n; ++i) W[i] = a.p[i] == old ? nw : a.p[i]; hn::Replace(d, a.p, n, nw, old); VpCheckBits(a.p, W, n, "Replace"); }
template <class D> static inline void ReplIfs(D d) { BEG Mem<T> a(n, "inout"); const T nw = Sy<T>("new"), t = Sy<T>("bound"); for (size_t i = 0; i < n; ++i) W[i] = a.p[i] < t ? nw : a.p[i]; hn::ReplaceIf(d, a.p, n, nw, Below{&t}); VpCheckBits(a.p, W, n, "ReplaceIf"); }
VP_ONE_ALL(Repls) VP_ONE_INT(ReplIfs)
} }
