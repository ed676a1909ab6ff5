// C13: compress and expand. One check per input lane: it arrives at the position given by the number of selected lanes before it.
#include "../lib/vec.h"
namespace { namespace H {
template <class T> static inline MakeUnsigned<T> Bit(T v) { MakeUnsigned<T> u; memcpy(&u, &v, sizeof(T)); return u; }
// Masks: up to 8 lanes arbitrary (which covers every row of the 8-lane tables). For more lanes the data is arbitrary and the mask chosen: one
// group of 8 lanes takes each of a set of bytes (VP_DEEP: all 256), the groups before it and those after it repeat a chosen byte.
#ifndef VP_DEEP
#define VP_DEEP 0
#endif
template <size_t N> static inline void SymMask(bool* m, const char* name) { u8 bits[8]; constexpr size_t G = (N + 7) / 8;
  if constexpr (G <= 1) { vp_sym(bits, 8, 1, name); for (size_t i = 0; i < N; ++i) m[i] = (bits[0] >> i) & 1; } else { constexpr u8 kP[9] = {0xFF, 0x4D, 0, 0x80, 0x21, 0x94, 0xD9, 0x6F, 0xFB}; constexpr u8 kB[12] = {0, 0xFF, 1, 0x80, 0x7F, 0xFE, 0x55, 0xAA, 0x0F, 0xF0, 0x4D, 0xB2};
    constexpr size_t nb = VP_DEEP ? (G == 2 ? 8 : G == 4 ? 3 : 1) : (G == 2 ? 3 : 1), na = VP_DEEP ? 2 : G == 2 ? 1 : 0; size_t j = vp_choose(0, G - 1, "group of 8"); u8 p = 0, q = 0, x; if (j > 0) p = kP[vp_choose(0, nb, "groups before")]; if (j < G - 1) q = kP[1 + vp_choose(0, na, "groups after")];
    if (VP_DEEP) x = (u8)vp_choose(0, 255, "group's mask"); else x = kB[vp_choose(0, 11, "group's mask")];
    for (size_t i = 0; i < N; ++i) { u8 b = i / 8 == j ? x : i / 8 < j ? p : q; m[i] = (b >> (i % 8)) & 1; } } }
template <class D> struct VpCM { bool m[HWY_MAX(MaxLanes(D()), 1)]; void sym(const char* n) { SymMask<MaxLanes(D())>(m, n); } Mask<D> mask() const { VpM<D> t; memcpy(t.m, m, sizeof(m)); return t.mask(); } };
// bits[]: as m, arbitrary beyond the lanes
template <size_t N> static inline void BitsOf(const bool* m, u8* bits) { vp_sym(bits, 8, 1, "unused bits"); for (size_t i = 0; i < N; ++i) bits[i / 8] = (u8)((bits[i / 8] & ~(1u << (i % 8))) | ((unsigned)m[i] << (i % 8))); }
// G[k] for the symbolic position k, as an expression over all lanes
template <class D> static inline void CheckCompressed(D d, const TFromD<D>* G, const VpB<D>& A, const bool* m, bool part, const char* l) { using T = TFromD<D>; using U = MakeUnsigned<T>; constexpr size_t N = MaxLanes(D()); U R[N], W[N]; size_t total = 0; for (size_t i = 0; i < N; ++i) total += m[i]; size_t r = 0, f = total;
  for (size_t i = 0; i < N; ++i) { size_t pos = m[i] ? r : f; bool care = m[i] | part; U x = 0; for (size_t k = 0; k < N; ++k) x = pos == k ? Bit(G[k]) : x; W[i] = care ? Bit(A.v[i]) : (U)0; R[i] = care ? x : (U)0; r += m[i]; f += !m[i]; } VpCheckBits(R, W, N, l); }
template <class D> static inline void CompressOp(D d) { using T = TFromD<D>; constexpr size_t N = MaxLanes(D()); VpB<D> A, G; VpCM<D> M; A.sym("v"); M.sym("m"); G.store(hn::Compress(A.load(), M.mask())); CheckCompressed(d, G.v, A, M.m, CompressIsPartition<T>::value, "Compress"); }
template <class D> static inline void CompressNotOp(D d) { using T = TFromD<D>; constexpr size_t N = MaxLanes(D()); VpB<D> A, G; VpCM<D> M; A.sym("v"); M.sym("m"); G.store(hn::CompressNot(A.load(), M.mask())); bool nm[N]; for (size_t i = 0; i < N; ++i) nm[i] = !M.m[i]; CheckCompressed(d, G.v, A, nm, CompressIsPartition<T>::value, "CompressNot"); }
template <class D> static inline void CompressBitsOp(D d) { using T = TFromD<D>; constexpr size_t N = MaxLanes(D()); VpB<D> A, G; u8 bits[8]; bool m[N]; A.sym("v"); SymMask<N>(m, "m"); BitsOf<N>(m, bits); G.store(hn::CompressBits(A.load(), bits)); CheckCompressed(d, G.v, A, m, CompressIsPartition<T>::value, "CompressBits"); }
template <class D> static inline void CompressStoreOp(D d) { using T = TFromD<D>; constexpr size_t N = MaxLanes(D()); VpB<D> A; VpCM<D> M; A.sym("v"); M.sym("m"); T* p = (T*)vp_alloc(N * sizeof(T), sizeof(T)); vp_sym(p, N, sizeof(T), "old"); size_t c = hn::CompressStore(A.load(), M.mask(), d, p), total = 0; for (size_t i = 0; i < N; ++i) total += M.m[i]; vp_check(c == total, "CompressStore count"); CheckCompressed(d, p, A, M.m, false, "CompressStore"); vp_free(p); }
template <class D> static inline void CompressBitsStoreOp(D d) { using T = TFromD<D>; constexpr size_t N = MaxLanes(D()); VpB<D> A; A.sym("v"); u8 bits[8]; bool m[N]; SymMask<N>(m, "m"); BitsOf<N>(m, bits); size_t total = 0; for (size_t i = 0; i < N; ++i) total += m[i]; T* p = (T*)vp_alloc(N * sizeof(T), sizeof(T)); vp_sym(p, N, sizeof(T), "old"); size_t c = hn::CompressBitsStore(A.load(), bits, d, p); vp_check(c == total, "CompressBitsStore count"); CheckCompressed(d, p, A, m, false, "CompressBitsStore"); vp_free(p); }
template <class D> static inline void CompressBlendedStoreOp(D d) { using T = TFromD<D>; using U = MakeUnsigned<T>; constexpr size_t N = MaxLanes(D()); VpB<D> A; VpCM<D> M; A.sym("v"); M.sym("m"); T* p = (T*)vp_alloc(N * sizeof(T), sizeof(T)); T old[N]; vp_sym(p, N, sizeof(T), "old"); memcpy(old, p, sizeof(old)); size_t c = hn::CompressBlendedStore(A.load(), M.mask(), d, p), total = 0; for (size_t i = 0; i < N; ++i) total += M.m[i]; vp_check(c == total, "CompressBlendedStore count"); CheckCompressed(d, p, A, M.m, false, "CompressBlendedStore");
  U R[N], W[N]; for (size_t k = 0; k < N; ++k) { bool care = k >= total; W[k] = care ? Bit(old[k]) : (U)0; R[k] = care ? Bit(p[k]) : (U)0; } VpCheckBits(R, W, N, "CompressBlendedStore leaves the rest"); vp_free(p); }
// expand: lane i takes v[number of selected lanes before i]
template <class D> static inline void ExpandSpec(const TFromD<D>* v, const bool* m, MakeUnsigned<TFromD<D>>* W) { using U = MakeUnsigned<TFromD<D>>; constexpr size_t N = MaxLanes(D()); size_t r = 0; for (size_t i = 0; i < N; ++i) { U x = 0; for (size_t k = 0; k <= i; ++k) x = r == k ? Bit(v[k]) : x; W[i] = m[i] ? x : (U)0; r += m[i]; } }
template <class D> static inline void ExpandOp(D d) { using T = TFromD<D>; using U = MakeUnsigned<T>; constexpr size_t N = MaxLanes(D()); VpB<D> A, G; VpCM<D> M; A.sym("v"); M.sym("m"); G.store(hn::Expand(A.load(), M.mask())); U W[N]; ExpandSpec<D>(A.v, M.m, W); vp_check_eq(G.v, W, N, sizeof(T), "Expand"); }
template <class D> static inline void LoadExpandOp(D d) { using T = TFromD<D>; using U = MakeUnsigned<T>; constexpr size_t N = MaxLanes(D()); VpB<D> G; VpCM<D> M; M.sym("m"); T* p = (T*)vp_alloc(N * sizeof(T), sizeof(T)); vp_sym(p, N, sizeof(T), "p"); G.store(hn::LoadExpand(M.mask(), d, p)); U W[N]; ExpandSpec<D>(p, M.m, W); vp_check_eq(G.v, W, N, sizeof(T), "LoadExpand"); vp_free(p); }
#define VP_CE(FN) VP_ONE_ALL(FN)
VP_CE(CompressOp) VP_CE(CompressNotOp) VP_CE(CompressBitsOp) VP_CE(CompressStoreOp) VP_CE(CompressBitsStoreOp) VP_CE(CompressBlendedStoreOp) VP_CE(ExpandOp) VP_CE(LoadExpandOp)
#if HWY_TARGET != HWY_SCALAR
template <class D> static inline void CompressBlocksNotOp(D d) { constexpr size_t N = MaxLanes(D()); if constexpr (N >= 2) { VpB<D> A, G; VpM<D> M; A.sym("v"); M.sym("m"); for (size_t i = 0; i < N; i += 2) M.m[i + 1] = M.m[i]; bool nm[N]; for (size_t i = 0; i < N; ++i) nm[i] = !M.m[i]; G.store(hn::CompressBlocksNot(A.load(), M.mask())); if constexpr (N > 2) CheckCompressed(d, G.v, A, nm, true, "CompressBlocksNot"); else VpCheckBits(G.v, A.v, N, "CompressBlocksNot"); } }
VP_TYPE_GOAL(CompressBlocksNotOp, u64)
#endif
} }
