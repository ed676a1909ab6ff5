// C04: shifts and rotates.
#include "../lib/vec.h"
namespace { namespace H {
#define BITS ((int)(8 * sizeof(T)))
template <class T> static inline T Shl(T x, unsigned k) { return (T)((MakeUnsigned<T>)x << k); }
template <class T> static inline T Shr(T x, unsigned k) { return (T)(x >> k); }  // arithmetic if signed
// ((x >> (k-1)) + 1) >> 1 with the addition modulo 2^bits in T for signed/unsigned lanes
template <class T> static inline T RoundShr(T x, unsigned k) { const __int128 w = (__int128)(T)(x >> ((k - 1) & (8 * sizeof(T) - 1))); return k == 0 ? x : (T)((w + 1) >> 1); }
template <class T> static inline T Rol_(T x, unsigned k) { using U = MakeUnsigned<T>; const unsigned m = 8 * sizeof(T) - 1; k &= m; return (T)(U)(((U)x << k) | ((U)x >> ((0u - k) & m))); }
template <class T> static inline T Ror_(T x, unsigned k) { return Rol_<T>(x, (0u - k) & (8 * sizeof(T) - 1)); }
VP_K1(ShiftLeft, BITS, hn::ShiftLeft<K>(a), Shl(x, K))
VP_K1(ShiftRight, BITS, hn::ShiftRight<K>(a), Shr(x, K))
VP_K1(RoundingShiftRight, BITS, hn::RoundingShiftRight<K>(a), RoundShr(x, K))
VP_K1(RotateLeft, BITS, hn::RotateLeft<K>(a), Rol_(x, K))
VP_K1(RotateRight, BITS, hn::RotateRight<K>(a), Ror_(x, K))
VP_WIDE_INT(ShiftLeft) VP_WIDE_INT(ShiftRight) VP_WIDE_INT(RoundingShiftRight) VP_WIDE_INT(RotateLeft) VP_WIDE_INT(RotateRight)
// The same for every partial vector, with a few amounts.
template <int I> constexpr int SomeK(int bits) { return I == 0 ? 0 : I == 1 ? 1 : I == 2 ? bits / 2 + 1 : bits - 1; }
#define SK SomeK<K>(BITS)
VP_K1(ShiftLeftPart, 4, hn::ShiftLeft<SK>(a), Shl(x, SK))
VP_K1(ShiftRightPart, 4, hn::ShiftRight<SK>(a), Shr(x, SK))
VP_K1(RoundingShiftRightPart, 4, hn::RoundingShiftRight<SK>(a), RoundShr(x, SK))
VP_K1(RotateLeftPart, 4, hn::RotateLeft<SK>(a), Rol_(x, SK))
VP_K1(RotateRightPart, 4, hn::RotateRight<SK>(a), Ror_(x, SK))
VP_INT(ShiftLeftPart) VP_INT(ShiftRightPart) VP_INT(RoundingShiftRightPart) VP_INT(RotateLeftPart) VP_INT(RotateRightPart)
// Uniform runtime amount, symbolic over the documented range (rotations: any int).
#define SAME(NAME, LO, HI, EXPR, SPEC) \
  template <class D> static inline void NAME(D d) { using T = TFromD<D>; constexpr size_t N = MaxLanes(D()); VpB<D> A, G; T W[N]; A.sym("a"); auto a = A.load(); const int k = (int)(int64_t)vp_range(0, (HI) - (LO), "k") + (LO); \
    G.store(EXPR); for (size_t i = 0; i < N; ++i) { T x = A.v[i]; W[i] = (T)(SPEC); } VpCheckBits(G.v, W, N, #NAME); }
SAME(ShiftLeftSame, 0, BITS - 1, hn::ShiftLeftSame(a, k), Shl(x, k))
SAME(ShiftRightSame, 0, BITS - 1, hn::ShiftRightSame(a, k), Shr(x, k))
SAME(RoundingShiftRightSame, 0, BITS - 1, hn::RoundingShiftRightSame(a, k), RoundShr(x, k))
SAME(RotateLeftSame, -BITS, 2 * BITS, hn::RotateLeftSame(a, k), Rol_(x, (unsigned)k))
SAME(RotateRightSame, -BITS, 2 * BITS, hn::RotateRightSame(a, k), Ror_(x, (unsigned)k))
VP_INT(ShiftLeftSame) VP_INT(ShiftRightSame) VP_INT(RoundingShiftRightSame) VP_INT(RotateLeftSame) VP_INT(RotateRightSame)
// Per-lane amounts.
#define PERLANE(NAME, MASK, EXPR, SPEC) \
  template <class D> static inline void NAME(D d) { using T = TFromD<D>; constexpr size_t N = MaxLanes(D()); VpB<D> A, B, G; T W[N]; A.sym("a"); B.sym("b"); if (MASK) for (size_t i = 0; i < N; ++i) B.v[i] = (T)(B.v[i] & (BITS - 1)); \
    auto a = A.load(); auto b = B.load(); G.store(EXPR); for (size_t i = 0; i < N; ++i) { T x = A.v[i]; unsigned k = (unsigned)B.v[i] & (BITS - 1); W[i] = (T)(SPEC); } VpCheckBits(G.v, W, N, #NAME); }
PERLANE(ShlV, 1, hn::Shl(a, b), Shl(x, k))
PERLANE(ShrV, 1, hn::Shr(a, b), Shr(x, k))
PERLANE(OpShl, 1, a << b, Shl(x, k))
PERLANE(OpShr, 1, a >> b, Shr(x, k))
PERLANE(RoundingShr, 1, hn::RoundingShr(a, b), RoundShr(x, k))
PERLANE(Rol, 0, hn::Rol(a, b), Rol_(x, k))
PERLANE(Ror, 0, hn::Ror(a, b), Ror_(x, k))
VP_INT(ShlV) VP_INT(ShrV) VP_INT(OpShl) VP_INT(OpShr) VP_INT(RoundingShr) VP_INT(Rol) VP_INT(Ror)
// Masked forms.
#define MSH(NAME, EXPR, SPEC, ELSE) \
  template <class D> static inline void NAME(D d) { using T = TFromD<D>; constexpr size_t N = MaxLanes(D()); VpB<D> A, B, NO; VpM<D> M; A.sym("a"); B.sym("b"); NO.sym("no"); M.sym("m"); for (size_t i = 0; i < N; ++i) B.v[i] = (T)(B.v[i] & (BITS - 1)); \
    VpUpTo<4>([&](auto kk) __attribute__((always_inline)) { constexpr int K = SomeK<decltype(kk)::value>(BITS); (void)K; VpB<D> G; T W[N]; auto a = A.load(); auto b = B.load(); auto no = NO.load(); auto m = M.mask(); (void)a; (void)b; (void)no; G.store(EXPR); \
    for (size_t i = 0; i < N; ++i) { T x = A.v[i]; unsigned k = (unsigned)B.v[i]; (void)k; T s = (T)(SPEC), e = (T)(ELSE); W[i] = M.m[i] ? s : e; } VpCheckBits(G.v, W, N, #NAME); }); }
MSH(MaskedShiftLeft, hn::MaskedShiftLeft<K>(m, a), Shl(x, K), 0)
MSH(MaskedShiftRight, hn::MaskedShiftRight<K>(m, a), Shr(x, K), 0)
MSH(MaskedShiftRightOr, hn::MaskedShiftRightOr<K>(no, m, a), Shr(x, K), NO.v[i])
MSH(MaskedShrOr, hn::MaskedShrOr(no, m, a, b), Shr(x, k), NO.v[i])
VP_INT(MaskedShiftLeft) VP_INT(MaskedShiftRight) VP_INT(MaskedShiftRightOr) VP_INT(MaskedShrOr)
#if HWY_TARGET != HWY_SCALAR
// Whole blocks (or the whole partial vector), by bytes and lanes.
#define BL (N * sizeof(T) < 16 ? N : 16 / sizeof(T))
template <class T> static inline T ByteShift(const T* v, size_t i, size_t L, int k, int dir, const T* hi = nullptr) {  // dir 1: up (left); -1: down; lanes [i/L*L, +L)
  const u8* p = (const u8*)(v + i / L * L); const u8* q = hi ? (const u8*)(hi + i / L * L) : nullptr; T r; u8* o = (u8*)&r; const int S = (int)(L * sizeof(T));
  for (int b = 0; b < (int)sizeof(T); ++b) { int pos = (int)(i % L * sizeof(T)) + b - dir * k; o[b] = pos < 0 ? 0 : pos < S ? p[pos] : q && pos - S < S ? q[pos - S] : 0; } return r;
}
VP_K1(ShiftLeftBytes, 16, hn::ShiftLeftBytes<K>(a), ByteShift(A.v, i, BL, K, 1))
VP_K1(ShiftLeftBytesD, 16, hn::ShiftLeftBytes<K>(d, a), ByteShift(A.v, i, BL, K, 1))
VP_K1(ShiftRightBytes, 16, hn::ShiftRightBytes<K>(d, a), ByteShift(A.v, i, BL, K, -1))
#define LANES16 (int)(16 / sizeof(T))
VP_K1(ShiftLeftLanes, LANES16, hn::ShiftLeftLanes<K>(a), ByteShift(A.v, i, BL, K * (int)sizeof(T), 1))
VP_K1(ShiftLeftLanesD, LANES16, hn::ShiftLeftLanes<K>(d, a), ByteShift(A.v, i, BL, K * (int)sizeof(T), 1))
VP_K1(ShiftRightLanes, LANES16, hn::ShiftRightLanes<K>(d, a), ByteShift(A.v, i, BL, K * (int)sizeof(T), -1))
VP_UNSIGNED(ShiftLeftBytes) VP_UNSIGNED(ShiftLeftBytesD) VP_UNSIGNED(ShiftRightBytes) VP_ALL(ShiftLeftLanes) VP_ALL(ShiftLeftLanesD) VP_ALL(ShiftRightLanes)
template <class D> static inline void CombineShiftRightBytes(D d) { using T = TFromD<D>; constexpr size_t N = MaxLanes(D()); VpB<D> A, B; A.sym("hi"); B.sym("lo"); constexpr int S = (int)(BL * sizeof(T));
  VpUpTo<S - 1>([&](auto kk) __attribute__((always_inline)) { constexpr int K = decltype(kk)::value + 1; VpB<D> G; T W[N]; G.store(hn::CombineShiftRightBytes<K>(d, A.load(), B.load())); for (size_t i = 0; i < N; ++i) W[i] = ByteShift(B.v, i, BL, K, -1, A.v); VpCheckBits(G.v, W, N, "CombineShiftRightBytes"); }); }
template <class D> static inline void CombineShiftRightLanes(D d) { using T = TFromD<D>; constexpr size_t N = MaxLanes(D()); VpB<D> A, B; A.sym("hi"); B.sym("lo"); constexpr int S = (int)BL;
  VpUpTo<S - 1>([&](auto kk) __attribute__((always_inline)) { constexpr int K = decltype(kk)::value + 1; VpB<D> G; T W[N]; G.store(hn::CombineShiftRightLanes<K>(d, A.load(), B.load())); for (size_t i = 0; i < N; ++i) W[i] = ByteShift(B.v, i, BL, K * (int)sizeof(T), -1, A.v); VpCheckBits(G.v, W, N, "CombineShiftRightLanes"); }); }
VP_UNSIGNED(CombineShiftRightBytes) VP_ALL(CombineShiftRightLanes)
#endif
// Byte j of lane i is (v[i] rotated right by idx[8i+j]) & 0xff.
template <class D, class TI> static inline void MultiRot(D d) { using T = TFromD<D>; constexpr size_t N = MaxLanes(D()); Repartition<TI, D> di; VpB<D> A, G; VpB<decltype(di)> I; T W[N];
  if constexpr (HWY_TARGET != HWY_SCALAR) { A.sym("a"); I.sym("idx"); for (size_t i = 0; i < 8 * N; ++i) I.v[i] = (TI)(I.v[i] & 63); G.store(hn::MultiRotateRight(A.load(), I.load()));
  u8 w[8 * N]; for (size_t i = 0; i < 8 * N; ++i) w[i] = (u8)Ror_<u64>((u64)A.v[i / 8], (unsigned)I.v[i]); vp_check_eq(G.v, w, 8 * N, 1, "MultiRotateRight"); } }
template <class D> static inline void MultiRotateRightU(D d) { MultiRot<D, u8>(d); }
template <class D> static inline void MultiRotateRightI(D d) { MultiRot<D, i8>(d); }
#if HWY_TARGET != HWY_SCALAR
VP_UI64(MultiRotateRightU) VP_UI64(MultiRotateRightI)
#endif
} }
