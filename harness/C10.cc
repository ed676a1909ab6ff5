// C10: conversions to, from and between floating-point types.
#include "../lib/vec.h"
namespace { namespace H {
template <class TI, class TO, size_t N, class F> static inline __attribute__((always_inline)) void PairsFrom(F f) { constexpr size_t S = sizeof(TI) > sizeof(TO) ? sizeof(TI) : sizeof(TO); if constexpr (N * S <= HWY_LANES(u8) || N == 1) { f(CappedTag<TI, N>(), Rebind<TO, CappedTag<TI, N>>()); if constexpr (N * 2 * S <= HWY_LANES(u8) && HWY_TARGET != HWY_SCALAR) PairsFrom<TI, TO, N * 2>(f); } }
#define PAIR(FN, TI, TO) VP_GOAL(FN##_##TI##_##TO) { PairsFrom<hn::TI, hn::TO, 1>([](auto di, auto dw) __attribute__((always_inline)) { FN(di, dw); }); }
#define BODY using T = TFromD<DI>; using TO = TFromD<DO>; constexpr size_t N = MaxLanes(DI()), M = MaxLanes(DO()); (void)N; (void)M; (void)di; (void)dw; VpB<DI> A; VpB<DO> G; TO W[M]; A.sym("a"); auto a = A.load();
#define OUT(EXPR, SPEC, L) { G.store(EXPR); for (size_t i = 0; i < M; ++i) { const T x = A.v[i]; W[i] = (SPEC); } VpCheck(G.v, W, M, L); }
// lanes whose result is not specified (COND) match
#define OUTN(COND, EXPR, SPEC, L) { G.store(EXPR); for (size_t i = 0; i < M; ++i) { const T x = A.v[i]; W[i] = (SPEC); if (COND) W[i] = G.v[i]; } VpCheck(G.v, W, M, L); }
template <class T> static inline MakeUnsigned<T> Bits(T x) { MakeUnsigned<T> b; memcpy(&b, &x, sizeof b); return b; }
template <class T> static inline T From(MakeUnsigned<T> b) { T x; memcpy(&x, &b, sizeof b); return x; }
template <class T> constexpr int MB() { return sizeof(T) == 4 ? 23 : 52; }
template <class T> static inline T Pow2(int e) { return From<T>((MakeUnsigned<T>)(e + (sizeof(T) == 4 ? 127 : 1023)) << MB<T>()); }
// Saturated conversion of a real number, rounding mode 0 nearest even, 1 toward zero, 2 up, 3 down; from the bit pattern.
template <class TO, class T> static inline TO F2I(T x, int mode) {
  using U = MakeUnsigned<T>; using UO = MakeUnsigned<TO>; constexpr int M = MB<T>(), W = sizeof(T) * 8; constexpr int bias = (1 << (W - 2 - M)) - 1; const U b = Bits(x), m = b << 1 >> 1; const bool neg = b >> (W - 1);
  const int e = (int)(m >> M) - bias; const u64 sig = (u64)((m & (((U)1 << M) - 1)) | ((U)1 << M)); constexpr int top = sizeof(TO) * 8 - (IsSigned<TO>() ? 1 : 0); // |result| < 2^top, or -2^top
  u64 ip; bool up;
  if (e < 0) { ip = 0; const bool nz = m != 0, half = e == -1, more = half && sig != ((u64)1 << M); up = mode == 0 ? more : mode == 1 ? false : mode == 2 ? !neg && nz : neg && nz; }
  else if (e >= M) { ip = sig << ((e - M) & 63); if (e > 63) ip = 0; up = false; }
  else { const int k = M - e; ip = sig >> k; const u64 fr = sig & (((u64)1 << k) - 1), h = (u64)1 << (k - 1); up = mode == 0 ? (fr > h || (fr == h && (ip & 1))) : mode == 1 ? false : mode == 2 ? !neg && fr : neg && fr; }
  ip += up; const bool big = e > 63;
  if (neg) { if (!IsSigned<TO>()) return 0; if (big || ip > ((u64)1 << (top & 63))) return LimitsMin<TO>(); return (TO)(UO)(0 - ip); }
  if (big || (top < 64 && ip >> (top & 63))) return LimitsMax<TO>(); return (TO)ip;
}
static inline f32 PromF16(u16 h) { const u16 m = h & 0x7FFF, e = m >> 10; const u32 s = (u32)(h >> 15) << 31; if (e == 0) return From<f32>(Bits((f32)m * 0x1p-24f) | s); return From<f32>(s | ((u32)m << 13) + (e == 31 ? 0x70000000u : 0x38000000u)); }
// narrowing to a format with MO mantissa bits and EO exponent bits, nearest even
template <class T, int MO, int EO> static inline u16 Narrow(T x) {
  using U = MakeUnsigned<T>; constexpr int M = MB<T>(), W = sizeof(T) * 8, EI = W - 1 - M, bi = (1 << (EI - 1)) - 1, bo = (1 << (EO - 1)) - 1, D = M - MO; const U b = Bits(x), m = b << 1 >> 1; const u16 s = (u16)((b >> (W - 1)) << 15); constexpr U inf = (U)((1 << EI) - 1) << M;
  if (m > inf) return (u16)(s | ((1 << EO) - 1) << MO | (1 << (MO - 1))); // a NaN
  const int e = (int)(m >> M); U r;
  if (e >= bi - bo + 1) { const U t = m - ((U)(bi - bo) << M); r = (t >> D) + (((t & (((U)1 << D) - 1)) > ((U)1 << (D - 1)) - ((t >> D) & 1)) ? 1 : 0); if (r > (U)(((1 << EO) - 1) << MO)) r = (U)(((1 << EO) - 1) << MO); }
  else { const U sig = (m & (((U)1 << M) - 1)) | ((U)1 << M); const int sh = D + (bi - bo + 1 - e); if (sh > M + 2) r = 0; else { const U f = sig & (((U)1 << (sh & (W - 1))) - 1), h = (U)1 << ((sh - 1) & (W - 1)); r = sig >> (sh & (W - 1)); r += f > h - (r & 1); } if (e == 0) r = 0; }
  return (u16)(s | (u16)r);
}
static inline u16 NarrowBF(f32 x) { const u32 b = Bits(x), m = b << 1 >> 1; if (m > 0x7F800000u) return (u16)(b >> 16 | 0x40); return (u16)((b + 0x7FFF + (b >> 16 & 1)) >> 16); }
template <class TO> static inline TO HB(u16 b) { TO r; memcpy(&r, &b, 2); return r; }
template <class T> static inline u16 H16(T x) { u16 r; memcpy(&r, &x, 2); return r; }

// ---- float -> integer
template <class DI, class DO> static inline void FtoI(DI di, DO dw) { BODY OUTN(x != x, hn::ConvertTo(dw, a), (F2I<TO, T>(x, 1)), "ConvertTo") }
template <class DI, class DO> static inline void FtoIIn(DI di, DO dw) { BODY OUTN(!(x < Pow2<T>(sizeof(TO) * 8 - (IsSigned<TO>() ? 1 : 0)) && (IsSigned<TO>() ? x >= -Pow2<T>(sizeof(TO) * 8 - 1) : x > -1)), hn::ConvertInRangeTo(dw, a), (F2I<TO, T>(x, 1)), "ConvertInRangeTo") }
template <class DI, class DO> static inline void Near(DI di, DO dw) { BODY OUTN(x != x, hn::NearestInt(a), (F2I<TO, T>(x, 0)), "NearestInt") }
template <class DI, class DO> static inline void CeilI(DI di, DO dw) { BODY OUTN(x != x, hn::CeilInt(a), (F2I<TO, T>(x, 2)), "CeilInt") }
template <class DI, class DO> static inline void FloorI(DI di, DO dw) { BODY OUTN(x != x, hn::FloorInt(a), (F2I<TO, T>(x, 3)), "FloorInt") }
PAIR(FtoI, f32, i32) PAIR(FtoI, f32, u32) PAIR(FtoI, f64, i64) PAIR(FtoI, f64, u64) PAIR(FtoIIn, f32, i32) PAIR(FtoIIn, f32, u32) PAIR(FtoIIn, f64, i64) PAIR(FtoIIn, f64, u64)
PAIR(Near, f32, i32) PAIR(Near, f64, i64) PAIR(CeilI, f32, i32) PAIR(CeilI, f64, i64) PAIR(FloorI, f32, i32) PAIR(FloorI, f64, i64)
template <class DI, class DO> static inline void FtoIP(DI di, DO dw) { BODY OUTN(x != x, hn::PromoteTo(dw, a), (F2I<TO, T>(x, 1)), "PromoteTo") }
template <class DI, class DO> static inline void FtoIPIn(DI di, DO dw) { BODY OUTN(!(x < Pow2<T>(sizeof(TO) * 8 - (IsSigned<TO>() ? 1 : 0)) && (IsSigned<TO>() ? x >= -Pow2<T>(sizeof(TO) * 8 - 1) : x > -1)), hn::PromoteInRangeTo(dw, a), (F2I<TO, T>(x, 1)), "PromoteInRangeTo") }
PAIR(FtoIP, f32, i64) PAIR(FtoIP, f32, u64) PAIR(FtoIPIn, f32, i64) PAIR(FtoIPIn, f32, u64)
template <class DI, class DO> static inline void FtoID(DI di, DO dw) { BODY OUTN(x != x, hn::DemoteTo(dw, a), (F2I<TO, T>(x, 1)), "DemoteTo") }
template <class DI, class DO> static inline void FtoIDIn(DI di, DO dw) { BODY OUTN(!(x < Pow2<T>(sizeof(TO) * 8 - (IsSigned<TO>() ? 1 : 0)) && (IsSigned<TO>() ? x > -Pow2<T>(sizeof(TO) * 8 - 1) - 1 : x > -1)), hn::DemoteInRangeTo(dw, a), (F2I<TO, T>(x, 1)), "DemoteInRangeTo") }
template <class DI, class DO> static inline void DemNear(DI di, DO dw) { BODY OUTN(x != x, hn::DemoteToNearestInt(dw, a), (F2I<TO, T>(x, 0)), "DemoteToNearestInt") }
PAIR(FtoID, f64, i32) PAIR(FtoID, f64, u32) PAIR(FtoIDIn, f64, i32) PAIR(FtoIDIn, f64, u32) PAIR(DemNear, f64, i32)
// ---- integer -> float
template <class DI, class DO> static inline void ItoF(DI di, DO dw) { BODY OUT(hn::ConvertTo(dw, a), (TO)x, "ConvertTo") }
PAIR(ItoF, i32, f32) PAIR(ItoF, u32, f32) PAIR(ItoF, i64, f64) PAIR(ItoF, u64, f64)
template <class DI, class DO> static inline void ItoFP(DI di, DO dw) { BODY OUT(hn::PromoteTo(dw, a), (TO)x, "PromoteTo") }
PAIR(ItoFP, i32, f64) PAIR(ItoFP, u32, f64)
// c == 0: values that fit in 53 (signed) or 52 bits; else all lanes have their first bit differing from the sign at position 51 + c, the same for all lanes. Together they cover every value of a lane.
template <class DI, class DO> static inline void ItoFD(DI di, DO dw, u64 c, bool neg) { BODY const u64 one = 1; for (size_t i = 0; i < N; ++i) { u64 m = (u64)A.v[i] & ((one << (51 + c)) - 1); if (c == 0) m = IsSigned<T>() ? (u64)((i64)((u64)A.v[i] << 12) >> 12) : (u64)A.v[i] >> 12; else { m |= one << (51 + c); if (neg) m = ~m; } A.v[i] = (T)m; } a = A.load(); OUT(hn::DemoteTo(dw, a), (TO)x, "DemoteTo") }
VP_GOAL(ItoFD_u64_f32) { const u64 c = vp_choose(0, 12, "top bit"); PairsFrom<hn::u64, hn::f32, 1>([c](auto di, auto dw) __attribute__((always_inline)) { ItoFD(di, dw, c, false); }); }
VP_GOAL(ItoFD_i64_f32) { const u64 c = vp_choose(0, 11, "top bit"); const bool neg = vp_choose(0, c ? 1 : 0, "negative"); PairsFrom<hn::i64, hn::f32, 1>([c, neg](auto di, auto dw) __attribute__((always_inline)) { ItoFD(di, dw, c, neg); }); }
// ---- float -> float
template <class DI, class DO> static inline void FProm(DI di, DO dw) { BODY OUT(hn::PromoteTo(dw, a), (TO)x, "PromoteTo") }
// magnitudes above the largest float: infinity, or that float
template <class DI, class DO> static inline void FDemS(DI di, DO dw) { BODY OUTN((x > 0 ? G.v[i] == From<f32>(0x7F7FFFFF) : G.v[i] == From<f32>(0xFF7FFFFF)) && !(x <= (T)From<f32>(0x7F7FFFFF) && x >= (T)From<f32>(0xFF7FFFFF)), hn::DemoteTo(dw, a), (TO)x, "DemoteTo") }
PAIR(FProm, f32, f64) PAIR(FDemS, f64, f32)
template <class DI, class DO> static inline void HProm(DI di, DO dw) { BODY OUTN((H16(x) & 0x7C00) == 0x7C00, hn::PromoteTo(dw, a), (TO)PromF16(H16(x)), "PromoteTo") }
PAIR(HProm, f16, f32) PAIR(HProm, f16, f64)
template <class DI, class DO> static inline void BProm(DI di, DO dw) { BODY OUT(hn::PromoteTo(dw, a), From<f32>((u32)H16(x) << 16), "PromoteTo") }
PAIR(BProm, bf16, f32)
template <class DI, class DO> static inline void HDem(DI di, DO dw) { BODY OUT(hn::DemoteTo(dw, a), (HB<TO>(Narrow<T, 10, 5>(x))), "DemoteTo") }
PAIR(HDem, f32, f16) PAIR(HDem, f64, f16)
// bfloat16: rounding or truncation is unspecified
#if HWY_TARGET <= HWY_AVX3_ZEN4  // vcvtneps2bf16 reads subnormals as zero
#define BFZERO(g, b, m) (((m) < 0x800000u) & ((g) == (u16)((b) >> 16 & 0x8000)))
#else
#define BFZERO(g, b, m) false
#endif
#define BFOK(OUTV, X) { const u32 b = Bits(X), m = b << 1 >> 1; const u16 g = H16(OUTV); ok &= BFZERO(g, b, m) | (g == (u16)(b >> 16)) | (m > 0x7F800000u ? (g & 0x7FFF) > 0x7F80 : g == NarrowBF(X)); }
template <class DI, class DO> static inline void BDem(DI di, DO dw) { BODY (void)W; G.store(hn::DemoteTo(dw, a)); bool ok = true; for (size_t i = 0; i < M; ++i) BFOK(G.v[i], A.v[i]) vp_check(ok, "DemoteTo"); }
PAIR(BDem, f32, bf16)
// ---- halves of a vector
#if HWY_TARGET != HWY_SCALAR
template <class TI, class TO, size_t M, class F> static inline __attribute__((always_inline)) void WideFrom(F f) { if constexpr (M * sizeof(TO) <= HWY_LANES(u8)) { f(CappedTag<TI, 2 * M>(), CappedTag<TO, M>()); WideFrom<TI, TO, 2 * M>(f); } }
#define WPAIR(FN, TI, TO) VP_GOAL(FN##_##TI##_##TO) { WideFrom<hn::TI, hn::TO, 1>([](auto di, auto dw) __attribute__((always_inline)) { FN(di, dw); }); }
#define OUTI(EXPR, IDX, SPEC, L) { G.store(EXPR); for (size_t i = 0; i < M; ++i) { const T x = A.v[IDX]; W[i] = (SPEC); if constexpr (IsFloat<T>() && !IsFloat<TO>()) { if (x != x) W[i] = G.v[i]; } if constexpr (IsSame<T, f16>()) { if ((H16(x) & 0x7C00) == 0x7C00) W[i] = G.v[i]; } } VpCheck(G.v, W, M, L); }
#define HALVES(NAME, SPEC) template <class DI, class DO> static inline void NAME(DI di, DO dw) { BODY OUTI(hn::PromoteLowerTo(dw, a), i, SPEC, "PromoteLowerTo") OUTI(hn::PromoteUpperTo(dw, a), M + i, SPEC, "PromoteUpperTo") OUTI(hn::PromoteEvenTo(dw, a), 2 * i, SPEC, "PromoteEvenTo") OUTI(hn::PromoteOddTo(dw, a), 2 * i + 1, SPEC, "PromoteOddTo") }
HALVES(LUF, (TO)x) HALVES(LUI, (F2I<TO, T>(x, 1))) HALVES(LUH, PromF16(H16(x))) HALVES(LUB, From<f32>((u32)H16(x) << 16))
WPAIR(LUF, f32, f64) WPAIR(LUF, i32, f64) WPAIR(LUF, u32, f64) WPAIR(LUI, f32, i64) WPAIR(LUI, f32, u64) WPAIR(LUH, f16, f32) WPAIR(LUB, bf16, f32)
// ---- two vectors into one of bfloat16
template <class TI, class TO, size_t N, class F> static inline __attribute__((always_inline)) void NarrowFrom(F f) { if constexpr (N * sizeof(TI) <= HWY_LANES(u8)) { f(CappedTag<TI, N>(), CappedTag<TO, 2 * N>()); NarrowFrom<TI, TO, 2 * N>(f); } }
#define NPAIR(FN, TI, TO) VP_GOAL(FN##_##TI##_##TO) { NarrowFrom<hn::TI, hn::TO, 1>([](auto di, auto dw) __attribute__((always_inline)) { FN(di, dw); }); }
template <class DI, class DO> static inline void BDem2(DI di, DO dw) { BODY (void)W; VpB<DI> B; B.sym("b"); T in[M]; for (size_t i = 0; i < N; ++i) { in[i] = A.v[i]; in[N + i] = B.v[i]; } bool ok = true;
  G.store(hn::OrderedDemote2To(dw, a, B.load())); for (size_t i = 0; i < M; ++i) BFOK(G.v[i], in[i]) vp_check(ok, "OrderedDemote2To");
  VpB<DI> P, Q; VpB<DO> R; for (size_t i = 0; i < N; ++i) { P.v[i] = (T)(i + 1); Q.v[i] = (T)(N + i + 1); } R.store(hn::ReorderDemote2To(dw, P.load(), Q.load())); bool seen[M] = {}; bool perm = true; ok = true; G.store(hn::ReorderDemote2To(dw, a, B.load()));
  for (size_t i = 0; i < M; ++i) { size_t k = (size_t)From<f32>((u32)H16(R.v[i]) << 16) - 1; if (k >= M) { vp_check(false, "order: not an input lane"); return; } perm &= !seen[k]; seen[k] = true; BFOK(G.v[i], in[k]) } vp_check(perm, "order: a permutation"); vp_check(ok, "ReorderDemote2To"); }
NPAIR(BDem2, f32, bf16)
#endif
// ---- scalar conversions of base.h
#define SC(NAME, TI, TO, EXPR, SPEC, CHK) VP_GOAL(NAME) { TI x; vp_sym(&x, 1, sizeof x, "x"); TO got = EXPR, want = SPEC; CHK(&got, &want, 1, #NAME); }
SC(Scalar_F32FromF16, f16, f32, F32FromF16(x), PromF16(H16(x)), VpCheck)
SC(Scalar_F32FromBF16, bf16, f32, F32FromBF16(x), From<f32>((u32)H16(x) << 16), VpCheck)
SC(Scalar_F16FromF32, f32, f16, F16FromF32(x), (HB<f16>(Narrow<f32, 10, 5>(x))), VpCheck)
SC(Scalar_BF16FromF32, f32, bf16, BF16FromF32(x), HB<bf16>(NarrowBF(x)), VpCheck)
SC(Scalar_F16FromF64, f64, f16, F16FromF64(x), (HB<f16>(Narrow<f64, 10, 5>(x))), VpCheck)
SC(Scalar_BF16FromF64, f64, bf16, BF16FromF64(x), (HB<bf16>(Narrow<f64, 7, 8>(x))), VpCheck)
SC(Scalar_ConvF32F16, f16, f32, ConvertScalarTo<f32>(x), PromF16(H16(x)), VpCheck)
SC(Scalar_ConvBF16F16, bf16, f16, ConvertScalarTo<f16>(x), (HB<f16>(Narrow<f32, 10, 5>(From<f32>((u32)H16(x) << 16)))), VpCheck)
SC(Scalar_ConvF16BF16, f16, bf16, ConvertScalarTo<bf16>(x), HB<bf16>(NarrowBF(PromF16(H16(x)))), VpCheck)
SC(Scalar_ConvF64F16, f64, f16, ConvertScalarTo<f16>(x), (HB<f16>(Narrow<f64, 10, 5>(x))), VpCheck)
SC(Scalar_ConvF64BF16, f64, bf16, ConvertScalarTo<bf16>(x), (HB<bf16>(Narrow<f64, 7, 8>(x))), VpCheck)
} }
