// Templates to state per-lane specifications of vector operations for every lane type and every power-of-two vector size.
#pragma once
#include <string.h>
#include <utility>
#include "hwy/highway.h"
#include "vp.h"
HWY_BEFORE_NAMESPACE();
namespace hwy {
namespace HWY_NAMESPACE {
using u8 = uint8_t; using i8 = int8_t; using u16 = uint16_t; using i16 = int16_t; using u32 = uint32_t; using i32 = int32_t; using u64 = uint64_t; using i64 = int64_t;
using f32 = float; using f64 = double; using f16 = hwy::float16_t; using bf16 = hwy::bfloat16_t;
template <class T> constexpr size_t VpMax() { return HWY_LANES(T); }
// Calls f(d) for all N = 1, 2, 4 ... up to the full vector.
template <class T, size_t N, class F> static inline __attribute__((always_inline)) void VpSizesFrom(F f) {
  if constexpr (N <= HWY_LANES(T)) { f(CappedTag<T, N>()); VpSizesFrom<T, N * 2>(f); }
}
#ifndef VP_MINLANES
#define VP_MINLANES 1
#endif
#ifdef VP_FULLONLY
template <class T, class F> static inline __attribute__((always_inline)) void VpSizes(F f) { f(ScalableTag<T>()); }
#else
template <class T, class F> static inline __attribute__((always_inline)) void VpSizes(F f) { VpSizesFrom<T, VP_MINLANES>(f); }
#endif
// One path per size (for goals that fork by themselves).
template <class T, size_t N, class F> static inline __attribute__((always_inline)) void VpOneSizeFrom(size_t k, F f) {
  if constexpr (N <= HWY_LANES(T)) { if (k == 0) { f(CappedTag<T, N>()); return; } VpOneSizeFrom<T, N * 2>(k - 1, f); }
}
template <class T, class F> static inline __attribute__((always_inline)) void VpOneSize(F f) { size_t n = 0; for (size_t m = 1; m < HWY_LANES(T); m *= 2) ++n; VpOneSizeFrom<T, 1>(vp_choose(0, n, "log2 lanes"), f); }
// Only the sizes of whole 128-bit blocks and the full vector: for families with many compile-time constants.
template <class T, size_t N, class F> static inline __attribute__((always_inline)) void VpWideFrom(F f) {
  if constexpr (N <= HWY_LANES(T)) { if constexpr (N * sizeof(T) >= 16 || N == HWY_LANES(T)) f(CappedTag<T, N>()); VpWideFrom<T, N * 2>(f); }
}
template <class T, class F> static inline __attribute__((always_inline)) void VpWide(F f) { VpWideFrom<T, 1>(f); }
template <int... K> struct VpInts {}; 
template <class F, int... K> static inline __attribute__((always_inline)) void VpEach(F f, std::integer_sequence<int, K...>) { (f(std::integral_constant<int, K>()), ...); }
template <int N, class F> static inline __attribute__((always_inline)) void VpUpTo(F f) { VpEach(f, std::make_integer_sequence<int, N>()); }
template <class T> constexpr size_t VpFmt() { return hwy::IsSame<T, f16>() ? 0 : hwy::IsSame<T, f32>() ? 1 : hwy::IsSame<T, f64>() ? 2 : 3; }
template <class T> static inline void VpCheck(const T* got, const T* want, size_t n, const char* l) {
  if constexpr (hwy::IsFloat<T>() || hwy::IsSame<T, bf16>()) vp_check_feq(got, want, n, sizeof(T), VpFmt<T>(), l); else vp_check_eq(got, want, n, sizeof(T), l);
}
template <class T> static inline void VpCheckBits(const T* got, const T* want, size_t n, const char* l) { vp_check_eq(got, want, n, sizeof(T), l); }
template <class D> struct VpB { // aligned storage for one vector
  alignas(64) TFromD<D> v[HWY_MAX(MaxLanes(D()), 1)];
  void sym(const char* n) { vp_sym(v, MaxLanes(D()), sizeof(TFromD<D>), n); }
  Vec<D> load() const { return Load(D(), v); }
  void store(Vec<D> x) { Store(x, D(), v); }
};
// A mask with arbitrary lanes, m[i] in {0,1}
template <class D> struct VpM {
  VpB<RebindToUnsigned<D>> b; bool m[HWY_MAX(MaxLanes(D()), 1)];
  void sym(const char* n) { b.sym(n); for (size_t i = 0; i < MaxLanes(D()); ++i) m[i] = b.v[i] & 1; }
  Mask<D> mask() const { // built lane by lane from memory: compares against zero
    RebindToUnsigned<D> du; using TU = TFromD<RebindToUnsigned<D>>; VpB<RebindToUnsigned<D>> t; for (size_t i = 0; i < MaxLanes(D()); ++i) t.v[i] = m[i] ? (TU)~(TU)0 : (TU)0;
    return RebindMask(D(), MaskFromVec(t.load()));
  }
};
template <class D> static inline void VpStoreMask(D d, Mask<D> m, u8* out) {  // out[i] in {0,1}
  RebindToUnsigned<D> du; using TU = TFromD<decltype(du)>; VpB<decltype(du)> t; t.store(IfThenElseZero(RebindMask(du, m), Set(du, (TU)1)));
  for (size_t i = 0; i < MaxLanes(d); ++i) out[i] = t.v[i] == 1 ? 1 : t.v[i] == 0 ? 0 : 2;
}
}  // namespace HWY_NAMESPACE
}  // namespace hwy
HWY_AFTER_NAMESPACE();
namespace hn = hwy::HWY_NAMESPACE;
using namespace hwy;
using namespace hwy::HWY_NAMESPACE;
#define VP_TYPE_GOAL(FN, T) VP_GOAL(FN##_##T) { VpSizes<hn::T>([](auto d) __attribute__((always_inline)) { FN(d); }); }
#define VP_ONE_GOAL(FN, T) VP_GOAL(FN##_##T) { VpOneSize<hn::T>([](auto d) __attribute__((always_inline)) { FN(d); }); }
#define VP_ONE_INT(FN) VP_ONE_GOAL(FN, u8) VP_ONE_GOAL(FN, i8) VP_ONE_GOAL(FN, u16) VP_ONE_GOAL(FN, i16) VP_ONE_GOAL(FN, u32) VP_ONE_GOAL(FN, i32) VP_ONE_GOAL(FN, u64) VP_ONE_GOAL(FN, i64)
#define VP_ONE_ALL(FN) VP_ONE_INT(FN) VP_ONE_GOAL(FN, f32) VP_ONE_GOAL(FN, f64)
#define VP_WIDE_GOAL(FN, T) VP_GOAL(FN##_##T) { VpWide<hn::T>([](auto d) __attribute__((always_inline)) { FN(d); }); }
#define VP_WIDE_INT(FN) VP_WIDE_GOAL(FN, u8) VP_WIDE_GOAL(FN, i8) VP_WIDE_GOAL(FN, u16) VP_WIDE_GOAL(FN, i16) VP_WIDE_GOAL(FN, u32) VP_WIDE_GOAL(FN, i32) VP_WIDE_GOAL(FN, u64) VP_WIDE_GOAL(FN, i64)
#define VP_UI8(FN) VP_TYPE_GOAL(FN, u8) VP_TYPE_GOAL(FN, i8)
#define VP_UI16(FN) VP_TYPE_GOAL(FN, u16) VP_TYPE_GOAL(FN, i16)
#define VP_UI32(FN) VP_TYPE_GOAL(FN, u32) VP_TYPE_GOAL(FN, i32)
#define VP_UI64(FN) VP_TYPE_GOAL(FN, u64) VP_TYPE_GOAL(FN, i64)
#define VP_INT(FN) VP_UI8(FN) VP_UI16(FN) VP_UI32(FN) VP_UI64(FN)
#define VP_SIGNED(FN) VP_TYPE_GOAL(FN, i8) VP_TYPE_GOAL(FN, i16) VP_TYPE_GOAL(FN, i32) VP_TYPE_GOAL(FN, i64)
#define VP_UNSIGNED(FN) VP_TYPE_GOAL(FN, u8) VP_TYPE_GOAL(FN, u16) VP_TYPE_GOAL(FN, u32) VP_TYPE_GOAL(FN, u64)
#define VP_F32F64(FN) VP_TYPE_GOAL(FN, f32) VP_TYPE_GOAL(FN, f64)
#define VP_ALL(FN) VP_INT(FN) VP_F32F64(FN)
// One-, two- and three-operand lane-wise operations: EXPR uses vectors a,b,c and tag d; SPEC uses scalars x,y,z of type T.
#define VP_OP1(NAME, EXPR, SPEC) \
  template <class D> static inline void NAME(D d) { using T = TFromD<D>; using U = MakeUnsigned<T>; (void)sizeof(U); constexpr size_t N = MaxLanes(D()); VpB<D> A, G; T W[N]; A.sym("a"); \
    auto a = A.load(); (void)a; G.store(EXPR); for (size_t i = 0; i < N; ++i) { T x = A.v[i]; (void)x; W[i] = (T)(SPEC); } VpCheck(G.v, W, N, #NAME); }
#define VP_OP2(NAME, EXPR, SPEC) \
  template <class D> static inline void NAME(D d) { using T = TFromD<D>; using U = MakeUnsigned<T>; (void)sizeof(U); constexpr size_t N = MaxLanes(D()); VpB<D> A, B, G; T W[N]; A.sym("a"); B.sym("b"); \
    auto a = A.load(); auto b = B.load(); G.store(EXPR); for (size_t i = 0; i < N; ++i) { T x = A.v[i], y = B.v[i]; W[i] = (T)(SPEC); } VpCheck(G.v, W, N, #NAME); }
#define VP_OP3(NAME, EXPR, SPEC) \
  template <class D> static inline void NAME(D d) { using T = TFromD<D>; using U = MakeUnsigned<T>; (void)sizeof(U); constexpr size_t N = MaxLanes(D()); VpB<D> A, B, C, G; T W[N]; A.sym("a"); B.sym("b"); C.sym("c"); \
    auto a = A.load(); auto b = B.load(); auto c = C.load(); G.store(EXPR); for (size_t i = 0; i < N; ++i) { T x = A.v[i], y = B.v[i], z = C.v[i]; W[i] = (T)(SPEC); } VpCheck(G.v, W, N, #NAME); }

// Operations stated lane by lane over whole input arrays. EXPR: vectors a,b,c, tag d, output tag dw. SPEC: uses i (output lane), N (input
// lanes), M (output lanes), A.v[], B.v[], C.v[], types T (input), TO (output). Skipped below MIN input lanes (except HWY_SCALAR, MIN 0 = all).
#define VP_MINOK(MIN) ((MIN) >= 0 ? (N >= (size_t)(MIN)) : (HWY_TARGET == HWY_SCALAR ? true : N >= (size_t)(-(MIN))))
#define VP_X(NAME, MIN, DOUT, NIN, EXPR, SPEC, CHK) \
  template <class D> static inline void NAME(D d) { using T = TFromD<D>; using U = MakeUnsigned<T>; (void)sizeof(U); constexpr size_t N = MaxLanes(D()); if constexpr (VP_MINOK(MIN)) { \
    using DO = DOUT; const DO dw; (void)dw; using TO = TFromD<DO>; using UO = MakeUnsigned<TO>; (void)sizeof(UO); constexpr size_t M = MaxLanes(DO()); VpB<D> A, B, C; VpB<DO> G; TO W[M]; \
    A.sym("a"); if (NIN > 1) B.sym("b"); else memset(B.v, 0, sizeof(B.v)); if (NIN > 2) C.sym("c"); else memset(C.v, 0, sizeof(C.v)); auto a = A.load(); auto b = B.load(); auto c = C.load(); (void)a; (void)b; (void)c; \
    G.store(EXPR); for (size_t i = 0; i < M; ++i) W[i] = (TO)(SPEC); CHK(G.v, W, M, #NAME); } }
#define VP_P1(NAME, MIN, EXPR, SPEC) VP_X(NAME, MIN, D, 1, EXPR, SPEC, VpCheckBits)
#define VP_P2(NAME, MIN, EXPR, SPEC) VP_X(NAME, MIN, D, 2, EXPR, SPEC, VpCheckBits)
#define VP_P3(NAME, MIN, EXPR, SPEC) VP_X(NAME, MIN, D, 3, EXPR, SPEC, VpCheckBits)
// One compile-time constant K in [0, MAXK).
#define VP_K1(NAME, MAXK, EXPR, SPEC) \
  template <class D> static inline void NAME(D d) { using T = TFromD<D>; using U = MakeUnsigned<T>; (void)sizeof(U); constexpr size_t N = MaxLanes(D()); VpB<D> A; A.sym("a"); VpUpTo<(MAXK)>([&](auto kk) __attribute__((always_inline)) { constexpr int K = decltype(kk)::value; VpB<D> G; T W[N]; \
    auto a = A.load(); (void)a; G.store(EXPR); for (size_t i = 0; i < N; ++i) { T x = A.v[i]; (void)x; W[i] = (T)(SPEC); } VpCheckBits(G.v, W, N, #NAME); }); }
