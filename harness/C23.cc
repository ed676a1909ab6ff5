// C23: contrib/dot and contrib/matvec. Sums are compared as polynomials over the reals in the elements (vp_check_real).
#include "../lib/vec.h"
#define HIGHWAY_HWY_CONTRIB_THREAD_POOL_THREAD_POOL_H_
// tasks in ascending or descending order, on worker 0 (the real pool is C27)
static bool gBackwards;
namespace hwy { class ThreadPool { public: template <class F> void Run(uint64_t a, uint64_t b, const F& f) { if (gBackwards) for (uint64_t i = b; i > a;) f(--i, (size_t)0); else for (uint64_t i = a; i < b; ++i) f(i, (size_t)0); } }; }
#include "hwy/contrib/dot/dot-inl.h"
#include "hwy/contrib/matvec/matvec-inl.h"
namespace { namespace H {
using bf16 = hwy::bfloat16_t; using f32 = float; using f64 = double; using i16 = int16_t; using i32 = int32_t; using u8 = uint8_t; using u16 = uint16_t; using u32 = uint32_t; using u64 = uint64_t;
// arbitrary values of magnitude 1 to 2
static inline void Value(f32* p) { u16 r; vp_sym(&r, 1, 2, "element"); const u32 b = 0x3F800000u | (u32)(r & 0x7FFF) << 8 | (u32)(r >> 15) << 31; memcpy(p, &b, 4); }
static inline void Value(f64* p) { u16 r; vp_sym(&r, 1, 2, "element"); const u64 b = 0x3FF0000000000000ull | (u64)(r & 0x7FFF) << 37 | (u64)(r >> 15) << 63; memcpy(p, &b, 8); }
static inline void Value(bf16* p) { u8 r; vp_sym(&r, 1, 1, "element"); const u16 b = (u16)(0x3F80u | (r & 127) | (u32)(r >> 7) << 15); memcpy(p, &b, 2); }
static inline void Value(i16* p) { vp_sym(p, 1, 2, "element"); }
// what padding contains must not matter
static inline void Poison(f32* p) { const u32 b = 0x7FC00001u; memcpy(p, &b, 4); }
static inline void Poison(f64* p) { const u64 b = 0x7FF8000000000001ull; memcpy(p, &b, 8); }
static inline void Poison(bf16* p) { const u16 b = 0x7FC1; memcpy(p, &b, 2); }
static inline void Poison(i16* p) { *p = -12345; }
static inline f32 Wide(f32 x) { return x; } static inline f64 Wide(f64 x) { return x; } static inline i32 Wide(i16 x) { return x; }
static inline f32 Wide(bf16 x) { u16 b; memcpy(&b, &x, 2); const u32 w = (u32)b << 16; f32 f; memcpy(&f, &w, 4); return f; }
template <class T> struct Arr { T* p; size_t n; Arr(size_t n_, size_t pad) : n(n_) { p = (T*)vp_alloc((n + pad) * sizeof(T), sizeof(T)); for (size_t i = 0; i < n; ++i) Value(p + i); for (size_t i = 0; i < pad; ++i) Poison(p + n + i); } ~Arr() { vp_free(p); } };
static inline void Same(f32 a, f32 b, const char* s) { vp_check_real(&a, &b, 1, 1, s); } static inline void Same(f64 a, f64 b, const char* s) { vp_check_real(&a, &b, 1, 2, s); } static inline void Same(i32 a, i32 b, const char* s) { vp_check_eq(&a, &b, 1, 4, s); }
#ifndef VP_DEEP
#define VP_DEEP 0
#endif
static inline size_t Count(size_t N) { if (N <= 4) return vp_choose(0, 5 * N + 1, "count"); if (VP_DEEP) return vp_choose(0, 9 * N, "count"); const size_t C[16] = {0, 1, 2, N / 2 + 1, N - 1, N, N + 1, 2 * N - 1, 2 * N, 3 * N + 2, 4 * N - 1, 4 * N, 4 * N + 1, 5 * N + 3, 7 * N, 8 * N + N - 1}; return C[vp_choose(0, 15, "count index")]; }
template <int A, class TA, class TB, class D> static inline void DotOf(D d, size_t N) {
  const size_t n = Count(N); if ((A & Dot::kAtLeastOneVector) && n < N) return; if ((A & Dot::kMultipleOfVector) && n % N) return; const size_t pad = A & Dot::kPaddedToVector ? (N - n % N) % N : 0;
  Arr<TA> a(n, pad); Arr<TB> b(n, pad); decltype(Wide(TA()) * Wide(TB())) w = 0; for (size_t i = 0; i < n; ++i) { if constexpr (sizeof(TA) == 2 && sizeof w == 4 && (decltype(w))0.5 == 0) w = (i32)((u32)w + (u32)(Wide(a.p[i]) * Wide(b.p[i]))); else w = w + Wide(a.p[i]) * Wide(b.p[i]); }
  Same(Dot::Compute<A>(d, a.p, b.p, n), w, "dot product");
}
template <int A, class TA, class TB, class TD> static inline void DotSizes() { const ScalableTag<TD> d; using F = FixedTag<TD, HWY_TARGET == HWY_SCALAR ? 1 : 16 / sizeof(TD)>; if (HWY_LANES(TD) * sizeof(TD) > 16 && vp_choose(0, 1, "16-byte vectors")) { const F f; DotOf<A, TA, TB>(f, Lanes(f)); } else DotOf<A, TA, TB>(d, Lanes(d)); }
// ---- matrix times vector
template <class TM, class TV, class TO, size_t R, size_t C, bool ADD> static inline void Mat() {
  gBackwards = vp_choose(0, 1, "task order"); Arr<TM> m(R * C, 0); Arr<TV> v(C, 0); using TA = typename std::conditional<std::is_same<TV, bf16>::value, bf16, TO>::type; Arr<TA> a(ADD ? R : 0, 0); TO* out = (TO*)vp_alloc(R * sizeof(TO), 64); hwy::ThreadPool pool;
  if constexpr (ADD) MatVecAdd<R, C>(m.p, v.p, a.p, out, pool); else MatVec<R, C>(m.p, v.p, out, pool);
  for (size_t r = 0; r < R; ++r) { TO w = 0; for (size_t c = 0; c < C; ++c) w = w + (TO)Wide(m.p[r * C + c]) * (TO)Wide(v.p[c]); if constexpr (ADD) w = w + (TO)Wide(a.p[r]); Same(out[r], w, "row"); } vp_free(out);
}
} }
#define DOT(NAME, TA, TB, TD) VP_GOAL(Dot_##NAME##_any) { H::DotSizes<0, H::TA, H::TB, H::TD>(); } VP_GOAL(Dot_##NAME##_atleast) { H::DotSizes<1, H::TA, H::TB, H::TD>(); } VP_GOAL(Dot_##NAME##_multiple) { if (vp_choose(0, 1, "at least one")) H::DotSizes<3, H::TA, H::TB, H::TD>(); else H::DotSizes<2, H::TA, H::TB, H::TD>(); } \
  VP_GOAL(Dot_##NAME##_padded) { switch (vp_choose(0, 3, "assumptions")) { case 0: H::DotSizes<4, H::TA, H::TB, H::TD>(); break; case 1: H::DotSizes<5, H::TA, H::TB, H::TD>(); break; case 2: H::DotSizes<6, H::TA, H::TB, H::TD>(); break; default: H::DotSizes<7, H::TA, H::TB, H::TD>(); } }
DOT(f32, f32, f32, f32) DOT(f64, f64, f64, f64) DOT(bf16, bf16, bf16, bf16) DOT(f32_bf16, f32, bf16, f32) DOT(i16, i16, i16, i16)
#define MAT(NAME, TM, TV, TO, NL) \
  VP_GOAL(Mat_##NAME##_small) { constexpr size_t N = NL; (void)N; if (vp_choose(0, 1, "shape")) H::Mat<H::TM, H::TV, H::TO, 3, 1, true>(); else H::Mat<H::TM, H::TV, H::TO, 3, N + 1, false>(); } \
  VP_GOAL(Mat_##NAME##_chunk) { constexpr size_t N = NL; H::Mat<H::TM, H::TV, H::TO, 64 / sizeof(H::TM), 4 * N + N + (N > 1 ? N - 1 : 0), false>(); } \
  VP_GOAL(Mat_##NAME##_more) { constexpr size_t N = NL; H::Mat<H::TM, H::TV, H::TO, 64 / sizeof(H::TM) * 2 + 1, 2 * N + 1, true>(); } \
  VP_GOAL(Mat_##NAME##_even) { constexpr size_t N = NL; H::Mat<H::TM, H::TV, H::TO, 64 / sizeof(H::TM) + 1, 4 * N, true>(); }
MAT(f32, f32, f32, f32, HWY_LANES(float)) MAT(f64, f64, f64, f64, HWY_LANES(double))
#if HWY_TARGET != HWY_SCALAR
MAT(bf16_f32, bf16, f32, f32, HWY_LANES(float)) MAT(bf16, bf16, bf16, f32, HWY_LANES(uint16_t))
#endif
