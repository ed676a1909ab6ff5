// C24: contrib/unroller. The units are given by the harness; the loops, remainders and default loads/stores are the library's.
#include "../lib/vec.h"
#include "hwy/contrib/unroller/unroller-inl.h"
namespace { namespace H {
template <class T> struct Mem { T* p; size_t n; Mem(size_t k, const char* name) : n(k) { p = (T*)vp_alloc(k * sizeof(T), sizeof(T)); vp_sym(p, k, sizeof(T), name); } ~Mem() { vp_free(p); } };
#ifndef VP_DEEP
#define VP_DEEP 0
#endif
static inline size_t Count(size_t N) {
  if (N <= (VP_DEEP ? 8 : 4)) return vp_choose(1, 9 * N + 1, "count");
  const size_t C[16] = {1, N / 2, N - 1, N, N + 1, 2 * N - 1, 2 * N, 3 * N + 2, 4 * N - 1, 4 * N, 4 * N + 1, 5 * N - 1, 5 * N, 7 * N + 3, 8 * N, 8 * N + 1}; return C[vp_choose(0, 15, "count index")];
}
// y[i] = x[i] + i, with i reported through idx
template <class T> struct Map1 : UnrollerUnit<Map1<T>, T, T> { using TT = ScalableTag<T>; HWY_INLINE Vec<TT> Func(ptrdiff_t idx, const Vec<TT> x, const Vec<TT>) { TT d; return Add(x, Iota(d, (int)idx)); } };
template <class T> struct Map2 : UnrollerUnit2D<Map2<T>, T, T, T> { using TT = ScalableTag<T>; HWY_INLINE Vec<TT> Func(ptrdiff_t idx, const Vec<TT> x, const Vec<TT> z, const Vec<TT>) { TT d; return Add(Sub(x, z), Iota(d, (int)idx)); } };
template <class T> static inline void Maps1() { constexpr size_t N = HWY_LANES(T); const size_t n = Count(N); Mem<T> x(n, "x"), y(n, "y"); T w[9 * N + 4]; for (size_t i = 0; i < n; ++i) w[i] = (T)(x.p[i] + (T)i); Map1<T> f; Unroller(f, x.p, y.p, (ptrdiff_t)n); VpCheckBits(y.p, w, n, "map"); }
template <class T> static inline void Maps2() { constexpr size_t N = HWY_LANES(T); const size_t n = Count(N); Mem<T> x(n, "x0"), z(n, "x1"), y(n, "y"); T w[9 * N + 4]; for (size_t i = 0; i < n; ++i) w[i] = (T)(x.p[i] - z.p[i] + (T)i); Map2<T> f; Unroller(f, x.p, z.p, y.p, (ptrdiff_t)n); VpCheckBits(y.p, w, n, "map"); }
template <class F, class T> struct Conv : UnrollerUnit<Conv<F, T>, F, T> { using Base = UnrollerUnit<Conv<F, T>, F, T>; using typename Base::LargerD; using DF = Rebind<F, LargerD>; using DT = Rebind<T, LargerD>;
  HWY_INLINE Vec<DT> Func(ptrdiff_t, const Vec<DF> x, const Vec<DT>) { DT d; if constexpr (sizeof(F) < sizeof(T)) return PromoteTo(d, x); else return TruncateTo(d, x); } };
template <class F, class T> static inline void Convs() { constexpr size_t N = HWY_MIN(HWY_LANES(F), HWY_LANES(T)); const size_t n = Count(N); Mem<F> x(n, "x"); Mem<T> y(n, "y"); T w[9 * N + 4]; for (size_t i = 0; i < n; ++i) w[i] = (T)x.p[i]; Conv<F, T> f; Unroller(f, x.p, y.p, (ptrdiff_t)n); VpCheckBits(y.p, w, n, "convert"); }
// reductions
template <class U, class T> struct RedBase { };
#define NOSTORE(T) bool StoreAndShortCircuitImpl(ptrdiff_t, T*, const Vec<TT>) { return true; } ptrdiff_t MaskStoreImpl(ptrdiff_t, T*, const Vec<TT>, ptrdiff_t) { return 0; }
template <class T> struct SumU : UnrollerUnit<SumU<T>, T, T> { using TT = ScalableTag<T>; HWY_INLINE Vec<TT> Func(ptrdiff_t, const Vec<TT> x, const Vec<TT> y) { return Add(x, y); } NOSTORE(T)
  HWY_INLINE ptrdiff_t ReduceImpl(const Vec<TT> x, T* to) { *to = ReduceSum(TT(), x); return 1; } HWY_INLINE void ReduceImpl(const Vec<TT> a, const Vec<TT> b, const Vec<TT> c, Vec<TT>* y) { *y = Add(Add(*y, a), Add(b, c)); } };
template <class T> static inline void Sums() { constexpr size_t N = HWY_LANES(T); const size_t n = Count(N); Mem<T> x(n, "x"), y(1, "y"); T w = 0; for (size_t i = 0; i < n; ++i) w = (T)(w + x.p[i]); SumU<T> f; Unroller(f, x.p, y.p, (ptrdiff_t)n); VpCheckBits(y.p, &w, 1, "sum"); }
template <class T> struct DotU : UnrollerUnit2D<DotU<T>, T, T, T> { using TT = ScalableTag<T>; HWY_INLINE Vec<TT> Func(ptrdiff_t, const Vec<TT> a, const Vec<TT> b, const Vec<TT> y) { return Add(Mul(a, b), y); } NOSTORE(T)
  HWY_INLINE ptrdiff_t ReduceImpl(const Vec<TT> x, T* to) { *to = ReduceSum(TT(), x); return 1; } HWY_INLINE void ReduceImpl(const Vec<TT> a, const Vec<TT> b, const Vec<TT> c, Vec<TT>* y) { *y = Add(Add(*y, a), Add(b, c)); } };
template <class T> static inline void Dots() { constexpr size_t N = HWY_LANES(T); const size_t n = Count(N); Mem<T> a(n, "a"), b(n, "b"), y(1, "y"); T w = 0; for (size_t i = 0; i < n; ++i) w = (T)(w + (T)(a.p[i] * b.p[i])); DotU<T> f; Unroller(f, a.p, b.p, y.p, (ptrdiff_t)n); VpCheckBits(y.p, &w, 1, "dot"); }
// first occurrence: stops early
template <class T> struct FindU : UnrollerUnit<FindU<T>, T, MakeSigned<T>> { using TI = MakeSigned<T>; using Base = UnrollerUnit<FindU<T>, T, TI>; using D = ScalableTag<T>; using DI = RebindToSigned<D>; T v; D d; DI di; FindU(T x) : v(x) {}
  HWY_INLINE Vec<DI> Func(ptrdiff_t idx, const Vec<D> x, const Vec<DI> y) { const intptr_t p = FindFirstTrue(d, Eq(x, Set(d, v))); return p < 0 ? y : Set(di, (TI)(idx + p)); }
  HWY_INLINE Vec<D> X0InitImpl() { return Set(d, (T)(v + 1)); } HWY_INLINE Vec<DI> YInitImpl() { return Set(di, (TI)-1); }
  HWY_INLINE Vec<D> MaskLoadImpl(ptrdiff_t idx, const T* from, ptrdiff_t places) { auto m = places < 0 ? Not(FirstN(d, (size_t)(places + (ptrdiff_t)Lanes(d)))) : FirstN(d, (size_t)places); return MaskedLoadOr(X0InitImpl(), m, d, from + idx); }
  HWY_INLINE bool StoreAndShortCircuitImpl(ptrdiff_t, TI* to, const Vec<DI> x) { to[0] = GetLane(x); return to[0] == -1; } HWY_INLINE ptrdiff_t MaskStoreImpl(ptrdiff_t, TI* to, const Vec<DI> x, ptrdiff_t) { to[0] = GetLane(x); return 1; } };
template <class T> static inline void Finds() { using TI = MakeSigned<T>; constexpr size_t N = HWY_LANES(T); const size_t n = Count(N); Mem<T> x(n, "x"); Mem<TI> y(1, "y"); T v; vp_sym(&v, 1, sizeof v, "value"); TI w = -1; for (size_t i = n; i-- > 0;) w = x.p[i] == v ? (TI)i : w; FindU<T> f(v); Unroller(f, x.p, y.p, (ptrdiff_t)n); VpCheckBits(y.p, &w, 1, "find"); }
} }
#define G1(FN, T) VP_GOAL(FN##_##T) { H::FN<hn::T>(); }
#define G2(FN, A, B) VP_GOAL(FN##_##A##_##B) { H::FN<hn::A, hn::B>(); }
G1(Maps1, u8) G1(Maps1, i16) G1(Maps1, u32) G1(Maps1, i64) G1(Maps2, u8) G1(Maps2, u16) G1(Maps2, i32) G1(Maps2, u64)
G2(Convs, u8, u16) G2(Convs, u8, u32) G2(Convs, u32, u64) G2(Convs, u16, u8) G2(Convs, u64, u32) G2(Convs, u32, u8)
G1(Sums, u32) G1(Sums, i64) G1(Sums, u16) G1(Dots, i32) G1(Dots, i16) G1(Finds, u64)
#if HWY_TARGET != HWY_EMU128
G1(Finds, u16) G1(Finds, u32)
#endif
