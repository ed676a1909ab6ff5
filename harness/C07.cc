// C07: masks.
#include "../lib/vec.h"
namespace { namespace H {
#define MASK_BEGIN(NIN) using T = TFromD<D>; (void)sizeof(T); constexpr size_t N = MaxLanes(D()); (void)N; VpM<D> A, B; A.sym("a"); if (NIN > 1) B.sym("b"); else for (size_t i = 0; i < N; ++i) B.m[i] = 0; auto a = A.mask(); (void)a;
#define MOP(NAME, NIN, EXPR, SPEC) \
  template <class D> static inline void NAME(D d) { MASK_BEGIN(NIN) Mask<D> b = a; if (NIN > 1) b = B.mask(); (void)b; u8 G[N], W[N]; VpStoreMask(d, EXPR, G); bool before = false; size_t cnt = 0; (void)cnt; \
    for (size_t i = 0; i < N; ++i) { bool x = A.m[i], y = B.m[i]; (void)x; (void)y; W[i] = (SPEC) ? 1 : 0; before |= x; cnt += x; } vp_check_eq(G, W, N, 1, #NAME); }
MOP(MNot, 1, hn::Not(a), !x) MOP(MAnd, 2, hn::And(a, b), x & y) MOP(MOr, 2, hn::Or(a, b), x | y) MOP(MXor, 2, hn::Xor(a, b), x ^ y) MOP(MAndNot, 2, hn::AndNot(a, b), !x & y)
template <class D> static inline void MExclusiveNeither(D d) { constexpr size_t N = MaxLanes(D()); VpM<D> A, B; A.sym("a"); B.sym("b"); for (size_t i = 0; i < N; ++i) B.m[i] = B.m[i] & !A.m[i]; u8 G[N], W[N]; VpStoreMask(d, hn::ExclusiveNeither(A.mask(), B.mask()), G); for (size_t i = 0; i < N; ++i) W[i] = !(A.m[i] | B.m[i]); vp_check_eq(G, W, N, 1, "ExclusiveNeither"); }
MOP(SetOnlyFirstOp, 1, hn::SetOnlyFirst(a), x & !before) MOP(SetBeforeFirstOp, 1, hn::SetBeforeFirst(a), !before & !x) MOP(SetAtOrBeforeFirstOp, 1, hn::SetAtOrBeforeFirst(a), !before) MOP(SetAtOrAfterFirstOp, 1, hn::SetAtOrAfterFirst(a), before | x)
MOP(MaskFalseOp, 1, hn::MaskFalse(d), false)
MOP(SlideMask1UpOp, 1, hn::SlideMask1Up(d, a), i > 0 && A.m[i ? i - 1 : 0]) MOP(SlideMask1DownOp, 1, hn::SlideMask1Down(d, a), i + 1 < N && A.m[i + 1 < N ? i + 1 : 0])
VP_ALL(MNot) VP_ALL(MAnd) VP_ALL(MOr) VP_ALL(MXor) VP_ALL(MAndNot) VP_INT(MExclusiveNeither) VP_ALL(SetOnlyFirstOp) VP_ALL(SetBeforeFirstOp) VP_ALL(SetAtOrBeforeFirstOp) VP_ALL(SetAtOrAfterFirstOp) VP_ALL(MaskFalseOp) VP_ALL(SlideMask1UpOp) VP_ALL(SlideMask1DownOp)
// conversions
template <class D> static inline void MaskVec(D d) { MASK_BEGIN(1) using U = MakeUnsigned<T>; VpB<D> G; U W[N]; G.store(hn::VecFromMask(d, a)); for (size_t i = 0; i < N; ++i) W[i] = A.m[i] ? (U)~(U)0 : (U)0; vp_check_eq(G.v, W, N, sizeof(T), "VecFromMask"); u8 G2[N], W2[N]; VpStoreMask(d, hn::MaskFromVec(hn::VecFromMask(d, a)), G2); for (size_t i = 0; i < N; ++i) W2[i] = A.m[i]; vp_check_eq(G2, W2, N, 1, "MaskFromVec");
  using DU = RebindToUnsigned<D>; using DI = RebindToSigned<D>; VpStoreMask(DU(), hn::RebindMask(DU(), a), G2); vp_check_eq(G2, W2, N, 1, "RebindMask"); VpStoreMask(DI(), hn::RebindMask(DI(), a), G2); vp_check_eq(G2, W2, N, 1, "RebindMask i"); }
VP_ALL(MaskVec)
template <class D> static inline void MaskCast(D d) { MASK_BEGIN(1) using DF = RebindToFloat<D>; u8 G2[N], W2[N]; for (size_t i = 0; i < N; ++i) W2[i] = A.m[i]; VpStoreMask(DF(), hn::RebindMask(DF(), a), G2); vp_check_eq(G2, W2, N, 1, "RebindMask f"); }
VP_UI32(MaskCast) VP_UI64(MaskCast)
template <class D> static inline void MaskBits(D d) { MASK_BEGIN(1) u64 w = 0; for (size_t i = 0; i < N; ++i) w |= (u64)A.m[i] << i; vp_check(hn::BitsFromMask(d, a) == w, "BitsFromMask"); u8 buf[72]; vp_sym(buf, 72, 1, "buf"); u8 old[72]; memcpy(old, buf, 72); size_t n = hn::StoreMaskBits(d, a, buf); vp_check(n == (N + 7) / 8, "StoreMaskBits count"); u8 W[8]; for (size_t j = 0; j < (N + 7) / 8; ++j) W[j] = (u8)(w >> (8 * j)); vp_check_eq(buf, W, (N + 7) / 8, 1, "StoreMaskBits"); vp_check_eq(buf + 8, old + 8, 64, 1, "StoreMaskBits beyond 8 bytes"); }
VP_ALL(MaskBits)
template <class D> static inline void LoadBits(D d) { constexpr size_t N = MaxLanes(D()); u8* p = (u8*)vp_alloc(8, 1); vp_sym(p, 8, 1, "bits"); u8 G[N], W[N]; VpStoreMask(d, hn::LoadMaskBits(d, p), G); for (size_t i = 0; i < N; ++i) W[i] = (p[i / 8] >> (i % 8)) & 1; vp_check_eq(G, W, N, 1, "LoadMaskBits"); vp_free(p); }
VP_ALL(LoadBits)
template <class D> static inline void Dup128Bits(D d) { using T = TFromD<D>; constexpr size_t N = MaxLanes(D()), L = 16 / sizeof(T); unsigned bits = (unsigned)vp_sym_u64("bits"); u8 G[N], W[N]; VpStoreMask(d, hn::Dup128MaskFromMaskBits(d, bits), G); for (size_t i = 0; i < N; ++i) W[i] = (bits >> (i & (L - 1))) & 1; vp_check_eq(G, W, N, 1, "Dup128MaskFromMaskBits"); }
VP_ALL(Dup128Bits)
template <class D> static inline void FirstNOp(D d) { constexpr size_t N = MaxLanes(D()); size_t n = vp_sym_u64("n"); vp_assume(n <= (size_t)LimitsMax<SignedFromSize<HWY_MIN(sizeof(size_t), sizeof(TFromD<D>))>>()); u8 G[N], W[N]; VpStoreMask(d, hn::FirstN(d, n), G); for (size_t i = 0; i < N; ++i) W[i] = i < n; vp_check_eq(G, W, N, 1, "FirstN"); }
VP_ALL(FirstNOp)
template <class D> static inline void SlideMask(D d) { constexpr size_t N = MaxLanes(D()); VpM<D> A; A.sym("a"); size_t n = vp_choose(0, N - 1, "n"); u8 G[N], W[N]; VpStoreMask(d, hn::SlideMaskUpLanes(d, A.mask(), n), G); for (size_t i = 0; i < N; ++i) W[i] = i >= n && A.m[i - n]; vp_check_eq(G, W, N, 1, "SlideMaskUpLanes"); VpStoreMask(d, hn::SlideMaskDownLanes(d, A.mask(), n), G); for (size_t i = 0; i < N; ++i) W[i] = i + n < N && A.m[i + n]; vp_check_eq(G, W, N, 1, "SlideMaskDownLanes"); }
VP_ONE_ALL(SlideMask)
// tests
template <class D> static inline void Test(D d) { MASK_BEGIN(1) if constexpr (HWY_TARGET == HWY_EMU128 && N > 8) return; bool all = true, any = false; u64 mb = 0; i64 first = -1, last = -1; for (size_t i = 0; i < N; ++i) { all &= A.m[i]; any |= A.m[i]; mb |= (u64)A.m[i] << i; last = A.m[i] ? (i64)i : last; } for (size_t i = N; i-- > 0;) first = A.m[i] ? (i64)i : first;
  vp_check(hn::AllTrue(d, a) == all, "AllTrue"); vp_check(hn::AllFalse(d, a) == !any, "AllFalse"); vp_check(hn::CountTrue(d, a) == (size_t)__builtin_popcountll(mb), "CountTrue"); vp_check((i64)hn::FindFirstTrue(d, a) == first, "FindFirstTrue"); vp_check((i64)hn::FindLastTrue(d, a) == last, "FindLastTrue");
  if (any) { vp_check((i64)hn::FindKnownFirstTrue(d, a) == first, "FindKnownFirstTrue"); vp_check((i64)hn::FindKnownLastTrue(d, a) == last, "FindKnownLastTrue"); } }
VP_ALL(Test)
// widening and narrowing
template <class TT, class D> static inline void MaskTo(D df) { using TF = TFromD<D>; constexpr size_t N = MaxLanes(D()); using DT = Rebind<TT, D>; DT dt; VpM<D> A; A.sym("m"); u8 G[N], W[N]; for (size_t i = 0; i < N; ++i) W[i] = A.m[i]; if constexpr (sizeof(TT) > sizeof(TF)) VpStoreMask(dt, hn::PromoteMaskTo(dt, df, A.mask()), G); else VpStoreMask(dt, hn::DemoteMaskTo(dt, df, A.mask()), G); vp_check_eq(G, W, N, 1, "Promote/DemoteMaskTo"); }
template <class A, class B> static inline void MaskToAll() { constexpr size_t M = HWY_MIN(HWY_LANES(A), HWY_LANES(B)); VpSizes<A>([](auto d) __attribute__((always_inline)) { if constexpr (MaxLanes(decltype(d)()) <= M) MaskTo<B>(d); }); }
#define MT(A, B) VP_GOAL(MaskTo_##A##_##B) { MaskToAll<A, B>(); }
MT(u8, u16) MT(u8, u32) MT(u8, u64) MT(i16, i32) MT(u16, f32) MT(u16, u64) MT(i32, i64) MT(f32, f64) MT(u16, u8) MT(u32, u8) MT(u64, u8) MT(i32, i16) MT(f32, u16) MT(u64, u16) MT(i64, i32) MT(f64, f32) MT(i8, f64) MT(f64, i8)
#if HWY_TARGET != HWY_SCALAR
template <class D> static inline void MaskHalves(D d) { using T = TFromD<D>; constexpr size_t N = MaxLanes(D()); if constexpr (N >= 2) { using DH = Half<D>; DH dh; VpM<D> A; A.sym("m"); u8 G[N], W[N]; for (size_t i = 0; i < N; ++i) W[i] = A.m[i]; VpStoreMask(dh, hn::LowerHalfOfMask(dh, A.mask()), G); vp_check_eq(G, W, N / 2, 1, "LowerHalfOfMask"); VpStoreMask(dh, hn::UpperHalfOfMask(dh, A.mask()), G); vp_check_eq(G, W + N / 2, N / 2, 1, "UpperHalfOfMask");
    VpM<DH> L, U; L.sym("lo"); U.sym("hi"); for (size_t i = 0; i < N; ++i) W[i] = i < N / 2 ? L.m[i % (N / 2)] : U.m[i % (N / 2)]; VpStoreMask(d, hn::CombineMasks(d, U.mask(), L.mask()), G); vp_check_eq(G, W, N, 1, "CombineMasks"); } }
VP_ALL(MaskHalves)
template <class D> static inline void Demote2Masks(D df) { using T = TFromD<D>; using TN = MakeNarrow<T>; constexpr size_t N = MaxLanes(D()); using DT = Repartition<TN, D>; DT dt; VpM<D> A, B; A.sym("a"); B.sym("b"); u8 G[2 * N], W[2 * N]; VpStoreMask(dt, hn::OrderedDemote2MasksTo(dt, df, A.mask(), B.mask()), G); for (size_t i = 0; i < N; ++i) { W[i] = A.m[i]; W[N + i] = B.m[i]; } vp_check_eq(G, W, 2 * N, 1, "OrderedDemote2MasksTo"); }
VP_UI16(Demote2Masks) VP_UI32(Demote2Masks) VP_UI64(Demote2Masks) VP_TYPE_GOAL(Demote2Masks, f64)
#endif
// masks drive selections and blends built from them
} }
