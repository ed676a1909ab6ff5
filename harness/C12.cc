// C12: permutations within and across blocks.
#include "../lib/vec.h"
#define SPECIALS 1
#define VP_PERM(FN) VP_ALL(FN) VP_TYPE_GOAL(FN, f16) VP_TYPE_GOAL(FN, bf16)
#define VP_PERM32(FN) VP_UI32(FN) VP_TYPE_GOAL(FN, f32)
#define VP_PERM64(FN) VP_UI64(FN) VP_TYPE_GOAL(FN, f64)
namespace { namespace H {
// L = lanes per block (of this vector), S = first lane of the block, P = position within the block, H = half the vector
#define BLV constexpr size_t L = HWY_MIN(N, 16 / sizeof(T)); (void)L
#define P_OP(NAME, MIN, NIN, EXPR, SPEC) \
  template <class D> static inline void NAME(D d) { using T = TFromD<D>; constexpr size_t N = MaxLanes(D()); if constexpr (VP_MINOK(MIN)) { BLV; constexpr size_t H = N / 2; (void)H; VpB<D> A, B, G; T W[N]; A.sym("a"); if (NIN > 1) B.sym("b"); else memset(B.v, 0, sizeof(B.v)); auto a = A.load(); auto b = B.load(); (void)a; (void)b; G.store(EXPR); \
    for (size_t i = 0; i < N; ++i) { size_t P = i % L, S = i - P; (void)P; (void)S; T z = T(); memset(&z, 0, sizeof(T)); (void)z; W[i] = (SPEC); } VpCheckBits(G.v, W, N, #NAME); } }
#define P_K(NAME, MIN, LO, HI, NIN, EXPR, SPEC) \
  template <class D> static inline void NAME(D d) { using T = TFromD<D>; constexpr size_t N = MaxLanes(D()); if constexpr (VP_MINOK(MIN)) { BLV; VpB<D> A, B; A.sym("a"); if (NIN > 1) B.sym("b"); else memset(B.v, 0, sizeof(B.v)); VpUpTo<(int)(HI) - (int)(LO)>([&](auto kk) __attribute__((always_inline)) { constexpr int K = decltype(kk)::value + (int)(LO); VpB<D> G; T W[N]; auto a = A.load(); auto b = B.load(); (void)a; (void)b; G.store(EXPR); \
    for (size_t i = 0; i < N; ++i) { size_t P = i % L, S = i - P; (void)P; (void)S; T z = T(); memset(&z, 0, sizeof(T)); (void)z; W[i] = (SPEC); } VpCheckBits(G.v, W, N, #NAME); }); } }
// ---- whole vector
P_OP(Reverse, 0, 1, hn::Reverse(d, a), A.v[N - 1 - i]) VP_PERM(Reverse)
P_K(Broadcast, 0, 0, HWY_MIN(MaxLanes(D()), 16 / sizeof(TFromD<D>)), 1, hn::Broadcast<K>(a), A.v[S + K]) VP_ALL(Broadcast)
P_K(BroadcastLane, 0, 0, MaxLanes(D()), 1, hn::BroadcastLane<K>(a), A.v[K]) VP_ALL(BroadcastLane)
P_OP(ZeroVec, 0, 1, hn::Zero(d), z) VP_PERM(ZeroVec)
template <class D> static inline void Set(D d) { using T = TFromD<D>; constexpr size_t N = MaxLanes(D()); VpB<D> A, G; T W[N]; A.sym("a"); G.store(hn::Set(d, A.v[0])); for (size_t i = 0; i < N; ++i) W[i] = A.v[0]; VpCheckBits(G.v, W, N, "Set"); vp_check_eq(&A.v[0], G.v, 1, sizeof(T), "Set"); T l = GetLane(A.load()); vp_check_eq(&l, A.v, 1, sizeof(T), "GetLane"); }
VP_PERM(Set)
template <class D> static inline void Iota(D d) { using T = TFromD<D>; constexpr size_t N = MaxLanes(D()); VpB<D> A, G; T W[N]; A.sym("a"); G.store(hn::Iota(d, A.v[0])); for (size_t i = 0; i < N; ++i) W[i] = (T)(A.v[0] + (T)i); VpCheckBits(G.v, W, N, "Iota"); }
VP_INT(Iota)
template <class D> static inline void SignBitVec(D d) { using T = TFromD<D>; constexpr size_t N = MaxLanes(D()); using U = MakeUnsigned<T>; VpB<D> G; U W[N]; G.store(hn::SignBit(d)); for (size_t i = 0; i < N; ++i) W[i] = (U)((U)1 << (8 * sizeof(T) - 1)); vp_check_eq(G.v, W, N, sizeof(T), "SignBit"); }
VP_ALL(SignBitVec)
template <class D> static inline void InsertLane(D d) { using T = TFromD<D>; constexpr size_t N = MaxLanes(D()); VpB<D> A, B, G; T W[N]; A.sym("a"); B.sym("t"); size_t k = vp_choose(0, N - 1, "i"); G.store(hn::InsertLane(A.load(), k, B.v[0])); for (size_t i = 0; i < N; ++i) W[i] = i == k ? B.v[0] : A.v[i]; VpCheckBits(G.v, W, N, "InsertLane"); T e = hn::ExtractLane(A.load(), k); vp_check_eq(&e, &A.v[k], 1, sizeof(T), "ExtractLane"); }
VP_ONE_ALL(InsertLane)
template <class D> static inline void LaneK(D d) { using T = TFromD<D>; constexpr size_t N = MaxLanes(D()); VpB<D> A, B; A.sym("a"); B.sym("t"); VpUpTo<(int)N>([&](auto kk) __attribute__((always_inline)) { constexpr int K = decltype(kk)::value; VpB<D> G; T W[N]; G.store(hn::InsertLane(A.load(), K, B.v[0])); for (size_t i = 0; i < N; ++i) W[i] = i == K ? B.v[0] : A.v[i]; VpCheckBits(G.v, W, N, "InsertLane const"); T e = hn::ExtractLane(A.load(), K); vp_check_eq(&e, &A.v[K], 1, sizeof(T), "ExtractLane const"); }); }
VP_ALL(LaneK)
P_OP(OddEven, 0, 2, hn::OddEven(a, b), (i & 1) ? A.v[i] : B.v[i]) VP_ALL(OddEven)
P_OP(DupEven, 0, 1, hn::DupEven(a), A.v[i & ~(size_t)1]) VP_ALL(DupEven)
P_OP(OddEvenBlocks, 0, 2, hn::OddEvenBlocks(a, b), (S / L) & 1 ? A.v[i] : B.v[i]) VP_PERM(OddEvenBlocks)
P_OP(Slide1Up, 0, 1, hn::Slide1Up(d, a), i >= 1 ? A.v[i - 1] : z) VP_ALL(Slide1Up)
P_OP(Slide1Down, 0, 1, hn::Slide1Down(d, a), i + 1 < N ? A.v[i + 1] : z) VP_ALL(Slide1Down)
#define P_AMT(NAME, EXPR, SPEC) \
  template <class D> static inline void NAME(D d) { using T = TFromD<D>; constexpr size_t N = MaxLanes(D()); VpB<D> A, G; T W[N]; A.sym("a"); size_t n = vp_choose(0, N - 1, "amt"); auto a = A.load(); G.store(EXPR); T z; memset(&z, 0, sizeof(T)); for (size_t i = 0; i < N; ++i) W[i] = SPEC; VpCheckBits(G.v, W, N, #NAME); }
P_AMT(SlideUpLanes, hn::SlideUpLanes(d, a, n), i >= n ? A.v[i - n] : z) VP_ONE_ALL(SlideUpLanes)
P_AMT(SlideDownLanes, hn::SlideDownLanes(d, a, n), i + n < N ? A.v[i + n] : z) VP_ONE_ALL(SlideDownLanes)
P_K(SlideUpLanesK, 0, 0, MaxLanes(D()), 1, hn::SlideUpLanes(d, a, K), i >= K ? A.v[i - K] : z) VP_ALL(SlideUpLanesK)
P_K(SlideDownLanesK, 0, 0, MaxLanes(D()), 1, hn::SlideDownLanes(d, a, K), i + K < N ? A.v[i + K] : z) VP_ALL(SlideDownLanesK)
P_K(SlideUpBlocks, 0, 0, D().MaxBlocks(), 1, hn::SlideUpBlocks<K>(d, a), i >= K * L ? A.v[i - K * L] : z) VP_ALL(SlideUpBlocks)
P_K(SlideDownBlocks, 0, 0, D().MaxBlocks(), 1, hn::SlideDownBlocks<K>(d, a), i + K * L < N ? A.v[i + K * L] : z) VP_ALL(SlideDownBlocks)
P_K(BroadcastBlock, 0, 0, D().MaxBlocks(), 1, hn::BroadcastBlock<K>(a), A.v[K * L + P]) VP_ALL(BroadcastBlock)
template <class D> static inline void BlocksOp(D d) { using T = TFromD<D>; constexpr size_t N = MaxLanes(D()); BLV; VpB<D> A; A.sym("a"); using DB = BlockDFromD<D>; VpB<DB> B; B.sym("blk"); VpUpTo<(int)D().MaxBlocks()>([&](auto kk) __attribute__((always_inline)) { constexpr int K = decltype(kk)::value; VpB<DB> G; G.store(hn::ExtractBlock<K>(A.load())); VpCheckBits(G.v, A.v + K * L, L, "ExtractBlock");
    VpB<D> I; T W[N]; I.store(hn::InsertBlock<K>(A.load(), B.load())); for (size_t i = 0; i < N; ++i) W[i] = i / L == K ? B.v[i % L] : A.v[i]; VpCheckBits(I.v, W, N, "InsertBlock"); }); vp_check(hn::Blocks(d) == HWY_MAX(N * sizeof(T) / 16, 1), "Blocks"); }
VP_ALL(BlocksOp)
template <class D> static inline void Tuples(D d) { constexpr size_t N = MaxLanes(D()); VpB<D> A, B, C, E, X, G; A.sym("a"); B.sym("b"); C.sym("c"); E.sym("e"); X.sym("x"); auto a = A.load(); auto b = B.load(); auto c = C.load(); auto e = E.load(); auto x = X.load();
  auto t2 = Create2(d, a, b); auto t3 = Create3(d, a, b, c); auto t4 = Create4(d, a, b, c, e);
#define G_(EX, WANT) G.store(EX); VpCheckBits(G.v, WANT.v, N, #EX);
  G_(Get2<0>(t2), A) G_(Get2<1>(t2), B) G_(Get3<0>(t3), A) G_(Get3<1>(t3), B) G_(Get3<2>(t3), C) G_(Get4<0>(t4), A) G_(Get4<1>(t4), B) G_(Get4<2>(t4), C) G_(Get4<3>(t4), E)
  G_(Get2<0>(Set2<0>(t2, x)), X) G_(Get2<1>(Set2<0>(t2, x)), B) G_(Get2<1>(Set2<1>(t2, x)), X) G_(Get2<0>(Set2<1>(t2, x)), A) G_(Get3<0>(Set3<0>(t3, x)), X) G_(Get3<1>(Set3<1>(t3, x)), X) G_(Get3<2>(Set3<2>(t3, x)), X) G_(Get3<0>(Set3<2>(t3, x)), A) G_(Get3<2>(Set3<1>(t3, x)), C) G_(Get3<1>(Set3<0>(t3, x)), B)
  G_(Get4<0>(Set4<0>(t4, x)), X) G_(Get4<1>(Set4<1>(t4, x)), X) G_(Get4<2>(Set4<2>(t4, x)), X) G_(Get4<3>(Set4<3>(t4, x)), X) G_(Get4<0>(Set4<3>(t4, x)), A) G_(Get4<1>(Set4<0>(t4, x)), B) G_(Get4<2>(Set4<1>(t4, x)), C) G_(Get4<3>(Set4<2>(t4, x)), E) }
VP_TYPE_GOAL(Tuples, u8) VP_TYPE_GOAL(Tuples, i32) VP_TYPE_GOAL(Tuples, f64)
P_OP(LowerHalfOk, 2, 1, ([&] { Half<D> dh; VpB<Half<D>> g; g.store(hn::LowerHalf(dh, a)); VpCheckBits(g.v, A.v, N / 2, "LowerHalf(d)"); g.store(hn::LowerHalf(a)); VpCheckBits(g.v, A.v, N / 2, "LowerHalf"); return a; }()), A.v[i]) VP_PERM(LowerHalfOk)
template <class D> static inline void Dup128(D d) { using T = TFromD<D>; constexpr size_t N = MaxLanes(D()), L = 16 / sizeof(T); T t[L], W[N]; vp_sym(t, L, sizeof(T), "t"); VpB<D> G;
  if constexpr (L == 16) G.store(hn::Dup128VecFromValues(d, t[0], t[1], t[2], t[3], t[4], t[5], t[6], t[7], t[8], t[9], t[10], t[11], t[12], t[13], t[14], t[15])); else if constexpr (L == 8) G.store(hn::Dup128VecFromValues(d, t[0], t[1], t[2], t[3], t[4], t[5], t[6], t[7])); else if constexpr (L == 4) G.store(hn::Dup128VecFromValues(d, t[0], t[1], t[2], t[3])); else G.store(hn::Dup128VecFromValues(d, t[0], t[1]));
  for (size_t i = 0; i < N; ++i) W[i] = t[i % L]; VpCheckBits(G.v, W, N, "Dup128VecFromValues"); }
VP_ALL(Dup128)
#if HWY_TARGET != HWY_SCALAR
P_OP(UpperHalf, 2, 1, ([&] { Half<D> dh; VpB<Half<D>> g; g.store(hn::UpperHalf(dh, a)); VpCheckBits(g.v, A.v + N / 2, N / 2, "UpperHalf"); return a; }()), A.v[i]) VP_PERM(UpperHalf)
#define HALVES auto HL = Half<D>(); VpB<Half<D>> X, Y; for (size_t i = 0; i < N / 2; ++i) { X.v[i] = A.v[i]; Y.v[i] = B.v[i]; } auto x = X.load(), y = Y.load(); (void)HL; (void)x; (void)y;
P_OP(Combine, 2, 2, ([&] { HALVES return hn::Combine(d, y, x); }()), i < H ? A.v[i] : B.v[i - H]) VP_PERM(Combine)
P_OP(ZeroExtendVector, 2, 2, ([&] { HALVES return hn::ZeroExtendVector(d, x); }()), i < H ? A.v[i] : z) VP_PERM(ZeroExtendVector)
P_OP(ZeroExtendResizeBitCast, 2, 2, ([&] { HALVES return hn::ZeroExtendResizeBitCast(d, HL, x); }()), i < H ? A.v[i] : z) VP_ALL(ZeroExtendResizeBitCast)
P_OP(ZeroExtendResizeBitCast4, 4, 2, ([&] { using DQ = Half<Half<D>>; VpB<DQ> X; for (size_t i = 0; i < N / 4; ++i) X.v[i] = A.v[i]; return hn::ZeroExtendResizeBitCast(d, DQ(), X.load()); }()), i < N / 4 ? A.v[i] : z) VP_ALL(ZeroExtendResizeBitCast4)
P_OP(ResizeBitCast, 2, 2, ([&] { HALVES return hn::Combine(d, y, hn::ResizeBitCast(HL, hn::ResizeBitCast(d, x))); }()), i < H ? A.v[i] : B.v[i - H]) VP_ALL(ResizeBitCast)
P_OP(ConcatLowerLower, 2, 2, hn::ConcatLowerLower(d, b, a), i < H ? A.v[i] : B.v[i - H]) VP_PERM(ConcatLowerLower)
P_OP(ConcatUpperUpper, 2, 2, hn::ConcatUpperUpper(d, b, a), i < H ? A.v[i + H] : B.v[i]) VP_PERM(ConcatUpperUpper)
P_OP(ConcatLowerUpper, 2, 2, hn::ConcatLowerUpper(d, b, a), i < H ? A.v[i + H] : B.v[i - H]) VP_PERM(ConcatLowerUpper)
P_OP(ConcatUpperLower, 2, 2, hn::ConcatUpperLower(d, b, a), i < H ? A.v[i] : B.v[i]) VP_PERM(ConcatUpperLower)
P_OP(ConcatOdd, 2, 2, hn::ConcatOdd(d, b, a), i < H ? A.v[2 * i + 1] : B.v[2 * (i - H) + 1]) VP_PERM(ConcatOdd)
P_OP(ConcatEven, 2, 2, hn::ConcatEven(d, b, a), i < H ? A.v[2 * i] : B.v[2 * (i - H)]) VP_PERM(ConcatEven)
P_OP(InterleaveWholeLower, 2, 2, hn::InterleaveWholeLower(d, a, b), (i & 1) ? B.v[i / 2] : A.v[i / 2]) VP_ALL(InterleaveWholeLower)
P_OP(InterleaveWholeUpper, 2, 2, hn::InterleaveWholeUpper(d, a, b), (i & 1) ? B.v[H + i / 2] : A.v[H + i / 2]) VP_ALL(InterleaveWholeUpper)
P_OP(InterleaveLower, 2, 2, hn::InterleaveLower(d, a, b), (P & 1) ? B.v[S + P / 2] : A.v[S + P / 2]) VP_PERM(InterleaveLower)
P_OP(InterleaveLowerND, 2, 2, hn::InterleaveLower(a, b), (P & 1) ? B.v[S + P / 2] : A.v[S + P / 2]) VP_ALL(InterleaveLowerND)
P_OP(InterleaveUpper, 2, 2, hn::InterleaveUpper(d, a, b), (P & 1) ? B.v[S + L / 2 + P / 2] : A.v[S + L / 2 + P / 2]) VP_PERM(InterleaveUpper)
P_OP(InterleaveEven, 2, 2, hn::InterleaveEven(d, a, b), (i & 1) ? B.v[i - 1] : A.v[i]) VP_ALL(InterleaveEven)
P_OP(InterleaveOdd, 2, 2, hn::InterleaveOdd(d, a, b), (i & 1) ? B.v[i] : A.v[i + 1]) VP_ALL(InterleaveOdd)
VP_X(ZipLower, 2, RepartitionToWide<D>, 2, hn::ZipLower(dw, a, b), ({ size_t lw = HWY_MIN(N, 16 / sizeof(T)) / 2, s = i / lw * lw * 2 + i % lw; (UO)((UO)(U)A.v[s] | ((UO)(U)B.v[s] << (8 * sizeof(T)))); }), VpCheckBits)
VP_X(ZipUpper, 2, RepartitionToWide<D>, 2, hn::ZipUpper(dw, a, b), ({ size_t lw = HWY_MIN(N, 16 / sizeof(T)) / 2, s = i / lw * lw * 2 + lw + i % lw; (UO)((UO)(U)A.v[s] | ((UO)(U)B.v[s] << (8 * sizeof(T)))); }), VpCheckBits)
VP_UI8(ZipLower) VP_UI16(ZipLower) VP_UI32(ZipLower) VP_UI8(ZipUpper) VP_UI16(ZipUpper) VP_UI32(ZipUpper)
P_OP(DupOdd, 2, 1, hn::DupOdd(a), A.v[i | 1]) VP_ALL(DupOdd)
#define BYTES(X) ((const u8*)(X).v)
#define P_BYTES(NAME, LO, NIN, EXPR, SPEC) \
  template <class D> static inline void NAME(D d) { using T = TFromD<D>; constexpr size_t N = MaxLanes(D()), NB = N * sizeof(T), L = HWY_MIN(NB, 16); VpB<D> A, B; A.sym("a"); if (NIN > 1) B.sym("b"); else memset(B.v, 0, sizeof(B.v)); VpUpTo<(int)L - (LO)>([&](auto kk) __attribute__((always_inline)) { constexpr int K = decltype(kk)::value + LO; VpB<D> G; u8 W[NB]; auto a = A.load(); auto b = B.load(); (void)b; G.store(EXPR); \
    for (size_t i = 0; i < NB; ++i) { size_t P = i % L, S = i - P; W[i] = (SPEC); } vp_check_eq(G.v, W, NB, 1, #NAME); }); }
P_BYTES(ShiftLeftBytes, 0, 1, hn::ShiftLeftBytes<K>(d, a), P >= K ? BYTES(A)[i - K] : 0) VP_WIDE_INT(ShiftLeftBytes)
P_BYTES(ShiftRightBytes, 0, 1, hn::ShiftRightBytes<K>(d, a), P + K < L ? BYTES(A)[i + K] : 0) VP_INT(ShiftRightBytes)
P_BYTES(CombineShiftRightBytes, 1, 2, hn::CombineShiftRightBytes<K>(d, b, a), P + K < L ? BYTES(A)[i + K] : BYTES(B)[S + P + K - L]) VP_INT(CombineShiftRightBytes)
P_K(ShiftLeftLanes, 1, 0, HWY_MIN(MaxLanes(D()), 16 / sizeof(TFromD<D>)), 1, hn::ShiftLeftLanes<K>(d, a), P >= K ? A.v[i - K] : z) VP_ALL(ShiftLeftLanes)
P_K(ShiftRightLanes, 1, 0, HWY_MIN(MaxLanes(D()), 16 / sizeof(TFromD<D>)), 1, hn::ShiftRightLanes<K>(d, a), P + K < L ? A.v[i + K] : z) VP_ALL(ShiftRightLanes)
P_K(CombineShiftRightLanes, 2, 1, HWY_MIN(MaxLanes(D()), 16 / sizeof(TFromD<D>)), 2, hn::CombineShiftRightLanes<K>(d, b, a), P + K < L ? A.v[i + K] : B.v[S + P + K - L]) VP_ALL(CombineShiftRightLanes)
P_OP(Shuffle1032, 4, 1, hn::Shuffle1032(a), A.v[S + ((P + 2) & 3)]) P_OP(Shuffle0321, 4, 1, hn::Shuffle0321(a), A.v[S + ((P + 1) & 3)]) P_OP(Shuffle2103, 4, 1, hn::Shuffle2103(a), A.v[S + ((P + 3) & 3)]) P_OP(Shuffle2301, 2, 1, hn::Shuffle2301(a), A.v[i ^ 1]) P_OP(Shuffle0123, 4, 1, hn::Shuffle0123(a), A.v[i ^ 3]) P_OP(Shuffle01, 2, 1, hn::Shuffle01(a), A.v[i ^ 1])
VP_PERM32(Shuffle1032) VP_PERM32(Shuffle0321) VP_PERM32(Shuffle2103) VP_PERM32(Shuffle2301) VP_PERM32(Shuffle0123) VP_PERM64(Shuffle01)
P_OP(Reverse2, 2, 1, hn::Reverse2(d, a), A.v[i ^ 1]) P_OP(Reverse4, 4, 1, hn::Reverse4(d, a), A.v[i ^ 3]) P_OP(Reverse8, 8, 1, hn::Reverse8(d, a), A.v[i ^ 7])
VP_ALL(Reverse2) VP_ALL(Reverse4) VP_ALL(Reverse8)
P_OP(ReverseBlocks, 1, 1, hn::ReverseBlocks(d, a), A.v[(N - L - S) + P]) VP_PERM(ReverseBlocks)
P_OP(SwapAdjacentBlocks, 32 / sizeof(TFromD<D>), 1, hn::SwapAdjacentBlocks(a), A.v[((S / L) ^ 1) * L + P]) P_OP(InterleaveEvenBlocks, 32 / sizeof(TFromD<D>), 2, hn::InterleaveEvenBlocks(d, a, b), ((S / L) & 1) ? B.v[i - L] : A.v[i]) P_OP(InterleaveOddBlocks, 32 / sizeof(TFromD<D>), 2, hn::InterleaveOddBlocks(d, a, b), ((S / L) & 1) ? B.v[i] : A.v[i + L])
#if HWY_MAX_BYTES >= 32
VP_PERM(SwapAdjacentBlocks) VP_ALL(InterleaveEvenBlocks) VP_ALL(InterleaveOddBlocks)
#endif
#endif
} }
