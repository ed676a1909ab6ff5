// C05: bitwise logic, selection, bit counting, bit permutation.
#include "../lib/vec.h"
namespace { namespace H {
// Bit-level operations on any lane type: x,y,z are the lanes' bits (type U).
template <class T> static inline MakeUnsigned<T> Bit(T v) { MakeUnsigned<T> u; memcpy(&u, &v, sizeof(T)); return u; }
template <class T> static inline T Unb(MakeUnsigned<T> u) { T v; memcpy(&v, &u, sizeof(T)); return v; }
#define BITOP(NAME, NIN, EXPR, SPEC) \
  template <class D> static inline void NAME(D d) { using T = TFromD<D>; using U = MakeUnsigned<T>; constexpr size_t N = MaxLanes(D()); VpB<D> A, B, C, G; U W[N], R[N]; A.sym("a"); if (NIN > 1) B.sym("b"); else memset(B.v, 0, sizeof(B.v)); if (NIN > 2) C.sym("c"); else memset(C.v, 0, sizeof(C.v)); \
    auto a = A.load(); auto b = B.load(); auto c = C.load(); (void)b; (void)c; G.store(EXPR); for (size_t i = 0; i < N; ++i) { U x = Bit(A.v[i]), y = Bit(B.v[i]), z = Bit(C.v[i]); (void)y; (void)z; W[i] = (U)(SPEC); R[i] = Bit(G.v[i]); } VpCheckBits(R, W, N, #NAME); }
BITOP(And, 2, hn::And(a, b), x & y) BITOP(Or, 2, hn::Or(a, b), x | y) BITOP(Xor, 2, hn::Xor(a, b), x ^ y) BITOP(AndNot, 2, hn::AndNot(a, b), ~x & y)
BITOP(Not, 1, hn::Not(a), ~x) BITOP(Xor3, 3, hn::Xor3(a, b, c), x ^ y ^ z) BITOP(Or3, 3, hn::Or3(a, b, c), x | y | z) BITOP(OrAnd, 3, hn::OrAnd(a, b, c), x | (y & z))
BITOP(BitwiseIfThenElse, 3, hn::BitwiseIfThenElse(a, b, c), (x & y) | (~x & z))
BITOP(OpAnd, 2, a & b, x & y) BITOP(OpOr, 2, a | b, x | y) BITOP(OpXor, 2, a ^ b, x ^ y)
VP_ALL(And) VP_ALL(Or) VP_ALL(Xor) VP_ALL(AndNot) VP_ALL(Not) VP_ALL(Xor3) VP_ALL(Or3) VP_ALL(OrAnd) VP_ALL(BitwiseIfThenElse) VP_INT(OpAnd) VP_INT(OpOr) VP_INT(OpXor)
// Selection by mask or by full-lane mask vector.
#define SELOP(NAME, EXPR, YES, NO) \
  template <class D> static inline void NAME(D d) { using T = TFromD<D>; using U = MakeUnsigned<T>; constexpr size_t N = MaxLanes(D()); VpB<D> A, B, MV, G; VpM<D> M; U W[N], R[N]; A.sym("a"); B.sym("b"); M.sym("m"); \
    for (size_t i = 0; i < N; ++i) MV.v[i] = Unb<T>((U)(M.m[i] ? ~(U)0 : (U)0)); auto a = A.load(); auto b = B.load(); auto m = M.mask(); auto mv = MV.load(); (void)a; (void)b; (void)m; (void)mv; G.store(EXPR); \
    for (size_t i = 0; i < N; ++i) { U x = Bit(A.v[i]), y = Bit(B.v[i]); (void)x; (void)y; U yes = (U)(YES), no = (U)(NO); W[i] = M.m[i] ? yes : no; R[i] = Bit(G.v[i]); } VpCheckBits(R, W, N, #NAME); }
SELOP(IfThenElse, hn::IfThenElse(m, a, b), x, y) SELOP(IfThenElseZero, hn::IfThenElseZero(m, a), x, 0) SELOP(IfThenZeroElse, hn::IfThenZeroElse(m, a), 0, x) SELOP(IfVecThenElse, hn::IfVecThenElse(mv, a, b), x, y)
SELOP(MaskedOr, hn::MaskedOr(m, a, b), x | y, 0)
VP_ALL(IfThenElse) VP_ALL(IfThenElseZero) VP_ALL(IfThenZeroElse) VP_ALL(IfVecThenElse) VP_ALL(MaskedOr)
// Selection by sign. -0.0 and NaN conditions may select either way (documented as equivalent to both the sign bit and x < 0).
#define SIGNOP(NAME, EXPR, YES, NO) \
  template <class D> static inline void NAME(D d) { using T = TFromD<D>; using U = MakeUnsigned<T>; constexpr size_t N = MaxLanes(D()); VpB<D> A, B, C, G; U W[N], R[N]; A.sym("v"); B.sym("yes"); C.sym("no"); auto v = A.load(); auto b = B.load(); auto c = C.load(); (void)b; (void)c; G.store(EXPR); \
    for (size_t i = 0; i < N; ++i) { U x = Bit(A.v[i]), y = Bit(B.v[i]), z = Bit(C.v[i]); (void)y; (void)z; constexpr U S = (U)1 << (8 * sizeof(U) - 1); R[i] = Bit(G.v[i]); U yes = (U)(YES), no = (U)(NO); bool neg = (x & S) != 0; U w = neg ? yes : no; \
      if constexpr (hwy::IsFloat<T>()) { U o = neg ? no : yes; bool dc = (A.v[i] == 0) | (A.v[i] != A.v[i]); w = (dc & (R[i] == o)) ? o : w; } W[i] = w; } VpCheckBits(R, W, N, #NAME); }
SIGNOP(IfNegativeThenElse, hn::IfNegativeThenElse(v, b, c), y, z) SIGNOP(IfNegativeThenElseZero, hn::IfNegativeThenElseZero(v, b), y, 0) SIGNOP(IfNegativeThenZeroElse, hn::IfNegativeThenZeroElse(v, c), 0, z)
SIGNOP(ZeroIfNegative, hn::ZeroIfNegative(v), 0, x)
VP_SIGNED(IfNegativeThenElse) VP_SIGNED(IfNegativeThenElseZero) VP_SIGNED(IfNegativeThenZeroElse) VP_SIGNED(ZeroIfNegative) VP_F32F64(IfNegativeThenElse) VP_F32F64(IfNegativeThenElseZero) VP_F32F64(IfNegativeThenZeroElse) VP_F32F64(ZeroIfNegative)
template <class D> static inline void IfNegNegOrUndef(D d) { using T = TFromD<D>; using U = MakeUnsigned<T>; constexpr size_t N = MaxLanes(D()); VpB<D> A, B, G; U W[N], R[N]; A.sym("mask"); B.sym("v"); G.store(hn::IfNegativeThenNegOrUndefIfZero(A.load(), B.load()));
  for (size_t i = 0; i < N; ++i) { U x = Bit(A.v[i]), y = Bit(B.v[i]), n; constexpr U S = (U)1 << (8 * sizeof(U) - 1); if constexpr (hwy::IsFloat<T>()) n = y ^ S; else n = (U)(0 - y); R[i] = Bit(G.v[i]); U w = (x & S) ? n : y; bool zero; bool dc; 
    if constexpr (hwy::IsFloat<T>()) { zero = A.v[i] == 0; dc = zero | (A.v[i] != A.v[i]); bool ok = (R[i] == n) | (R[i] == y) | (R[i] == 0); W[i] = (dc & ok) ? R[i] : w; } else { zero = x == 0; bool ok = (R[i] == 0) | (R[i] == y); W[i] = (zero & ok) ? R[i] : w; } (void)dc; }
  VpCheckBits(R, W, N, "IfNegativeThenNegOrUndefIfZero"); }
VP_SIGNED(IfNegNegOrUndef) VP_F32F64(IfNegNegOrUndef)
VP_OP1(BroadcastSignBit, hn::BroadcastSignBit(a), x < 0 ? -1 : 0)
VP_SIGNED(BroadcastSignBit)
// Counting, branch-free definitions over every bit.
template <class U> static inline U Pop(U x) { U r = 0; for (unsigned j = 0; j < sizeof(U); ++j) { u8 b = (u8)(x >> (8 * j)), s = 0; for (unsigned k = 0; k < 8; ++k) s = (u8)(s + ((b >> k) & 1)); r = (U)(r + s); } return r; }
template <class U> static inline U Lzc(U x) { U r = (U)(8 * sizeof(U)); for (unsigned k = 0; k < 8 * sizeof(U); ++k) r = ((x >> k) & 1) ? (U)(8 * sizeof(U) - 1 - k) : r; return r; }
template <class U> static inline U Tzc(U x) { U r = (U)(8 * sizeof(U)); for (unsigned k = 8 * sizeof(U); k-- > 0;) r = ((x >> k) & 1) ? (U)k : r; return r; }
template <class U> static inline U Rev(U x) { U r = 0; for (unsigned k = 0; k < 8 * sizeof(U); ++k) r = (U)(r | (((x >> k) & 1) << (8 * sizeof(U) - 1 - k))); return r; }
template <class U> static inline U RevB(U x) { U r = 0; for (unsigned k = 0; k < sizeof(U); ++k) r = (U)(r | (((x >> (8 * k)) & 0xff) << (8 * (sizeof(U) - 1 - k)))); return r; }
VP_OP1(PopulationCount, hn::PopulationCount(a), Pop<U>((U)x))
VP_OP1(LeadingZeroCount, hn::LeadingZeroCount(a), Lzc<U>((U)x))
VP_OP1(TrailingZeroCount, hn::TrailingZeroCount(a), Tzc<U>((U)x))
VP_OP1(ReverseBits, hn::ReverseBits(a), Rev<U>((U)x))
VP_OP1(ReverseLaneBytes, hn::ReverseLaneBytes(a), RevB<U>((U)x))
VP_UNSIGNED(PopulationCount) VP_INT(LeadingZeroCount) VP_INT(TrailingZeroCount) VP_INT(ReverseBits) VP_UI16(ReverseLaneBytes) VP_UI32(ReverseLaneBytes) VP_UI64(ReverseLaneBytes)
template <class D> static inline void HighestSetBitIndex(D d) { using T = TFromD<D>; using U = MakeUnsigned<T>; using I = MakeSigned<T>; constexpr size_t N = MaxLanes(D()); VpB<D> A, G; T W[N]; A.sym("a"); G.store(hn::HighestSetBitIndex(A.load()));
  for (size_t i = 0; i < N; ++i) { U x = (U)A.v[i]; T w = (T)(U)(8 * sizeof(U) - 1 - Lzc<U>(x)); W[i] = ((x == 0) & ((I)G.v[i] < 0)) ? G.v[i] : x == 0 ? (T)-1 : w; } VpCheckBits(G.v, W, N, "HighestSetBitIndex"); }
VP_INT(HighestSetBitIndex)
SELOP(MaskedLeadingZeroCount, hn::MaskedLeadingZeroCount(m, a), Lzc<U>(x), 0)
VP_INT(MaskedLeadingZeroCount)
template <class D> static inline void AllBits(D d) { using T = TFromD<D>; using U = MakeUnsigned<T>; constexpr size_t N = MaxLanes(D()); VpB<D> A; A.sym("a"); U o = 0, n = (U)~(U)0; for (size_t i = 0; i < N; ++i) { o |= Bit(A.v[i]); n &= Bit(A.v[i]); }
  vp_check(hn::AllBits0(d, A.load()) == (o == 0), "AllBits0"); vp_check(hn::AllBits1(d, A.load()) == (n == (U)~(U)0), "AllBits1"); }
VP_INT(AllBits)
#if HWY_TARGET != HWY_SCALAR
template <class D, class TI> static inline void BitShuf(D d) { using T = TFromD<D>; constexpr size_t N = MaxLanes(D()); Repartition<TI, D> di; VpB<D> A, G; VpB<decltype(di)> I; A.sym("a"); I.sym("idx"); for (size_t i = 0; i < 8 * N; ++i) I.v[i] = (TI)(I.v[i] & 63); G.store(hn::BitShuffle(A.load(), I.load()));
  u8 R[64 * N], W[64 * N]; for (size_t i = 0; i < N; ++i) for (unsigned j = 0; j < 64; ++j) { R[64 * i + j] = ((u64)G.v[i] >> j) & 1; W[64 * i + j] = 0; if (j < 8) W[64 * i + j] = ((u64)A.v[i] >> (unsigned)I.v[8 * i + j]) & 1; } VpCheckBits(R, W, 64 * N, "BitShuffle"); }
template <class D> static inline void BitShuffleU(D d) { BitShuf<D, u8>(d); }
template <class D> static inline void BitShuffleI(D d) { BitShuf<D, i8>(d); }
VP_UI64(BitShuffleU) VP_UI64(BitShuffleI)
#endif
} }
