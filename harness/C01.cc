// C01: lane-wise integer arithmetic.
#include "../lib/vec.h"
namespace { namespace H {
using i128 = __int128;
template <class T> constexpr i128 Lo() { return (i128)hwy::LowestValue<T>(); }
template <class T> constexpr i128 Hi() { return (i128)hwy::HighestValue<T>(); }
template <class T> static inline T Clamp(i128 v) { return v < Lo<T>() ? (T)Lo<T>() : v > Hi<T>() ? (T)Hi<T>() : (T)v; }
VP_OP2(Add, hn::Add(a, b), (U)((U)x + (U)y))
VP_OP2(Sub, hn::Sub(a, b), (U)((U)x - (U)y))
VP_OP1(Neg, hn::Neg(a), (U)(0 - (U)x))
VP_OP2(SaturatedAdd, hn::SaturatedAdd(a, b), Clamp<T>((i128)x + (i128)y))
VP_OP2(SaturatedSub, hn::SaturatedSub(a, b), Clamp<T>((i128)x - (i128)y))
VP_OP1(Abs, hn::Abs(a), x < 0 ? (U)(0 - (U)x) : (U)x)
VP_OP1(SaturatedAbs, hn::SaturatedAbs(a), Clamp<T>(x < 0 ? -(i128)x : (i128)x))
VP_OP1(SaturatedNeg, hn::SaturatedNeg(a), Clamp<T>(-(i128)x))
VP_OP2(AbsDiff, hn::AbsDiff(a, b), x > y ? (U)((U)x - (U)y) : (U)((U)y - (U)x))
VP_OP2(AverageRound, hn::AverageRound(a, b), (((i128)x + (i128)y + 1) >> 1))
VP_INT(Add) VP_INT(Sub) VP_SIGNED(Neg) VP_INT(SaturatedAdd) VP_INT(SaturatedSub) VP_SIGNED(Abs) VP_SIGNED(SaturatedAbs) VP_SIGNED(SaturatedNeg) VP_INT(AbsDiff)
VP_INT(AverageRound)
VP_OP2(Mul, hn::Mul(a, b), (u64)x * (u64)y)
VP_INT(Mul)
VP_OP3(MulAdd, hn::MulAdd(a, b, c), (u64)x * (u64)y + (u64)z)
VP_OP3(NegMulAdd, hn::NegMulAdd(a, b, c), (u64)z - (u64)x * (u64)y)
VP_OP3(MulSub, hn::MulSub(a, b, c), (u64)x * (u64)y - (u64)z)
VP_OP3(NegMulSub, hn::NegMulSub(a, b, c), (u64)0 - (u64)x * (u64)y - (u64)z)
VP_INT(MulAdd) VP_INT(NegMulAdd) VP_INT(MulSub) VP_INT(NegMulSub)
VP_X(AddSub, 1, D, 2, hn::AddSub(a, b), (i & 1) ? (u64)A.v[i] + (u64)B.v[i] : (u64)A.v[i] - (u64)B.v[i], VpCheckBits)
VP_X(MulAddSub, 1, D, 3, hn::MulAddSub(a, b, c), (i & 1) ? (u64)A.v[i] * (u64)B.v[i] + (u64)C.v[i] : (u64)A.v[i] * (u64)B.v[i] - (u64)C.v[i], VpCheckBits)
VP_X(MulSubAdd, 1, D, 3, hn::MulSubAdd(a, b, c), (i & 1) ? (u64)A.v[i] * (u64)B.v[i] - (u64)C.v[i] : (u64)A.v[i] * (u64)B.v[i] + (u64)C.v[i], VpCheckBits)
VP_INT(AddSub) VP_INT(MulAddSub) VP_INT(MulSubAdd)
VP_X(PairwiseAdd, 2, D, 2, hn::PairwiseAdd(d, a, b), (i & 1) ? (u64)B.v[i - 1] + (u64)B.v[i] : (u64)A.v[i] + (u64)A.v[i + 1], VpCheckBits)
VP_X(PairwiseSub, 2, D, 2, hn::PairwiseSub(d, a, b), (i & 1) ? (u64)B.v[i] - (u64)B.v[i - 1] : (u64)A.v[i + 1] - (u64)A.v[i], VpCheckBits)
VP_INT(PairwiseAdd) VP_INT(PairwiseSub)
// Results of 128-bit blocks: 8 bytes from a, then 8 bytes from b.
template <class T> static inline size_t P128(size_t i) { size_t h = 8 / sizeof(T); return (i / (2 * h)) * 2 * h + (i % h) * 2; }
#define P128A(OP) ((i % (16 / sizeof(T))) < 8 / sizeof(T) ? (u64)A.v[P128<T>(i) + 1] OP (u64)A.v[P128<T>(i)] : (u64)B.v[P128<T>(i) + 1] OP (u64)B.v[P128<T>(i)])
VP_X(PairwiseAdd128, 16 / sizeof(T), D, 2, hn::PairwiseAdd128(d, a, b), P128A(+), VpCheckBits)
VP_X(PairwiseSub128, 16 / sizeof(T), D, 2, hn::PairwiseSub128(d, a, b), P128A(-), VpCheckBits)
VP_INT(PairwiseAdd128) VP_INT(PairwiseSub128)
} }
