// C18: scalar helpers of hwy/base.h.
#include <string.h>
#include "hwy/base.h"
#include "../lib/vp.h"
using u8 = uint8_t; using i8 = int8_t; using u16 = uint16_t; using i16 = int16_t; using u32 = uint32_t; using i32 = int32_t; using u64 = uint64_t; using i64 = int64_t; using f32 = float; using f64 = double; using f16 = hwy::float16_t; using bf16 = hwy::bfloat16_t;
namespace {
template <class T> static T S(const char* n) { T x; vp_sym(&x, 1, sizeof(T), n); return x; }
template <class T> static void Eq(T g, T w, const char* l) { vp_check_eq(&g, &w, 1, sizeof(T), l); }
#define INTS(M) M(u8) M(i8) M(u16) M(i16) M(u32) M(i32) M(u64) M(i64)
// number of bits from the definition: one term per bit
template <class U> static u64 Ones(U x) { u64 n = 0; for (unsigned i = 0; i < sizeof(U) * 8; ++i) n += x >> i & 1; return n; }
}
VP_GOAL(Ctz32) { u32 x = S<u32>("x"); vp_assume(x != 0); u64 r = hwy::Num0BitsBelowLS1Bit_Nonzero32(x); vp_check(r < 32, "range"); vp_check((x >> (r & 31) & 1) && (x & ((1u << (r & 31)) - 1)) == 0, "lowest set bit"); }
VP_GOAL(Ctz64) { u64 x = S<u64>("x"); vp_assume(x != 0); u64 r = hwy::Num0BitsBelowLS1Bit_Nonzero64(x); vp_check(r < 64, "range"); vp_check((x >> (r & 63) & 1) && (x & ((1ull << (r & 63)) - 1)) == 0, "lowest set bit"); }
VP_GOAL(Clz32) { u32 x = S<u32>("x"); vp_assume(x != 0); u64 r = hwy::Num0BitsAboveMS1Bit_Nonzero32(x); vp_check(r < 32, "range"); vp_check(x >> (31 - (r & 31)) == 1, "highest set bit"); }
VP_GOAL(Clz64) { u64 x = S<u64>("x"); vp_assume(x != 0); u64 r = hwy::Num0BitsAboveMS1Bit_Nonzero64(x); vp_check(r < 64, "range"); vp_check(x >> (63 - (r & 63)) == 1, "highest set bit"); }
#define POP(T) VP_GOAL(Pop_##T) { T x = S<T>("x"); Eq<u64>(hwy::PopCount(x), Ones((hwy::MakeUnsigned<T>)x), "PopCount"); }
INTS(POP)
// floor(log2 x) = r iff 2^r <= x < 2^(r+1)
#define LOG(T) VP_GOAL(Log_##T) { T x = S<T>("x"); vp_assume(x > 0); u64 r = hwy::FloorLog2(x), v = (u64)x; vp_check(r < 64 && v >> (r & 63) == 1, "FloorLog2"); } \
  VP_GOAL(LogC_##T) { T x = S<T>("x"); vp_assume(x > 0); u64 r = hwy::CeilLog2(x), v = (u64)x; vp_check(r <= 64 && (r >= 64 || v <= 1ull << (r & 63)) && (r == 0 || (v > 1ull << ((r - 1) & 63))), "CeilLog2"); }
INTS(LOG)
VP_GOAL(Mul128u) { u64 a = S<u64>("a"), b = S<u64>("b"), up; u64 lo = hwy::Mul128(a, b, &up); unsigned __int128 p = (unsigned __int128)a * b; Eq(lo, (u64)p, "low"); Eq(up, (u64)(p >> 64), "high"); }
VP_GOAL(Mul128i) { i64 a = S<i64>("a"), b = S<i64>("b"), up; i64 lo = hwy::Mul128(a, b, &up); __int128 p = (__int128)a * b; Eq(lo, (i64)p, "low"); Eq(up, (i64)(p >> 64), "high"); }
// the quotient q of a / b rounded up: (q-1) b < a <= q b, stated in 128 bits. Domain: a + b - 1 does not overflow.
VP_GOAL(DivCeil) { u64 k = vp_choose(0, 17, "divisor"); static const u64 D[18] = {1, 2, 3, 4, 5, 7, 8, 10, 12, 16, 24, 63, 64, 100, 127, 256, 4096, 1000003}; u64 b = D[k]; u64 a = (b & (b - 1)) ? vp_range(0, (1 << 18) - 1, "a") : vp_range(0, 1ull << 62, "a"); u64 q = hwy::DivCeil(a, b); unsigned __int128 p = (unsigned __int128)q * b; vp_check(p >= a && p - a < b, "DivCeil"); }
VP_GOAL(DivCeilSmall) { u64 a = vp_range(0, 4095, "a"), b = vp_range(1, 255, "b"); u64 q = hwy::DivCeil(a, b); vp_check(q <= 4096 && q * b >= a && q * b - a < b, "DivCeil"); }
VP_GOAL(Round) { u64 k = vp_choose(0, 9, "alignment"); static const u64 D[10] = {1, 2, 3, 4, 8, 12, 16, 64, 128, 4096}; u64 b = D[k]; u64 a = (b & (b - 1)) ? vp_range(0, (1 << 18) - 1, "a") : vp_range(0, 1ull << 62, "a"); u64 up = hwy::RoundUpTo(a, b), dn = hwy::RoundDownTo(a, b);
  vp_check(up >= a && up - a < b && up % b == 0, "RoundUpTo"); vp_check(dn <= a && a - dn < b && dn % b == 0, "RoundDownTo"); }
VP_GOAL(RoundSmall) { u64 a = vp_range(0, 1023, "a"), b = vp_range(1, 31, "b"); u64 up = hwy::RoundUpTo(a, b), dn = hwy::RoundDownTo(a, b); vp_check(up >= a && up - a < b && up % b == 0, "RoundUpTo"); vp_check(dn <= a && a - dn < b && dn % b == 0, "RoundDownTo"); }
// floor(x / 2^s)
#define SHR(T) VP_GOAL(Shr_##T) { T x = S<T>("x"); u64 s = vp_range(0, sizeof(T) * 8 - 1, "shift"); Eq<T>(hwy::ScalarShr(x, (int)s), (T)((__int128)x >> s), "ScalarShr"); \
  /* the portable variant, for compilers whose signed shifts are not arithmetic */ Eq<T>(hwy::detail::ScalarShr(hwy::TypeTag<T>(), x, (int)s), (T)((__int128)x >> s), "ScalarShr portable"); }
INTS(SHR)
#define WRAP(T) VP_GOAL(Wrap_##T) { T x = S<T>("x"), y = S<T>("y"); Eq<T>(hwy::AddWithWraparound(x, y), (T)((unsigned __int128)x + (unsigned __int128)y), "AddWithWraparound"); i64 n = S<i64>("n"); Eq<T>(hwy::AddWithWraparound(x, n), (T)((unsigned __int128)x + (unsigned __int128)n), "AddWithWraparound i64"); u64 m = S<u64>("m"); Eq<T>(hwy::AddWithWraparound(x, m), (T)((unsigned __int128)x + m), "AddWithWraparound u64"); }
INTS(WRAP)
#define LIM(T) { T lo = hwy::LimitsMin<T>(), hi = hwy::LimitsMax<T>(); T x = S<T>("x"); vp_check(lo <= x && x <= hi, "limits"); Eq<T>(hwy::LowestValue<T>(), lo, "LowestValue"); Eq<T>(hwy::HighestValue<T>(), hi, "HighestValue"); Eq<T>(hwy::NegativeInfOrLowestValue<T>(), lo, "NegativeInfOrLowestValue"); Eq<T>(hwy::PositiveInfOrHighestValue<T>(), hi, "PositiveInfOrHighestValue"); \
  Eq<T>(hwy::ScalarAbs(x), (T)(x < 0 ? (T)(0 - (hwy::MakeUnsigned<T>)x) : x), "ScalarAbs"); vp_check(hwy::ScalarIsFinite(x), "ScalarIsFinite"); vp_check(hwy::ScalarSignBit(x) == ((hwy::MakeUnsigned<T>)x >> (sizeof(T) * 8 - 1) != 0), "ScalarSignBit"); }
VP_GOAL(Limits) { INTS(LIM) }
// floating-point formats: E exponent bits, M mantissa bits, in terms of the bit pattern
template <class T, class U, int E, int M> static inline void FP() {
  U b = S<U>("bits"), s = S<U>("sign"); T x, y; memcpy(&x, &b, sizeof b); memcpy(&y, &s, sizeof s);
  const U man = (U)(((U)1 << M) - 1), ex = (U)((((U)1 << E) - 1) << M), sg = (U)((U)1 << (E + M)); const bool nan = (b & ex) == ex && (b & man), inf = (b & ex) == ex && !(b & man);
  vp_check(hwy::ScalarIsNaN(x) == nan, "ScalarIsNaN"); vp_check(hwy::ScalarIsInf(x) == inf, "ScalarIsInf"); vp_check(hwy::ScalarIsFinite(x) == (!nan && !inf), "ScalarIsFinite"); vp_check(hwy::ScalarSignBit(x) == ((b & sg) != 0), "ScalarSignBit");
  auto bits = [](auto v) { U r; static_assert(sizeof v == sizeof r, ""); memcpy(&r, &v, sizeof r); return r; };
  Eq<U>(bits(hwy::ScalarAbs(x)), (U)(b & ~sg), "ScalarAbs"); Eq<U>(bits(hwy::ScalarCopySign(x, y)), (U)((b & ~sg) | (s & sg)), "ScalarCopySign");
  Eq<U>(bits(hwy::LowestValue<T>()), (U)(sg | (ex - 1)), "LowestValue"); Eq<U>(bits(hwy::HighestValue<T>()), (U)(ex - 1), "HighestValue"); Eq<U>(bits(hwy::PositiveInfOrHighestValue<T>()), ex, "inf"); Eq<U>(bits(hwy::NegativeInfOrLowestValue<T>()), (U)(ex | sg), "-inf");
  const U bias = (U)(((U)1 << (E - 1)) - 1); Eq<U>(bits(hwy::Epsilon<T>()), (U)((U)(bias - M) << M), "Epsilon"); Eq<U>(bits(hwy::MantissaEnd<T>()), (U)((U)(bias + M) << M), "MantissaEnd");
  Eq<U>((U)hwy::ExponentMask<T>(), ex, "ExponentMask"); Eq<U>((U)hwy::MantissaMask<T>(), man, "MantissaMask"); Eq<U>((U)hwy::SignMask<T>(), sg, "SignMask"); vp_check(hwy::MantissaBits<T>() == M && hwy::ExponentBits<T>() == E, "bits"); vp_check((u64)hwy::MaxExponentField<T>() == (1u << E) - 1, "MaxExponentField"); Eq<U>((U)hwy::MaxExponentTimes2<T>(), (U)(ex << 1), "MaxExponentTimes2");
}
VP_GOAL(FP_f32) { FP<f32, u32, 8, 23>(); }
VP_GOAL(FP_f64) { FP<f64, u64, 11, 52>(); }
VP_GOAL(FP_f16) { FP<f16, u16, 5, 10>(); }
VP_GOAL(FP_bf16) { FP<bf16, u16, 8, 7>(); }
// comparisons of halves: those of the sign-magnitude integers, except for NaN
template <class T, int M, int E> static inline void Cmp() {
  u16 a = S<u16>("a"), b = S<u16>("b"); T x, y; memcpy(&x, &a, 2); memcpy(&y, &b, 2); const u16 ex = (u16)(((1 << E) - 1) << M); const bool un = (a & 0x7FFF) > ex || (b & 0x7FFF) > ex;
  i32 ka = a & 0x8000 ? -(i32)(a & 0x7FFF) : (i32)a, kb = b & 0x8000 ? -(i32)(b & 0x7FFF) : (i32)b;
  vp_check((x == y) == (!un && ka == kb), "=="); vp_check((x != y) == (un || ka != kb), "!="); vp_check((x < y) == (!un && ka < kb), "<"); vp_check((x <= y) == (!un && ka <= kb), "<="); vp_check((x > y) == (!un && ka > kb), ">"); vp_check((x >= y) == (!un && ka >= kb), ">=");
}
VP_GOAL(Cmp_f16) { Cmp<f16, 10, 5>(); }
VP_GOAL(Cmp_bf16) { Cmp<bf16, 7, 8>(); }
VP_GOAL(Pairs) {
  { hwy::uint128_t a = {S<u64>("lo"), S<u64>("hi")}, b = {S<u64>("lo"), S<u64>("hi")}; unsigned __int128 x = (unsigned __int128)a.hi << 64 | a.lo, y = (unsigned __int128)b.hi << 64 | b.lo; vp_check((a < b) == (x < y), "uint128 <"); vp_check((a > b) == (x > y), "uint128 >"); vp_check((a == b) == (x == y), "uint128 =="); }
  { hwy::K64V64 a = {S<u64>("v"), S<u64>("k")}, b = {S<u64>("v"), S<u64>("k")}; vp_check((a < b) == (a.key < b.key), "K64V64 <"); vp_check((a > b) == (a.key > b.key), "K64V64 >"); vp_check((a == b) == (a.key == b.key), "K64V64 =="); }
  { hwy::K32V32 a = {S<u32>("v"), S<u32>("k")}, b = {S<u32>("v"), S<u32>("k")}; vp_check((a < b) == (a.key < b.key), "K32V32 <"); vp_check((a > b) == (a.key > b.key), "K32V32 >"); vp_check((a == b) == (a.key == b.key), "K32V32 =="); }
}
// bulk bytes: exactly the requested ones
VP_GOAL(CopyN) { u64 n = vp_choose(0, 40, "bytes"); u8* f = (u8*)vp_alloc(n, 1); u8* t = (u8*)vp_alloc(n, 1); vp_sym(f, n, 1, "from"); vp_sym(t, n, 1, "to"); u8 w[41]; for (u64 i = 0; i < n; ++i) w[i] = f[i]; hwy::CopyBytes(f, t, n); vp_check_eq(t, w, n, 1, "CopyBytes"); vp_check_eq(f, w, n, 1, "CopyBytes source"); hwy::ZeroBytes(t, n); for (u64 i = 0; i < n; ++i) w[i] = 0; vp_check_eq(t, w, n, 1, "ZeroBytes"); }
template <size_t N> static inline void CopyK() { u8 b[N + 32], c[N + 32], w[N + 32]; vp_sym(b, N + 32, 1, "from"); vp_sym(c, N + 32, 1, "to"); for (size_t i = 0; i < N + 32; ++i) w[i] = i >= 16 && i < 16 + N ? b[i] : c[i]; hwy::CopyBytes<N>(b + 16, c + 16); vp_check_eq(c, w, N + 32, 1, "CopyBytes<N>"); for (size_t i = 0; i < N; ++i) w[16 + i] = 0; hwy::ZeroBytes<N>(c + 16); vp_check_eq(c, w, N + 32, 1, "ZeroBytes<N>"); }
VP_GOAL(CopyK) { CopyK<1>(); CopyK<2>(); CopyK<3>(); CopyK<4>(); CopyK<7>(); CopyK<8>(); CopyK<12>(); CopyK<16>(); CopyK<17>(); CopyK<31>(); CopyK<32>(); CopyK<64>(); CopyK<100>(); }
VP_GOAL(BitCast) { u64 b = S<u64>("b"); Eq<u64>(hwy::BitCastScalar<u64>(hwy::BitCastScalar<f64>(b)), b, "BitCastScalar f64"); u32 c = S<u32>("c"); Eq<u32>(hwy::BitCastScalar<u32>(hwy::BitCastScalar<f32>(c)), c, "BitCastScalar f32"); u16 h = S<u16>("h"); Eq<u16>(hwy::BitCastScalar<u16>(hwy::BitCastScalar<f16>(h)), h, "BitCastScalar f16"); Eq<u16>(hwy::BitCastScalar<u16>(hwy::BitCastScalar<bf16>(h)), h, "BitCastScalar bf16"); f64 d; hwy::CopySameSize(&b, &d); u64 e; memcpy(&e, &d, 8); Eq(e, b, "CopySameSize"); }
