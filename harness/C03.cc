// C03: integer division and remainder of vectors.
#include "../lib/vec.h"
namespace { namespace H {
// quotient rounded toward zero, remainder = dividend - quotient * divisor
template <class T> static inline T Q(T a, T b) { return (T)(a / b); }
template <class T> static inline T R(T a, T b) { using U = MakeUnsigned<T>; return (T)(U)((uint64_t)a - (uint64_t)Q(a, b) * (uint64_t)b); }
template <class D> static inline void Domain(VpB<D>& A, VpB<D>& B) { using T = TFromD<D>; for (size_t i = 0; i < MaxLanes(D()); ++i) { vp_assume(B.v[i] != 0); if (hwy::IsSigned<T>()) vp_assume(!((A.v[i] == LimitsMin<T>()) & (B.v[i] == (T)-1))); } }
#define START using T = TFromD<D>; constexpr size_t N = MaxLanes(D()); VpB<D> A, B, G; T W[N]; A.sym("a"); B.sym("b"); Domain(A, B); auto a = A.load(), b = B.load();
template <class D> static inline void Div(D d) { (void)d; START G.store(hn::Div(a, b)); for (size_t i = 0; i < N; ++i) W[i] = Q<T>(A.v[i], B.v[i]); VpCheckBits(G.v, W, N, "Div"); }
template <class D> static inline void Mod(D d) { (void)d; START G.store(hn::Mod(a, b)); for (size_t i = 0; i < N; ++i) W[i] = R<T>(A.v[i], B.v[i]); VpCheckBits(G.v, W, N, "Mod"); }
// masked: the divisor may be anything where the mask is false
template <class D> static inline void MDiv(D d) { (void)d; using T = TFromD<D>; constexpr size_t N = MaxLanes(D()); VpB<D> A, B, O, G; VpM<D> M; T W[N]; A.sym("a"); B.sym("b"); O.sym("no"); M.sym("m");
  for (size_t i = 0; i < N; ++i) vp_assume(!M.m[i] | ((B.v[i] != 0) & !(hwy::IsSigned<T>() & (A.v[i] == LimitsMin<T>()) & (B.v[i] == (T)-1))));
  G.store(MaskedDivOr(O.load(), M.mask(), A.load(), B.load())); for (size_t i = 0; i < N; ++i) W[i] = M.m[i] ? Q<T>(A.v[i], B.v[i]) : O.v[i]; VpCheckBits(G.v, W, N, "MaskedDivOr");
  G.store(MaskedModOr(O.load(), M.mask(), A.load(), B.load())); for (size_t i = 0; i < N; ++i) W[i] = M.m[i] ? R<T>(A.v[i], B.v[i]) : O.v[i]; VpCheckBits(G.v, W, N, "MaskedModOr"); }
// 64 bits: corrected approximations. Divisors from a list, dividends in windows of 256 around multiples and at the limits.
template <class D> static inline void Win(D d) { (void)d; using T = TFromD<D>; using U = MakeUnsigned<T>; constexpr size_t N = MaxLanes(D()); static const U DV[24] = {1, 2, 3, 5, 7, 10, 255, 641, 65535, 65536, 65537, 0x7FFFFFFF, 0x80000000u, 0xFFFFFFFFu, (U)0x100000001ull, (U)0x1FFFFFFFFFFFFFull, (U)0x20000000000001ull, (U)0x3FFFFFFFFFFFFFFFull, (U)0x7FFFFFFFFFFFFFFFull, (U)0x8000000000000000ull, (U)0x8000000000000001ull, (U)0xC000000000000001ull, (U)-3, (U)-1};
  T b = (T)DV[vp_choose(0, 23, "divisor")]; static const U ST[14] = {0, (U)0x7FFFFFFFFFFFFF00ull, (U)0x7FFFFFFFFFFFFF80ull, (U)0x8000000000000000ull, (U)0x8000000000000080ull, (U)-256, (U)-128, (U)0x1FFFFFFFFFFF80ull, (U)0x3FFFFFFFFFFF80ull, (U)0xFFFFFF80ull, (U)0x7FFFFF80ull, (U)0x123456789ABCDE00ull, (U)0xFEDCBA9876543200ull, (U)0xFFFFFFFFFFDFFF80ull};
  U s = ST[vp_choose(0, 13, "window")]; U k = vp_choose(0, 1, "round down to a multiple"); if (k) s = (U)(s - (U)((T)s % (b == (T)-1 && hwy::IsSigned<T>() ? (T)1 : b)) - 128);
  VpB<D> A, B, G; T W[N]; u8 o; vp_sym(&o, 1, 1, "offset"); for (size_t i = 0; i < N; ++i) { A.v[i] = (T)(U)(s + o); B.v[i] = b; } Domain(A, B);
  G.store(hn::Div(A.load(), B.load())); for (size_t i = 0; i < N; ++i) W[i] = Q<T>(A.v[i], B.v[i]); VpCheckBits(G.v, W, N, "Div"); }
#define G(T) VP_TYPE_GOAL(Div, T) VP_TYPE_GOAL(Mod, T) VP_TYPE_GOAL(MDiv, T)
G(u8) G(i8) G(u16) G(i16) G(u32) G(i32)
#define W(T) VP_GOAL(Win_##T) { Win(CappedTag<T, 2>()); }
W(u64) W(i64)
} }
