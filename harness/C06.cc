// C06: comparisons, min/max, clamp.
#include "../lib/vec.h"
namespace { namespace H {
#define CMP(NAME, EXPR, SPEC) \
  template <class D> static inline void NAME(D d) { using T = TFromD<D>; constexpr size_t N = MaxLanes(D()); VpB<D> A, B; A.sym("a"); B.sym("b"); auto a = A.load(); auto b = B.load(); u8 g[N], w[N]; VpStoreMask(d, EXPR, g); \
    for (size_t i = 0; i < N; ++i) { T x = A.v[i], y = B.v[i]; w[i] = (SPEC); } vp_check_eq(g, w, N, 1, #NAME); }
CMP(Eq, hn::Eq(a, b), x == y) CMP(Ne, hn::Ne(a, b), x != y) CMP(Lt, hn::Lt(a, b), x < y) CMP(Gt, hn::Gt(a, b), x > y) CMP(Le, hn::Le(a, b), x <= y) CMP(Ge, hn::Ge(a, b), x >= y)
CMP(OpEq, a == b, x == y) CMP(OpNe, a != b, x != y) CMP(OpLt, a < b, x < y) CMP(OpGt, a > b, x > y) CMP(OpLe, a <= b, x <= y) CMP(OpGe, a >= b, x >= y)
VP_ALL(Eq) VP_ALL(Ne) VP_ALL(Lt) VP_ALL(Gt) VP_ALL(Le) VP_ALL(Ge) VP_ALL(OpEq) VP_ALL(OpNe) VP_ALL(OpLt) VP_ALL(OpGt) VP_ALL(OpLe) VP_ALL(OpGe)
// bit has exactly one bit set
template <class D> static inline void TestBit(D d) { using T = TFromD<D>; using U = MakeUnsigned<T>; constexpr size_t N = MaxLanes(D()); VpB<D> A, B; A.sym("a"); RebindToUnsigned<D> du; VpB<decltype(du)> S; S.sym("bit"); u8 g[N], w[N];
  for (size_t i = 0; i < N; ++i) B.v[i] = (T)((U)1 << (S.v[i] & (8 * sizeof(T) - 1))); VpStoreMask(d, hn::TestBit(A.load(), B.load()), g); for (size_t i = 0; i < N; ++i) w[i] = ((U)A.v[i] & (U)B.v[i]) != 0; vp_check_eq(g, w, N, 1, "TestBit"); }
VP_INT(TestBit)
template <class D> static inline void IsNegative(D d) { using T = TFromD<D>; constexpr size_t N = MaxLanes(D()); VpB<D> A; A.sym("a"); u8 g[N], w[N]; VpStoreMask(d, hn::IsNegative(A.load()), g);
  for (size_t i = 0; i < N; ++i) { bool n = A.v[i] < 0; bool dc = false; if constexpr (hwy::IsFloat<T>()) dc = (A.v[i] == 0) | (A.v[i] != A.v[i]); w[i] = (dc & (g[i] <= 1)) ? g[i] : n; } vp_check_eq(g, w, N, 1, "IsNegative"); }
VP_SIGNED(IsNegative) VP_F32F64(IsNegative)
VP_OP2(MinI, hn::Min(a, b), x < y ? x : y) VP_OP2(MaxI, hn::Max(a, b), x < y ? y : x)
VP_INT(MinI) VP_INT(MaxI)
template <class T> static inline T Mag(T x) { if constexpr (hwy::IsFloat<T>()) return x < 0 ? -x : x; else return x; }
template <class T> static inline MakeUnsigned<T> UMag(T x) { using U = MakeUnsigned<T>; return x < 0 ? (U)(0 - (U)x) : (U)x; }
VP_OP2(MinMagI, hn::MinMagnitude(a, b), ((UMag(x) < UMag(y)) | ((UMag(x) == UMag(y)) & (x < y))) ? x : y)
VP_OP2(MaxMagI, hn::MaxMagnitude(a, b), ((UMag(x) < UMag(y)) | ((UMag(x) == UMag(y)) & (x < y))) ? y : x)
VP_INT(MinMagI) VP_INT(MaxMagI)
VP_OP3(ClampI, hn::Clamp(a, b, hn::Max(b, c)), x < y ? y : x > (y < z ? z : y) ? (y < z ? z : y) : x)
VP_INT(ClampI)
// Floats: the documented operand when neither is NaN (either zero when both are zero); otherwise one of the operands or a NaN.
template <class T> static inline bool Nan(T x) { return x != x; }
#define FMM(NAME, EXPR, SPEC) \
  template <class D> static inline void NAME(D d) { using T = TFromD<D>; using U = MakeUnsigned<T>; constexpr size_t N = MaxLanes(D()); VpB<D> A, B, G; A.sym("a"); B.sym("b"); auto a = A.load(); auto b = B.load(); G.store(EXPR); \
    for (size_t i = 0; i < N; ++i) { T x = A.v[i], y = B.v[i], g = G.v[i]; T w = SPEC; U gb, wb, xb, yb; memcpy(&gb, &g, sizeof(T)); memcpy(&wb, &w, sizeof(T)); memcpy(&xb, &x, sizeof(T)); memcpy(&yb, &y, sizeof(T)); \
      const bool num = !Nan(x) & !Nan(y), isin = (gb == xb) | (gb == yb); vp_check(num ? (isin & ((gb == wb) | (x == y))) : (isin | Nan(g)), #NAME); } }
FMM(MinF, hn::Min(a, b), x < y ? x : y) FMM(MaxF, hn::Max(a, b), x > y ? x : y)
#define MAGLT(x, y) ((Mag(x) < Mag(y)) | ((Mag(x) == Mag(y)) & (x < y)))
FMM(MinMagF, hn::MinMagnitude(a, b), MAGLT(x, y) ? x : y) FMM(MaxMagF, hn::MaxMagnitude(a, b), MAGLT(x, y) ? y : x)
VP_F32F64(MinF) VP_F32F64(MaxF) VP_F32F64(MinMagF) VP_F32F64(MaxMagF)
template <class D> static inline void ClampF(D d) { using T = TFromD<D>; constexpr size_t N = MaxLanes(D()); VpB<D> A, B, C, G; A.sym("a"); B.sym("lo"); C.sym("hi"); G.store(hn::Clamp(A.load(), B.load(), C.load()));
  for (size_t i = 0; i < N; ++i) { T x = A.v[i], l = B.v[i], h = C.v[i], g = G.v[i]; bool dom = !Nan(x) & (l <= h); vp_check(!dom | ((x < l) ? g == l : (x > h) ? g == h : g == x), "Clamp"); } }
VP_F32F64(ClampF)
#if HWY_TARGET != HWY_SCALAR
using u128 = unsigned __int128;
#define PAIR(NAME, EXPR, SPEC) \
  template <class D> static inline void NAME(D d) { constexpr size_t N = MaxLanes(D()); if constexpr (N >= 2) { VpB<D> A, B; A.sym("a"); B.sym("b"); auto a = A.load(); auto b = B.load(); u8 g[N], w[N]; VpStoreMask(d, EXPR, g); \
    for (size_t i = 0; i < N; ++i) { const size_t j = i & ~size_t{1}; const u64 al = A.v[j], ah = A.v[j + 1], bl = B.v[j], bh = B.v[j + 1]; const u128 x = ((u128)ah << 64) | al, y = ((u128)bh << 64) | bl; (void)x; (void)y; w[i] = (SPEC); } vp_check_eq(g, w, N, 1, #NAME); } }
PAIR(Lt128, hn::Lt128(d, a, b), x < y) PAIR(Lt128Upper, hn::Lt128Upper(d, a, b), ah < bh) PAIR(Eq128, hn::Eq128(d, a, b), x == y) PAIR(Ne128, hn::Ne128(d, a, b), x != y) PAIR(Eq128Upper, hn::Eq128Upper(d, a, b), ah == bh) PAIR(Ne128Upper, hn::Ne128Upper(d, a, b), ah != bh)
VP_TYPE_GOAL(Lt128, u64) VP_TYPE_GOAL(Lt128Upper, u64) VP_TYPE_GOAL(Eq128, u64) VP_TYPE_GOAL(Ne128, u64) VP_TYPE_GOAL(Eq128Upper, u64) VP_TYPE_GOAL(Ne128Upper, u64)
#define PAIRMM(NAME, EXPR, SPEC) \
  template <class D> static inline void NAME(D d) { constexpr size_t N = MaxLanes(D()); if constexpr (N >= 2) { VpB<D> A, B, G; A.sym("a"); B.sym("b"); auto a = A.load(); auto b = B.load(); u64 W[N]; G.store(EXPR); \
    for (size_t i = 0; i < N; ++i) { const size_t j = i & ~size_t{1}; const u64 al = A.v[j], ah = A.v[j + 1], bl = B.v[j], bh = B.v[j + 1]; const u128 x = ((u128)ah << 64) | al, y = ((u128)bh << 64) | bl; (void)x; (void)y; W[i] = (SPEC) ? A.v[i] : B.v[i]; } VpCheckBits(G.v, W, N, #NAME); } }
PAIRMM(Min128, hn::Min128(d, a, b), x < y) PAIRMM(Max128, hn::Max128(d, a, b), y < x) PAIRMM(Min128Upper, hn::Min128Upper(d, a, b), ah < bh) PAIRMM(Max128Upper, hn::Max128Upper(d, a, b), ah > bh)
VP_TYPE_GOAL(Min128, u64) VP_TYPE_GOAL(Max128, u64) VP_TYPE_GOAL(Min128Upper, u64) VP_TYPE_GOAL(Max128Upper, u64)
#endif
} }
