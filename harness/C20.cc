// C20: contrib/sort. Arrays of exactly `n` keys: any other access is an error in the executor.
#define VQSORT_ONLY_STATIC 1
#include <time.h>
static inline clock_t VpClock() { return 0; }
#define clock VpClock
#include "../lib/vec.h"
#include "hwy/contrib/sort/vqsort-inl.h"
#undef clock
namespace { namespace H {
template <class K> struct Mem { K* p; size_t n; Mem(size_t k, size_t misalign) : n(k) { p = (K*)vp_alloc_at(k * sizeof(K), misalign); } ~Mem() { vp_free(p); } };
// Oracle order and identity of keys; `same` is bitwise except that floats compare as values (all NaN and both zeros are the same key).
template <class K> static inline bool Lt1(K a, K b) { return a < b; }
template <class K> static inline bool Same(K a, K b) { if constexpr (hwy::IsFloat<K>()) return (a == b) | ((a != a) & (b != b)); else return a == b; }
static inline bool Lt1(hwy::K32V32 a, hwy::K32V32 b) { return a.key < b.key; }
static inline bool Same(hwy::K32V32 a, hwy::K32V32 b) { return (a.key == b.key) & (a.value == b.value); }
static inline bool Lt1(hwy::K64V64 a, hwy::K64V64 b) { return a.key < b.key; }
static inline bool Same(hwy::K64V64 a, hwy::K64V64 b) { return (a.key == b.key) & (a.value == b.value); }
static inline bool Lt1(hwy::uint128_t a, hwy::uint128_t b) { return (a.hi < b.hi) | ((a.hi == b.hi) & (a.lo < b.lo)); }
static inline bool Same(hwy::uint128_t a, hwy::uint128_t b) { return (a.hi == b.hi) & (a.lo == b.lo); }
template <class K> static inline bool IsNan(K a) { if constexpr (hwy::IsFloat<K>()) return a != a; else return false; }
// a must not come after b: NaN comes last in either order.
template <class Ord, class K> static inline bool Ordered(K a, K b) { const bool wrong = Ord::IsAscending() ? Lt1(b, a) : Lt1(a, b); return !wrong & (IsNan(b) | !IsNan(a)); }
template <class K> static inline bool Canonical(K a) { if constexpr (hwy::IsFloat<K>()) { MakeUnsigned<K> u; memcpy(&u, &a, sizeof u); return !(a != a) | (u == (MakeUnsigned<K>)hwy::LimitsMax<MakeSigned<K>>()); } else return true; }
enum Fn { kSort, kPartial, kSelect };
template <class Ord, class K> static inline void Call(size_t fn, K* p, size_t n, size_t k) {
  if (fn == kSort) hn::VQSortStatic(p, n, Ord()); else if (fn == kPartial) hn::VQPartialSortStatic(p, n, k, Ord()); else hn::VQSelectStatic(p, n, k, Ord()); }
// The order the call promises.
template <class Ord, class K> static inline void CheckOrder(size_t fn, const K* p, size_t n, size_t k) {
  bool ok = true;
  if (fn == kSort) { for (size_t i = 0; i + 1 < n; ++i) ok &= Ordered<Ord>(p[i], p[i + 1]); vp_check(ok, "sorted"); }
  if (fn == kPartial) { for (size_t i = 0; i + 1 < k; ++i) ok &= Ordered<Ord>(p[i], p[i + 1]); if (k) for (size_t j = k; j < n; ++j) ok &= Ordered<Ord>(p[k - 1], p[j]); vp_check(ok, "first k sorted, none of the others comes before them"); }
  if (fn == kSelect) { for (size_t i = 0; i < k; ++i) ok &= Ordered<Ord>(p[i], p[k]); for (size_t j = k + 1; j < n; ++j) ok &= Ordered<Ord>(p[k], p[j]); vp_check(ok, "k-th key in its place"); }
  bool can = true; for (size_t i = 0; i < n; ++i) can &= Canonical(p[i]); vp_check(can, "canonical NaN"); }
// Every key of `in` occurs as often in `p`.
template <class K> static inline void CheckMulti(const K* in, const K* p, size_t n) { bool ok = true; for (size_t i = 0; i < n; ++i) { size_t a = 0, b = 0; for (size_t j = 0; j < n; ++j) { a += Same(in[i], in[j]); b += Same(in[i], p[j]); } ok &= a == b; } vp_check(ok, "the keys are rearranged"); }
static inline size_t K_(size_t fn, size_t n) { return fn == kSort ? 0 : fn == kPartial ? vp_choose(0, n, "k") : vp_choose(0, n - 1, "k"); }
// Up to a few keys, every value.
template <class K, class Ord> static inline void Small(size_t nmax) {
  const size_t fn = vp_choose(0, 2, "sort, partial sort, select"), n = vp_choose(fn == kSelect, nmax, "n"), k = K_(fn, n);
  Mem<K> m(n, 64 + sizeof(K)); K in[8]; vp_sym(m.p, n * sizeof(K) / HWY_MIN(sizeof(K), 8), HWY_MIN(sizeof(K), 8), "key"); memcpy(in, m.p, n * sizeof(K));
  Call<Ord>(fn, m.p, n, k); CheckOrder<Ord>(fn, m.p, n, k); CheckMulti(in, m.p, n); }
// Two-valued keys: by the count of the larger one, sorted is correct. `w` of the keys are arbitrary, the others follow a pattern.
template <class K> static inline K Lo() { if constexpr (hwy::IsFloat<K>()) return (K)-1.5; else if constexpr (hwy::IsSigned<K>()) return (K)-5; else return (K)5; }
template <class K> static inline K Hi() { if constexpr (hwy::IsFloat<K>()) return (K)2.5; else if constexpr (hwy::IsSigned<K>()) return (K)7; else return (K)~(K)0; }
template <class K, class Ord> static inline void Net(size_t nlo, size_t nhi, size_t w) {
  const size_t n = vp_choose(nlo, nhi, "n"); size_t at = 0, pat = 0; if (n > w) { at = vp_choose(0, 2, "window"); pat = vp_choose(0, 3, "others"); at = at == 0 ? 0 : at == 1 ? (n - w) / 2 : n - w; }
  Mem<K> m(n, 64 + sizeof(K)); const u64 bits = vp_sym_u64("bits"); size_t cnt = 0;
  for (size_t i = 0; i < n; ++i) { const size_t b = i >= at && i < at + w ? (size_t)(bits >> (i - at) & 1) : pat == 0 ? 0 : pat == 1 ? 1 : pat == 2 ? (i & 1) : (i * 2 < n); cnt += b; m.p[i] = b ? Hi<K>() : Lo<K>(); }
  Call<Ord>(kSort, m.p, n, 0); size_t out = 0; bool ok = true, two = true;
  for (size_t i = 0; i < n; ++i) { const bool h = m.p[i] == Hi<K>(); two &= h | (m.p[i] == Lo<K>()); out += h; if (i + 1 < n) ok &= Ordered<Ord>(m.p[i], m.p[i + 1]); }
  vp_check(ok, "sorted"); vp_check(two, "only the given keys"); vp_check(out == cnt, "as many of each key"); }
using Up = hwy::SortAscending; using Dn = hwy::SortDescending;
#define BOTH(NAME, CALL) VP_GOAL(NAME##_Up) { using Ord = Up; CALL; } VP_GOAL(NAME##_Down) { using Ord = Dn; CALL; }
template <class T> constexpr size_t Base() { return hwy::SortConstants::BaseCaseNumLanes<1>(HWY_LANES(T)); }
constexpr size_t kS = HWY_TARGET == HWY_SCALAR ? 4 : 3;
BOTH(Small_u64, (Small<u64, Ord>(3))) BOTH(Small_i64, (Small<i64, Ord>(3))) BOTH(Small_u32, (Small<u32, Ord>(3))) BOTH(Small_i32, (Small<i32, Ord>(3))) BOTH(Small_u16, (Small<u16, Ord>(kS))) BOTH(Small_i16, (Small<i16, Ord>(kS)))
BOTH(Small_f32, (Small<f32, Ord>(3))) BOTH(Small_f64, (Small<f64, Ord>(3)))
BOTH(Small_K32V32, (Small<hwy::K32V32, Ord>(3)))
#if HWY_TARGET != HWY_SCALAR
BOTH(Small_K64V64, (Small<hwy::K64V64, Ord>(3))) BOTH(Small_u128, (Small<hwy::uint128_t, Ord>(3)))
#endif
BOTH(Net_u64, (Net<u64, Ord>(1, HWY_TARGET == HWY_SCALAR ? 6 : HWY_MIN(16, Base<u64>()), 10)))
BOTH(Net_i32, (Net<i32, Ord>(1, HWY_TARGET == HWY_SCALAR ? 6 : 16, 10)))
BOTH(Net_f32, (Net<f32, Ord>(1, HWY_TARGET == HWY_SCALAR ? 6 : 16, 10)))
} }
