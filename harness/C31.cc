// C31: robust statistics, moment and bin accumulators, the cyclic list with removal.
#include <string.h>
#include <algorithm>
#include <cmath>
#include <string>
#include <utility>
#include <vector>
#include "../lib/vp.h"
// logarithm and exponential come from the C library: stand-ins that keep every value distinct
namespace std { static inline double vp_log(double x) { return x; } static inline double vp_exp(double x) { return x; } }
#define log vp_log
#define exp vp_exp
#include "hwy/stats.h"
#undef log
#undef exp
#include "hwy/stats.cc"
#include "hwy/robust_statistics.h"
// the cost estimator in the same header needs the sorting library; it is not part of this property
#define HIGHWAY_HWY_CONTRIB_SORT_VQSORT_H_
namespace hwy { struct SortAscending {}; template <class T> static inline void VQSort(T* p, size_t n, SortAscending) { std::sort(p, p + n); } }
#include "hwy/auto_tune.h"
using u8 = uint8_t; using u16 = uint16_t; using u32 = uint32_t; using u64 = uint64_t; using i32 = int32_t; using i64 = int64_t; using u128 = unsigned __int128; using i128 = __int128; using f32 = float; using f64 = double;
using namespace hwy; using namespace hwy::robust_statistics;
namespace {
template <class T> static inline void Sample(T* v, size_t n) { for (size_t i = 0; i < n; ++i) { T x; vp_sym(&x, 1, sizeof(T), "value"); v[i] = x; } }
template <class T> static inline void Sorted(T* v, size_t n) { Sample(v, n); for (size_t i = 1; i < n; ++i) vp_assume(v[i - 1] <= v[i]); }
template <class T> static inline T Mean2(T a, T b) { return (T)(((i128)a + (i128)b + 1) / 2); }
template <class T, size_t MAX> static inline void Counting() {
  const size_t n = vp_choose(0, MAX, "count"); T* v = (T*)vp_alloc(n * sizeof(T), sizeof(T)); T in[MAX + 1]; Sample(in, n); for (size_t i = 0; i < n; ++i) v[i] = in[i];
  CountingSort(v, n); for (size_t i = 1; i < n; ++i) vp_check(v[i - 1] <= v[i], "ascending"); for (size_t i = 0; i < n; ++i) { size_t a = 0, b = 0; for (size_t j = 0; j < n; ++j) { a += in[j] == in[i]; b += v[j] == in[i]; } vp_check(a == b, "same values"); }
}
// the half-sample mode: repeatedly the first half with the smallest range, then the mean of the two left
template <class T> static inline T HalfSample(const T* v, size_t n) { size_t lo = 0, h = n / 2; while (h > 1) { size_t best = lo; T r = (T)(v[lo + h] - v[lo]); for (size_t i = lo + 1; i < lo + h; ++i) { const T q = (T)(v[i + h] - v[i]); if (q < r) { r = q; best = i; } } lo = best; h /= 2; } return h == 0 ? v[lo] : Mean2(v[lo], v[lo + 1]); }
template <class T, size_t MAX> static inline void Modes() { const size_t n = vp_choose(1, MAX, "count"); T* v = (T*)vp_alloc(n * sizeof(T), sizeof(T)); T in[MAX]; Sorted(in, n); for (size_t i = 0; i < n; ++i) v[i] = in[i]; const T got = ModeOfSorted(v, n); vp_check(got == HalfSample(in, n), "half-sample mode"); vp_check(in[0] <= got && got <= in[n - 1], "inside the sample"); for (size_t i = 0; i < n; ++i) vp_check(v[i] == in[i], "unchanged"); }
// every arrangement of n sorted values
template <class T> static inline void Arrange(T* v, const T* s, size_t n) { size_t f = 1; for (size_t i = 2; i <= n; ++i) f *= i; size_t k = vp_choose(0, f - 1, "arrangement"); bool used[8] = {false}; for (size_t i = 0; i < n; ++i) { f /= n - i; size_t r = k / f; k %= f; size_t j = 0; for (;; ++j) { if (used[j]) continue; if (r == 0) break; --r; } used[j] = true; v[i] = s[j]; } }
template <class T, size_t MAX> static inline void ModeUnsorted() { const size_t n = vp_choose(1, MAX, "count"); T* v = (T*)vp_alloc(n * sizeof(T), sizeof(T)); T s[MAX]; Sorted(s, n); Arrange(v, s, n); vp_check(Mode(v, n) == HalfSample(s, n), "half-sample mode"); for (size_t i = 0; i < n; ++i) vp_check(v[i] == s[i], "sorted"); }
template <class T> static inline T MedianOf(const T* s, size_t n) { return n % 2 ? s[n / 2] : Mean2(s[n / 2 - 1], s[n / 2]); }
template <class T, size_t N> static inline void Medians() { T* v = (T*)vp_alloc(N * sizeof(T), sizeof(T)); T s[N]; Sorted(s, N); Arrange(v, s, N); vp_check(Median(v, N) == MedianOf(s, N), "median"); for (size_t i = 0; i < N; ++i) vp_check(v[i] == s[i], "sorted"); }
template <class T, size_t N> static inline void Deviations() { T* v = (T*)vp_alloc(N * sizeof(T), sizeof(T)); T d[N], e[N], c; Sorted(d, N); Sample(&c, 1); if (sizeof(T) == 8) { vp_assume(c >> 63 == 0); } Arrange(e, d, N); for (size_t i = 0; i < N; ++i) { T x; if (vp_choose(0, 1, "side")) { x = (T)(c - e[i]); vp_assume(e[i] <= c); } else { x = (T)(c + e[i]); vp_assume((c <= x) & (sizeof(T) < 8 || x >> (sizeof(T) * 8 - 1) == 0)); } v[i] = x; } vp_check(MedianAbsoluteDeviation((const T*)v, N, c) == MedianOf(d, N), "median absolute deviation"); }
}
VP_GOAL(CountingSort_u32) { Counting<u32, 4>(); }
VP_GOAL(CountingSort_i64) { Counting<i64, 4>(); }
VP_GOAL(CountingSort_u8) { Counting<u8, 4>(); }
VP_GOAL(Mode_u32) { Modes<u32, 9>(); }
VP_GOAL(Mode_u64) { Modes<u64, 6>(); }
VP_GOAL(ModeAny_u32) { ModeUnsorted<u32, 3>(); }
VP_GOAL(Median1_u32) { Medians<u32, 1>(); }
VP_GOAL(Median2_u32) { Medians<u32, 2>(); }
VP_GOAL(Median3_u32) { Medians<u32, 3>(); }
VP_GOAL(Median4_u32) { Medians<u32, 4>(); }
#ifdef VP_DEEP
VP_GOAL(Median5_u32) { Medians<u32, 5>(); }
#endif
VP_GOAL(Median1_u64) { Medians<u64, 1>(); }
VP_GOAL(Median2_u64) { Medians<u64, 2>(); }
VP_GOAL(Median3_u64) { Medians<u64, 3>(); }
#ifdef VP_DEEP
VP_GOAL(Median4_u64) { Medians<u64, 4>(); }
#endif
#ifdef VP_DEEP
VP_GOAL(Median5_u64) { Medians<u64, 5>(); }
#endif
VP_GOAL(Median4_u16) { Medians<u16, 4>(); }
VP_GOAL(Mad1_u32) { Deviations<u32, 1>(); }
VP_GOAL(Mad2_u32) { Deviations<u32, 2>(); }
VP_GOAL(Mad3_u32) { Deviations<u32, 3>(); }
VP_GOAL(Mad1_u64) { Deviations<u64, 1>(); }
VP_GOAL(Mad2_u64) { Deviations<u64, 2>(); }
#ifdef VP_DEEP
VP_GOAL(Mad3_u64) { Deviations<u64, 3>(); }
#endif
VP_GOAL(Bins) { Bins<5> a, b; const size_t na = vp_choose(0, 3, "first"), nb = vp_choose(0, 2, "second"); u64 v[5]; for (size_t i = 0; i < na + nb; ++i) v[i] = vp_range(0, 4, "bin"); for (size_t i = 0; i < na; ++i) { if (i & 1) a.Notify((i32)v[i]); else a.Notify((size_t)v[i]); } for (size_t i = na; i < na + nb; ++i) b.Notify((u8)v[i]); a.Assimilate(b); static_assert(sizeof a == 5 * sizeof(size_t), ""); const size_t *ca = (const size_t*)&a, *cb = (const size_t*)&b; for (size_t k = 0; k < 5; ++k) { size_t x = 0, y = 0; for (size_t i = 0; i < na + nb; ++i) { x += v[i] == k; y += (v[i] == k) & (i >= na); } vp_check(ca[k] == x, "count"); vp_check(cb[k] == y, "other unchanged"); } a.Reset(); for (size_t k = 0; k < 5; ++k) vp_check(ca[k] == 0, "reset"); }
// ---- moments: identities over the reals in the (arbitrary) values
namespace {
static inline f32 Real(const char* name) { u16 r; vp_sym(&r, 1, 2, name); const u32 b = 0x3F800000u | (u32)r << 7; f32 f; memcpy(&f, &b, 4); return f; }
static inline void Moments(const Stats& s, const f32* x, size_t n) {
  vp_check(s.Count() == (i64)n, "count"); f32 mn = n ? x[0] : HighestValue<f32>(), mx = n ? x[0] : LowestValue<f32>(); for (size_t i = 1; i < n; ++i) { mn = x[i] < mn ? x[i] : mn; mx = x[i] > mx ? x[i] : mx; } const f32 smn = s.Min(), smx = s.Max(); vp_check_feq(&smn, &mn, 1, 4, 1, "minimum"); vp_check_feq(&smx, &mx, 1, 4, 1, "maximum");
  f64 m = 0, k[5] = {0}; for (size_t i = 0; i < n; ++i) m += (f64)x[i]; if (n) m /= (f64)n; for (size_t i = 0; i < n; ++i) { f64 d = (f64)x[i] - m, p = d; for (int j = 2; j < 5; ++j) { p *= d; k[j] += p; } }
  f64 got, want = m; got = s.Mean(); vp_check_real(&got, &want, 1, 2, "mean"); got = s.GeometricMean(); vp_check_real(&got, &want, 1, 2, "sum of logarithms");
  if (n == 0) { vp_check(s.Variance() == 0 && s.SampleVariance() == 0, "no values"); return; }
  got = s.Mu1(); vp_check_real(&got, &want, 1, 2, "Mu1"); want = k[2] / (f64)n; got = s.Mu2(); vp_check_real(&got, &want, 1, 2, "Mu2"); got = s.SampleVariance(); vp_check_real(&got, &want, 1, 2, "sample variance"); want = k[3] / (f64)n; got = s.Mu3(); vp_check_real(&got, &want, 1, 2, "Mu3"); want = k[4] / (f64)n; got = s.Mu4(); vp_check_real(&got, &want, 1, 2, "Mu4");
  if (n > 1) { want = k[2] / (f64)(n - 1); got = s.Variance(); vp_check_real(&got, &want, 1, 2, "variance"); }
}
}
VP_GOAL(Moments) { const size_t n = vp_choose(0, 5, "count"); f32 x[5]; Stats s; for (size_t i = 0; i < n; ++i) { x[i] = Real("x"); s.Notify(x[i]); } Moments(s, x, n); s.Reset(); Moments(s, x, 0); }
VP_GOAL(Merge) { const size_t a = vp_choose(0, 3, "first"), b = vp_choose(0, 3, "second"); f32 x[6]; Stats s, t; for (size_t i = 0; i < a + b; ++i) { x[i] = Real("x"); (i < a ? s : t).Notify(x[i]); } s.Assimilate(t); Moments(s, x, a + b); Moments(t, x + a, b); }
VP_GOAL(MergeTwice) { const size_t a = vp_choose(0, 2, "first"), b = vp_choose(1, 2, "second"), c = vp_choose(1, 1, "third"); f32 x[5]; Stats s, t, u; for (size_t i = 0; i < a + b + c; ++i) { x[i] = Real("x"); (i < a ? s : i < a + b ? t : u).Notify(x[i]); } if (vp_choose(0, 1, "order")) { t.Assimilate(u); s.Assimilate(t); } else { s.Assimilate(t); s.Assimilate(u); } Moments(s, x, a + b + c); }
VP_GOAL(MergeNotify) { f32 x[4]; Stats s, t; for (size_t i = 0; i < 3; ++i) { x[i] = Real("x"); (i < 2 ? s : t).Notify(x[i]); } s.Assimilate(t); x[3] = Real("x"); s.Notify(x[3]); Moments(s, x, 4); }
// ---- the cyclic list
namespace {
template <size_t N> static inline void List(size_t ops) {
  NextWithSkip l(N); bool gone[N] = {false}; size_t left = N;
  for (size_t k = 0; k <= ops; ++k) {
    for (size_t p = 0; p < N; ++p) { if (gone[p]) continue; size_t q = p; do q = (q + 1) % N; while (gone[q]); vp_check(l.Next(p) == q, "next position not removed"); }
    if (k == ops) break; const size_t p = vp_choose(0, N - 1, "removed"); if (gone[p]) break; l.Skip(p); if (left > 1) { gone[p] = true; --left; }
  }
}
}
VP_GOAL(Skip1) { List<1>(2); }
VP_GOAL(Skip2) { List<2>(3); }
VP_GOAL(Skip3) { List<3>(4); }
VP_GOAL(Skip5) { List<5>(4); }
// positions symbolic: two removals anywhere in a longer list, then any start
VP_GOAL(SkipAny) { const size_t n = 24; NextWithSkip l(n); const u64 a = vp_range(0, n - 1, "first"), b = vp_range(0, n - 1, "second"), p = vp_range(0, n - 1, "position"); vp_assume((a != b) & (p != a) & (p != b)); l.Skip(a); l.Skip(b); u64 q = p; for (int i = 0; i < 3; ++i) { const u64 t = q == n - 1 ? 0 : q + 1; q = (i == 0) | (q == a) | (q == b) ? t : q; } vp_check(l.Next(p) == q, "next position not removed"); }
// indices near the largest supported count
VP_GOAL(SkipLarge) { const size_t n = vp_choose(0, 1, "n") ? 16383 : 8193; NextWithSkip l(n); static const size_t D[4] = {0, 1, 8191, 8192}; const size_t p = D[vp_choose(0, 3, "position")], prev = (p + n - 1) % n, next = (p + 1) % n; vp_check(l.Next(prev) == p && l.Next(n - 1) == 0 && l.Next(n - 2) == n - 1, "links"); l.Skip(p); vp_check(l.Next(prev) == next, "skipped"); l.Skip(prev); vp_check(l.Next((p + n - 2) % n) == next, "skipped before"); l.Skip(next); vp_check(l.Next((p + n - 2) % n) == (p + 2) % n, "skipped after"); }
