// C03: division by an unchanging divisor (hwy/base.h Divisor, Divisor64).
#include "hwy/base.h"
#include "../lib/vp.h"
namespace {
const uint32_t D32[36] = {1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 13, 16, 31, 33, 60, 64, 100, 127, 255, 257, 641, 1000, 1023, 4096, 65535, 65537, 86400, 1000003, 16777213, 0x55555555u, 0x7FFFFFFFu, 0x80000000u, 0x80000001u, 0xAAAAAAABu, 0xFFFFFFFEu, 0xFFFFFFFFu};
const uint64_t D64[34] = {1, 2, 3, 5, 7, 10, 64, 100, 255, 641, 65537, 1000003, 0x7FFFFFFF, 0x80000000u, 0xFFFFFFFFu, 0x100000000ull, 0x100000001ull, 1000000007ull, 10000000000ull, 0xFFFFFFFFFFFFull, 0x1FFFFFFFFFFFFFull, 0x20000000000001ull, 0x3FFFFFFFFFFFFFFFull, 0x5555555555555555ull, 0x5555555555555556ull, 0x7FFFFFFFFFFFFFFFull, 0x8000000000000000ull, 0x8000000000000001ull, 0xAAAAAAAAAAAAAAABull, 0xC000000000000001ull, 0xFFFFFFFFFFFFFF00ull, 0xFFFFFFFFFFFFFFFDull, 0xFFFFFFFFFFFFFFFEull, 0xFFFFFFFFFFFFFFFFull};
template <class D, class T> void Ok(const D& d, T n, T b) {
  const T q = d.Divide(n), r = d.Remainder(n); const unsigned __int128 p = (unsigned __int128)q * b;
  vp_check(d.GetDivisor() == b, "GetDivisor"); vp_check(p <= n && n - p < b, "quotient"); vp_check(r == (T)(n - (T)p), "remainder");
}
}
// every n
VP_GOAL(Div32) { const uint32_t b = D32[vp_choose(0, 35, "divisor")]; const hwy::Divisor d(b); uint32_t n; vp_sym(&n, 1, 4, "n"); Ok(d, n, b); }
VP_GOAL(Div64) { const uint64_t b = D64[vp_choose(0, 33, "divisor")]; const hwy::Divisor64 d(b); uint64_t n; vp_sym(&n, 1, 8, "n"); Ok(d, n, b); }
// every divisor below 1024 and around the powers of two
VP_GOAL(Div32Small) { const uint32_t b = (uint32_t)vp_choose(1, 1023, "divisor"); const hwy::Divisor d(b); uint32_t n; vp_sym(&n, 1, 4, "n"); Ok(d, n, b); }
VP_GOAL(Div64Small) { const uint64_t b = vp_choose(1, 255, "divisor"); const hwy::Divisor64 d(b); uint64_t n; vp_sym(&n, 1, 8, "n"); Ok(d, n, b); }
VP_GOAL(Div32Pow) { const uint32_t s = (uint32_t)vp_choose(1, 31, "power"), o = (uint32_t)vp_choose(0, 4, "offset"); const uint32_t b = (1u << s) + o - 2; vp_assume(b != 0); const hwy::Divisor d(b); uint32_t n; vp_sym(&n, 1, 4, "n"); Ok(d, n, b); }
VP_GOAL(Div64Pow) { const uint64_t s = vp_choose(1, 63, "power"), o = vp_choose(0, 4, "offset"); const uint64_t b = (1ull << s) + o - 2; vp_assume(b != 0); const hwy::Divisor64 d(b); uint64_t n; vp_sym(&n, 1, 8, "n"); Ok(d, n, b); }
