// C26: BitSet64 and BitSet4096 (hwy/bit_set.h) behave like sets of integers.
#include <string.h>
#include "hwy/bit_set.h"
#include "../lib/vp.h"
#ifndef VP_OPS
#define VP_OPS 3
#endif
using u8 = uint8_t; using u32 = uint32_t; using u64 = uint64_t;
namespace {
static inline u64 Sym(const char* n) { u64 x; vp_sym(&x, 1, 8, n); return x; }
static inline u64 Ones(u64 x) { return (u64)__builtin_popcountll(x); }  // PopCount itself: C18
template <class B> static inline void See64(const B& s, u64 w, const char* l) {
  vp_check(s.Get64() == w, l); vp_check(s.Any() == (w != 0), "Any"); const u64 j = vp_range(0, 63, "query"); vp_check(s.Get(j) == (bool)(w >> j & 1), "Get"); vp_check(s.Count() == Ones(w), "Count");
  if (w != 0) { const u64 f = s.First(); vp_check(f < 64 && (w >> (f & 63) & 1) && (w & ((1ull << (f & 63)) - 1)) == 0, "First"); }
}
}
// any state, then any operation: together with the empty initial state, every history
VP_GOAL(New64) { hwy::BitSet64 s; See64(s, 0, "empty"); }
VP_GOAL(Set64) { hwy::BitSet64 s; const u64 w = Sym("w"); s.SetNonzeroBitsFrom64(w); const u64 i = vp_range(0, 63, "i"); s.Set(i); See64(s, w | 1ull << i, "Set"); }
VP_GOAL(Clear64) { hwy::BitSet64 s; const u64 w = Sym("w"); s.SetNonzeroBitsFrom64(w); const u64 i = vp_range(0, 63, "i"); s.Clear(i); See64(s, w & ~(1ull << i), "Clear"); }
VP_GOAL(From64) { hwy::BitSet64 s; const u64 w = Sym("w"), v = Sym("v"); s.SetNonzeroBitsFrom64(w); s.SetNonzeroBitsFrom64(v); See64(s, w | v, "SetNonzeroBitsFrom64"); }
VP_GOAL(Foreach64) {  // members in increasing order, each once; the callback may modify the set
  hwy::BitSet64 s; u64 idx[8] = {}; const u64 n = vp_choose(0, VP_OPS + 1, "members"); for (u64 k = 0; k < n; ++k) { idx[k] = vp_range(0, 63, "i"); if (k) vp_assume(idx[k] > idx[k - 1]); s.SetNonzeroBitsFrom64(1ull << idx[k]); }
  u64 calls = 0; s.Foreach([&](size_t i) { vp_check(calls < n, "Foreach calls"); vp_check(i == idx[calls & 7], "member"); ++calls; s.Clear(i); });
  vp_check(calls == n, "Foreach calls"); vp_check(!s.Any(), "cleared in callback");
}
VP_GOAL(ForeachAll64) { hwy::BitSet64 s; s.SetNonzeroBitsFrom64(~0ull << vp_choose(0, 63, "first")); u64 seen = 0, calls = 0; s.Foreach([&](size_t i) { seen |= 1ull << (i & 63); ++calls; s.SetNonzeroBitsFrom64(~0ull); }); vp_check(calls == Ones(seen) && (seen & (seen + (seen & (0 - seen)))) == 0 && seen >> 63, "Foreach full"); }
namespace {
// BitSet4096<N>: K operations with arbitrary arguments from the empty set
template <size_t N> struct Model { static constexpr size_t W = (N + 63) / 64; u64 w[W]; };
template <size_t N> static inline bool In(const Model<N>& m, u64 i) { u64 r = 0; for (size_t k = 0; k < m.W; ++k) { const u64 v = m.w[k] >> (i & 63); r |= (i >> 6) == k ? v : 0; } return r & 1; }
template <size_t N> static inline void Put(Model<N>& m, u64 i, bool on) { for (size_t k = 0; k < m.W; ++k) { const u64 b = (i >> 6) == k ? 1ull << (i & 63) : 0; m.w[k] = on ? m.w[k] | b : m.w[k] & ~b; } }
template <size_t N> static inline void See(const hwy::BitSet4096<N>& s, const Model<N>& m) {
  u64 any = 0; for (size_t k = 0; k < m.W; ++k) any |= m.w[k];
  vp_check(s.Any() == (any != 0), "Any"); const u64 q = vp_range(0, N - 1, "query"); vp_check(s.Get(q) == In(m, q), "Get"); vp_check(s.Get64() == m.w[0], "Get64");
  if (any) { const u64 f = s.First(); vp_check(f < N && In(m, f), "First is a member"); bool less = false; for (size_t k = 0; k < m.W; ++k) less |= m.w[k] != 0 && (k < (f >> 6) || (k == (f >> 6) && (m.w[k] & ((1ull << (f & 63)) - 1)) != 0)); vp_check(!less, "First is the least"); }
}
template <size_t N> static inline void Hist(int ops) {
  hwy::BitSet4096<N> s; Model<N> m = {};
  for (int k = 0; k < ops; ++k) { const u64 o = vp_choose(0, 2, "op"); if (o == 2) { const u64 b = Sym("bits") & (N < 64 ? (1ull << (N & 63)) - 1 : ~0ull); s.SetNonzeroBitsFrom64(b); m.w[0] |= b; } else { const u64 i = vp_range(0, N - 1, "i"); if (o) s.Set(i); else s.Clear(i); Put(m, i, o != 0); } }
  See(s, m);
}
template <size_t N> static inline void Each(int k) {
  hwy::BitSet4096<N> s; u64 idx[8] = {}; const u64 n = vp_choose(0, k, "members"); for (u64 j = 0; j < n; ++j) { idx[j] = vp_range(0, N - 1, "i"); if (j) vp_assume(idx[j] > idx[j - 1]); s.Set(idx[j]); }
  u64 calls = 0; s.Foreach([&](size_t i) { vp_check(calls < n, "Foreach calls"); vp_check(i == idx[calls & 7], "member"); ++calls; });
  vp_check(calls == n, "Foreach calls"); 
}
template <size_t N> static inline void Cnt(int ops) {
  hwy::BitSet4096<N> s; Model<N> m = {};
  for (int k = 0; k < ops; ++k) { const u64 o = vp_choose(0, 1, "op"), i = vp_range(0, N - 1, "i"); if (o) s.Set(i); else s.Clear(i); Put(m, i, o != 0); }
  u64 cnt = 0; for (size_t k = 0; k < m.W; ++k) cnt += Ones(m.w[k]); vp_check(s.Count() == cnt, "Count");
}
}
VP_GOAL(Hist_64) { Hist<64>(VP_OPS); }
VP_GOAL(Hist_100) { Hist<100>(VP_OPS); }
VP_GOAL(Hist_128) { Hist<128>(VP_OPS); }
VP_GOAL(Hist_192) { Hist<192>(VP_OPS); }
VP_GOAL(Hist_512) { Hist<512>(2); }
VP_GOAL(Hist_4096) { Hist<4096>(VP_OPS - 2); }
VP_GOAL(Cnt_64) { Cnt<64>(3); }
VP_GOAL(Cnt_100) { Cnt<100>(2); }
VP_GOAL(Cnt_256) { Cnt<256>(2); }
VP_GOAL(Each_128) { Each<128>(3); }
VP_GOAL(Each_256) { Each<256>(VP_OPS - 1); }
VP_GOAL(Each_4096) { Each<4096>(1); }
