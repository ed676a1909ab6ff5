// C22: contrib/random against xoshiro256++ and SplitMix64 written from their definitions.
#include "../lib/vec.h"
#include "hwy/aligned_allocator.cc"
#include "hwy/contrib/random/random-inl.h"
namespace hwy { size_t VectorBytes() { return 64; } }
namespace { namespace H {
template <class T> struct Mem { T* p; size_t n; Mem(size_t k, const char* name) : n(k) { p = (T*)vp_alloc(k * sizeof(T), 64); vp_sym(p, k, sizeof(T), name); } ~Mem() { vp_free(p); } };
struct Ref { u64 s[4];
  static u64 rot(u64 x, int k) { return x << k | x >> (64 - k); }
  u64 next() { const u64 r = rot(s[0] + s[3], 23) + s[0], t = s[1] << 17; s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rot(s[3], 45); return r; }
  void jump(const u64 (&J)[4]) { u64 a[4] = {0, 0, 0, 0}; for (int i = 0; i < 4; ++i) for (int b = 0; b < 64; ++b) { if (J[i] >> b & 1) for (int k = 0; k < 4; ++k) a[k] ^= s[k]; next(); } memcpy(s, a, sizeof s); }
  void jump() { static const u64 J[4] = {0x180ec6d33cfd0abaull, 0xd5a61266f0c9392cull, 0xa9582618e03fc9aaull, 0x39abdc4529b1661cull}; jump(J); }
  void longjump() { static const u64 J[4] = {0x76e15d3efefdcbbfull, 0xc5004e441c522fb3ull, 0x77710069854ee241ull, 0x39109bb02acbe635ull}; jump(J); }
  explicit Ref(u64 seed) { for (int k = 0; k < 4; ++k) { u64 z = (seed += 0x9e3779b97f4a7c15ull); z = (z ^ z >> 30) * 0xbf58476d1ce4e5b9ull; z = (z ^ z >> 27) * 0x94d049bb133111ebull; s[k] = z ^ z >> 31; } }
  Ref() {}
};
constexpr size_t L = HWY_LANES(u64);
static inline u64* Row(VectorXoshiro& g, size_t j) { return const_cast<u64*>(g.GetState()[{j}].data()); }
struct Gen { VectorXoshiro g; Ref r[L]; Gen() : g(1) { Mem<u64> m(4 * L, "state"); for (size_t i = 0; i < L; ++i) for (size_t j = 0; j < 4; ++j) r[i].s[j] = Row(g, j)[i] = m.p[4 * i + j]; }
  void same() { bool ok = true; for (size_t i = 0; i < L; ++i) for (size_t j = 0; j < 4; ++j) vp_check(Row(g, j)[i] == r[i].s[j], "state after"); } };
static inline void One(Gen& G) { VpB<ScalableTag<u64>> b; b.store(G.g()); u64 w[L]; for (size_t i = 0; i < L; ++i) w[i] = G.r[i].next(); VpCheckBits(b.v, w, L, "vector"); }
static inline void Many(Gen& G, size_t n) { auto v = G.g(n); vp_check(v.size() == n, "size"); u64 w[4 * L + 1]; for (size_t k = 0; k < n; k += L) for (size_t i = 0; i < L; ++i) { const u64 x = G.r[i].next(); if (k + i < n) w[k + i] = x; } VpCheckBits((const u64*)v.data(), w, n, "array"); }
template <u64 N> static inline void Fixed(Gen& G) { auto v = G.g.template operator()<N>(); u64 w[N]; for (size_t k = 0; k < N; k += L) for (size_t i = 0; i < L; ++i) { const u64 x = G.r[i].next(); if (k + i < N) w[k + i] = x; } VpCheckBits((const u64*)v.data(), w, N, "fixed array"); }
static inline void Call(Gen& G) { const u64 k = vp_choose(0, 7, "call"); if (k == 0) One(G); else if (k == 1) Many(G, vp_choose(0, 4, "vectors") * L + (L > 1 && vp_choose(0, 1, "partial") ? 1 : 0)); else if (k == 2) Many(G, L - (L > 1)); else if (k == 3) Fixed<L>(G); else if (k == 4) Fixed<2 * L>(G); else if (k == 5) Fixed<2 * L + 1>(G); else if (k == 6) Fixed<1>(G); else Fixed<3>(G); }
} }
VP_GOAL(Scalar) { H::Mem<u64> m(4, "state"); internal::Xoshiro x(5); x.SetState({m.p[0], m.p[1], m.p[2], m.p[3]}); H::Ref r; memcpy(r.s, m.p, 32); for (int k = 0; k < 4; ++k) vp_check(x() == r.next(), "next"); auto s = x.GetState(); for (int j = 0; j < 4; ++j) vp_check(s[j] == r.s[j], "state"); }
VP_GOAL(Seed) { const u64 seed = vp_sym_u64("seed"); internal::Xoshiro x(seed); H::Ref r(seed); auto s = x.GetState(); for (int j = 0; j < 4; ++j) vp_check(s[j] == r.s[j], "seed"); }
VP_GOAL(Jump) { H::Mem<u64> m(4, "state"); internal::Xoshiro x(5); x.SetState({m.p[0], m.p[1], m.p[2], m.p[3]}); H::Ref r; memcpy(r.s, m.p, 32); if (vp_choose(0, 1, "long")) { x.LongJump(); r.longjump(); } else { x.Jump(); r.jump(); } auto s = x.GetState(); for (int j = 0; j < 4; ++j) vp_check(s[j] == r.s[j], "jump"); }
VP_GOAL(ThreadScalar) { const u64 seed = vp_sym_u64("seed"), t = vp_choose(0, 2, "thread"); internal::Xoshiro x(seed, t); H::Ref r(seed); for (u64 i = 0; i < t; ++i) r.jump(); auto s = x.GetState(); for (int j = 0; j < 4; ++j) vp_check(s[j] == r.s[j], "thread"); }
VP_GOAL(VectorSeed) { const u64 seed = vp_sym_u64("seed"), t = vp_choose(0, 2, "thread"); VectorXoshiro g(seed, t); H::Ref r(seed); for (u64 i = 0; i < t; ++i) r.longjump(); for (size_t i = 0; i < H::L; ++i) { for (size_t j = 0; j < 4; ++j) vp_check(H::Row(g, j)[i] == r.s[j], "lane state"); r.jump(); } vp_check(g.StateSize() == 4 * H::L, "StateSize"); }
VP_GOAL(Calls1) { H::Gen G; H::Call(G); G.same(); }
VP_GOAL(Calls2) { H::Gen G; H::Call(G); H::Call(G); H::One(G); G.same(); }
template <u64 S> static inline void Cached() { const u64 seed = vp_sym_u64("seed"); CachedXoshiro<S> c(seed); H::Ref r[H::L]; H::Ref q(seed); for (size_t i = 0; i < H::L; ++i) { r[i] = q; q.jump(); } 
  for (int round = 0; round < 2; ++round) for (size_t k = 0; k < S; k += H::L) for (size_t i = 0; i < H::L; ++i) { const u64 x = r[i].next(); if (k + i < S) vp_check(c() == x, "cached value"); } }
VP_GOAL(Cached1) { Cached<1>(); }
VP_GOAL(Cached4) { Cached<4>(); }
VP_GOAL(Cached16) { Cached<16>(); }
#if HWY_HAVE_FLOAT64
// s3 = -s0 makes the next output s0: every output is covered by an arbitrary s0
static inline f64 Scaled(u64 x) { return (f64)(i64)(x >> 11) * 1.1102230246251565e-16; }
static inline void Unit(f64 x) { u64 b; memcpy(&b, &x, 8); vp_check(b < 0x3FF0000000000000ull, "in [0, 1)"); }
// one goal per entry point; the position of the top bit of x >> 11 is enumerated (the choice covers every x), the bits below it are symbolic
static inline u64 Draw(size_t i, u64 p) { const u64 m = vp_sym_u64("bits"); const u64 top = p ? (u64(1) << (p - 1)) | (m & ((u64(1) << (p - 1)) - 1)) : 0; return top << 11 | (m >> 53); }
static inline f64 Expect(u64 x, u64 p) { const u64 m = x >> 11; const u64 b = p ? (u64(1023 - 54 + p) << 52) | ((m << (53 - p)) & 0xFFFFFFFFFFFFFull) : 0; f64 r; memcpy(&r, &b, 8); return r; }
template <class F> static inline void Unif(F f) { const u64 p = vp_choose(0, 53, "bits"); H::Gen G; f64 e[H::L]; for (size_t i = 0; i < H::L; ++i) { const u64 w = Draw(i, p); H::Row(G.g, 0)[i] = w; H::Row(G.g, 3)[i] = 0 - w; e[i] = Expect(w, p); } f(G, e); }
VP_GOAL(Uniform) { Unif([](H::Gen& G, const f64* e) { VpB<ScalableTag<f64>> b; b.store(G.g.Uniform()); VpCheckBits(b.v, e, H::L, "Uniform()"); }); }
VP_GOAL(Uniform_n) { Unif([](H::Gen& G, const f64* e) { auto v = G.g.Uniform(H::L); VpCheckBits((const f64*)v.data(), e, H::L, "Uniform(n)"); }); }
VP_GOAL(Uniform_1) { Unif([](H::Gen& G, const f64* e) { auto v = G.g.Uniform(1); vp_check(v.size() == 1, "size"); VpCheckBits((const f64*)v.data(), e, 1, "Uniform(1)"); }); }
VP_GOAL(Uniform_N) { Unif([](H::Gen& G, const f64* e) { auto v = G.g.Uniform<H::L>(); VpCheckBits((const f64*)v.data(), e, H::L, "Uniform<N>"); }); }
VP_GOAL(Uniform_N1) { Unif([](H::Gen& G, const f64* e) { auto v = G.g.Uniform<1>(); VpCheckBits((const f64*)v.data(), e, 1, "Uniform<1>"); }); }
VP_GOAL(UniformScalar) { const u64 x = vp_sym_u64("bits"); internal::Xoshiro g(3); g.SetState({x, 1, 2, 0 - x}); const f64 r = g.Uniform(); const f64 e = Scaled(x); VpCheckBits(&r, &e, 1, "Xoshiro::Uniform"); Unit(r); }
VP_GOAL(UnitRange) { Unit(Scaled(vp_sym_u64("bits"))); }
VP_GOAL(UniformCalls) { H::Gen G; G.g.Uniform(); for (size_t i = 0; i < H::L; ++i) G.r[i].next(); H::One(G); if (vp_choose(0, 1, "how")) G.g.Uniform(2 * H::L); else G.g.Uniform<2 * H::L>(); for (size_t i = 0; i < H::L; ++i) { G.r[i].next(); G.r[i].next(); } G.same(); }
#endif
