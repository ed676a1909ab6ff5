// C28: targets.cc, targets.h, x86_cpuid.h and the dispatch tables of highway.h, for arbitrary CPUID and XCR0 contents.
#ifdef VP_DISPATCH
#undef HWY_TARGET_INCLUDE
#define HWY_TARGET_INCLUDE "harness/C28.cc"
#include "hwy/foreach_target.h"
#endif
#include "hwy/highway.h"
HWY_BEFORE_NAMESPACE();
namespace c28 { namespace HWY_NAMESPACE {
static int64_t Which(int64_t add) { return HWY_TARGET + add; }
template <class T> static T WhichT(T mul) { return static_cast<T>(HWY_TARGET) * mul; }
} }
HWY_AFTER_NAMESPACE();
#if HWY_ONCE || !defined(VP_DISPATCH)
#include "lib/vp.h"
#include "hwy/targets.cc"
namespace { namespace H {
using u32 = uint32_t; using u64 = uint64_t; using i64 = int64_t;
static u32 gL0[4], gL1[4], gX1[4], gL7[4], gL71[4], gL24[4], gXcr[2];
static inline void Cpu() {
  vp_sym(gL0, 4, 4, "leaf 0"); vp_sym(gL1, 4, 4, "leaf 1"); vp_sym(gX1, 4, 4, "leaf 80000001"); vp_sym(gL7, 4, 4, "leaf 7"); vp_sym(gL71, 4, 4, "leaf 7.1"); vp_sym(gL24, 4, 4, "leaf 24"); vp_sym(gXcr, 2, 4, "xcr0");
  vp_cpu_leaf(0, 0, gL0); vp_cpu_leaf(1, 0, gL1); vp_cpu_leaf(0x80000001u, 0, gX1); vp_cpu_leaf(7, 0, gL7); vp_cpu_leaf(7, 1, gL71); vp_cpu_leaf(0x24, 0, gL24); vp_cpu_xcr0(gXcr);
}
enum { A, B, C, D };
static inline u32 b(const u32* r, int i, int n) { return r[i] >> n & 1; }
// Intel SDM volume 2A (CPUID), volume 1 chapters 13-16; what each target needs: detect_targets.h and g3doc
static inline i64 Supported() {
  const u32 has7 = (u32)(gL0[A] >= 7);
  const u32 ssse3 = b(gL1, D, 25) & b(gL1, D, 26) & b(gL1, C, 0) & b(gL1, C, 9);
  const u32 sse4 = ssse3 & b(gL1, C, 19) & b(gL1, C, 20) & b(gL1, C, 1) & b(gL1, C, 25);
  const u32 ymm = b(gL1, C, 26) & b(gL1, C, 27) & b(gXcr, 0, 1) & b(gXcr, 0, 2), zmm = ymm & b(gXcr, 0, 5) & b(gXcr, 0, 6) & b(gXcr, 0, 7);
  const u32 avx2 = sse4 & has7 & b(gL1, C, 28) & b(gL7, B, 5) & b(gX1, C, 5) & b(gL7, B, 3) & b(gL7, B, 8) & b(gL1, C, 12) & b(gL1, C, 29) & ymm;
  const u32 avx3 = avx2 & b(gL7, B, 16) & b(gL7, B, 17) & b(gL7, B, 28) & b(gL7, B, 30) & b(gL7, B, 31) & zmm;
  const u32 dl = avx3 & b(gL7, C, 11) & b(gL7, C, 10) & b(gL7, C, 1) & b(gL7, C, 6) & b(gL7, C, 9) & b(gL7, C, 14) & b(gL7, C, 12) & b(gL7, C, 8);
  const u32 bf16 = dl & b(gL71, A, 5), spr = bf16 & b(gL7, D, 23);
  const u32 avx10 = avx2 & b(gL71, D, 19) & b(gL71, D, 21) & b(gL7, C, 10) & b(gL7, C, 9) & b(gL7, C, 8) & zmm, ver = gL24[B] & 255, w512 = avx10 & (u32)(ver >= 1) & b(gL24, B, 18), v2 = avx10 & (u32)(ver >= 2);
  const u32 amd = (u32)(gL0[B] == 0x68747541) & (u32)(gL0[D] == 0x69746e65) & (u32)(gL0[C] == 0x444d4163);
  return HWY_SCALAR | HWY_EMU128 | HWY_SSE2 | (i64)ssse3 * HWY_SSSE3 | (i64)sse4 * HWY_SSE4 | (i64)avx2 * HWY_AVX2 | (i64)(avx3 | w512) * HWY_AVX3 | (i64)(dl | w512) * HWY_AVX3_DL | (i64)(spr | w512) * HWY_AVX3_SPR | (i64)(bf16 & amd) * HWY_AVX3_ZEN4 | (i64)v2 * HWY_AVX10_2 | (i64)(v2 & w512) * HWY_AVX10_2_512;
}
static inline void Eq(i64 g, i64 w, const char* s) { vp_check_eq(&g, &w, 1, 8, s); }
static inline i64 Enabled(i64 all, i64 off) { const i64 t = all & ~off; return t == 0 ? (i64)HWY_STATIC_TARGET : t; }
static inline bool SameText(const char* a, const char* b) { while (*a && *a == *b) { ++a; ++b; } return *a == *b; }
static inline i64 AnyMask(const char* n) { return (i64)(vp_sym_u64(n) >> 1); }  // bit 63 is no target
} }
VP_GOAL(Detect) { H::Cpu(); H::Eq(hwy::SupportedTargets(), H::Supported(), "supported targets"); }
VP_GOAL(Disable) {
  H::Cpu(); const int64_t off = H::AnyMask("disabled"); hwy::DisableTargets(off); const int64_t got = hwy::SupportedTargets(); H::Eq(got, H::Enabled(H::Supported(), off), "supported and enabled");
  vp_check(got != 0, "at least one"); const int64_t off2 = H::AnyMask("disabled later"); hwy::DisableTargets(off2); H::Eq(hwy::SupportedTargets(), H::Enabled(H::Supported(), off2), "supported and enabled"); hwy::DisableTargets(0); H::Eq(hwy::SupportedTargets(), H::Supported(), "all again");
}
VP_GOAL(Mock) {
  H::Cpu(); const int64_t off = H::AnyMask("disabled"), mock = H::AnyMask("mock"); vp_assume(mock != 0); if (vp_choose(0, 1, "order")) { hwy::DisableTargets(off); hwy::SetSupportedTargetsForTest(mock); } else { hwy::SetSupportedTargetsForTest(mock); hwy::DisableTargets(off); }
  H::Eq(hwy::SupportedTargets(), H::Enabled(mock, off), "mock"); hwy::SetSupportedTargetsForTest(0); H::Eq(hwy::SupportedTargets(), H::Enabled(H::Supported(), off), "real ones again");
}
VP_GOAL(List) {
  H::Cpu(); hwy::DisableTargets(H::AnyMask("disabled") | ~(HWY_TARGETS)); const int64_t all = hwy::SupportedTargets() & HWY_TARGETS; const std::vector<int64_t> v = hwy::SupportedAndGeneratedTargets(); int64_t sum = 0, last = 0;
  for (int64_t t : v) { vp_check(t > last && (t & (t - 1)) == 0, "single targets, best first"); last = t; sum |= t; } H::Eq(sum, all, "all of them");
}
VP_GOAL(Chosen) {
  const int64_t t = H::AnyMask("targets"); hwy::ChosenTarget c; vp_check(!c.IsInitialized() && c.GetIndex() == 0, "initially");
  c.Update(t); vp_check(c.IsInitialized(), "updated"); const size_t i = c.GetIndex(); const uint64_t on = (uint64_t)(t & HWY_TARGETS) & 0x7FFF;
  const size_t w = on ? 1 + (size_t)__builtin_ctzll(on | 1ull << 63) : 16; vp_check(i == w, "index of the best target"); c.DeInit(); vp_check(!c.IsInitialized() && c.GetIndex() == 0, "reset");
}
VP_GOAL(Names) { static const int64_t T[12] = {HWY_AVX10_2_512, HWY_AVX3_SPR, HWY_AVX10_2, HWY_AVX3_ZEN4, HWY_AVX3_DL, HWY_AVX3, HWY_AVX2, HWY_SSE4, HWY_SSSE3, HWY_SSE2, HWY_EMU128, HWY_SCALAR};
  static const char* const N[12] = {"AVX10_2_512", "AVX3_SPR", "AVX10_2", "AVX3_ZEN4", "AVX3_DL", "AVX3", "AVX2", "SSE4", "SSSE3", "SSE2", "EMU128", "SCALAR"};
  const size_t i = vp_choose(0, 11, "target"); vp_check(i == 0 || T[i] > T[i - 1], "better targets have lower bits"); vp_check((T[i] & (T[i] - 1)) == 0, "one bit"); vp_check(H::SameText(hwy::TargetName(T[i]), N[i]), "name"); }
#ifdef VP_DISPATCH
namespace c28 { HWY_EXPORT(Which); HWY_NOINLINE int64_t Call(int64_t a) { return HWY_DYNAMIC_DISPATCH(Which)(a); } template <class T> HWY_NOINLINE T CallT(T a) { HWY_EXPORT_T(Tab, WhichT<T>); return HWY_DYNAMIC_DISPATCH_T(Tab)(a); } }
namespace { namespace H {
// best compiled target among those, or the fallback
static inline i64 Best(i64 t) { const i64 c = t & HWY_TARGETS & 0x7FFF; return c ? c & -c : HWY_TARGETS & HWY_EMU128 ? (i64)HWY_EMU128 : HWY_TARGETS & HWY_SCALAR ? (i64)HWY_SCALAR : (i64)HWY_STATIC_TARGET; }
} }
VP_GOAL(Dispatch) { H::Cpu(); const int64_t w = H::Best(H::Supported()), a = (int64_t)vp_sym_u64("argument"); H::Eq(c28::Call(a), w + a, "first call: best target"); H::Eq(c28::Call(a), w + a, "second call"); H::Eq(c28::CallT<uint64_t>(3), w * 3, "other function"); }
VP_GOAL(DispatchT) { H::Cpu(); const int64_t w = H::Best(H::Supported()); H::Eq((int64_t)c28::CallT<uint64_t>(3), w * 3, "first call: best target"); H::Eq(c28::Call(7), w + 7, "other function"); hwy::DisableTargets(w & 0x7FFF); H::Eq((int64_t)c28::CallT<uint64_t>(5), H::Best(H::Enabled(H::Supported(), w & 0x7FFF)) * 5, "without the best"); }
#ifndef VP_OPS
#define VP_OPS 3
#endif
// any order of disabling, mocking, asking and calling: every call uses the best enabled target
template <int FIRST> static void History() {
  H::Cpu(); int64_t off = 0, mock = 0; const int64_t cpu = H::Supported();
  for (int i = 0; i < VP_OPS; ++i) switch (i == 0 ? (uint64_t)FIRST : vp_choose(0, 3, "operation")) {
    case 0: off = H::AnyMask("disabled"); hwy::DisableTargets(off); break;
    case 1: mock = H::AnyMask("mock"); hwy::SetSupportedTargetsForTest(mock); break;
    case 2: H::Eq(hwy::SupportedTargets(), H::Enabled(mock ? mock : cpu, off), "supported"); break;
    default: H::Eq(c28::Call(0), H::Best(H::Enabled(mock ? mock : cpu, off)), "called target"); break;
  }
  H::Eq(c28::Call(1), H::Best(H::Enabled(mock ? mock : cpu, off)) + 1, "called target");
}
VP_GOAL(History_disable) { History<0>(); } VP_GOAL(History_mock) { History<1>(); } VP_GOAL(History_ask) { History<2>(); } VP_GOAL(History_call) { History<3>(); }
#endif
#endif
