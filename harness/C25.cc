// C25: aligned_allocator: alignment, capacity, overflow, pairing of constructors, destructors and frees.
#include <string.h>
#include "hwy/aligned_allocator.cc"
#include "../lib/vp.h"
using u8 = uint8_t; using u32 = uint32_t; using u64 = uint64_t;
static size_t gVectorBytes = 16;
namespace hwy { size_t VectorBytes() { return gVectorBytes; } }
namespace {
static char gOpaque; static size_t gAllocs, gFrees, gBytes; static void* gBlock[16]; static size_t gSize[16]; static void* gFreed[16]; static bool gNull, gSym; static size_t gAt256;
static void* Alloc(void* o, size_t n) { vp_check(o == &gOpaque, "opaque to alloc"); gBytes = n; if (gNull) { ++gAllocs; return nullptr; } vp_check(gAllocs < 16, "allocs"); void* p = gSym ? vp_alloc_sym(n, 1) : vp_alloc_at(n, gAt256); gBlock[gAllocs & 15] = p; gSize[gAllocs & 15] = n; ++gAllocs; return p; }
static void Free(void* o, void* p) { vp_check(o == &gOpaque, "opaque to free"); gFreed[gFrees & 15] = p; ++gFrees; vp_free(p); }
}
// the payload lies inside the block, whatever the block's address is
VP_GOAL(Place) {
  const u64 k = vp_choose(0, 9, "earlier blocks"), at = vp_choose(0, 2, "size"); static const size_t SZ[3] = {1, 128, 1025}; const size_t n = SZ[at]; for (u64 i = 0; i < k; ++i) hwy::AllocateAlignedBytes(16, Alloc, &gOpaque); gSym = true;
  u8* p = (u8*)hwy::AllocateAlignedBytes(n, Alloc, &gOpaque); vp_check(gAllocs == k + 1, "one allocation"); vp_check((uintptr_t)p % HWY_ALIGNMENT == 0, "aligned"); const uintptr_t b = (uintptr_t)gBlock[k], e = b + gSize[k]; vp_check((uintptr_t)p >= b + 16 && (uintptr_t)p + n <= e, "inside the block");
}
// k live blocks: every position of the cyclic offset
VP_GOAL(Bytes) {
  const u64 k = vp_choose(0, 9, "earlier blocks"), at = vp_choose(0, 7, "size"); static const size_t SZ[8] = {1, 2, 15, 16, 127, 128, 129, 1025}; const size_t n = SZ[at]; void* ptr[10]; static const size_t AT[4] = {0, 1, 127, 255}; gAt256 = AT[vp_choose(0, 3, "misalignment")];
  for (u64 i = 0; i < k; ++i) { ptr[i] = hwy::AllocateAlignedBytes(16, Alloc, &gOpaque); memset(ptr[i], (int)i, 16); }
  u8* p = (u8*)hwy::AllocateAlignedBytes(n, Alloc, &gOpaque); ptr[k] = p; vp_check(p != nullptr, "non-null"); vp_check(gAllocs == k + 1, "one allocation"); vp_check((uintptr_t)p % HWY_ALIGNMENT == 0, "aligned");
  vp_sym(p, n, 1, "payload"); u8 last = p[n - 1];
  for (u64 i = 0; i < k; ++i) { u8* q = (u8*)ptr[i]; vp_check(q[0] == i && q[15] == i, "earlier payload unchanged"); }
  vp_check(p[n - 1] == last, "payload kept"); vp_check(gFrees == 0, "nothing freed");
  hwy::FreeAlignedBytes(p, Free, &gOpaque); vp_check(gFrees == 1 && gFreed[0] == gBlock[k], "frees its block"); for (u64 i = 0; i < k; ++i) { hwy::FreeAlignedBytes(ptr[i], Free, &gOpaque); vp_check(gFreed[i + 1] == gBlock[i], "frees its block"); }
}
VP_GOAL(FreeNull) { hwy::FreeAlignedBytes(nullptr, Free, &gOpaque); vp_check(gFrees == 0, "free(nullptr)"); }
// any size: the allocation function is asked for the payload plus an amount that does not depend on it; failures are reported
VP_GOAL(AnySize) {
  gNull = true; const u64 n = vp_range(1, ~0ull, "size"), k = vp_choose(0, 7, "earlier"); for (u64 i = 0; i < k; ++i) hwy::AllocateAlignedBytes(1, Alloc, &gOpaque);
  const size_t before = gAllocs; void* p = hwy::AllocateAlignedBytes(n, Alloc, &gOpaque); vp_check(p == nullptr, "null when the allocation fails");
  if (gAllocs != before) { vp_check(n < (~0ull >> 1), "too large"); vp_check(gBytes > n, "no overflow"); const size_t extra = gBytes - n; const size_t group = HWY_MAX(k * 128, HWY_ALIGNMENT); vp_check(extra >= 127 + 16 && extra >= group, "room for alignment and header"); vp_check(extra <= 4096, "bounded overhead"); } else vp_check(n >= (~0ull >> 1), "attempted");
}
template <class T> static inline void Items() {
  gNull = true; const u64 n = vp_range(1, ~0ull, "items"); auto p = hwy::AllocateAligned<T>(n, Alloc, Free, &gOpaque); const unsigned __int128 want = (unsigned __int128)n * sizeof(T); vp_check(!p, "null");
  if (gAllocs) vp_check(gBytes >= want + 128, "at least the requested size"); else vp_check(want >= (~0ull >> 1), "only too large requests are refused");
}
struct T3 { u8 b[3]; }; struct T12 { u32 b[3]; }; struct T100 { u32 b[25]; };
VP_GOAL(Items1) { Items<u8>(); }
VP_GOAL(Items2) { Items<uint16_t>(); }
VP_GOAL(Items3) { Items<T3>(); }
VP_GOAL(Items4) { Items<u32>(); }
VP_GOAL(Items8) { Items<u64>(); }
VP_GOAL(Items12) { Items<T12>(); }
VP_GOAL(Items100) { Items<T100>(); }
namespace {
static size_t gCtor, gDtor; static const void* gAt[16]; static bool gDead[16];
template <size_t S> struct Obj { u8 b[S]; explicit Obj(int v) { b[0] = (u8)v; b[S - 1] = (u8)v; gAt[gCtor & 15] = this; ++gCtor; } ~Obj() { size_t i = 0, hit = 0; for (; i < gCtor; ++i) if (gAt[i] == this) { vp_check(!gDead[i], "destroyed once"); gDead[i] = true; ++hit; } vp_check(hit == 1, "destroys a constructed object"); vp_check(gFrees == 0, "destroyed before the memory is freed"); ++gDtor; } };
template <size_t S> static inline void Array() {
  const u64 n = vp_choose(1, 6, "items"), k = vp_choose(0, 7, "earlier"); for (u64 i = 0; i < k; ++i) hwy::AllocateAlignedBytes(1, Alloc, &gOpaque);
  { auto p = hwy::MakeUniqueAlignedArrayWithAlloc<Obj<S>>(n, Alloc, Free, &gOpaque, 7); vp_check(gCtor == n, "constructed"); vp_check((uintptr_t)p.get() % HWY_ALIGNMENT == 0, "aligned"); for (u64 i = 0; i < n; ++i) { vp_check(gAt[i] == &p[i], "in order"); vp_check(p[i].b[0] == 7 && p[i].b[S - 1] == 7, "argument"); } vp_check(gDtor == 0 && gFrees == 0, "alive"); }
  vp_check(gDtor == n, "every object destroyed"); vp_check(gFrees == 1 && gFreed[0] == gBlock[k], "memory freed once");
}
}
VP_GOAL(Array1) { Array<1>(); }
VP_GOAL(Array3) { Array<3>(); }
VP_GOAL(Array8) { Array<8>(); }
VP_GOAL(Array40) { Array<40>(); }
VP_GOAL(One) { const u64 k = vp_choose(0, 7, "earlier"); for (u64 i = 0; i < k; ++i) hwy::AllocateAlignedBytes(1, Alloc, &gOpaque); { auto p = hwy::MakeUniqueAlignedWithAlloc<Obj<24>>(Alloc, Free, &gOpaque, 9); vp_check(gCtor == 1 && gAt[0] == p.get() && p->b[0] == 9, "constructed"); } vp_check(gDtor == 1 && gFrees == 1 && gFreed[0] == gBlock[k], "destroyed and freed"); }
VP_GOAL(ArrayFails) { gNull = true; { auto p = hwy::MakeUniqueAlignedArrayWithAlloc<Obj<8>>(vp_range(1, ~0ull, "items"), Alloc, Free, &gOpaque, 7); vp_check(!p, "null"); } vp_check(gCtor == 0 && gDtor == 0 && gFrees == 0, "no objects"); }
VP_GOAL(Freer) { const u64 k = vp_choose(0, 7, "earlier"); for (u64 i = 0; i < k; ++i) hwy::AllocateAlignedBytes(1, Alloc, &gOpaque); { auto p = hwy::AllocateAligned<u32>(5, Alloc, Free, &gOpaque); for (int i = 0; i < 5; ++i) p[i] = (u32)i; } vp_check(gFrees == 1 && gFreed[0] == gBlock[k], "freed once"); { auto q = hwy::AllocateAligned<u32>(5, Alloc, hwy::AlignedFreer::DoNothing, &gOpaque); } vp_check(gFrees == 1, "DoNothing"); }
VP_GOAL(Default) { hwy::AlignedAllocator<u32> a; u32* p = a.allocate(vp_choose(1, 40, "n")); vp_check(p != nullptr && (uintptr_t)p % HWY_ALIGNMENT == 0, "aligned"); p[0] = 5; u32* q = a.allocate(3); q[0] = 6; q[2] = 6; vp_check(p[0] == 5, "distinct"); a.deallocate(p, 1); a.deallocate(q, 3); }
// rows are disjoint, aligned to the vector size, zero at first
VP_GOAL(ND2) { gVectorBytes = vp_choose(0, 1, "vector") ? 32 : 16; const size_t A = vp_choose(1, 3, "rows"), B = vp_choose(1, 35, "columns"); hwy::AlignedNDArray<uint16_t, 2> a({A, B}); uint16_t w[3][35]; vp_sym(w, 3 * 35, 2, "w"); bool zero = true;
  for (size_t i = 0; i < A; ++i) { auto r = a[{i}]; vp_check(r.size() == B, "row size"); vp_check((uintptr_t)r.data() % gVectorBytes == 0, "row aligned"); for (size_t j = 0; j < B; ++j) { zero &= r[j] == 0; r[j] = w[i][j]; } }
  vp_check(zero, "zero"); for (size_t i = 0; i < A; ++i) { auto r = a[{i}]; vp_check_eq(r.data(), w[i], B, 2, "rows are disjoint"); } vp_check(a.size() == A * B, "size"); vp_check(a.shape()[0] == A && a.shape()[1] == B, "shape"); vp_check(a.memory_shape()[1] >= B, "memory shape");
  const size_t tb = vp_choose(1, 2, "truncate") == 1 ? 1 : B; a.truncate({A, tb}); for (size_t i = 0; i < A; ++i) { auto r = a[{i}]; vp_check(r.size() == tb, "truncated size"); vp_check_eq(r.data(), w[i], tb, 2, "truncated rows"); } }
VP_GOAL(ND3) { gVectorBytes = 16; const size_t A = vp_choose(1, 3, "a"), B = vp_choose(1, 3, "b"), C = vp_choose(1, 17, "c"); hwy::AlignedNDArray<u32, 3> a({A, B, C}); u32 w[3][3][17]; vp_sym(w, 3 * 3 * 17, 4, "w");
  for (size_t i = 0; i < A; ++i) for (size_t j = 0; j < B; ++j) { auto r = a[{i, j}]; vp_check(r.size() == C && (uintptr_t)r.data() % 16 == 0, "row"); for (size_t k = 0; k < C; ++k) r[k] = w[i][j][k]; }
  for (size_t i = 0; i < A; ++i) for (size_t j = 0; j < B; ++j) vp_check_eq((a[{i, j}]).data(), w[i][j], C, 4, "disjoint"); vp_check(a.size() == A * B * C, "size"); }
