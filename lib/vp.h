// Harness interface. Under the symbolic executor these calls are interpreted by the engine (vpse); natively they
// are implemented by native.cc, which replays a recorded counterexample (or recorded random inputs) on the real code.
#pragma once
#include <stddef.h>
#include <stdint.h>
extern "C" {
void vp_sym(void* p, size_t n, size_t elem_bytes, const char* name);         // n symbolic elements
uint64_t vp_sym_u64(const char* name);
uint64_t vp_range(uint64_t lo, uint64_t hi, const char* name);               // symbolic value in [lo, hi]
uint64_t vp_choose(uint64_t lo, uint64_t hi, const char* name);              // one path per value in [lo, hi]
uint64_t vp_concretize(uint64_t v);                                          // one path per feasible value
void vp_assume(uint64_t cond);
void vp_check(uint64_t cond, const char* label);
void vp_check_eq(const void* got, const void* want, size_t lanes, size_t lane_bytes, const char* label);
void vp_check_feq(const void* got, const void* want, size_t lanes, size_t lane_bytes, size_t fmt, const char* label);  // NaN == NaN; fmt 0 f16, 1 f32, 2 f64, 3 bf16
void vp_check_real(const void* got, const void* want, size_t n, size_t fmt, const char* label);  // equal over the reals, that is up to rounding; fmt 1 f32, 2 f64
void* vp_alloc(size_t bytes, size_t align);                                  // exactly `bytes` accessible
void* vp_alloc_at(size_t bytes, size_t misalign);                            // address = 256 k + misalign
void* vp_alloc_sym(size_t bytes, size_t align);                              // arbitrary address of that alignment
void vp_free(void* p);
int vp_is_freed(const void* p);
void vp_expect_abort(size_t on);
// what CPUID (leaf, subleaf) and XGETBV(0) return from now on; leaves not given are zero. xcr0 is last and takes effect
void vp_cpu_leaf(uint64_t leaf, uint64_t sub, const uint32_t* abcd);
void vp_cpu_xcr0(const uint32_t* ad);
int vp_in_engine();
// cooperative threads: created suspended, run when switched to; the entry function must not return. The caller is 0
uint64_t vp_co_create(void (*fn)(void*), void* arg);
void vp_co_switch(uint64_t id);
}
#define VP_GOAL(name) extern "C" __attribute__((used, noinline)) void vp_goal_##name()
