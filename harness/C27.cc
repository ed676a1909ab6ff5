// C27: the thread pool. Its threads run as coroutines; before every atomic operation the schedule may switch to another
// thread, and a load may return the value before the last store unless that store is ordered before it (by the acquire and
// release operations seen so far, tracked with vector clocks). The number of such deviations is bounded. Data that arrives
// without such an order is reported.
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <limits.h>
#include <pthread.h>
#include <time.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <linux/futex.h>
#include <x86intrin.h>
#include <algorithm>
#include <array>
#include <atomic>
#include <bitset>
#include <memory>
#include <new>
#include <string>
#include <thread>
#include <type_traits>
#include <utility>
#include <vector>
#include "../lib/vp.h"
#include "hwy/base.h"
#include "hwy/aligned_allocator.h"
#include "hwy/cache_control.h"
#include "hwy/contrib/thread_pool/topology.h"
#include "hwy/stats.h"
using u8 = uint8_t; using u16 = uint16_t; using u32 = uint32_t; using u64 = uint64_t;
// ------------------------------ schedule
#ifndef VP_CLOCKS
#define VP_CLOCKS 4       // threads with vector clocks (none if there are more)
#endif
#ifndef VP_THREADS
#define VP_THREADS 4
#endif
#ifndef VP_SLOTS
#define VP_SLOTS 32       // atomic variables, power of two
#endif
namespace vps {
struct Clock { u32 c[VP_CLOCKS]; };
static inline void Join(Clock& a, const Clock& b) { for (size_t i = 0; i < VP_CLOCKS; ++i) a.c[i] = a.c[i] < b.c[i] ? b.c[i] : a.c[i]; }
struct Slot { const volatile void* at; u32 version, by, time, seen[VP_CLOCKS]; u64 old; Clock rel, oldrel; };
struct Thr { bool live, done, futex, spin, wrote; const volatile void* on; u32 reads, last, seen; const volatile void* armed; u32 armedv; bool waiting; Clock now, pend, fence; };
static Thr T[VP_THREADS]; static Slot slots[VP_SLOTS]; static u64 ids[VP_THREADS]; static u32 n = 1, cur = 0, budget = 0, stores = 0, idle = 0, rounds = 0, slow = 0;
static bool clocks = true;
static inline Slot& At(const volatile void* p) { size_t h = ((uintptr_t)p >> 2) * 0x9E37u >> 4 & (VP_SLOTS - 1); for (size_t k = 0; k < VP_SLOTS; ++k) { Slot& s = slots[h]; if (s.at == p) return s; if (!s.at) { s.at = p; return s; } h = (h + 1) & (VP_SLOTS - 1); } vp_check(0, "too many atomic variables for the model"); return slots[0]; }
static __attribute__((noinline)) void To(u32 t) { if (t == cur) return; cur = t; vp_co_switch(ids[t]); }
static inline bool Can(u32 t) { const Thr& x = T[t]; return x.live && !x.done && !x.futex && !(x.spin && x.seen == stores) && !(x.waiting && At(x.armed).version == x.armedv); }
// others that can run; with `soft`, also those polling values that did not change and futex waiters (which may wake up spuriously)
static inline u32 Others(u32* o, bool soft) { u32 k = 0; for (u32 t = 0; t < n; ++t) if (t != cur && T[t].live && !T[t].done && (Can(t) || (soft && T[t].futex))) o[k++] = t; return k; }
static inline void Wake(u32 t) { T[t].spin = false; T[t].futex = false; T[t].waiting = false; }
static __attribute__((noinline)) void Yield() {
  if (budget == 0) return; u32 o[VP_THREADS]; const u32 k = Others(o, true); if (k == 0) return;
  const u32 c = (u32)vp_choose(0, k, "switch to"); if (c == 0) return; --budget; Wake(o[c - 1]); To(o[c - 1]);
}
// the current thread cannot go on (or polls): any other that can runs
static __attribute__((noinline)) void Block() {
  u32 o[VP_THREADS]; u32 k = Others(o, false);
  if (slow && k > 1) { u32 j = 0; for (u32 i = 0; i < k; ++i) if (o[i] != slow) o[j++] = o[i]; k = j; }
  if (k == 0) {  // only pollers are left: they may go on, but not for ever without a store
    if (idle != stores + 1) { idle = stores + 1; rounds = 0; } if (++rounds > 4 * VP_THREADS) vp_check(0, "no thread can proceed");
    for (u32 t = 0; t < n; ++t) if (t != cur && T[t].live && !T[t].done && T[t].spin) o[k++] = t;
    if (k == 0) { vp_check(T[cur].spin, "no thread can proceed"); Wake(cur); return; }
  }
  u32 c = 0; while (c + 1 < k && o[c] < cur) ++c; if (o[c] < cur) c = 0;  // round robin, unless the schedule deviates
  if (k > 1 && budget > 0) { const u32 d = (u32)vp_choose(0, k - 1, "next"); if (d) { --budget; c = (c + d) % k; } }
  Wake(o[c]); To(o[c]);
}
static inline bool Acq(std::memory_order m) { return m != std::memory_order_relaxed && m != std::memory_order_release; }
static inline bool Rel(std::memory_order m) { return m == std::memory_order_release || m == std::memory_order_acq_rel || m == std::memory_order_seq_cst; }
static inline void Tick() { if (clocks) ++T[cur].now.c[cur]; }
static inline void Load(const volatile void* p, std::memory_order m) { Thr& t = T[cur]; t.reads = t.reads * 31 + (u32)((uintptr_t)p >> 2); if (!clocks) return; Slot& s = At(p); s.seen[cur] = s.version; Join(t.pend, s.rel); if (Acq(m)) Join(t.now, s.rel); }
// the value before the last store may still be read if that store is not ordered before this load
static __attribute__((noinline)) bool Stale(const volatile void* p, std::memory_order m) {
  if (budget == 0 || !clocks || m == std::memory_order_seq_cst) return false; Slot& s = At(p); Thr& t = T[cur];
  if (s.version == 0 || s.seen[cur] == s.version || t.now.c[s.by] >= s.time) return false;
  if (vp_choose(0, 1, "earlier value") == 0) return false;
  --budget; t.reads = t.reads * 31 + (u32)((uintptr_t)p >> 2); Join(t.pend, s.oldrel); if (Acq(m)) Join(t.now, s.oldrel); return true;
}
static inline u64 Old(const volatile void* p) { return At(p).old; }
static inline void Store(const volatile void* p, std::memory_order m, bool rmw, u64 old) {
  Thr& t = T[cur]; t.wrote = true; ++stores; Slot& s = At(p); ++s.version; if (!clocks) return;
  s.old = old; s.oldrel = s.rel; s.by = cur; s.time = t.now.c[cur]; s.seen[cur] = s.version;
  if (!rmw) s.rel = Clock(); if (Rel(m)) Join(s.rel, t.now); else Join(s.rel, t.fence); ++t.now.c[cur];
}
static inline void Fence(std::memory_order m) { Thr& t = T[cur]; if (!clocks) return; if (Acq(m)) Join(t.now, t.pend); if (Rel(m)) { t.fence = t.now; ++t.now.c[cur]; } }
// a polling thread: if it did nothing but read the same variables as in the previous round, others go first until a store
static __attribute__((noinline)) void Poll() {
  Thr& t = T[cur]; const bool same = !t.wrote && t.reads == t.last && t.seen == stores; t.last = t.reads; t.reads = 0; t.wrote = false; t.seen = stores;
  if (!same) { Yield(); return; } t.spin = true; Block(); T[cur].spin = false;
}
static void Monitor(const void* p) { Yield(); Slot& s = At(p); T[cur].armed = p; T[cur].armedv = s.version; if (clocks) s.seen[cur] = s.version; }  // x86: loads after this see what it saw
static void Wait() { Yield(); Thr& t = T[cur]; while (At(t.armed).version == t.armedv) { t.waiting = true; Block(); T[cur].waiting = false; } }
static long Futex(const u32* at, int op, u32 val) {
  Yield();
  if ((op & 127) == FUTEX_WAIT) { if (*(const volatile u32*)at != val) return -1; T[cur].futex = true; T[cur].on = at; while (T[cur].futex) Block(); return 0; }
  if ((op & 127) == FUTEX_WAKE) { long k = 0; for (u32 t = 0; t < n && k < (long)val; ++t) if (T[t].futex && T[t].on == at) { T[t].futex = false; ++k; ++stores; } return k; }
  vp_check(0, "unexpected futex operation"); return -1;
}
template <class F> static void Entry(void* f) { (*(F*)f)(); T[cur].done = true; ++stores; for (;;) Block(); }
template <class F> static u32 Spawn(F* f) {
  const u32 t = n++; vp_check(t < VP_THREADS, "more threads than asked for"); T[t].live = true; if (clocks) { T[t].now = T[cur].now; T[t].now.c[t] = 1; ++T[cur].now.c[cur]; }
  ids[t] = vp_co_create(&Entry<F>, f); Yield(); return t;
}
static void JoinThread(u32 t) { Yield(); while (!T[t].done) { T[cur].spin = true; T[cur].seen = stores; Block(); T[cur].spin = false; } if (clocks) Join(T[cur].now, T[t].now); }
static void Init(bool track) { T[0].live = true; clocks = track; if (track) T[0].now.c[0] = 1; }
}
namespace std {
template <class V> class VpAtomic {
 public:
  VpAtomic() noexcept = default; constexpr VpAtomic(V v) noexcept : v_(v) {}
  VpAtomic(const VpAtomic&) = delete; VpAtomic& operator=(const VpAtomic&) = delete;
  static u64 Bits(V v) { u64 b = 0; memcpy(&b, &v, sizeof v); return b; }
  V load(memory_order m = memory_order_seq_cst) const { vps::Yield(); if (vps::Stale(this, m)) { const u64 b = vps::Old(this); V v; memcpy(&v, &b, sizeof v); return v; } vps::Load(this, m); return v_; }
  void store(V v, memory_order m = memory_order_seq_cst) { vps::Yield(); vps::Store(this, m, false, Bits(v_)); v_ = v; }
  template <class F> V rmw(F f, memory_order m) { vps::Yield(); vps::Load(this, m); vps::Store(this, m, true, Bits(v_)); const V o = v_; v_ = f(o); return o; }
  V exchange(V v, memory_order m = memory_order_seq_cst) { return rmw([v](V) { return v; }, m); }
  template <class D> V fetch_add(D d, memory_order m = memory_order_seq_cst) { return rmw([d](V o) { return (V)(o + d); }, m); }
  template <class D> V fetch_sub(D d, memory_order m = memory_order_seq_cst) { return rmw([d](V o) { return (V)(o - d); }, m); }
  V fetch_or(V d, memory_order m = memory_order_seq_cst) { return rmw([d](V o) { return (V)(o | d); }, m); }
  V fetch_and(V d, memory_order m = memory_order_seq_cst) { return rmw([d](V o) { return (V)(o & d); }, m); }
  V fetch_xor(V d, memory_order m = memory_order_seq_cst) { return rmw([d](V o) { return (V)(o ^ d); }, m); }
  bool compare_exchange_strong(V& e, V d, memory_order m = memory_order_seq_cst, memory_order f = memory_order_relaxed) { vps::Yield(); if (v_ != e) { vps::Load(this, f); e = v_; return false; } vps::Load(this, m); vps::Store(this, m, true, Bits(v_)); v_ = d; return true; }
  bool compare_exchange_weak(V& e, V d, memory_order m = memory_order_seq_cst, memory_order f = memory_order_relaxed) { return compare_exchange_strong(e, d, m, f); }
  operator V() const { return load(); } V operator=(V v) { store(v); return v; }
  V operator++() { return (V)(fetch_add(1) + 1); } V operator++(int) { return fetch_add(1); } V operator--() { return (V)(fetch_sub(1) - 1); } V operator--(int) { return fetch_sub(1); }
  template <class D> V operator+=(D d) { return (V)(fetch_add(d) + d); } template <class D> V operator-=(D d) { return (V)(fetch_sub(d) - d); }
 private:
  V v_;
};
class VpThread {
 public:
  VpThread() = default; VpThread(VpThread&& o) noexcept : t_(o.t_) { o.t_ = 0; } VpThread& operator=(VpThread&& o) noexcept { t_ = o.t_; o.t_ = 0; return *this; }
  template <class F, class = typename std::enable_if<!std::is_same<typename std::decay<F>::type, VpThread>::value>::type> explicit VpThread(F&& f) : t_(vps::Spawn(new typename std::decay<F>::type(std::forward<F>(f)))) {}
  bool joinable() const { return t_ != 0; } void join() { vp_check(t_ != 0, "joinable"); vps::JoinThread(t_); t_ = 0; }
  ~VpThread() { vp_check(t_ == 0, "every thread is joined"); }
  static unsigned hardware_concurrency() { return 4; }
 private:
  u32 t_ = 0;
};
static inline void VpFence(memory_order m) { vps::Yield(); vps::Fence(m); }
}
static inline long VpSyscall(long, const void* at, int op, long val, const void*, const void*, int) { return vps::Futex((const u32*)at, op, (u32)val); }
static inline int VpSnprintf(char* b, size_t n, const char*, ...) { if (n) { b[0] = 'w'; b[n > 1] = 0; } return 1; }
static inline int VpName(pthread_t, const char*) { return 0; }
// the processor and the clock: only what the headers ask for
#define HIGHWAY_HWY_X86_CPUID_H_
#define HIGHWAY_HWY_TIMER_H_
#define HIGHWAY_HWY_AUTO_TUNE_H_
namespace hwy {
namespace x86 { static inline void Cpuid(u32, u32, u32* r) { r[0] = r[1] = r[2] = r[3] = 0; } static inline bool IsBitSet(u32 r, int i) { return r >> i & 1; } static inline u32 MaxLevel() { return 0; } static inline bool IsAMD() { return false; } }
namespace timer { using Ticks = u64; static inline u64 Start() { return 0; } static inline u64 Stop() { return 0; } }
namespace platform { static inline bool HaveTimerStop(char*) { return false; } }
// the configuration under test is already chosen
struct CostDistribution { double EstimateCost() const { return 1.0; } double Stddev() const { return 0.0; } };
static void* g_best = nullptr; static void* g_next = nullptr;
template <class C, size_t> class AutoTune { public: const C* Best() const { return (const C*)g_best; } C* Best() { return (C*)g_best; } bool HasCandidates() const { return !c_.empty(); } void SetCandidates(std::vector<C> c) { c_ = std::move(c); } Span<const C> Candidates() const { return Span<const C>(c_.data(), c_.size()); } Span<CostDistribution> Costs() { return Span<CostDistribution>(nullptr, 0); } const C& NextConfig() const { return *(const C*)g_next; } void NotifyCost(u64) {} private: std::vector<C> c_; };
}
static inline void VpPause() { vps::Poll(); }
namespace hwy { using ::VpPause; }
#define atomic VpAtomic
#define atomic_thread_fence VpFence
#define thread VpThread
#define Pause VpPause
#define syscall VpSyscall
#define snprintf VpSnprintf
#define pthread_setname_np VpName
#define private public
#define HWY_ENABLE_SPIN_ASM 0
#define HWY_ENABLE_MONITORX 1
#define HWY_ENABLE_UMONITOR 1
#define _mm_monitorx(p, e, h) vps::Monitor(p)
#define _mm_mwaitx(e, h, c) vps::Wait()
#define _umonitor(p) vps::Monitor(p)
#define _umwait(c, t) vps::Wait()
#include "hwy/contrib/thread_pool/futex.h"
#include "hwy/contrib/thread_pool/spin.h"
#include "hwy/contrib/thread_pool/thread_pool.h"
#undef atomic
#undef atomic_thread_fence
#undef thread
#undef Pause
#undef private
using namespace hwy; using namespace hwy::pool;
namespace {
#ifdef VP_DEEP
#define VP_MAXW 64
#define VP_COP 128
#define VP_ALL true
#else
#define VP_MAXW 24
#define VP_COP 40
#define VP_ALL false
#endif
#ifdef VP_BIG
constexpr size_t MANY = 67, kMaxTasks = MANY;
#else
constexpr size_t kMaxTasks = 6;
#endif
struct Record { u64 begin; size_t n, workers; u32 count[kMaxTasks]; bool bad; bool active[VP_THREADS]; bool twice; vps::Clock before; bool unordered; vps::Clock after; size_t by[VP_THREADS]; };
static Record R;
static inline void Body(u64 task, size_t worker) {
  Record& r = R; u32 hit = 0; for (size_t i = 0; i < r.n; ++i) { const u32 m = task == r.begin + i; r.count[i] += m; hit += m; }
  r.bad |= (hit != 1) | (worker >= r.workers); if (worker >= r.workers) return;
  r.twice |= r.active[worker]; r.active[worker] = true; if (vps::clocks) { vps::Tick(); for (size_t i = 0; i < VP_CLOCKS; ++i) r.unordered |= r.before.c[i] > vps::T[vps::cur].now.c[i]; }
  vps::Yield(); r.active[worker] = false; if (vps::clocks) { vps::Tick(); r.after.c[vps::cur] = vps::T[vps::cur].now.c[vps::cur]; vps::Tick(); }
}
static inline void RunAndCheck(ThreadPool& pool, u64 begin, size_t n, u32 budget) {
  R = Record(); R.begin = begin; R.n = n; R.workers = pool.NumWorkers(); if (vps::clocks) { R.before = vps::T[0].now; vps::Tick(); }
  const auto task = [](u64 t, size_t w) { Body(t, w); };
  vps::budget = budget; pool.Run(begin, begin + n, task); vps::budget = 0;
  for (size_t i = 0; i < n; ++i) vp_check(R.count[i] == 1, "every task runs exactly once before Run returns");
  vp_check(!R.bad, "only tasks of the range, on an existing worker"); vp_check(!R.twice, "one thread per worker index at a time"); vp_check(!R.unordered, "what was written before Run is visible to the tasks");
  if (vps::clocks) for (size_t i = 0; i < VP_CLOCKS; ++i) vp_check(R.after.c[i] <= vps::T[0].now.c[i], "what the tasks wrote is visible after Run");
}
static inline ThreadPool* Make(size_t threads, bool track) { vps::Init(track); static Config best; g_best = &best; best = Config(SpinType::kPause, WaitType::kBlock, BarrierType::kOrdered); void* p = vp_alloc(sizeof(ThreadPool), HWY_ALIGNMENT); return new (p) ThreadPool(threads); }
static inline Config Choose(u64 spins, u64 w0 = 0, u64 w1 = (u64)WaitType::kSentinel - 1) { const SpinType s = (SpinType)vp_choose(4 - spins, 3, "spin"); const WaitType w = (WaitType)vp_choose(w0, w1, "wait"); const BarrierType b = (BarrierType)vp_choose(0, (u64)BarrierType::kSentinel - 1, "barrier"); return Config(s, w, b); }
static inline void Destroy(ThreadPool* p, u32 budget) { vps::budget = budget; p->~ThreadPool(); vps::budget = 0; for (u32 t = 1; t < vps::n; ++t) vp_check(vps::T[t].done, "all threads have exited"); }
static inline u64 Begin(size_t n) { const u64 b = vp_sym_u64("begin"); vp_assume(b <= ~(u64)0 - n); return b; }
template <size_t TH> static inline void Steady() { ThreadPool* p = Make(TH, true); vp_check(p->NumWorkers() == TH + 1, "workers"); p->SendConfig(Choose(3)); const size_t n = vp_choose(0, TH + 3, "tasks"); RunAndCheck(*p, Begin(n), n, 0); RunAndCheck(*p, 7, TH + 2, 0); Destroy(p, 0); }
template <size_t TH> static inline void Delays(u64 w, u32 budget, size_t lo, size_t hi) { ThreadPool* p = Make(TH, true); p->SendConfig(Choose(1, w, w)); const size_t n = vp_choose(lo, hi, "tasks"); RunAndCheck(*p, 5, n, budget); RunAndCheck(*p, 7, TH + 2, 0); }
template <size_t TH> static inline void Monitors(u32 budget) { ThreadPool* p = Make(TH, true); p->SendConfig(Config((SpinType)vp_choose(1, 2, "spin"), (WaitType)vp_choose(1, 2, "wait"), BarrierType::kOrdered)); RunAndCheck(*p, 5, TH + 1, budget); RunAndCheck(*p, 7, TH + 1, 0); }
template <size_t TH> static inline void Switch(u64 w, u32 budget, bool all) { ThreadPool* p = Make(TH, true); const Config a = Choose(1, w, w); p->SendConfig(a); const Config b = all ? Choose(1) : Config(SpinType::kPause, (WaitType)vp_choose(0, 2, "wait"), (BarrierType)(((u64)a.barrier_type + vp_choose(0, 2, "barrier") * 2 + 1) % 6)); vps::budget = budget; p->SendConfig(b); vps::budget = 0; RunAndCheck(*p, 3, TH + 1, 0); RunAndCheck(*p, 7, TH + 2, 0); }
template <size_t TH> static inline void Startup(u32 budget) { vps::budget = budget; ThreadPool* p = Make(TH, true); RunAndCheck(*p, 3, TH + 2, vps::budget); RunAndCheck(*p, 3, TH + 2, 0); Destroy(p, 0); }
template <size_t TH> static inline void Exit(u64 w, u32 budget) { ThreadPool* p = Make(TH, true); p->SendConfig(Choose(1, w, w)); Destroy(p, budget); }
template <size_t TH> static inline void Modes() {
  ThreadPool* p = Make(TH, true); static Config next; g_next = &next; const bool done = vp_choose(0, 1, "tuning done"); if (!done) g_best = nullptr;
  for (int i = 0; i < 3; ++i) { const bool spin = vp_choose(0, 1, "mode"); *(done ? (Config*)g_best : &next) = Config(SpinType::kPause, spin ? WaitType::kSpin1 : WaitType::kBlock, (BarrierType)(i * 2)); p->SetWaitMode(spin ? PoolWaitMode::kSpin : PoolWaitMode::kBlock); vp_check(p->config().wait_type == (spin ? WaitType::kSpin1 : WaitType::kBlock), "configuration in use"); RunAndCheck(*p, Begin(TH + 2), TH + 2, 0); }
  Destroy(p, 0);
}
}
#ifndef VP_BIG
// ---- all configurations and an arbitrary 64-bit begin; threads take turns
VP_GOAL(Run1) { Steady<1>(); }
VP_GOAL(Run2) { Steady<2>(); }
VP_GOAL(Run3) { Steady<3>(); }
VP_GOAL(Run0) { ThreadPool* p = Make(0, true); p->SetWaitMode(PoolWaitMode::kSpin); const size_t n = vp_choose(0, 5, "tasks"); RunAndCheck(*p, Begin(n), n, 0); Destroy(p, 0); }
VP_GOAL(Modes2) { Modes<2>(); }
VP_GOAL(Modes3) { Modes<3>(); }
// ---- all schedules that deviate from taking turns at most _dN times, each wait type and all barriers
#define DELAYS(TH, D, LO, HI) VP_GOAL(Run##TH##_block_d##D) { Delays<TH>(0, D, LO, HI); } VP_GOAL(Run##TH##_spin1_d##D) { Delays<TH>(1, D, LO, HI); } VP_GOAL(Run##TH##_separate_d##D) { Delays<TH>(2, D, LO, HI); }
#define SWITCH(TH, D, A) VP_GOAL(Switch##TH##_block_d##D) { Switch<TH>(0, D, A); } VP_GOAL(Switch##TH##_spin1_d##D) { Switch<TH>(1, D, A); } VP_GOAL(Switch##TH##_separate_d##D) { Switch<TH>(2, D, A); }
#define EXIT(TH, D) VP_GOAL(Exit##TH##_block_d##D) { Exit<TH>(0, D); } VP_GOAL(Exit##TH##_spin1_d##D) { Exit<TH>(1, D); } VP_GOAL(Exit##TH##_separate_d##D) { Exit<TH>(2, D); }
DELAYS(1, 1, 2, 4)
DELAYS(2, 1, 2, 5)
#ifdef VP_DEEP
DELAYS(3, 1, 3, 5)
DELAYS(1, 2, 2, 3)
#else
DELAYS(3, 1, 5, 5)
DELAYS(1, 2, 3, 3)
#endif
SWITCH(1, 1, true)
SWITCH(2, 1, VP_ALL)
EXIT(1, 2)
EXIT(2, 1)
EXIT(3, 1)
VP_GOAL(Startup1_d2) { Startup<1>(2); }
VP_GOAL(Startup2_d1) { Startup<2>(1); }
VP_GOAL(Startup3_d1) { Startup<3>(1); }
VP_GOAL(Monitor1_d2) { Monitors<1>(2); }
VP_GOAL(Monitor2_d1) { Monitors<2>(1); }
#ifdef VP_DEEP
DELAYS(2, 2, 2, 4)
DELAYS(3, 2, 4, 4)
DELAYS(1, 3, 3, 3)
SWITCH(1, 2, false)
SWITCH(3, 1, false)
EXIT(1, 3)
EXIT(2, 2)
VP_GOAL(Startup2_d2) { Startup<2>(2); }
VP_GOAL(Startup1_d3) { Startup<1>(3); }
VP_GOAL(Monitor1_d3) { Monitors<1>(3); }
#endif
// ---- parts
VP_GOAL(Divide) {
  const size_t workers = vp_choose(2, 5, "workers"), n = vp_choose(0, 11, "tasks"); vps::Init(false); const Divisor64 div(workers); u8* mem = (u8*)vp_alloc(sizeof(Worker) * workers, HWY_ALIGNMENT); Worker* w = WorkerLifecycle::Init(mem, workers - 1, div);
  R = Record(); R.begin = Begin(n); const u64 begin = R.begin; u32 count[11] = {0}; bool bad = false; const auto f = [&](u64 t, size_t i) { u32 hit = 0; for (size_t k = 0; k < n; ++k) { const u32 m = t == begin + k; count[k] += m; hit += m; } bad |= (hit != 1) | (i >= workers); };
  Tasks tasks; tasks.Set(begin, begin + n, f); if (n > workers) Tasks::DivideRangeAmongWorkers(begin, begin + n, div, w); const size_t first = vp_choose(0, workers - 1, "first"); for (size_t i = 0; i < workers; ++i) tasks.WorkerRun(w + (first + i) % workers);
  for (size_t k = 0; k < n; ++k) vp_check(count[k] == 1, "every task exactly once"); vp_check(!bad, "only tasks of the range");
}
VP_GOAL(Victims) {
  const size_t workers = vp_choose(1, VP_MAXW, "workers"), i = vp_choose(0, workers - 1, "worker"); vps::Init(false); const Divisor64 div(workers); u8* mem = (u8*)vp_alloc(sizeof(Worker) * workers, HWY_ALIGNMENT); Worker* w = new (mem + i * sizeof(Worker)) Worker(i, workers - 1, div);
  const auto v = w->Victims(); vp_check(v.size() == (workers < 4 ? workers : 4), "count"); vp_check(v[0] == i, "own work first"); for (size_t a = 0; a < v.size(); ++a) { vp_check(v[a] < workers, "exists"); for (size_t b = 0; b < a; ++b) vp_check(v[a] != v[b], "distinct"); } vp_check(w->Index() == i, "index"); vp_check(w->AllWorkers() == (Worker*)mem, "all workers"); vp_check(w->NumThreads() == workers - 1, "threads");
}
VP_GOAL(Coprime) { u8 a, b; vp_sym(&a, 1, 1, "a"); vp_sym(&b, 1, 1, "b"); vp_assume((a != 0) & (b != 0) & (a < VP_COP) & (b < VP_COP)); const bool c = ShuffledIota::CoprimeNonzero(a, b); bool common = false; for (u32 d = 2; d < VP_COP; ++d) common |= (a % d == 0) & (b % d == 0); vp_check(c == !common, "no common divisor"); }
VP_GOAL(Iota) { const u32 size = (u32)vp_choose(1, 33, "size"); const u32 start = (u32)vp_choose(1, 12, "start") * 23; const u32 c = ShuffledIota::FindAnotherCoprime(size, start); const ShuffledIota it(c); const Divisor64 div(size); u64 seen = 0; u32 x = (u32)vp_choose(0, 1, "from") * (size - 1); for (u32 k = 0; k < size; ++k) { vp_check(x < size, "in range"); vp_check((seen >> x & 1) == 0, "not seen before"); seen |= (u64)1 << x; x = it.Next(x, div); } }
#else  // (almost) the largest number of threads: one of them is delayed while the barrier changes
template <size_t TH> static inline void Late(BarrierType from, BarrierType to, size_t epochs, u32 slow) {
  ThreadPool* p = Make(TH, false); p->SendConfig(Config(SpinType::kPause, WaitType::kSpin1, from));
  for (size_t e = 2; e + 2 < epochs; ++e) RunAndCheck(*p, 0, 2, 0);
  vps::slow = slow + 1; p->SendConfig(Config(SpinType::kPause, WaitType::kSpin1, to)); RunAndCheck(*p, 3, 5, 0); vps::slow = 0; RunAndCheck(*p, 3, 5, 0); Destroy(p, 0);
}
VP_GOAL(Late2_63) { Late<63>(BarrierType::kCounter2, BarrierType::kOrdered, 31, 62); }
VP_GOAL(Late4_61) { Late<61>(BarrierType::kCounter4, BarrierType::kOrdered, 15, 60); }
VP_GOAL(Late4_62) { Late<62>(BarrierType::kCounter4, BarrierType::kOrdered, 15, 60); }
VP_GOAL(Late4_63a) { Late<63>(BarrierType::kCounter4, BarrierType::kOrdered, 16, 61); }
VP_GOAL(Late4_63b) { Late<63>(BarrierType::kCounter4, BarrierType::kGroup4, 16, 60); }
VP_GOAL(Late1_63) { Late<63>(BarrierType::kCounter1, BarrierType::kOrdered, 5, 62); }
VP_GOAL(Many_63) { ThreadPool* p = Make(63, false); vp_check(p->NumWorkers() == 64, "workers"); p->SendConfig(Config(SpinType::kPause, (WaitType)vp_choose(0, 2, "wait"), (BarrierType)vp_choose(0, 5, "barrier"))); RunAndCheck(*p, Begin(6), 6, 0); RunAndCheck(*p, Begin(MANY), MANY, 0); Destroy(p, 0); }
VP_GOAL(Many_clamped) { ThreadPool* p = Make(70, false); vp_check(p->NumWorkers() == 64, "at most 63 threads"); RunAndCheck(*p, Begin(MANY), MANY, 0); Destroy(p, 0); }
#endif
