// C29: topology.cc reading a sysfs whose contents are symbolic. System calls are replaced by the stand-ins below; everything else is the real code.
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <unistd.h>
#include <array>
#include <map>
#include <string>
#include <vector>
#include <utility>
#include "../lib/vp.h"
using u8 = uint8_t; using u16 = uint16_t; using u32 = uint32_t; using u64 = uint64_t; using i64 = int64_t;
// the ordered map of the standard library keeps its tree code in a binary: a list with the same insert
namespace std { template <class K, class V> struct vpmap { std::vector<std::pair<K, V>> v; struct It { vpmap* m; size_t i; std::pair<K, V>* operator->() const { return &m->v[i]; } };
  std::pair<It, bool> insert(const std::pair<K, V>& p) { for (size_t i = 0; i < v.size(); ++i) if (v[i].first == p.first) return {It{this, i}, false}; v.push_back(p); return {It{this, v.size() - 1}, true}; } }; }
// ---- the system
struct VFile { char path[120]; const char* data; size_t size; };
static VFile gFiles[24]; static size_t gNFiles, gOpen, gPos[4], gFd[4], gChunk, gEintr; static bool gBusy[4]; static int gErrno; static long gCpus = 1;
static void Put(char* o, size_t& k, size_t v) { char t[20]; size_t n = 0; do { t[n++] = (char)('0' + v % 10); v /= 10; } while (v); while (n) o[k++] = t[--n]; }
static size_t Format(char* o, size_t cap, const char* f, size_t v) { size_t k = 0; for (; *f; ++f) { if (k + 22 > cap) break; if (f[0] == '%' && f[1] == 'z' && f[2] == 'u') { Put(o, k, v); f += 2; } else o[k++] = *f; } o[k] = 0; return k; }
static int VpSnprintf(char* o, size_t cap, const char* f, size_t v) { return (int)Format(o, cap, f, v); }
static int VpOpen(const char* p, int) { if (gEintr & 1) { gEintr ^= 1; gErrno = EINTR; return -1; } for (size_t i = 0; i < gNFiles; ++i) { const char* q = gFiles[i].path; size_t k = 0; while (p[k] && p[k] == q[k]) ++k; if (p[k] == q[k]) { vp_check(gOpen < 1, "one file at a time"); ++gOpen; gFd[0] = i; gPos[0] = 0; return 3; } } gErrno = ENOENT; return -1; }
static int VpClose(int fd) { vp_check(fd == 3 && gOpen == 1, "close"); if (gEintr & 4) { gEintr ^= 4; gErrno = EINTR; return -1; } --gOpen; return 0; }
static ssize_t VpRead(int fd, void* b, size_t n) { vp_check(fd == 3 && gOpen == 1, "read"); if (gEintr & 2) { gEintr ^= 2; gErrno = EINTR; return -1; } const VFile& f = gFiles[gFd[0]]; size_t k = f.size - gPos[0]; if (k > n) k = n; if (gChunk && k > gChunk) k = gChunk; for (size_t i = 0; i < k; ++i) ((char*)b)[i] = f.data[gPos[0] + i]; gPos[0] += k; return (ssize_t)k; }
static long VpSysconf(int) { return gCpus; }
static cpu_set_t gSet; static int gErr, gCalls;
static int VpGetAff(int pid, size_t n, cpu_set_t* s) { vp_check(pid == 0 && n == sizeof(cpu_set_t), "current thread"); ++gCalls; if (!gErr) *s = gSet; return gErr; }
static int VpSetAff(int pid, size_t n, const cpu_set_t* s) { vp_check(pid == 0 && n == sizeof(cpu_set_t), "current thread"); ++gCalls; if (!gErr) gSet = *s; return gErr; }
#undef errno
#define errno gErrno
#define map vpmap
#define open VpOpen
#define read VpRead
#define close VpClose
#define snprintf VpSnprintf
#define sysconf VpSysconf
#define sched_getaffinity VpGetAff
#define sched_setaffinity VpSetAff
static const char* VpStrchr(const char* s, int c) { for (;; ++s) { if (*s == (char)c) return s; if (!*s) return nullptr; } }
#define strchr VpStrchr
#include "hwy/contrib/thread_pool/topology.cc"
#undef map
#undef open
#undef read
#undef close
using namespace hwy;
namespace {
static inline void AddFile(const char* format, size_t v, const char* data, size_t size) { VFile& f = gFiles[gNFiles++]; Format(f.path, sizeof f.path, format, v); f.data = data; f.size = size; }
static const char* PKG = "/sys/devices/system/cpu/cpu%zu/topology/physical_package_id"; static const char* CORE = "/sys/devices/system/cpu/cpu%zu/topology/core_id"; static const char* L3 = "/sys/devices/system/cpu/cpu%zu/cache/index3/id";
static const char* L2S = "/sys/devices/system/cpu/cpu%zu/cache/index2/size"; static const char* L3S = "/sys/devices/system/cpu/cpu%zu/cache/index3/size"; static const char* NODE = "/sys/devices/system/node/node%zu/cpulist";
// text in a block of exactly its size
struct Text { char b[256]; size_t n = 0; void c(char x) { b[n++] = x; } char* exact(bool nul) { char* p = (char*)vp_alloc_at(n + (nul ? 1 : 0), 3); for (size_t i = 0; i < n; ++i) p[i] = b[i]; if (nul) p[n] = 0; return p; }
  // a number of d symbolic digits, no leading zero unless it is the only one
  u64 num(size_t d, const char* name) { u64 v = 0; for (size_t i = 0; i < d; ++i) { const u64 x = vp_range(i == 0 && d > 1 ? 1 : 0, 9, name); c((char)('0' + x)); v = v * 10 + x; } return v; }
  void dec(u64 v) { Put(b, n, v); } };
}
// ---- numbers
VP_GOAL(Number) { Text t; const size_t d = vp_choose(1, 9, "digits"); const u64 v = t.num(d, "digit"), suf = vp_choose(0, 2, "suffix"), nl = vp_choose(0, 1, "newline"); if (suf == 1) t.c('K'); if (suf == 2) t.c('M'); if (nl) t.c('\n'); char* p = t.exact(true); size_t out = 1; const bool ok = ParseNumberWithOptionalSuffix(p, t.n + 1, &out); vp_check(ok, "parsed"); vp_check(out == v << (suf == 1 ? 10 : suf == 2 ? 20 : 0), "value"); }
VP_GOAL(NoNumber) { Text t; const size_t n = vp_choose(0, 3, "length"); for (size_t i = 0; i < n; ++i) t.c((char)vp_sym_u64("byte")); vp_assume(n == 0 || (u8)(t.b[0] - '0') > 9); char* p = t.exact(true); size_t out = 1; vp_check(!ParseNumberWithOptionalSuffix(p, t.n + 1, &out), "no number"); }
// digits from any position up to any end: how many there are, their value, and no byte at or after the end is read
VP_GOAL(Digits) { Text t; const size_t pre = vp_choose(0, 2, "before"), n = vp_choose(0, 4, "after"); for (size_t i = 0; i < pre + n; ++i) t.c((char)vp_sym_u64("byte")); char* p = t.exact(false); size_t k = 0; u64 v = 0; while (k < n && (u8)(t.b[pre + k] - '0') <= 9) { v = v * 10 + (u64)(t.b[pre + k] - '0'); ++k; }
  size_t pos = pre, out = 1; const bool ok = ParseDigits(p, pre + n, pos, &out); vp_check(ok == (k != 0), "whether there are digits"); vp_check(pos == pre + k, "position after them"); vp_check(out == v, "value"); }
VP_GOAL(ManyDigits) { Text t; for (int i = 0; i < 12; ++i) t.c((char)('0' + vp_range(0, 9, "digit"))); char* p = t.exact(false); size_t pos = 1, out = 0; vp_check(ParseDigits(p, 12, pos, &out), "parsed"); vp_check(pos == 10, "at most nine digits"); u64 v = 0; for (int i = 1; i < 10; ++i) v = v * 10 + (u64)(t.b[i] - '0'); vp_check(out == v, "value"); }
// ---- CPU lists
template <size_t TERMS, size_t D> static inline void Lists() {
  Text t; u64 want[16]; size_t n = 0;
  for (size_t k = 0; k < TERMS; ++k) { if (k) t.c(','); const u64 v = t.num(D, "digit"), more = vp_choose(0, TERMS == 2 ? 2 : 3, "range"); want[n++] = v; if (more) { t.c('-'); vp_assume(t.b[t.n - 2] <= (char)('0' + 10 - more)); for (size_t i = D; i > 0; --i) t.c((char)(t.b[t.n - D - 1] + (i == 1 ? more - 1 : 0))); for (u64 i = 1; i < more; ++i) want[n++] = v + i; } }
  const u64 end = vp_choose(0, 2, "end"); if (end == 1) t.c('\n'); char* p = t.exact(true); const auto got = ExpandList(p, t.n + (end == 2 ? 0 : 1), 999);
  vp_check(got.size() == n, "count"); for (size_t i = 0; i < n; ++i) vp_check(got[i] == want[i], "processor");
}
VP_GOAL(List1) { Lists<1, 1>(); }
VP_GOAL(List2) { Lists<1, 2>(); }
VP_GOAL(List3) { Lists<1, 3>(); }
VP_GOAL(Terms1) { Lists<2, 1>(); }
VP_GOAL(Terms2) { Lists<2, 2>(); }
// a range that crosses a power of ten
VP_GOAL(ListCross) { Text t; const u64 a = vp_choose(0, 3, "first"), hundred = vp_choose(0, 1, "hundred"), base = hundred ? 97 : 7, first = base + a, last = first + vp_choose(0, 9, "more"); t.dec(first); t.c('-'); t.dec(last); t.c(','); t.dec(3); char* p = t.exact(true); const auto got = ExpandList(p, t.n + 1, 200); vp_check(got.size() == last - first + 2, "count"); for (size_t i = 0; i < last - first + 1; ++i) vp_check(got[i] == first + i, "processor"); vp_check(got[last - first + 1] == 3, "last term"); }
// processors beyond the limit are never returned (the list is refused)
VP_GOAL(ListLimit) { Text t; const size_t d = vp_choose(1, 3, "digits"); const u64 v = t.num(d, "digit"), mx = vp_range(0, 1023, "max_lp"); char* p = t.exact(true); { Text z; z.c('0'); vp_check(ExpandList(z.exact(true), 2, mx).size() == 1, "zero"); } vp_expect_abort(v > mx); const auto got = ExpandList(p, t.n + 1, mx); vp_check(v <= mx, "limit"); vp_check(got.size() == 1 && got[0] == v, "processor"); }
// a node without processors: the kernel writes an empty line
VP_GOAL(ListEmpty) { Text t; if (vp_choose(0, 1, "newline")) t.c('\n'); char* p = t.exact(true); vp_check(ExpandList(p, t.n + 1, 7).empty(), "no processors"); }
// arbitrary bytes: no access outside the text (refusing the text is fine)
VP_GOAL(Fuzz) { Text t; const size_t n = vp_choose(0, 4, "length"); for (size_t i = 0; i < n; ++i) t.c((char)vp_sym_u64("byte")); char* p = t.exact(true); vp_expect_abort(1); if (vp_choose(0, 1, "what")) { const auto got = ExpandList(p, n + 1, 3); for (size_t i = 0; i < got.size(); ++i) vp_check(got[i] <= 3, "processor in range"); } else { size_t out; ParseNumberWithOptionalSuffix(p, n + 1, &out); } vp_check(1, "end"); }
// ---- files
VP_GOAL(File) { static const size_t SZ[9] = {0, 1, 2, 17, 64, 198, 199, 200, 300}; const size_t n = SZ[vp_choose(0, 8, "size")]; static const size_t CH[4] = {0, 1, 64, 100}; gChunk = CH[vp_choose(0, 3, "chunk")]; gEintr = vp_choose(0, 7, "interrupted calls"); char* data = (char*)vp_alloc(n + 1, 1); vp_sym(data, n, 1, "data"); AddFile(NODE, 7, data, n); char* buf = (char*)vp_alloc_at(200, 1);
  const size_t got = ReadSysfs(NODE, 7, buf); vp_check(gOpen == 0, "closed"); if (n < 200) { vp_check(got == n + 1, "length"); vp_check(buf[n] == 0, "terminated"); vp_check_eq(buf, data, n, 1, "contents"); } else { vp_check(got <= 200, "length"); if (got) { vp_check(buf[got - 1] == 0, "terminated"); vp_check_eq(buf, data, got - 1, 1, "contents"); } } vp_check(ReadSysfs(NODE, 8, buf) == 0, "missing file"); }
VP_GOAL(Total) { gCpus = (long)vp_sym_u64("sysconf"); const size_t n = TotalLogicalProcessors(); vp_check(n == (gCpus <= 0 ? 1 : gCpus > 1024 ? 1024 : (size_t)gCpus), "clamped"); }
VP_GOAL(SetAffinity) { const size_t n = vp_choose(0, 2, "count"); static const size_t AT[6] = {0, 5, 63, 64, 700, 1023}; size_t lp[2]; for (size_t i = 0; i < n; ++i) lp[i] = AT[vp_choose(i * 3, i * 3 + 2, "lp")]; LogicalProcessorSet s; for (size_t i = 0; i < n; ++i) s.Set(lp[i]); gErr = vp_choose(0, 1, "error") ? -1 : 0; const bool ok = SetThreadAffinity(s); vp_check(ok == (gErr == 0), "result"); vp_check(gCalls == 1, "one call"); if (!gErr) { const u64* w = (const u64*)&gSet; u64 e[16] = {0}; for (size_t i = 0; i < n; ++i) e[lp[i] >> 6] |= 1ull << (lp[i] & 63); for (size_t k = 0; k < 16; ++k) vp_check(w[k] == e[k], "set"); } }
VP_GOAL(Pin) { const size_t lp = vp_range(0, 1023, "lp"); vp_check(PinThreadToLogicalProcessor(lp), "result"); const u64* w = (const u64*)&gSet; for (size_t k = 0; k < 16; ++k) vp_check(w[k] == (lp >> 6 == k ? 1ull << (lp & 63) : 0), "only that processor"); }
VP_GOAL(GetAffinity) { const size_t n = vp_choose(0, 2, "count"); static const size_t AT[6] = {0, 5, 63, 64, 700, 1023}; size_t lp[2]; for (size_t i = 0; i < n; ++i) lp[i] = AT[vp_choose(i * 3, i * 3 + 2, "lp")]; CPU_ZERO(&gSet); for (size_t i = 0; i < n; ++i) CPU_SET((int)lp[i], &gSet); LogicalProcessorSet s; gErr = vp_choose(0, 1, "error") ? -1 : 0; const bool ok = GetThreadAffinity(s); vp_check(ok == (gErr == 0), "result"); if (ok) { vp_check(s.Count() == n, "count"); for (size_t i = 0; i < n; ++i) vp_check(s.Get(lp[i]), "member"); } }
// ---- the whole topology: ids and nodes symbolic
namespace {
static char gText[64][24];
static inline void Digit(size_t slot, const char* format, size_t cpu, u64 x) { gText[slot][0] = (char)('0' + x); gText[slot][1] = '\n'; AddFile(format, cpu, gText[slot], 2); }
}
template <size_t N, bool CLUSTERS> static inline void Topo() {
  gCpus = N; u64 pk[N], co[N], cl[N], nd[N]; bool has[N];
  for (size_t i = 0; i < N; ++i) { pk[i] = vp_range(0, 9, "package"); co[i] = vp_range(0, 9, "core"); cl[i] = vp_range(0, 9, "L3"); has[i] = CLUSTERS ? vp_choose(0, 1, "has L3") : 0; if (!CLUSTERS) cl[i] = 0; Digit(4 * i, PKG, i, pk[i]); Digit(4 * i + 1, CORE, i, co[i]); if (has[i]) Digit(4 * i + 2, L3, i, cl[i]); nd[i] = 0; }
  const u64 split = vp_choose(0, N, "node 1 begins"); // node 0 has processors below it, node 1 the others; either may be empty
  for (u64 k = 0; k < 2; ++k) { char* o = gText[40 + k]; size_t n = 0; const u64 lo = k ? split : 0, hi = k ? N : split; if (hi > lo) { o[n++] = (char)('0' + lo); if (hi > lo + 1) { o[n++] = '-'; o[n++] = (char)('0' + hi - 1); } } o[n++] = '\n'; AddFile(NODE, k, o, n); for (u64 i = lo; i < hi; ++i) nd[i] = k; }
  Topology t; vp_check(t.lps.size() == N, "processors"); vp_check(!t.packages.empty(), "detected"); size_t np = 0;
  for (size_t i = 0; i < N; ++i) {
    const auto& a = t.lps[i]; vp_check(a.package < t.packages.size(), "package index"); vp_check(a.cluster < t.packages[a.package].clusters.size(), "cluster index"); vp_check(a.core < t.packages[a.package].cores.size(), "core index"); vp_check(a.node == nd[i], "node");
    u64 smt = 0; bool first = true; for (size_t j = 0; j < i; ++j) { const auto& b = t.lps[j]; vp_check((a.package == b.package) == (pk[i] == pk[j]), "same package"); if (pk[i] == pk[j]) { first = false; vp_check((a.core == b.core) == (co[i] == co[j]), "same core"); if (has[i] && has[j]) vp_check((a.cluster == b.cluster) == (cl[i] == cl[j]), "same cluster"); smt += co[i] == co[j]; } } vp_check(a.smt == smt, "smt index"); np += first;
    if (!has[i]) vp_check(a.cluster == 0, "no L3: first cluster");
    for (size_t p = 0; p < t.packages.size(); ++p) { for (size_t c = 0; c < t.packages[p].cores.size(); ++c) vp_check(t.packages[p].cores[c].lps.Get(i) == (p == a.package && c == a.core), "core set"); for (size_t c = 0; c < t.packages[p].clusters.size(); ++c) vp_check(t.packages[p].clusters[c].lps.Get(i) == (p == a.package && c == a.cluster), "cluster set"); }
  }
  vp_check(t.packages.size() == np, "package count"); for (size_t p = 0; p < t.packages.size(); ++p) for (size_t c = 0; c < t.packages[p].cores.size(); ++c) vp_check(t.packages[p].cores[c].lps.Any(), "no empty core");
}
VP_GOAL(Topo1) { Topo<1, true>(); }
VP_GOAL(Topo2) { Topo<2, true>(); }
VP_GOAL(Topo3) { Topo<3, false>(); }
VP_GOAL(NoFiles) { const u64 miss = vp_choose(0, 2, "missing"); gCpus = 2; for (size_t i = 0; i < 2; ++i) { if (miss != 0 || i == 0) Digit(2 * i, PKG, i, 0); if (miss != 1 || i == 0) Digit(2 * i + 1, CORE, i, i); } Topology t; vp_check(t.packages.empty() == (miss != 2), "detection fails without the files"); vp_check(t.lps.size() == 2, "processors"); }
// cache sizes of the clusters
VP_GOAL(ClusterCaches) { gCpus = 2; char* a = gText[50]; char* b = gText[51]; Text t2, t3; const u64 v2 = t2.num(4, "L2"); t2.c('K'); t2.c('\n'); const u64 u3 = vp_choose(0, 1, "unit"), v3 = t3.num(vp_choose(1, 5, "digits"), "L3"); t3.c(u3 ? 'M' : 'K'); t3.c('\n'); for (size_t i = 0; i < 2; ++i) { Digit(3 * i, PKG, i, 0); Digit(3 * i + 1, CORE, i, i); Digit(3 * i + 2, L3, i, i); } for (size_t i = 0; i < t2.n; ++i) a[i] = t2.b[i]; for (size_t i = 0; i < t3.n; ++i) b[i] = t3.b[i]; AddFile(L2S, 0, a, t2.n); AddFile(L3S, 1, b, t3.n);
  Topology t; vp_check(t.packages.size() == 1 && t.packages[0].clusters.size() == 2, "two clusters"); const auto& c = t.packages[0].clusters; vp_check(c[0].private_kib == v2 && c[0].shared_kib == 0, "first cluster"); vp_check(c[1].private_kib == 0 && c[1].shared_kib == (u3 ? v3 << 10 : v3), "second cluster"); }
// data caches: two cores with two processors each; the L2 (or L3) may be shared by any prefix of the processors
VP_GOAL(Caches) {
  gCpus = 4; size_t slot = 0; for (size_t i = 0; i < 4; ++i) { Digit(slot++, PKG, i, 0); Digit(slot++, CORE, i, i / 2); }
  static const char* D = "/sys/devices/system/cpu/cpu0/cache/index%zu/"; static char path[16][80]; size_t np = 0;
  auto file = [&](const char* name, size_t index, const char* text) { char* p = path[np++]; size_t k = 0; for (const char* q = D; *q; ++q) p[k++] = *q; for (const char* q = name; *q; ++q) p[k++] = *q; p[k] = 0; char* o = gText[40 + np]; size_t n = 0; while (text[n]) { o[n] = text[n]; ++n; } AddFile(p, index, o, n); };
  const u64 share = vp_choose(1, 4, "sharing"), l3 = vp_choose(0, 1, "L3"), order = vp_choose(0, 1, "instruction cache first"); static const char* S[5] = {"", "0\n", "0-1\n", "0-2\n", "0-3\n"}; static const size_t CORES[5] = {0, 1, 1, 2, 2};
  file("type", order, "Data\n"); file("level", order, "1\n"); file("size", order, "48K\n"); file("ways_of_associativity", order, "12\n"); file("number_of_sets", order, "64\n"); file("shared_cpu_list", order, "0-1\n"); file("type", !order, "Instruction\n");
  file("type", 2, "Unified\n"); file("level", 2, l3 ? "3\n" : "2\n"); file("size", 2, "2048K\n"); file("ways_of_associativity", 2, "16\n"); file("number_of_sets", 2, "2048\n"); file("shared_cpu_list", 2, S[share]);
  const Cache* c = InitDataCaches(); if (l3) { vp_check(c == nullptr, "an L2 is required"); return; } vp_check(c != nullptr, "detected");
  vp_check(c[1].size_kib == 48 && c[1].associativity == 12 && c[1].sets == 64 && c[1].bytes_per_line == 64 && c[1].cores_sharing == 1, "L1"); const size_t n = CORES[share];
  vp_check(c[2].size_kib == 2048 / n && c[2].associativity == 16 && c[2].sets == 2048 / n && c[2].bytes_per_line == 64 && c[2].cores_sharing == n, "L2"); vp_check(c[3].size_kib == 0 && c[0].size_kib == 0, "no L3");
}
