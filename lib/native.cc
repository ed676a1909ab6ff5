// Native implementation of the harness interface: runs one goal on recorded inputs.
//   prog GOAL REPLAYFILE   exit 0: held, 1: "FAIL ..." printed, 77: an assumption is not met by the inputs
#include <dlfcn.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <ucontext.h>
#include <unistd.h>
#include <map>
#include <string>
#include <vector>
#include "vp.h"
static std::vector<std::string> g_in; static size_t g_pos = 0; static bool g_trace = false, g_front = false; static unsigned char g_fill = 0xA5; static bool g_abort_ok = false;
static std::map<const void*, bool> g_freed;
static std::map<const void*, std::pair<void*, size_t>> g_map;
static void nextBytes(void* p, size_t bytes) {
  memset(p, 0, bytes); if (g_pos >= g_in.size()) { ++g_pos; return; }
  const std::string& h = g_in[g_pos++]; size_t k = 0;
  for (size_t i = h.size(); i-- > 0; ++k) { char c = h[i]; unsigned v = c <= '9' ? c - '0' : (c | 32) - 'a' + 10; if (k / 2 < bytes) ((unsigned char*)p)[k / 2] |= v << (k % 2 * 4); }
}
static void fail(const char* what, const char* label, long lane) {
  if (g_trace) return;
  printf("FAIL %s: %s", what, label); if (lane >= 0) printf(" lane %ld", lane); printf("\n"); fflush(stdout); _exit(1);
}
static bool isnanFmt(const unsigned char* p, size_t fmt) {
  if (fmt == 1) { float f; memcpy(&f, p, 4); return f != f; }
  if (fmt == 2) { double f; memcpy(&f, p, 8); return f != f; }
  uint16_t b; memcpy(&b, p, 2);
  if (fmt == 0) return (b & 0x7C00) == 0x7C00 && (b & 0x3FF); else return (b & 0x7F80) == 0x7F80 && (b & 0x7F);
}
static std::string hexOf(const unsigned char* p, size_t n) { std::string s; bool lead = true; for (size_t i = n; i-- > 0;) for (int sh = 4; sh >= 0; sh -= 4) { unsigned v = p[i] >> sh & 15; if (v || !lead || (i == 0 && sh == 0)) { lead = false; s += "0123456789ABCDEF"[v]; } } return s; }
static void cmp(const void* got, const void* want, size_t lanes, size_t eb, const char* label, int fmt) {
  for (size_t i = 0; i < lanes; ++i) {
    const unsigned char *a = (const unsigned char*)got + i * eb, *b = (const unsigned char*)want + i * eb;
    bool same = !memcmp(a, b, eb); if (!same && fmt >= 0 && isnanFmt(a, fmt) && isnanFmt(b, fmt)) same = true;
    if (g_trace) { auto sh = [&](const unsigned char* p) { return fmt >= 0 && isnanFmt(p, fmt) ? std::string("nan") : hexOf(p, eb); }; printf("V %s %zu %s %s\n", label, i, sh(a).c_str(), sh(b).c_str()); printf("C %s lane %zu %d\n", label, i, same); }
    if (!same) { if (!g_trace) printf("got %s want %s\n", hexOf(a, eb).c_str(), hexOf(b, eb).c_str()); fail("mismatch", label, (long)i); }
  }
}
extern "C" {
void vp_sym(void* p, size_t n, size_t eb, const char*) { for (size_t i = 0; i < n; ++i) nextBytes((char*)p + i * eb, eb); }
uint64_t vp_sym_u64(const char*) { uint64_t v; nextBytes(&v, 8); return v; }
uint64_t vp_range(uint64_t lo, uint64_t hi, const char*) { uint64_t v; nextBytes(&v, 8); if (v < lo || v > hi) { printf("ASSUME range\n"); fflush(stdout); _exit(77); } return v; }
uint64_t vp_choose(uint64_t lo, uint64_t hi, const char* n) { return vp_range(lo, hi, n); }
uint64_t vp_concretize(uint64_t v) { return v; }
void vp_assume(uint64_t c) { if (!(c & 1) && !c) { printf("ASSUME\n"); fflush(stdout); _exit(77); } }
void vp_check(uint64_t c, const char* label) { if (g_trace) printf("C %s %d\n", label, c != 0); if (!c) fail("check", label, -1); }
void vp_check_eq(const void* g, const void* w, size_t n, size_t eb, const char* l) { cmp(g, w, n, eb, l, -1); }
void vp_check_feq(const void* g, const void* w, size_t n, size_t eb, size_t fmt, const char* l) { cmp(g, w, n, eb, l, (int)fmt); }
void vp_check_real(const void* g, const void* w, size_t n, size_t fmt, const char* l) {
  for (size_t i = 0; i < n; ++i) {
    const double a = fmt == 1 ? (double)((const float*)g)[i] : ((const double*)g)[i], b = fmt == 1 ? (double)((const float*)w)[i] : ((const double*)w)[i];
    const double d = a > b ? a - b : b - a, ab = b < 0 ? -b : b; const bool ok = d <= (fmt == 2 ? 1e-7 : 4e-3) * (ab > 1.0 ? ab : 1.0);
    if (g_trace) printf("C %s lane %zu %d\n", l, i, ok); else if (!ok) { printf("got %g want %g\n", a, b); fail("mismatch", l, (long)i); }
  }
}
static void* guarded(size_t bytes, size_t align, size_t mis, bool exact) {
  size_t pg = 4096, body = (bytes + 2 * 256 + pg - 1) / pg * pg; char* m = (char*)mmap(nullptr, body + 2 * pg, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  mprotect(m + pg, body, PROT_READ | PROT_WRITE); memset(m + pg, g_fill, body);
  uintptr_t lo = (uintptr_t)m + pg, hi = lo + body - bytes; uintptr_t p;
  if (exact) { p = g_front ? lo + mis : (hi / 256 * 256 + mis > hi ? hi / 256 * 256 - 256 + mis : hi / 256 * 256 + mis); }
  else { if (align < 1) align = 1; p = g_front ? lo : hi / align * align; }
  g_map[(void*)p] = {m, body + 2 * pg};
  return (void*)p;
}
void* vp_alloc(size_t b, size_t al) { return guarded(b, al, 0, false); }
void* vp_alloc_at(size_t b, size_t mis) { return guarded(b, 1, mis, true); }
void* vp_alloc_sym(size_t b, size_t al) { uint64_t v; nextBytes(&v, 8); return guarded(b, 1, (v & 255) / al * al, true); }
void vp_free(void* p) { if (!p) return; if (g_freed[p]) fail("memory", "double free", -1); if (!g_map.count(p)) fail("memory", "free of an unknown pointer", -1); g_freed[p] = true; mprotect(g_map[p].first, g_map[p].second, PROT_NONE); }
int vp_is_freed(const void* p) { return g_freed[p]; }
void vp_expect_abort(size_t on) { g_abort_ok = on; }
int vp_in_engine() { return 0; }
static std::vector<ucontext_t*> g_co; static size_t g_cur;
static void costart(unsigned a, unsigned b, unsigned c, unsigned d) { auto p = [](unsigned h, unsigned l) { return (void*)((uintptr_t)h << 32 | l); }; ((void (*)(void*))p(a, b))(p(c, d)); _exit(3); }
uint64_t vp_co_create(void (*fn)(void*), void* arg) {
  if (g_co.empty()) g_co.push_back(new ucontext_t()); ucontext_t* u = new ucontext_t(); getcontext(u); const size_t sz = 1 << 18; u->uc_stack.ss_sp = mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); u->uc_stack.ss_size = sz; u->uc_link = nullptr;
  uintptr_t f = (uintptr_t)fn, a = (uintptr_t)arg; makecontext(u, (void (*)())costart, 4, (unsigned)(f >> 32), (unsigned)f, (unsigned)(a >> 32), (unsigned)a); g_co.push_back(u); return g_co.size() - 1;
}
void vp_co_switch(uint64_t id) { const size_t from = g_cur; g_cur = id; swapcontext(g_co[from], g_co[id]); }
// CPUID and XGETBV are emulated by single-stepping (trap flag) this process
static std::map<std::pair<uint32_t, uint32_t>, const uint32_t*> g_cpu; static const uint32_t* g_xcr0;
static void onstep(int, siginfo_t*, void* u) {
  greg_t* r = ((ucontext_t*)u)->uc_mcontext.gregs; const unsigned char* c = (const unsigned char*)r[REG_RIP];
  if (c[0] == 0x0F && c[1] == 0xA2) {
    auto it = g_cpu.find({(uint32_t)r[REG_RAX], (uint32_t)r[REG_RCX]}); static const uint32_t z[4] = {0, 0, 0, 0}; const uint32_t* v = it == g_cpu.end() ? z : it->second;
    r[REG_RAX] = v[0]; r[REG_RBX] = v[1]; r[REG_RCX] = v[2]; r[REG_RDX] = v[3]; r[REG_RIP] += 2;
  } else if (c[0] == 0x0F && c[1] == 0x01 && c[2] == 0xD0) { r[REG_RAX] = g_xcr0[0]; r[REG_RDX] = g_xcr0[1]; r[REG_RIP] += 3; }
}
void vp_cpu_leaf(uint64_t l, uint64_t s, const uint32_t* p) { g_cpu[{(uint32_t)l, (uint32_t)s}] = p; }
void vp_cpu_xcr0(const uint32_t* p) {
  g_xcr0 = p; struct sigaction sa{}; sa.sa_sigaction = onstep; sa.sa_flags = SA_SIGINFO | SA_ONSTACK; sigaction(SIGTRAP, &sa, nullptr);
  asm volatile("pushfq; orq $0x100, (%%rsp); popfq; nop" ::: "memory", "cc");
}
}
static void onsig(int s) {
  char b[64]; 
  if (s == SIGABRT && g_abort_ok) _exit(0);
  int n = snprintf(b, sizeof b, "FAIL signal %d\n", s); (void)!write(1, b, n); _exit(s == SIGILL ? 78 : 1);
}
int main(int argc, char** argv) {
  if (argc < 3) return 2;
  g_trace = getenv("VP_TRACE"); g_front = getenv("VP_FRONT"); if (getenv("VP_FILL")) g_fill = (unsigned char)strtoul(getenv("VP_FILL"), nullptr, 16);
  FILE* f = fopen(argv[2], "r"); if (!f) return 2; char line[4096];
  while (fgets(line, sizeof line, f)) { if (line[0] == '#' || line[0] == '\n') continue; char* c = strchr(line, ':'); if (!c) continue; std::string h; for (char* q = c + 1; *q && *q != ' ' && *q != '\n'; ++q) h += *q; g_in.push_back(h); }
  fclose(f);
  static char alt[65536]; stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
  struct sigaction sa{}; sa.sa_handler = onsig; sa.sa_flags = SA_ONSTACK; for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM, SIGTRAP}) sigaction(s, &sa, nullptr);
  alarm(60);
  void (*g)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]); if (!g) { fprintf(stderr, "no goal %s\n", argv[1]); return 2; }
  g();
  printf("HELD\n"); return 0;
}
// Stand-ins for hwy/abort.cc, for harnesses that do not include it. Abort counts as reached where the goal expects one.
#include <stdarg.h>
namespace hwy {
__attribute__((weak)) void Warn(const char* f, int l, const char* s, ...) { fprintf(stderr, "Warn %s:%d %s\n", f, l, s); }
__attribute__((weak, noreturn)) void Abort(const char* f, int l, const char* s, ...) { fflush(stdout); fprintf(stderr, "Abort %s:%d %s\n", f, l, s); abort(); }
}
