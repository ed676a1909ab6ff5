// Driver: symbolic execution of every vp_goal_* function in the given bitcode files.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include "exec.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
using namespace vp;

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static std::string esc(const std::string& s) {
  std::string r;
  for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; }
  return r;
}
struct Job { unsigned mod; std::string goal, hash; int rep = -1; std::string result; double start = 0, secs = 0; pid_t pid = 0; int fd = -1; std::string status; };
struct ModInfo { std::string label, path; std::unique_ptr<llvm::Module> m; };

static std::string toJson(const GoalResult& r, double secs, bool fns) {
  std::string s = "{\"status\":\"" + r.status + "\",\"paths\":" + std::to_string(r.paths) + ",\"steps\":" + std::to_string(r.steps) + ",\"checks\":" + std::to_string(r.checks) +
    ",\"reached\":" + std::to_string(r.reached) + ",\"forks\":" + std::to_string(r.forks) + ",\"secs\":" + std::to_string(secs) +
    ",\"queries\":" + std::to_string(gStats.queries) + ",\"cached\":" + std::to_string(gStats.cached) + ",\"unsat\":" + std::to_string(gStats.unsat) + ",\"sat\":" + std::to_string(gStats.sat) + ",\"unk\":" + std::to_string(gStats.unknown) +
    ",\"exactfp\":" + std::to_string(gStats.exactFp) + ",\"solver_s\":" + std::to_string(gStats.seconds) + ",\"maxq\":" + std::to_string(gStats.maxq) + ",\"failures\":[";
  bool first = true;
  for (auto& f : r.failures) {
    if (!first) s += ","; first = false;
    s += "{\"kind\":\"" + esc(f.kind) + "\",\"label\":\"" + esc(f.label) + "\",\"where\":\"" + esc(f.where) + "\",\"decided\":" + (f.decided ? "true" : "false") + ",\"detail\":\"" + esc(f.detail.substr(0, 20000)) + "\",\"inputs\":[";
    bool f2 = true; for (auto& i : f.inputs) { if (!f2) s += ","; f2 = false; s += "[\"" + esc(i.first) + "\",\"" + i.second + "\"]"; }
    s += "]}";
  }
  s += "],\"functions\":[";
  first = true; if (fns) for (auto& f : r.functions) { if (!first) s += ","; first = false; s += "\"" + esc(f) + "\""; }
  s += "],\"trace\":[";
  first = true; for (auto& t : r.traceOut) { if (!first) s += ","; first = false; s += "\"" + esc(t) + "\""; }
  s += "],\"inputs\":["; first = true; for (auto& i : r.inputs) { if (!first) s += ","; first = false; s += "[\"" + esc(i.first) + "\",\"" + i.second + "\"]"; }
  return s + "]}";
}
static std::function<void()>* gBody;
static void* tramp(void*) { (*gBody)(); return nullptr; }
static void bigStack(std::function<void()> f) {
  gBody = &f; pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 2048ull << 20); pthread_t t;
  if (pthread_create(&t, &a, tramp, nullptr)) { fprintf(stderr, "pthread_create failed\n"); _exit(3); }
  pthread_join(t, nullptr);
}
int main(int argc, char** argv) {
  Options opt; std::vector<std::string> files; std::string out = "/dev/stdout", only, replay; unsigned jobs = 8; double perGoal = 60, deadline = 1e9; int maxFail = 1000000; uint64_t memMb = 6000; bool list = false, nodedup = false; std::string inputsOut;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--out") out = nx(); else if (a == "--goal") only = nx(); else if (a == "-j") jobs = stoi(nx()); else if (a == "--goal-s") perGoal = stod(nx()); else if (a == "--deadline-s") deadline = stod(nx());
    else if (a == "--query-ms") opt.timeoutMs = stoi(nx()); else if (a == "--max-steps") opt.maxSteps = stoull(nx()); else if (a == "--max-paths") opt.maxPaths = stoull(nx());
    else if (a == "--max-fail") maxFail = stoi(nx()); else if (a == "--mem-mb") memMb = stoull(nx()); else if (a == "--list") list = true; else if (a == "--concrete") opt.concrete = true; else if (a == "--seed") opt.seed = stoull(nx());
    else if (a == "--trace") opt.trace = true; else if (a == "-v") opt.verbose = true; else if (a == "--dump") opt.dumpQueries = true; else if (a == "--replay") replay = nx(); else if (a == "--no-merge") opt.merge = false; else if (a == "--no-dedup") nodedup = true;
    else files.push_back(a);
  }
  double t0 = now();
  if (!replay.empty()) {  // lines: width:hex name
    opt.haveReplay = true; std::ifstream f(replay); std::string line;
    while (std::getline(f, line)) { if (line.empty() || line[0] == '#') continue; size_t c = line.find(':'); size_t e = line.find(' '); unsigned w = stoi(line.substr(0, c)); std::string h = line.substr(c + 1, e == std::string::npos ? e : e - c - 1); opt.replay.push_back({"", llvm::APInt(std::max<unsigned>(w, 4 * h.size()), h, 16).zextOrTrunc(w)}); }
  }
  llvm::LLVMContext ctx; std::vector<ModInfo> mods; std::vector<Job> js;
  for (auto& f : files) {
    llvm::SMDiagnostic err; auto m = llvm::parseIRFile(f, err, ctx);
    if (!m) { fprintf(stderr, "cannot read %s\n", f.c_str()); return 3; }
    ModInfo mi; size_t sl = f.rfind('/'); mi.label = f.substr(sl == std::string::npos ? 0 : sl + 1); mi.label = mi.label.substr(0, mi.label.rfind(".bc")); mi.path = f; mi.m = std::move(m); mods.push_back(std::move(mi));
  }
  std::map<std::string, int> seen;
  for (unsigned k = 0; k < mods.size(); ++k) for (auto& f : *mods[k].m) {
    if (f.isDeclaration() || !f.getName().starts_with("vp_goal_")) continue;
    std::string g = f.getName().str(); if (!only.empty() && g != only && g != "vp_goal_" + only && !(only[0] == (char)126 && g.find(only.substr(1)) != std::string::npos)) continue;
    Job j; j.mod = k; j.goal = g; j.hash = nodedup ? std::to_string(js.size()) : goalHash(*mods[k].m, &f);
    auto it = seen.find(j.hash); if (it != seen.end()) j.rep = it->second; else seen[j.hash] = js.size();
    js.push_back(j);
  }
  if (list) { for (auto& j : js) printf("%s %s %s %d\n", mods[j.mod].label.c_str(), j.goal.c_str(), j.hash.c_str(), j.rep); return 0; }
  size_t slots = 1 << 20; void* sh = mmap(nullptr, slots * 16, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (sh != MAP_FAILED) setSharedCache(sh, slots);
  std::vector<int> order; for (size_t i = 0; i < js.size(); ++i) if (js[i].rep < 0) order.push_back(i);
  size_t nextJob = 0; std::map<pid_t, int> running; int fails = 0; bool stopAll = false; std::string dir = "/tmp/vpse." + std::to_string(getpid()); mkdir(dir.c_str(), 0700);
  fflush(stdout);
  while (nextJob < order.size() || !running.empty()) {
    bool late = now() - t0 > deadline;
    while (running.size() < jobs && nextJob < order.size() && !late && !stopAll) {
      int id = order[nextJob++]; Job& j = js[id]; j.start = now();
      pid_t p = fork();
      if (p == 0) {
        rlimit rl{memMb << 20, memMb << 20}; setrlimit(RLIMIT_AS, &rl); rlimit nc{0, 0}; setrlimit(RLIMIT_CORE, &nc);
        std::string res;
        bigStack([&]() {
          double s = now();
          try { Exec x(*mods[j.mod].m, opt); GoalResult r = x.run(j.goal); res = toJson(r, now() - s, true); }
          catch (Unsupported& u) { GoalResult r; r.status = "unsupported"; r.failures.push_back({"internal", u.what, "", false, {}, ""}); res = toJson(r, now() - s, false); }
          catch (std::bad_alloc&) { GoalResult r; r.status = "limit"; r.failures.push_back({"internal", "out of memory", "", false, {}, ""}); res = toJson(r, now() - s, false); }
          catch (std::exception& e) { GoalResult r; r.status = "limit"; r.failures.push_back({"internal", e.what(), "", false, {}, ""}); res = toJson(r, now() - s, false); }
          catch (...) { GoalResult r; r.status = "limit"; r.failures.push_back({"internal", "exception", "", false, {}, ""}); res = toJson(r, now() - s, false); }
        });
        std::ofstream o(dir + "/" + std::to_string(id)); o << res; o.close(); _exit(0);
      }
      j.pid = p; running[p] = id;
    }
    if (running.empty()) break;
    int st; pid_t p = waitpid(-1, &st, WNOHANG);
    if (p > 0) {
      auto it = running.find(p); if (it == running.end()) continue;
      Job& j = js[it->second]; j.secs = now() - j.start; std::string fn = dir + "/" + std::to_string(it->second);
      std::ifstream f(fn); std::string s((std::istreambuf_iterator<char>(f)), {}); f.close(); unlink(fn.c_str());
      if (s.empty()) s = "{\"status\":\"limit\",\"failures\":[{\"kind\":\"internal\",\"label\":\"" + std::string(WIFSIGNALED(st) ? (j.status == "timeout" ? "time limit" : "crashed or out of memory, signal " + std::to_string(WTERMSIG(st))) : "died") + "\",\"where\":\"\",\"decided\":false,\"detail\":\"\",\"inputs\":[]}],\"secs\":" + std::to_string(j.secs) + "}";
      j.result = s; running.erase(it);
      if (s.find("\"status\":\"fail\"") != std::string::npos) { if (++fails >= maxFail) stopAll = true; }
      continue;
    }
    for (auto& kv : running) if (now() - js[kv.second].start > perGoal || late && now() - t0 > deadline + 5 || (stopAll && now() - js[kv.second].start > 5)) { js[kv.second].status = "timeout"; kill(kv.first, SIGKILL); }
    if (stopAll || late) nextJob = order.size();
    usleep(2000);
  }
  rmdir(dir.c_str());
  std::ofstream o(out);
  o << "{\"wall_s\":" << now() - t0 << ",\"goals\":[";
  bool first = true;
  for (auto& j : js) {
    if (!first) o << ",\n"; first = false;
    o << "{\"module\":\"" << mods[j.mod].label << "\",\"goal\":\"" << j.goal << "\",\"hash\":\"" << j.hash << "\",\"dup\":" << (j.rep >= 0 ? "true" : "false");
    const std::string& r = j.rep >= 0 ? js[j.rep].result : j.result;
    if (j.rep >= 0) o << ",\"rep\":\"" << mods[js[j.rep].mod].label << ":" << js[j.rep].goal << "\"";
    o << ",\"r\":" << (r.empty() ? "{\"status\":\"skipped\",\"failures\":[]}" : r) << "}";
  }
  o << "]}\n"; o.close();
  return 0;
}
