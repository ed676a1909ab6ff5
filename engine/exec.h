#pragma once
#include "expr.h"
#include "solver.h"
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"

namespace vp {
using Val = llvm::SmallVector<E, 1>;

struct Cell { E e = nullptr; uint32_t idx = 0; };
struct MemObj {
  uint64_t base = 0, size = 0;
  std::vector<Cell> b;
  bool ro = false, freed = false;
  E symBase = nullptr;
  std::string name;
  int kind = 0;  // 0 global, 1 stack, 2 heap, 3 function
};
using ObjP = std::shared_ptr<MemObj>;

struct Frame {
  llvm::Function* f = nullptr;
  llvm::BasicBlock* bb = nullptr; llvm::BasicBlock* prev = nullptr;
  llvm::BasicBlock::iterator ip;
  std::vector<Val> regs;
  std::vector<uint64_t> allocas;
  const llvm::CallBase* site = nullptr;  // call in the caller
};
struct Thread {
  std::vector<Frame> stack;
  int state = 0;  // 0 runnable, 1 finished, 2 joining, 3 blocked on futex/condition
  int waitFor = -1;
  uint64_t futexAddr = 0;
  uint64_t retval = 0;
  bool yielded = false;
};
struct SymLog { std::string name; E e; };
struct State {
  std::vector<Thread> threads;
  int cur = 0;
  std::map<uint64_t, ObjP> mem;
  std::vector<ObjP> symMem;
  uint64_t nextAddr = 0x7000000000ull;
  std::vector<E> pc;
  std::vector<SymLog> log;
  std::vector<E> traces;
  uint64_t steps = 0;
  int preempt = 0;
  std::map<std::string, uint64_t> counters;
  Frame& top() { return threads[cur].stack.back(); }
};

struct Failure {
  std::string kind, label, where;
  bool decided = true;      // false: the solver gave up, not a violation
  std::vector<std::pair<std::string, std::string>> inputs;  // name, hex value
  std::string detail;
};
struct Options {
  unsigned timeoutMs = 20000;
  uint64_t maxSteps = 4000000000ull;
  uint64_t maxPaths = 1000000;
  bool concrete = false;
  uint64_t seed = 1;
  std::vector<std::pair<std::string, APInt>> replay;  // fixed inputs
  bool haveReplay = false;
  bool trace = false;
  bool verbose = false;
  bool dumpQueries = false;
  bool reachOnly = false;
  bool merge = true;
};
struct GoalResult {
  std::string status;  // ok, fail, unknown, unsupported, limit
  std::vector<Failure> failures;
  uint64_t paths = 0, steps = 0, checks = 0, reached = 0, forks = 0, undecided = 0;
  std::vector<std::string> traceOut;
  std::set<std::string> functions;
  std::vector<std::pair<std::string, std::string>> inputs;
};
struct Unsupported { std::string what; };
struct ForkOn { E cond; };          // re-execute the current instruction under cond and under !cond
struct PathEnd { };
struct GoalStop { };

struct FnInfo { std::unordered_map<const llvm::Value*, unsigned> num; unsigned n = 0; };

class Exec {
 public:
  Exec(llvm::Module& m, const Options& o);
  GoalResult run(const std::string& goal);

  // used by intrinsic models
  using Intr = std::function<Val(Exec&, const llvm::CallBase&, std::vector<Val>&)>;
  E loadBits(E addr, unsigned bits, E guard = nullptr);
  void storeBits(E addr, E v, E guard = nullptr);
  E fresh(unsigned w, const char* why);
  void addPc(E c);
  bool feasible(E c);            // pc && c satisfiable (unknown counts as feasible)
  bool mustBe(E c);              // pc -> c proved
  uint64_t concretize(E e, const char* why);  // forks until e has one value
  void fail(const std::string& kind, const std::string& label, E cond);
  void check(E cond, const std::string& label);
  E alloc(uint64_t size, const std::string& name, int kind, E symBase = nullptr, uint64_t align = 16);
  void freePtr(E p);
  std::string cstr(E p);
  ObjP resolve(E addr, uint64_t n, E guard, E* off, bool forWrite);
  MemObj& writable(ObjP o);
  llvm::Module& M; const llvm::DataLayout& DL; Options opt; State* S = nullptr;
  GoalResult res;
  unsigned leaves(llvm::Type* t);
  void leafTypes(llvm::Type* t, std::vector<llvm::Type*>& out);
  unsigned leafBits(llvm::Type* t);
  Val loadTyped(llvm::Type* t, E addr);
  void storeTyped(llvm::Type* t, E addr, const Val& v);
  void memcpyBytes(E dst, E src, uint64_t n);
  std::string where();

 private:
  FnInfo& info(llvm::Function* f);
  Val get(const llvm::Value* v);
  Val constant(const llvm::Constant* c);
  uint64_t globalAddr(const llvm::GlobalValue* g);
  void set(const llvm::Value* v, Val x);
  bool step();   // executes one instruction; false when the path has ended
  void call(const llvm::CallBase& cb);
  void pushFrame(llvm::Function* f, const std::vector<Val>& args, const llvm::CallBase* site);
  void ret(Val v);
  void branchTo(llvm::BasicBlock* bb);
  bool tryMerge(const llvm::Instruction& term, E c);  // executes both sides of a small side-effect-guarded region
  E mergeGuard = nullptr;   // condition under which the instruction being executed runs
  struct Region { bool ok = false, stores = false; llvm::BasicBlock* join = nullptr; std::vector<llvm::BasicBlock*> order; };
  std::unordered_map<const llvm::Instruction*, Region> regions;
  const Region& regionOf(const llvm::Instruction& term);
  struct PDom; std::unordered_map<const llvm::Function*, std::shared_ptr<PDom>> pdoms;
  bool branchCond(E c);  // forks if needed, returns the side taken on the current state
  Val binop(unsigned opc, llvm::Type* t, const Val& a, const Val& b, const llvm::Instruction* I);
  Val castOp(unsigned opc, const Val& a, llvm::Type* from, llvm::Type* to);
  Val bitcast(const Val& a, llvm::Type* from, llvm::Type* to);
  Val fcmp(unsigned pred, llvm::Type* t, const Val& a, const Val& b);
  Val icmp(unsigned pred, const Val& a, const Val& b);
  E gepAddr(const llvm::GEPOperator* g);
  void initGlobals();
  bool builtin(const llvm::CallBase& cb, llvm::Function* f, std::vector<Val>& args);
  Val genericIntrinsic(const llvm::CallBase& cb, llvm::Function* f, std::vector<Val>& args, bool* ok);
  Val inlineAsm(const llvm::CallBase& cb, std::vector<Val>& args);
  void initBytes(MemObj& o, uint64_t off, const llvm::Constant* c);
  E symInput(unsigned w, const std::string& name);
  uint64_t cellsLoadRun(const MemObj& o, uint64_t off, unsigned nbytes, E* out);
  std::vector<E> slice(E q);
  void schedule();
  int sched(const std::vector<int>& cand, const char* why);

  std::unordered_map<const llvm::Function*, FnInfo> infos;
  std::unordered_map<const llvm::GlobalValue*, uint64_t> gaddr;
  std::unordered_map<uint64_t, llvm::Function*> fnByAddr;
  std::vector<std::unique_ptr<State>> work;
  uint64_t nextGlobal = 0x10000000ull;
  std::map<uint64_t, ObjP> baseMem;
  std::unordered_map<const llvm::Constant*, Val> constMemo;
  size_t replayPos = 0;
  uint64_t rng = 0;
  uint64_t symCount = 0;
  bool multi() const { return S->threads.size() > 1; }
  friend struct BuiltinImpl;
 public:
  unsigned fmtOf(llvm::Type* t);
  bool symMallocMode = false;
  uint64_t mallocFailMode = 0;
  bool expectAbort = false;
  unsigned ptrBits = 64;
};
bool x86Intrinsic(Exec& X, const std::string& name, const llvm::CallBase& cb, std::vector<Val>& args, Val* out);
std::string goalHash(llvm::Module& M, llvm::Function* f);
}  // namespace vp
