#pragma once
#include "expr.h"
#include <map>
#include <string>
#include <vector>
namespace vp {
enum class Res { UNSAT, SAT, UNKNOWN };
struct Model { std::map<uint32_t, APInt> v; };  // var index -> value
struct SolverStats { uint64_t queries = 0, trivial = 0, cached = 0, unsat = 0, sat = 0, unknown = 0; double seconds = 0; uint64_t exactFp = 0; double maxq = 0; };
extern SolverStats gStats;
// Is the conjunction satisfiable? exactFp: floating point nodes get IEEE semantics instead of uninterpreted functions.
Res solve(llvm::ArrayRef<E> conj, Model* m, unsigned timeoutMs, bool exactFp);
// Two-stage: uninterpreted first, exact when that is satisfiable and fp nodes are present.
Res solveRefine(llvm::ArrayRef<E> conj, Model* m, unsigned timeoutMs);
// linear integer view (lia.cc)
bool liaWants(llvm::ArrayRef<E> conj);
Res solveLia(llvm::ArrayRef<E> conj, Model* m, unsigned timeoutMs);
void setSharedCache(void* mem, size_t slots);  // shared table of 128-bit hashes of unsat queries
// agreement over the reals (realpoly.cc)
int realClose(unsigned fmt, E got, E want, llvm::ArrayRef<E> pc, Model* m);
bool realNear(unsigned fmt, E got, E want);  // constants, as native.cc compares them
APInt evalModel(E e, const Model& m);
std::string toSmt2(llvm::ArrayRef<E> conj, bool exactFp);
}
