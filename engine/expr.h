// Hash-consed bit-vector / float expression DAG with strong local simplification.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <unordered_map>
#include <functional>
#include "llvm/ADT/APInt.h"
#include "llvm/ADT/APFloat.h"
#include "llvm/ADT/ArrayRef.h"
#include "llvm/ADT/SmallVector.h"

namespace vp {
using llvm::APInt;

enum Op : uint8_t {
  CONST, VAR,
  ADD, SUB, MUL, UDIV, SDIV, UREM, SREM,
  AND, OR, XOR, SHL, LSHR, ASHR,
  CONCAT, EXTRACT, SEXT,
  EQ, ULT, ULE, SLT, SLE,
  ITE,
  // Floating point. a = format (0 half, 1 single, 2 double, 3 bf16), b = rounding mode.
  FADD, FMUL, FDIV, FSQRT, FMA,
  FRINT,      // round to integral, b = rm
  FCVT,       // a = src fmt, b = dst fmt | rm << 4
  FTOSI, FTOUI,  // a = fmt, b = rm; unspecified when out of range
  SITOF, UITOF,  // a = dst fmt, b = rm
  UF,         // a = index into UF name table
  NOPS
};
extern const char* kOpNames[];
extern bool gExpMode;
enum { RNE = 0, RTZ = 1, RUP = 2, RDN = 3 };
enum { F16 = 0, F32 = 1, F64 = 2, BF16 = 3 };

struct Node {
  Op op;
  uint32_t w;
  uint32_t id;
  uint32_t a, b;
  uint32_t nk;
  const Node* const* k;
  APInt c;
  uint64_t h;
  const Node* kid(unsigned i) const { return k[i]; }
};
using E = const Node*;

// Builders -----------------------------------------------------------------
E mkConst(const APInt& v);
E mkC(unsigned w, uint64_t v);       // zero-extended value
E mkCS(unsigned w, int64_t v);       // sign-extended value
E mkOnes(unsigned w);
E mkBool(bool b);
E mkVar(unsigned w, const std::string& name);   // always fresh
const std::string& varName(uint32_t idx);
uint32_t numVars();
E varByIndex(uint32_t idx);

E mkAdd(E a, E b); E mkSub(E a, E b); E mkMul(E a, E b); E mkNeg(E a);
E mkUDiv(E a, E b); E mkSDiv(E a, E b); E mkURem(E a, E b); E mkSRem(E a, E b);
E mkAnd(E a, E b); E mkOr(E a, E b); E mkXor(E a, E b); E mkNot(E a);
E mkShl(E a, E s); E mkLShr(E a, E s); E mkAShr(E a, E s);   // SMT semantics for s >= w
E mkConcat(llvm::ArrayRef<E> hiToLo);
E mkConcat2(E hi, E lo);
E mkExtract(E x, unsigned lo, unsigned w);
E mkZExt(E x, unsigned w); E mkSExt(E x, unsigned w); E mkTrunc(E x, unsigned w);
E mkZExtOrTrunc(E x, unsigned w);
E mkEq(E a, E b); E mkNe(E a, E b);
E mkUlt(E a, E b); E mkUle(E a, E b); E mkSlt(E a, E b); E mkSle(E a, E b);
E mkIte(E c, E a, E b);
E mkUMin(E a, E b); E mkUMax(E a, E b); E mkSMin(E a, E b); E mkSMax(E a, E b);
E mkUF(const std::string& name, unsigned w, llvm::ArrayRef<E> args);
const std::string& ufName(uint32_t idx);
E mkPopcount(E x); E mkCtlz(E x); E mkCttz(E x); E mkBswap(E x); E mkBitreverse(E x);

// Floats
unsigned fmtWidth(unsigned f);
const llvm::fltSemantics& fmtSem(unsigned f);
unsigned fmtMant(unsigned f);
E fIsNan(unsigned f, E x); E fIsInf(unsigned f, E x);
E fIsZero(unsigned f, E x);
E fOeq(unsigned f, E a, E b); E fOlt(unsigned f, E a, E b); E fOle(unsigned f, E a, E b);
E fUno(unsigned f, E a, E b);
E fNeg(unsigned f, E a); E fAbs(unsigned f, E a);
E fAdd(unsigned f, E a, E b, unsigned rm = RNE); E fSub(unsigned f, E a, E b, unsigned rm = RNE);
E fMul(unsigned f, E a, E b, unsigned rm = RNE); E fDiv(unsigned f, E a, E b, unsigned rm = RNE);
E fSqrt(unsigned f, E a, unsigned rm = RNE); E fFma(unsigned f, E a, E b, E c, unsigned rm = RNE);
E fRint(unsigned f, E a, unsigned rm);
E fCvt(unsigned from, unsigned to, E a, unsigned rm = RNE);
E fToSI(unsigned f, E a, unsigned w, unsigned rm); E fToUI(unsigned f, E a, unsigned w, unsigned rm);
E siToF(unsigned f, E a, unsigned rm = RNE); E uiToF(unsigned f, E a, unsigned rm = RNE);
bool isFpOp(Op o);
// In range for truncation to signed/unsigned w-bit integer (exact BV predicate).
E fInRangeSI(unsigned f, E a, unsigned w, unsigned rm); E fInRangeUI(unsigned f, E a, unsigned w, unsigned rm);

inline bool isC(E e) { return e->op == CONST; }
inline bool isTrue(E e) { return e->op == CONST && e->w == 1 && !e->c.isZero(); }
inline bool isFalse(E e) { return e->op == CONST && e->w == 1 && e->c.isZero(); }
inline bool isZero(E e) { return e->op == CONST && e->c.isZero(); }
inline bool isOnes(E e) { return e->op == CONST && e->c.isAllOnes(); }
bool isNot(E e, E* base);

// Rebuilds e with query-time (aggressive) rewriting: polynomial normal forms and pushed truncations.
E normalize(E e);
// Canonical forms by truth table for subexpressions of at most 8 variable bits.
E lutCanon(E e);
bool smallSupport(llvm::ArrayRef<E> es);  // all of them depend on at most 8 variable bits
E rewriteIntQuots(E root, std::unordered_map<E, E>& memo, std::vector<E>& side);
unsigned redundantSignBits(E e);
E rebuildNode(E e, llvm::ArrayRef<E> k);
// Substitute variables (by index) and rebuild.
E substitute(E e, const std::function<E(E)>& var);
E substituteMemo(E e, std::unordered_map<E, E>& memo, const std::function<E(E)>& var);
// Known bounds: upper bound on unsigned value.
APInt umaxOf(E e);
std::string toString(E e, unsigned depth = 6);
uint64_t nodeCount();
// Alpha-invariant 128-bit hash of a list of expressions.
struct Hash128 { uint64_t a, b; };
Hash128 alphaHash(llvm::ArrayRef<E> es);
uint64_t dagSize(llvm::ArrayRef<E> es);
void collectVars(E e, std::vector<uint32_t>& out);  // sorted unique; memoised
const std::vector<uint32_t>& varsOf(E e);
bool hasFp(E e);
E fpLower(E e, bool full);  // floating-point operations as circuits (fplower.cc)
bool hasUF(E e);
bool hasMul(E e);  // a product of two non-constants
E rewriteMuls(E root, std::unordered_map<E, E>& memo, const std::function<E(E, E)>& f);
}  // namespace vp
