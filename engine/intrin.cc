// Models of the x86 intrinsics (and inline-assembly conversions) that the vector targets compile to.
#include "exec.h"
#include <cstring>
#include "llvm/ADT/StringExtras.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/GlobalVariable.h"
#include "llvm/IR/Operator.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/MD5.h"

namespace vp {
using namespace llvm;

static E satS(E x, unsigned w) {  // signed -> signed
  APInt mx = APInt::getSignedMaxValue(w), mn = APInt::getSignedMinValue(w);
  E hi = mkConst(mx.sext(x->w)), lo = mkConst(mn.sext(x->w));
  return mkIte(mkSlt(hi, x), mkConst(mx), mkIte(mkSlt(x, lo), mkConst(mn), mkTrunc(x, w)));
}
static E satSU(E x, unsigned w) {  // signed -> unsigned
  E hi = mkConst(APInt::getMaxValue(w).zext(x->w));
  return mkIte(mkSlt(x, mkC(x->w, 0)), mkC(w, 0), mkIte(mkSlt(hi, x), mkOnes(w), mkTrunc(x, w)));
}
static E satU(E x, unsigned w) {
  E hi = mkConst(APInt::getMaxValue(w).zext(x->w));
  return mkIte(mkUlt(hi, x), mkOnes(w), mkTrunc(x, w));
}
static E sign(E x) { return mkExtract(x, x->w - 1, 1); }
static E mux(const E* v, unsigned bits, E idx) {  // v[2^bits], idx at least `bits` wide
  if (bits == 0) return v[0];
  E a = mux(v, bits - 1, idx), b = mux(v + (1u << (bits - 1)), bits - 1, idx);
  return mkIte(mkExtract(idx, bits - 1, 1), b, a);
}
static unsigned lg2(unsigned n) { unsigned b = 0; while ((1u << b) < n) ++b; return b; }
static Val maskBits(const Val& m, unsigned n) {
  if (m.size() == 1 && (m[0]->w >= n) && !(n == 1 && m[0]->w == 1)) { Val r; for (unsigned i = 0; i < n; ++i) r.push_back(mkExtract(m[0], i, 1)); return r; }
  return m;
}
static E ite(E c, E a, E b) { return mkIte(c, a, b); }

static const uint8_t kSbox[256] = {
0x63,0x7c,0x77,0x7b,0xf2,0x6b,0x6f,0xc5,0x30,0x01,0x67,0x2b,0xfe,0xd7,0xab,0x76,0xca,0x82,0xc9,0x7d,0xfa,0x59,0x47,0xf0,0xad,0xd4,0xa2,0xaf,0x9c,0xa4,0x72,0xc0,
0xb7,0xfd,0x93,0x26,0x36,0x3f,0xf7,0xcc,0x34,0xa5,0xe5,0xf1,0x71,0xd8,0x31,0x15,0x04,0xc7,0x23,0xc3,0x18,0x96,0x05,0x9a,0x07,0x12,0x80,0xe2,0xeb,0x27,0xb2,0x75,
0x09,0x83,0x2c,0x1a,0x1b,0x6e,0x5a,0xa0,0x52,0x3b,0xd6,0xb3,0x29,0xe3,0x2f,0x84,0x53,0xd1,0x00,0xed,0x20,0xfc,0xb1,0x5b,0x6a,0xcb,0xbe,0x39,0x4a,0x4c,0x58,0xcf,
0xd0,0xef,0xaa,0xfb,0x43,0x4d,0x33,0x85,0x45,0xf9,0x02,0x7f,0x50,0x3c,0x9f,0xa8,0x51,0xa3,0x40,0x8f,0x92,0x9d,0x38,0xf5,0xbc,0xb6,0xda,0x21,0x10,0xff,0xf3,0xd2,
0xcd,0x0c,0x13,0xec,0x5f,0x97,0x44,0x17,0xc4,0xa7,0x7e,0x3d,0x64,0x5d,0x19,0x73,0x60,0x81,0x4f,0xdc,0x22,0x2a,0x90,0x88,0x46,0xee,0xb8,0x14,0xde,0x5e,0x0b,0xdb,
0xe0,0x32,0x3a,0x0a,0x49,0x06,0x24,0x5c,0xc2,0xd3,0xac,0x62,0x91,0x95,0xe4,0x79,0xe7,0xc8,0x37,0x6d,0x8d,0xd5,0x4e,0xa9,0x6c,0x56,0xf4,0xea,0x65,0x7a,0xae,0x08,
0xba,0x78,0x25,0x2e,0x1c,0xa6,0xb4,0xc6,0xe8,0xdd,0x74,0x1f,0x4b,0xbd,0x8b,0x8a,0x70,0x3e,0xb5,0x66,0x48,0x03,0xf6,0x0e,0x61,0x35,0x57,0xb9,0x86,0xc1,0x1d,0x9e,
0xe1,0xf8,0x98,0x11,0x69,0xd9,0x8e,0x94,0x9b,0x1e,0x87,0xe9,0xce,0x55,0x28,0xdf,0x8c,0xa1,0x89,0x0d,0xbf,0xe6,0x42,0x68,0x41,0x99,0x2d,0x0f,0xb0,0x54,0xbb,0x16};
static E sbox(E x, bool inv) {
  E t[256];
  for (unsigned i = 0; i < 256; ++i) { if (inv) t[kSbox[i]] = mkC(8, i); else t[i] = mkC(8, kSbox[i]); }
  return mux(t, 8, x);
}
static E xtime(E x) { return mkXor(mkShl(x, mkC(8, 1)), mkIte(sign(x), mkC(8, 0x1b), mkC(8, 0))); }
static E gmul(E x, unsigned k) { E r = mkC(8, 0), p = x; for (; k; k >>= 1) { if (k & 1) r = mkXor(r, p); p = xtime(p); } return r; }
static void splitBytes(const Val& v, std::vector<E>& b) { for (E e : v) for (unsigned i = 0; i < e->w; i += 8) b.push_back(mkExtract(e, i, 8)); }
static Val joinBytes(const std::vector<E>& b, unsigned w) {
  Val r; unsigned n = w / 8;
  for (unsigned i = 0; i < b.size(); i += n) { SmallVector<E, 8> p; for (int j = n - 1; j >= 0; --j) p.push_back(b[i + j]); r.push_back(mkConcat(p)); }
  return r;
}
static Val aesRound(const Val& st, const Val* key, bool enc, bool last, bool imcOnly) {
  std::vector<E> s, k, out; splitBytes(st, s); if (key) splitBytes(*key, k);
  for (unsigned blk = 0; blk < s.size(); blk += 16) {
    E t[16];
    for (unsigned c = 0; c < 4; ++c) for (unsigned r = 0; r < 4; ++r) {
      unsigned src = imcOnly ? c : enc ? (c + r) % 4 : (c + 4 - r) % 4;
      E x = s[blk + src * 4 + r];
      t[c * 4 + r] = imcOnly ? x : sbox(x, !enc);
    }
    for (unsigned c = 0; c < 4; ++c) for (unsigned r = 0; r < 4; ++r) {
      E x = t[c * 4 + r];
      if (!last || imcOnly) {
        E a = t[c * 4 + r], b = t[c * 4 + (r + 1) % 4], d = t[c * 4 + (r + 2) % 4], e = t[c * 4 + (r + 3) % 4];
        if (enc && !imcOnly) x = mkXor(mkXor(gmul(a, 2), gmul(b, 3)), mkXor(d, e));
        else x = mkXor(mkXor(gmul(a, 14), gmul(b, 11)), mkXor(gmul(d, 13), gmul(e, 9)));
      }
      if (key) x = mkXor(x, k[blk + c * 4 + r]);
      out.push_back(x);
    }
  }
  return joinBytes(out, st[0]->w);
}
static E clmul64(E a, E b) {
  E r = mkC(128, 0), za = mkZExt(a, 128);
  for (unsigned i = 0; i < 64; ++i) {
    E t = mkShl(za, mkC(128, i));
    SmallVector<E, 1> bit; E bb = mkExtract(b, i, 1);
    r = mkXor(r, mkAnd(t, mkSExt(bb, 128)));
  }
  return r;
}
// float32 -> bfloat16 as VCVTNEPS2BF16 does it: denormal inputs are zero, NaN is quieted
static E neps2bf16(E x) {
  E ex = mkExtract(x, 23, 8), ma = mkExtract(x, 0, 23), hi = mkExtract(x, 16, 16);
  E nan = mkAnd(mkEq(ex, mkOnes(8)), mkNe(ma, mkC(23, 0)));
  E den = mkEq(ex, mkC(8, 0));
  E lsb = mkZExt(mkExtract(x, 16, 1), 32);
  E rnd = mkExtract(mkAdd(mkAdd(x, mkC(32, 0x7FFF)), lsb), 16, 16);
  return ite(nan, mkOr(hi, mkC(16, 0x40)), ite(den, mkAnd(hi, mkC(16, 0x8000)), rnd));
}
static unsigned rmOf(uint64_t imm, unsigned dflt) {
  if (imm & 4) return dflt;
  switch (imm & 3) { case 0: return RNE; case 1: return RDN; case 2: return RUP; default: return RTZ; }
}
static E cvtToInt(unsigned f, E x, unsigned w, bool sgn, unsigned rm) {
  E in = sgn ? fInRangeSI(f, x, w, rm) : fInRangeUI(f, x, w, rm);
  return ite(in, sgn ? fToSI(f, x, w, rm) : fToUI(f, x, w, rm), sgn ? mkConst(APInt::getSignedMinValue(w)) : mkOnes(w));
}
static bool fmtName(const std::string& s, unsigned* f) {
  if (s == "ps" || s == "ss") { *f = F32; return true; }
  if (s == "pd" || s == "sd") { *f = F64; return true; }
  if (s == "ph" || s == "sh") { *f = F16; return true; }
  return false;
}
// v?cvt t? <src> 2 <dst>
static bool parseCvt(std::string m, bool* trunc, std::string* src, std::string* dst) {
  if (m.compare(0, 4, "vcvt") == 0) m = m.substr(4); else if (m.compare(0, 3, "cvt") == 0) m = m.substr(3); else return false;
  *trunc = false;
  if (!m.empty() && m[0] == 't') { *trunc = true; m = m.substr(1); }
  size_t p = m.find('2'); if (p == std::string::npos) return false;
  *src = m.substr(0, p); *dst = m.substr(p + 1);
  return true;
}
static bool doCvt(const std::string& mn, unsigned rm, const Val& in, unsigned outLanes, Val* out) {
  bool tr; std::string s, d; if (!parseCvt(mn, &tr, &s, &d)) return false;
  unsigned sf, df; 
  unsigned r = tr ? (unsigned)RTZ : rm;
  struct { const char* n; unsigned w; bool sg; } ints[] = {{"dq", 32, 1}, {"udq", 32, 0}, {"qq", 64, 1}, {"uqq", 64, 0}, {"w", 16, 1}, {"uw", 16, 0}, {"si64", 64, 1}, {"si", 32, 1}, {"usi64", 64, 0}, {"usi", 32, 0}};
  if (fmtName(s, &sf)) {
    for (auto& t : ints) if (d == t.n) {
      for (unsigned i = 0; i < outLanes; ++i) out->push_back(i < in.size() ? cvtToInt(sf, in[i], t.w, t.sg, r) : mkC(t.w, 0));
      return true;
    }
    std::string dd = d == "psx" ? "ps" : d == "phx" ? "ph" : d;
    if (fmtName(dd, &df)) { for (unsigned i = 0; i < outLanes; ++i) out->push_back(i < in.size() ? fCvt(sf, df, in[i], rm) : mkC(fmtWidth(df), 0)); return true; }
    return false;
  }
  if (fmtName(d, &df)) {
    for (auto& t : ints) if (s == t.n) {
      for (unsigned i = 0; i < outLanes; ++i) out->push_back(i < in.size() ? (t.sg ? siToF(df, in[i], rm) : uiToF(df, in[i], rm)) : mkC(fmtWidth(df), 0));
      return true;
    }
  }
  return false;
}
static Val applyMask(const Val& v, const Val& pass, const Val& mask, unsigned n) {
  // lanes < n: mask ? v : pass; lanes >= n stay as they are (zero)
  Val m = maskBits(mask, n), r = v;
  for (unsigned i = 0; i < n && i < v.size(); ++i) r[i] = ite(m[i], v[i], pass[i]);
  return r;
}

bool x86Intrinsic(Exec& X, const std::string& fullname, const CallBase& cb, std::vector<Val>& A, Val* out) {
  Type* rt = cb.getType();
  unsigned on = rt->isVoidTy() ? 0 : X.leaves(rt);
  Val& R = *out;
  if (fullname.compare(0, 4, "asm.") == 0) {
    std::string m = fullname.substr(4);
    std::vector<Val> as; for (auto& a : A) if (!a.empty()) as.push_back(a);
    auto fixw = [&](const Val& v, unsigned lanes16) { (void)lanes16; return v; };
    (void)fixw;
    if (m == "vcvtneps2bf16") {  // source may be given in any lane type
      std::vector<E> b; splitBytes(as.back(), b); Val src = joinBytes(b, 32);
      std::vector<Type*> lt; X.leafTypes(rt, lt); unsigned w = X.leafBits(lt[0]);
      std::vector<E> ob; unsigned total = on * w / 8;
      for (E e : src) { E x = neps2bf16(e); ob.push_back(mkExtract(x, 0, 8)); ob.push_back(mkExtract(x, 8, 8)); }
      while (ob.size() < total) ob.push_back(mkC(8, 0));
      R = joinBytes(ob, w); return true;
    }
    if (m == "vcvtne2ps2bf16") {  // AT&T operand order in the template: src2, src1, dst with "%2, %1, %0"
      if (as.size() != 2) return false;
      std::vector<E> b0, b1, ob; splitBytes(as[0], b0); splitBytes(as[1], b1);
      Val hi = joinBytes(b0, 32), lo = joinBytes(b1, 32);
      for (E e : lo) { E x = neps2bf16(e); ob.push_back(mkExtract(x, 0, 8)); ob.push_back(mkExtract(x, 8, 8)); }
      for (E e : hi) { E x = neps2bf16(e); ob.push_back(mkExtract(x, 0, 8)); ob.push_back(mkExtract(x, 8, 8)); }
      std::vector<Type*> lt; X.leafTypes(rt, lt);
      R = joinBytes(ob, X.leafBits(lt[0])); return true;
    }
    bool tr; std::string s, d; if (!parseCvt(m, &tr, &s, &d)) return false;
    unsigned sf; if (!fmtName(s, &sf)) return false;
    if (as.empty()) return false;
    std::vector<E> b; splitBytes(as.back(), b); Val src = joinBytes(b, fmtWidth(sf));
    std::vector<Type*> lt; X.leafTypes(rt, lt); unsigned ow = X.leafBits(lt[0]);
    std::string dd = d;
    if (d == "si") dd = ow == 64 ? "si64" : "si";
    if (d == "usi") dd = ow == 64 ? "usi64" : "usi";
    unsigned iw = (dd == "dq" || dd == "udq" || dd == "si" || dd == "usi") ? 32 : (dd == "w" || dd == "uw") ? 16 : 64;
    unsigned n = on * ow / iw;
    Val t; if (!doCvt(m.substr(0, m.size() - d.size()) + dd, RNE, src, n, &t)) return false;
    std::vector<E> tb; splitBytes(t, tb); R = joinBytes(tb, ow); return true;
  }
  std::string n = fullname.substr(9);  // after "llvm.x86."
  auto has = [&](const char* s) { return n.find(s) != std::string::npos; };
  auto is = [&](const char* s) { return n == s; };
  auto starts = [&](const char* s) { return n.compare(0, strlen(s), s) == 0; };
  auto imm = [&](unsigned i) -> uint64_t { return X.concretize(A[i][0], "immediate"); };
  std::string base = n.substr(n.find('.') + 1);  // strip the ISA prefix
  bool masked = base.compare(0, 5, "mask.") == 0; if (masked) base = base.substr(5);
  std::string op = base.substr(0, base.find('.')); std::string suf = base.size() > op.size() ? base.substr(op.size() + 1) : "";
  unsigned vl = A.empty() ? 0 : A[0].size();
  auto fmtv = [&]() { return X.fmtOf(cb.getArgOperand(0)->getType()); };

  // ---- fences, hints, environment
  if (has("pause") || has("sfence") || has("lfence") || has("mfence") || has("clflush") || is("avx.vzeroupper")) return true;
  if (is("xgetbv") && X.S->counters.count("cpu_xcr0")) { uint64_t at = X.S->counters["cpu_xcr0"]; R.push_back(mkConcat2(X.loadBits(mkC(64, at + 4), 32), X.loadBits(mkC(64, at), 32))); return true; }
  if (is("xgetbv")) { R.push_back(mkUF("asm_0xgetbv", 64, {A[0][0]})); return true; }
  if (is("rdtsc")) { R.push_back(X.fresh(64, "tsc")); return true; }
  if (is("rdtscp")) { R.push_back(X.fresh(64, "tsc")); R.push_back(X.fresh(32, "aux")); return true; }
  // ---- packs
  if (op.compare(0, 8, "packssdw") == 0 || op.compare(0, 8, "packsswb") == 0 || op.compare(0, 8, "packusdw") == 0 || op.compare(0, 8, "packuswb") == 0) {
    unsigned w = A[0][0]->w / 2, per = 128 / A[0][0]->w; bool us = op[4] == 'u';
    for (unsigned b = 0; b < vl; b += per) for (int s = 0; s < 2; ++s) for (unsigned i = 0; i < per; ++i) R.push_back(us ? satSU(A[s][b + i], w) : satS(A[s][b + i], w));
    return true;
  }
  if (op == "pavg") { for (unsigned i = 0; i < vl; ++i) { unsigned w = A[0][i]->w; R.push_back(mkExtract(mkAdd(mkAdd(mkZExt(A[0][i], w + 1), mkZExt(A[1][i], w + 1)), mkC(w + 1, 1)), 1, w)); } return true; }
  if (op == "pmulhu" || op == "pmulh") { for (unsigned i = 0; i < vl; ++i) { unsigned w = A[0][i]->w; bool u = op == "pmulhu"; E a = u ? mkZExt(A[0][i], 2 * w) : mkSExt(A[0][i], 2 * w), b = u ? mkZExt(A[1][i], 2 * w) : mkSExt(A[1][i], 2 * w); R.push_back(mkExtract(mkMul(a, b), w, w)); } return true; }
  if (base.compare(0, 8, "pmul.hr.") == 0) { for (unsigned i = 0; i < vl; ++i) { E p = mkMul(mkSExt(A[0][i], 32), mkSExt(A[1][i], 32)); R.push_back(mkExtract(mkAdd(mkAShr(p, mkC(32, 14)), mkC(32, 1)), 1, 16)); } return true; }
  if (base.compare(0, 8, "pmadd.wd") == 0 || op == "pmaddw") { for (unsigned i = 0; i + 1 < vl; i += 2) R.push_back(mkAdd(mkMul(mkSExt(A[0][i], 32), mkSExt(A[1][i], 32)), mkMul(mkSExt(A[0][i + 1], 32), mkSExt(A[1][i + 1], 32)))); return true; }
  if (base.compare(0, 11, "pmadd.ub.sw") == 0 || op == "pmaddubs") { for (unsigned i = 0; i + 1 < vl; i += 2) { E p = mkAdd(mkMul(mkZExt(A[0][i], 32), mkSExt(A[1][i], 32)), mkMul(mkZExt(A[0][i + 1], 32), mkSExt(A[1][i + 1], 32))); R.push_back(satS(p, 16)); } return true; }
  if (op == "phminposuw") {
    E m = A[0][0], ix = mkC(16, 0);
    for (unsigned i = 1; i < 8; ++i) { E lt = mkUlt(A[0][i], m); ix = ite(lt, mkC(16, i), ix); m = ite(lt, A[0][i], m); }
    R.push_back(m); R.push_back(ix); for (unsigned i = 2; i < 8; ++i) R.push_back(mkC(16, 0));
    return true;
  }
  if (op == "psad") {
    for (unsigned b = 0; b < vl; b += 8) { E s = mkC(16, 0); for (unsigned i = 0; i < 8; ++i) { E x = A[0][b + i], y = A[1][b + i]; s = mkAdd(s, mkZExt(ite(mkUlt(x, y), mkSub(y, x), mkSub(x, y)), 16)); } R.push_back(mkZExt(s, 64)); }
    return true;
  }
  if (op == "dbpsadbw" || op == "mpsadbw") {
    uint64_t im = imm(2); auto ad = [&](E x, E y) { return mkZExt(ite(mkUlt(x, y), mkSub(y, x), mkSub(x, y)), 16); };
    for (unsigned b = 0; b < vl; b += 16) {
      if (op == "mpsadbw") {
        uint64_t k = (b / 16) ? im >> 3 : im; unsigned so = (k & 3) * 4, ao = (k >> 2 & 1) * 4;
        for (unsigned j = 0; j < 8; ++j) { E s = mkC(16, 0); for (unsigned i = 0; i < 4; ++i) s = mkAdd(s, ad(A[0][b + ao + j + i], A[1][b + so + i])); R.push_back(s); }
      } else {
        E t[16]; for (unsigned q = 0; q < 4; ++q) for (unsigned i = 0; i < 4; ++i) t[q * 4 + i] = A[1][b + (im >> (2 * q) & 3) * 4 + i];
        auto S4 = [&](unsigned ao, unsigned to) { E s = mkC(16, 0); for (unsigned i = 0; i < 4; ++i) s = mkAdd(s, ad(A[0][b + ao + i], t[to + i])); return s; };
        for (unsigned h = 0; h < 2; ++h) { unsigned o = h * 8; R.push_back(S4(o, o)); R.push_back(S4(o, o + 1)); R.push_back(S4(o + 4, o + 2)); R.push_back(S4(o + 4, o + 3)); }
      }
    }
    return true;
  }
  if (op == "pshuf") { for (unsigned i = 0; i < vl; ++i) { E ix = A[1][i]; R.push_back(ite(sign(ix), mkC(8, 0), mux(&A[0][i / 16 * 16], 4, ix))); } return true; }
  if (op == "psign") { for (unsigned i = 0; i < vl; ++i) { E a = A[0][i], b = A[1][i]; unsigned w = a->w; R.push_back(ite(sign(b), mkNeg(a), ite(mkEq(b, mkC(w, 0)), mkC(w, 0), a))); } return true; }
  if (op == "phadd" || op == "phsub" || op == "hadd" || op == "hsub") {
    bool add = has("add"), fp = op[0] == 'h'; unsigned f = fp ? fmtv() : 0, per = 128 / A[0][0]->w;
    if (suf == "sw" || suf == "sw.128") return false;
    for (unsigned b = 0; b < vl; b += per) for (int s = 0; s < 2; ++s) for (unsigned i = 0; i < per; i += 2) { E x = A[s][b + i], y = A[s][b + i + 1]; R.push_back(fp ? (add ? fAdd(f, x, y) : fSub(f, x, y)) : (add ? mkAdd(x, y) : mkSub(x, y))); }
    return true;
  }
  if (op == "addsub") { unsigned f = fmtv(); for (unsigned i = 0; i < vl; ++i) R.push_back(i & 1 ? fAdd(f, A[0][i], A[1][i]) : fSub(f, A[0][i], A[1][i])); return true; }
  if (op == "vfmaddsub" || op == "vfmsubadd") { unsigned f = fmtv(); for (unsigned i = 0; i < vl; ++i) { bool sub = (op == "vfmaddsub") == !(i & 1); R.push_back(fFma(f, A[0][i], A[1][i], sub ? fNeg(f, A[2][i]) : A[2][i])); } return true; }
  if (op == "vfmadd") { unsigned f = fmtv(); for (unsigned i = 0; i < vl; ++i) R.push_back(fFma(f, A[0][i], A[1][i], A[2][i])); return true; }
  if ((op == "min" || op == "max") && A.size() >= 2 && rt->getScalarType()->isFloatingPointTy()) {
    unsigned f = fmtv(); bool mn = op == "min"; bool sc = suf == "ss" || suf == "sd";
    for (unsigned i = 0; i < vl; ++i) { if (sc && i) { R.push_back(A[0][i]); continue; } E a = A[0][i], b = A[1][i]; R.push_back(ite(mn ? fOlt(f, a, b) : fOlt(f, b, a), a, b)); }
    return true;
  }
  if ((op == "add" || op == "sub" || op == "mul" || op == "div") && rt->getScalarType()->isFloatingPointTy()) {
    unsigned f = fmtv(); unsigned rm = A.size() > 2 ? rmOf(imm(A.size() - 1), RNE) : (unsigned)RNE;
    for (unsigned i = 0; i < vl; ++i) { E a = A[0][i], b = A[1][i]; R.push_back(op == "add" ? fAdd(f, a, b, rm) : op == "sub" ? fSub(f, a, b, rm) : op == "mul" ? fMul(f, a, b, rm) : fDiv(f, a, b, rm)); }
    return true;
  }
  if (op == "sqrt") { unsigned f = fmtv(); for (unsigned i = 0; i < vl; ++i) R.push_back(fSqrt(f, A[0][i])); return true; }
  if (op == "blendvpd" || op == "blendvps" || op == "blendv" || op == "pblendvb") { for (unsigned i = 0; i < vl; ++i) R.push_back(ite(sign(A[2][i]), A[1][i], A[0][i])); return true; }
  // ---- masked memory
  if (op == "maskstore") { unsigned eb = A[2][0]->w; for (unsigned i = 0; i < A[2].size(); ++i) X.storeBits(mkAdd(A[0][0], mkC(64, i * eb / 8)), A[2][i], sign(A[1][i])); return true; }
  if (op == "maskload") { unsigned eb = A[1][0]->w; for (unsigned i = 0; i < A[1].size(); ++i) { E g = sign(A[1][i]); R.push_back(isFalse(g) ? mkC(eb, 0) : ite(g, X.loadBits(mkAdd(A[0][0], mkC(64, i * eb / 8)), eb, g), mkC(eb, 0))); } return true; }
  if (op == "maskmov") { for (unsigned i = 0; i < vl; ++i) X.storeBits(mkAdd(A[2][0], mkC(64, i)), A[0][i], sign(A[1][i])); return true; }
  if (op == "ldu") { R = X.loadTyped(rt, A[0][0]); return true; }
  if (op.compare(0, 6, "gather") == 0) {
    unsigned eb = X.leafBits(rt->getScalarType()); Val m;
    bool a512 = masked; E sc = A[4][0]; uint64_t scale = sc->c.getZExtValue();
    if (a512) m = maskBits(A[3], std::min<unsigned>(on, A[2].size())); else for (E e : A[3]) m.push_back(sign(e));
    for (unsigned i = 0; i < on; ++i) {
      if (i >= A[2].size()) { R.push_back(mkC(eb, 0)); continue; }
      E addr = mkAdd(A[1][0], mkMul(mkSExt(A[2][i], 64), mkC(64, scale)));
      R.push_back(isFalse(m[i]) ? A[0][i] : ite(m[i], X.loadBits(addr, eb, m[i]), A[0][i]));
    }
    return true;
  }
  if (op.compare(0, 7, "scatter") == 0) {
    uint64_t scale = A[4][0]->c.getZExtValue(); unsigned k = std::min(A[2].size(), A[3].size()); Val m = maskBits(A[1], k);
    for (unsigned i = 0; i < k; ++i) X.storeBits(mkAdd(A[0][0], mkMul(mkSExt(A[2][i], 64), mkC(64, scale))), A[3][i], m[i]);
    return true;
  }
  // ---- shifts
  if (op == "psllv" || op == "psrlv" || op == "psrav") {
    for (unsigned i = 0; i < vl; ++i) R.push_back(op == "psllv" ? mkShl(A[0][i], A[1][i]) : op == "psrlv" ? mkLShr(A[0][i], A[1][i]) : mkAShr(A[0][i], A[1][i]));
    return true;
  }
  if ((op == "psll" || op == "psrl" || op == "psra" || op == "pslli" || op == "psrli" || op == "psrai") && suf.compare(0, 2, "dq") != 0) {
    E c; unsigned w = A[0][0]->w;
    if (op.size() == 5) c = A[1][0]; else { SmallVector<E, 8> p; unsigned k = 64 / A[1][0]->w; for (int i = k - 1; i >= 0; --i) p.push_back(A[1][i]); c = mkConcat(p); }
    E big = mkUle(mkC(c->w, w), c); E amt = mkZExtOrTrunc(c, w);
    for (E x : A[0]) {
      E z = op.compare(0, 4, "psll") == 0 ? mkShl(x, amt) : op.compare(0, 4, "psrl") == 0 ? mkLShr(x, amt) : mkAShr(x, amt);
      E o = op.compare(0, 4, "psra") == 0 ? mkSExt(sign(x), w) : mkC(w, 0);
      R.push_back(ite(big, o, z));
    }
    return true;
  }
  // ---- permutes
  if (op == "permvar" || op == "permd" || op == "permps") { unsigned b = lg2(vl); for (unsigned i = 0; i < vl; ++i) R.push_back(mux(&A[0][0], b, A[1][i])); return true; }
  if (op == "vpermi2var") {
    Val t = A[0]; t.append(A[2].begin(), A[2].end()); unsigned b = lg2(2 * vl);
    for (unsigned i = 0; i < vl; ++i) R.push_back(mux(&t[0], b, A[1][i]));
    return true;
  }
  if (op == "vpermilvar") {
    for (unsigned i = 0; i < vl; ++i) { if (A[0][0]->w == 32) R.push_back(mux(&A[0][i / 4 * 4], 2, A[1][i])); else R.push_back(mux(&A[0][i / 2 * 2], 1, mkExtract(A[1][i], 1, 1))); }
    return true;
  }
  if (op == "compress" || op == "expand") {
    Val m = maskBits(A[2], vl); E c = mkC(8, 0);
    if (op == "compress") {
      std::vector<E> pre; for (unsigned i = 0; i < vl; ++i) { pre.push_back(c); c = mkAdd(c, mkZExt(m[i], 8)); }
      for (unsigned j = 0; j < vl; ++j) { E v = A[1][j]; for (unsigned i = j; i < vl; ++i) v = ite(mkAnd(m[i], mkEq(pre[i], mkC(8, j))), A[0][i], v); R.push_back(v); }
    } else {
      for (unsigned i = 0; i < vl; ++i) { E v = A[0][0]; for (unsigned j = 1; j <= i; ++j) v = ite(mkEq(c, mkC(8, j)), A[0][j], v); R.push_back(ite(m[i], v, A[1][i])); c = mkAdd(c, mkZExt(m[i], 8)); }
    }
    return true;
  }
  if (op == "pmovs" || op == "pmovus" || op == "pmov") {
    unsigned w = X.leafBits(rt->getScalarType());
    for (unsigned i = 0; i < on; ++i) R.push_back(i < vl ? (op == "pmovs" ? satS(A[0][i], w) : op == "pmovus" ? satU(A[0][i], w) : mkTrunc(A[0][i], w)) : mkC(w, 0));
    R = applyMask(R, A[1], A[2], vl); return true;
  }
  if (op == "pternlog") {
    uint64_t im = imm(3);
    for (unsigned i = 0; i < vl; ++i) {
      E a = A[0][i], b = A[1][i], c = A[2][i]; unsigned w = a->w; E r = mkC(w, 0);
      for (unsigned k = 0; k < 8; ++k) if (im >> k & 1) r = mkOr(r, mkAnd(mkAnd(k & 4 ? a : mkNot(a), k & 2 ? b : mkNot(b)), k & 1 ? c : mkNot(c)));
      if (im == 0x96) r = mkXor(mkXor(a, b), c);
      else if (im == 0xCA) r = mkOr(mkAnd(a, b), mkAnd(mkNot(a), c));
      else if (im == 0xFE) r = mkOr(mkOr(a, b), c);
      R.push_back(r);
    }
    return true;
  }
  if (op == "vgf2p8affineqb" || starts("vgf2p8affineqb")) {
    uint64_t im = imm(2);
    for (unsigned i = 0; i < vl; ++i) {
      SmallVector<E, 8> bits;  // hi to lo
      for (int b = 7; b >= 0; --b) {
        E row = A[1][i / 8 * 8 + (7 - b)], t = mkAnd(row, A[0][i]), p = mkBool(im >> b & 1);
        for (unsigned k = 0; k < 8; ++k) p = mkXor(p, mkExtract(t, k, 1));
        bits.push_back(p);
      }
      R.push_back(mkConcat(bits));
    }
    return true;
  }
  if (starts("vgf2p8mulb")) {
    for (unsigned i = 0; i < vl; ++i) { E r = mkC(8, 0), p = A[0][i]; for (unsigned b = 0; b < 8; ++b) { r = mkXor(r, mkAnd(p, mkSExt(mkExtract(A[1][i], b, 1), 8))); p = xtime(p); } R.push_back(r); }
    return true;
  }
  if (starts("pclmulqdq")) {
    uint64_t im = imm(2);
    for (unsigned b = 0; b < vl; b += 2) { E p = clmul64(A[0][b + (im & 1)], A[1][b + (im >> 4 & 1)]); R.push_back(mkExtract(p, 0, 64)); R.push_back(mkExtract(p, 64, 64)); }
    return true;
  }
  if (starts("aesni.")) {
    if (op == "aesenc") { R = aesRound(A[0], &A[1], true, false, false); return true; }
    if (op == "aesenclast") { R = aesRound(A[0], &A[1], true, true, false); return true; }
    if (op == "aesdec") {  // InvShiftRows, InvSubBytes, InvMixColumns, AddRoundKey
      R = aesRound(A[0], &A[1], false, false, false); return true; }
    if (op == "aesdeclast") { R = aesRound(A[0], &A[1], false, true, false); return true; }
    if (op == "aesimc") { R = aesRound(A[0], nullptr, false, false, true); return true; }
    if (op == "aeskeygenassist") {
      uint64_t rc = imm(1); std::vector<E> b, o; splitBytes(A[0], b);
      for (unsigned q = 0; q < 2; ++q) {
        E x[4]; for (unsigned i = 0; i < 4; ++i) x[i] = sbox(b[(q * 2 + 1) * 4 + i], false);
        for (unsigned i = 0; i < 4; ++i) o.push_back(x[i]);
        for (unsigned i = 0; i < 4; ++i) { E r = x[(i + 1) % 4]; if (i == 0) r = mkXor(r, mkC(8, rc)); o.push_back(r); }
      }
      R = joinBytes(o, A[0][0]->w); return true;
    }
    return false;
  }
  if (op == "vpshufbitqmb") {
    for (unsigned i = 0; i < on; ++i) { E q; { SmallVector<E, 8> p; for (int j = 7; j >= 0; --j) p.push_back(A[0][i / 8 * 8 + j]); q = mkConcat(p); } E bits[64]; for (unsigned k = 0; k < 64; ++k) bits[k] = mkExtract(q, k, 1); R.push_back(mux(bits, 6, A[1][i])); }
    return true;
  }
  if (op == "pmultishift") {
    for (unsigned i = 0; i < vl; ++i) { E q; { SmallVector<E, 8> p; for (int j = 7; j >= 0; --j) p.push_back(A[1][i / 8 * 8 + j]); q = mkConcat(p); } E qq = mkConcat2(q, q); E s[64]; for (unsigned k = 0; k < 64; ++k) s[k] = mkExtract(qq, k, 8); R.push_back(mux(s, 6, A[0][i])); }
    return true;
  }
  if (op == "conflict") { for (unsigned i = 0; i < vl; ++i) { unsigned w = A[0][i]->w; E r = mkC(w, 0); for (unsigned j = 0; j < i; ++j) r = mkOr(r, mkShl(mkZExt(mkEq(A[0][i], A[0][j]), w), mkC(w, j))); R.push_back(r); } return true; }
  if (op == "vpdpbusd" || op == "vpdpbusds") {
    for (unsigned i = 0; i < vl; ++i) { E s = mkC(40, 0); for (unsigned k = 0; k < 32; k += 8) s = mkAdd(s, mkMul(mkZExt(mkExtract(A[1][i], k, 8), 40), mkSExt(mkExtract(A[2][i], k, 8), 40))); s = mkAdd(s, mkSExt(A[0][i], 40)); R.push_back(op == "vpdpbusds" ? satS(s, 32) : mkTrunc(s, 32)); }
    return true;
  }
  if (op == "vpdpwssd" || op == "vpdpwssds") {
    for (unsigned i = 0; i < vl; ++i) { E s = mkC(40, 0); for (unsigned k = 0; k < 32; k += 16) s = mkAdd(s, mkMul(mkSExt(mkExtract(A[1][i], k, 16), 40), mkSExt(mkExtract(A[2][i], k, 16), 40))); s = mkAdd(s, mkSExt(A[0][i], 40)); R.push_back(op == "vpdpwssds" ? satS(s, 32) : mkTrunc(s, 32)); }
    return true;
  }
  if (op == "dpbf16ps") {  // opaque per lane (flush-to-zero, unspecified intermediate rounding)
    std::vector<E> b1, b2; splitBytes(A[1], b1); splitBytes(A[2], b2); Val p = joinBytes(b1, 32), q = joinBytes(b2, 32);
    for (unsigned i = 0; i < vl; ++i) R.push_back(mkUF("x86.dpbf16ps", 32, {A[0][i], p[i], q[i]}));
    return true;
  }
  if (is("bmi.bzhi.64") || is("bmi.bzhi.32")) { unsigned w = A[0][0]->w; E k = mkZExt(mkExtract(A[1][0], 0, 8), w); R.push_back(mkAnd(A[0][0], ite(mkUlt(k, mkC(w, w)), mkSub(mkShl(mkC(w, 1), k), mkC(w, 1)), mkOnes(w)))); return true; }
  if (is("bmi.pext.32") || is("bmi.pext.64") || is("bmi.pdep.32") || is("bmi.pdep.64")) {
    unsigned w = A[0][0]->w; E c = mkC(8, 0), r = mkC(w, 0);
    for (unsigned i = 0; i < w; ++i) {
      E m = mkExtract(A[1][0], i, 1);
      if (isFalse(m)) continue;
      if (has("pext")) { E b = mkZExt(mkAnd(m, mkExtract(A[0][0], i, 1)), w); r = mkOr(r, mkShl(b, mkZExt(c, w))); }
      else { E b = mkExtract(mkLShr(A[0][0], mkZExt(c, w)), 0, 1); r = mkOr(r, mkShl(mkZExt(mkAnd(m, b), w), mkC(w, i))); }
      c = mkAdd(c, mkZExt(m, 8));
    }
    R.push_back(r); return true;
  }
  // ---- masks out of vectors
  if (op == "movmsk" || op == "pmovmskb") { SmallVector<E, 64> b; for (int i = vl - 1; i >= 0; --i) b.push_back(sign(A[0][i])); R.push_back(mkZExt(mkConcat(b), 32)); return true; }
  if (op == "ptestz" || op == "ptestc" || op == "ptestnzc") {
    E z = mkBool(true), c = mkBool(true); for (unsigned i = 0; i < vl; ++i) { unsigned w = A[0][i]->w; z = mkAnd(z, mkEq(mkAnd(A[0][i], A[1][i]), mkC(w, 0))); c = mkAnd(c, mkEq(mkAnd(mkNot(A[0][i]), A[1][i]), mkC(w, 0))); }
    R.push_back(mkZExt(op == "ptestz" ? z : op == "ptestc" ? c : mkAnd(mkNot(z), mkNot(c)), 32)); return true;
  }
  if (op == "fpclass") {
    unsigned f = fmtv(); uint64_t im = imm(1);
    for (E e : A[0]) {
      unsigned w = fmtWidth(f), mb = fmtMant(f);
      E s = sign(e), ex = mkExtract(e, mb, w - 1 - mb), ma = mkExtract(e, 0, mb);
      E e1 = mkEq(ex, mkOnes(ex->w)), e0 = mkEq(ex, mkC(ex->w, 0)), m0 = mkEq(ma, mkC(mb, 0)), q = mkExtract(ma, mb - 1, 1), ns = mkNot(s);
      E nan = mkAnd(e1, mkNot(m0));
      E c[8] = {mkAnd(nan, q), mkAnd(ns, mkAnd(e0, m0)), mkAnd(s, mkAnd(e0, m0)), mkAnd(ns, mkAnd(e1, m0)), mkAnd(s, mkAnd(e1, m0)), mkAnd(e0, mkNot(m0)),
                mkAnd(s, mkAnd(mkNot(e1), mkNot(mkAnd(e0, m0)))), mkAnd(nan, mkNot(q))};
      E r = mkBool(false); for (int i = 0; i < 8; ++i) if (im >> i & 1) r = mkOr(r, c[i]);
      R.push_back(r);
    }
    return true;
  }
  auto cmpImm = [&](unsigned f, E a, E b, unsigned p) -> E {
    E u = fUno(f, a, b), lt = fOlt(f, a, b), gt = fOlt(f, b, a), eq = fOeq(f, a, b), r;
    switch (p & 7) { case 0: r = eq; break; case 1: r = lt; break; case 2: r = fOle(f, a, b); break; case 3: r = u; break; case 4: r = mkNot(eq); break; case 5: r = mkNot(lt); break; case 6: r = mkNot(fOle(f, a, b)); break; default: r = mkNot(u); }
    switch (p & 15) { case 8: r = mkOr(eq, u); break; case 9: r = mkOr(lt, u); break; case 10: r = mkNot(gt); break; case 11: r = mkBool(false); break; case 12: r = mkAnd(mkNot(eq), mkNot(u)); break; case 13: r = fOle(f, b, a); break; case 14: r = gt; break; case 15: r = mkBool(true); break; default: break; }
    return r;
  };
  if (op == "cmp" && A.size() >= 3 && cb.getArgOperand(0)->getType()->getScalarType()->isFloatingPointTy()) {
    unsigned f = fmtv(); unsigned p = imm(2); bool sc = suf == "ss" || suf == "sd"; bool i1 = rt->getScalarType()->isIntegerTy(1);
    Val m; if (masked || i1) m = maskBits(A[3], vl);
    for (unsigned i = 0; i < vl; ++i) { if (sc && i) { R.push_back(A[0][i]); continue; } E r = cmpImm(f, A[0][i], A[1][i], p); if (i1) R.push_back(m.empty() ? r : mkAnd(r, m[i])); else R.push_back(mkSExt(r, A[0][i]->w)); }
    return true;
  }
  // ---- float helpers
  if (op == "getexp") {
    unsigned f = fmtv(), w = fmtWidth(f), mb = fmtMant(f), eb = w - 1 - mb; int bias = (1 << (eb - 1)) - 1;
    for (E e : A[0]) {
      E ex = mkExtract(e, mb, eb), ma = mkExtract(e, 0, mb);
      E nrm = siToF(f, mkSub(mkZExt(ex, 32), mkC(32, bias)));
      E lz = mkCtlz(ma);  // subnormal: exponent = 1 - bias - (lz + 1)
      E sub = siToF(f, mkSub(mkCS(32, -bias), mkZExtOrTrunc(lz, 32)));
      E inf = mkShl(mkZExt(mkOnes(eb), w), mkC(w, mb)), ninf = mkOr(inf, mkConst(APInt::getSignedMinValue(w)));
      E qn = mkOr(e, mkConst(APInt::getOneBitSet(w, mb - 1)));
      R.push_back(ite(fIsNan(f, e), qn, ite(mkEq(ex, mkOnes(eb)), inf, ite(fIsZero(f, e), ninf, ite(mkEq(ex, mkC(eb, 0)), sub, nrm)))));
    }
    if (masked) R = applyMask(R, A[1], A[2], vl);
    return true;
  }
  if (op == "round" || op == "rndscale") {
    unsigned f = fmtv(); bool sc = suf == "ss" || suf == "sd" || suf == "sh";
    unsigned ii = sc ? 2 : 1; uint64_t im = imm(ii);
    if (im >> 4) return false;
    unsigned rm = rmOf(im, RNE);
    for (unsigned i = 0; i < vl; ++i) R.push_back(sc ? (i ? A[0][i] : fRint(f, A[1][0], rm)) : fRint(f, A[0][i], rm));
    if (op == "rndscale") { if (sc) { if (!isOnes(mkExtract(A[3][0], 0, 1))) return false; } else R = applyMask(R, A[2], A[3], vl); }
    return true;
  }
  if (op == "vcvtps2ph" || starts("vcvtps2ph")) {
    uint64_t im = imm(1); unsigned rm = rmOf(im, RNE); unsigned w = X.leafBits(rt->getScalarType());
    for (unsigned i = 0; i < on; ++i) R.push_back(i < vl ? fCvt(F32, F16, A[0][i], rm) : mkC(w, 0));
    if (masked) R = applyMask(R, A[2], A[3], vl);
    return true;
  }
  if (op == "vcvtph2ps" && A[0][0]->w == 16) { for (unsigned i = 0; i < on; ++i) R.push_back(fCvt(F16, F32, A[0][i])); if (masked) R = applyMask(R, A[1], A[2], on); return true; }
  if (starts("vcvtneps2bf16") || op == "cvtneps2bf16") { for (unsigned i = 0; i < on; ++i) R.push_back(i < vl ? neps2bf16(A[0][i]) : mkC(16, 0)); if (masked) R = applyMask(R, A[1], A[2], vl); return true; }
  if (op == "cvtne2ps2bf16") { for (E e : A[1]) R.push_back(neps2bf16(e)); for (E e : A[0]) R.push_back(neps2bf16(e)); return true; }
  if (op.find("cvt") != std::string::npos || base.compare(0, 4, "cvt.") == 0 || base.compare(0, 5, "cvtt.") == 0) {
    std::string m = op;
    if (op == "cvt" || op == "cvtt") { size_t dot = suf.find('.'); std::string q = suf.substr(0, dot); if (q.size() && q.back() == '2' && dot != std::string::npos) { std::string rest = suf.substr(dot + 1); q += rest.substr(0, rest.find('.')); } m = op + q; }  // avx.cvt.pd2dq.256
    bool tr; std::string s, d; if (!parseCvt(m, &tr, &s, &d)) return false;
    unsigned rm = RNE;
    if (masked && A.size() > 3) rm = rmOf(imm(3), RNE);
    else if (!masked && A.size() == 2 && A[1].size() == 1 && cb.getArgOperand(1)->getType()->isIntegerTy(32) && vl > 1) rm = rmOf(imm(1), RNE);
    if (on == 1 && vl > 1) { Val in{A[0][0]}; if (!rt->isVectorTy()) return doCvt(m + "", rm, in, 1, out); }
    unsigned sfm; Val in = A[0];
    (void)sfm;
    if (!doCvt(m, rm, in, on, out)) return false;
    if (masked) R = applyMask(R, A[1], A[2], std::min<unsigned>(vl, on));
    return true;
  }
  // ---- approximations: an arbitrary but fixed function of the input
  if (op.compare(0, 3, "rcp") == 0 || op.compare(0, 5, "rsqrt") == 0) {
    bool sc = has(".ss") || has(".sd") || has(".sh"); unsigned w = A[0][0]->w;
    std::string nm = "x86." + op + std::to_string(w);
    if (sc) { bool two = A.size() > 1; for (unsigned i = 0; i < vl; ++i) R.push_back(i ? A[0][i] : mkUF(nm, w, {two ? A[1][0] : A[0][0]})); if (A.size() > 3 && !isOnes(mkExtract(A[3][0], 0, 1))) return false; return true; }
    for (unsigned i = 0; i < vl; ++i) R.push_back(mkUF(nm, w, {A[0][i]}));
    if (A.size() >= 3) R = applyMask(R, A[1], A[2], vl);
    return true;
  }
  return false;
}

// ------------------------------------------------------------------ canonical hash of a goal
namespace {
struct Hasher {
  MD5 h; std::map<const Function*, unsigned> fn; std::vector<const Function*> order; std::map<const GlobalVariable*, unsigned> gv; std::vector<const GlobalVariable*> gorder;
  void s(StringRef x) { h.update(x); h.update(StringRef("|", 1)); }
  void n(uint64_t v) { h.update(ArrayRef<uint8_t>((const uint8_t*)&v, 8)); }
  void type(Type* t) {
    if (auto* st = dyn_cast<StructType>(t)) { s(st->isPacked() ? "<{" : "{"); for (Type* e : st->elements()) type(e); s("}"); return; }
    if (auto* at = dyn_cast<ArrayType>(t)) { s("["); n(at->getNumElements()); type(at->getElementType()); return; }
    if (auto* vt = dyn_cast<FixedVectorType>(t)) { s("<"); n(vt->getNumElements()); type(vt->getElementType()); return; }
    if (auto* ft = dyn_cast<FunctionType>(t)) { s("fn"); type(ft->getReturnType()); for (Type* p : ft->params()) type(p); return; }
    n(t->getTypeID()); if (t->isIntegerTy()) n(t->getIntegerBitWidth());
  }
  void constant(const Constant* c) {
    if (auto* f = dyn_cast<Function>(c)) { if (f->isDeclaration()) { s("D"); s(f->getName()); } else { s("F"); n(fid(f)); } return; }
    if (auto* g = dyn_cast<GlobalVariable>(c)) { s("G"); auto it = gv.find(g); if (it == gv.end()) { gv[g] = gorder.size(); n(gorder.size()); gorder.push_back(g); } else n(it->second); return; }
    if (auto* a = dyn_cast<GlobalAlias>(c)) { constant(a->getAliasee()); return; }
    type(c->getType());
    if (auto* ci = dyn_cast<ConstantInt>(c)) { s(toString(ci->getValue(), 16, false)); return; }
    if (auto* cf = dyn_cast<ConstantFP>(c)) { s(toString(cf->getValueAPF().bitcastToAPInt(), 16, false)); return; }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { s(cd->getRawDataValues()); return; }
    if (isa<PoisonValue>(c)) { s("P"); return; }
    if (isa<UndefValue>(c)) { s("U"); return; }
    if (isa<ConstantAggregateZero>(c)) { s("Z"); return; }
    if (isa<ConstantPointerNull>(c)) { s("N"); return; }
    n(c->getValueID());
    if (auto* ce = dyn_cast<ConstantExpr>(c)) { n(ce->getOpcode()); if (auto* g = dyn_cast<GEPOperator>(ce)) type(g->getSourceElementType()); }
    for (const Use& u : c->operands()) if (auto* k = dyn_cast<Constant>(u)) constant(k);
  }
  unsigned fid(const Function* f) { auto it = fn.find(f); if (it != fn.end()) return it->second; unsigned i = order.size(); fn[f] = i; order.push_back(f); return i; }
  void body(const Function* f) {
    std::map<const Value*, unsigned> num; unsigned k = 0;
    for (auto& a : f->args()) { num[&a] = k++; type(a.getType()); if (a.hasByValAttr()) { s("byval"); type(a.getParamByValType()); } }
    for (auto& b : *f) { num[&b] = k++; for (auto& i : b) num[&i] = k++; }
    for (auto& b : *f) for (auto& i : b) {
      if (auto* ii = dyn_cast<IntrinsicInst>(&i)) { auto id = ii->getIntrinsicID(); if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::assume) continue; }
      n(i.getOpcode()); type(i.getType()); n(num[&i]);
      if (auto* c = dyn_cast<CmpInst>(&i)) n(c->getPredicate());
      if (auto* l = dyn_cast<LoadInst>(&i)) n(l->getAlign().value());
      if (auto* l = dyn_cast<StoreInst>(&i)) n(l->getAlign().value());
      if (auto* l = dyn_cast<AllocaInst>(&i)) { type(l->getAllocatedType()); n(l->getAlign().value()); }
      if (auto* l = dyn_cast<GetElementPtrInst>(&i)) type(l->getSourceElementType());
      if (auto* l = dyn_cast<ShuffleVectorInst>(&i)) for (int m : l->getShuffleMask()) n(m);
      if (auto* l = dyn_cast<ExtractValueInst>(&i)) for (unsigned m : l->indices()) n(m);
      if (auto* l = dyn_cast<InsertValueInst>(&i)) for (unsigned m : l->indices()) n(m);
      if (auto* l = dyn_cast<AtomicRMWInst>(&i)) n(l->getOperation());
      if (auto* p = dyn_cast<PHINode>(&i)) for (unsigned x = 0; x < p->getNumIncomingValues(); ++x) n(num[p->getIncomingBlock(x)]);
      if (auto* cb = dyn_cast<CallBase>(&i)) if (auto* ia = dyn_cast<InlineAsm>(cb->getCalledOperand())) { s(ia->getAsmString()); s(ia->getConstraintString()); }
      for (const Use& u : i.operands()) {
        const Value* v = u.get();
        if (isa<InlineAsm>(v) || v->getType()->isMetadataTy()) continue;
        if (auto* c = dyn_cast<Constant>(v)) constant(c); else { s("v"); n(num[v]); }
      }
    }
  }
};
}  // namespace
std::string goalHash(Module& M, Function* f) {
  (void)M;
  Hasher H; H.fid(f); size_t fi = 0, gi = 0;
  while (fi < H.order.size() || gi < H.gorder.size()) {
    if (fi < H.order.size()) { H.s("fn"); H.body(H.order[fi++]); }
    else { const GlobalVariable* g = H.gorder[gi++]; H.s("gv"); H.type(g->getValueType()); H.n(g->isConstant()); H.n(g->getAlign() ? g->getAlign()->value() : 0); if (g->hasInitializer()) H.constant(g->getInitializer()); else H.s(g->getName()); }
  }
  MD5::MD5Result r; H.h.final(r);
  return std::string(r.digest().str());
}
}  // namespace vp
