// C17: AES rounds (FIPS-197) and carry-less multiplication.
#include "../lib/vec.h"
namespace { namespace H {
#if HWY_TARGET != HWY_SCALAR
// S-box from its definition: inverse in GF(2^8) mod x^8+x^4+x^3+x+1, then the affine map.
constexpr unsigned Xt(unsigned a) { return ((a << 1) ^ ((a >> 7) * 0x11B)) & 0xFF; }
constexpr unsigned GMul(unsigned a, unsigned b) { unsigned r = 0; for (int i = 0; i < 8; ++i) { if (b >> i & 1) r ^= a; a = Xt(a); } return r; }
struct Tables { u8 s[256], inv[256]; constexpr Tables() : s(), inv() { unsigned ex[256] = {}, lg[256] = {}; for (unsigned i = 0, p = 1; i < 255; ++i, p ^= Xt(p)) { ex[i] = p; lg[p] = i; } for (unsigned x = 0; x < 256; ++x) { unsigned v = x ? ex[(255 - lg[x]) % 255] : 0; unsigned y = 0; for (int i = 0; i < 8; ++i) { unsigned bit = (v >> i ^ v >> ((i + 4) & 7) ^ v >> ((i + 5) & 7) ^ v >> ((i + 6) & 7) ^ v >> ((i + 7) & 7) ^ 0x63 >> i) & 1; y |= bit << i; } s[x] = (u8)y; inv[y] = (u8)x; } } };
constexpr Tables kT;
static_assert(GMul(0x53, 0xCA) == 1 && kT.s[0] == 0x63 && kT.s[0x53] == 0xED && kT.inv[0xED] == 0x53, "FIPS-197 examples");
static inline u8 X2(u8 a) { return (u8)((a << 1) ^ ((a >> 7) * 0x1B)); }
template <int K> static inline u8 MulK(u8 a) { u8 r = 0, p = a; for (int i = 0; i < 4; ++i) { if (K >> i & 1) r ^= p; p = X2(p); } return r; }
// state: column-major, byte r + 4c is row r of column c
static inline void ShiftR(const u8* in, u8* out) { for (int c = 0; c < 4; ++c) for (int r = 0; r < 4; ++r) out[r + 4 * c] = in[r + 4 * ((c + r) & 3)]; }
static inline void InvShiftR(const u8* in, u8* out) { for (int c = 0; c < 4; ++c) for (int r = 0; r < 4; ++r) out[r + 4 * ((c + r) & 3)] = in[r + 4 * c]; }
template <int A, int B, int C, int E> static inline void Mix(const u8* in, u8* out) { for (int c = 0; c < 4; ++c) for (int r = 0; r < 4; ++r) { const u8* q = in + 4 * c; out[r + 4 * c] = (u8)(MulK<A>(q[r]) ^ MulK<B>(q[(r + 1) & 3]) ^ MulK<C>(q[(r + 2) & 3]) ^ MulK<E>(q[(r + 3) & 3])); } }
static inline void Sub(u8* x) { for (int i = 0; i < 16; ++i) x[i] = kT.s[x[i]]; }
static inline void InvSub(u8* x) { for (int i = 0; i < 16; ++i) x[i] = kT.inv[x[i]]; }
#define AES(NAME, EXPR, BLOCK) template <class D> static inline void NAME(D d) { (void)d; constexpr size_t N = MaxLanes(D()); if constexpr (N >= 16) { VpB<D> S, K, G; u8 W[N]; S.sym("state"); K.sym("key"); auto s = S.load(); auto k = K.load(); (void)k; G.store(EXPR); for (size_t o = 0; o < N; o += 16) { u8 x[16], y[16]; CopyBytes<16>(S.v + o, x); const u8* key = K.v + o; (void)key; BLOCK CopyBytes<16>(x, W + o); } VpCheckBits(G.v, W, N, #NAME); } } VP_TYPE_GOAL(NAME, u8)
#define KEY for (int i = 0; i < 16; ++i) x[i] ^= key[i];
AES(Round, hn::AESRound(s, k), Sub(x); ShiftR(x, y); (Mix<2, 3, 1, 1>(y, x)); KEY)
AES(LastRound, hn::AESLastRound(s, k), Sub(x); ShiftR(x, y); CopyBytes<16>(y, x); KEY)
AES(RoundInv, hn::AESRoundInv(s, k), InvShiftR(x, y); InvSub(y); (Mix<14, 11, 13, 9>(y, x)); KEY)
AES(LastRoundInv, hn::AESLastRoundInv(s, k), InvShiftR(x, y); InvSub(y); CopyBytes<16>(y, x); KEY)
AES(InvMix, hn::AESInvMixColumns(s), (Mix<14, 11, 13, 9>(x, y)); CopyBytes<16>(y, x);)
template <class D> static inline void KeyGen(D d) { (void)d; constexpr size_t N = MaxLanes(D()); if constexpr (N >= 16) { VpB<D> S, G; u8 W[N]; S.sym("v"); auto s = S.load(); 
  VpUpTo<11>([&](auto kk) __attribute__((always_inline)) { constexpr u8 R[11] = {0, 1, 2, 4, 8, 16, 32, 64, 0x80, 0x1B, 0xFF}; constexpr u8 rc = R[decltype(kk)::value]; G.store(hn::AESKeyGenAssist<rc>(s)); for (size_t o = 0; o < N; o += 16) { constexpr int id[16] = {4, 5, 6, 7, 5, 6, 7, 4, 12, 13, 14, 15, 13, 14, 15, 12}; for (int i = 0; i < 16; ++i) W[o + i] = (u8)(kT.s[S.v[o + id[i]]] ^ ((i == 4 || i == 12) ? rc : 0)); } VpCheckBits(G.v, W, N, "AESKeyGenAssist"); }); } }
VP_TYPE_GOAL(KeyGen, u8)
static inline void Clmul(u64 a, u64 b, u64* lo, u64* hi) { u64 l = 0, h = 0; for (int i = 0; i < 64; ++i) { u64 m = 0 - (b >> i & 1); l ^= (a << i) & m; if (i) h ^= (a >> (64 - i)) & m; } *lo = l; *hi = h; }
template <class D> static inline void Carryless(D d) { (void)d; constexpr size_t N = MaxLanes(D()); if constexpr (N >= 2) { VpB<D> A, B, L, U; A.sym("a"); B.sym("b"); L.store(hn::CLMulLower(A.load(), B.load())); U.store(hn::CLMulUpper(A.load(), B.load()));
  for (size_t i = 0; i < N; i += 2) for (int u = 0; u < 2; ++u) { u64 w[2]; Clmul(A.v[i + u], B.v[i + u], &w[0], &w[1]); const u64* g = (u ? U.v : L.v) + i; for (int h = 0; h < 2; ++h) for (int p = 0; p < 64; p += 1) { u8 x = (u8)(g[h] >> p & 1), y = (u8)(w[h] >> p & 1); vp_check_eq(&x, &y, 1, 1, u ? "CLMulUpper" : "CLMulLower"); } } } }
VP_TYPE_GOAL(Carryless, u64)
#endif
} }
