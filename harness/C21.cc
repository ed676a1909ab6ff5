// C21: contrib/bit_pack. Pack then Unpack returns the input; Unpack then Pack returns the packed bits; exactly kBits vectors are stored.
#ifndef VP_DEEP
#define VP_DEEP 0
#endif
#include "../lib/vec.h"
#include "hwy/contrib/bit_pack/bit_pack-inl.h"
namespace { namespace H {
template <class T> struct Mem { T* p; size_t n; Mem(size_t k, const char* name) : n(k) { p = (T*)vp_alloc(k * sizeof(T), sizeof(T)); vp_sym(p, k, sizeof(T), name); } ~Mem() { vp_free(p); } };
template <template <size_t> class P, size_t K, size_t B, class D> static inline void Both(D d) {
  using T = TFromD<D>; constexpr size_t N = MaxLanes(D()); const T mask = (T)(K == B ? (T)~(T)0 : (T)(((T)1 << (K % B)) - 1)); const P<K> f;
  { Mem<T> raw(N * B, "raw"), packed(N * K, "packed"), out(N * B, "out"); T w[N * B]; for (size_t i = 0; i < N * B; ++i) { raw.p[i] = (T)(raw.p[i] & mask); w[i] = raw.p[i]; } f.Pack(d, raw.p, packed.p); VpCheckBits(raw.p, w, N * B, "raw unchanged"); f.Unpack(d, packed.p, out.p); VpCheckBits(out.p, w, N * B, "Unpack(Pack(raw))"); }
  { Mem<T> packed(N * K, "packed"), raw(N * B, "raw"), out(N * K, "out"); T w[N * K]; for (size_t i = 0; i < N * K; ++i) w[i] = packed.p[i]; f.Unpack(d, packed.p, raw.p); VpCheckBits(packed.p, w, N * K, "packed unchanged"); bool ok = true; for (size_t i = 0; i < N * B; ++i) ok &= (T)(raw.p[i] & (T)~mask) == 0; vp_check(ok, "raw below 2^kBits"); f.Pack(d, raw.p, out.p); VpCheckBits(out.p, w, N * K, "Pack(Unpack(packed))"); }
}
#if VP_DEEP
#define SIZES VpSizes
#else
#define SIZES VpWide
#endif
template <size_t K> static inline void P8() { SIZES<u8>([](auto d) __attribute__((always_inline)) { if constexpr (MaxLanes(decltype(d)()) >= 2) Both<Pack8, K, 8>(d); }); }
template <size_t K> static inline void P16() { SIZES<u16>([](auto d) __attribute__((always_inline)) { Both<Pack16, K, 16>(d); }); }
template <size_t K> static inline void P32() { Both<Pack32, K, 32>(CappedTag<u32, VP_DEEP ? 64 : 4>()); }
template <size_t K> static inline void P64() { Both<Pack64, K, 64>(CappedTag<u64, VP_DEEP ? 64 : 2>()); }
// frame of reference: values in [ref, ref + 2^kBits)
template <template <size_t> class P, size_t K, size_t B, class D> static inline void FoR(D d) {
  using T = TFromD<D>; constexpr size_t N = MaxLanes(D()); const T mask = (T)(K == B ? (T)~(T)0 : (T)(((T)1 << (K % B)) - 1)); const P<K> f; T ref; vp_sym(&ref, 1, sizeof ref, "reference");
  Mem<T> raw(N * B, "raw"), packed(N * K, "packed"), out(N * B, "out"); T w[N * B]; for (size_t i = 0; i < N * B; ++i) { raw.p[i] = (T)(ref + (raw.p[i] & mask)); w[i] = raw.p[i]; }
  f.template Pack<D, BlockPackingType::kFoRBitPacked>(d, raw.p, packed.p, ref); f.template Unpack<D, BlockPackingType::kFoRBitPacked>(d, packed.p, out.p, ref); VpCheckBits(out.p, w, N * B, "frame of reference"); }
template <size_t K> static inline void F32() { FoR<Pack32, K, 32>(CappedTag<u32, 1>()); }
template <size_t K> static inline void F64() { FoR<Pack64, K, 64>(CappedTag<u64, 1>()); }
} }
#define P8(K) VP_GOAL(Pack8_##K) { H::P8<K>(); }
#define P16(K) VP_GOAL(Pack16_##K) { H::P16<K>(); }
#if HWY_TARGET != HWY_SCALAR
P8(1) P8(2) P8(3) P8(4) P8(5) P8(6) P8(7) P8(8)
#endif
P16(1) P16(2) P16(3) P16(4) P16(5) P16(6) P16(7) P16(8) P16(9) P16(10) P16(11) P16(12) P16(13) P16(14) P16(15) P16(16)
#define P32(K) VP_GOAL(Pack32_##K) { H::P32<K>(); H::F32<K>(); }
#define P64(K) VP_GOAL(Pack64_##K) { H::P64<K>(); H::F64<K>(); }
P32(1) P32(2) P32(3) P32(4) P32(5) P32(6) P32(7) P32(8) P32(9) P32(10) P32(11) P32(12) P32(13) P32(14) P32(15) P32(16) P32(17) P32(18) P32(19) P32(20) P32(21) P32(22) P32(23) P32(24) P32(25) P32(26) P32(27) P32(28) P32(29) P32(30) P32(31) P32(32)
P64(1) P64(2) P64(3) P64(5) P64(7) P64(8) P64(12) P64(16) P64(21) P64(24) P64(31) P64(32) P64(33) P64(40) P64(48) P64(57) P64(63) P64(64)
#if VP_DEEP
P64(4) P64(6) P64(9) P64(10) P64(11) P64(13) P64(14) P64(15) P64(17) P64(18) P64(19) P64(20) P64(22) P64(23) P64(25) P64(26) P64(27) P64(28) P64(29) P64(30) P64(34) P64(35) P64(36) P64(37) P64(38) P64(39) P64(41) P64(42) P64(43) P64(44) P64(45) P64(46) P64(47) P64(49) P64(50) P64(51) P64(52) P64(53) P64(54) P64(55) P64(56) P64(58) P64(59) P64(60) P64(61) P64(62)
#endif
