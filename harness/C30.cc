// C30: images: row layout, padding, wrapping of external memory, moves, rectangles, mirroring.
#include <string.h>
#include <utility>
#include "hwy/aligned_allocator.cc"
#include "hwy/contrib/image/image.cc"
#include "../lib/vp.h"
using u8 = uint8_t; using u16 = uint16_t; using u32 = uint32_t; using u64 = uint64_t; using i64 = int64_t; using u128 = unsigned __int128; using f32 = float; using f64 = double;
static size_t gVectorBytes = 16;
namespace hwy { size_t VectorBytes() { return gVectorBytes; } }
using namespace hwy;
namespace {
static inline void Vec() { static const size_t V[5] = {16, 32, 64, 128, 1}; gVectorBytes = V[vp_choose(0, 4, "vector bytes")]; }
static inline size_t Max(size_t a, size_t b) { return a > b ? a : b; }
// what an image of this size must allow: aligned vectors from every sample of a row, unaligned ones ending at the last sample
template <class T> static inline void Rows(const Image<T>& im, size_t xs, size_t ys, T base) {
  const size_t v = gVectorBytes, lanes = v < sizeof(T) ? 1 : v / sizeof(T);
  for (size_t y = 0; y < ys; ++y) {
    T* row = im.MutableRow(y); vp_check((const T*)row == im.ConstRow(y), "const row"); vp_check((uintptr_t)row % 64 == 0 && (uintptr_t)row % v == 0, "row alignment");
    vp_check((u8*)row == im.bytes() + y * im.bytes_per_row(), "row address"); vp_check(row == im.ConstRow(0) + (intptr_t)y * im.PixelsPerRow(), "pixels per row");
    const size_t n = (xs + lanes - 1) / lanes * lanes, m = v == 1 ? xs : xs - 1 + lanes; for (size_t x = 0; x < Max(n, m); ++x) row[x] = (T)77; for (size_t x = 0; x < xs; ++x) row[x] = (T)(base + (T)(y * xs + x));
  }
}
template <class T> static inline void Pixels(const Image<T>& im, size_t xs, size_t ys, T base) { for (size_t y = 0; y < ys; ++y) { const T* row = im.ConstRow(y); for (size_t x = 0; x < xs; ++x) vp_check(row[x] == (T)(base + (T)(y * xs + x)), "pixel"); } }
static inline size_t Width() { static const size_t X[8] = {1, 2, 15, 16, 17, 33, 63, 64}; return X[vp_choose(0, 7, "width")]; }
template <class T> static inline void Alloc() {
  Vec(); const size_t xs = Width(), ys = vp_choose(1, 3, "height"); Image<T> im(xs, ys); vp_check(im.xsize() == xs && im.ysize() == ys, "size"); vp_check(im.bytes_per_row() == ImageBase::BytesPerRow(xs, sizeof(T)), "stride"); vp_check(im.bytes() != nullptr, "memory");
  im.InitializePaddingForUnalignedAccesses(); Rows(im, xs, ys, (T)1); Pixels(im, xs, ys, (T)1);
}
template <class T> static inline void Moves() {
  gVectorBytes = 32; const size_t xs = 5, ys = 2; Image<T> a(xs, ys), b(3, 3); Rows(a, xs, ys, (T)1); Rows(b, 3, 3, (T)50); const u8 *pa = a.bytes(), *pb = b.bytes(); const size_t sa = a.bytes_per_row();
  const u64 how = vp_choose(0, 5, "how");
  if (how == 0) { Image<T> c(std::move(a)); vp_check(c.bytes() == pa && c.xsize() == xs && c.ysize() == ys && c.bytes_per_row() == sa, "moved"); Pixels(c, xs, ys, (T)1); }
  else if (how == 1) { b = std::move(a); vp_check(b.bytes() == pa && b.xsize() == xs && b.ysize() == ys && b.bytes_per_row() == sa, "move-assigned"); Pixels(b, xs, ys, (T)1); }
  else if (how == 2) { a.Swap(b); vp_check(a.bytes() == pb && b.bytes() == pa && a.xsize() == 3 && a.ysize() == 3 && b.xsize() == xs && b.ysize() == ys, "swapped"); Pixels(b, xs, ys, (T)1); Pixels(a, 3, 3, (T)50); }
  else if (how == 3) { const size_t x2 = vp_choose(0, 5, "x"), y2 = vp_choose(0, 2, "y"); a.ShrinkTo(x2, y2); vp_check(a.xsize() == x2 && a.ysize() == y2 && a.bytes_per_row() == sa && a.bytes() == pa, "shrunk"); for (size_t y = 0; y < y2; ++y) for (size_t x = 0; x < x2; ++x) vp_check(a.ConstRow(y)[x] == (T)(1 + (T)(y * xs + x)), "pixel kept"); }
  else if (how == 4) { Image<T> c; c = std::move(a); Image<T> d; d.Swap(c); Pixels(d, xs, ys, (T)1); vp_check(c.xsize() == 0 && c.ysize() == 0 && c.bytes() == nullptr, "empty"); }
  else { Image<T> c(0, vp_choose(0, 3, "y")), d(vp_choose(0, 3, "x"), 0); vp_check(c.bytes() == nullptr && d.bytes() == nullptr && c.xsize() == 0 && d.ysize() == 0, "no pixels, no memory"); }
}
template <class T> static inline void Wrap() {
  Vec(); const size_t rows = vp_choose(1, 3, "rows"), st = gVectorBytes == 1 ? 64 : Max(gVectorBytes, 64) * vp_choose(1, 2, "stride"); u8* mem = (u8*)vp_alloc_at(st * rows, 128); 
  { Image<T> im(8 / sizeof(T), rows, st, mem); vp_check(im.bytes() == mem && im.bytes_per_row() == st && im.ysize() == rows, "wraps"); for (size_t y = 0; y < rows; ++y) vp_check((u8*)im.MutableRow(y) == mem + y * st, "row"); Image<T> o(std::move(im)); vp_check(o.bytes() == mem, "moved"); }
  vp_check(!vp_is_freed(mem), "external memory is not freed"); mem[0] = 1; vp_free(mem);
}
template <class T> static inline void Three() {
  gVectorBytes = 16; const size_t xs = vp_choose(1, 5, "x"), ys = vp_choose(1, 3, "y"); const u64 how = vp_choose(0, 3, "how"); Image3<T> im;
  if (how == 0) im = Image3<T>(xs, ys); else if (how == 1) { Image<T> a(xs, ys), b(xs, ys), c(xs, ys); const u8* p = b.bytes(); Image3<T> t(std::move(a), std::move(b), std::move(c)); vp_check(t.Plane(1).bytes() == p, "plane order"); im.Swap(t); vp_check(t.xsize() == 0, "swapped"); } else if (how == 2) { Image3<T> t(xs, ys); Image3<T> q(std::move(t)); im = std::move(q); } else { im = Image3<T>(xs + 2, ys + 1); im.ShrinkTo(xs, ys); }
  vp_check(im.xsize() == xs && im.ysize() == ys, "size");
  for (size_t c = 0; c < 3; ++c) { vp_check(im.Plane(c).xsize() == xs && im.Plane(c).ysize() == ys, "plane size"); for (size_t y = 0; y < ys; ++y) { vp_check(im.MutablePlaneRow(c, y) == im.Plane(c).MutableRow(y) && (const T*)im.MutablePlaneRow(c, y) == im.ConstPlaneRow(c, y), "plane row"); for (size_t x = 0; x < xs; ++x) im.MutablePlaneRow(c, y)[x] = (T)(c * 40 + y * 8 + x); } }
  const Rect r(im); for (size_t c = 0; c < 3; ++c) for (size_t y = 0; y < ys; ++y) for (size_t x = 0; x < xs; ++x) vp_check(r.ConstPlaneRow(im, c, y)[x] == (T)(c * 40 + y * 8 + x), "planes are distinct");
}
}
// for every width: the stride holds the row, its aligned and its unaligned vectors, and is not a multiple of 2 KiB
template <class T> static inline void Stride() {
  Vec(); const u64 x = vp_range(1, 0xFFFFFFFFull, "xsize"); const size_t b = ImageBase::BytesPerRow(x, sizeof(T)), v = gVectorBytes, a = Max(v, HWY_ALIGNMENT);
  vp_check(b % a == 0, "multiple of vector and cache line"); vp_check(b >= x * sizeof(T), "row fits"); if (v != 1) { vp_check(b >= (x * sizeof(T) + v - 1) / v * v, "aligned vectors fit"); vp_check(b >= x * sizeof(T) - sizeof(T) + v, "unaligned vectors fit"); }
  vp_check(b % 2048 != 0, "not a multiple of 2 KiB"); vp_check(b < x * sizeof(T) + v + 2 * a, "no more than that");
}
VP_GOAL(Stride1) { Stride<u8>(); }
VP_GOAL(Stride2) { Stride<u16>(); }
VP_GOAL(Stride4) { Stride<f32>(); }
VP_GOAL(Stride8) { Stride<f64>(); }
VP_GOAL(Alloc_u8) { Alloc<u8>(); }
VP_GOAL(Alloc_u16) { Alloc<u16>(); }
VP_GOAL(Alloc_u32) { Alloc<u32>(); }
VP_GOAL(Alloc_u64) { Alloc<u64>(); }
VP_GOAL(Moves_u8) { Moves<u8>(); }
VP_GOAL(Moves_u32) { Moves<u32>(); }
VP_GOAL(Wrap_u8) { Wrap<u8>(); }
VP_GOAL(Wrap_u32) { Wrap<u32>(); }
VP_GOAL(WrapMisaligned) { gVectorBytes = 64; u8* mem = (u8*)vp_alloc_at(512, 128); { Image<u8> ok(3, 2, 128, mem); vp_check(ok.bytes() == mem, "aligned"); } vp_expect_abort(1); const u64 how = vp_choose(0, 1, "how"); if (how) { Image<u8> im(3, 2, 96, mem); } else { Image<u8> im(3, 2, 128, mem + 32); } vp_check(0, "accepted"); }
VP_GOAL(Three_u8) { Three<u8>(); }
VP_GOAL(Three_u32) { Three<u32>(); }
VP_GOAL(ThreeSizes) { gVectorBytes = 16; const size_t x[3] = {vp_choose(1, 2, "x0"), vp_choose(1, 2, "x1"), vp_choose(1, 2, "x2")}, y[3] = {vp_choose(1, 2, "y0"), vp_choose(1, 2, "y1"), vp_choose(1, 2, "y2")}; Image<u8> a(x[0], y[0]), b(x[1], y[1]), c(x[2], y[2]);
  const bool same = x[0] == x[1] && x[1] == x[2] && y[0] == y[1] && y[1] == y[2]; vp_check(SameSize(a, b) == (x[0] == x[1] && y[0] == y[1]), "SameSize"); if (!same) vp_expect_abort(1); Image3<u8> im(std::move(a), std::move(b), std::move(c)); vp_check(same, "different sizes accepted"); }
// rectangles: coordinates below 2^60, so that sums do not wrap
static inline u64 Co(const char* n) { return vp_sym_u64(n) >> 4; }
VP_GOAL(RectClamp) { const u64 xb = Co("xbegin"), yb = Co("ybegin"), xm = Co("xmax"), ym = Co("ymax"), xe = Co("xend"), ye = Co("yend"); const Rect r(xb, yb, xm, ym, xe, ye);
  const u64 lx = xe > xb ? xe - xb : 0, ly = ye > yb ? ye - yb : 0; vp_check(r.x0() == xb && r.y0() == yb, "origin"); vp_check(r.xsize() == (xm < lx ? xm : lx), "xsize"); vp_check(r.ysize() == (ym < ly ? ym : ly), "ysize"); }
VP_GOAL(Subrect) { const u64 x0 = Co("x0"), y0 = Co("y0"), xs = Co("xs"), ys = Co("ys"), xb = Co("xbegin"), yb = Co("ybegin"), xm = Co("xmax"), ym = Co("ymax"); Rect r(x0, y0, xs, ys); const Rect s = r.Subrect(xb, yb, xm, ym);
  const u64 lx = xb < xs ? xs - xb : 0, ly = yb < ys ? ys - yb : 0; vp_check(s.x0() == x0 + xb, "origin x"); vp_check(s.y0() == y0 + yb, "origin y"); vp_check(s.xsize() == (xm < lx ? xm : lx), "clamped x"); vp_check(s.ysize() == (ym < ly ? ym : ly), "clamped y"); }
VP_GOAL(RectInside) { struct Sz { size_t x, y; size_t xsize() const { return x; } size_t ysize() const { return y; } }; const u64 x0 = Co("x0"), y0 = Co("y0"), xs = Co("xs"), ys = Co("ys"); const Sz im{Co("iw"), Co("ih")}; const Rect r(x0, y0, xs, ys);
  vp_check(r.IsInside(im) == (x0 + xs <= im.x && y0 + ys <= im.y), "IsInside"); const Rect w(im); vp_check(w.x0() == 0 && w.y0() == 0 && w.xsize() == im.x && w.ysize() == im.y && w.IsInside(im), "whole image"); vp_check(SameSize(r, w) == (xs == im.x && ys == im.y), "SameSize"); }
VP_GOAL(RectRows) { gVectorBytes = 16; Image<u16> im(9, 4); Image3<u16> i3(9, 4); const u64 x0 = vp_range(0, 8, "x0"), y0 = vp_choose(0, 3, "y0"), y = vp_choose(0, 3 - y0, "y"), c = vp_choose(0, 2, "c"); const Rect r(x0, y0, 1, 1);
  vp_check(r.ConstRow(&im, y) == im.ConstRow(y0 + y) + x0 && r.MutableRow(&im, y) == im.MutableRow(y0 + y) + x0, "row"); vp_check(r.ConstPlaneRow(i3, c, y) == i3.ConstPlaneRow(c, y0 + y) + x0 && r.MutablePlaneRow(&i3, c, y) == i3.MutablePlaneRow(c, y0 + y) + x0, "plane row"); }
// coordinates up to two image sizes outside
VP_GOAL(Mirror) { const i64 n = (i64)vp_range(1, 1ull << 40, "size"), k = (i64)vp_choose(0, 4, "period") - 2; const i64 o = (i64)vp_range(0, (1ull << 40) - 1, "offset"); vp_assume(o < n); const i64 x = k * n + o; const size_t m = Mirror(x, n); vp_check(m < (size_t)n, "inside"); vp_check(m == (size_t)((k & 1) ? n - 1 - o : o), "mirrored");
  vp_check(WrapMirror()(x, (size_t)n) == m, "WrapMirror"); vp_check(WrapUnchanged()(o, (size_t)n) == (size_t)o, "WrapUnchanged"); }
VP_GOAL(RowMirror) { gVectorBytes = 16; const size_t ys = vp_choose(1, 4, "height"); Image<f32> im(3, ys); const i64 st = im.PixelsPerRow(); const WrapRowMirror w(im, ys); const i64 y = (i64)vp_choose(0, 3 * ys - 1, "row") - (i64)ys, k = y < 0 ? -1 - y : y >= (i64)ys ? 2 * (i64)ys - 1 - y : y;
  vp_check(w(im.ConstRow(0) + y * st, st) == im.ConstRow((size_t)k), "mirrored row"); vp_check(WrapRowUnchanged()(im.ConstRow(0), st) == im.ConstRow(0), "unchanged"); }
