// Slices, sections, subrasters, comparison and wrapping of rasters, with symbolic shapes, positions and pixels.
#include "plain_std.h"
#include "LitlRaster/Raster.h"
#include "LitlRaster/Subraster.h"
#include "litl_obl.h"
using namespace Litl;
#define CM ,
#define LP const long* __restrict
constexpr long BIG = 100000;
template <Index N>
INL Position<N> mk(const long* p, int n) {
  Position<N> o(n);
  for (int i = 0; i < n; ++i) o[i] = p[i];
  return o;
}
INL long offset(const long* s, const long* p, int n) {
  long o = 0, st = 1;
  for (int i = 0; i < n; ++i) {
    o += p[i] * st;
    st *= s[i];
  }
  return o;
}
template <typename R>
INL void shape_of(const R& r, const long* s, int n) {
  EQI("dimension of the view", r.dimension(), n);
  for (int i = 0; i < n; ++i) EQI("shape of the view", r.shape()[i], s[i]);
}

// --- sections
template <typename R, Index N>
INL void section1(R& r, const long* s, long index, LP q, int n) {
  NOTHROW("sections do not throw");
  auto v = r.section(index);
  shape_of(v, s, n - 1);
  long p[6];
  for (int i = 0; i < n; ++i) p[i] = i < n - 1 ? 0 : index;
  EQP("first pixel of the section", v.data(), r.data() + offset(s, p, n));
  for (int i = 0; i < n - 1; ++i) p[i] = q[i];
  constexpr Index M = N == -1 ? -1 : N - 1;
  EQP("pixel of the section", &v[mk<M>(q, n - 1)], r.data() + offset(s, p, n));
}
template <typename R, Index N>
INL void section2(R& r, const long* s, long front, long back, LP q, int n) {
  // an inverted section has no valid shape
  ASSUME(front <= back);
  auto v = r.section(front, back);
  long t[6], p[6];
  for (int i = 0; i < n; ++i) t[i] = i < n - 1 ? s[i] : back - front + 1;
  for (int i = 0; i < n; ++i) p[i] = i < n - 1 ? q[i] : q[i] + front;
  shape_of(v, t, n);
  EQP("pixel of the thick section", &v[mk<N>(q, n)], r.data() + offset(s, p, n));
}
#define SEC(T, U, N, D) \
  H h_sec_##T##N##D(U* d, LP s, LP q, long i) { PtrRaster<U, N> r(mk<N>(s, D), d); section1<PtrRaster<U, N>, N>(r, s, i, q, D); } \
  H h_secc_##T##N##D(U* d, LP s, LP q, long i) { const PtrRaster<U, N> r(mk<N>(s, D), d); section1<const PtrRaster<U, N>, N>(r, s, i, q, D); } \
  H h_sek_##T##N##D(U* d, LP s, LP q, long i, long j) { PtrRaster<U, N> r(mk<N>(s, D), d); section2<PtrRaster<U, N>, N>(r, s, i, j, q, D); } \
  H h_sekc_##T##N##D(U* d, LP s, LP q, long i, long j) { const PtrRaster<U, N> r(mk<N>(s, D), d); section2<const PtrRaster<U, N>, N>(r, s, i, j, q, D); }
#define _1 -1
SEC(i, int, 2, 2) SEC(i, int, 3, 3) SEC(u, unsigned char, 4, 4) SEC(i, int, 5, 5)
#define SECD(D) \
  H h_sec_d##D(int* d, LP s, LP q, long i) { PtrRaster<int, -1> r(mk<-1>(s, D), d); section1<PtrRaster<int, -1>, -1>(r, s, i, q, D); } \
  H h_secc_d##D(int* d, LP s, LP q, long i) { const PtrRaster<int, -1> r(mk<-1>(s, D), d); section1<const PtrRaster<int, -1>, -1>(r, s, i, q, D); } \
  H h_sek_d##D(int* d, LP s, LP q, long i, long j) { PtrRaster<int, -1> r(mk<-1>(s, D), d); section2<PtrRaster<int, -1>, -1>(r, s, i, j, q, D); } \
  H h_sekc_d##D(int* d, LP s, LP q, long i, long j) { const PtrRaster<int, -1> r(mk<-1>(s, D), d); section2<const PtrRaster<int, -1>, -1>(r, s, i, j, q, D); }
SECD(2) SECD(3) SECD(5)
H h_sec_vec(VecRaster<float, 3>& r, LP q, long i) { const long s[] = {r.shape()[0], r.shape()[1], r.shape()[2]}; section1<VecRaster<float, 3>, 3>(r, s, i, q, 3); }
H h_secc_vec(const VecRaster<float, 3>& r, LP q, long i) { const long s[] = {r.shape()[0], r.shape()[1], r.shape()[2]}; section1<const VecRaster<float, 3>, 3>(r, s, i, q, 3); }

// --- slices: dimension M of a raster of dimension n. Axes before M - 1 are spanned, axes from M are flat.
template <typename R, Index N, Index M>
INL void slicing(R& r, const long* s, LP f0, LP b0, LP q, int n) {
  long f[6], b[6], t[6], p[6];
  for (int i = 0; i < n; ++i) {
    ASSUME(s[i] > 0);
    ASSUME(s[i] < BIG);
    f[i] = i < M - 1 ? 0 : f0[i];
    b[i] = i < M - 1 ? s[i] - 1 : i >= M ? f[i] : b0[i];
    p[i] = i < M ? f[i] + q[i] : f[i];
  }
  ASSUME(f[M - 1] <= b[M - 1]);
  for (int i = 0; i < M; ++i) t[i] = i < M - 1 ? s[i] : b[i] - f[i] + 1;
  const Box<N> box(mk<N>(f, n), mk<N>(b, n));
  NOTHROW("slicing a contiguous region does not throw");
  REQ("the region is contiguous", r.template isContiguous<M>(box));
  auto v = r.template slice<M>(box);
  shape_of(v, t, M);
  EQP("first pixel of the slice", v.data(), r.data() + offset(s, f, n));
  EQP("pixel of the slice", &v[mk<M>(q, M)], r.data() + offset(s, p, n));
}
// what: 0: front of a spanned axis, 1: back of a spanned axis, 2: thickness of a flat axis
template <typename R, Index N, Index M>
INL void noslice(R& r, const long* s, LP f, LP b, int n, int axis, int what) {
  for (int i = 0; i < n; ++i) {
    ASSUME(s[i] > 0);
    ASSUME(s[i] < BIG);
    ASSUME(f[i] >= 0);
    ASSUME(b[i] >= f[i]);
    ASSUME(b[i] < s[i]);
  }
  if (what == 0) ASSUME(f[axis] > 0);
  if (what == 1) ASSUME(b[axis] < s[axis] - 1);
  if (what == 2) ASSUME(b[axis] > f[axis]);
  const Box<N> box(mk<N>(f, n), mk<N>(b, n));
  REQ("the region is not contiguous", !r.template isContiguous<M>(box));
  THROWS_ONLY("not contiguous", "Litl::Exception");
  MUST_THROW("slicing a region which is not contiguous throws", r.template slice<M>(box));
}
#define SL(T, N, D, M) \
  H h_sl_##T##D##M(int* d, LP s, LP f, LP b, LP q) { PtrRaster<int, N> r(mk<N>(s, D), d); slicing<PtrRaster<int, N>, N, M>(r, s, f, b, q, D); } \
  H h_slc_##T##D##M(int* d, LP s, LP f, LP b, LP q) { const PtrRaster<int, N> r(mk<N>(s, D), d); slicing<const PtrRaster<int, N>, N, M>(r, s, f, b, q, D); }
SL(f, 1, 1, 1) SL(f, 2, 2, 1) SL(f, 2, 2, 2) SL(f, 3, 3, 1) SL(f, 3, 3, 2) SL(f, 3, 3, 3) SL(f, 4, 4, 2) SL(f, 5, 5, 1) SL(f, 5, 5, 3) SL(f, 5, 5, 5) SL(d, -1, 5, 4) SL(d, -1, 2, 1) SL(d, -1, 2, 2) SL(d, -1, 3, 2)
#define NS(T, N, D, M, A, W) \
  H h_x_sl_##T##D##M##_##A##W(int* d, LP s, LP f, LP b) { PtrRaster<int, N> r(mk<N>(s, D), d); noslice<PtrRaster<int, N>, N, M>(r, s, f, b, D, A, W); } \
  H h_x_slc_##T##D##M##_##A##W(int* d, LP s, LP f, LP b) { const PtrRaster<int, N> r(mk<N>(s, D), d); noslice<const PtrRaster<int, N>, N, M>(r, s, f, b, D, A, W); }
NS(f, 2, 2, 1, 1, 2) NS(f, 2, 2, 2, 0, 0) NS(f, 2, 2, 2, 0, 1)
NS(f, 3, 3, 1, 1, 2) NS(f, 3, 3, 1, 2, 2) NS(f, 3, 3, 2, 0, 0) NS(f, 3, 3, 2, 0, 1) NS(f, 3, 3, 2, 2, 2)
NS(f, 3, 3, 3, 0, 0) NS(f, 3, 3, 3, 0, 1) NS(f, 3, 3, 3, 1, 0) NS(f, 3, 3, 3, 1, 1)
NS(f, 5, 5, 5, 3, 0) NS(f, 5, 5, 5, 3, 1) NS(f, 5, 5, 1, 4, 2) NS(f, 5, 5, 2, 4, 2) NS(d, -1, 5, 3, 4, 2) NS(d, -1, 3, 2, 0, 0) NS(d, -1, 3, 2, 0, 1) NS(d, -1, 3, 2, 2, 2)

// --- subrasters
template <typename R, Index N>
INL void sub(R& r, const long* s, LP f, LP b, LP q, int n) {
  const Box<N> box(mk<N>(f, n), mk<N>(b, n));
  NOTHROW("subrasters do not throw");
  auto v = r.subraster(box);
  const auto& c = v;
  long p[6];
  for (int i = 0; i < n; ++i) {
    EQI("shape of the subraster", v.shape()[i], b[i] - f[i] + 1);
    EQI("front of the region", v.region().front()[i], f[i]);
    EQI("back of the region", v.region().back()[i], b[i]);
    p[i] = f[i] + q[i];
  }
  EQI("size of the subraster", v.size(), box.size());
  EQP("pixel of the subraster", &v[mk<N>(q, n)], r.data() + offset(s, p, n));
  EQP("pixel of the read-only subraster", &c[mk<N>(q, n)], r.data() + offset(s, p, n));
  EQP("parent of the subraster", &v.raster(), &r);
  EQP("parent of the read-only subraster", &c.raster(), &r);
}
#define SUB(T, N, D) \
  H h_sub_##T##D(int* d, LP s, LP f, LP b, LP q) { PtrRaster<int, N> r(mk<N>(s, D), d); sub<PtrRaster<int, N>, N>(r, s, f, b, q, D); } \
  H h_subc_##T##D(int* d, LP s, LP f, LP b, LP q) { const PtrRaster<int, N> r(mk<N>(s, D), d); sub<const PtrRaster<int, N>, N>(r, s, f, b, q, D); }
SUB(f, 1, 1) SUB(f, 2, 2) SUB(f, 3, 3) SUB(f, 4, 4) SUB(f, 5, 5) SUB(d, -1, 5) SUB(d, -1, 2) SUB(d, -1, 3)
// Iteration: every shape of few pixels, anywhere in any parent
template <Index N, bool Const, typename R>
INL void walk(R& r, const long* s, LP f, const long* l, int n) { // products of four lengths are not compared
  long b[6], p[6];
  for (int i = 0; i < n; ++i) {
    b[i] = f[i] + l[i] - 1;
    ASSUME(s[i] >= l[i]); // implied, as all factors of a product need a constant bound
    ASSUME(s[i] < BIG);
    ASSUME(f[i] >= 0);
    ASSUME(b[i] < s[i]);
  }
  auto v = r.subraster(Box<N>(mk<N>(f, n), mk<N>(b, n)));
  typename std::conditional<Const, const decltype(v)&, decltype(v)&>::type c = v;
  auto it = begin(c);
  auto jt = begin(c);
  const auto stop = end(c);
  long q[6] = {0, 0, 0, 0, 0, 0};
  for (q[4] = 0; q[4] < (n > 4 ? l[4] : 1); ++q[4])
  for (q[3] = 0; q[3] < (n > 3 ? l[3] : 1); ++q[3])
    for (q[2] = 0; q[2] < (n > 2 ? l[2] : 1); ++q[2])
      for (q[1] = 0; q[1] < (n > 1 ? l[1] : 1); ++q[1])
        for (q[0] = 0; q[0] < l[0]; ++q[0]) {
          for (int i = 0; i < n; ++i) p[i] = f[i] + q[i];
          const auto* e = r.data() + offset(s, p, n);
          if (n < 4) REQ("the end is not reached before the last pixel", it != stop && !(it == stop));
          EQP("pixel visited", &*it, e);
          EQP("pixel visited (arrow)", it.operator->(), e);
          REQ("iterators at the same pixel are equal", it == jt && !(it != jt));
          const auto prev = jt++;
          EQP("pixel visited before the post-increment", &*prev, e);
          if (n < 4) REQ("an iterator is different from the incremented one", it != jt && !(it == jt));
          ++it;
        }
  REQ("the end is reached after the last pixel", it == stop && !(it != stop));
}
template <Index N>
INL void walks(int* d, LP s, LP f, int a, int b, int c, int n, bool cst, int g = 1, int h = 1) {
  const long l[] = {a, b, c, g, h};
  PtrRaster<int, N> r(mk<N>(s, n), d);
  const auto& rc = r;
  if (cst) walk<N, false>(rc, s, f, l, n);
  else {
    walk<N, false>(r, s, f, l, n);
    walk<N, true>(r, s, f, l, n);
  }
}
#define WALK(T, N, D, A, B, C) \
  H h_it_##T##D##_##A##B##C(int* d, LP s, LP f) { walks<N>(d, s, f, A, B, C, D, false); } \
  H h_itc_##T##D##_##A##B##C(int* d, LP s, LP f) { walks<N>(d, s, f, A, B, C, D, true); }
WALK(f, 1, 1, 1, 1, 1) WALK(f, 1, 1, 3, 1, 1) WALK(f, 2, 2, 1, 1, 1) WALK(f, 2, 2, 3, 1, 1) WALK(f, 2, 2, 1, 3, 1) WALK(f, 2, 2, 2, 2, 1) WALK(f, 2, 2, 3, 2, 1)
WALK(f, 3, 3, 1, 1, 2) WALK(f, 3, 3, 2, 1, 2) WALK(f, 3, 3, 1, 2, 2) WALK(f, 3, 3, 2, 2, 2) WALK(d, -1, 2, 2, 2, 1)
#define WALK5(T, N, D, A, B, C, G, E) \
  H h_it_##T##D##_##A##B##C##G##E(int* d, LP s, LP f) { walks<N>(d, s, f, A, B, C, D, false, G, E); } \
  H h_itc_##T##D##_##A##B##C##G##E(int* d, LP s, LP f) { walks<N>(d, s, f, A, B, C, D, true, G, E); }
WALK5(f, 4, 4, 2, 1, 1, 2, 1) WALK5(f, 4, 4, 1, 1, 2, 2, 1) WALK5(f, 5, 5, 1, 1, 1, 2, 2) WALK5(f, 5, 5, 1, 1, 1, 1, 2) WALK5(f, 5, 5, 1, 2, 1, 1, 1)
WALK(f, 1, 1, 9, 1, 1) WALK(f, 2, 2, 6, 2, 1) WALK(f, 2, 2, 1, 6, 1) WALK(f, 3, 3, 1, 1, 5)

// --- comparison
template <typename A, typename B>
INL void eq(A& a, B& b, int n, int at) {
  if (at < 0) {
    for (int i = 0; i < n; ++i) ASSUME(a[i] == b[i]);
    REQ("rasters with the same shape and pixels are equal", a == b && !(a != b) && b == a);
  } else {
    ASSUME(!(a[at] == b[at]));
    REQ("rasters with a different pixel are different", a != b && !(a == b) && b != a);
  }
}
#define EQR(T, N, S, n, AT, LAB) \
  H h_eq_##LAB(T* x, T* y) { const PtrRaster<T CM N> a(S, x); const PtrRaster<T CM N> b(S, y); eq(a, b, n, AT); }
#define S2 Position<2> {2 CM 2}
#define S3 Position<3> {2 CM 1 CM 2}
#define SD Position<-1> {2 CM 2}
EQR(int, 2, S2, 4, -1, i2s) EQR(int, 2, S2, 4, 0, i2d0) EQR(int, 2, S2, 4, 3, i2d3) EQR(double, 2, S2, 4, -1, f2s) EQR(double, 2, S2, 4, 0, f2d0) EQR(double, 2, S2, 4, 3, f2d3)
EQR(int, 3, S3, 4, -1, i3s) EQR(int, 3, S3, 4, 0, i3d0) EQR(int, 3, S3, 4, 3, i3d3) EQR(int, -1, SD, 4, -1, ids) EQR(int, -1, SD, 4, 2, idd2)
template <Index N>
INL void shapes(int* x, int* y, LP s, LP t, int n, int axis) {
  ASSUME(s[axis] != t[axis]);
  const PtrRaster<int, N> a(mk<N>(s, n), x);
  const PtrRaster<int, N> b(mk<N>(t, n), y);
  REQ("rasters of different shapes are different", a != b && !(a == b));
}
H h_sh_10(int* x, int* y, LP s, LP t) { shapes<1>(x, y, s, t, 1, 0); }
H h_sh_20(int* x, int* y, LP s, LP t) { shapes<2>(x, y, s, t, 2, 0); }
H h_sh_21(int* x, int* y, LP s, LP t) { shapes<2>(x, y, s, t, 2, 1); }
H h_sh_30(int* x, int* y, LP s, LP t) { shapes<3>(x, y, s, t, 3, 0); }
H h_sh_31(int* x, int* y, LP s, LP t) { shapes<3>(x, y, s, t, 3, 1); }
H h_sh_32(int* x, int* y, LP s, LP t) { shapes<3>(x, y, s, t, 3, 2); }
H h_sh_d0(int* x, int* y, LP s, LP t) { shapes<-1>(x, y, s, t, 2, 0); }
H h_sh_d1(int* x, int* y, LP s, LP t) { shapes<-1>(x, y, s, t, 2, 1); }
H h_sh_swap(int* x) {
  REQ("rasters of different shapes are different", (PtrRaster<int, 2>({2, 3}, x) != PtrRaster<int, 2>({3, 2}, x)));
  REQ("rasters of different shapes are not equal", !(PtrRaster<int, 2>({2, 3}, x) == PtrRaster<int, 2>({3, 2}, x)));
  REQ("3D rasters of different shapes are not equal", !(PtrRaster<int, 3>({2, 1, 3}, x) == PtrRaster<int, 3>({2, 3, 1}, x)));
  REQ("rasters of different variable shapes are not equal", !(PtrRaster<int, -1>({2, 1, 3}, x) == PtrRaster<int, -1>({2, 3, 1}, x)));
}
H h_sh_dim(int* x, LP s) {
  const PtrRaster<int, -1> a(mk<-1>(s, 2), x);
  const PtrRaster<int, -1> b(Position<-1> {s[0], s[1], 1}, x);
  REQ("rasters of different dimensions are different", a != b && !(a == b));
}
// Different storages and pixel types
H h_eq_mixed(int* x, const std::array<int, 4>& y) {
  const PtrRaster<int, 2> a({2, 2}, x);
  const ArrRaster<int, 4, 2> b({2, 2}, y);
  for (int i = 0; i < 4; ++i) ASSUME(a[i] == y[i]);
  REQ("rasters are equal whatever their storage", a == b && !(a != b) && b == a);
}
H h_eq_mixedd(int* x, const std::array<int, 4>& y) {
  const PtrRaster<int, 2> a({2, 2}, x);
  const ArrRaster<int, 4, 2> b({2, 2}, y);
  ASSUME(a[3] != y[3]);
  REQ("rasters are different whatever their storage", a != b && !(a == b) && b != a);
}

// --- wrapping
H h_wrap_ptr1(int* d, long a) {
  auto r = rasterize(d, a);
  const long s[] = {a};
  shape_of(r, s, 1);
  EQP("data", r.data(), d);
  EQI("size", r.size(), a);
}
H h_wrap_ptr2(double* d, long a, long b) {
  auto r = rasterize(d, a, b);
  const long s[] = {a, b};
  shape_of(r, s, 2);
  EQP("data", r.data(), d);
  EQI("size", r.size(), a * b);
}
H h_wrap_cptr3(const int* d, long a, long b, long c) {
  auto r = rasterize(d, a, b, c);
  static_assert(std::is_same<decltype(r.data()), const int*>::value, "Wrapping read-only data gives no write access");
  const long s[] = {a, b, c};
  shape_of(r, s, 3);
  EQP("data", r.data(), d);
  EQI("size", r.size(), a * b * c);
}
H h_wrap_arr(std::array<int, 6>& v) {
  const int x = v[4];
  auto r = rasterize(v, 3L, 2L);
  const long s[] = {3, 2};
  shape_of(r, s, 2);
  EQI("size", r.size(), 6);
  EQI("pixel", (r[{1, 1}]), x);
  REQ("an lvalue is copied", r.data() != v.data());
  auto m = rasterize(std::move(v), 2L, 3L);
  const long t[] = {2, 3};
  shape_of(m, t, 2);
  EQI("pixel", (m[{0, 2}]), x);
}
H h_wrap_vec(std::vector<int>& v, long a, long b) {
  ASSUME(a > 0);
  ASSUME(a < BIG);
  ASSUME(b > 0);
  ASSUME(b < BIG);
  ASSUME(long(v.size()) == a * b);
  int* d = v.data();
  auto m = rasterize(std::move(v), a, b);
  const long s[] = {a, b};
  shape_of(m, s, 2);
  EQP("a moved vector keeps its memory", m.data(), d);
}
H h_x_wrap_vec(std::vector<int>& v, long a, long b) {
  ASSUME(a > 0);
  ASSUME(a < BIG);
  ASSUME(b > 0);
  ASSUME(b < BIG);
  ASSUME(long(v.size()) != a * b);
  THROWS_ONLY("wrong size", "Litl::SizeError");
  MUST_THROW("a vector of wrong size is rejected", rasterize(std::move(v), a, b));
}
H h_wrap_id(const PtrRaster<int, 2>& r, const VecRaster<double, 3>& s) {
  EQP("wrapping a raster is the identity", &rasterize(r), &r);
  EQP("wrapping a raster is the identity", &rasterize(s), &s);
}
