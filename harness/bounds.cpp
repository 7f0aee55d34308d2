// Operations on small objects of known size, for the accesses they make: sizes differ, are minimal, or are at the limits.
#include "devirt.h"
#include "LitlContainer/Sequence.h"
#include "LitlContainer/DataDistribution.h"
#include "LitlRaster/Raster.h"
#include "LitlRaster/Vector.h"
#include "LitlRaster/Box.h"
#include "litl_obl.h"
using namespace Litl;
template <typename C, typename T>
INL C make(std::size_t n, const T* p) {
  C c(n);
  for (std::size_t i = 0; i < n; ++i) c.data()[i] = p[i];
  return c;
}
// comparisons of containers of different sizes
template <typename C, int S, int U, typename T>
INL void sizes(const T* p, const T* q) {
  const auto a = make<C>(S, p), b = make<C>(U, q);
  REQ("different sizes are not equal", !(a == b));
  REQ("different sizes are different", a != b);
}
H h_sizes_23(const int* p, const int* q) { sizes<Sequence<int>, 2, 3>(p, q); }
H h_sizes_32(const int* p, const int* q) { sizes<Sequence<int>, 3, 2>(p, q); }
H h_sizes_01(const int* p, const int* q) { sizes<Sequence<int>, 0, 1>(p, q); }
H h_sizes_10(const int* p, const int* q) { sizes<Sequence<int>, 1, 0>(p, q); }
H h_sizes_vec(const long* p, const long* q) { sizes<Vector<long, -1>, 2, 3>(p, q); }
H h_sizes_vec3(const long* p, const long* q) { sizes<Vector<long, -1>, 3, 1>(p, q); }
template <int N, typename T>
INL Raster<T, N> image(const Position<N>& s, const T* p) {
  Raster<T, N> r(s);
  for (std::size_t i = 0; i < r.size(); ++i) r[i] = p[i];
  return r;
}
H h_shapes_12(const int* p, const int* q) {
  const auto a = image<2>({1, 2}, p), b = image<2>({2, 2}, q);
  REQ("different shapes are not equal", !(a == b));
  REQ("different shapes are different", a != b);
  REQ("different shapes are not equal either way", !(b == a));
}
H h_shapes_tail(const int* p, const int* q) {
  const auto a = image<2>({2, 1}, p), b = image<2>({2, 2}, q);
  REQ("different shapes are not equal", !(a == b));
  REQ("different shapes are not equal either way", !(b == a));
}
// assignments between sizes
template <int S, int U>
INL void assign(const int* p, const int* q) {
  auto a = make<Sequence<int>>(S, p);
  const auto b = make<Sequence<int>>(U, q);
  a = b;
  REQ("size is copied", a.size() == U);
  for (int i = 0; i < U; ++i) EQI("value is copied", a[i], q[i]);
  auto c = make<Sequence<int>>(S, p);
  a = std::move(c);
  REQ("size is moved", a.size() == S);
  for (int i = 0; i < S; ++i) EQI("value is moved", a[i], p[i]);
}
H h_assign_13(const int* __restrict p, const int* __restrict q) { assign<1, 3>(p, q); }
H h_assign_31(const int* __restrict p, const int* __restrict q) { assign<3, 1>(p, q); }
H h_assign_03(const int* __restrict p, const int* __restrict q) { assign<0, 3>(p, q); }
template <typename C, int S, int U>
INL void aligned(const int* p, const int* q) {
  auto a = make<C>(S, p);
  auto b = make<C>(U, q);
  auto c = b;
  a = b;
  REQ("size is copied", a.size() == U && c.size() == U);
  for (int i = 0; i < U; ++i) { EQI("value is copied", a[i], q[i]); EQI("value is constructed", c[i], q[i]); }
  b = std::move(a);
  for (int i = 0; i < U; ++i) EQI("value is moved", b[i], q[i]);
}
H h_array(const int* __restrict p, const int* __restrict q) { aligned<Sequence<int, StdHolder<std::array<int, 3>>>, 3, 3>(p, q); }
// element-wise operations: operands of the same size as the container
H h_elementwise(const int* __restrict p, const int* __restrict q, int k) {
  auto a = make<Sequence<int>>(3, p);
  const auto b = make<Sequence<int>>(3, q);
  a.generate([](int x, int y) { return x ^ y; }, a, b);
  for (int i = 0; i < 3; ++i) EQI("generated", a[i], p[i] ^ q[i]);
  a.apply([k](int x, int y) { return x & y & k; }, b);
  for (int i = 0; i < 3; ++i) EQI("applied", a[i], (p[i] ^ q[i]) & q[i] & k);
}
// iterators, ranges
H h_extrema(const int* p) {
  const auto a = make<Sequence<int>>(1, p);
  EQI("min", a.min(), p[0]);
  EQI("max", a.max(), p[0]);
  const auto mm = a.minmax();
  EQI("first", mm.first, p[0]);
  EQI("second", mm.second, p[0]);
}
H h_range(int first, int step) {
  Sequence<int> a(3);
  a.range(first, step);
  EQI("last", a[2], int(unsigned(first) + 2 * unsigned(step)));
  Sequence<int> b(0);
  b.range(first, step);
  REQ("empty", b.size() == 0);
}
H h_linspace(const int* p) {
  ASSUME(p[0] > -1000 && p[0] < 1000 && p[1] > -1000 && p[1] < 1000);
  Sequence<int> a(2);
  a.linspace(p[0], p[1]);
  EQI("first", a[0], p[0]);
  EQI("last", a[1], p[1]);
}
// vectors of different dimensions
H h_extend(const long* __restrict p, const long* __restrict q) {
  const Vector<long, 2> a {p[0], p[1]};
  const Vector<long, 4> b {q[0], q[1], q[2], q[3]};
  const auto e = a.extend<4>(b);
  const long w[] = {p[0], p[1], q[2], q[3]};
  for (int i = 0; i < 4; ++i) EQI("extended", e[i], w[i]);
  const auto s = b.slice<2>();
  for (int i = 0; i < 2; ++i) EQI("sliced", s[i], q[i]);
}
// rasters: views whose shape has less axes, at the limits of the raster
template <int N, int M>
INL void views(const Position<N>& s, const Box<N>& r) {
  Raster<int, N> in(s);
  in.range();
  const auto& c = in;
  auto v = in.template slice<M>(r);
  const auto w = c.template slice<M>(r);
  REQ("sizes", v.size() == r.size() && w.size() == r.size());
  REQ("dimensions", v.dimension() == M && w.dimension() == M);
  for (std::size_t i = 0; i < v.size(); ++i) {
    EQI("pixel", v[i], in[r.front()] + int(i));
    EQI("pixel of constant", w[i], in[r.front()] + int(i));
  }
  for (int i = 0; i < M; ++i) {
    EQI("shape", v.shape()[i], r.length(i));
    EQI("shape of constant", w.shape()[i], r.length(i));
  }
}
H h_views_21() { views<2, 1>({3, 2}, {{1, 1}, {2, 1}}); }
H h_views_22() { views<2, 2>({3, 2}, {{0, 1}, {2, 1}}); }
H h_views_31() { views<3, 1>({3, 2, 2}, {{0, 1, 1}, {2, 1, 1}}); }
H h_views_32() { views<3, 2>({3, 2, 2}, {{0, 1, 1}, {2, 1, 1}}); }
H h_views_42() { views<4, 2>({2, 1, 2, 1}, {{0, 0, 1, 0}, {1, 0, 1, 0}}); }
H h_views_var(long k) {
  ASSUME(k == 0 || k == 1);
  Raster<int, -1> in({2, 2, 2});
  in.range();
  const auto& c = in;
  const auto s = in.section(k);
  const auto t = c.section(k);
  REQ("dimension", s.dimension() == 2 && t.dimension() == 2);
  REQ("size", s.size() == 4 && t.size() == 4);
  for (int i = 0; i < 4; ++i) { EQI("pixel", s[i], int(4 * k) + i); EQI("pixel of constant", t[i], int(4 * k) + i); }
  const auto a = in.section(0, k);
  REQ("thick", a.size() == std::size_t(4 * (k + 1)) && a.dimension() == 3);
}
// access by position: domain limits, backward indices
H h_at(long x, long y) {
  ASSUME(x >= -3 && x < 3 && y >= -2 && y < 2);
  Raster<int, 2> in({3, 2});
  in.range();
  EQI("backward index", in.at({x, y}), int((x + (x < 0 ? 3 : 0)) + 3 * (y + (y < 0 ? 2 : 0))));
}
// distributions
template <int S, int U>
INL void histo(const int* p, const int* q) {
  for (int i = 1; i < U; ++i) ASSUME(q[i - 1] < q[i]);
  auto d = DataDistribution<int>(std::vector<int>(p, p + S));
  const auto h = d.histogram(std::vector<int>(q, q + U));
  REQ("bins", h.size() == U - 1);
  std::size_t sum = 0, in = 0;
  for (int i = 0; i + 1 < U; ++i) sum += h[i];
  for (int i = 0; i < S; ++i) in += p[i] >= q[0] && p[i] <= q[U - 1];
  EQI("counted", long(sum), long(in));
}
H h_histo_12(const int* __restrict p, const int* __restrict q) { histo<1, 2>(p, q); }
H h_histo_13(const int* __restrict p, const int* __restrict q) { histo<1, 3>(p, q); }
