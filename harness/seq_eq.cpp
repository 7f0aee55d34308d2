// Equality: same shape and same elements, nothing else; inequality is its negation.
#include "plain_std.h"
#include "LitlContainer/Sequence.h"
#include "LitlRaster/Raster.h"
#include "LitlRaster/Vector.h"
#include "LitlRaster/Box.h"
#include "litl_obl.h"
using namespace Litl;
template <typename C, int S, typename T>
INL C make(const T* p) {
  C c(S);
  for (int i = 0; i < S; ++i) c.data()[i] = p[i];
  return c;
}
template <typename C, int S, typename T>
INL void eqs(const T* p, const T* q) {
  const auto a = make<C, S>(p), b = make<C, S>(q);
  bool same = true;
  for (int i = 0; i < S; ++i) same = same & (p[i] == q[i]);
  EQI("equal iff all elements are", a == b, same);
  EQI("different iff not equal", a != b, !same);
  REQ("reflexive", a == a);
  REQ("not different from itself", !(a != a));
}
#define EQS(N, S, T, ...) H h_eq_##N(const T* __restrict p, const T* __restrict q) { eqs<__VA_ARGS__, S>(p, q); }
#define CM ,
EQS(seq_i, 3, int, Sequence<int, StdHolder<std::array<int CM 3>>>)
EQS(seq_u, 4, unsigned char, Sequence<unsigned char, StdHolder<std::array<unsigned char CM 4>>>)
EQS(dyn_l, 3, long, Sequence<long>)
EQS(vec_l, 3, long, Vector<long CM 3>)
EQS(vec_d, 2, long, Vector<long CM -1>)
// sizes differ
H h_eq_sizes(const int* p, std::size_t n, std::size_t m) {
  ASSUME(n < 100000); ASSUME(m < 100000); ASSUME(n != m);
  const Sequence<int, PtrHolder<const int>> a(n, p), b(m, p);
  REQ("different sizes are not equal", !(a == b));
  REQ("different sizes are different", a != b);
}
H h_eq_empty(const int* p) {
  const Sequence<int, PtrHolder<const int>> a(0, p), b(0, p + 1);
  REQ("empty containers are equal", a == b);
}
// rasters: the shape counts
template <int D>
INL void shapes(const int* p, const Position<2>& s, const Position<2>& t) {
  for (int i = 0; i < 2; ++i) ASSUME(s[i] >= 0 && s[i] < 1000 && t[i] >= 0 && t[i] < 1000);
  ASSUME(s[D] != t[D]);
  const PtrRaster<const int, 2> a(s, p), b(t, p);
  REQ("different shapes are not equal", !(a == b));
  REQ("different shapes are different", a != b);
}
H h_eq_shape0(const int* p, const Position<2>& s, const Position<2>& t) { shapes<0>(p, s, t); }
H h_eq_shape1(const int* p, const Position<2>& s, const Position<2>& t) { shapes<1>(p, s, t); }
H h_eq_rasters(const int* __restrict p, const int* __restrict q) {
  const PtrRaster<const int, 2> a({2, 2}, p), b({2, 2}, q);
  bool same = true;
  for (int i = 0; i < 4; ++i) same = same & (p[i] == q[i]);
  EQI("equal iff all pixels are", a == b, same);
  EQI("different iff not equal", a != b, !same);
}
H h_eq_holders(const int* __restrict p, const int* __restrict q) {
  const PtrRaster<const int, 2> a({2, 2}, p);
  Raster<int, 2, StdHolder<std::array<int, 4>>> b({2, 2});
  for (int i = 0; i < 4; ++i) b.data()[i] = q[i];
  bool same = true;
  for (int i = 0; i < 4; ++i) same = same & (p[i] == q[i]);
  EQI("equality is independent of the data holder", a == b, same);
  EQI("inequality is independent of the data holder", b != a, !same);
}
H h_eq_dims(const int* __restrict p, const int* __restrict q) {
  Raster<int, -1> a(Position<-1> {2, 2}), b(Position<-1> {4});
  for (int i = 0; i < 4; ++i) { a.data()[i] = p[i]; b.data()[i] = p[i]; }
  REQ("different dimensions are not equal", !(a == b));
}
H h_eq_box(long a0, long a1, long b0, long b1, long c0, long c1, long d0, long d1) {
  const Box<2> a({a0, a1}, {b0, b1}), b({c0, c1}, {d0, d1});
  const bool same = (a0 == c0) & (a1 == c1) & (b0 == d0) & (b1 == d1);
  EQI("boxes are equal iff their bounds are", a == b, same);
  EQI("boxes are different iff not equal", a != b, !same);
}
// floating values are compared as numbers: zeros are equal whatever their sign, NaN equals nothing
template <typename C, int S, typename T>
INL void eqf(const T* p, const T* q) {
  const auto a = make<C, S>(p), b = make<C, S>(q);
  bool same = true;
  for (int i = 0; i < S; ++i) same = same & (p[i] == q[i]);
  EQI("equal iff all numbers are", a == b, same);
  EQI("different iff not equal", a != b, !same);
}
H h_eq_double(const double* __restrict p, const double* __restrict q) { eqf<Sequence<double, StdHolder<std::array<double, 3>>>, 3>(p, q); }
H h_eq_float(const float* __restrict p, const float* __restrict q) { eqf<Sequence<float>, 2>(p, q); }
H h_eq_complex(const std::complex<double>* __restrict p, const std::complex<double>* __restrict q) { eqf<Sequence<std::complex<double>, StdHolder<std::array<std::complex<double>, 2>>>, 2>(p, q); }
template <typename C, typename T>
INL void zeros(T x, T y, bool same) {
  const T p[] = {T(1), x, T(2)}, q[] = {T(1), y, T(2)};
  const C a(3, p), b(3, q);
  EQI("zeros of any sign are equal, NaNs are not", a == b, same);
  EQI("zeros of any sign are not different, NaNs are", a != b, !same);
}
H h_eq_zeros_arr() { zeros<Sequence<double, StdHolder<std::array<double, 3>>>>(0., -0., true); }
H h_eq_zeros_ptr() { zeros<Sequence<double, PtrHolder<const double>>>(-0., 0., true); }
H h_eq_zeros_f() { zeros<Sequence<float, PtrHolder<const float>>>(0.f, -0.f, true); }
H h_eq_nan_arr() { zeros<Sequence<double, StdHolder<std::array<double, 3>>>>(__builtin_nan(""), __builtin_nan(""), false); }
H h_eq_nan_f() { zeros<Sequence<float, PtrHolder<const float>>>(__builtin_nanf(""), __builtin_nanf(""), false); }
H h_eq_zeros_raster() {
  const double p[] = {0., 1., -0., 3.}, q[] = {-0., 1., 0., 3.};
  const PtrRaster<const double, 2> a({2, 2}, p), b({2, 2}, q);
  REQ("zeros of any sign are equal", a == b);
  REQ("zeros of any sign are not different", !(a != b));
}
static const double Z0[] = {1., 0., 2.}, Z1[] = {1., -0., 2.}, NA[] = {1., __builtin_nan(""), 2.}, NB[] = {1., __builtin_nan(""), 2.};
H h_eq_zeros_static() {
  const Sequence<double, PtrHolder<const double>> a(3, Z0), b(3, Z1);
  REQ("zeros of any sign are equal", a == b);
  REQ("zeros of any sign are not different", !(a != b));
}
H h_eq_nan_static() {
  const Sequence<double, PtrHolder<const double>> a(3, NA), b(3, NB);
  REQ("NaNs are not equal", !(a == b));
  REQ("NaNs are different", a != b);
}
H h_eq_zeros_raster_static() {
  const PtrRaster<const double, 2> a({3, 1}, Z0), b({3, 1}, Z1);
  REQ("zeros of any sign are equal", a == b);
  REQ("zeros of any sign are not different", !(a != b));
}
