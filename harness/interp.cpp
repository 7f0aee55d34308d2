// Extrapolation and interpolation.
#include "devirt.h"
#include "LitlTransforms/Interpolation.h"
#include "litl_obl.h"
using namespace Litl;
#define LP const long* __restrict
constexpr long BIG = 100000;
template <Index N>
INL Position<N> mk(const long* p, int n) {
  Position<N> o(n);
  for (int i = 0; i < n; ++i) o[i] = p[i];
  return o;
}
INL long offset(LP s, const long* p, int n) {
  long o = 0;
  for (int i = n; i-- > 0;) o = o * s[i] + p[i];
  return o;
}
INL void shape(LP s, int n) {
  for (int i = 0; i < n; ++i) {
    ASSUME(s[i] > 0);
    ASSUME(s[i] < BIG);
  }
}
// side: -1 before the front, 0 inside, 1 past the back, 2 anywhere
INL void place(LP s, LP p, int i, int side) {
  ASSUME(p[i] > -BIG);
  ASSUME(p[i] < BIG);
  if (side < 0) ASSUME(p[i] < 0);
  if (side == 0) {
    ASSUME(p[i] >= 0);
    ASSUME(p[i] < s[i]);
  }
  if (side == 1) ASSUME(p[i] >= s[i]);
}
template <typename T, Index N>
INL void props(T* d, LP s, LP p, T v, int n) {
  shape(s, n);
  for (int i = 0; i < n; ++i) place(s, p, i, 0);
  const PtrRaster<T, N> r(mk<N>(s, n), d);
  const auto e = extrapolate<OutOfBoundsConstant<T>>(r, v);
  const auto e1 = extrapolate<NearestNeighbor>(r);
  const auto e2 = extrapolate<Periodic>(r);
  const auto i0 = interpolate<Linear>(r);
  const auto i1 = interpolate<Linear>(e);
  const auto& er = e.raster();
  const auto& r0 = i0.raster();
  const auto& r1 = i1.raster();
  EQP("decorated raster", &er, &r);
  EQP("decorated raster", &rasterize(e), &r);
  EQP("decorated raster of the interpolator", &r0, &r);
  EQP("decorated raster of the interpolator", &r1, &r);
  for (int i = 0; i < n; ++i) {
    EQI("shape", e.shape()[i], s[i]);
    EQI("shape of the interpolator", i1.shape()[i], s[i]);
    EQI("domain front", e.domain().front()[i], 0);
    EQI("domain back", e.domain().back()[i], s[i] - 1);
    EQI("domain back of the interpolator", i1.domain().back()[i], s[i] - 1);
  }
  const auto q = mk<N>(p, n);
  T* const a = d + offset(s, p, n);
  EQP("inside, the extrapolation (constant) is the raster", &e[q], a);
  EQP("inside, the extrapolation (nearest) is the raster", &e1[q], a);
  EQP("at an integral position, the interpolator is the raster", &i0[q], a);
  EQP("at an integral position, the interpolator is the extrapolator", &i1[q], a);
}
H h_pr_f1(int* d, LP s, LP p, int v) { props<int, 1>(d, s, p, v, 1); }
H h_pr_f2(double* d, LP s, LP p, double v) { props<double, 2>(d, s, p, v, 2); }
H h_pr_f3(int* d, LP s, LP p, int v) { props<int, 3>(d, s, p, v, 3); }
H h_pr_d2(int* d, LP s, LP p, int v) { props<int, -1>(d, s, p, v, 2); }

template <Index N>
INL void constant(int* d, LP s, LP p, int v, int n, int a, int side) {
  shape(s, n);
  for (int i = 0; i < n; ++i) {
    place(s, p, i, i == a ? side : i < a ? -1 : 2);  // any side after a, before the front before a
  }
  const PtrRaster<int, N> r(mk<N>(s, n), d);
  const auto e = extrapolate<OutOfBoundsConstant<int>>(r, v);
  litl_eq("outside, the extrapolation is the constant", e[mk<N>(p, n)], v);
}
template <Index N>
INL void outside(int* d, LP s, LP p, int v, int n, int a, int side) {
  shape(s, n);
  for (int i = 0; i < n; ++i) place(s, p, i, i == a ? side : 0);
  const PtrRaster<int, N> r(mk<N>(s, n), d);
  const auto e = extrapolate<OutOfBoundsConstant<int>>(r, v);
  litl_eq("outside along a single axis, the extrapolation is the constant", e[mk<N>(p, n)], v);
}
template <Index N>
INL void nearest(int* d, LP s, LP p, int n, int code) {
  shape(s, n);
  long q[4];
  for (int i = 0, c = code; i < n; ++i, c /= 3) {
    const int side = c % 3 - 1;
    place(s, p, i, side);
    q[i] = side < 0 ? 0 : side > 0 ? s[i] - 1 : p[i];
  }
  const PtrRaster<int, N> r(mk<N>(s, n), d);
  const auto e = extrapolate<NearestNeighbor>(r);
  EQP("the nearest pixel", &e[mk<N>(p, n)], d + offset(s, q, n));
}
#define CO(T, N, D, A) \
  H h_co_##T##D##_##A##f(int* d, LP s, LP p, int v) { outside<N>(d, s, p, v, D, A, -1); } \
  H h_co_##T##D##_##A##x(int* d, LP s, LP p, int v) { constant<N>(d, s, p, v, D, A, -1); } \
  H h_co_##T##D##_##A##y(int* d, LP s, LP p, int v) { constant<N>(d, s, p, v, D, A, 1); } \
  H h_co_##T##D##_##A##b(int* d, LP s, LP p, int v) { outside<N>(d, s, p, v, D, A, 1); }
CO(f, 1, 1, 0) CO(f, 2, 2, 0) CO(f, 2, 2, 1) CO(f, 3, 3, 0) CO(f, 3, 3, 1) CO(f, 3, 3, 2) CO(d, -1, 2, 0) CO(d, -1, 2, 1)
#define NN(T, N, D, C) H h_nn_##T##D##_##C(int* d, LP s, LP p) { nearest<N>(d, s, p, D, C); }
NN(f, 1, 1, 0) NN(f, 1, 1, 1) NN(f, 1, 1, 2)
NN(f, 2, 2, 0) NN(f, 2, 2, 1) NN(f, 2, 2, 2) NN(f, 2, 2, 3) NN(f, 2, 2, 4) NN(f, 2, 2, 5) NN(f, 2, 2, 6) NN(f, 2, 2, 7) NN(f, 2, 2, 8)
NN(f, 3, 3, 0) NN(f, 3, 3, 5) NN(f, 3, 3, 9) NN(f, 3, 3, 13) NN(f, 3, 3, 16) NN(f, 3, 3, 22) NN(f, 3, 3, 26) NN(d, -1, 2, 1) NN(d, -1, 2, 6)
// constant value given as such, for an owning raster
H h_cst_short(const Raster<int, 2>& r, LP p, int v) {
  ASSUME(p[1] < 0);
  const auto e = extrapolate(r, v);
  litl_eq("outside, the extrapolation is the constant", e[mk<2>(p, 2)], v);
}
H h_cst_default(const Raster<int, 2>& r, LP p) {
  ASSUME(p[0] < 0);
  const auto e = extrapolate<OutOfBoundsConstant<int>>(r);
  litl_eq("outside, the extrapolation is 0 by default", e[mk<2>(p, 2)], 0);
}
template <Index N>
INL void periodic(int* d, LP s, LP p, int n) {
  shape(s, n);
  long q[4];
  for (int i = 0; i < n; ++i) {
    ASSUME(p[i] > -BIG);
    ASSUME(p[i] < BIG);
    const long m = p[i] % s[i];
    q[i] = m < 0 ? m + s[i] : m;
  }
  const PtrRaster<int, N> r(mk<N>(s, n), d);
  const auto e = extrapolate<Periodic>(r);
  EQP("the pixel modulo the shape", &e[mk<N>(p, n)], d + offset(s, q, n));
}
H h_per_f1(int* d, LP s, LP p) { periodic<1>(d, s, p, 1); }
H h_per_f2(int* d, LP s, LP p) { periodic<2>(d, s, p, 2); }
H h_per_f3(int* d, LP s, LP p) { periodic<3>(d, s, p, 3); }
H h_per_d2(int* d, LP s, LP p) { periodic<-1>(d, s, p, 2); }

// --- interpolation, over rasters whose values are uninterpreted functions of the position
extern "C" {
__attribute__((const, nothrow)) double g_val(long x, long y, long z);
__attribute__((const, nothrow)) long g_int(long x, long y, long z);
}
template <typename T, Index N>
struct Ghost {
  using Value = T;
  using value_type = T;
  static constexpr Index Dimension = N;
  T operator[](const Position<N>& p) const {
    const long y = N > 1 ? p[N > 1 ? 1 : 0] : 0, z = N > 2 ? p[N > 2 ? 2 : 0] : 0;
    return std::is_integral<T>::value ? T(g_int(p[0], y, z)) : T(g_val(p[0], y, z));
  }
};
template <typename T, Index N>
INL typename TypeTraits<T>::Floating val(const long* p) {
  Position<N> q;
  for (int i = 0; i < N; ++i) q[i] = p[i];
  return Ghost<T, N>()[q];
}
template <Index N>
INL Vector<double, N> mkv(const double* p) {
  Vector<double, N> o;
  for (int i = 0; i < N; ++i) o[i] = p[i];
  return o;
}
template <typename T, Index N>
INL void nn(const double* __restrict x) {
  const Ghost<T, N> r;
  const auto i = interpolate<NearestNeighbor>(r);
  long q[3];
  for (int k = 0; k < N; ++k) q[k] = Litl::floor<Index>(x[k] + .5);
  litl_eq("value at the nearest position", i(mkv<N>(x)), val<T, N>(q));
}
// weights of the 2 or 4 neighbors along an axis
INL void linear(double d, double* w) {
  w[0] = 1 - d;
  w[1] = d;
}
INL void cubic(double d, double* w) {
  w[0] = .5 * (-d + 2 * d * d - d * d * d);
  w[1] = .5 * (2 - 5 * d * d + 3 * d * d * d);
  w[2] = .5 * (d + 4 * d * d - 3 * d * d * d);
  w[3] = .5 * (-d * d + d * d * d);
}
template <typename TMethod, typename T, Index N>
INL void weighted(const double* __restrict x) {
  constexpr bool C = std::is_same<TMethod, Cubic>::value;
  constexpr int K = C ? 4 : 2;
  constexpr int M = N == 1 ? K : N == 2 ? K * K : K * K * K;
  const Ghost<T, N> r;
  const auto i = interpolate<TMethod>(r);
  double w[3][4];
  long f[3];
  for (int k = 0; k < N; ++k) {
    f[k] = Litl::floor<Index>(x[k]);
    if (C) cubic(x[k] - double(f[k]), w[k]);
    else linear(x[k] - double(f[k]), w[k]);
    f[k] -= C;
  }
  double sum = 0;
#pragma clang loop unroll(full)
  for (int m = 0; m < M; ++m) {
    double c = 1;
    long q[3];
    int l = m;
#pragma clang loop unroll(full)
    for (int k = 0; k < N; ++k) {
      c *= w[k][l % K];
      q[k] = f[k] + l % K;
      l /= K;
    }
    sum += c * double(val<T, N>(q));
  }
  litl_eq("weighted sum of the neighbors", double(i(mkv<N>(x))), sum);
}
H h_near_1(const double* __restrict x) { nn<double, 1>(x); }
H h_near_2(const double* __restrict x) { nn<double, 2>(x); }
H h_near_3(const double* __restrict x) { nn<double, 3>(x); }
H h_near_i(const double* __restrict x) { nn<long, 2>(x); }
H h_lin_1(const double* __restrict x) { weighted<Linear, double, 1>(x); }
H h_lin_2(const double* __restrict x) { weighted<Linear, double, 2>(x); }
H h_lin_3(const double* __restrict x) { weighted<Linear, double, 3>(x); }
H h_cub_1(const double* __restrict x) { weighted<Cubic, double, 1>(x); }
H h_cub_2(const double* __restrict x) { weighted<Cubic, double, 2>(x); }
H h_cub_3(const double* __restrict x) { weighted<Cubic, double, 3>(x); }
H h_lin_i(const double* __restrict x) { weighted<Linear, long, 2>(x); }
// over an extrapolator: the neighbors out of the domain are extrapolated
template <typename TE, Index N, typename... Ts>
INL void over(double* d, LP s, const double* __restrict x, Ts... v) {
  shape(s, N);
  long q[4];
  for (int k = 0; k < N; ++k) {
    ASSUME(x[k] > -1000.);
    ASSUME(x[k] < 1000.);
    q[k] = Litl::floor<Index>(x[k] + .5);
  }
  const PtrRaster<double, N> r(mk<N>(s, N), d);
  const auto e = extrapolate<TE>(r, v...);
  const auto i = interpolate<NearestNeighbor>(e);
  litl_eq("interpolation of an extrapolation", i(mkv<N>(x)), e[mk<N>(q, N)]);
}
H h_over_n1(double* d, LP s, const double* __restrict x) { over<NearestNeighbor, 1>(d, s, x); }
H h_over_n2(double* d, LP s, const double* __restrict x) { over<NearestNeighbor, 2>(d, s, x); }
H h_over_p1(double* d, LP s, const double* __restrict x) { over<Periodic, 1>(d, s, x); }
H h_over_c1(double* d, LP s, const double* __restrict x, double v) { over<OutOfBoundsConstant<double>, 1>(d, s, x, v); }
