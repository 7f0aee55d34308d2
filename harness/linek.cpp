// Correlation with line kernels: concrete geometries, symbolic values.
#include "devirt.h"
#include "LitlContainer/Sequence.h"
#include "LitlTransforms/Convolution.h"
#include "LitlTransforms/LineKernel.h"
#include "litl_obl.h"
using namespace Litl;
template <typename T>
INL std::vector<T> values(const T* k, int n) {
  std::vector<T> v(n);
  for (int i = 0; i < n; ++i) v[i] = k[i];
  return v;
}
template <typename T>
struct Line {
  LineKernel<T> k;
  Line(const T* v, int n, int o) : k(values(v, n), o) {}
  template <typename I, typename O>
  INL void run(const I& i, O& o) const {
    k.correlate(i, o);
  }
};
template <typename T>
struct Old {
  Kernel1d<T> k;
  Old(const T* v, int n, int o) : k(values(v, n), o) {}
  template <typename I, typename O>
  INL void run(const I& i, O& o) const {
    k.sparseCorrelate1dTo(i, o);
  }
};
// K values with origin O, over the samples F, F + ST... B of S values at stride D; written to every ST2-th element
// from F2 at stride D2
template <template <typename> class TK, typename T, int K, int O, int S, int F, int B, int ST, int D, int F2 = 0, int ST2 = 1, int D2 = 1>
INL void line(const T* k, const T* in, T* out) {
  constexpr int N = (B - F + ST) / ST;
  constexpr int M = (F2 + (N - 1) * ST2 + 1) * D2;
  T old[M + 1];
#pragma clang loop unroll(full)
  for (int m = 0; m <= M; ++m) old[m] = out[m];
  const TK<T> kernel(k, K, O);
  const DataSamples<const T> is(in, S, {F, B, ST}, D);
  DataSamples<T> os(out, M / D2 + 1, {F2, Limits<Index>::inf(), ST2}, D2);
  kernel.run(is, os);
#pragma clang loop unroll(full)
  for (int m = 0; m <= M; ++m) {
    const int i = m / D2 - F2;
    if (m % D2 == 0 && i >= 0 && i % ST2 == 0 && i / ST2 < N) {
      const int p = F + i / ST2 * ST;
      T sum {};
#pragma clang loop unroll(full)
      for (int q = 0; q < K; ++q) {
        const int x = p + q - O;
        if (x >= 0 && x < S) sum += k[q] * in[x * D];
      }
      litl_eq("sum of the products with the neighbors inside the data", out[m], sum);
    } else {
      litl_eq("other elements are unchanged", out[m], old[m]);
    }
  }
}
#define IN(T) const T *__restrict k, const T *__restrict in, T *__restrict out
// dense, every extent of the data
#define DENSE(C, K, O, S) \
  H h_dense_##C##_##K##_##O##_##S(IN(double)) { line<C, double, K, O, S, 0, S - 1, 1, 1>(k, in, out); }
#define DENSES(C, K, O) DENSE(C, K, O, 1) DENSE(C, K, O, 2) DENSE(C, K, O, 3) DENSE(C, K, O, 5)
#define DENSEK(C) \
  DENSES(C, 1, 0) DENSES(C, 2, 0) DENSES(C, 2, 1) DENSES(C, 3, 0) DENSES(C, 3, 1) DENSES(C, 3, 2) DENSES(C, 4, 1) DENSES(C, 4, 2) DENSES(C, 5, 2)
DENSEK(Line)
DENSEK(Old)
// more than 64 elements
#define LONG(C, K, O) H h_dense_##C##_##K##_##O##_long(IN(double)) { line<C, double, K, O, 67, 0, 66, 1, 1>(k, in, out); }
LONG(Line, 3, 1) LONG(Old, 3, 1) LONG(Line, 1, 0) LONG(Line, 2, 1)
#define WIDE(C, K, O, S) H h_dense_##C##_##K##_##O##_##S##_wide(IN(double)) { line<C, double, K, O, S, 0, S - 1, 1, 1>(k, in, out); }
WIDE(Line, 17, 8, 5) WIDE(Old, 17, 8, 5) WIDE(Line, 17, 8, 19) WIDE(Old, 9, 4, 19)
// windows which do not contain the origin
constexpr int m1 = -1, m2 = -2;
#define AWAYS(C) DENSES(C, 1, 1) DENSES(C, 1, 2) DENSES(C, 1, 4) DENSES(C, 2, 3) DENSES(C, 1, m1) DENSES(C, 1, m2) DENSES(C, 2, m1) DENSES(C, 2, m2)
AWAYS(Line)
AWAYS(Old)
// samples
#define SAMP(C, K, O, S, F, B, ST, D) \
  H h_samp_##C##_##K##_##O##_##S##_##F##_##B##_##ST##_##D(IN(double)) { line<C, double, K, O, S, F, B, ST, D>(k, in, out); }
#define SAMPS(C, K, O) \
  SAMP(C, K, O, 5, 0, 4, 2, 1) SAMP(C, K, O, 5, 0, 4, 3, 2) SAMP(C, K, O, 5, 1, 3, 1, 1) SAMP(C, K, O, 5, 1, 3, 2, 1) \
  SAMP(C, K, O, 6, 1, 5, 3, 1) SAMP(C, K, O, 6, 2, 2, 1, 3) SAMP(C, K, O, 4, 3, 3, 2, 1) SAMP(C, K, O, 7, 0, 6, 4, 2)
#define SAMPK(C) SAMPS(C, 1, 0) SAMPS(C, 3, 1) SAMPS(C, 3, 0) SAMPS(C, 3, 2) SAMPS(C, 2, 1) SAMPS(C, 5, 2)
SAMPK(Line)
SAMPK(Old)
#define INTO(C, K, O, F2, ST2, D2) \
  H h_into_##C##_##K##_##O##_##F2##_##ST2##_##D2(IN(int)) { line<C, int, K, O, 5, 1, 4, 1, 1, F2, ST2, D2>(k, in, out); }
#define INTOS(C) INTO(C, 3, 1, 0, 1, 2) INTO(C, 3, 1, 1, 1, 1) INTO(C, 3, 1, 0, 2, 1) INTO(C, 2, 0, 1, 2, 3)
INTOS(Line)
INTOS(Old)
// along an axis
template <Index A, Index N, int K, int O>
INL void along(const Position<N>& shape, const double* k, const double* in) {
  const PtrRaster<const double, N> r(shape, in);
  const Kernel1d<double> kernel(values(k, K), O);
  const auto out = kernel.template correlateAlong<A>(r);
  long stride = 1;
  for (int i = 0; i < A; ++i) stride *= shape[i];
  for (int i = 0; i < shape.size(); ++i) EQI("shape", out.shape()[i], shape[i]);
#pragma clang loop unroll(full)
  for (long i = 0; i < long(shapeSize(shape)); ++i) {
    const long p = i / stride % shape[A];
    double sum = 0;
#pragma clang loop unroll(full)
    for (int q = 0; q < K; ++q)
      if (p + q - O >= 0 && p + q - O < shape[A]) sum += k[q] * in[i + (q - O) * stride];
    litl_eq("sum of the products with the neighbors along the axis", out.data()[i], sum);
  }
}
#define CIN const double *__restrict k, const double *__restrict in
H h_along_1(CIN) { along<0, 1, 3, 1>({5}, k, in); }
H h_along_20(CIN) { along<0, 2, 3, 1>({4, 3}, k, in); }
H h_along_21(CIN) { along<1, 2, 3, 1>({4, 3}, k, in); }
H h_along_30(CIN) { along<0, 3, 2, 0>({3, 2, 2}, k, in); }
H h_along_31(CIN) { along<1, 3, 3, 2>({2, 3, 2}, k, in); }
H h_along_32(CIN) { along<2, 3, 3, 0>({2, 2, 3}, k, in); }
// along both axes
template <int K, int O, int SX, int SY>
INL double both(const double* k, const double* in, long x, long y) {
  double sum = 0;
#pragma clang loop unroll(full)
  for (int j = 0; j < K; ++j)
#pragma clang loop unroll(full)
    for (int i = 0; i < K; ++i) {
      const long a = x + i - O, b = y + j - O;
      if (a >= 0 && a < SX && b >= 0 && b < SY) sum += k[i] * k[j] * in[a + SX * b];
    }
  return sum;
}
template <int K, int O, int SX, int SY, int X0, int X1, int DX, int Y0, int Y1, int DY>
INL void sparse(const double* k, const double* in, double* out) {
  const PtrRaster<const double, 2> r({SX, SY}, in);
  constexpr long W = (X1 - X0 + DX) / DX, HT = (Y1 - Y0 + DY) / DY;
  PtrRaster<double, 2> o({W, HT}, out);
  Kernel1d<double> kernel(values(k, K), O);
  if (DX == 1 && DY == 1 && X0 == 0 && Y0 == 0 && X1 == SX - 1 && Y1 == SY - 1) {
    kernel.correlate2dTo(r, o);
  } else {
    const PositionSampling<2> s({{X0, Y0}, {X1, Y1}}, {DX, DY});
    kernel.sparseCorrelate2dTo(r, s, o);
  }
#pragma clang loop unroll(full)
  for (long i = 0; i < W * HT; ++i) {
    const double sum = both<K, O, SX, SY>(k, in, X0 + i % W * DX, Y0 + i / W * DY);
    litl_eq("sum of the products with the neighbors along both axes", out[i], sum);
  }
}
#define CIO const double *__restrict k, const double *__restrict in, double *__restrict out
H h_both_a(CIO) { sparse<3, 1, 4, 3, 0, 3, 1, 0, 2, 1>(k, in, out); }
H h_both_b(CIO) { sparse<2, 0, 3, 3, 0, 2, 1, 0, 2, 1>(k, in, out); }
H h_both_c(CIO) { sparse<3, 1, 5, 5, 0, 4, 2, 0, 4, 2>(k, in, out); }
H h_both_d(CIO) { sparse<3, 2, 4, 5, 1, 3, 1, 1, 3, 2>(k, in, out); }
H h_both_e(CIO) { sparse<3, 0, 5, 4, 1, 4, 3, 2, 2, 1>(k, in, out); }
H h_both_f(CIO) { sparse<1, 0, 3, 4, 2, 2, 1, 0, 3, 3>(k, in, out); }
H h_both_g(CIO) { sparse<4, 2, 3, 3, 0, 2, 1, 0, 2, 1>(k, in, out); }
// properties
template <typename TK>
INL void made(const TK& kernel, const double* k, int n, int o) {
  EQI("origin", kernel.origin(), o);
  EQI("size", kernel.size(), n);
  EQI("front of the window", kernel.window().front(), -o);
  EQI("back of the window", kernel.window().back(), n - 1 - o);
  EQI("size of the window", kernel.window().size(), n);
  EQP("data at origin", kernel.originData(), kernel.data() + o);
  for (int i = 0; i < n; ++i) {
    litl_eq("values", kernel.data()[i], k[i]);
    litl_eq("values", kernel[i], k[i]);
  }
}
template <int K, int o>
INL void makes(const double* k) {
  made(LineKernel<double>(values(k, K), o), k, K, o);
  made(LineKernel<double>(values(k, K)), k, K, K / 2);
  made(kernelize(k, Segment(-o, K - 1 - o)), k, K, o);
  const auto v = values(k, K);
  const Sequence<double> s(v);
  made(kernelize(s), k, K, K / 2);
  made(kernelize(s, o), k, K, o);
  const Kernel1d<double> old(values(k, K), o);
  EQI("values before the origin", old.backward(), o);
  EQI("values after the origin", old.forward(), K - 1 - o);
  EQP("data at origin", old.originData(), old.data() + o);
}
H h_made_10(const double* __restrict k) { makes<1, 0>(k); }
H h_made_20(const double* __restrict k) { makes<2, 0>(k); }
H h_made_21(const double* __restrict k) { makes<2, 1>(k); }
H h_made_31(const double* __restrict k) { makes<3, 1>(k); }
H h_made_32(const double* __restrict k) { makes<3, 2>(k); }
H h_made_42(const double* __restrict k) { makes<4, 2>(k); }
H h_made_40(const double* __restrict k) { makes<4, 0>(k); }
