// Separable kernels: concrete geometries, symbolic values.
#include "ghost_map.h"
#include "LitlTransforms/SeparableKernel.h"
#include "litl_obl.h"
using namespace Litl;
template <typename T, int K>
struct Axis {
  T v[K];
  int o;
};
template <typename T>
INL LineKernel<T> line(const T* k, int n, int o) {
  std::vector<T> v(n);
  for (int i = 0; i < n; ++i) v[i] = k[i];
  return LineKernel<T>(v, o);
}
// the values along each axis: n[a] values at k[a] of origin o[a], or n[a] = 0
template <typename T, Index N>
struct Spec {
  const T* k[N];
  long n[N], o[N];
};
template <typename T, Index N>
INL T value(const Spec<T, N>& s, const long* shape, const T* in, long i) {
  long p[N], w[N], size = 1;
  for (int a = 0; a < N; ++a) {
    p[a] = i % shape[a];
    i /= shape[a];
    w[a] = s.n[a] ? s.n[a] : 1;
    size *= w[a];
  }
  T sum {};
#pragma clang loop unroll(full)
  for (long j = 0; j < size; ++j) {
    T c(1);
    long q = 0, l = j, stride = 1;
    bool inside = true;
    for (int a = 0; a < N; ++a) {
      const long m = l % w[a];
      l /= w[a];
      long x = p[a];
      if (s.n[a]) {
        c *= s.k[a][m];
        x += m - s.o[a];
      }
      inside &= x >= 0 && x < shape[a];
      q += x * stride;
      stride *= shape[a];
    }
    if (inside) sum += c * in[q];
  }
  return sum;
}
template <typename T, Index N, typename TK>
INL void apply(const TK& kernel, const Spec<T, N>& s, const Position<N>& shape, const T* in) {
  const PtrRaster<const T, N> r(shape, in);
  const auto out = kernel * r;
  long len[N];
  for (int a = 0; a < N; ++a) {
    len[a] = shape[a];
    EQI("shape", out.shape()[a], shape[a]);
  }
#pragma clang loop unroll(full)
  for (long i = 0; i < long(shapeSize(shape)); ++i) litl_eq("weighted sum of the neighbors along the axes, inside the data", out[i], value<T, N>(s, len, in, i));
}
// properties: window, kernels, composition
template <typename T, Index N, typename TK>
INL void props(const TK& kernel, const Spec<T, N>& s) {
  const auto w = kernel.window();
  const auto c = kernel.compose();
  long size = 1, shape[N];
  for (int a = 0; a < N; ++a) {
    EQI("window front", w.front()[a], s.n[a] ? -s.o[a] : 0);
    EQI("window back", w.back()[a], s.n[a] ? s.n[a] - 1 - s.o[a] : 0);
    EQI("composed window front", c.window().front()[a], s.n[a] ? -s.o[a] : 0);
    EQI("composed window back", c.window().back()[a], s.n[a] ? s.n[a] - 1 - s.o[a] : 0);
    shape[a] = s.n[a] ? s.n[a] : 1;
    size *= shape[a];
    if (s.n[a]) {
      EQI("origin along axis", kernel[a].origin(), s.o[a]);
      EQI("size along axis", kernel[a].size(), s.n[a]);
      for (int i = 0; i < s.n[a]; ++i) litl_eq("values along axis", kernel[a][i], s.k[a][i]);
    }
  }
  const auto r = c.raster();
#pragma clang loop unroll(full)
  for (long i = 0; i < size; ++i) {
    T v(1);
    long l = i;
    for (int a = 0; a < N; ++a) {
      if (s.n[a]) v *= s.k[a][l % shape[a]];
      l /= shape[a];
    }
    litl_eq("composed values are the products", r[i], v);
  }
}
#define IN(T) const T *__restrict k, const T *__restrict in
H h_along_0(IN(double)) {
  const auto kernel = line(k, 3, 0).along<0>();
  const Spec<double, 1> s {{k}, {3}, {0}};
  props(kernel, s);
  apply(kernel, s, Position<1> {4}, in);
}
H h_along_1(IN(double)) {
  const auto kernel = line(k, 3, 2).along<1>();
  const Spec<double, 2> s {{nullptr, k}, {0, 3}, {0, 2}};
  props(kernel, s);
  apply(kernel, s, Position<2> {2, 4}, in);
}
H h_along_01(IN(double)) {
  const auto kernel = line(k, 2, 0).along<0, 1>();
  const Spec<double, 2> s {{k, k}, {2, 2}, {0, 0}};
  props(kernel, s);
  apply(kernel, s, Position<2> {3, 2}, in);
}
H h_along_20(IN(int)) {
  const auto kernel = line(k, 3, 1).along<2, 0>();
  const Spec<int, 3> s {{k, nullptr, k}, {3, 0, 3}, {1, 0, 1}};
  props(kernel, s);
  apply(kernel, s, Position<3> {3, 2, 3}, in);
}
H h_along_012(IN(int)) {
  const auto kernel = line(k, 2, 1).along<0, 1, 2>();
  const Spec<int, 3> s {{k, k, k}, {2, 2, 2}, {1, 1, 1}};
  props(kernel, s);
  apply(kernel, s, Position<3> {2, 3, 2}, in);
}
// a kernel of 2 axes applies along the first axes of a volume
H h_along_volume(IN(int)) {
  const auto kernel = line(k, 3, 1).along<1, 0>();
  const Spec<int, 3> s {{k, k, nullptr}, {3, 3, 0}, {1, 1, 0}};
  apply(kernel, s, Position<3> {2, 2, 2}, in);
}
// products
H h_times_01(IN(double)) {
  const auto kernel = line(k, 3, 1).along<0>() * line(k + 3, 2, 0).along<1>();
  const Spec<double, 2> s {{k, k + 3}, {3, 2}, {1, 0}};
  props(kernel, s);
  apply(kernel, s, Position<2> {3, 3}, in);
}
H h_times_10(IN(double)) {
  const auto kernel = line(k, 3, 1).along<1>() * line(k + 3, 2, 0).along<0>();
  const Spec<double, 2> s {{k + 3, k}, {2, 3}, {0, 1}};
  props(kernel, s);
  apply(kernel, s, Position<2> {3, 3}, in);
}
H h_times_021(IN(int)) {
  const auto a = line(k, 2, 0).along<0, 2>();
  const auto b = line(k + 2, 3, 2).along<1>();
  const auto kernel = a * b;
  const Spec<int, 3> s {{k, k + 2, k}, {2, 3, 2}, {0, 2, 0}};
  props(kernel, s);
  apply(kernel, s, Position<3> {2, 3, 2}, in);
  // operands are unchanged
  const Spec<int, 2> sb {{nullptr, k + 2}, {0, 3}, {0, 2}};
  props(b, sb);
  const Spec<int, 3> sa {{k, nullptr, k}, {2, 0, 2}, {0, 0, 0}};
  props(a, sa);
}
// from a map
H h_map(IN(int)) {
  const std::map<Index, LineKernel<int>> m {{1, line(k, 2, 1)}, {0, line(k + 2, 3, 0)}};
  const SeparableKernel<int, 0, 1> kernel(m);
  const Spec<int, 2> s {{k + 2, k}, {3, 2}, {0, 1}};
  props(kernel, s);
  apply(kernel, s, Position<2> {3, 2}, in);
}
// copies
H h_copy(IN(int)) {
  auto a = line(k, 2, 0).along<0>() * line(k + 2, 3, 1).along<1>();
  const auto b = a;
  a = line(k + 5, 2, 1).along<0>() * line(k + 5, 2, 1).along<1>();
  const Spec<int, 2> s {{k, k + 2}, {2, 3}, {0, 1}};
  props(b, s);
  const Spec<int, 2> sa {{k + 5, k + 5}, {2, 2}, {1, 1}};
  props(a, sa);
}
// named kernels
template <int K>
INL void named(const int* in, int sign) {
  const int mid[] = {1, 2, 10, 0}, side[] = {1, 1, 3, 0};
  const int d[] = {sign, 0, -sign}, m[] = {side[K], mid[K], side[K]}, l[] = {sign, -2 * sign, sign};
  {
    const auto kernel = K == 0 ? SeparableKernel<int, 0, 1>::prewitt(sign) : K == 1 ? SeparableKernel<int, 0, 1>::sobel(sign) : K == 2 ? SeparableKernel<int, 0, 1>::scharr(sign) : SeparableKernel<int, 0, 1>::laplacian(sign);
    const Spec<int, 2> s {{K == 3 ? l : d, K == 3 ? l : m}, {3, 3}, {1, 1}};
    props(kernel, s);
    apply(kernel, s, Position<2> {3, 4}, in);
  }
  {
    const auto kernel = K == 0 ? SeparableKernel<int, 1, 0>::prewitt() : K == 1 ? SeparableKernel<int, 1, 0>::sobel() : K == 2 ? SeparableKernel<int, 1, 0>::scharr() : SeparableKernel<int, 1, 0>::laplacian();
    const int d1[] = {1, 0, -1}, l1[] = {1, -2, 1};
    const Spec<int, 2> s {{K == 3 ? l1 : m, K == 3 ? l1 : d1}, {3, 3}, {1, 1}};
    props(kernel, s);
  }
  {
    const auto kernel = K == 0 ? SeparableKernel<int, 2, 0, 1>::prewitt(sign) : K == 1 ? SeparableKernel<int, 2, 0, 1>::sobel(sign) : K == 2 ? SeparableKernel<int, 2, 0, 1>::scharr(sign) : SeparableKernel<int, 2, 0, 1>::laplacian(sign);
    const Spec<int, 3> s {{K == 3 ? l : m, K == 3 ? l : m, K == 3 ? l : d}, {3, 3, 3}, {1, 1, 1}};
    props(kernel, s);
  }
}
H h_named_prewitt(const int* __restrict in, int sign) { named<0>(in, sign); }
H h_named_sobel(const int* __restrict in, int sign) { named<1>(in, sign); }
H h_named_scharr(const int* __restrict in, int sign) { named<2>(in, sign); }
H h_named_laplacian(const int* __restrict in, int sign) { named<3>(in, sign); }
// writes into given output, of its own type
H h_to(const int* __restrict k, const int* __restrict in, double* __restrict out) {
  const auto kernel = line(k, 2, 0).along<0>();
  const PtrRaster<const int, 2> r({3, 2}, in);
  Raster<double, 2> o({3, 2});
  kernel.correlateTo(r, o);
#pragma clang loop unroll(full)
  for (int i = 0; i < 6; ++i) {
    const int v = i % 3 == 2 ? 0 : in[i + 1];
    litl_eq("values are converted to the type of the output", o[i], double(k[0] * in[i] + k[1] * v));
  }
}
// windows which do not contain the origin
H h_along_away(IN(double)) {
  const auto kernel = line(k, 2, -1).along<0>() * line(k + 2, 1, 2).along<1>();
  const Spec<double, 2> s {{k, k + 2}, {2, 1}, {-1, 2}};
  props(kernel, s);
  apply(kernel, s, Position<2> {4, 3}, in);
}
