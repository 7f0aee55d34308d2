// Correlation with N-D kernels: concrete geometries, symbolic values.
#include "devirt.h"
#include "LitlTransforms/Kernel.h"
#include "litl_obl.h"
using namespace Litl;
template <Index N>
struct Geo {
  long shape[N], front[N], back[N];
};
enum Method { CONST, NEAR, PERIOD };
template <Index N>
INL long offset(const long* s, const long* p) {
  long o = 0;
  for (int i = N; i-- > 0;) o = o * s[i] + p[i];
  return o;
}
template <Index N>
INL void position(const long* s, long i, long* p) {
  for (int k = 0; k < N; ++k) {
    p[k] = i % s[k];
    i /= s[k];
  }
}
// the extrapolated value
template <Method M, typename T, Index N>
INL T ext(const Geo<N>& g, const T* in, T v, const long* p) {
  long q[N];
  for (int k = 0; k < N; ++k) {
    q[k] = p[k];
    const bool out = p[k] < 0 || p[k] >= g.shape[k];
    if (M == CONST && out) return v;
    if (M == NEAR) q[k] = p[k] < 0 ? 0 : out ? g.shape[k] - 1 : p[k];
    if (M == PERIOD) q[k] = ((p[k] % g.shape[k]) + g.shape[k]) % g.shape[k];
  }
  return in[offset<N>(g.shape, q)];
}
template <Method M, Index N, typename T, typename TR>
INL auto extrapolator(const TR& r, T v) {
  if constexpr (M == CONST) return extrapolate<OutOfBoundsConstant<T>>(r, v);
  else if constexpr (M == NEAR) return extrapolate<NearestNeighbor>(r);
  else return extrapolate<Periodic>(r);
}
template <Index N>
INL Position<N> mk(const long* p) {
  Position<N> o;
  for (int i = 0; i < N; ++i) o[i] = p[i];
  return o;
}
template <Method M, typename T, Index N>
INL void corr(const Geo<N> g, const T* k, const T* in, T v, T* out) {
  const PtrRaster<const T, N> r(mk<N>(g.shape), in);
  const auto e = extrapolator<M, N>(r, v);
  auto kernel = kernelize(k, Box<N>(mk<N>(g.front), mk<N>(g.back)));
  long size = 1, ks[N], ksize = 1;
  for (int i = 0; i < N; ++i) {
    size *= g.shape[i];
    ks[i] = g.back[i] - g.front[i] + 1;
    ksize *= ks[i];
  }
  T before[8], after[8];
#pragma clang loop unroll(full)
  for (int i = 0; i < 8; ++i) {
    before[i] = out[i - 8];
    after[i] = out[size + i];
  }
  PtrRaster<T, N> o(mk<N>(g.shape), out);
  kernel.correlateTo(e, o);
#pragma clang loop unroll(full)
  for (int i = 0; i < 8; ++i) {
    litl_eq("nothing is written before the output", out[i - 8], before[i]);
    litl_eq("nothing is written past the output", out[size + i], after[i]);
  }
#pragma clang loop unroll(full)
  for (long i = 0; i < size; ++i) {
    long p[N];
    position<N>(g.shape, i, p);
    T sum {};
#pragma clang loop unroll(full)
    for (long j = 0; j < ksize; ++j) {
      long q[N];
      position<N>(ks, j, q);
      for (int a = 0; a < N; ++a) q[a] += p[a] + g.front[a];
      sum += k[j] * ext<M, T, N>(g, in, v, q);
    }
    litl_eq("weighted sum of the extrapolated neighbors", out[i], sum);
  }
}
#define IN(T) const T *__restrict k, const T *__restrict in, T v, T *__restrict out
#define CORR(NAME, T, N, ...) \
  H h_const_##NAME(IN(T)) { corr<CONST, T, N>(Geo<N> __VA_ARGS__, k, in, v, out); } \
  H h_near_##NAME(IN(T)) { corr<NEAR, T, N>(Geo<N> __VA_ARGS__, k, in, v, out); } \
  H h_period_##NAME(IN(T)) { corr<PERIOD, T, N>(Geo<N> __VA_ARGS__, k, in, v, out); }
CORR(1a, double, 1, {{5}, {-1}, {1}})
CORR(1b, double, 1, {{3}, {-2}, {2}})
CORR(1c, double, 1, {{4}, {0}, {2}})
CORR(1d, double, 1, {{4}, {1}, {2}})
CORR(1e, double, 1, {{2}, {-4}, {-3}})
CORR(1f, double, 1, {{4}, {-2}, {-1}})
CORR(2g, double, 2, {{3, 3}, {-2, 1}, {-1, 2}})
CORR(2a, double, 2, {{4, 3}, {-1, -1}, {1, 1}})
CORR(2b, double, 2, {{3, 4}, {0, -1}, {1, 0}})
CORR(2c, int, 2, {{3, 3}, {-1, 0}, {0, 0}})
CORR(2d, double, 2, {{2, 2}, {-1, -1}, {1, 1}})
CORR(2e, double, 2, {{3, 2}, {0, 1}, {1, 1}})
CORR(2f, double, 2, {{1, 3}, {-2, 0}, {0, 1}})
CORR(2h, double, 2, {{4, 2}, {-1, -2}, {0, -1}})
CORR(3a, double, 3, {{2, 3, 2}, {-1, 0, 0}, {0, 1, 0}})
CORR(3b, double, 3, {{2, 2, 3}, {0, -1, -1}, {0, 0, 0}})
CORR(3c, double, 3, {{3, 1, 2}, {0, 0, -1}, {1, 0, 1}})
// many pixels, large kernels
CORR(1large, double, 1, {{67}, {-1}, {1}})
CORR(1wide, double, 1, {{5}, {-8}, {8}})
CORR(2large, double, 2, {{9, 8}, {-1, -1}, {1, 1}})
CORR(2flat, double, 2, {{35, 2}, {-1, 0}, {1, 1}})
CORR(2wide, double, 2, {{3, 3}, {-2, -2}, {2, 2}})
// properties
H h_prop_2(double* __restrict k, double v) {
  const PtrRaster<double, 2> r({3, 2}, k);
  auto a = kernelize(r, Position<2> {2, 0});
  auto b = kernelize(r);
  auto c = kernelize(k, Box<2>({-2, 0}, {0, 1}));
  const auto& ca = a;
  for (int i = 0; i < 2; ++i) {
    EQI("window front", ca.window().front()[i], i == 0 ? -2 : 0);
    EQI("window back", ca.window().back()[i], i == 0 ? 0 : 1);
    EQI("centered window front", b.window().front()[i], -1);
    EQI("centered window back", b.window().back()[i], i == 0 ? 1 : 0);
    EQI("given window front", c.window().front()[i], i == 0 ? -2 : 0);
    EQI("given window back", c.window().back()[i], i == 0 ? 0 : 1);
    EQI("shape", ca.shape()[i], 3 - i);
    EQI("shape of the values", ca.raster().shape()[i], 3 - i);
    EQI("shape of the writable values", a.raster().shape()[i], 3 - i);
  }
  const auto cr = ca.raster();
  auto mr = a.raster();
  EQP("values", cr.data(), mr.data());
#pragma clang loop unroll(full)
  for (int i = 0; i < 6; ++i) {
    litl_eq("values", cr.data()[i], k[i]);
    litl_eq("values", b.raster().data()[i], k[i]);
    litl_eq("values", c.raster().data()[i], k[i]);
  }
  mr[{1, 1}] = v;
  litl_eq("writable values", ca.raster().data()[4], v);
  litl_eq("values are copied", b.raster().data()[4], k[4]);
}
H h_prop_3(int* __restrict k) {
  const PtrRaster<int, 3> r({1, 2, 3}, k);
  const auto b = kernelize(r);
  EQI("centered window front", b.window().front()[0], 0);
  EQI("centered window front", b.window().front()[1], -1);
  EQI("centered window front", b.window().front()[2], -1);
  EQI("centered window back", b.window().back()[0], 0);
  EQI("centered window back", b.window().back()[1], 0);
  EQI("centered window back", b.window().back()[2], 1);
}
// as an operator
H h_times(const double* __restrict k, const double* __restrict in) {
  const PtrRaster<const double, 2> r({3, 2}, in);
  auto kernel = kernelize(k, Box<2>({0, 0}, {1, 0}));
  const auto e = extrapolate<NearestNeighbor>(r);
  const auto out = kernel * e;
  EQI("shape", out.shape()[0], 3);
  EQI("shape", out.shape()[1], 2);
#pragma clang loop unroll(full)
  for (int i = 0; i < 6; ++i) litl_eq("weighted sum", out.data()[i], k[0] * in[i] + k[1] * in[i % 3 == 2 ? i : i + 1]);
}
// variable dimension
H h_variable(const double* __restrict k, const double* __restrict in, double* __restrict out) {
  const PtrRaster<const double, -1> r({3, 2}, in);
  PtrRaster<double, -1> o({3, 2}, out);
  auto kernel = kernelize(k, Box<-1>(Position<-1> {0, 0}, Position<-1> {1, 0}));
  const auto e = extrapolate<NearestNeighbor>(r);
  kernel.correlateTo(e, o);
#pragma clang loop unroll(full)
  for (int i = 0; i < 6; ++i) litl_eq("weighted sum", out[i], k[0] * in[i] + k[1] * in[i % 3 == 2 ? i : i + 1]);
}
