// Median and morphological filters: concrete geometries, symbolic values.
#include "devirt.h"
#include "ghost_order.h"
#include "LitlRaster/Ball.h"
#include "LitlTransforms/MedianFilter.h"
#include "LitlTransforms/StructuringElement.h"
using namespace Litl;
enum Method { CONST, NEAR, PERIOD };
enum Op { MED, SMED, ERO, DIL };
template <Index N>
struct Geo {
  long shape[N], front[N], back[N]; // raster, window
  long rf[N], rb[N]; // region
};
template <Index N>
INL long offset(const long* s, const long* p) {
  long o = 0;
  for (int i = N; i-- > 0;) o = o * s[i] + p[i];
  return o;
}
template <Index N>
INL void position(const long* s, long i, long* p) {
  for (int k = 0; k < N; ++k) {
    p[k] = i % s[k];
    i /= s[k];
  }
}
template <Index N>
INL Position<N> mk(const long* p) {
  Position<N> o;
  for (int i = 0; i < N; ++i) o[i] = p[i];
  return o;
}
template <Method M, typename T, Index N>
INL T ext(const Geo<N>& g, const T* in, T v, const long* p) {
  long q[N];
  for (int k = 0; k < N; ++k) {
    q[k] = p[k];
    const bool out = p[k] < 0 || p[k] >= g.shape[k];
    if (M == CONST && out) return v;
    if (M == NEAR) q[k] = p[k] < 0 ? 0 : out ? g.shape[k] - 1 : p[k];
    if (M == PERIOD) q[k] = ((p[k] % g.shape[k]) + g.shape[k]) % g.shape[k];
  }
  return in[offset<N>(g.shape, q)];
}
template <Method M, typename T, typename TR>
INL auto extrapolator(const TR& r, T v) {
  if constexpr (M == CONST) return extrapolate<OutOfBoundsConstant<T>>(r, v);
  else if constexpr (M == NEAR) return extrapolate<NearestNeighbor>(r);
  else return extrapolate<Periodic>(r);
}
template <Op O, typename U, typename T>
INL U stat(T* v, int n) {
  if constexpr (O == ERO || O == DIL) {
    T m = v[0];
    for (int i = 1; i < n; ++i) m = (O == ERO ? v[i] < m : m < v[i]) ? v[i] : m;
    return U(m);
  } else {
    ghost_order(v, n);
    if (n % 2) return U(v[n / 2]);
    return U((v[n / 2 - 1] + v[n / 2]) * .5);
  }
}
template <Method M, Op O, typename T, Index N, bool Whole>
INL void filter(const Geo<N> g, const T* in, T v, T* out) {
  const PtrRaster<const T, N> r(mk<N>(g.shape), in);
  const auto e = extrapolator<M>(r, v);
  long size = 1, ws[N], wsize = 1;
  for (int i = 0; i < N; ++i) {
    size *= g.shape[i];
    ws[i] = g.back[i] - g.front[i] + 1;
    wsize *= ws[i];
  }
  T old[64];
#pragma clang loop unroll(full)
  for (int i = -4; i < size + 4; ++i) old[i + 4] = out[i];
  PtrRaster<T, N> o(mk<N>(g.shape), out);
  const Box<N> w(mk<N>(g.front), mk<N>(g.back)), region(mk<N>(g.rf), mk<N>(g.rb));
  if constexpr (O == MED) {
    MedianFilter<T, N> f(w);
    if constexpr (Whole) f.applyTo(e, o);
    else f.applyTo(e, o, region);
  } else {
    StructuringElement<T, N> f(w);
    if constexpr (O == SMED) {
      if constexpr (Whole) f.medianTo(e, o);
      else f.medianTo(e, o, region);
    } else if constexpr (O == ERO) {
      if constexpr (Whole) f.erodeTo(e, o);
      else f.erodeTo(e, o, region);
    } else {
      if constexpr (Whole) f.dilateTo(e, o);
      else f.dilateTo(e, o, region);
    }
  }
#pragma clang loop unroll(full)
  for (long i = -4; i < size + 4; ++i) {
    long p[N];
    bool inside = i >= 0 && i < size;
    if (inside) {
      position<N>(g.shape, i, p);
      if (!Whole) for (int k = 0; k < N; ++k) inside &= p[k] >= g.rf[k] && p[k] <= g.rb[k];
    }
    if (inside) {
      T n[16];
#pragma clang loop unroll(full)
      for (long j = 0; j < wsize; ++j) {
        long q[N];
        position<N>(ws, j, q);
        for (int a = 0; a < N; ++a) q[a] += p[a] + g.front[a];
        n[j] = ext<M, T, N>(g, in, v, q);
      }
      litl_eq("statistic of the extrapolated neighbors", out[i], stat<O, T>(n, int(wsize)));
    } else {
      litl_eq("nothing is written out of the region", out[i], old[i + 4]);
    }
  }
}
#define IN(T) const T *__restrict in, T v, T *__restrict out
#define FILT(NAME, T, N, ...) \
  H h_med_##NAME(IN(T)) { filter<NEAR, MED, T, N, true>(Geo<N> __VA_ARGS__, in, v, out); } \
  H h_medr_##NAME(IN(T)) { filter<CONST, MED, T, N, false>(Geo<N> __VA_ARGS__, in, v, out); } \
  H h_smed_##NAME(IN(T)) { filter<CONST, SMED, T, N, true>(Geo<N> __VA_ARGS__, in, v, out); } \
  H h_smedr_##NAME(IN(T)) { filter<PERIOD, SMED, T, N, false>(Geo<N> __VA_ARGS__, in, v, out); } \
  H h_ero_##NAME(IN(T)) { filter<PERIOD, ERO, T, N, true>(Geo<N> __VA_ARGS__, in, v, out); } \
  H h_eror_##NAME(IN(T)) { filter<NEAR, ERO, T, N, false>(Geo<N> __VA_ARGS__, in, v, out); } \
  H h_dil_##NAME(IN(T)) { filter<CONST, DIL, T, N, true>(Geo<N> __VA_ARGS__, in, v, out); } \
  H h_dilr_##NAME(IN(T)) { filter<NEAR, DIL, T, N, false>(Geo<N> __VA_ARGS__, in, v, out); }
FILT(1a, double, 1, {{4}, {-1}, {1}, {1}, {2}})
FILT(1b, double, 1, {{3}, {0}, {1}, {0}, {1}})
FILT(1c, unsigned char, 1, {{3}, {-1}, {0}, {1}, {2}})
FILT(1d, double, 1, {{4}, {1}, {2}, {2}, {3}})
FILT(1e, double, 1, {{3}, {-2}, {2}, {0}, {0}})
FILT(1f, double, 1, {{2}, {0}, {0}, {1}, {1}})
FILT(2a, double, 2, {{2, 3}, {-1, 0}, {1, 0}, {0, 1}, {1, 1}})
FILT(2b, double, 2, {{3, 2}, {0, -1}, {0, 1}, {1, 0}, {2, 1}})
FILT(2c, double, 2, {{2, 2}, {0, 0}, {1, 1}, {0, 0}, {0, 1}})
FILT(2d, float, 2, {{3, 2}, {-1, 0}, {0, 0}, {1, 1}, {2, 1}})
FILT(3a, double, 3, {{2, 2, 2}, {0, 0, -1}, {0, 0, 1}, {0, 1, 0}, {1, 1, 1}})
FILT(3b, double, 3, {{2, 1, 2}, {0, -1, 0}, {0, 0, 1}, {0, 0, 1}, {1, 0, 1}})
// returned rasters and centered windows
template <typename T, Index N, typename TF, typename TG>
INL void apply(TF&& f, TG&& g, const Geo<N> s, const T* in) {
  const PtrRaster<const T, N> r(mk<N>(s.shape), in);
  const auto e = extrapolator<NEAR>(r, T());
  const auto a = f.apply(e);
  const auto b = g.median(e);
  long size = 1, ws[N], wsize = 1;
  for (int i = 0; i < N; ++i) {
    size *= s.shape[i];
    ws[i] = s.back[i] - s.front[i] + 1;
    wsize *= ws[i];
    EQI("shape of the filtered raster", a.shape()[i], s.shape[i]);
    EQI("shape of the filtered raster", b.shape()[i], s.shape[i]);
  }
#pragma clang loop unroll(full)
  for (long i = 0; i < size; ++i) {
    long p[N];
    position<N>(s.shape, i, p);
    T n[16];
#pragma clang loop unroll(full)
    for (long j = 0; j < wsize; ++j) {
      long q[N];
      position<N>(ws, j, q);
      for (int k = 0; k < N; ++k) q[k] += p[k] + s.front[k];
      n[j] = ext<NEAR, T, N>(s, in, T(), q);
    }
    const T m = stat<MED, T>(n, int(wsize));
    litl_eq("median of the extrapolated neighbors", a[i], m);
    litl_eq("median of the extrapolated neighbors", b[i], m);
  }
}
H h_apply_1(const double* __restrict in) {
  apply<double, 1>(MedianFilter<double, 1>(), StructuringElement<double, 1>(), {{5}, {-1}, {1}}, in);
}
H h_apply_0(const double* __restrict in) {
  apply<double, 2>(MedianFilter<double, 2>(0), StructuringElement<double, 2>(0), {{2, 2}, {0, 0}, {0, 0}}, in);
}
H h_apply_2(const double* __restrict in) {
  apply<double, 2>(MedianFilter<double, 2>(1), StructuringElement<double, 2>(1), {{2, 1}, {-1, -1}, {1, 1}}, in);
}
H h_apply_box(const int* __restrict in) {
  const Box<2> w({-1, 0}, {0, 1});
  apply<int, 2>(MedianFilter<int, 2>(w), StructuringElement<int, 2>(w), {{2, 2}, {-1, 0}, {0, 1}}, in);
}
// balls: the center and its direct neighbors
H h_ball(const double* __restrict in, double* __restrict out) {
  const PtrRaster<const double, 2> r({3, 2}, in);
  PtrRaster<double, 2> o({3, 2}, out);
  const auto e = extrapolator<NEAR>(r, 0.);
  StructuringElement<double, 2, Ball<2>> f(Ball<2>(1.));
  f.erodeTo(e, o);
  const Geo<2> g {{3, 2}};
#pragma clang loop unroll(full)
  for (int i = 0; i < 6; ++i) {
    const int x = i % 3, y = i / 3;
    double m = 0;
    const long p[5][2] = {{x, y - 1}, {x - 1, y}, {x, y}, {x + 1, y}, {x, y + 1}};
#pragma clang loop unroll(full)
    for (int j = 0; j < 5; ++j) {
      const double v = ext<NEAR, double, 2>(g, in, 0, p[j]);
      m = !j || v < m ? v : m;
    }
    litl_eq("minimum over the ball", out[i], m);
  }
}
