// Operands which belong to the container itself: results are those of the operand values before the call.
#include "plain_std.h"
#include "LitlContainer/Sequence.h"
#include "LitlRaster/Raster.h"
#include "LitlRaster/Vector.h"
#include "litl_obl.h"
using namespace Litl;
constexpr int S = 4;
template <typename C, typename T>
INL C make(const T* p) {
  C c(S);
  for (int i = 0; i < S; ++i) c.data()[i] = p[i];
  return c;
}
template <typename C, typename T>
INL C make(const T* p, const Position<2>& shape) {
  C c(shape);
  for (int i = 0; i < S; ++i) c.data()[i] = p[i];
  return c;
}
#define AL(OP, ...) \
  for (int j = 0; j < S; ++j) { \
    auto a = make<C, T>(p __VA_ARGS__); \
    a OP## = a[j]; \
    for (int i = 0; i < S; ++i) litl_eq("a" #OP "=a[j]", a.data()[i], T(p[i] OP p[j])); \
  }
#define ROOT(N, CC, TT, ...) \
  H h_al_##N(const TT* __restrict p) { \
    using C = CC; \
    using T = TT; \
    AL(+, __VA_ARGS__) AL(-, __VA_ARGS__) AL(*, __VA_ARGS__) \
  } \
  H h_ald_##N(const TT* __restrict p) { \
    using C = CC; \
    using T = TT; \
    AL(/, __VA_ARGS__) \
  }
template <typename T>
using ArrSeq = Sequence<T, StdHolder<std::array<T, S>>>;
using ArrRas = Raster<int, 2, StdHolder<std::array<int, S>>>;
using V4 = Vector<long, S>;
ROOT(seq_i, ArrSeq<int>, int)
ROOT(seq_d, ArrSeq<double>, double)
ROOT(seq_u, ArrSeq<unsigned char>, unsigned char)
ROOT(dyn_i, Sequence<int>, int)
ROOT(vec_l, V4, long)
#define CM ,
H h_al_ras(const int* __restrict p) {
  using C = ArrRas;
  using T = int;
  AL(+, , {2 CM 2}) AL(-, , {2 CM 2}) AL(*, , {2 CM 2})
}
H h_al_mod(const int* __restrict p) {
  using C = ArrSeq<int>;
  using T = int;
  AL(%)
}
template <typename C, typename T>
INL void fills(const T* p) {
  for (int j = 0; j < S; ++j) {
    auto a = make<C, T>(p);
    a.fill(a[j]);
    for (int i = 0; i < S; ++i) litl_eq("fill(a[j])", a.data()[i], p[j]);
    auto b = make<C, T>(p);
    b.range(b[j], b[(j + 1) % S]);
    T v = p[j];
    for (int i = 0; i < S; ++i) {
      litl_eq("range(a[j], a[k])", b.data()[i], v);
      v += p[(j + 1) % S];
    }
    auto c = make<C, T>(p);
    c.linspace(c[j], c[(j + 1) % S]);
    litl_eq("linspace(a[j], a[k]) front", c.data()[0], p[j]);
    litl_eq("linspace(a[j], a[k]) back", c.data()[S - 1], p[(j + 1) % S]);
    auto d = make<C, T>(p);
    auto e = make<C, T>(p);
    const T x = p[j], y = p[(j + 1) % S];
    e.linspace(x, y);
    for (int i = 0; i < S; ++i) litl_eq("linspace(a[j], a[k])", c.data()[i], e.data()[i]);
  }
}
H h_fill_i(const int* __restrict p) { fills<ArrSeq<int>, int>(p); }
H h_fill_d(const double* __restrict p) { fills<ArrSeq<double>, double>(p); }
H h_fill_c(const std::complex<double>* __restrict p) {
  for (int j = 0; j < S; ++j) {
    auto a = make<ArrSeq<std::complex<double>>, std::complex<double>>(p);
    a.fill(a[j]);
    for (int i = 0; i < S; ++i) litl_eq("fill(a[j])", a.data()[i], p[j]);
  }
}
