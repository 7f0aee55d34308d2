// Mathematical functions: element-wise application of the standard function of same name.
#include "plain_std.h"
#include "LitlContainer/Sequence.h"
#include "LitlRaster/Raster.h"
#include "litl_obl.h"
using namespace Litl;
template <typename T, std::size_t S>
using Arr = Sequence<T, StdHolder<std::array<T, S>>>;
template <typename T>
using Ras = Raster<T, 2, StdHolder<std::array<T, 4>>>;
template <typename C, typename T>
INL void put(C& c, const T* p, int n) { for (int i = 0; i < n; ++i) c.data()[i] = p[i]; }
#define UN(F) \
  template <typename C, typename T, int S> \
  INL void un_##F(C a, const T* p) { \
    put(a, p, S); \
    const C b = Litl::F(a); \
    for (int i = 0; i < S; ++i) { litl_eq("new instance", b.data()[i], T(std::F(p[i]))); litl_eq("argument is unchanged", a.data()[i], p[i]); } \
    C& r = a.F(); \
    REQ("in-place function returns the container", &r == &a); \
    for (int i = 0; i < S; ++i) litl_eq("in place", a.data()[i], T(std::F(p[i]))); \
  } \
  H h_un_##F##_d(const double* __restrict p) { un_##F<Arr<double, 3>, double, 3>(Arr<double, 3>(3), p); } \
  H h_un_##F##_f(const float* __restrict p) { un_##F<Ras<float>, float, 4>(Ras<float>({2, 2}), p); }
#define BIN(F) \
  template <typename C, typename T, int S> \
  INL void bin_##F(C a, const T* p, const T* q) { \
    C o(a); \
    put(a, p, S); put(o, q, S); \
    const C b = Litl::F(a, o); \
    const C c = Litl::F(a, q[0]); \
    for (int i = 0; i < S; ++i) { \
      litl_eq("new instance", b.data()[i], T(std::F(p[i], q[i]))); litl_eq("new instance with a scalar", c.data()[i], T(std::F(p[i], q[0]))); \
      litl_eq("argument is unchanged", a.data()[i], p[i]); litl_eq("argument is unchanged", o.data()[i], q[i]); } \
    C d(a), e(a), f(a); \
    REQ("in-place function returns the container", &d.F(o) == &d); \
    REQ("in-place function returns the container", &e.F(q[0]) == &e); \
    f.F(f.data()[0]); \
    a.F(a); \
    for (int i = 0; i < S; ++i) { \
      litl_eq("in place", d.data()[i], T(std::F(p[i], q[i]))); litl_eq("in place with a scalar", e.data()[i], T(std::F(p[i], q[0]))); \
      litl_eq("in place with an element", f.data()[i], T(std::F(p[i], p[0]))); litl_eq("in place with itself", a.data()[i], T(std::F(p[i], p[i]))); } \
  } \
  H h_bin_##F##_d(const double* __restrict p, const double* __restrict q) { bin_##F<Arr<double, 3>, double, 3>(Arr<double, 3>(3), p, q); } \
  H h_bin_##F##_f(const float* __restrict p, const float* __restrict q) { bin_##F<Ras<float>, float, 4>(Ras<float>({2, 2}), p, q); }
UN(abs) UN(ceil) UN(floor) UN(trunc) UN(round) UN(cos) UN(sin) UN(tan) UN(acos) UN(asin) UN(atan) UN(cosh) UN(sinh) UN(tanh) UN(acosh) UN(asinh) UN(atanh)
UN(exp) UN(exp2) UN(expm1) UN(log) UN(log2) UN(log10) UN(logb) UN(ilogb) UN(log1p) UN(sqrt) UN(cbrt) UN(erf) UN(erfc) UN(tgamma) UN(lgamma)
BIN(max) BIN(min) BIN(fdim) BIN(fmod) BIN(atan2) BIN(pow) BIN(hypot)
H h_int_abs(const int* __restrict p) { un_abs<Arr<int, 3>, int, 3>(Arr<int, 3>(3), p); }
H h_int_sqrt(const int* __restrict p) { un_sqrt<Arr<int, 2>, int, 2>(Arr<int, 2>(2), p); }
H h_int_max(const int* __restrict p, const int* __restrict q) { bin_max<Arr<int, 3>, int, 3>(Arr<int, 3>(3), p, q); }
H h_int_min(const long* __restrict p, const long* __restrict q) { bin_min<Arr<long, 3>, long, 3>(Arr<long, 3>(3), p, q); }
// complex rasters: the function of same name on each element
#define CR(F) \
  H h_cr_##F(const std::complex<double>* __restrict p) { \
    Raster<std::complex<double>, 2, StdHolder<std::array<std::complex<double>, 2>>> a({2, 1}); \
    put(a, p, 2); \
    const auto b = Litl::F(a); \
    REQ("shape", b.shape() == a.shape()); \
    for (int i = 0; i < 2; ++i) litl_eq("value", b.data()[i], std::F(p[i])); \
  } \
  H h_crf_##F(const std::complex<float>* __restrict p) { \
    Raster<std::complex<float>, 1, StdHolder<std::array<std::complex<float>, 3>>> a({3}); \
    put(a, p, 3); \
    const auto b = Litl::F(a); \
    for (int i = 0; i < 3; ++i) litl_eq("value", b.data()[i], std::F(p[i])); \
  }
CR(real) CR(imag) CR(abs) CR(arg) CR(norm)
// the constant: both the first call and the following ones
H h_first_pi() {
  for (int i = 0; i < 2; ++i) {
    REQ("pi", std::abs(pi<double>() - 3.14159265358979323846) < 1e-15);
    REQ("pi", std::abs(pi<float>() - 3.14159265358979323846f) < 5e-7f);
  }
}
