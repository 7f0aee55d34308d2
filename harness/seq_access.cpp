// Bounds-checked access and contiguous iteration of 1D containers, for any size and index.
#include "LitlContainer/Sequence.h"
#include "LitlRaster/Raster.h"
#include "LitlRaster/Vector.h"
#include "litl_obl.h"
using namespace Litl;
template <typename T>
using PtrSeq = Sequence<T, PtrHolder<T>>;
template <typename C>
INL bool sane(const C& c) { return long(c.size()) >= 0 && long(c.size()) < (1l << 56); }

template <typename C>
INL void at_ok(C& a, long i) {
  const long n = a.size();
  ASSUME(n > 0); ASSUME(n < (1l << 56)); ASSUME(i >= -n); ASSUME(i < n);
  NOTHROW("in-range index does not throw");
  auto& v = a.at(i);
  EQP("at(i) is the element counted from the front or back", &v, a.data() + (i < 0 ? i + n : i));
  const C& c = a;
  EQP("const at(i)", &c.at(i), a.data() + (i < 0 ? i + n : i));
}
template <typename C>
INL void at_bad(C& a, long i, bool front) {
  const long n = a.size();
  ASSUME(n >= 0); ASSUME(n < (1l << 56)); ASSUME((front ? i < -n : i >= n));
  THROWS_ONLY("out-of-range index", "Litl::OutOfBoundsError");
  MUST_THROW("out-of-range index throws", a.at(i));
}
template <typename C>
INL void at_badc(const C& a, long i, bool front) {
  const long n = a.size();
  ASSUME(n >= 0); ASSUME(n < (1l << 56)); ASSUME((front ? i < -n : i >= n));
  THROWS_ONLY("out-of-range index", "Litl::OutOfBoundsError");
  MUST_THROW("out-of-range index throws", a.at(i));
}
#define AT(N, ...) \
  H h_at_ok_##N(__VA_ARGS__& a, long i) { at_ok(a, i); } \
  H h_x_at_badf_##N(__VA_ARGS__& a, long i) { at_bad(a, i, true); } \
  H h_x_at_badb_##N(__VA_ARGS__& a, long i) { at_bad(a, i, false); } \
  H h_x_at_badcf_##N(const __VA_ARGS__& a, long i) { at_badc(a, i, true); } \
  H h_x_at_badcb_##N(const __VA_ARGS__& a, long i) { at_badc(a, i, false); }
AT(ptr_i, PtrSeq<int>)
AT(ptr_c, PtrSeq<std::complex<double>>)
AT(vec_d, Sequence<double>)
AT(arr_u, Sequence<unsigned char, StdHolder<std::array<unsigned char, 5>>>)
AT(val_d, Sequence<double, StdHolder<std::valarray<double>>>)
AT(ali_f, Sequence<float, AlignedBuffer<float>>)
AT(ras_i, PtrRaster<int, 2>)
AT(vec3, Vector<long, 3>)

template <typename C>
INL void contiguous(C& a, std::size_t i) {
  const C& c = a;
  const std::size_t n = a.size();
  ASSUME(n < (1l << 56));
  NOTHROW("unchecked access does not throw");
  EQP("a[i]", &a[i], a.data() + i);
  EQP("const a[i]", &c[i], c.data() + i);
  EQP("data is the same for const", a.data(), c.data());
  EQP("begin", a.begin(), a.data());
  EQP("const begin", c.begin(), a.data());
  EQP("cbegin", a.cbegin(), a.data());
  EQP("end", a.end(), a.data() + n);
  EQP("const end", c.end(), a.data() + n);
  EQP("cend", a.cend(), a.data() + n);
  EQP("front", &a.front(), a.data());
  EQP("const front", &c.front(), a.data());
  EQP("back", &a.back(), a.data() + n - 1);
  EQP("const back", &c.back(), a.data() + n - 1);
  EQI("empty iff no element", c.emtpy(), n == 0);
}
#define CON(N, ...) \
  H h_con_##N(__VA_ARGS__& a, std::size_t i) { contiguous(a, i); }
CON(ptr_i, PtrSeq<int>)
CON(ptr_c, PtrSeq<std::complex<double>>)
CON(vec_d, Sequence<double>)
CON(arr_u, Sequence<unsigned char, StdHolder<std::array<unsigned char, 5>>>)
CON(val_d, Sequence<double, StdHolder<std::valarray<double>>>)
CON(ali_f, Sequence<float, AlignedBuffer<float>>)
CON(ras_i, PtrRaster<int, 2>)
CON(vec3, Vector<long, 3>)
