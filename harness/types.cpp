// Type limits, elementary helpers, index segments.
#include "plain_std.h"
#include <climits>
#include <cfloat>
#include <tuple>
#include "LitlTypes/TypeUtils.h"
#include "LitlTypes/Segment.h"
#include "litl_obl.h"
using namespace Litl;
template <typename T>
INL void limits(T zero, T one, T min, T max, T inf, T eps, T amin, T amax, T hmin, T hmax) {
  NOTHROW("limits");
  litl_eq("zero", Limits<T>::zero(), zero);
  litl_eq("one", Limits<T>::one(), one);
  litl_eq("min", Limits<T>::min(), min);
  litl_eq("max", Limits<T>::max(), max);
  litl_eq("inf", Limits<T>::inf(), inf);
  litl_eq("epsilon", Limits<T>::epsilon(), eps);
  litl_eq("almostMin", Limits<T>::almostMin(), amin);
  litl_eq("almostMax", Limits<T>::almostMax(), amax);
  litl_eq("halfMin", Limits<T>::halfMin(), hmin);
  litl_eq("halfMax", Limits<T>::halfMax(), hmax);
}
#define INTL(N, T, LO, HI) H h_lim_##N() { limits<T>(0, 1, LO, HI, HI, 1, LO + 1, HI - 1, LO / 2, (T)(HI / 2 + 1)); }
INTL(u8, unsigned char, 0, 255) INTL(i8, signed char, -128, 127) INTL(c, char, CHAR_MIN, CHAR_MAX)
INTL(i16, short, SHRT_MIN, SHRT_MAX) INTL(u16, unsigned short, 0, USHRT_MAX)
INTL(i32, int, INT_MIN, INT_MAX) INTL(u32, unsigned, 0u, UINT_MAX) INTL(i64, long, LONG_MIN, LONG_MAX)
INTL(u64, unsigned long, 0ul, ULONG_MAX) INTL(ll, long long, LLONG_MIN, LLONG_MAX) INTL(ull, unsigned long long, 0ull, ULLONG_MAX)
H h_lim_b() {
  REQ("zero of Booleans", Limits<bool>::zero() == false);
  REQ("one of Booleans", Limits<bool>::one() == true);
  REQ("min of Booleans", Limits<bool>::min() == false);
  REQ("max of Booleans", Limits<bool>::max() == true);
  REQ("half max of Booleans", Limits<bool>::halfMax() == true);
  REQ("half min of Booleans", Limits<bool>::halfMin() == false);
}
H h_lim_f() { limits<float>(0, 1, -FLT_MAX, FLT_MAX, __builtin_inff(), FLT_EPSILON, -FLT_MAX + FLT_EPSILON, FLT_MAX - FLT_EPSILON, -FLT_MAX / 2, FLT_MAX / 2); }
H h_lim_d() { limits<double>(0, 1, -DBL_MAX, DBL_MAX, __builtin_inf(), DBL_EPSILON, -DBL_MAX + DBL_EPSILON, DBL_MAX - DBL_EPSILON, -DBL_MAX / 2, DBL_MAX / 2); }
template <typename T>
INL void climits(T max, T eps, T inf) {
  using C = std::complex<T>;
  limits<C>(C(0, 0), C(1, 1), C(-max, -max), C(max, max), C(inf, inf), C(eps, eps), C(-max + eps, -max + eps), C(max - eps, max - eps), C(-max / 2, -max / 2), C(max / 2, max / 2));
}
H h_lim_cf() { climits<float>(FLT_MAX, FLT_EPSILON, __builtin_inff()); }
H h_lim_cd() { climits<double>(DBL_MAX, DBL_EPSILON, __builtin_inf()); }
static_assert(std::is_same<TypeTraits<int>::Floating, double>::value && std::is_same<TypeTraits<float>::Floating, float>::value, "floating type");
static_assert(std::is_same<TypeTraits<std::complex<float>>::Floating, std::complex<float>>::value, "complex floating type");
static_assert(std::is_same<TypeTraits<std::complex<float>>::Scalar, float>::value && std::is_same<TypeTraits<char>::Scalar, char>::value, "scalar type");
static_assert(std::is_signed<Index>::value && std::is_integral<Index>::value && sizeof(Index) == 8, "index type");
template <typename T>
INL void fromscalar(T x) {
  litl_eq("scalar from scalar", TypeTraits<T>::fromScalar(x), x);
  litl_eq("complex from scalar", TypeTraits<std::complex<T>>::fromScalar(x), std::complex<T>(x, x));
  litl_eq("scalar function", TypeTraits<T>::applyScalar([](T v) { return v * 2 + 1; }, x), x * 2 + 1);
  litl_eq("scalar function applied to both components", TypeTraits<std::complex<T>>::applyScalar([](T v) { return v * 2 + 1; }, x), std::complex<T>(x * 2 + 1, x * 2 + 1));
}
H h_scalar_f(float x) { fromscalar(x); }
H h_scalar_d(double x) { fromscalar(x); }
template <typename T, typename U>
INL void clamped(T x, U lo, U hi) {
  ASSUME(lo <= hi);
  NOTHROW("clamp");
  const T y = clamp(x, lo, hi);
  REQ("not below the minimum", y >= T(lo));
  REQ("not above the maximum", y <= T(hi));
  REQ("values inside are unchanged", x < T(lo) || x > T(hi) || y == x);
  REQ("the result is the nearest bound", y == x || y == T(lo) || y == T(hi));
  REQ("values below go to the minimum", !(x < T(lo)) || y == T(lo));
  REQ("values above go to the maximum", !(x > T(hi)) || y == T(hi));
}
H h_clamp_l(long x, long lo, long hi) { clamped(x, lo, hi); }
H h_clamp_i(int x, int lo, int hi) { clamped(x, lo, hi); }
H h_clamp_u(unsigned x, unsigned lo, unsigned hi) { clamped(x, lo, hi); }
H h_clamp_d(double x, double lo, double hi) { ASSUME(x == x); ASSUME(lo == lo); ASSUME(hi == hi); clamped(x, lo, hi); }
H h_clamp_di(double x, int lo, int hi) { ASSUME(x == x); clamped(x, lo, hi); }
H h_clamp_df(double x, float lo, float hi) { ASSUME(x == x); ASSUME(lo == lo); ASSUME(hi == hi); clamped(x, lo, hi); }
H h_clamp_li(long x, int lo, int hi) { clamped(x, lo, hi); }
H h_clamp_dl(double x, long lo, long hi) { ASSUME(x == x); ASSUME(lo > -(1L << 40)); ASSUME(hi < 1L << 40); clamped(x, lo, hi); }
H h_floor_dl(double x) { ASSUME(x > -1e6); ASSUME(x < 1e6); EQI("floor", Litl::floor<long>(x), __builtin_floor(x)); }
H h_floor_di(double x) { ASSUME(x > -1e6); ASSUME(x < 1e6); EQI("floor", Litl::floor<int>(x), __builtin_floor(x)); }
H h_floor_fl(float x) { ASSUME(x > -1e6f); ASSUME(x < 1e6f); EQI("floor", Litl::floor<long>(x), __builtin_floorf(x)); }
H h_seg(long f, long b) {
  NOTHROW("segments");
  ASSUME(f <= b); ASSUME(f > -1000000); ASSUME(b < 1000000);
  Segment s(f, b);
  EQI("front", s.front(), f);
  EQI("back", s.back(), b);
  EQI("size", s.size(), b - f + 1);
  Segment t = Segment::fromSize(f, s.size());
  EQI("front from size", t.front(), f);
  EQI("back from size", t.back(), b);
  EQI("size from size", t.size(), b - f + 1);
}
