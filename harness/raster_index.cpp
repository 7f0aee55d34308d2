// Row-major index, position access, bounds-checked access and domain of rasters of any dimension.
#include "plain_std.h"
#include "LitlRaster/Raster.h"
#include "litl_obl.h"
using namespace Litl;
#define CM ,
template <Index N>
INL Position<N> mk(const long* p, int n) {
  Position<N> o(n);
  for (int i = 0; i < n; ++i) o[i] = p[i];
  return o;
}
INL long offset(const long* s, const long* p, int n) {
  long o = 0, st = 1;
  for (int i = 0; i < n; ++i) {
    o += p[i] * st;
    st *= s[i];
  }
  return o;
}
// A raster seen from outside: any shape, any position
template <typename R, typename P>
INL void index_of(R& r, const P& pos, const long* s, const long* p, int n) {
  const R& c = r;
  NOTHROW("indexing does not throw");
  EQI("dimension", c.dimension(), n);
  EQI("index", c.index(pos), offset(s, p, n));
  EQP("r[pos]", &r[pos], r.data() + offset(s, p, n));
  EQP("const r[pos]", &c[pos], r.data() + offset(s, p, n));
  for (int i = 0; i < n; ++i) {
    EQI("shape", c.shape()[i], s[i]);
    EQI("length", c.length(i), s[i]);
  }
  const auto b = c.domain();
  EQI("dimension of the domain", b.dimension(), n);
  for (int i = 0; i < n; ++i) {
    EQI("front of the domain", b.front()[i], 0);
    EQI("back of the domain", b.back()[i], s[i] - 1);
  }
}
template <typename R, int N>
INL void sym(R& r, const Position<N>& pos) {
  long s[N], p[N];
  for (int i = 0; i < N; ++i) s[i] = r.shape()[i];
  for (int i = 0; i < N; ++i) p[i] = pos[i];
  index_of(r, pos, s, p, N);
}
#define SYM(NAME, N, ...) \
  H h_ix_##NAME##N(__VA_ARGS__& r, const Position<N>& p) { sym<__VA_ARGS__, N>(r, p); }
SYM(ptr, 1, PtrRaster<int CM 1>)
SYM(ptr, 2, PtrRaster<int CM 2>)
SYM(ptr, 3, PtrRaster<int CM 3>)
SYM(ptr, 4, PtrRaster<double CM 4>)
SYM(ptr, 5, PtrRaster<int CM 5>)
SYM(vec, 6, VecRaster<float CM 6>)
SYM(vec, 2, VecRaster<unsigned char CM 2>)
SYM(vec, 3, VecRaster<std::complex<float> CM 3>)
SYM(val, 2, ValRaster<double CM 2>)
SYM(arr, 3, ArrRaster<float CM 24 CM 3>)
SYM(ali, 2, AlignedRaster<double CM 2>)
SYM(ali, 3, AlignedRaster<std::complex<double> CM 3>)
// variable dimension
#define DYN(N) \
  H h_ix_dyn##N(int* d, const long* __restrict s, const long* __restrict p) { \
    PtrRaster<int, -1> r(mk<-1>(s, N), d); \
    index_of(r, mk<-1>(p, N), s, p, N); \
  }
DYN(1) DYN(2) DYN(3) DYN(4) DYN(5) DYN(6)
#define DIM(N, M) \
  H h_x_ix_dyn_##N##_##M(int* d, const long* __restrict s, const long* __restrict p) { \
    PtrRaster<int, -1> r(mk<-1>(s, N), d); \
    THROWS_ONLY("position of other dimension", "Litl::SizeError"); \
    MUST_THROW("position of other dimension is rejected", r.index(mk<-1>(p, M))); \
  } \
  H h_x_ix_dynp_##N##_##M(int* d, const long* __restrict s, const long* __restrict p) { \
    PtrRaster<int, -1> r(mk<-1>(s, N), d); \
    THROWS_ONLY("position of other dimension", "Litl::SizeError"); \
    MUST_THROW("position of other dimension is rejected", r[mk<-1>(p, M)]); \
  }
DIM(1, 2) DIM(2, 1) DIM(2, 3) DIM(3, 1) DIM(3, 2) DIM(3, 4) DIM(4, 1) DIM(4, 3)

// Fixed length along an axis known at compile time
H h_len2(const PtrRaster<int, 2>& r) { EQI("length<0>", r.length<0>(), r.shape()[0]); EQI("length<1>", r.length<1>(), r.shape()[1]); }
H h_len3(const PtrRaster<int, 3>& r) { EQI("length<0>", r.length<0>(), r.shape()[0]); EQI("length<2>", r.length<2>(), r.shape()[2]); }

// Bounds-checked access
constexpr long BIG = 100000;
template <typename R, typename P>
INL void at_ok(R& r, const P& pos, const long* s, const long* p, int n) {
  long q[6];
  for (int i = 0; i < n; ++i) {
    ASSUME(s[i] > 0);
    ASSUME(s[i] < BIG);
    ASSUME(p[i] >= -s[i]);
    ASSUME(p[i] < s[i]);
    q[i] = p[i] < 0 ? p[i] + s[i] : p[i];
  }
  const R& c = r;
  NOTHROW("in-bounds position does not throw");
  EQP("at(pos)", &r.at(pos), r.data() + offset(s, q, n));
  EQP("const at(pos)", &c.at(pos), r.data() + offset(s, q, n));
}
template <typename R, int N>
INL void at_sym(R& r, const Position<N>& pos) {
  long s[N], p[N];
  for (int i = 0; i < N; ++i) s[i] = r.shape()[i];
  for (int i = 0; i < N; ++i) p[i] = pos[i];
  at_ok(r, pos, s, p, N);
}
#define AT(NAME, N, ...) \
  H h_at_##NAME##N(__VA_ARGS__& r, const Position<N>& p) { at_sym<__VA_ARGS__, N>(r, p); }
AT(ptr, 1, PtrRaster<int CM 1>)
AT(ptr, 2, PtrRaster<int CM 2>)
AT(vec, 3, VecRaster<double CM 3>)
AT(ali, 2, AlignedRaster<float CM 2>)
#define ATDYN(N) \
  H h_at_dyn##N(int* d, const long* __restrict s, const long* __restrict p) { \
    PtrRaster<int, -1> r(mk<-1>(s, N), d); \
    at_ok(r, mk<-1>(p, N), s, p, N); \
  }
ATDYN(1) ATDYN(2) ATDYN(3) ATDYN(4) ATDYN(5)
AT(ptr, 5, PtrRaster<int CM 5>)
AT(vec, 6, VecRaster<int CM 6>)

// One axis is out of bounds, on either side, the others are anything in bounds
template <typename R, typename P>
INL void at_bad(R& r, const P& pos, const long* s, const long* p, int n, int axis, bool low) {
  for (int i = 0; i < n; ++i) {
    ASSUME(s[i] > 0);
    ASSUME(s[i] < BIG);
    if (i != axis) {
      ASSUME(p[i] >= -s[i]);
      ASSUME(p[i] < s[i]);
    } else {
      if (low) ASSUME(p[i] < -s[i]);
      else ASSUME(p[i] >= s[i]);
    }
  }
  THROWS_ONLY("out-of-bounds position", "Litl::OutOfBoundsError");
  MUST_THROW("out-of-bounds position throws", r.at(pos));
}
template <typename R, int N>
INL void at_badsym(R& r, const Position<N>& pos, int axis, bool low) {
  long s[N], p[N];
  for (int i = 0; i < N; ++i) s[i] = r.shape()[i];
  for (int i = 0; i < N; ++i) p[i] = pos[i];
  at_bad(r, pos, s, p, N, axis, low);
}
#define BAD(NAME, N, AX, ...) \
  H h_x_atl_##NAME##N##_##AX(__VA_ARGS__& r, const Position<N>& p) { at_badsym<__VA_ARGS__, N>(r, p, AX, true); } \
  H h_x_ath_##NAME##N##_##AX(__VA_ARGS__& r, const Position<N>& p) { at_badsym<__VA_ARGS__, N>(r, p, AX, false); } \
  H h_x_atlc_##NAME##N##_##AX(const __VA_ARGS__& r, const Position<N>& p) { at_badsym<const __VA_ARGS__, N>(r, p, AX, true); } \
  H h_x_athc_##NAME##N##_##AX(const __VA_ARGS__& r, const Position<N>& p) { at_badsym<const __VA_ARGS__, N>(r, p, AX, false); }
BAD(ptr, 1, 0, PtrRaster<int CM 1>)
BAD(ptr, 5, 0, PtrRaster<int CM 5>) BAD(ptr, 5, 4, PtrRaster<int CM 5>) BAD(vec, 6, 5, VecRaster<int CM 6>)
BAD(ptr, 2, 0, PtrRaster<int CM 2>)
BAD(ptr, 2, 1, PtrRaster<int CM 2>)
BAD(vec, 3, 0, VecRaster<double CM 3>)
BAD(vec, 3, 1, VecRaster<double CM 3>)
BAD(vec, 3, 2, VecRaster<double CM 3>)
#define BADDYN(N, AX) \
  H h_x_atl_dyn##N##_##AX(int* d, const long* __restrict s, const long* __restrict p) { \
    PtrRaster<int, -1> r(mk<-1>(s, N), d); \
    at_bad(r, mk<-1>(p, N), s, p, N, AX, true); \
  } \
  H h_x_ath_dyn##N##_##AX(int* d, const long* __restrict s, const long* __restrict p) { \
    PtrRaster<int, -1> r(mk<-1>(s, N), d); \
    at_bad(r, mk<-1>(p, N), s, p, N, AX, false); \
  }
BADDYN(2, 0) BADDYN(2, 1)

// Membership: every bound of every axis, for integer and floating point positions
template <typename U, int N>
INL void inside(const PtrRaster<int, N>& r, const Vector<U, N>& p) {
  for (int i = 0; i < N; ++i) {
    ASSUME(r.shape()[i] >= 0);
    ASSUME(r.shape()[i] < BIG);
    ASSUME(p[i] >= 0);
    ASSUME(p[i] < U(r.shape()[i]));
  }
  NOTHROW("membership does not throw");
  REQ("the position is inside", r.contains(p));
}
template <typename U, int N>
INL void outside(const PtrRaster<int, N>& r, const Vector<U, N>& p, int axis, bool low) {
  for (int i = 0; i < N; ++i) {
    ASSUME(r.shape()[i] >= 0);
    ASSUME(r.shape()[i] < BIG);
  }
  if (low) ASSUME(!(p[axis] >= 0)); // or NaN
  else ASSUME(!(p[axis] < U(r.shape()[axis])));
  NOTHROW("membership does not throw");
  REQ("the position is outside", !r.contains(p));
}
#define IN(U, N) \
  H h_has_##U##N(const PtrRaster<int, N>& r, const Vector<U, N>& p) { inside<U, N>(r, p); }
#define OUT(U, N, A) \
  H h_hasnl_##U##N##_##A(const PtrRaster<int, N>& r, const Vector<U, N>& p) { outside<U, N>(r, p, A, true); } \
  H h_hasnh_##U##N##_##A(const PtrRaster<int, N>& r, const Vector<U, N>& p) { outside<U, N>(r, p, A, false); }
IN(long, 1) IN(long, 2) IN(long, 3) IN(double, 1) IN(double, 2) IN(double, 3) IN(float, 2)
OUT(long, 1, 0) OUT(long, 2, 0) OUT(long, 2, 1) OUT(long, 3, 0) OUT(long, 3, 1) OUT(long, 3, 2)
OUT(double, 1, 0) OUT(double, 2, 0) OUT(double, 2, 1) OUT(double, 3, 0) OUT(double, 3, 1) OUT(double, 3, 2) OUT(float, 2, 1)
H h_has_nan(const PtrRaster<int, 2>& r) {
  REQ("NaN is not inside", !r.contains(Vector<double, 2> {__builtin_nan(""), 0.}));
}
