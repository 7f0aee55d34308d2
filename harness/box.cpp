// Algebra, iteration, partition and projection of boxes, with symbolic bounds.
#include "plain_std.h"
#include "LitlRaster/Box.h"
#include "LitlRaster/Raster.h"
#include "litl_obl.h"
using namespace Litl;
constexpr long BIG = 100000;
// A position of given dimension whose coordinates are unknown
template <Index N>
INL Position<N> mk(const long* p, int n) {
  Position<N> o(n);
  for (int i = 0; i < n; ++i) o[i] = p[i];
  return o;
}
template <typename P>
INL void eqpos(const char* l, const P& p, const long* e, int n) {
  EQI(l, p.size(), n);
  for (int i = 0; i < n; ++i) EQI(l, p[i], e[i]);
}
template <typename B>
INL void eqbox(const char* l, const B& b, const long* f, const long* k, int n) {
  eqpos(l, b.front(), f, n);
  eqpos(l, b.back(), k, n);
}
#define DIMS(X) X(f1, 1, 1) X(f2, 2, 2) X(f3, 3, 3) X(f4, 4, 4) X(f5, 5, 5) X(f6, 6, 6) X(d1, -1, 1) X(d2, -1, 2) X(d3, -1, 3) X(d5, -1, 5)
#define LP const long* __restrict

// --- properties and arithmetic
template <Index N>
INL void basics(LP f, LP b, int n) {
  const auto pf = mk<N>(f, n);
  const auto pb = mk<N>(b, n);
  NOTHROW("no operation throws");
  const Box<N> box(pf, pb);
  long s[6], size = 1;
  for (int i = 0; i < n; ++i) s[i] = b[i] - f[i] + 1;
  eqbox("front and back", box, f, b, n);
  eqpos("shape", box.shape(), s, n);
  EQI("dimension", box.dimension(), n);
  for (int i = 0; i < n; ++i) EQI("length", box.length(i), s[i]);
  eqbox("from shape", Box<N>::fromShape(pf, box.shape()), f, b, n);
  eqbox("copy", +box, f, b, n);
  long nf[6], nb[6];
  for (int i = 0; i < n; ++i) nf[i] = -f[i];
  for (int i = 0; i < n; ++i) nb[i] = -b[i];
  eqbox("opposite", -box, nf, nb, n);
  eqbox("the operand of an opposite is unchanged", box, f, b, n);
}
template <Index N>
INL void volume(LP f, LP b, int n) {
  long size = 1;
  for (int i = 0; i < n; ++i) {
    ASSUME(f[i] > -BIG);
    ASSUME(f[i] < BIG);
    ASSUME(b[i] < BIG);
    ASSUME(b[i] >= f[i]);
    size *= b[i] - f[i] + 1;
  }
  const Box<N> box(mk<N>(f, n), mk<N>(b, n));
  NOTHROW("size does not throw");
  EQI("size", box.size(), size);
}
template <Index N>
INL void novolume(LP f, LP b, int n, int axis) {
  for (int i = 0; i < n; ++i) {
    ASSUME(f[i] > -BIG);
    ASSUME(f[i] < BIG);
    ASSUME(b[i] < BIG);
    ASSUME(b[i] > -BIG);
  }
  ASSUME(b[axis] < f[axis]);
  const Box<N> box(mk<N>(f, n), mk<N>(b, n));
  EQI("size of an empty box", box.size(), 0);
}
template <Index N>
INL void center(LP c, long r, int n) {
  long f[6], b[6], z[6];
  for (int i = 0; i < n; ++i) {
    f[i] = c[i] - r;
    b[i] = c[i] + r;
  }
  eqbox("from center", Box<N>::fromCenter(r, mk<N>(c, n)), f, b, n);
}
template <Index N>
INL void ops(LP f, LP b, LP mf, LP mb, long v, int n) {
  const Box<N> box(mk<N>(f, n), mk<N>(b, n));
  const Box<N> m(mk<N>(mf, n), mk<N>(mb, n));
  long x[6], y[6];
  NOTHROW("no operation throws");
#define OPS(LAB, EX, EY, ...) \
  for (int i = 0; i < n; ++i) { \
    x[i] = EX; \
    y[i] = EY; \
  } \
  { \
    auto c = box; \
    auto& r = (__VA_ARGS__); \
    eqbox(LAB, c, x, y, n); \
    REQ(LAB " returns the box", &r == &c); \
  }
#define OPV(LAB, ...) eqbox(LAB, (__VA_ARGS__), x, y, n);
  OPS("grow", f[i] + mf[i], b[i] + mb[i], c += m)
  OPV("box + margin", box + m)
  OPS("shrink", f[i] - mf[i], b[i] - mb[i], c -= m)
  OPV("box - margin", box - m)
  OPS("shift forward", f[i] + mf[i], b[i] + mf[i], c += m.front())
  OPV("box + vector", box + m.front())
  OPS("shift backward", f[i] - mf[i], b[i] - mf[i], c -= m.front())
  OPV("box - vector", box - m.front())
  OPS("shift forward along all axes", f[i] + v, b[i] + v, c += v)
  OPV("box + scalar", box + v)
  OPS("shift backward along all axes", f[i] - v, b[i] - v, c -= v)
  OPV("box - scalar", box - v)
  OPS("increment", f[i] + 1, b[i] + 1, ++c)
  OPS("decrement", f[i] - 1, b[i] - 1, --c)
  eqbox("the operand is unchanged", box, f, b, n);
  for (int a = 0; a < n; ++a) {
    OPS("project", f[i], (i == a ? f[i] : b[i]), c.project(a))
    OPV("projection", project(box, a))
  }
}
#define BASICS(T, N, D) \
  H h_ba_##T(LP f, LP b) { basics<N>(f, b, D); } \
  H h_vo_##T(LP f, LP b) { volume<N>(f, b, D); } \
  H h_ce_##T(LP c, long r) { center<N>(c, r, D); } \
  H h_op_##T(LP f, LP b, LP mf, LP mb, long v) { ops<N>(f, b, mf, mb, v, D); }
DIMS(BASICS)
#define NOVOL(T, N, D, A) H h_nv_##T##_##A(LP f, LP b) { novolume<N>(f, b, D, A); }
NOVOL(f1, 1, 1, 0) NOVOL(f2, 2, 2, 0) NOVOL(f2, 2, 2, 1) NOVOL(f3, 3, 3, 0) NOVOL(f3, 3, 3, 1) NOVOL(f3, 3, 3, 2) NOVOL(d2, -1, 2, 0) NOVOL(d2, -1, 2, 1)
H h_len2(LP f, LP b) {
  const Box<2> x(mk<2>(f, 2), mk<2>(b, 2));
  EQI("length<0>", x.length<0>(), b[0] - f[0] + 1);
  EQI("length<1>", x.length<1>(), b[1] - f[1] + 1);
}
H h_whole3() {
  const auto x = Box<3>::whole();
  for (int i = 0; i < 3; ++i) {
    EQI("front of the unlimited box", x.front()[i], 0);
    EQI("back of the unlimited box", x.back()[i], std::numeric_limits<long>::max());
  }
}
H h_center_default() {
  const auto x = Box<3>::fromCenter();
  for (int i = 0; i < 3; ++i) {
    EQI("front of the unit box", x.front()[i], -1);
    EQI("back of the unit box", x.back()[i], 1);
  }
}

// --- comparison: equal iff all coordinates are
template <Index N>
INL void eq_same(LP f, LP b, int n) {
  const Box<N> x(mk<N>(f, n), mk<N>(b, n));
  const Box<N> y(mk<N>(f, n), mk<N>(b, n));
  REQ("boxes with the same bounds are equal", x == y);
  REQ("boxes with the same bounds are not different", !(x != y));
}
template <Index N>
INL void eq_diff(LP f, LP b, LP g, LP c, int n, int axis, bool front) {
  if (front) ASSUME(f[axis] != g[axis]);
  else ASSUME(b[axis] != c[axis]);
  const Box<N> x(mk<N>(f, n), mk<N>(b, n));
  const Box<N> y(mk<N>(g, n), mk<N>(c, n));
  REQ("boxes with a different bound are not equal", !(x == y));
  REQ("boxes with a different bound are different", x != y);
}
#define EQS(T, N, D) H h_eqs_##T(LP f, LP b) { eq_same<N>(f, b, D); }
DIMS(EQS)
#define EQD(T, N, D, A) \
  H h_eqf_##T##_##A(LP f, LP b, LP g, LP c) { eq_diff<N>(f, b, g, c, D, A, true); } \
  H h_eqb_##T##_##A(LP f, LP b, LP g, LP c) { eq_diff<N>(f, b, g, c, D, A, false); }
EQD(f1, 1, 1, 0) EQD(f2, 2, 2, 0) EQD(f2, 2, 2, 1) EQD(f3, 3, 3, 0) EQD(f3, 3, 3, 1) EQD(f3, 3, 3, 2) EQD(d2, -1, 2, 0) EQD(d2, -1, 2, 1)

// --- clamping: the result lies in the box, and is the position itself if the latter does
template <typename T, Index N>
INL void clamping(const T* __restrict p, LP f, LP b, int n, int where) {
  Vector<T, N> v(n);
  for (int i = 0; i < n; ++i) v[i] = p[i];
  T e[6];
  for (int i = 0; i < n; ++i) {
    ASSUME(f[i] <= b[i]);
    ASSUME(f[i] > -BIG);
    ASSUME(b[i] < BIG);
    const int w = i == 0 ? where : (where + i) % 3;
    if (w == 0) ASSUME(p[i] <= T(f[i]));
    else if (w == 1) {
      ASSUME(p[i] >= T(f[i]));
      ASSUME(p[i] <= T(b[i]));
    } else ASSUME(p[i] >= T(b[i]));
    e[i] = w == 0 ? T(f[i]) : w == 1 ? p[i] : T(b[i]);
  }
  const auto c = clamp(v, Box<N>(mk<N>(f, n), mk<N>(b, n)));
  EQI("dimension", c.size(), n);
  for (int i = 0; i < n; ++i) litl_eq("clamped coordinate", c[i], e[i]);
}
template <typename T, Index N>
INL void clamping0(const T* __restrict p, LP s, int n, int where) {
  Vector<T, N> v(n);
  for (int i = 0; i < n; ++i) v[i] = p[i];
  T e[6];
  for (int i = 0; i < n; ++i) {
    ASSUME(s[i] > 0);
    ASSUME(s[i] < BIG);
    const int w = i == 0 ? where : (where + i) % 3;
    if (w == 0) ASSUME(p[i] <= T(0));
    else if (w == 1) {
      ASSUME(p[i] >= T(0));
      ASSUME(p[i] <= T(s[i] - 1));
    } else ASSUME(p[i] >= T(s[i] - 1));
    e[i] = w == 0 ? T(0) : w == 1 ? p[i] : T(s[i] - 1);
  }
  const auto c = clamp(v, mk<N>(s, n));
  EQI("dimension", c.size(), n);
  for (int i = 0; i < n; ++i) litl_eq("coordinate clamped to a shape", c[i], e[i]);
}
#define CL(T, U, N, D) \
  H h_cl_##T##_0(const U* __restrict p, LP f, LP b) { clamping<U, N>(p, f, b, D, 0); } \
  H h_cl_##T##_1(const U* __restrict p, LP f, LP b) { clamping<U, N>(p, f, b, D, 1); } \
  H h_cl_##T##_2(const U* __restrict p, LP f, LP b) { clamping<U, N>(p, f, b, D, 2); } \
  H h_cs_##T##_0(const U* __restrict p, LP s) { clamping0<U, N>(p, s, D, 0); } \
  H h_cs_##T##_1(const U* __restrict p, LP s) { clamping0<U, N>(p, s, D, 1); } \
  H h_cs_##T##_2(const U* __restrict p, LP s) { clamping0<U, N>(p, s, D, 2); }
CL(i1, long, 1, 1) CL(i2, long, 2, 2) CL(i3, long, 3, 3) CL(di, long, -1, 2)
CL(i5, long, 5, 5) CL(d5, long, -1, 5) CL(r1, double, 1, 1) CL(r2, double, 2, 2) CL(r3, double, 3, 3)

// --- iteration: one step from any position of any box. By induction, the sequence is the row-major sequence.
template <Index N>
INL void bounds(LP f, LP b, int n) {
  for (int i = 0; i < n; ++i) {
    ASSUME(f[i] > -BIG);
    ASSUME(f[i] < BIG);
    ASSUME(b[i] < BIG);
    ASSUME(b[i] > -BIG);
  }
}
template <Index N>
INL void step(LP f, LP b, LP p, int n, int carry) {
  bounds<N>(f, b, n);
  for (int i = 0; i < n; ++i) {
    ASSUME(p[i] >= f[i]);
    ASSUME(p[i] <= b[i]);
  }
  long e[6];
  for (int i = 0; i < n; ++i) {
    if (i < carry) ASSUME(p[i] == b[i]);
    e[i] = i < carry ? f[i] : i == carry ? p[i] + 1 : p[i];
  }
  if (carry < n) ASSUME(p[carry] < b[carry]);
  else e[0] = f[0] - 1;
  const Box<N> box(mk<N>(f, n), mk<N>(b, n));
  NOTHROW("no operation throws");
  typename Box<N>::Iterator it(box, mk<N>(p, n));
  eqpos("position", *it, p, n);
  ++it;
  eqpos("next position", *it, e, n);
  eqpos("arrow", *it.operator->(), e, n);
  const auto stop = end(box);
  if (carry == n) REQ("the end is reached after the last position", it == stop && !(it != stop));
  else REQ("the end is not reached before the last position", it != stop && !(it == stop));
  typename Box<N>::Iterator jt(box, mk<N>(p, n));
  const auto kt = jt++;
  eqpos("position before the post-increment", *kt, p, n);
  eqpos("position after the post-increment", *jt, e, n);
  REQ("incremented iterators are equal", it == jt && !(it != jt));
  jt.reset();
  eqpos("reset position", *jt, f, n);
}
template <Index N>
INL void ends(LP f, LP b, int n) {
  bounds<N>(f, b, n);
  for (int i = 0; i < n; ++i) ASSUME(f[i] <= b[i]);
  const Box<N> box(mk<N>(f, n), mk<N>(b, n));
  auto it = begin(box);
  eqpos("first position", *it, f, n);
  REQ("a non-empty box has a position", it != end(box));
  auto copy = it;
  ++copy;
  eqpos("a copy is independent", *it, f, n);
  copy = it;
  eqpos("assigned iterator", *copy, f, n);
}
template <Index N>
INL void noends(LP f, LP b, int n, int axis) {
  bounds<N>(f, b, n);
  ASSUME(b[axis] < f[axis]);
  const Box<N> box(mk<N>(f, n), mk<N>(b, n));
  REQ("an empty box has no position", begin(box) == end(box) && !(begin(box) != end(box)));
}
#define STEP(T, N, D, C) H h_st_##T##_##C(LP f, LP b, LP p) { step<N>(f, b, p, D, C); }
STEP(f1, 1, 1, 0) STEP(f1, 1, 1, 1)
STEP(f2, 2, 2, 0) STEP(f2, 2, 2, 1) STEP(f2, 2, 2, 2)
STEP(f3, 3, 3, 0) STEP(f3, 3, 3, 1) STEP(f3, 3, 3, 2) STEP(f3, 3, 3, 3)
STEP(f4, 4, 4, 0) STEP(f4, 4, 4, 2) STEP(f4, 4, 4, 3) STEP(f4, 4, 4, 4) STEP(f4, 4, 4, 1)
STEP(f5, 5, 5, 0) STEP(f5, 5, 5, 3) STEP(f5, 5, 5, 4) STEP(f5, 5, 5, 5) STEP(f6, 6, 6, 4) STEP(f6, 6, 6, 5) STEP(f6, 6, 6, 6)
STEP(d3, -1, 3, 0) STEP(d3, -1, 3, 2) STEP(d3, -1, 3, 3) STEP(d5, -1, 5, 3) STEP(d5, -1, 5, 4) STEP(d5, -1, 5, 5)
STEP(d1, -1, 1, 0) STEP(d1, -1, 1, 1)
STEP(d2, -1, 2, 0) STEP(d2, -1, 2, 1) STEP(d2, -1, 2, 2)
#define ENDS(T, N, D) H h_en_##T(LP f, LP b) { ends<N>(f, b, D); }
DIMS(ENDS)
#define NOENDS(T, N, D, A) H h_ne_##T##_##A(LP f, LP b) { noends<N>(f, b, D, A); }
NOENDS(f1, 1, 1, 0) NOENDS(f2, 2, 2, 0) NOENDS(f2, 2, 2, 1) NOENDS(f3, 3, 3, 0) NOENDS(f3, 3, 3, 1) NOENDS(f3, 3, 3, 2) NOENDS(f5, 5, 5, 4) NOENDS(f6, 6, 6, 5) NOENDS(d5, -1, 5, 4) NOENDS(d2, -1, 2, 0) NOENDS(d2, -1, 2, 1)
// Iterators are equal iff their positions are
template <Index N>
INL void same(LP f, LP b, LP p, LP q, int n, int axis) {
  ASSUME(p[axis] != q[axis]);
  const Box<N> box(mk<N>(f, n), mk<N>(b, n));
  typename Box<N>::Iterator it(box, mk<N>(p, n));
  typename Box<N>::Iterator jt(box, mk<N>(q, n));
  REQ("iterators at different positions are different", it != jt && !(it == jt));
}
#define SAME(T, N, D, A) H h_en_##T##_##A(LP f, LP b, LP p, LP q) { same<N>(f, b, p, q, D, A); }
SAME(f1, 1, 1, 0) SAME(f2, 2, 2, 0) SAME(f2, 2, 2, 1) SAME(f3, 3, 3, 0) SAME(f3, 3, 3, 1) SAME(f3, 3, 3, 2) SAME(d2, -1, 2, 0) SAME(d2, -1, 2, 1)
