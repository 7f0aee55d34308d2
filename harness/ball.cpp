// Balls: properties, arithmetic, and iteration step by step, with symbolic center and radius.
#include "devirt.h"
#include "LitlRaster/Ball.h"
#include "litl_obl.h"
using namespace Litl;
#define LP const long* __restrict
constexpr long BIG = 100000;
template <Index N>
INL Position<N> mk(const long* p, int n) {
  Position<N> o(n);
  for (int i = 0; i < n; ++i) o[i] = p[i];
  return o;
}
template <typename P>
INL void eqpos(const char* l, const P& p, const long* e, int n) {
  EQI(l, p.size(), n);
  for (int i = 0; i < n; ++i) EQI(l, p[i], e[i]);
}

// --- properties and arithmetic
template <Index N, Index P>
INL void basics(LP c, double r, LP v, long k, int n) {
  ASSUME(r >= 0);
  ASSUME(r < 1000);
  const Ball<N, P> b(r, mk<N>(c, n));
  const long t = long(r);
  long f[4], g[4], x[4];
  for (int i = 0; i < n; ++i) {
    f[i] = c[i] - t;
    g[i] = c[i] + t;
  }
  NOTHROW("no operation throws");
  EQF("radius", b.radius(), r);
  eqpos("center", b.center(), c, n);
  EQI("dimension", b.dimension(), n);
  eqpos("front of the bounding box", b.box().front(), f, n);
  eqpos("back of the bounding box", b.box().back(), g, n);
  EQI("shape dimension", b.shape().size(), n);
  for (int i = 0; i < n; ++i) {
    EQI("shape", b.shape()[i], 2 * t + 1);
    EQI("length", b.length(i), 2 * t + 1);
  }
  EQI("length along a fixed axis", b.template length<0>(), 2 * t + 1);
#define OPS(LAB, EX, ...) \
  for (int i = 0; i < n; ++i) x[i] = EX; \
  { \
    auto d = b; \
    auto& e = (__VA_ARGS__); \
    eqpos(LAB, d.center(), x, n); \
    EQF(LAB " (radius)", d.radius(), r); \
    REQ(LAB " returns the ball", &e == &d); \
  }
#define OPV(LAB, ...) \
  { \
    const auto d = (__VA_ARGS__); \
    eqpos(LAB, d.center(), x, n); \
    EQF(LAB " (radius)", d.radius(), r); \
  }
  const auto w = mk<N>(v, n);
  OPS("shift forward", c[i] + v[i], d += w)
  OPV("ball + vector", b + w)
  OPS("shift backward", c[i] - v[i], d -= w)
  OPV("ball - vector", b - w)
  OPS("shift forward along all axes", c[i] + k, d += k)
  OPV("ball + scalar", b + k)
  OPS("shift backward along all axes", c[i] - k, d -= k)
  OPV("ball - scalar", b - k)
  OPS("increment", c[i] + 1, ++d)
  OPS("decrement", c[i] - 1, --d)
  for (int i = 0; i < n; ++i) x[i] = c[i];
  OPV("copy", +b)
  for (int i = 0; i < n; ++i) x[i] = -c[i];
  OPV("opposite", -b)
  eqpos("the operand is unchanged", b.center(), c, n);
}
template <Index N>
INL void comparison(LP c, LP d, double r, double s, int n, int axis) {
  if (axis < 0) {
    const Ball<N> a(r, mk<N>(c, n)), b(s, mk<N>(c, n));
    if (axis == -1) {
      ASSUME(r == s);
      REQ("balls with the same radius and center are equal", a == b && !(a != b));
    } else {
      ASSUME(r != s);
      REQ("balls of different radii are different", a != b && !(a == b));
    }
  } else {
    ASSUME(c[axis] != d[axis]);
    const Ball<N> a(r, mk<N>(c, n)), b(r, mk<N>(d, n));
    REQ("balls of different centers are different", a != b && !(a == b));
  }
}
#define BAS(T, N, P, D) H h_ba_##T##P(LP c, double r, LP v, long k) { basics<N, P>(c, r, v, k, D); }
BAS(f1, 1, 2, 1) BAS(f2, 2, 2, 2) BAS(f2, 2, 1, 2) BAS(f3, 3, 2, 3) BAS(f3, 3, 1, 3) BAS(d2, -1, 2, 2) BAS(d3, -1, 1, 3)
H h_eq_s(LP c, LP d, double r, double s) { comparison<2>(c, d, r, s, 2, -1); }
H h_eq_r(LP c, LP d, double r, double s) { comparison<2>(c, d, r, s, 2, -2); }
H h_eq_0(LP c, LP d, double r, double s) { comparison<2>(c, d, r, s, 2, 0); }
H h_eq_1(LP c, LP d, double r, double s) { comparison<2>(c, d, r, s, 2, 1); }
H h_eq_3(LP c, LP d, double r, double s) { comparison<3>(c, d, r, s, 3, 2); }
H h_eq_d(LP c, LP d, double r, double s) { comparison<-1>(c, d, r, s, 2, 1); }

// --- iteration
template <Index P>
INL double dist(const double* c, const long* p, int n) {
  double o = 0;
  for (int i = 0; i < n; ++i) {
    const double d = c[i] - double(p[i]);
    const double a = __builtin_fabs(d);
    o += P == 1 ? a : a * a;
  }
  return o;
}
// p: a position of the bounding box; carry: number of axes whose coordinate is the last one
// Q: set of the axes along which p is before the center (-1: unknown)
template <Index N, Index P, int Q>
INL void setup(LP c, double r, LP p, int n, int carry, double* dc, long* next) {
  for (int i = 0; i < n && Q >= 0; ++i) {
    if ((Q >> i) & 1) ASSUME(p[i] < c[i]);
    else ASSUME(p[i] >= c[i]);
  }
  ASSUME(r >= 0);
  ASSUME(r < 1000);
  const long t = long(r);
  for (int i = 0; i < n; ++i) {
    ASSUME(c[i] > -BIG);
    ASSUME(c[i] < BIG);
    ASSUME(p[i] >= c[i] - t);
    ASSUME(p[i] <= c[i] + t);
    dc[i] = double(c[i]);
    if (i < carry) ASSUME(p[i] == c[i] + t);
    next[i] = i < carry ? c[i] - t : i == carry ? p[i] + 1 : p[i];
  }
  if (carry >= 0 && carry < n) ASSUME(p[carry < 0 ? 0 : carry] < c[carry < 0 ? 0 : carry] + t);
  if (carry == n) next[0] = c[0] - t - 1;
}
template <Index N, Index P, int Q>
INL void stay(LP c, double r, LP p, int n) {
  double dc[4];
  long next[4];
  setup<N, P, Q>(c, r, p, n, -1, dc, next);
  ASSUME(dist<P>(dc, p, n) <= (P == 1 ? r : r * r));
  const Ball<N, P> b(r, mk<N>(c, n));
  typename Ball<N, P>::Iterator it(b, mk<N>(p, n));
  eqpos("a position of the ball is visited", *it, p, n);
  eqpos("a position of the ball is visited (arrow)", *it.operator->(), p, n);
  REQ("the end is not reached", it != end(b) && !(it == end(b)));
}
template <Index N, Index P, int Q>
INL void skip(LP c, double r, LP p, int n, int carry) {
  double dc[4];
  long next[4];
  setup<N, P, Q>(c, r, p, n, carry, dc, next);
  const double rp = P == 1 ? r : r * r;
  ASSUME(dist<P>(dc, p, n) > rp);
  if (carry < n) ASSUME(dist<P>(dc, next, n) <= rp);
  const Ball<N, P> b(r, mk<N>(c, n));
  typename Ball<N, P>::Iterator it(b, mk<N>(p, n));
  eqpos("a position outside of the ball is skipped", *it, next, n);
}
template <Index N, Index P, int Q>
INL void step(LP c, double r, LP p, int n, int carry) {
  double dc[4];
  long next[4];
  setup<N, P, Q>(c, r, p, n, carry, dc, next);
  const double rp = P == 1 ? r : r * r;
  ASSUME(dist<P>(dc, p, n) <= rp);
  if (carry < n) ASSUME(dist<P>(dc, next, n) <= rp);
  const Ball<N, P> b(r, mk<N>(c, n));
  typename Ball<N, P>::Iterator it(b, mk<N>(p, n));
  const auto jt = it++;
  eqpos("position before the post-increment", *jt, p, n);
  eqpos("next position of the ball", *it, next, n);
  ++const_cast<typename Ball<N, P>::Iterator&>(jt);
  eqpos("pre-incremented position of the ball", *jt, next, n);
  REQ("iterators at the same position are equal", it == jt && !(it != jt));
}
template <Index N, Index P, int Q>
INL void post(LP c, double r, LP p, int n) {
  double dc[4];
  long next[4];
  setup<N, P, Q>(c, r, p, n, -1, dc, next);
  const double rp = P == 1 ? r : r * r;
  const Ball<N, P> b(r, mk<N>(c, n));
  typename Ball<N, P>::Iterator it(b, mk<N>(p, n));
  if (it != end(b)) {
    REQ("visited positions are in the ball", dist<P>(dc, &(*it)[0], n) <= rp);
    ++it;
    if (N == 1 && it != end(b)) REQ("next positions are in the ball", dist<P>(dc, &(*it)[0], n) <= rp);
  }
}
template <Index N, Index P>
INL void ends(LP c, double r, int n) {
  ASSUME(r >= 0);
  ASSUME(r < 1000);
  long e[4];
  for (int i = 0; i < n; ++i) e[i] = c[i] - long(r);
  --e[0];
  const Ball<N, P> b(r, mk<N>(c, n));
  eqpos("the end precedes the bounding box", *end(b), e, n);
  ++e[0];
  eqpos("the iteration starts at the front of the bounding box", Ball<N, P>::Iterator::beginPosition(b), e, n);
  if (n == 1) eqpos("the front of a segment is in it", *begin(b), e, n);
}
#define IT(T, N, P, D, Q, S) \
  H h_stay_##T##P##S(LP c, double r, LP p) { stay<N, P, Q>(c, r, p, D); } \
  H h_post_##T##P##S(LP c, double r, LP p) { post<N, P, Q>(c, r, p, D); }
#define EN(T, N, P, D) H h_end_##T##P(LP c, double r) { ends<N, P>(c, r, D); }
#define ST(T, N, P, D, C, Q, S) \
  H h_skip_##T##P##_##C##S(LP c, double r, LP p) { skip<N, P, Q>(c, r, p, D, C); } \
  H h_step_##T##P##_##C##S(LP c, double r, LP p) { step<N, P, Q>(c, r, p, D, C); }
EN(f1, 1, 1, 1) EN(f2, 2, 2, 2) EN(f3, 3, 2, 3)
IT(f1, 1, 1, 1, 0, q0) IT(f1, 1, 1, 1, 1, q1) IT(f1, 1, 2, 1, -1, q)
IT(f2, 2, 1, 2, 0, q0) IT(f2, 2, 1, 2, 1, q1) IT(f2, 2, 1, 2, 2, q2) IT(f2, 2, 1, 2, 3, q3) IT(f2, 2, 2, 2, -1, q)
ST(f1, 1, 1, 1, 0, 0, q0) ST(f1, 1, 1, 1, 0, 1, q1) ST(f1, 1, 1, 1, 1, 0, q0) ST(f1, 1, 2, 1, 0, -1, q) ST(f1, 1, 2, 1, 1, -1, q)
ST(f2, 2, 1, 2, 0, 0, q0) ST(f2, 2, 1, 2, 0, 1, q1) ST(f2, 2, 1, 2, 0, 2, q2) ST(f2, 2, 1, 2, 0, 3, q3) ST(f2, 2, 2, 2, 0, -1, q)
ST(f2, 2, 1, 2, 1, 0, q0) ST(f2, 2, 1, 2, 1, 2, q2) ST(f2, 2, 2, 2, 1, -1, q)
ST(f2, 2, 1, 2, 2, 0, q0) ST(f2, 2, 2, 2, 2, -1, q)
ST(f3, 3, 2, 3, 0, -1, q)
