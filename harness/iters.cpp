// Iterators over regions do not depend on the region or iterator they were made from.
#include "devirt.h"
#include "LitlRaster/Ball.h"
#include "LitlRaster/Subraster.h"
#include "litl_obl.h"
using namespace Litl;
#define LP const long* __restrict
constexpr long BIG = 100000;
template <Index N>
INL Position<N> mk(const long* p, int n) {
  Position<N> o(n);
  for (int i = 0; i < n; ++i) o[i] = p[i];
  return o;
}
template <typename P>
INL void eqpos(const char* l, const P& p, const long* e, int n) {
  EQI(l, p.size(), n);
  for (int i = 0; i < n; ++i) EQI(l, p[i], e[i]);
}
template <typename TIt, typename P, typename TNext>
INL void copies(TIt& it, const P& other, const long* e, const long* nx, int n, TNext&& next) {
  TIt jt(it);
  eqpos("a copy designates the same position", *jt, e, n);
  REQ("a copy is equal", jt == it);
  next(jt);
  eqpos("the copy moves on its own", *jt, nx, n);
  eqpos("the original of a moving copy stays in place", *it, e, n);
  TIt kt(std::move(jt));
  eqpos("a moved iterator designates the same position", *kt, nx, n);
  TIt lt(other);
  lt = it;
  eqpos("an assigned iterator designates the same position", *lt, e, n);
  next(lt);
  eqpos("an assigned iterator moves in the assigned region", *lt, nx, n);
  eqpos("the right operand of an assignment stays in place", *it, e, n);
  next(it);
  eqpos("the original moves on its own", *it, nx, n);
  eqpos("the copy of a moving original stays in place", *lt, nx, n);
}
template <Index N>
INL void boxes(LP f, LP b, LP g, LP c, LP p, LP v, int n) {
  long nx[4];
  for (int i = 0; i < n; ++i) {
    ASSUME(f[i] > -BIG);
    ASSUME(f[i] < BIG);
    ASSUME(b[i] < BIG);
    ASSUME(p[i] >= f[i]);
    if (i == 0) ASSUME(p[i] == b[i]);
    else ASSUME(p[i] < b[i]);
    nx[i] = i == 0 ? f[i] : i == 1 ? p[i] + 1 : p[i];
  }
  if (n == 1) nx[0] = f[0] - 1;
  Box<N> x(mk<N>(f, n), mk<N>(b, n));
  Box<N> y(mk<N>(g, n), mk<N>(c, n));
  typename Box<N>::Iterator it(x, mk<N>(p, n));
  typename Box<N>::Iterator ot(y, mk<N>(g, n));
  x += mk<N>(v, n);  // the iterator keeps the initial region
  eqpos("shifting the region does not move its iterators", *it, p, n);
  copies(it, ot, p, nx, n, [](auto& i) { ++i; });
}
H h_box_f1(LP f, LP b, LP g, LP c, LP p, LP v) { boxes<1>(f, b, g, c, p, v, 1); }
H h_box_f2(LP f, LP b, LP g, LP c, LP p, LP v) { boxes<2>(f, b, g, c, p, v, 2); }
H h_box_f3(LP f, LP b, LP g, LP c, LP p, LP v) { boxes<3>(f, b, g, c, p, v, 3); }
H h_box_d2(LP f, LP b, LP g, LP c, LP p, LP v) { boxes<-1>(f, b, g, c, p, v, 2); }
// from a temporary region
H h_box_tmp(LP f, LP b, LP p) {
  ASSUME(p[0] == b[0]);
  ASSUME(p[1] < b[1]);
  ASSUME(p[1] > -BIG);
  ASSUME(b[1] < BIG);
  long nx[] = {f[0], p[1] + 1};
  auto it = Box<2>::Iterator(Box<2>(mk<2>(f, 2), mk<2>(b, 2)), mk<2>(p, 2));
  ++it;
  eqpos("next position in a temporary region", *it, nx, 2);
}
template <Index P>
INL void balls(long c, double r, long d, double s, long v) {
  ASSUME(r >= 2);
  ASSUME(r < 1000);
  ASSUME(s >= 0);
  ASSUME(s < 1000);
  ASSUME(c > -BIG);
  ASSUME(c < BIG);
  const long e[] = {c};
  const long nx[] = {c + 1};
  Ball<1, P> x(r, mk<1>(&c, 1));
  Ball<1, P> y(s, mk<1>(&d, 1));
  typename Ball<1, P>::Iterator it(x, mk<1>(&c, 1));
  typename Ball<1, P>::Iterator ot(y, mk<1>(&d, 1));
  x += v;
  eqpos("shifting the ball does not move its iterators", *it, e, 1);
  copies(it, ot, e, nx, 1, [](auto& i) { ++i; });
}
H h_ball_1(long c, double r, long d, double s, long v) { balls<1>(c, r, d, s, v); }
H h_ball_2(long c, long d, long v) { balls<2>(c, 2.5, d, 1.5, v); }
template <bool Const>
INL void subs(int* d, LP s, LP f, int n) {
  using R = std::conditional_t<Const, const PtrRaster<int, 2>, PtrRaster<int, 2>>;
  R r(mk<2>(s, 2), d);
  const long b[] = {f[0] + 1, f[1] + 1};
  Box<2> x(mk<2>(f, 2), mk<2>(b, 2));
  auto sub = r.subraster(x);
  auto it = begin(sub);
  int* const a = d + f[0] + s[0] * f[1];
  x += 1;
  EQP("the iterator designates the front pixel", &*it, a);
  auto jt = it;
  ++jt;
  EQP("a copy moves on its own", &*jt, a + 1);
  ++jt;
  EQP("a copy goes to the next row", &*jt, a + s[0]);
  EQP("the original stays in place", &*it, a);
  auto kt(std::move(jt));
  ++kt;
  EQP("a moved iterator goes on", &*kt, a + s[0] + 1);
  ++it;
  EQP("the original moves on its own", &*it, a + 1);
  EQP("the copy stays in place", &*kt, a + s[0] + 1);
}
H h_sub(int* d, LP s, LP f) { subs<false>(d, s, f, 2); }
H h_subc(int* d, LP s, LP f) { subs<true>(d, s, f, 2); }
