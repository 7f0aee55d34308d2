// fill, range, linspace, generate, apply, min, max and equality of containers.
#include "plain_std.h"
#include "LitlContainer/Sequence.h"
#include "LitlRaster/Raster.h"
#include "LitlRaster/Vector.h"
#include "litl_obl.h"
using namespace Litl;
template <typename T, std::size_t S>
using Arr = Sequence<T, StdHolder<std::array<T, S>>>;
template <typename C, typename T>
INL C make(const T* p, int n) {
  C c(n);
  for (int i = 0; i < n; ++i) c.data()[i] = p[i];
  return c;
}
template <typename C, typename T, int S>
INL void rangefill(const T* p) {
  C a(S);
  auto& r = a.fill(p[0]);
  REQ("fill returns the container", &r == &a);
  for (int i = 0; i < S; ++i) litl_eq("fill", a.data()[i], p[0]);
  auto& q = a.range(p[0], p[1]);
  REQ("range returns the container", &q == &a);
  T v = p[0];
  for (int i = 0; i < S; ++i) { litl_eq("range", a.data()[i], v); v = v + p[1]; }
  a.range();
  for (int i = 0; i < S; ++i) litl_eq("default range", a.data()[i], T(i));
  a.range(p[0]);
  for (int i = 0; i < S; ++i) litl_eq("range with default step", a.data()[i], T(p[0] + T(i)));
  auto& l = a.linspace(p[0], p[1]);
  REQ("linspace returns the container", &l == &a);
  if (S > 1) litl_eq("linspace front", a.data()[0], p[0]);
  if (S > 0) litl_eq("linspace back", a.data()[S - 1], p[1]);
}
template <typename C, typename T, int S>
INL void lin(const T* p) {
  C a(S);
  a.linspace(p[0], p[1]);
  for (int i = 0; i < S - 1; ++i) litl_eq("linspace is min + (max - min) / (size - 1) * i", a.data()[i], T(p[0] + (p[1] - p[0]) / T(S - 1) * T(i)));
  if (S > 0) litl_eq("linspace ends exactly at max", a.data()[S - 1], p[1]);
}
#define RF(N, T, S) H h_rf_##N##_##S(const T* __restrict p) { rangefill<Arr<T, S>, T, S>(p); }
RF(i, int, 5) RF(d, double, 4) RF(l, long, 3) RF(s, short, 4) RF(i, int, 1) RF(d, double, 1) RF(i, int, 2)
#define LN(N, T, S) H h_lin_##N##_##S(const T* __restrict p) { lin<Arr<T, S>, T, S>(p); }
LN(d, double, 2) LN(d, double, 5) LN(d, double, 9) LN(f, float, 4) LN(l, long, 4)
H h_lin_empty(const double* __restrict p, double* q) {
  PtrRaster<double, 1> e({0}, q);
  const double before = q[0], before1 = q[-1];
  e.linspace(p[0], p[1]);
  e.range(p[0], p[1]);
  e.fill(p[0]);
  litl_eq("empty container writes nothing", q[0], before);
  litl_eq("empty container writes nothing before", q[-1], before1);
}
H h_lin_dec(const int* __restrict p) {
  Arr<int, 5> a(5);
  ASSUME(p[0] > p[1]); ASSUME(p[0] < 1000); ASSUME(p[1] > -1000);
  a.linspace(p[0], p[1]);
  for (int i = 0; i < 4; ++i) litl_eq("decreasing integer linspace", a.data()[i], int(p[0] + (long(p[1]) - p[0]) / 4 * i));
}

// generate and apply: the function is called once per element, in order, with the elements of same index
extern "C" long litl_f0();
extern "C" long litl_f1(long) __attribute__((const, nothrow));
extern "C" long litl_f2(long, long) __attribute__((const, nothrow));
extern "C" long litl_f3(long, long, long) __attribute__((const, nothrow));
template <typename C>
INL void gen(const long* p, const long* q, const long* s, int S) {
  auto a = make<C>(p, S), b = make<C>(q, S), c = make<C>(s, S);
  auto r = make<C>(p, S);
  auto& x = r.generate([](long u) { return litl_f1(u); }, b);
  REQ("generate returns the container", &x == &r);
  for (int i = 0; i < S; ++i) litl_eq("generate from one input", r.data()[i], litl_f1(q[i]));
  r.generate([](long u, long v) { return litl_f2(u, v); }, b, c);
  for (int i = 0; i < S; ++i) litl_eq("generate from two inputs", r.data()[i], litl_f2(q[i], s[i]));
  r.generate([](long u, long v, long w) { return litl_f3(u, v, w); }, c, b, a);
  for (int i = 0; i < S; ++i) litl_eq("generate from three inputs", r.data()[i], litl_f3(s[i], q[i], p[i]));
  for (int i = 0; i < S; ++i) { litl_eq("inputs are unchanged", a.data()[i], p[i]); litl_eq("inputs are unchanged", b.data()[i], q[i]); litl_eq("inputs are unchanged", c.data()[i], s[i]); }
  auto& y = a.apply([](long u) { return litl_f1(u); });
  REQ("apply returns the container", &y == &a);
  for (int i = 0; i < S; ++i) litl_eq("apply", a.data()[i], litl_f1(p[i]));
  auto d = make<C>(p, S);
  d.apply([](long u, long v) { return litl_f2(u, v); }, b);
  for (int i = 0; i < S; ++i) litl_eq("apply with one input", d.data()[i], litl_f2(p[i], q[i]));
  auto e = make<C>(p, S);
  e.apply([](long u, long v, long w) { return litl_f3(u, v, w); }, b, c);
  for (int i = 0; i < S; ++i) litl_eq("apply with two inputs", e.data()[i], litl_f3(p[i], q[i], s[i]));
}
H h_gen_arr(const long* __restrict p, const long* __restrict q, const long* __restrict s) { gen<Arr<long, 3>>(p, q, s, 3); }
H h_gen_arr1(const long* __restrict p, const long* __restrict q, const long* __restrict s) { gen<Arr<long, 1>>(p, q, s, 1); }
H h_gen_dyn(const long* __restrict p, const long* __restrict q, const long* __restrict s) { gen<Sequence<long>>(p, q, s, 4); }
H h_gen_vec(const long* __restrict p, const long* __restrict q, const long* __restrict s) { gen<Vector<long, 3>>(p, q, s, 3); }
// a stateful generator is called exactly once per element, in order
struct Counter {
  long n;
  long operator()() { return n++; }
  long operator()(long v) { return v + 1000 * n++; }
};
H h_gen_state(long* k, const long* __restrict p) {
  const long k0 = *k;
  Counter f {k0};
  Arr<long, 4> a(4);
  a.generate(f);
  for (int i = 0; i < 4; ++i) litl_eq("generator called in order", a.data()[i], k0 + i);
  litl_eq("generator called once per element", f.n, k0 + 4);
  auto b = make<Arr<long, 3>>(p, 3);
  Counter g {k0};
  b.apply(g);
  for (int i = 0; i < 3; ++i) litl_eq("function applied in order", b.data()[i], p[i] + 1000 * (k0 + i));
  litl_eq("function called once per element", g.n, k0 + 3);
}

// min, max, minmax
template <typename T, int S>
INL void extrema(const T* p) {
  const Sequence<T, PtrHolder<const T>> a(S, p);
  const T& lo = a.min();
  const T& hi = a.max();
  const auto lh = a.minmax();
  bool isLo = false, isHi = false, isLo2 = false, isHi2 = false;
  for (int i = 0; i < S; ++i) {
    REQ("min is not above any element", lo <= p[i]);
    REQ("max is not below any element", hi >= p[i]);
    REQ("minmax is a lower bound", lh.first <= p[i]);
    REQ("minmax is an upper bound", lh.second >= p[i]);
    isLo |= S < 3 ? &lo == a.data() + i : lo == p[i];
    isHi |= S < 3 ? &hi == a.data() + i : hi == p[i];
    isLo2 |= S < 3 ? &lh.first == a.data() + i : lh.first == p[i];
    isHi2 |= S < 3 ? &lh.second == a.data() + i : lh.second == p[i];
  }
  REQ("min is an element", isLo);
  REQ("max is an element", isHi);
  REQ("minmax are elements", isLo2 && isHi2);
}
H h_ext_i3(const int* __restrict p) { extrema<int, 3>(p); }
H h_ext_u2(const unsigned char* __restrict p) { extrema<unsigned char, 2>(p); }
