// Element-wise operations on containers of more than 64 elements: blocks, remainders and thresholds.
#include "plain_std.h"
#include "LitlContainer/Sequence.h"
#include "LitlRaster/Raster.h"
#include "LitlRaster/Vector.h"
#include "litl_obl.h"
using namespace Litl;
#ifndef SIZE
#define SIZE 67
#endif
constexpr int S = SIZE;
using Arr = Sequence<long, StdHolder<std::array<long, S>>>;
using Dyn = Sequence<long>;
using Ras = Raster<long, 2, StdHolder<std::array<long, S>>>;
using Dbl = Sequence<double, StdHolder<std::array<double, S>>>;
template <typename C>
struct Make { static INL C of() { return C(S); } };
template <>
struct Make<Ras> { static INL Ras of() { return Ras({S, 1}); } };
template <typename C, typename T>
INL C make(const T* p) {
  C c = Make<C>::of();
  for (int i = 0; i < S; ++i) c.data()[i] = p[i];
  return c;
}
#define ALL(label, value, ...) for (int i = 0; i < S; ++i) litl_eq(label, value.data()[i], __VA_ARGS__)
template <typename C, typename T>
INL void arith(const T* p, const T* q, T k) {
  auto a = make<C>(p);
  const auto b = make<C>(q);
  const auto s = a + b, d = a - b, u = a + k, v = a - k, w = a * k, n = -a;
  ALL("a+b", s, p[i] + q[i]);
  ALL("a-b", d, p[i] - q[i]);
  ALL("a+k", u, p[i] + k);
  ALL("a-k", v, p[i] - k);
  ALL("a*k", w, p[i] * k);
  ALL("-a", n, -p[i]);
  a += b;
  ALL("a+=b", a, p[i] + q[i]);
  a -= k;
  ALL("a-=k", a, p[i] + q[i] - k);
  ++a;
  ALL("++a", a, p[i] + q[i] - k + T(1));
  ALL("right operand is unchanged", b, q[i]);
}
#define ARGS const long* __restrict p, const long* __restrict q, const long* __restrict s
H h_arith_arr(ARGS) { arith<Arr>(p, q, s[0]); }
H h_arith_dyn(ARGS) { arith<Dyn>(p, q, s[0]); }
H h_arith_ras(ARGS) { arith<Ras>(p, q, s[0]); }
H h_arith_dbl(const double* __restrict p, const double* __restrict q, const double* __restrict s) { arith<Dbl>(p, q, s[0]); }
H h_alias(ARGS) {
  auto a = make<Arr>(p);
  a += a.data()[S / 2];
  ALL("element of the container as operand", a, p[i] + p[S / 2]);
  auto b = make<Arr>(p);
  b += b;
  ALL("the container as operand", b, p[i] + p[i]);
}
H h_math(const double* __restrict p, const double* __restrict q) {
  auto a = make<Dbl>(p);
  const auto b = make<Dbl>(q);
  const auto c = Litl::cos(a), m = Litl::pow(a, b), k = Litl::pow(a, q[0]);
  ALL("cos", c, std::cos(p[i]));
  ALL("pow", m, std::pow(p[i], q[i]));
  ALL("pow with a scalar", k, std::pow(p[i], q[0]));
  a.exp();
  ALL("exp", a, std::exp(p[i]));
}
extern "C" long litl_f1(long) __attribute__((const, nothrow));
extern "C" long litl_f2(long, long) __attribute__((const, nothrow));
extern "C" long litl_f3(long, long, long) __attribute__((const, nothrow));
template <typename C>
INL void gen(const long* p, const long* q, const long* s) {
  auto a = make<C>(p), b = make<C>(q), c = make<C>(s), r = make<C>(p);
  r.generate([](long u) { return litl_f1(u); }, b);
  ALL("generate from one input", r, litl_f1(q[i]));
  r.generate([](long u, long v) { return litl_f2(u, v); }, b, c);
  ALL("generate from two inputs", r, litl_f2(q[i], s[i]));
  a.apply([](long u) { return litl_f1(u); });
  ALL("apply", a, litl_f1(p[i]));
  a = make<C>(p);
  a.apply([](long u, long v, long w) { return litl_f3(u, v, w); }, b, c);
  ALL("apply with two inputs", a, litl_f3(p[i], q[i], s[i]));
  long n = s[0];
  a.generate([&]() { return n++; });
  ALL("generator called in order", a, s[0] + i);
  litl_eq("generator called once per element", n, s[0] + S);
}
H h_gen_arr(ARGS) { gen<Arr>(p, q, s); }
H h_gen_dyn(ARGS) { gen<Dyn>(p, q, s); }
H h_fill(const long* __restrict p, const double* __restrict x) {
  Arr a(S);
  a.fill(p[0]);
  ALL("fill", a, p[0]);
  a.range(p[0], p[1]);
  ALL("range", a, p[0] + p[1] * i);
  a.range();
  ALL("default range", a, long(i));
  Dbl b(S);
  b.linspace(x[0], x[1]);
  for (int i = 0; i < S - 1; ++i) litl_eq("linspace", b.data()[i], x[0] + (x[1] - x[0]) / (S - 1) * i);
  litl_eq("linspace ends exactly at max", b.data()[S - 1], x[1]);
}
template <typename C>
INL void copies(const long* p, const long* q) {
  auto a = make<C>(p);
  auto b = a;
  auto c = make<C>(q);
  c = a;
  REQ("sizes", b.size() == S && c.size() == S);
  ALL("copied", b, p[i]);
  ALL("assigned", c, p[i]);
  b.data()[S - 1] = q[0];
  litl_eq("independent", a.data()[S - 1], p[S - 1]);
  auto d = std::move(a);
  ALL("moved", d, p[i]);
}
H h_copy_arr(ARGS) { copies<Arr>(p, q); }
H h_copy_dyn(ARGS) { copies<Dyn>(p, q); }
H h_copy_ras(ARGS) { copies<Ras>(p, q); }
H h_copy_iterable(ARGS) {
  const Sequence<long, PtrHolder<const long>> v(S, p);
  const std::vector<long> w(v.begin(), v.end());
  for (int i = 0; i < S; ++i) litl_eq("iterated", w[i], p[i]);
  Sequence<long> c(w);
  ALL("copied from an iterable", c, p[i]);
}
// equality: one element differs, whatever which
template <typename C, typename T>
INL void equality(const T* p, const T* q) {
  for (int k : {0, 1, S / 2, S - 2, S - 1}) {
    auto a = make<C>(p), b = make<C>(p);
    b.data()[k] = q[0];
    EQI("equal iff the element is", a == b, p[k] == q[0]);
    EQI("different iff the element is", a != b, p[k] != q[0]);
  }
}
H h_eq_arr(ARGS) { equality<Arr>(p, q); }
H h_eq_ras(ARGS) { equality<Ras>(p, q); }
template <int K, int SIGN>
INL void ext(const long* p) {
  ASSUME(SIGN * p[0] > 0);
  ASSUME(p[0] > -1000 && p[0] < 1000);
  Arr a(S);
  a.fill(0);
  a.data()[K] = p[0];
  EQI("min", a.min(), SIGN < 0 ? p[0] : 0);
  EQI("max", a.max(), SIGN > 0 ? p[0] : 0);
  const auto mm = a.minmax();
  EQI("first", mm.first, SIGN < 0 ? p[0] : 0);
  EQI("second", mm.second, SIGN > 0 ? p[0] : 0);
}
#define EXT(N, K) H h_ext_lo_##N(ARGS) { ext<K, -1>(p); } H h_ext_hi_##N(ARGS) { ext<K, 1>(p); }
EXT(front, 0) EXT(second, 1) EXT(middle, S / 2) EXT(last, S - 1) EXT(lastbutone, S - 2)
