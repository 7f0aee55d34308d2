// Element-wise arithmetic: each result element is the operator applied to the elements of same index.
#include "LitlContainer/Sequence.h"
#include "LitlRaster/Raster.h"
#include "LitlRaster/Vector.h"
#include "litl_obl.h"
using namespace Litl;
constexpr int S = 3;
template <typename T>
struct Seq {
  using C = Sequence<T, StdHolder<std::array<T, S>>>;
  static C make(const T* p) {
    C c(S);
    for (int i = 0; i < S; ++i) c.data()[i] = p[i];
    return c;
  }
};
template <typename T>
struct Dyn {
  using C = Sequence<T>;
  static C make(const T* p) {
    C c(S);
    for (int i = 0; i < S; ++i) c.data()[i] = p[i];
    return c;
  }
};
template <typename T>
struct Vec {
  using C = Vector<T, S>;
  static C make(const T* p) {
    C c;
    for (int i = 0; i < S; ++i) c.data()[i] = p[i];
    return c;
  }
};
template <typename T>
struct Ras {
  using C = Raster<T, 2, StdHolder<std::array<T, S>>>;
  static C make(const T* p) {
    C c({1, S});
    for (int i = 0; i < S; ++i) c.data()[i] = p[i];
    return c;
  }
};
// one element per operator: the reference semantics, in terms of T only
#define BIN(NAME, OP) \
  template <template <typename> class M, typename T> \
  INL void NAME##_vv(const T* p, const T* q) { \
    auto a = M<T>::make(p); \
    const auto b = M<T>::make(q); \
    T r[S]; \
    for (int i = 0; i < S; ++i) r[i] = p[i] OP q[i]; \
    { \
      const auto c = a OP b; \
      REQ("size", c.size() == S); \
      for (int i = 0; i < S; ++i) { litl_eq("a" #OP "b", c.data()[i], r[i]); litl_eq("a" #OP "b leaves a", a.data()[i], p[i]); litl_eq("a" #OP "b leaves b", b.data()[i], q[i]); } \
    } \
    auto& ret = (a OP## = b); \
    REQ("a" #OP "=b returns a", &ret == &a); \
    for (int i = 0; i < S; ++i) { litl_eq("a" #OP "=b", a.data()[i], r[i]); litl_eq("a" #OP "=b leaves b", b.data()[i], q[i]); } \
  }
#define SCA(NAME, OP) \
  template <template <typename> class M, typename T> \
  INL void NAME##_vs(const T* p, T k) { \
    auto a = M<T>::make(p); \
    T r[S]; \
    for (int i = 0; i < S; ++i) r[i] = p[i] OP k; \
    { \
      const auto c = a OP k; \
      for (int i = 0; i < S; ++i) { litl_eq("a" #OP "k", c.data()[i], r[i]); litl_eq("a" #OP "k leaves a", a.data()[i], p[i]); } \
    } \
    auto& ret = (a OP## = k); \
    REQ("a" #OP "=k returns a", &ret == &a); \
    for (int i = 0; i < S; ++i) litl_eq("a" #OP "=k", a.data()[i], r[i]); \
  }
// scalar op vector
#define LSC(NAME, OP) \
  template <template <typename> class M, typename T> \
  INL void NAME##_sv(const T* p, T k) { \
    const auto a = M<T>::make(p); \
    const auto c = k OP a; \
    REQ("size", c.size() == S); \
    for (int i = 0; i < S; ++i) { litl_eq("k" #OP "a", c.data()[i], T(k OP p[i])); litl_eq("k" #OP "a leaves a", a.data()[i], p[i]); } \
  }
// the right-hand side is the container itself
#define SELF(NAME, OP) \
  template <template <typename> class M, typename T> \
  INL void NAME##_self(const T* p) { \
    auto a = M<T>::make(p); \
    a OP## = a; \
    for (int i = 0; i < S; ++i) litl_eq("a" #OP "=a", a.data()[i], T(p[i] OP p[i])); \
  }
BIN(add, +) BIN(sub, -) BIN(mul, *) BIN(div, /) BIN(mod, %)
SCA(add, +) SCA(sub, -) SCA(mul, *) SCA(div, /) SCA(mod, %)
LSC(add, +) LSC(sub, -) LSC(mul, *)
SELF(add, +) SELF(sub, -) SELF(mul, *)
template <template <typename> class M, typename T>
INL void unary(const T* p) {
  auto a = M<T>::make(p);
  const auto n = -a;
  for (int i = 0; i < S; ++i) { litl_eq("-a", n.data()[i], T(-p[i])); litl_eq("-a leaves a", a.data()[i], p[i]); }
  const auto q = +a;
  for (int i = 0; i < S; ++i) litl_eq("+a", q.data()[i], p[i]);
}
template <template <typename> class M, typename T>
INL void steps(const T* p) {
  auto a = M<T>::make(p);
  auto& r = ++a;
  REQ("++a returns a", &r == &a);
  for (int i = 0; i < S; ++i) litl_eq("++a", a.data()[i], T(p[i] + T(1)));
  auto b = M<T>::make(p);
  auto& t = --b;
  REQ("--a returns a", &t == &b);
  for (int i = 0; i < S; ++i) litl_eq("--a", b.data()[i], T(p[i] - T(1)));
  auto c = M<T>::make(p);
  const auto d = c++;
  for (int i = 0; i < S; ++i) { litl_eq("a++ value", d.data()[i], p[i]); litl_eq("a++", c.data()[i], T(p[i] + T(1))); }
  auto e = M<T>::make(p);
  const auto f = e--;
  for (int i = 0; i < S; ++i) { litl_eq("a-- value", f.data()[i], p[i]); litl_eq("a--", e.data()[i], T(p[i] - T(1))); }
}
using cd = std::complex<double>;
#define ROOTS(N, M, T) \
  H h_##M##_##N##_addsub(const T* __restrict p, const T* __restrict q, T* k) { add_vv<M, T>(p, q); sub_vv<M, T>(p, q); } \
  H h_##M##_##N##_scalar(const T* __restrict p, T* k) { add_vs<M, T>(p, *k); sub_vs<M, T>(p, *k); mul_vs<M, T>(p, *k); } \
  H h_##M##_##N##_left(const T* __restrict p, T* k) { add_sv<M, T>(p, *k); sub_sv<M, T>(p, *k); mul_sv<M, T>(p, *k); } \
  H h_##M##_##N##_unary(const T* __restrict p) { unary<M, T>(p); } \
  H h_##M##_##N##_self(const T* __restrict p) { add_self<M, T>(p); sub_self<M, T>(p); }
#define ROOTD(N, M, T) H h_##M##_##N##_divs(const T* __restrict p, T* k) { div_vs<M, T>(p, *k); }
#define ROOTE(N, M, T) \
  H h_##M##_##N##_mul(const T* __restrict p, const T* __restrict q) { mul_vv<M, T>(p, q); } \
  H h_##M##_##N##_mulself(const T* __restrict p) { mul_self<M, T>(p); } \
  H h_##M##_##N##_div(const T* __restrict p, const T* __restrict q) { div_vv<M, T>(p, q); }
#define ROOTS1(N, M, T) H h_##M##_##N##_steps(const T* __restrict p) { steps<M, T>(p); }
#define ROOTM(N, M, T) \
  H h_##M##_##N##_mod(const T* __restrict p, const T* __restrict q) { mod_vv<M, T>(p, q); } \
  H h_##M##_##N##_mods(const T* __restrict p, T* k) { mod_vs<M, T>(p, *k); }
#define ALLI(N, M, T) ROOTS(N, M, T) ROOTD(N, M, T) ROOTS1(N, M, T) ROOTM(N, M, T)
#define ALLF(N, M, T) ROOTS(N, M, T) ROOTD(N, M, T) ROOTS1(N, M, T)
ALLI(i, Seq, int) ROOTE(i, Seq, int)
ALLF(d, Seq, double) ROOTE(d, Seq, double)
ALLF(f, Seq, float) ROOTE(f, Seq, float)
ALLI(u, Seq, unsigned char) ROOTE(u, Seq, unsigned char)
ALLI(l, Seq, long) ROOTE(l, Seq, long)
ALLI(i, Ras, int) ROOTE(i, Ras, int)
ALLF(d, Ras, double) ROOTE(d, Ras, double)
ALLI(l, Vec, long)
ALLF(d, Vec, double)
ROOTS(c, Seq, cd)
ALLI(i, Dyn, int) ROOTE(i, Dyn, int)
