// Construction, copy and move of containers on every storage; size and shape consistency.
#include "plain_std.h"
#include "LitlContainer/Sequence.h"
#include "LitlRaster/Raster.h"
#include "LitlRaster/Vector.h"
#include "litl_obl.h"
using namespace Litl;
template <typename T, std::size_t S>
using ArrSeq = Sequence<T, StdHolder<std::array<T, S>>>;
template <typename T>
using ValSeq = Sequence<T, StdHolder<std::valarray<T>>>;
template <typename T>
using AliSeq = Sequence<T, AlignedBuffer<T>>;
template <typename C, typename T>
INL void same(const char* l, const C& c, const T* p, int n) { for (int i = 0; i < n; ++i) litl_eq(l, c.data()[i], p[i]); }
template <typename C, typename T>
INL void put(C& c, const T* p, int n) { for (int i = 0; i < n; ++i) c.data()[i] = p[i]; }

// copy and move of owning containers
template <typename C, int S, typename T>
INL void value(C& a, const T* p) {
  put(a, p, S);
  REQ("size", a.size() == S);
  {
    C b(a);
    REQ("size of the copy", b.size() == S);
    same("copy", b, p, S);
    if (S > 0) b.data()[S - 1] = T(77);
    same("the source does not depend on its copy", a, p, S);
  }
  {
    C b(a);
    if (S > 1) b.data()[1] = T(77);
    b = a;
    same("assigned", b, p, S);
    if (S > 0) b.data()[0] = T(78);
    same("the source does not depend on the assigned container", a, p, S);
    C& r = a;
    a = r;
    same("self-assigned", a, p, S);
    REQ("size after self-assignment", a.size() == S);
  }
  {
    C b(a);
    C c(std::move(b));
    REQ("size of the moved container", c.size() == S);
    same("moved", c, p, S);
    C d(a);
    if (S > 0) d.data()[0] = T(79);
    d = std::move(c);
    REQ("size of the move-assigned container", d.size() == S);
    same("move-assigned", d, p, S);
  }
}
#define VAL(N, T, S, ...) H h_val_##N(const T* __restrict p) { __VA_ARGS__ a(S); value<__VA_ARGS__, S, T>(a, p); }
#define CM ,
VAL(vec, int, 3, Sequence<int>)
VAL(vecd, double, 1, Sequence<double>)
VAL(arr, int, 3, ArrSeq<int CM 3>)
VAL(val, double, 3, ValSeq<double>)
VAL(v3, long, 3, Vector<long CM 3>)
VAL(vm1, long, 3, Vector<long CM -1>)
H h_val_ras(const int* __restrict p) {
  Raster<int, 2> a({3, 2});
  value<Raster<int, 2>, 6, int>(a, p);
  Raster<int, 2> b(a), c;
  c = a;
  Raster<int, 2> d(std::move(a));
  for (int i = 0; i < 2; ++i) {
    REQ("shape of the copy", b.shape()[i] == 3 - i);
    REQ("shape of the assigned raster", c.shape()[i] == 3 - i);
    REQ("shape of the moved raster", d.shape()[i] == 3 - i);
  }
}
// a default raster is empty
H h_val_empty() {
  Raster<int, 3> a;
  Sequence<int> b;
  REQ("default raster is empty", a.size() == 0 && a.emtpy());
  REQ("default sequence is empty", b.size() == 0 && b.emtpy());
  Raster<int, 2> c({0, 5}), d({5, 0});
  REQ("a null length makes the raster empty", c.size() == 0 && d.size() == 0);
}
// views
H h_view_seq(int* p, std::size_t n) {
  Sequence<int, PtrHolder<int>> a(n, p);
  EQP("view data", a.data(), p);
  EQI("view size", a.size(), n);
  auto b = a;
  EQP("copied view data", b.data(), p);
  EQI("copied view size", b.size(), n);
  decltype(a) c(0, nullptr);
  c = a;
  EQP("assigned view data", c.data(), p);
  EQI("assigned view size", c.size(), n);
  auto d = std::move(b);
  EQP("moved view data", d.data(), p);
  EQI("moved view size", d.size(), n);
}
H h_view_ras(int* p, long w, long h) {
  ASSUME(p != nullptr);
  AlignedRaster<int, 2> d({w, h}, p);
  PtrRaster<int, 2> a({w, h}, p);
  EQP("view data", a.data(), p);
  EQI("view size", a.size(), w * h);
  EQI("view width", a.shape()[0], w);
  EQI("view height", a.shape()[1], h);
  auto b = a;
  EQP("copied view data", b.data(), p);
  EQI("copied view size", b.size(), w * h);
  const PtrRaster<const int, 2> c({w, h}, p);
  EQP("const view data", c.data(), p);
  EQP("aligned view data", d.data(), p);
  EQI("aligned view size", d.size(), w * h);
}
// construction from external data, list and iterable: element-wise copies
H h_data_vec(const int* __restrict p) {
  Sequence<int> a(3, p);
  same("copied data", a, p, 3);
  REQ("own memory", a.data() != p);
  ArrSeq<int, 3> b(3, p);
  same("copied data", b, p, 3);
  REQ("own memory", b.data() != p);
  Raster<int, 2> c({3, 2}, p);
  same("copied data", c, p, 6);
  ValSeq<int> e(3, p);
  same("copied data", e, p, 3);
}
H h_list(const int* __restrict p) {
  Sequence<int> a({p[0], p[1], p[2]});
  same("list", a, p, 3);
  REQ("list size", a.size() == 3);
  Raster<int, 2> b({2, 2}, {p[0], p[1], p[2], p[3]});
  same("list", b, p, 4);
  REQ("list shape", b.shape()[0] == 2 && b.shape()[1] == 2);
  Vector<long, 2> v {p[0], p[1]};
  litl_eq("vector list", v[0], long(p[0]));
  litl_eq("vector list", v[1], long(p[1]));
  ArrSeq<int, 3> c({p[0], p[1], p[2]});
  same("list", c, p, 3);
  Vector<long, -1> w {p[0], p[1], p[2]};
  REQ("dynamic vector list size", w.size() == 3);
  for (int i = 0; i < 3; ++i) litl_eq("dynamic vector list", w[i], long(p[i]));
}
H h_iterable(const int* __restrict p) {
  std::array<int, 3> in {p[0], p[1], p[2]};
  Sequence<int> a(in);
  same("iterable", a, p, 3);
  Sequence<long> l(in);
  for (int i = 0; i < 3; ++i) litl_eq("converted iterable", l[i], long(p[i]));
  Raster<int, 2> b({3, 1}, in);
  same("iterable", b, p, 3);
  REQ("iterable shape", b.shape()[0] == 3 && b.shape()[1] == 1);
  Vector<long, 3> v(in);
  for (int i = 0; i < 3; ++i) litl_eq("vector from iterable", v[i], long(p[i]));
}
H h_listm1(const int* __restrict p) {
  Raster<int, -1> b(Position<-1>{2, 2}, {p[0], p[1], p[2], p[3]});
  same("list", b, p, 4);
  REQ("list shape", b.shape().size() == 2 && b.shape()[0] == 2 && b.shape()[1] == 2);
  std::array<int, 4> in {p[0], p[1], p[2], p[3]};
  Raster<int, -1> c(Position<-1>{2, 2}, in);
  same("iterable", c, p, 4);
}
// containers are moved in and out without copy
H h_movein(const int* __restrict p) {
  std::vector<int> v(p, p + 3);
  const int* d = v.data();
  Sequence<int> a(3, std::move(v));
  EQP("the moved-in memory is used", a.data(), d);
  same("moved in", a, p, 3);
  std::vector<int> w;
  auto& r = a.moveTo(w);
  REQ("moveTo returns the destination", &r == &w);
  EQP("the moved-out memory is used", w.data(), d);
  REQ("moved-out size", w.size() == 3);
  std::vector<int> x(p, p + 4);
  const int* e = x.data();
  Raster<int, 2> b({2, 2}, std::move(x));
  EQP("the moved-in memory is used by the raster", b.data(), e);
  same("moved in raster", b, p, 4);
  std::array<int, 3> y {p[0], p[1], p[2]};
  ArrSeq<int, 3> c(3, std::move(y));
  same("moved in array", c, p, 3);
  std::array<int, 3> z {};
  c.moveTo(z);
  for (int i = 0; i < 3; ++i) litl_eq("moved out array", z[i], p[i]);
  EQP("container() is the storage", b.container().data(), b.data());
}
// consistent sizes are accepted, whatever the values
H h_size_ok(long w, long h, int* p) {
  ASSUME(w >= 0); ASSUME(w <= 1000); ASSUME(h >= 0); ASSUME(h <= 1000);
  NOTHROW("consistent sizes do not throw");
  PtrRaster<int, 2> a({w, h}, p);
  Sequence<int, PtrHolder<int>> b(w, p);
  EQI("size is the product of the lengths", a.size(), w * h);
}
H h_size_okl() {
  NOTHROW("consistent sizes do not throw");
  Raster<int, 2> a({2, 2}, {1, 2, 3, 4});
  std::array<int, 6> in {};
  Raster<int, 3> b({1, 2, 3}, in);
  std::array<int, 6> mv {};
  ArrRaster<int, 6, 2> c({3, 2}, std::move(mv));
  ArrRaster<int, 6, 2> d({3, 2});
  ArrSeq<int, 6> e(6), f(0), g({1, 2, 3, 4, 5, 6});
  litl_use(&a); litl_use(&b); litl_use(&c); litl_use(&d); litl_use(&e); litl_use(&f); litl_use(&g);
}
// inconsistent sizes throw a size error
#define BAD(N, ...) H h_x_size_##N(long w, long h, std::size_t n, int* p) { THROWS_ONLY("size mismatch", "Litl::SizeError"); (void)w; (void)h; (void)n; (void)p; MUST_THROW("size mismatch throws", __VA_ARGS__); }
BAD(arr, { ASSUME(n != 6); ASSUME(n != 0); ArrSeq<int, 6> a(n); litl_use(&a); })
BAD(arrlist, { ArrSeq<int, 6> a({1, 2, 3}); litl_use(&a); })
BAD(arrlistlong, { ArrSeq<int, 2> a({1, 2, 3}); litl_use(&a); })
BAD(arrras, { ASSUME(w >= 1); ASSUME(w < 1000); ASSUME(w != 6); ArrRaster<int, 6, 2> a({w, 1}); litl_use(&a); })
BAD(list, { Raster<int, 2> a({2, 2}, {1, 2, 3}); litl_use(&a); })
BAD(listlong, { Raster<int, 2> a({2, 1}, {1, 2, 3}); litl_use(&a); })
BAD(listw, { ASSUME(w >= 0); ASSUME(w < 1000); ASSUME(h >= 0); ASSUME(h < 1000); ASSUME(w * h != 3); Raster<int, 2> a({w, h}, {1, 2, 3}); litl_use(&a); })
BAD(listm1, { ASSUME(w >= 1); ASSUME(w < 1000); ASSUME(h >= 1); ASSUME(h < 1000); ASSUME(w * h != 3); Raster<int, -1> a(Position<-1>{w, h}, {1, 2, 3}); litl_use(&a); })
BAD(iter, { ASSUME(w >= 0); ASSUME(w < 1000); ASSUME(h >= 0); ASSUME(h < 1000); ASSUME(w * h != 5); std::array<int, 5> in {}; Raster<int, 2> a({w, h}, in); litl_use(&a); })
BAD(movearr, { ASSUME(n != 5); std::array<int, 5> in {}; ArrSeq<int, 5> a(n, std::move(in)); litl_use(&a); })
BAD(movevec, { ASSUME(n != 5); std::vector<int> in(5); Sequence<int> a(n, std::move(in)); litl_use(&a); })
BAD(moveras, { ASSUME(w >= 0); ASSUME(w < 1000); ASSUME(h >= 0); ASSUME(h < 1000); ASSUME(w * h != 5); std::vector<int> in(5); Raster<int, 2> a({w, h}, std::move(in)); litl_use(&a); })
