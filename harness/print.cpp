// Insertion of containers into output streams: what is written, in which order.
#include "plain_std.h"
#include <iostream>
#include <sstream>
#include <fstream>
#include <complex>
#include <algorithm>
#include <numeric>
#include <boost/operators.hpp>
// A ghost stream which records the characters, and the values as opaque tokens
namespace std {
struct ghost_printer {
  long log[200];
  int n;
  ghost_printer() : n(0) {}
  void put_(long t) { log[n++] = t; }
  ghost_printer& operator<<(const char* s) {
    for (; *s; ++s) put_(*s);
    return *this;
  }
  ghost_printer& operator<<(char c) { put_(c); return *this; }
  ghost_printer& operator<<(int v) { put_(v); return *this; }
  ghost_printer& operator<<(long v) { put_(v); return *this; }
  ghost_printer& operator<<(double v) { long b; __builtin_memcpy(&b, &v, 8); put_(b); return *this; }
};
}
#define ostream ghost_printer
#include "LitlRaster/Raster.h"
#include "LitlContainer/Sequence.h"
#undef ostream
#include "litl_obl.h"
using namespace Litl;
typedef std::ghost_printer OS;
INL void text(const char* s, OS& e) { e << s; }
template <typename R>
INL void printed(const R& r, int n) {
  NOTHROW("printing does not throw");
  OS o, e;
  o << "x";
  OS& back = o << r;
  EQP("returns the stream", &back, &o);
  text("x[", e);
  for (int i = 0; i < n; ++i) {
    if (n > 7 && i > 2 && i < n - 3) continue;
    if (i) text(n > 7 && i == n - 3 ? " ... " : ", ", e);
    e << r.begin()[i];
  }
  text("]", e);
  EQI("as many tokens", o.n, e.n);
  for (int i = 0; i < o.n && i < e.n; ++i) litl_eq("each token", o.log[i], e.log[i]);
}
#define SEQ(T, N) H h_print_seq_##T##_##N(T* p) { printed(Sequence<T, PtrHolder<T>>(N, p), N); }
SEQ(int, 1) SEQ(int, 2) SEQ(int, 6) SEQ(int, 7) SEQ(int, 8) SEQ(int, 9) SEQ(int, 12) SEQ(double, 3) SEQ(double, 7) SEQ(double, 8) SEQ(double, 11)
H h_print_seq_int_0(int* p) { printed(Sequence<int, PtrHolder<int>>(0, p), 0); }
H h_print_raster(long* p) { printed(PtrRaster<long, 2>({3, 2}, p), 6); }
H h_print_raster_long(long* p) { printed(PtrRaster<long, 3>({3, 2, 4}, p), 24); }
H h_print_pos(const Position<3>& p) { printed(p, 3); }
H h_print_vec(const Vector<double, 8>& p) { printed(p, 8); }
H h_print_twice(int* p, int* q) {
  OS o, e;
  o << Sequence<int, PtrHolder<int>>(2, p) << Sequence<int, PtrHolder<int>>(1, q);
  e << "[" << p[0] << ", " << p[1] << "][" << q[0] << "]";
  EQI("as many tokens", o.n, e.n);
  for (int i = 0; i < e.n; ++i) litl_eq("each token", o.log[i], e.log[i]);
}
// many elements: the number of elements is not truncated
template <typename T, std::size_t N>
struct Block { T v[N]; };
template <std::size_t N>
INL void abridged(short* p) {
  OS o, e;
  o << Sequence<short, PtrHolder<short>>(N, p);
  e << "[" << p[0] << ", " << p[1] << ", " << p[2] << " ... " << p[N - 3] << ", " << p[N - 2] << ", " << p[N - 1] << "]";
  EQI("as many tokens", o.n, e.n);
  for (int i = 0; i < e.n && i < o.n; ++i) litl_eq("each token", o.log[i], e.log[i]);
}
H h_print_300(short* p) { abridged<300>(p); }
H h_print_70001(short* p) { abridged<70001>(p); }
H h_print_3000000000(short* p) { abridged<3000000000>(p); }
H h_print_5000000001(short* p) { abridged<5000000001>(p); }
