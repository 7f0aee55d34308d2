// Heterogeneous and homogeneous sequence helpers: order, number of calls, and reference semantics.
#include "plain_std.h"
#include <array>
#include <tuple>
#include <vector>
#include <list>
#include "LitlTypes/SeqUtils.h"
#include "litl_obl.h"
using namespace Litl;
extern "C" {
__attribute__((const, nothrow)) long g_f(long, long);
}
// Trace of the calls: a function of the rank of each call and of its argument
struct Trace {
  long n;
  long a[12];
  INL Trace() : n(0) {}
  INL long operator()(long x) { a[n] = x; const long k = n++; return g_f(k, x); }
};
struct Agg { long a; int b; double c; };
static_assert(isIterable<std::vector<int>>::value && isIterable<std::array<int, 2>>::value && isIterable<std::list<int>>::value && isIterable<const std::vector<int>&>::value, "containers are iterable");
static_assert(!isIterable<int>::value && !isIterable<std::tuple<int>>::value && !isIterable<int*>::value, "scalars and tuples are not iterable");
static_assert(isTuple<std::tuple<int, char>>() && isTuple<std::tuple<>>() && isTuple<std::array<int, 3>>() && isTuple<const std::tuple<int>&>(), "tuples and arrays are tuples");
static_assert(!isTuple<std::vector<int>>() && !isTuple<int>() && !isTuple<std::pair<int, int>>(), "other types are not tuples");
H h_as(long a, int b, double c) {
  NOTHROW("conversion");
  const auto t = std::make_tuple(a, b, c);
  const auto s = tupleAs<Agg>(t);
  EQI("first member", s.a, a);
  EQI("second member", s.b, b);
  EQF("third member", s.c, c);
  const std::array<long, 3> r {{a, a + 1, long(b)}};
  const auto u = tupleAs<std::array<long, 3>>(r);
  EQI("first item", u[0], a);
  EQI("second item", u[1], a + 1);
  EQI("third item", u[2], b);
}
H h_apply(long a, int b, double c) {
  auto t = std::make_tuple(a, b, c);
  Trace f;
  const long r = tupleApply(t, [&](long x, int y, double z) { f(x); f(y); EQF("third argument", z, c); return x * 2 + y; });
  EQI("first argument", f.a[0], a);
  EQI("second argument", f.a[1], b);
  EQI("called once", f.n, 2);
  EQI("the value of the function is returned", r, a * 2 + b);
  long& ref = tupleApply(t, [](long& x, int, double) -> long& { return x; });
  EQP("references are forwarded", &ref, &std::get<0>(t));
}
H h_iter(const long* p, const int* q) {
  auto its = std::make_tuple(p, q);
  Trace f;
  const long r = iteratorTupleApply(its, [&](long x, int y) { f(x); return f(y); });
  EQI("values of the first iterator", f.a[0], p[0]);
  EQI("values of the second iterator", f.a[1], q[0]);
  EQI("returned value", r, g_f(1, q[0]));
  EQI("called once", f.n, 2);
  EQP("the first iterator is incremented once", std::get<0>(its), p + 1);
  EQP("the second iterator is incremented once", std::get<1>(its), q + 1);
  iteratorTupleApply(its, [&](long x, int y) { f(x); return f(y); });
  EQI("then next values of the first iterator", f.a[2], p[1]);
  EQI("then next values of the second iterator", f.a[3], q[1]);
}
H h_iter0() {
  auto its = std::make_tuple();
  long n = 0;
  const long r = iteratorTupleApply(its, [&]() { ++n; return n; });
  EQI("functions without inputs are called once", n, 1);
  EQI("returned value", r, 1);
}
H h_foreach_tuple(long a, int b, long c) {
  auto t = std::make_tuple(a, b, c);
  Trace f;
  seqForeach(t, [&](auto& x) { x = static_cast<std::decay_t<decltype(x)>>(f(x)); });
  EQI("number of calls", f.n, 3);
  EQI("first item first", f.a[0], a);
  EQI("second item then", f.a[1], b);
  EQI("third item last", f.a[2], c);
  EQI("items can be modified", std::get<0>(t), g_f(0, a));
  EQI("last item can be modified", std::get<2>(t), g_f(2, c));
}
H h_foreach_array(long a, long b) {
  std::array<long, 2> t {{a, b}};
  Trace f;
  seqForeach(t, [&](auto& x) { x = f(x); });
  EQI("number of calls", f.n, 2);
  EQI("first item first", f.a[0], a);
  EQI("second item then", f.a[1], b);
  EQI("items can be modified", t[0], g_f(0, a));
  EQI("last item can be modified", t[1], g_f(1, b));
  Trace g;
  const auto& u = t;
  seqForeach(u, [&](const auto& x) { g(x); });
  EQI("number of calls for constant sequences", g.n, 2);
  EQI("last item of constant sequences", g.a[1], t[1]);
}
template <int N>
INL void foreach_vector(const long* p) {
  std::vector<long> v(p, p + N);
  Trace f;
  seqForeach(v, [&](auto& x) { x = f(x); });
  EQI("number of calls", f.n, N);
  for (int i = 0; i < N; ++i) {
    EQI("items in order", f.a[i], p[i]);
    EQI("items can be modified", v[i], g_f(i, p[i]));
  }
  Trace g;
  const auto& u = v;
  seqForeach(u, [&](const auto& x) { g(x); });
  EQI("number of calls for constant sequences", g.n, N);
  for (int i = 0; i < N; ++i) EQI("items of constant sequences in order", g.a[i], v[i]);
  const auto w = seqTransform<std::vector<long>>(v, [&](long x) { return g(x); });
  EQI("number of calls to transform", g.n, 2 * N);
  EQI("size of the transformed sequence", w.size(), N);
  for (int i = 0; i < N; ++i) EQI("transformed items in order", w[i], g_f(N + i, v[i]));
}
H h_foreach_vector0(const long* p) { foreach_vector<0>(p); }
H h_foreach_vector1(const long* p) { foreach_vector<1>(p); }
H h_foreach_vector3(const long* p) { foreach_vector<3>(p); }
H h_transform_tuple(long a, int b, long c) {
  const auto t = std::make_tuple(a, b, c);
  Trace f;
  struct R { long x, y, z; };
  const auto r = seqTransform<R>(t, [&](auto x) { return f(x); });
  EQI("number of calls", f.n, 3);
  EQI("first item", r.x, g_f(0, a));
  EQI("second item", r.y, g_f(1, b));
  EQI("third item", r.z, g_f(2, c));
  const std::array<long, 2> s {{c, a}};
  const auto u = seqTransform<std::array<long, 2>>(s, [&](auto x) { return f(x); });
  EQI("first array item", u[0], g_f(3, c));
  EQI("second array item", u[1], g_f(4, a));
}
// Serialization into a logger which records what it is given
struct Logger {
  long n, v[12];
  INL Logger() : n(0) {}
  INL Logger& operator<<(long x) { v[n++] = x; return *this; }
  INL Logger& operator<<(const char* s) { v[n++] = -1000 - s[0] * 256 - (s[0] ? s[1] : 0); return *this; }
};
static constexpr long SEP = -1000 - ',' * 256 - ' ';
H h_serialize(long a, long b, long c) {
  Logger l;
  serialize(l, a);
  EQI("a single argument has no separator", l.n, 1);
  EQI("first argument", l.v[0], a);
  Logger m;
  serialize(m, a, b, c);
  EQI("three arguments and two separators", m.n, 5);
  EQI("first argument", m.v[0], a);
  EQI("separator", m.v[1], SEP);
  EQI("second argument", m.v[2], b);
  EQI("separator", m.v[3], SEP);
  EQI("third argument", m.v[4], c);
}
