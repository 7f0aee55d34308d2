// Stepper pipelines: evaluation once and in order, values and times.
#include "ghost_clock.h"
#include "ghost_map.h"
#include <typeindex>
struct Ghost {
  const std::type_info* keys[16];
  int n;
  int log[32], reads[32], evaluated;
  int fail; // step which throws
};
static Ghost ghost_state;
#define G ghost_state
namespace std {
// types are ordered by first use
struct ghost_type_index {
  int rank;
  INL ghost_type_index(const type_info& t) : rank(0) {
    while (rank < G.n && G.keys[rank] != &t) ++rank;
    if (rank == G.n) G.keys[G.n++] = &t;
  }
  INL bool operator==(const ghost_type_index& o) const { return rank == o.rank; }
  INL bool operator!=(const ghost_type_index& o) const { return rank != o.rank; }
  INL bool operator<(const ghost_type_index& o) const { return rank < o.rank; }
  INL bool operator>(const ghost_type_index& o) const { return rank > o.rank; }
  INL size_t hash_code() const { return rank; }
};
template <>
struct hash<ghost_type_index> {
  INL size_t operator()(const ghost_type_index& i) const { return i.rank; }
};
} // namespace std
#define type_index ghost_type_index
#include "LitlRun/StepperPipeline.h"
#undef type_index
#undef map
#undef unordered_map
using namespace Litl;
#define PURE extern "C" __attribute__((const, nothrow))
PURE double g_step(int id, double a, double b, double c);
struct A : PipelineStep<void, double> { static constexpr int id = 1; };
struct B : PipelineStep<A, double> { static constexpr int id = 2; };
struct C : PipelineStep<std::tuple<A, B>, double> { static constexpr int id = 3; };
struct D : PipelineStep<std::tuple<C, B, A>, const double&> { static constexpr int id = 4; };
struct E : PipelineStep<std::tuple<D>, double> { static constexpr int id = 5; };
struct F : PipelineStep<std::tuple<>, void> { static constexpr int id = 6; };
struct I : PipelineStep<std::tuple<F, A>, long> { static constexpr int id = 7; };
struct K : PipelineStep<void, double> { static constexpr int id = 9; };
struct L : PipelineStep<std::tuple<A, F, K>, double> { static constexpr int id = 10; };
struct J : PipelineStep<E, double> { static constexpr int id = 8; };
struct Dag : StepperPipeline<Dag> {
  double v[16] {};
  template <typename S>
  INL void log() {
    G.log[G.evaluated] = S::id;
    G.reads[G.evaluated] = ghost_state_clock.reads;
    ++G.evaluated;
    if (G.fail == S::id) throw S::id;
  }
  void clear() { reset(); }
  const double* at(int i) const { return v + i; }
  INL Dag() {}

protected:
  template <typename S> void doEvaluate();
  template <typename S> typename S::Return doGet();
};
#define STEP(S, ...) \
  template <> INL void Dag::doEvaluate<S>() { log<S>(); v[S::id] = g_step(S::id, __VA_ARGS__); }
STEP(A, 0, 0, 0)
STEP(B, v[1], 0, 0)
STEP(C, v[1], v[2], 0)
STEP(D, v[3], v[2], v[1])
STEP(E, v[4], 0, 0)
STEP(F, 0, 0, 0)
STEP(I, v[6], v[1], 0)
STEP(J, v[5], 0, 0)
STEP(K, 0, 0, 0)
STEP(L, v[1], v[6], v[9])
template <> INL double Dag::doGet<A>() { return v[1]; }
template <> INL double Dag::doGet<B>() { return v[2]; }
template <> INL double Dag::doGet<C>() { return v[3]; }
template <> INL const double& Dag::doGet<D>() { return v[4]; }
template <> INL double Dag::doGet<E>() { return v[5]; }
template <> INL void Dag::doGet<F>() {}
template <> INL long Dag::doGet<I>() { return 7; }
template <> INL double Dag::doGet<J>() { return v[8]; }
template <> INL double Dag::doGet<K>() { return v[9]; }
template <> INL double Dag::doGet<L>() { return v[10]; }
INL void start() {
  G.n = G.evaluated = G.fail = 0;
  ghost_state_clock.reads = 0;
}
INL int position(int id) {
  int p = -1;
  for (int i = 0; i < G.evaluated; ++i)
    if (G.log[i] == id) p = i;
  return p;
}
INL double a() { return g_step(1, 0, 0, 0); }
INL double b() { return g_step(2, a(), 0, 0); }
INL double c() { return g_step(3, a(), b(), 0); }
INL double d() { return g_step(4, c(), b(), a()); }
INL double e() { return g_step(5, d(), 0, 0); }
template <typename S>
INL double time() { // of the last evaluation
  const int r = G.reads[position(S::id)];
  return double(g_now(r) - g_now(r - 1)) / 1e6;
}
template <typename S>
INL void done(Dag& g, int n) {
  REQ("the step was evaluated", g.evaluated<S>());
  EQI("steps are evaluated once", G.evaluated, n);
  EQF("time spent in the evaluation", g.milliseconds<S>(), time<S>());
}
template <typename S>
INL void todo(Dag& g) {
  REQ("the step was not evaluated", !g.evaluated<S>());
  EQF("no time spent", g.milliseconds<S>(), -1);
}
H h_none() {
  start();
  Dag g;
  todo<A>(g); todo<B>(g); todo<C>(g); todo<D>(g); todo<E>(g); todo<F>(g);
  EQF("no time spent at all", g.milliseconds(), 0);
  EQI("nothing is evaluated before it is needed", G.evaluated, 0);
}
H h_leaf() {
  start();
  Dag g;
  EQF("value", g.get<A>(), a());
  done<A>(g, 1);
  todo<B>(g);
  EQF("value", g.get<A>(), a());
  done<A>(g, 1);
  EQF("total time", g.milliseconds(), time<A>());
  g.get<F>();
  done<F>(g, 2);
  g.get<F>();
  done<F>(g, 2);
  EQF("total time", g.milliseconds(), time<A>() + time<F>());
}
H h_chain() {
  start();
  Dag g;
  EQF("value", g.get<B>(), b());
  done<A>(g, 2); done<B>(g, 2); todo<C>(g);
  REQ("prerequisites come first", position(1) < position(2));
  EQF("value", g.get<A>(), a());
  EQF("value", g.get<C>(), c());
  done<C>(g, 3);
  EQF("value", g.get<C>(), c());
  done<A>(g, 3); done<B>(g, 3); done<C>(g, 3); todo<D>(g);
  EQF("total time", g.milliseconds(), time<A>() + time<B>() + time<C>());
}
H h_dag() {
  start();
  Dag g;
  const double& r = g.get<D>();
  EQP("references are returned as is", &r, g.at(4));
  EQF("value", r, d());
  done<A>(g, 4); done<B>(g, 4); done<C>(g, 4); done<D>(g, 4); todo<E>(g);
  REQ("prerequisites come first", position(1) < position(2));
  REQ("prerequisites come first", position(2) < position(3));
  REQ("prerequisites come first", position(3) < position(4));
  EQF("value", g.get<B>(), b());
  EQF("value", g.get<D>(), d());
  done<D>(g, 4);
}
H h_single() {
  start();
  Dag g;
  EQF("value", g.get<E>(), e());
  done<A>(g, 5); done<B>(g, 5); done<C>(g, 5); done<D>(g, 5); done<E>(g, 5);
  REQ("prerequisites come first", position(4) < position(5));
  EQF("value", g.get<J>(), g_step(8, e(), 0, 0));
  done<J>(g, 6);
  EQF("value", g.get<E>(), e());
  done<E>(g, 6);
}
H h_empty() {
  start();
  Dag g;
  EQI("value", g.get<I>(), 7);
  done<F>(g, 3); done<A>(g, 3); done<I>(g, 3); todo<B>(g);
  REQ("prerequisites come first", position(6) < position(7));
  REQ("prerequisites come first", position(1) < position(7));
}
H h_wide() {
  start();
  Dag g;
  EQF("value", g.get<L>(), g_step(10, a(), g_step(6, 0, 0, 0), g_step(9, 0, 0, 0)));
  done<A>(g, 4); done<F>(g, 4); done<K>(g, 4); done<L>(g, 4); todo<B>(g);
  for (int id : {1, 6, 9}) REQ("prerequisites come first", position(id) >= 0 && position(id) < position(10));
  g.get<L>();
  done<L>(g, 4);
}
H h_reset() {
  start();
  Dag g;
  g.get<C>();
  g.clear();
  todo<A>(g); todo<B>(g); todo<C>(g);
  EQF("no time spent at all", g.milliseconds(), 0);
  EQF("value", g.get<B>(), b());
  done<A>(g, 5); done<B>(g, 5); todo<C>(g);
  EQF("total time", g.milliseconds(), time<A>() + time<B>());
}
H h_two() {
  start();
  Dag g, h;
  g.get<B>();
  todo<A>(h); todo<B>(h);
  EQF("value", h.get<B>(), b());
  EQI("pipelines are independent", G.evaluated, 4);
}
// a step which throws is not evaluated
template <int K>
INL void fails() {
  start();
  Dag g;
  G.fail = K;
  bool failed = false;
  try {
    g.get<C>();
  } catch (int) {
    failed = true;
  }
  REQ("exceptions are propagated", failed);
  const int n = G.evaluated;
  EQI("the evaluation stops there", n, K);
  if (K == 1) todo<A>(g);
  else done<A>(g, n);
  if (K <= 2) todo<B>(g);
  else done<B>(g, n);
  todo<C>(g);
  G.fail = 0;
  EQF("value", g.get<C>(), c());
  done<C>(g, n + 4 - K);
}
H h_fail_1() { fails<1>(); }
H h_fail_2() { fails<2>(); }
H h_fail_3() { fails<3>(); }
