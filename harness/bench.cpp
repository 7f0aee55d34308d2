// Iteration benchmark: every way of looping computes the same sum and returns the time it takes.
#include "ghost_random.h"
#undef system_clock
#include "ghost_clock.h"
#include "LitlRun/IterationBenchmark.h"
#include "IterationBenchmark.cpp"
using namespace Litl;
template <int S>
struct Bench : IterationBenchmark {
  static constexpr int N = S * S * S;
  INL Bench() : IterationBenchmark(S) {}
  INL void fill(const char* p, const char* q, const char* r) {
    for (int i = 0; i < N; ++i) {
      m_a[i] = p[i];
      m_b[i] = q[i];
      m_c[i] = r[i];
    }
  }
  INL void check(Duration d, const char* p, const char* q, int run) {
    for (int i = 0; i < N; ++i) {
      litl_eq("first operand is not modified", m_a[i], p[i]);
      litl_eq("second operand is not modified", m_b[i], q[i]);
      litl_eq("each value of the output is the sum", m_c[i], char(p[i] + q[i]));
    }
    EQI("output keeps its shape", m_c.size(), N);
    EQI("duration is that of the loop", d.count(), std::chrono::duration_cast<Duration>(std::chrono::nanoseconds(g_now(2 * run + 1) - g_now(2 * run))).count());
    EQI("the clock is read before and after", ghost_state_clock.reads, 2 * run + 2);
  }
  INL void shapes() {
    for (int k = 0; k < 3; ++k) {
      EQI("shape", m_a.shape()[k], S);
      EQI("shape", m_b.shape()[k], S);
      EQI("shape", m_c.shape()[k], S);
    }
    EQI("size", m_a.size(), N);
    EQI("size", m_b.size(), N);
    EQI("size", m_c.size(), N);
    EQI("creation is not timed", ghost_state_clock.reads, 0);
  }
};
#define LOOP(f) \
  H h_##f(const char* p, const char* q, const char* r) { \
    Bench<2> b; \
    b.fill(p, q, r); \
    b.check(b.f(), p, q, 0); \
  } \
  H h_again_##f(const char* p, const char* q, const char* r) { \
    Bench<2> b; \
    b.fill(p, q, r); \
    b.f(); \
    b.fill(q, r, p); \
    b.check(b.f(), q, r, 1); \
  }
LOOP(loopOverXyz)
LOOP(loopOverZyx)
LOOP(iterateOverPositions)
LOOP(iterateOverPositionsOptimized)
LOOP(loopOverIndices)
LOOP(iterateOverValues)
LOOP(callOperator)
LOOP(callGenerate)
H h_shapes_1() { Bench<1>().shapes(); }
H h_shapes_3() { Bench<3>().shapes(); }
H h_one(const char* p, const char* q, const char* r) {
  Bench<1> b;
  b.fill(p, q, r);
  b.check(b.loopOverXyz(), p, q, 0);
}
