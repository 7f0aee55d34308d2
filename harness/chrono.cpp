// Chronometers over a ghost clock.
#include "ghost_clock.h"
#include <cmath>
#define PURE extern "C" __attribute__((const, nothrow))
PURE double g_sqrt(double v);
extern "C" __attribute__((nothrow)) void litl_sign(double v);
namespace std {
INL double ghost_sqrt(double v) {
  litl_sign(v); // analysed by the check
  return g_sqrt(v);
}
} // namespace std
#define sqrt ghost_sqrt
#include "LitlRun/Chronometer.h"
#undef sqrt
using namespace Litl;
template <typename U>
INL U inc(int k) { return std::chrono::duration_cast<U>(std::chrono::nanoseconds(g_now(2 * k + 1) - g_now(2 * k))); }
template <typename U, int N>
INL void check(const Chronometer<U>& c, U offset) {
  U sum = offset;
  double total = 0;
  for (int k = 0; k < N; ++k) {
    sum += inc<U>(k);
    total += inc<U>(k).count();
    EQF("increments are kept in order", c.increments()[k], inc<U>(k).count());
  }
  EQI("elapsed time is the offset plus the increments", c.elapsed().count(), sum.count());
  EQI("number of increments", c.count(), N);
  EQI("number of increments", c.increments().size(), N);
  REQ("not running once stopped", !c.isRunning());
  if constexpr (N > 0) EQF("mean is that of the increments, without the offset", c.mean(), total / N);
}
template <typename U, int N>
INL void runs(long o) {
  const U offset(o);
  Chronometer<U> c(offset);
  check<U, 0>(c, offset);
  U last = offset;
  for (int k = 0; k < N; ++k) {
    c.start();
    REQ("running once started", c.isRunning());
    EQI("starting adds no increment", c.count(), k);
    const U i = c.stop();
    EQI("stopping returns the increment", i.count(), inc<U>(k).count());
    EQI("last increment", c.last().count(), i.count());
  }
  check<U, N>(c, offset);
  EQI("each start and stop reads the clock once", ghost_state_clock.reads, 2 * N);
}
#define RUNS(U, N) \
  H h_run_##U##_##N(long o) { runs<std::chrono::U, N>(o); }
RUNS(nanoseconds, 0) RUNS(nanoseconds, 1) RUNS(nanoseconds, 2) RUNS(nanoseconds, 5)
RUNS(microseconds, 3) RUNS(milliseconds, 1) RUNS(milliseconds, 2) RUNS(seconds, 2)
// extremes
template <int N>
INL void extremes() {
  using U = std::chrono::nanoseconds;
  Chronometer<U> c;
  for (int k = 0; k < N; ++k) {
    c.start();
    c.stop();
  }
  double lo = inc<U>(0).count(), hi = lo;
  for (int k = 1; k < N; ++k) {
    const double v = inc<U>(k).count();
    lo = v < lo ? v : lo;
    hi = v > hi ? v : hi;
  }
  EQF("smallest increment", c.min(), lo);
  EQF("largest increment", c.max(), hi);
}
H h_extremes_1() { extremes<1>(); }
H h_extremes_2() { extremes<2>(); }
H h_extremes_3() { extremes<3>(); }
// standard deviation
template <int N>
INL void deviation() {
  using U = std::chrono::nanoseconds;
  Chronometer<U> c;
  double s = 0, s2 = 0;
  for (int k = 0; k < N; ++k) {
    c.start();
    c.stop();
    const double v = inc<U>(k).count();
    s += v;
    s2 += v * v;
  }
  EQF("biased standard deviation", c.stdev(), g_sqrt((s2 - s * s / N) / N));
}
H h_stdev_1() { deviation<1>(); }
H h_stdev_2() { deviation<2>(); }
H h_stdev_3() { deviation<3>(); }
H h_stdev_4() { deviation<4>(); }
// pauses, copies and resets
H h_reset(long o, long p) {
  using U = std::chrono::nanoseconds;
  Chronometer<U> c{U(o)};
  c.start();
  c.stop();
  c.start();
  c.reset(U(p));
  REQ("not running once reset", !c.isRunning());
  EQI("no increment once reset", c.count(), 0);
  EQI("elapsed time restarts from the offset", c.elapsed().count(), p);
  c.start();
  c.stop();
  EQI("number of increments", c.count(), 1);
  EQI("elapsed time", c.elapsed().count(), p + g_now(4) - g_now(3));
  EQI("last", c.last().count(), g_now(4) - g_now(3));
  c.start();
  c.stop();
  c.reset();
  EQI("no offset by default", c.elapsed().count(), 0);
  EQI("no increment once reset", c.count(), 0);
}
H h_restart() {
  using U = std::chrono::nanoseconds;
  Chronometer<U> c;
  EQI("no offset by default", c.elapsed().count(), 0);
  c.start();
  c.start();
  REQ("running", c.isRunning());
  c.stop();
  EQI("restarting discards the previous start", c.last().count(), g_now(2) - g_now(1));
  EQI("elapsed time", c.elapsed().count(), g_now(2) - g_now(1));
  EQI("number of increments", c.count(), 1);
}
H h_copy(long o) {
  using U = std::chrono::nanoseconds;
  Chronometer<U> c{U(o)};
  c.start();
  c.stop();
  Chronometer<U> d(c);
  d.start();
  d.stop();
  EQI("copies are independent", c.count(), 1);
  EQI("copies are independent", c.elapsed().count(), o + inc<U>(0).count());
  check<U, 2>(d, U(o));
}
