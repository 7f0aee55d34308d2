// Ghost clocks: the k-th time read is unknown.
#pragma once
#include "devirt.h"
#include <chrono>
#include "litl_obl.h"
struct ClockState {
  int reads;
};
static ClockState ghost_state_clock;
extern "C" __attribute__((const, nothrow)) long g_now(int k);
namespace std {
namespace chrono {
struct ghost_time {
  typedef nanoseconds duration;
  typedef duration::rep rep;
  typedef duration::period period;
  typedef chrono::time_point<ghost_time> time_point;
  static constexpr bool is_steady = true;
  static INL time_point now() { return time_point(duration(g_now(ghost_state_clock.reads++))); }
};
} // namespace chrono
} // namespace std
#define steady_clock ghost_time
#define high_resolution_clock ghost_time
#define system_clock ghost_time
