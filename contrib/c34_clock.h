// Virtual clock: included before timer.cc and nanobenchmark.cc of /repo (and
// c34.cc), replaces the time stamp counter and std::chrono::steady_clock.
#ifndef VF_C34_CLOCK_H_
#define VF_C34_CLOCK_H_
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <time.h>

#include <algorithm>
#include <chrono>  // NOLINT
#include <limits>
#include <numeric>
#include <random>
#include <string>
#include <thread>  // NOLINT
#include <utility>
#include <vector>

#include "hwy/abort.h"
#include "hwy/aligned_allocator.h"
#include "hwy/base.h"
#include "hwy/robust_statistics.h"
#include "hwy/timer.h"
#include "hwy/x86_cpuid.h"

namespace vfclock {
uint64_t Start();  // ticks
uint64_t Stop();
int64_t SteadyNanos();
void CallOverhead();
}  // namespace vfclock
namespace hwy {
namespace vf_timer {
using Ticks = uint64_t;
static inline Ticks Start() { return vfclock::Start(); }
static inline Ticks Stop() { return vfclock::Stop(); }
}  // namespace vf_timer
}  // namespace hwy
// Every measured call, including the one of the empty function, has the same
// extra cost.
namespace hwy {
template <class T> static inline void VfPreventElision(T&& v) { vfclock::CallOverhead(); PreventElision(v); }
}
namespace std {
namespace chrono {
struct vf_steady {
  using duration = nanoseconds;
  using rep = duration::rep;
  using period = duration::period;
  using time_point = chrono::time_point<vf_steady, duration>;
  static constexpr bool is_steady = true;
  static time_point now() noexcept { return time_point(duration(vfclock::SteadyNanos())); }
};
}  // namespace chrono
}  // namespace std
#define timer vf_timer
#define PreventElision VfPreventElision
#define steady_clock vf_steady
#endif
