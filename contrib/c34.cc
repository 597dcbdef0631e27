// C34: timers and nanobenchmark.  timer.cc and nanobenchmark.cc run on a
// virtual clock on which every call and every measured function has an exact
// cost; the real Start/Stop are compared with the time stamp counter.
#include "vf.h"

#include <errno.h>
#include <stddef.h>
#include <stdint.h>
#include <sys/wait.h>
#include <unistd.h>
#include <x86intrin.h>

#include <map>
#include <set>

#include "hwy/nanobenchmark.h"
#include "hwy/timer.h"

namespace vfclock {
static double freq = 1E9;       // ticks per second
static uint64_t now = 0;        // ticks
static uint64_t cost = 1;       // of Start or Stop
static uint64_t steady_cost = 1;
static uint64_t every = 0, outlier = 0, count = 0;  // every N-th sample is disturbed
static int steady_calls = 0, bad_rep = 0, rep = 0; static int64_t rep_start = 0; static uint64_t bad_delay = 0, call_cost = 0;
uint64_t Start() { const uint64_t t = now; now += cost; return t; }
uint64_t Stop() {
  if (every != 0 && ++count % every == 0) now += outlier;
  const uint64_t t = now; now += cost; return t;
}
int64_t SteadyNanos() {
  const int64_t ns = int64_t(double(now) / freq * 1E9);
  now += steady_cost;
  if (steady_calls++ == 0) {  // the first call of a 10 ms repetition
    rep_start = ns;
    if (bad_rep >> rep++ & 1) now += bad_delay;  // descheduled before the counter is read
  } else if (ns - rep_start >= 10000000) {
    steady_calls = 0;
  }
  return ns;
}
void CallOverhead() { now += call_cost; }
}  // namespace vfclock

namespace {
using vf::Ctx;
using vf::Src;
namespace vc = vfclock;

// Runs f in a child process (the library caches frequency and resolution);
// f returns the failure message or "".
template <class F>
void InChild(const char* what, const F& f) {
  int fd[2];
  if (pipe(fd) != 0) throw vf::Discard();
  const pid_t pid = fork();
  if (pid == 0) {
    for (int sig : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT}) signal(sig, SIG_DFL);
    alarm(60);
    close(fd[0]);
    FILE* null = freopen("/dev/null", "w", stdout); (void)null;
    null = freopen("/dev/null", "w", stderr);
    std::string r;
    try { r = f(); } catch (const vf::Failed& e) { r = e.msg; }
    if (!r.empty()) { ssize_t ign = write(fd[1], r.data(), r.size()); (void)ign; }
    _exit(0);
  }
  close(fd[1]);
  std::string out; char buf[2048];
  for (;;) { const ssize_t r = read(fd[0], buf, sizeof buf); if (r < 0 && errno == EINTR) continue; if (r <= 0) break; out.append(buf, size_t(r)); }
  close(fd[0]);
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  VF_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "%s: process died with signal %d", what, WIFSIGNALED(st) ? WTERMSIG(st) : 0);
  VF_CHECK(out.empty(), "%s: %s", what, out.c_str());
}

void GenClock(Src& s, Ctx& cx) {
  static const double kFreq[] = {1E6, 1E7, 2.4E7, 1E9, 2.1E9, 3.6E9, 5.123E9, 999999937.0};
  vc::freq = kFreq[s.Below(8)];
  switch (s.Below(4)) {
    case 0: vc::now = 0; break;
    case 1: vc::now = (1ull << 32) - s.Below(1000000); break;
    default: vc::now = s.Bits(50); break;
  }
  vc::cost = 1 + s.Below(s.Bool() ? 60 : 3);
  vc::steady_cost = 1 + uint64_t(vc::freq * 1E-6 * double(1 + s.Below(30)) / 10);
  vc::every = s.Bool() ? 0 : 5 + s.Below(40);
  vc::outlier = 1 + s.Int(s.Bool() ? 6 : 34);
  vc::count = 0; vc::bad_rep = 0; vc::steady_calls = 0; vc::rep = 0; vc::call_cost = 0;
  cx.Desc([&] { return vf::Fmt("freq %.0f, start %llu, timer cost %llu, outlier %llu every %llu; ", vc::freq, (unsigned long long)vc::now, (unsigned long long)vc::cost, (unsigned long long)vc::outlier, (unsigned long long)vc::every); });
}

void TimerVirtual(Src& s, Ctx& cx) {
  GenClock(s, cx);
  // Up to half of the samples may be disturbed.
  if (vc::every != 0) vc::every = 3 + s.Below(10);
  if (s.Bool()) { static const int kBad[] = {1, 2, 3, 4, 5, 6}; vc::bad_rep = kBad[s.Below(6)]; vc::bad_delay = uint64_t(vc::freq * 1E-3 * double(s.Below(9))); }
  const uint64_t steps = 1 + s.Below(6);
  std::vector<uint64_t> step;
  for (uint64_t i = 0; i < steps; ++i) step.push_back(s.Int(40));
  const bool res_first = s.Bool();
  InChild("timer", [&]() -> std::string {
    auto res = [&] { const uint64_t r = hwy::platform::TimerResolution(); VF_CHECK(r == vc::cost, "TimerResolution = %llu, back to back calls are %llu ticks apart", (unsigned long long)r, (unsigned long long)vc::cost); };
    if (res_first) res();
    const double f = hwy::platform::InvariantTicksPerSecond();
    VF_CHECK(fabs(f / vc::freq - 1.0) < 2E-3, "InvariantTicksPerSecond = %.0f, expected %.0f", f, vc::freq);
    VF_CHECK(hwy::platform::InvariantTicksPerSecond() == f, "InvariantTicksPerSecond changed");
    if (!res_first) res();
    double prev = -1;
    for (uint64_t d : step) {
      const uint64_t at = vc::now;
      const double t = hwy::platform::Now();
      VF_CHECK(fabs(t - double(at) / f) <= fabs(t) * 1E-12 + 1E-12, "Now = %.12f, expected %.12f", t, double(at) / f);
      VF_CHECK(t >= prev, "Now went back from %.12f to %.12f", prev, t);
      prev = t;
      const uint64_t a0 = vc::now;
      const hwy::Timestamp t0;
      vc::now += d;
      const uint64_t a1 = vc::now;
      const double el = hwy::SecondsSince(t0), want = double(a1 - a0) / f;
      VF_CHECK(fabs(el - want) <= 1E-12 * (fabs(double(a1) / f) + 1), "SecondsSince = %.12f, expected %.12f", el, want);
    }
    return "";
  });
  cx.evals = 3 + 3 * steps;
  cx.nontrivial = vc::every != 0;
}
VF_REG("TimerVirtual", 1500, 20000, (&TimerVirtual))

// ---- nanobenchmark
struct Bench {
  std::map<size_t, uint64_t> cost;
  uint64_t calls = 0, bad_input = 0, bad_arg = 0;
  const void* arg = nullptr;
  uint64_t Call(const void* a, size_t in) {
    ++calls;
    if (a != arg) ++bad_arg;
    auto it = cost.find(in);
    if (it == cost.end()) { ++bad_input; return 0; }
    vc::now += it->second;
    return it->second;
  }
};
Bench* g_bench;
hwy::FuncOutput BenchFunc(const void* arg, hwy::FuncInput in) { return g_bench->Call(arg, in); }

void Measure(Src& s, Ctx& cx) {
  GenClock(s, cx);
  vc::freq = s.Bool() ? 1E6 : 3E7;
  vc::call_cost = s.Bool() ? s.Below(50) : 0;
  Bench b;
  g_bench = &b;
  const size_t n = 1 + size_t(s.Below(s.Chance(1, 4) ? 14 : 6));
  const size_t distinct = 1 + size_t(s.Below(n));
  // More expensive ones are rarer: keep full distributions measurable.
  const int mag = int(s.Below(5));
  std::vector<size_t> pool, inputs;
  for (size_t i = 0; i < distinct; ++i) {
    const size_t in = s.Bool() ? size_t(s.Below(20)) : size_t(s.Int(64));
    const uint64_t c = 1 + (mag == 0 ? s.Below(5) : mag == 1 ? s.Below(100) : mag == 2 ? s.Below(100000) : mag == 3 ? s.Int(33) : s.Below(3) * 1000);
    pool.push_back(in);
    b.cost[in] = c;
  }
  for (size_t i = 0; i < n; ++i) inputs.push_back(i < distinct ? pool[i] : pool[size_t(s.Below(distinct))]);
  hwy::Params p;
  p.verbose = s.Chance(1, 8);
  p.precision_divisor = 1 + size_t(s.Below(s.Bool() ? 1024 : 40));
  p.subset_ratio = 2 + size_t(s.Below(3));
  p.seconds_per_eval = 4E-3 / double(1 + s.Below(10));
  p.min_samples_per_eval = 5 + size_t(s.Below(10));
  p.min_mode_samples = s.Bool() ? 64 : 1 + size_t(s.Below(200));
  p.max_evals = 1 + size_t(s.Below(9));
  p.target_rel_mad = double(s.Below(5)) * 0.001;
  const bool closure = s.Bool();
  cx.Desc([&] {
    std::string d = vf::Fmt("precision %zu ratio %zu sec %.5f samples %zu mode %zu evals %zu; inputs:", p.precision_divisor, p.subset_ratio, p.seconds_per_eval, p.min_samples_per_eval, p.min_mode_samples, p.max_evals);
    for (size_t i : inputs) d += vf::Fmt(" %zu(cost %llu)", i, (unsigned long long)b.cost[i]);
    return d;
  });
  cx.evals = 2 + b.cost.size();
  cx.nontrivial = b.cost.size() > 1;
  InChild("nanobenchmark", [&]() -> std::string {
    std::vector<hwy::Result> r(b.cost.size() + 2);
    for (auto& x : r) { x.input = 77; x.ticks = -5.f; x.variability = -5.f; }
    size_t got;
    const uint8_t arg = 3;
    if (closure) {
      Bench* bp = &b;
      got = hwy::MeasureClosure([bp](const hwy::FuncInput in) { return bp->Call(nullptr, in); }, inputs.data(), inputs.size(), r.data() + 1, p);
    } else {
      b.arg = &arg;
      got = hwy::Measure(&BenchFunc, &arg, inputs.data(), inputs.size(), r.data() + 1, p);
    }
    VF_CHECK(b.bad_input == 0, "the function was called %llu times with an input that was not given", (unsigned long long)b.bad_input);
    VF_CHECK(b.bad_arg == 0, "the function was called %llu times with another arg", (unsigned long long)b.bad_arg);
    VF_CHECK(got == b.cost.size(), "%zu results for %zu unique inputs", got, b.cost.size());
    VF_CHECK(r[0].input == 77 && r[0].ticks == -5.f && r.back().input == 77 && r.back().ticks == -5.f, "results outside the array were written");
    std::set<size_t> seen;
    for (size_t i = 1; i <= got; ++i) {
      VF_CHECK(b.cost.count(r[i].input) && seen.insert(r[i].input).second, "result %zu is for input %zu (unknown or repeated)", i, r[i].input);
      const double want = double(b.cost[r[i].input]);
      VF_CHECK(fabs(double(r[i].ticks) - want) <= want * 4E-7, "input %zu: %.9g ticks, the function takes exactly %.0f", r[i].input, double(r[i].ticks), want);
      VF_CHECK(r[i].variability == 0.0f, "input %zu: variability %g although more than half of all samples are equal", r[i].input, double(r[i].variability));
    }
    return "";
  });
}
VF_REG("Measure", 2500, 40000, (&Measure))

// ---- the real counter
void TimerReal(Src& s, Ctx& cx) {
  char cpu[100 + 16];
  memset(cpu, 0x5A, sizeof cpu);
  const bool have = hwy::platform::HaveTimerStop(cpu);
  for (int i = 100; i < 116; ++i) VF_CHECK(cpu[i] == 0x5A, "HaveTimerStop wrote past 100 characters");
  memset(cpu, 0x5A, sizeof cpu);
  if (hwy::platform::GetCpuString(cpu)) VF_CHECK(memchr(cpu, 0, 100) != nullptr, "GetCpuString is not terminated");
  for (int i = 100; i < 116; ++i) VF_CHECK(cpu[i] == 0x5A, "GetCpuString wrote past 100 characters");
  const int n = 1 + int(s.Below(200));
  for (int i = 0; i < n; ++i) {
    const bool stop = have && s.Bool();
    _mm_mfence(); _mm_lfence();
    const uint64_t a = __rdtsc();
    _mm_lfence();
    const uint64_t t = stop ? hwy::timer::Stop() : hwy::timer::Start();
    _mm_lfence();
    const uint64_t b = __rdtsc();
    // a single disagreement could be a migration between sockets
    if (!(a <= t && t <= b)) { static int bad = 0; VF_CHECK(++bad < 5, "%s() = %llu is not between the counter values %llu and %llu", stop ? "Stop" : "Start", (unsigned long long)t, (unsigned long long)a, (unsigned long long)b); }
  }
  VF_CHECK(hwy::Unpredictable1() == 1, "Unpredictable1() = %d", hwy::Unpredictable1());
  cx.evals = uint64_t(n) + 3;
}
VF_REG("TimerReal", 5000, 50000, (&TimerReal), vf::kSingle | vf::kNondet)
}  // namespace
