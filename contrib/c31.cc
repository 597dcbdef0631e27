// C31: ThreadPool under a deterministic scheduler (vfsched.h): generated
// histories of runs and mode changes x generated schedules.
#define VFS_MAIN
#include "vfsched.h"
#include <string.h>
#include "hwy/aligned_allocator.h"
#include "hwy/auto_tune.h"
#include "hwy/base.h"
#include "hwy/cache_control.h"
#include "hwy/contrib/thread_pool/topology.h"
#include "hwy/stats.h"
#include "hwy/targets.h"
#include "hwy/timer.h"
#include "hwy/x86_cpuid.h"
#include "vf.h"

static uint64_t g_time = 0, g_cost_bits = 8;
namespace hwy {
namespace vftimer {
inline uint64_t Start() { g_time += 1 + vfs::Below(uint64_t(1) << g_cost_bits); return g_time; }
inline uint64_t Stop() { return Start(); }
}  // namespace vftimer
static inline void vf_Pause() { vfs::OnPause(); }
}  // namespace hwy
inline void vf_umonitor(const void* p) { vfs::Monitor(p); }
inline int vf_umwait() { vfs::MonitorWait(); return 0; }
// Before the macros: headers that spin.h and futex.h include.
#include <climits>
#include <linux/futex.h>
#include <pthread.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <x86intrin.h>
#define HWY_ENABLE_SPIN_ASM 0
#define HWY_ENABLE_MONITORX 1
#define HWY_ENABLE_UMONITOR 1
#undef _umonitor
#undef _umwait
#define _umonitor(p) vf_umonitor(p)
#define _umwait(c, d) vf_umwait()
#define _mm_monitorx(p, e, h) vf_umonitor(p)
#define _mm_mwaitx(e, h, c) vf_umwait()
#define atomic vf_atomic
#define atomic_thread_fence vf_atomic_thread_fence
#define thread vf_thread
#define syscall vf_syscall
#define Pause vf_Pause
#define timer vftimer
#include "hwy/contrib/thread_pool/spin.h"
static hwy::SpinType g_spin = hwy::SpinType::kPause;
namespace hwy { static inline SpinType vf_DetectSpin(int = 0) { return g_spin; } }
#define DetectSpin vf_DetectSpin
#include "hwy/contrib/thread_pool/thread_pool.h"
#undef atomic
#undef thread
#undef syscall
#undef Pause
#undef timer

namespace {
using vf::Ctx;
using vf::Src;
using hwy::PoolWaitMode;
using hwy::ThreadPool;

// Checks of one Run.
struct Region {
  uint64_t begin, end;
  size_t workers;
  std::vector<uint32_t> count, by, at;  // executions; fiber and its time
  std::vector<int> busy;                // fiber currently using a worker index
  std::vector<uint8_t> plain;           // effects
  size_t main;
  uint32_t t0;
  unsigned slow_bits, yields;
  const void* nested = nullptr;
  Region(uint64_t b, uint64_t e, size_t w) : begin(b), end(e), workers(w), count(size_t(e - b), 0), by(size_t(e - b), 0), at(size_t(e - b), 0), busy(w, -1), plain(size_t(e - b), 0), main(vfs::Self()) {
    t0 = ++vfs::S().cur->vc[main];
    slow_bits = unsigned(vfs::Below(9));
    yields = unsigned(vfs::Below(4));
  }
  void Enter(uint64_t task, size_t worker) {
    if (task < begin || task >= end) { vfs::Error("task %llu outside [%llu, %llu)", (unsigned long long)task, (unsigned long long)begin, (unsigned long long)end); vfs::Bail(); }
    if (worker >= workers) { vfs::Error("worker %zu of %zu", worker, workers); vfs::Bail(); }
    const size_t i = size_t(task - begin);
    if (++count[i] != 1) { vfs::Error("task %zu of %zu executed %u times", i, count.size(), count[i]); vfs::Bail(); }
    if (busy[worker] != -1) { vfs::Error("worker index %zu is used by two threads at a time", worker); vfs::Bail(); }
    busy[worker] = int(vfs::Self());
    if (!vfs::HappensBefore(main, t0, vfs::Now())) { vfs::Error("what happened before Run is not visible to task %zu", i); vfs::Bail(); }
    for (unsigned y = 0; y < yields; ++y) vfs::Point();
    if (slow_bits < 8 && (vfs::Rnd() & ((1u << slow_bits) - 1)) == 0) vfs::Slow();
  }
  void Leave(uint64_t task, size_t worker) {
    const size_t i = size_t(task - begin);
    by[i] = uint32_t(vfs::Self());
    at[i] = ++vfs::S().cur->vc[vfs::Self()];
    busy[worker] = -1;
  }
  void Finish() {
    for (size_t i = 0; i < count.size(); ++i) {
      if (count[i] != 1) { vfs::Error("task %zu of %zu executed %u times when Run returned", i, count.size(), count[i]); vfs::Bail(); }
      if (by[i] != main && !vfs::HappensBefore(by[i], at[i], vfs::Now())) { vfs::Error("effects of task %zu of %zu are not visible when Run returns", i, count.size()); vfs::Bail(); }
    }
    for (size_t w = 0; w < workers; ++w) if (busy[w] != -1) { vfs::Error("worker %zu still running when Run returned", w); vfs::Bail(); }
  }
};

size_t Threads(Src& s) {
  switch (s.Below(8)) {
    case 0: return size_t(s.Below(3));
    case 1: case 2: case 3: return 1 + size_t(s.Below(5));
    case 4: case 5: return size_t(s.Below(10));
    case 6: return size_t(s.Below(20));
    default: { static const size_t k[] = {15, 16, 17, 31, 32, 33, 59, 60, 61, 62, 63, 64, 100}; return k[s.Below(13)]; }
  }
}
uint64_t Begin(Src& s) {
  switch (s.Below(6)) {
    case 0: return s.Below(100);
    case 1: return s.Bits();
    case 2: return ~uint64_t(0) - s.Below(300);
    case 3: return (uint64_t(1) << 32) - s.Below(300);
    default: return 0;
  }
}

void OneRun(ThreadPool& pool, uint64_t begin, uint64_t end, bool deprecated, std::vector<ThreadPool*>* inner) {
  const size_t workers = pool.NumWorkers();
  Region r(begin, end, workers);
  const auto body = [&](uint64_t task, size_t worker) {
    r.Enter(task, worker);
    if (inner) {
      // Nested: each worker uses its own pool; or this pool with at most one task.
      if (vfs::Below(3) == 0) {
        unsigned n = 0;
        const uint64_t b = vfs::Rnd() >> 1;
        const uint64_t len = vfs::Below(2);
        pool.Run(b, b + len, [&](uint64_t t, size_t) { if (t != b) vfs::Error("nested run: task"); ++n; });
        if (n != len) vfs::Error("nested run of %u tasks executed %u", unsigned(len), n);
      } else if (vfs::Below(4) == 0) {
        OneRun(*(*inner)[worker], 0, vfs::Below(6), false, nullptr);
      }
    }
    r.Leave(task, worker);
  };
  if (deprecated) {
    size_t init = 0;
    const bool ok = vfs::Below(4) != 0;
    const bool ret = pool.Run(begin, end, [&](size_t n) { init = n; return ok; }, body);
    if (init != workers || ret != ok) { vfs::Error("Run with init: %zu workers, returned %d", init, ret); vfs::Bail(); }
    if (!ok) {
      for (uint32_t c : r.count) if (c) { vfs::Error("tasks ran although init failed"); vfs::Bail(); }
      return;
    }
  } else {
    pool.Run(begin, end, body);
  }
  r.Finish();
}

static uint64_t g_runs = 0;
void History(Src& s, Ctx& cx, size_t max_threads, size_t max_ops) {
  static const hwy::SpinType kSpins[] = {hwy::SpinType::kPause, hwy::SpinType::kUMonitor, hwy::SpinType::kMonitorX};
  g_spin = kSpins[s.Below(3)];
  const size_t num_threads = std::min(Threads(s), max_threads);
  const size_t ops = 1 + size_t(s.Below(max_ops));
  struct Op { int kind; uint64_t begin, len; size_t threads; };
  std::vector<Op> op;
  const uint64_t style = s.Below(3);  // mostly runs / mode changes / mixed
  const size_t nw = std::min<size_t>(num_threads, 63) + 1;
  for (size_t i = 0; i < ops; ++i) {
    Op o{0, 0, 0, 0};
    const uint64_t k = s.Below(16);
    if (style == 1 && k < 8) o.kind = 1 + int(s.Below(2));
    else if (k == 0) o.kind = 1 + int(s.Below(2));
    else if (k == 1 && s.Below(4) == 0) { o.kind = 3; o.threads = std::min(Threads(s), max_threads); }
    else {
      o.kind = k == 2 ? 4 : k == 3 ? 5 : 0;
      o.begin = Begin(s);
      switch (s.Below(5)) {
        case 0: o.len = s.Below(3); break;
        case 1: o.len = nw - std::min<uint64_t>(nw, s.Below(3)) + s.Below(3); break;
        case 2: o.len = s.Below(nw + 1); break;
        case 3: o.len = s.Below(4 * nw + 1); break;
        default: o.len = s.Below(40); break;
      }
      if (o.begin + o.len < o.begin) o.len = ~uint64_t(0) - o.begin;
    }
    op.push_back(o);
  }
  const uint64_t seed = s.Bits();
  cx.Desc([&] {
    std::string d = vf::Fmt("%zu threads, spin %s, schedule %llu:", num_threads, hwy::ToString(g_spin), (unsigned long long)seed);
    for (const Op& o : op) d += o.kind == 1 ? " block" : o.kind == 2 ? " spin" : o.kind == 3 ? vf::Fmt(" recreate(%zu)", o.threads) : vf::Fmt(" run%s(%llu,+%llu)", o.kind == 4 ? "-init" : o.kind == 5 ? "-nested" : "", (unsigned long long)o.begin, (unsigned long long)o.len);
    return d;
  });
  hwy::SetWarnFunc([](const char*, int, const char*) {});
  g_time = 0;
  const std::string err = vfs::Run(seed, 20000000, [&] {
    g_cost_bits = vfs::Below(30);
    std::unique_ptr<ThreadPool> pool;
    std::vector<std::unique_ptr<ThreadPool>> own;
    std::vector<ThreadPool*> inner;
    const auto create = [&](size_t n) {
      pool.reset();
      const size_t f0 = vfs::S().fibers.size();
      pool.reset(new ThreadPool(n));
      const size_t want = std::min<size_t>(n, 63);
      if (pool->NumWorkers() != want + 1 || pool->NumThreads() != want + 1) vfs::Error("%zu threads: %zu workers", n, pool->NumWorkers());
      if (vfs::S().fibers.size() - f0 != want) vfs::Error("%zu threads: %zu started", n, vfs::S().fibers.size() - f0);
    };
    create(num_threads);
    size_t total = num_threads;
    for (const Op& o : op) {
      switch (o.kind) {
        case 1: pool->SetWaitMode(PoolWaitMode::kBlock); if (pool->config().wait_type != hwy::pool::WaitType::kBlock) vfs::Error("config() does not block after SetWaitMode(kBlock)"); break;
        case 2: pool->SetWaitMode(PoolWaitMode::kSpin); if (pool->config().wait_type == hwy::pool::WaitType::kBlock) vfs::Error("config() blocks after SetWaitMode(kSpin)"); break;
        case 3: if (total + o.threads < 100) { total += o.threads; inner.clear(); own.clear(); create(o.threads); } break;
        case 4: OneRun(*pool, o.begin, o.begin + o.len, true, nullptr); break;
        case 5:
          if (inner.size() != pool->NumWorkers() && pool->NumWorkers() <= 8 && total + 2 * pool->NumWorkers() < 150) {
            own.clear(); inner.clear();
            for (size_t w = 0; w < pool->NumWorkers(); ++w) { own.emplace_back(new ThreadPool(w % 3)); total += w % 3; inner.push_back(own.back().get()); }
          }
          OneRun(*pool, o.begin, o.begin + o.len, false, inner.size() == pool->NumWorkers() ? &inner : nullptr);
          break;
        default: OneRun(*pool, o.begin, o.begin + o.len, false, nullptr); break;
      }
      ++g_runs;
      if (!vfs::S().error.empty()) vfs::Bail();
    }
    own.clear();
    pool.reset();
    for (size_t i = 1; i < vfs::S().fibers.size(); ++i)
      if (vfs::S().fibers[i]->state != vfs::kDone) vfs::Error("thread %zu is still running after the destructor", i);
  });
  cx.evals = op.size();
  VF_CHECK(err.empty(), "%s", err.c_str());
}

void Small(Src& s, Ctx& cx) { History(s, cx, 8, 12); }
void Large(Src& s, Ctx& cx) { History(s, cx, 100, 40); }
void Tuned(Src& s, Ctx& cx) { History(s, cx, 4, 600); }

// Divide and run as the pool does, without threads.
void Iota(Src& s, Ctx& cx) {
  const uint32_t size = 1 + uint32_t(s.Below(s.Bool() ? 64 : 5000));
  const uint32_t start = uint32_t(s.Below(20000));
  cx.evals = 1;
  cx.Desc([&] { return vf::Fmt("size %u start %u", size, start); });
  const uint32_t c = hwy::pool::ShuffledIota::FindAnotherCoprime(size, start);
  const hwy::pool::ShuffledIota it(c);
  const hwy::Divisor64 div(size);
  std::vector<uint8_t> seen(size, 0);
  uint32_t x = uint32_t(s.Below(size));
  for (uint32_t i = 0; i < size; ++i) {
    VF_CHECK(x < size && !seen[x], "not a permutation");
    seen[x] = 1;
    x = it.Next(x, div);
  }
}
VF_REG(VF_PREFIX "Sched.small", 200000, 2000000, &Small)
VF_REG(VF_PREFIX "Sched.large", 20000, 200000, &Large)
VF_REG(VF_PREFIX "Sched.tuned", 3000, 30000, &Tuned)
VF_REG(VF_PREFIX "ShuffledIota", 4000, 40000, &Iota)
}  // namespace
