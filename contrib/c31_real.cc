// C31: ThreadPool with real threads: uneven closures, mode changes, pinned and
// unpinned, nested pools.
#include <sched.h>
#include <stdint.h>
#include <unistd.h>
#include <atomic>
#include <memory>
#include <thread>
#include <vector>
#include "hwy/contrib/thread_pool/thread_pool.h"
#include "vf.h"
namespace {
using vf::Ctx;
using vf::Src;
using hwy::PoolWaitMode;
using hwy::ThreadPool;

void Delay(uint64_t r) {
  switch (r & 15) {
    case 0: sched_yield(); break;
    case 1: usleep(useconds_t((r >> 8) % 200)); break;
    case 2: case 3: case 4: for (uint64_t i = (r >> 8) % 3000; i != 0; --i) __asm__ volatile(""); break;
    default: break;
  }
}

bool RunChecked(ThreadPool& pool, uint64_t begin, uint64_t len, uint64_t seed, std::vector<std::unique_ptr<ThreadPool>>* inner, std::string& err) {
  std::vector<uint32_t> plain(len, 0);  // non-atomic on purpose
  std::vector<std::atomic<uint32_t>> count(len);
  std::vector<std::atomic<int>> busy(pool.NumWorkers());
  for (auto& x : count) x = 0;
  for (auto& x : busy) x = 0;
  std::atomic<int> bad{0};
  pool.Run(begin, begin + len, [&](uint64_t task, size_t worker) {
    if (task - begin >= len) { bad = 1; return; }
    if (worker >= busy.size()) { bad = 2; return; }
    if (busy[worker].fetch_add(1) != 0) bad = 3;
    const size_t i = size_t(task - begin);
    uint64_t r = seed + i * 0x9E3779B97F4A7C15ull;
    r ^= r >> 31; r *= 0xBF58476D1CE4E5B9ull; r ^= r >> 27;
    Delay(r);
    if (inner && (r >> 60) == 0) { std::string e; if (!RunChecked(*(*inner)[worker], 5, 4, r, nullptr, e)) bad = 4; }
    ++plain[i];
    count[i].fetch_add(1, std::memory_order_relaxed);
    busy[worker].fetch_sub(1);
  });
  static const char* const kWhat[] = {"", "task outside the range", "worker index too large", "worker index used by two threads at a time", "nested run"};
  if (bad) err = kWhat[bad];
  for (size_t i = 0; i < len; ++i) if (count[i] != 1 || plain[i] != 1) err = vf::Fmt("task %zu of %zu executed %u times (%u)", i, size_t(len), count[i].load(), plain[i]);
  return err.empty();
}

void Real(Src& s, Ctx& cx) {
  hwy::SetWarnFunc([](const char*, int, const char*) {});
  const size_t threads = s.Below(4) == 0 ? size_t(s.Below(24)) : size_t(s.Below(8));
  const size_t nw = threads + 1;
  cx.evals = 0;
  ThreadPool pool(threads);
  std::vector<std::unique_ptr<ThreadPool>> inner;
  const bool nested = threads < 8 && s.Below(4) == 0;
  if (nested) for (size_t w = 0; w < nw; ++w) inner.emplace_back(new ThreadPool(w & 1));
  const size_t ops = 1 + size_t(s.Below(60));
  cx.Desc([&] { return vf::Fmt("%zu threads%s:", threads, nested ? ", nested" : ""); });
  for (size_t o = 0; o < ops; ++o) {
    const uint64_t k = s.Below(12);
    const uint64_t pause = s.Below(8) == 0 ? s.Below(300) : 0;
    if (pause) usleep(useconds_t(pause));  // workers go to sleep
    if (k == 0) { pool.SetWaitMode(PoolWaitMode::kBlock); cx.Desc([] { return std::string(" block"); }); }
    else if (k == 1 && threads <= 3) { pool.SetWaitMode(PoolWaitMode::kSpin); cx.Desc([] { return std::string(" spin"); }); }
    else {
      const uint64_t begin = s.Below(3) ? 0 : s.Bits() >> 1, len = s.Below(3) ? s.Below(2 * nw + 2) : s.Below(300);
      cx.Desc([&] { return vf::Fmt(" run(%llu,+%llu)", (unsigned long long)begin, (unsigned long long)len); });
      std::string err;
      VF_CHECK(RunChecked(pool, begin, len, s.Bits(), nested ? &inner : nullptr, err), "%s", err.c_str());
    }
    ++cx.evals;
  }
}
// Auto-tuning: every configuration comes from the candidates of the current
// wait mode, tuning ends after a bounded number of parallel runs, and then the
// configuration is the same one whenever that mode is active.
bool Same(const hwy::pool::Config& a, const hwy::pool::Config& b) { return a.spin_type == b.spin_type && a.wait_type == b.wait_type && a.barrier_type == b.barrier_type && !a.exit && !b.exit; }
void Tuning(Src& s, Ctx& cx) {
  hwy::SetWarnFunc([](const char*, int, const char*) {});
  const size_t threads = size_t(s.Below(3));
  cx.evals = 0;
  ThreadPool pool(threads);
  const bool spin_too = s.Bool();
  cx.Desc([&] { return vf::Fmt("%zu threads%s", threads, spin_too ? ", both wait modes" : ""); });
  VF_CHECK(pool.NumWorkers() == threads + 1, "NumWorkers() = %zu", pool.NumWorkers());
  PoolWaitMode mode = PoolWaitMode::kBlock;
  std::vector<hwy::pool::Config> cand[2] = {hwy::pool::Config::AllCandidates(PoolWaitMode::kSpin, threads), hwy::pool::Config::AllCandidates(PoolWaitMode::kBlock, threads)};
  for (int m = 0; m < 2; ++m) {
    VF_CHECK(!cand[m].empty(), "no candidates");
    for (const auto& c : cand[m]) {
      VF_CHECK((c.wait_type == hwy::pool::WaitType::kBlock) == (m == 1), "candidate '%s' does not belong to wait mode %s", c.ToString().c_str(), m ? "kBlock" : "kSpin");
      int n = 0;
      for (const auto& d : cand[m]) n += Same(c, d);
      VF_CHECK(n == 1, "candidate '%s' is listed %d times", c.ToString().c_str(), n);
    }
  }
  bool done[2] = {false, false};
  hwy::pool::Config best[2];
  size_t runs[2] = {0, 0};
  size_t left = 60 + size_t(s.Below(1500));
  while (left-- != 0) {
    if (spin_too && s.Below(150) == 0) { mode = mode == PoolWaitMode::kBlock ? PoolWaitMode::kSpin : PoolWaitMode::kBlock; pool.SetWaitMode(mode); }
    const int m = mode == PoolWaitMode::kBlock;
    const uint64_t begin = s.Below(50), len = s.Below(6) == 0 ? s.Below(2) : 2 + s.Below(6);
    std::atomic<uint64_t> sum{0};
    pool.Run(begin, begin + len, [&](uint64_t task, size_t) { sum += task + 1; });
    VF_CHECK(sum == len * begin + len * (len + 1) / 2, "tasks of run(%llu,+%llu) not executed exactly once", (unsigned long long)begin, (unsigned long long)len);
    ++cx.evals;
    if (threads != 0 && len >= 2) ++runs[m];
    const hwy::pool::Config now = pool.config();
    bool member = false;
    for (const auto& c : cand[m]) member |= Same(c, now);
    VF_CHECK(member, "configuration '%s' is not a candidate of wait mode %s", now.ToString().c_str(), m ? "kBlock" : "kSpin");
    VF_CHECK(pool.AutoTuneCosts().size() == cand[m].size(), "AutoTuneCosts().size() = %zu, %zu candidates", pool.AutoTuneCosts().size(), cand[m].size());
    if (done[m]) {
      VF_CHECK(pool.AutoTuneComplete(), "tuning became incomplete");
      VF_CHECK(Same(best[m], now), "configuration changed from '%s' to '%s' after tuning was complete", best[m].ToString().c_str(), now.ToString().c_str());
    } else if (pool.AutoTuneComplete()) {
      VF_CHECK(threads != 0 && runs[m] >= cand[m].size(), "tuning complete after %zu parallel runs, %zu candidates", runs[m], cand[m].size());
      done[m] = true; best[m] = now;
    } else {
      VF_CHECK(runs[m] < 50 * cand[m].size(), "tuning is not complete after %zu parallel runs with %zu candidates", runs[m], cand[m].size());
    }
  }
  cx.nontrivial = threads != 0;
}
VF_REG("Tuning", 48, 1500, &Tuning, vf::kNondet | vf::kThreads)

void MaxThreads(Src& s, Ctx& cx) {
  cpu_set_t old; CPU_ZERO(&old);
  VF_CHECK(sched_getaffinity(0, sizeof(old), &old) == 0, "sched_getaffinity");
  cpu_set_t sub; CPU_ZERO(&sub);
  int n = 0;
  for (int i = 0; i < CPU_SETSIZE; ++i) if (CPU_ISSET(i, &old) && s.Bool()) { CPU_SET(i, &sub); ++n; }
  if (n == 0) { sub = old; n = CPU_COUNT(&old); }
  size_t got = 0;
  int rc = 0;
  std::thread t([&] { rc = sched_setaffinity(0, sizeof(sub), &sub); got = ThreadPool::MaxThreads(); });
  t.join();
  cx.Desc([&] { return vf::Fmt("allowed on %d of %d processors", n, CPU_COUNT(&old)); });
  if (rc != 0) return;
  VF_CHECK(got == size_t(n - 1), "MaxThreads() = %zu for a thread allowed on %d processors", got, n);
}
VF_REG("MaxThreads", 2000, 20000, &MaxThreads)

VF_REG("Threads", 1200, 15000, &Real, vf::kNondet | vf::kThreads)
}  // namespace
