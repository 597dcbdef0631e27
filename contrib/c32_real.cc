// C32: the same with real threads, futex and monitor/wait; affinity, topology
// and caches of this machine, and affinity on simulated machines.
#include <errno.h>
#include <sched.h>
#include <stdint.h>
#include <string.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <atomic>
#include <memory>
#include <set>
#include <thread>
#include <vector>
#include "hwy/contrib/thread_pool/futex.h"
#include "hwy/contrib/thread_pool/spin.h"
#include "hwy/contrib/thread_pool/topology.h"
#include "vf.h"

namespace {
struct Sim { bool on = false; std::vector<bool> avail, cur; unsigned gets = 0, sets = 0; bool self = true, fail = false; };
thread_local Sim t_sim;
}  // namespace
extern "C" {
int __real_sched_getaffinity(pid_t, size_t, cpu_set_t*);
int __real_sched_setaffinity(pid_t, size_t, const cpu_set_t*);
int __wrap_sched_getaffinity(pid_t pid, size_t n, cpu_set_t* set) {
  Sim& s = t_sim;
  if (!s.on) return __real_sched_getaffinity(pid, n, set);
  ++s.gets;
  s.self &= pid == 0 || pid == gettid();
  if (s.fail) { errno = EINVAL; return -1; }
  memset(set, 0, n);
  for (size_t i = 0; i < s.cur.size() && i < n * 8; ++i) if (s.cur[i]) CPU_SET_S(i, n, set);
  return 0;
}
int __wrap_sched_setaffinity(pid_t pid, size_t n, const cpu_set_t* set) {
  Sim& s = t_sim;
  if (!s.on) return __real_sched_setaffinity(pid, n, set);
  ++s.sets;
  s.self &= pid == 0 || pid == gettid();
  std::vector<bool> r(s.avail.size(), false);
  bool any = false;
  for (size_t i = 0; i < r.size() && i < n * 8; ++i) { r[i] = s.avail[i] && CPU_ISSET_S(i, n, set); any = any || r[i]; }
  if (!any) { errno = EINVAL; return -1; }
  s.cur = r;
  return 0;
}
}

namespace {
using vf::Ctx;
using vf::Src;

void Delay(uint64_t r) {
  switch (r & 15) {
    case 0: sched_yield(); break;
    case 1: usleep(useconds_t((r >> 8) % 150)); break;
    case 2: case 3: case 4: for (uint64_t i = (r >> 8) % 3000; i != 0; --i) __asm__ volatile(""); break;
    default: break;
  }
}

// One writer, several waiters, each value is acknowledged by all.
void Real(Src& s, Ctx& cx) {
  hwy::SetWarnFunc([](const char*, int, const char*) {});
  static const hwy::SpinType best = hwy::DetectSpin();
  const size_t peers = 1 + size_t(s.Below(s.Below(3) ? 4 : 10)), rounds = 1 + size_t(s.Below(40));
  const bool lockstep = s.Bool();
  std::vector<uint32_t> val(1, uint32_t(s.Bits()));
  std::set<uint32_t> used(val.begin(), val.end());
  while (val.size() <= rounds) {
    uint32_t v = s.Bool() ? val.back() + 1 : val.back() ^ (1u << s.Below(32));
    if (!lockstep) while (!used.insert(v).second) v += 7;
    val.push_back(v);
  }
  std::vector<unsigned> kind(peers);
  for (auto& k : kind) k = unsigned(s.Below(3));  // pause, best, futex
  vf::Rng rng = s.Sub();
  cx.evals = rounds * peers;
  cx.Desc([&] { return vf::Fmt("%zu waiters, %zu values%s, best spin %s", peers, rounds, lockstep ? ", lockstep" : "", hwy::ToString(best)); });
  std::atomic<uint32_t> a{val[0]}, bad{0};
  std::vector<std::atomic<uint32_t>> ack(peers);
  for (auto& x : ack) x = 0;
  std::vector<uint32_t> data(rounds + 1, 0);
  std::vector<std::thread> t;
  for (size_t p = 0; p < peers; ++p) {
    const uint64_t seed = rng();
    t.emplace_back([&, p, seed] {
      uint64_t r = seed;
      uint32_t prev = val[0];
      size_t at = 0;
      while (at != rounds) {
        r = r * 6364136223846793005ull + 1442695040888963407ull;
        Delay(r >> 20);
        uint32_t got = 0;
        if (kind[p] == 2) got = hwy::BlockUntilDifferent(prev, a);
        else hwy::CallWithSpin(kind[p] == 0 ? hwy::SpinType::kPause : best, [&](const auto spin) {
          if (lockstep && (r >> 63)) { spin.UntilEqual(val[at + 1], a); got = val[at + 1]; }
          else got = spin.UntilDifferent(prev, a).current;
        });
        if (got == prev) { bad = 1; }
        size_t next = at + 1;
        while (next <= rounds && val[next] != got) ++next;
        if (next > rounds || (lockstep && next != at + 1)) { bad = 2; next = rounds; }
        if (bad == 0 && data[next] != val[next]) bad = 3;
        at = next;
        prev = got;
        ack[p].store(uint32_t(at), std::memory_order_release);
        hwy::WakeAll(ack[p]);
      }
    });
  }
  for (size_t r = 1; r <= rounds; ++r) {
    data[r] = val[r];
    a.store(val[r], std::memory_order_release);
    hwy::WakeAll(a);
    if (lockstep) for (size_t p = 0; p < peers; ++p) {
      if (rng() & 1) { uint32_t have = uint32_t(r - 1); while (have < r) have = hwy::BlockUntilDifferent(have, ack[p]); }
      else hwy::CallWithSpin(best, [&](const auto spin) { spin.UntilDifferent(uint32_t(r - 1), ack[p]); });
      if (bad) ack[p] = uint32_t(r);
    } else Delay(rng());
  }
  for (auto& x : t) x.join();
  static const char* const kWhat[] = {"", "returned the same value", "returned a value that was not stored", "data written before is not visible"};
  VF_CHECK(bad == 0, "%s", kWhat[bad.load()]);
}

using Set = hwy::LogicalProcessorSet;
std::string Str(const Set& s) { std::string r; s.Foreach([&](size_t i) { r += vf::Fmt(" %zu", i); }); return r; }
bool Same(const Set& a, const Set& b) { return Str(a) == Str(b); }
// Of the first thread; before any change.
const Set& Available() { static const Set s = [] { Set r; hwy::GetThreadAffinity(r); return r; }(); return s; }

void Affinity(Src& s, Ctx& cx) {
  const Set avail = Available();
  std::vector<size_t> v;
  avail.Foreach([&](size_t i) { v.push_back(i); });
  VF_CHECK(!v.empty(), "GetThreadAffinity failed");
  const size_t steps = 1 + size_t(s.Below(6));
  struct Step { Set set, want; unsigned how; size_t pin; bool ok; };
  std::vector<Step> st(steps);
  for (Step& x : st) {
    x.how = unsigned(s.Below(5));
    for (size_t i : v) if (s.Bool()) { x.set.Set(i); x.want.Set(i); }
    if (x.how == 0 || x.want.Count() == 0) { x.pin = v[size_t(s.Below(v.size()))]; x.how = 0; x.set = Set(); x.set.Set(x.pin); x.want = x.set; }
    if (x.how == 1) for (int i = 0; i < 5; ++i) { const size_t q = size_t(s.Below(hwy::kMaxLogicalProcessors)); if (!avail.Get(q)) x.set.Set(q); }
    if (x.how == 2) { x.set = Set(); x.want = Set(); if (s.Bool()) { const size_t q = size_t(s.Below(hwy::kMaxLogicalProcessors)); if (!avail.Get(q)) x.set.Set(q); } }
    x.ok = x.want.Count() != 0;
  }
  const bool dirty = s.Bool();
  cx.evals = steps;
  cx.Desc([&] { std::string d; for (auto& x : st) d += x.how == 0 ? vf::Fmt("; pin %zu", x.pin) : "; set" + Str(x.set); return d; });
  std::string err;
  std::thread([&] {
    Set prev;
    if (!hwy::GetThreadAffinity(prev)) { err = "GetThreadAffinity failed"; return; }
    for (const Step& x : st) {
      const bool ok = x.how == 0 ? hwy::PinThreadToLogicalProcessor(x.pin) : hwy::SetThreadAffinity(x.set);
      if (ok != x.ok) { err = vf::Fmt("set%s returned %d", Str(x.set).c_str(), ok); return; }
      Set got;
      if (dirty) for (size_t i = 0; i < hwy::kMaxLogicalProcessors; i += 3) got.Set(i);
      if (!hwy::GetThreadAffinity(got)) { err = "GetThreadAffinity failed"; return; }
      const Set& want = ok ? x.want : prev;
      if (!Same(got, want)) { err = "affinity is" + Str(got) + " after setting" + Str(x.set) + ", expected" + Str(want); return; }
      if (ok) prev = x.want;
      for (int i = 0; i < 3; ++i) { const int c = sched_getcpu(); if (c >= 0 && !want.Get(size_t(c))) { err = vf::Fmt("runs on %d with affinity%s", c, Str(want).c_str()); return; } sched_yield(); }
    }
  }).join();
  VF_CHECK(err.empty(), "%s", err.c_str());
  Set mine;
  VF_CHECK(hwy::GetThreadAffinity(mine) && Same(mine, avail), "affinity of another thread changed");
}

void Simulated(Src& s, Ctx& cx) {
  const size_t total = 1 + size_t(s.Below(s.Bool() ? 16 : hwy::kMaxLogicalProcessors));
  Sim sim;
  sim.on = true;
  sim.avail.resize(hwy::kMaxLogicalProcessors, false);
  vf::Rng r = s.Sub();
  const uint64_t density = 1 + s.Below(8);
  for (size_t i = 0; i < total; ++i) sim.avail[i] = r() % 8 < density;
  sim.avail[size_t(s.Below(total))] = true;
  sim.cur = sim.avail;
  cx.evals = 1;
  Set set, want;
  const bool pin = s.Below(3) == 0;
  if (pin) set.Set(size_t(s.Below(total)));
  else for (size_t i = 0; i < hwy::kMaxLogicalProcessors; ++i) if (r() % 16 < density) set.Set(i);
  set.Foreach([&](size_t i) { if (sim.avail[i]) want.Set(i); });
  Set all;
  for (size_t i = 0; i < sim.avail.size(); ++i) if (sim.avail[i]) all.Set(i);
  const bool fail = s.Below(16) == 0;
  cx.Desc([&] { return "available" + Str(all).substr(0, 300) + "; " + (pin ? "pin" : "set") + Str(set).substr(0, 300); });
  Set got, got2;
  const bool dirty = s.Bool();
  if (dirty) for (size_t i = 0; i < hwy::kMaxLogicalProcessors; ++i) if (r() & 1) { got.Set(i); got2.Set(i); }
  t_sim = sim;
  const bool ok0 = hwy::GetThreadAffinity(got);
  size_t lp = 0;
  if (pin) lp = set.First();
  const bool ok1 = pin ? hwy::PinThreadToLogicalProcessor(lp) : hwy::SetThreadAffinity(set);
  const bool ok2 = hwy::GetThreadAffinity(got2);
  t_sim.fail = fail;
  Set none;
  const bool ok3 = hwy::GetThreadAffinity(none);
  sim = t_sim;
  t_sim = Sim();
  VF_CHECK(ok0 && Same(got, all), "GetThreadAffinity:%s, expected%s", Str(got).c_str(), Str(all).c_str());
  VF_CHECK(ok1 == (want.Count() != 0), "SetThreadAffinity returned %d", ok1);
  VF_CHECK(ok2 && Same(got2, ok1 ? want : all), "GetThreadAffinity:%s after setting", Str(got2).c_str());
  VF_CHECK(ok3 == !fail, "GetThreadAffinity returned %d", ok3);
  VF_CHECK(sim.self, "affinity of another thread");
}

std::string CheckCaches() {
  const hwy::Cache* c = hwy::DataCaches();
  if (c != hwy::DataCaches()) return "changes";
  if (!c) return "";
  for (int l = 1; l <= 3; ++l) {
    if (l == 3 && c[l].size_kib == 0) continue;
    if (!(c[l].size_kib && c[l].sets && c[l].bytes_per_line && c[l].associativity && c[l].cores_sharing)) return vf::Fmt("L%d has a zero field", l);
    const uint64_t b = uint64_t(c[l].sets) * c[l].bytes_per_line * c[l].associativity, k = uint64_t(c[l].size_kib) * 1024, e = uint64_t(c[l].bytes_per_line) * c[l].associativity + 1024;
    if (b > k + e || k > b + e) return vf::Fmt("L%d: %u KiB, %u sets", l, c[l].size_kib, c[l].sets);
  }
  return "";
}

void Machine(Src& s, Ctx& cx) {
  (void)s.Below(2);
  hwy::SetWarnFunc([](const char*, int, const char*) {});
  const size_t total = hwy::TotalLogicalProcessors();
  const long online = sysconf(_SC_NPROCESSORS_ONLN);
  cx.evals = 1;
  VF_CHECK(long(total) == std::min<long>(std::max<long>(online, 1), 1024), "TotalLogicalProcessors() = %zu", total);
  VF_CHECK(hwy::HaveThreadingSupport(), "no threading support");
  const hwy::Topology t;
  cx.Desc([&] { return vf::Fmt("%zu LPs, %zu packages", total, t.packages.size()); });
  if (!t.packages.empty()) {
    VF_CHECK(t.lps.size() == total, "%zu LPs of %zu", t.lps.size(), total);
    std::vector<unsigned> in_core(total, 0), in_cluster(total, 0);
    for (size_t p = 0; p < t.packages.size(); ++p) {
      VF_CHECK(!t.packages[p].cores.empty() && !t.packages[p].clusters.empty(), "package %zu is empty", p);
      for (size_t c = 0; c < t.packages[p].cores.size(); ++c) t.packages[p].cores[c].lps.Foreach([&](size_t i) { if (i < total && t.lps[i].package == p && t.lps[i].core == c) ++in_core[i]; else throw vf::Failed{vf::Fmt("LP %zu in core %zu", i, c)}; });
      for (size_t c = 0; c < t.packages[p].clusters.size(); ++c) t.packages[p].clusters[c].lps.Foreach([&](size_t i) { if (i < total && t.lps[i].package == p && t.lps[i].cluster == c) ++in_cluster[i]; else throw vf::Failed{vf::Fmt("LP %zu in cluster %zu", i, c)}; });
    }
    for (size_t i = 0; i < total; ++i) VF_CHECK(in_core[i] == 1 && in_cluster[i] == 1, "LP %zu is in %u cores and %u clusters", i, in_core[i], in_cluster[i]);
  }
  // In a child process, because the result is static and other tasks simulate it.
  int fd[2];
  VF_CHECK(pipe(fd) == 0, "pipe");
  const pid_t pid = fork();
  VF_CHECK(pid >= 0, "fork");
  if (pid == 0) {
    std::string err = CheckCaches();
    if (err.empty()) err = "ok";
    (void)!write(fd[1], err.data(), err.size());
    _exit(0);
  }
  close(fd[1]);
  char buf[300];
  const ssize_t got = read(fd[0], buf, sizeof(buf));
  close(fd[0]);
  waitpid(pid, nullptr, 0);
  const std::string err(buf, got > 0 ? size_t(got) : 0);
  VF_CHECK(err == "ok", "DataCaches: %s", err.c_str());
}

void Naps(Src& s, Ctx& cx) {
  const uint64_t ns = s.Below(300000);
  cx.evals = 1;
  cx.Desc([&] { return vf::Fmt("%llu ns", (unsigned long long)ns); });
  timespec a, b;
  clock_gettime(CLOCK_MONOTONIC, &a);
  const bool ok = hwy::NanoSleep(ns);
  clock_gettime(CLOCK_MONOTONIC, &b);
  const int64_t d = int64_t(b.tv_sec - a.tv_sec) * 1000000000 + (b.tv_nsec - a.tv_nsec);
  VF_CHECK(ok || ns == 0, "returned false");
  VF_CHECK(d >= int64_t(ns), "slept %lld of %llu ns", (long long)d, (unsigned long long)ns);
}

VF_REG("Real.wait", 3000, 60000, &Real, vf::kNondet | vf::kThreads)
VF_REG("Real.affinity", 3000, 60000, &Affinity, vf::kNondet)
VF_REG("Simulated.affinity", 8000, 100000, &Simulated)
VF_REG("Real.topology", 4, 40, &Machine, vf::kNondet)
VF_REG("Real.NanoSleep", 300, 3000, &Naps, vf::kNondet)
}  // namespace
