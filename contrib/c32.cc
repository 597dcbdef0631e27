// C32: spin and futex waits under a deterministic scheduler (vfsched.h):
// generated value histories x waiters x schedules; simulated CPUs.
#define VFS_MAIN
#include "vfsched.h"
#include <string.h>
#include <time.h>
#include "vf.h"
// Before the macros: headers that spin.h and futex.h include.
#include <climits>
#include <cpuid.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <x86intrin.h>
#include "hwy/base.h"
#include "hwy/cache_control.h"
namespace {
struct Cpu { bool on = false; unsigned vendor[3]; unsigned max_level, ecx7, ext_ecx; };
Cpu g_cpu;
struct Nap { unsigned interrupts = 0; uint64_t slept = 0, seed = 1; bool bad = false; uint64_t expect = 0; unsigned calls = 0; };
Nap g_nap;
}  // namespace
static inline void vf_cpuid(uint32_t level, uint32_t count, uint32_t& a, uint32_t& b, uint32_t& c, uint32_t& d) {
  if (!g_cpu.on) { __cpuid_count(level, count, a, b, c, d); return; }
  a = b = c = d = 0;
  switch (level) {
    case 0: a = g_cpu.max_level; b = g_cpu.vendor[0]; d = g_cpu.vendor[1]; c = g_cpu.vendor[2]; break;
    case 1: a = 0x806F8; break;
    case 7: if (count == 0) { if (g_cpu.max_level >= 7) c = g_cpu.ecx7; else c = ~0u; } break;
    case 0x80000000u: a = 0x80000008u; break;
    case 0x80000001u: c = g_cpu.ext_ecx; break;
    default: if (level < 0x80000000u && level > g_cpu.max_level) c = ~0u; break;
  }
}
#undef __cpuid_count
#define __cpuid_count(l, n, a, b, c, d) vf_cpuid(l, n, a, b, c, d)
#undef __cpuid
#define __cpuid(l, a, b, c, d) vf_cpuid(l, 0, a, b, c, d)
#include "hwy/x86_cpuid.h"
namespace hwy { static inline void vf_Pause() { vfs::OnPause(); } }
inline void vf_umonitor(const void* p) { vfs::Monitor(p); }
inline int vf_umwait() { vfs::MonitorWait(); return 0; }
static int vf_nanosleep(const timespec* d, timespec* rem) {
  Nap& n = g_nap;
  ++n.calls;
  if (d->tv_nsec < 0 || d->tv_nsec >= 1000000000 || d->tv_sec < 0) { n.bad = true; errno = EINVAL; return -1; }
  const uint64_t ns = uint64_t(d->tv_sec) * 1000000000 + uint64_t(d->tv_nsec);
  if (ns != n.expect) n.bad = true;
  if (n.interrupts == 0) { n.slept += ns; n.expect = 0; return 0; }
  --n.interrupts;
  n.seed = n.seed * 6364136223846793005ull + 1442695040888963407ull;
  const uint64_t part = ns ? (n.seed >> 20) % ns : 0;
  n.slept += part;
  n.expect = ns - part;
  rem->tv_sec = time_t(n.expect / 1000000000);
  rem->tv_nsec = long(n.expect % 1000000000);
  errno = EINTR;
  return -1;
}
#define HWY_ENABLE_SPIN_ASM 0
#define HWY_ENABLE_MONITORX 1
#define HWY_ENABLE_UMONITOR 1
#undef _umonitor
#undef _umwait
#define _umonitor(p) vf_umonitor(p)
#define _umwait(c, d) vf_umwait()
#define _mm_monitorx(p, e, h) vf_umonitor(p)
#define _mm_mwaitx(e, h, c) vf_umwait()
#define atomic vf_atomic
#define atomic_thread_fence vf_atomic_thread_fence
#define thread vf_thread
#define syscall vf_syscall
#define Pause vf_Pause
#define nanosleep vf_nanosleep
#include "hwy/contrib/thread_pool/spin.h"
#include "hwy/contrib/thread_pool/futex.h"
#undef nanosleep
#undef Pause

namespace {
using vf::Ctx;
using vf::Src;
using A32 = std::vf_atomic<uint32_t>;

// Everything that was stored to a location, in modification order.
struct Event { uint32_t val, by, at; };
struct Slot {
  A32 v;
  std::vector<Event> log;
  uint32_t initial, last;
};
struct World { std::vector<std::unique_ptr<Slot>> slot; };

void Fail(const char* fmt, ...) {
  char b[300];
  va_list a; va_start(a, fmt); vsnprintf(b, sizeof(b), fmt, a); va_end(a);
  vfs::Error("%s", b);
  vfs::Bail();
}
void Store(Slot& s, uint32_t val, bool rmw) {
  // Work done before, to be visible to whoever sees `val`.
  const uint32_t id = uint32_t(vfs::Self()), at = ++vfs::S().cur->vc[id];
  // Logged before, because another thread may run within the store.
  s.log.push_back(Event{val, id, at});
  if (rmw) s.v.exchange(val, std::memory_order_acq_rel); else s.v.store(val, std::memory_order_release);
}
// `val` was returned: it is the initial value or was stored by now, and what
// happened before (one of) the store(s) is visible.
void Seen(const Slot& s, uint32_t val, const char* what) {
  bool found = false, visible = false;
  if (val == s.initial) return;
  for (const Event& e : s.log) if (e.val == val) { found = true; visible |= vfs::HappensBefore(e.by, e.at, vfs::Now()); }
  if (!found) Fail("%s: returned %u, which was never stored", what, val);
  if (!visible) Fail("%s: what happened before the store of %u is not visible", what, val);
}

enum Kind { kPauseSpin, kUMon, kMonX, kFutexWait, kKinds };
const char* const kKind[] = {"SpinPause", "SpinUMonitor", "SpinMonitorX", "BlockUntilDifferent"};
const hwy::SpinType kType[] = {hwy::SpinType::kPause, hwy::SpinType::kUMonitor, hwy::SpinType::kMonitorX};

uint32_t Different(Kind k, uint32_t prev, Slot& s) {
  // Nobody else stores: no need to retry.
  uint32_t r = 0;
  if (k == kFutexWait) {
    r = hwy::BlockUntilDifferent(prev, s.v);
  } else {
    unsigned calls = 0;
    hwy::CallWithSpin(kType[k], [&](const auto spin) {
      ++calls;
      if (spin.Type() != kType[k]) Fail("CallWithSpin passed type %d instead of %d", int(spin.Type()), int(kType[k]));
      r = spin.UntilDifferent(prev, s.v).current;
    });
    if (calls != 1) Fail("CallWithSpin called %u times", calls);
  }
  if (r == prev) Fail("%s: UntilDifferent(%u) returned the same value", kKind[k], prev);
  Seen(s, r, kKind[k]);
  return r;
}
void Equal(Kind k, uint32_t expected, Slot& s) {
  hwy::CallWithSpin(kType[k], [&](const auto spin) { spin.UntilEqual(expected, s.v); });
  Seen(s, expected, kKind[k]);
}

uint32_t Value(Src& s) {
  switch (s.Below(5)) {
    case 0: case 1: return uint32_t(s.Below(4));
    case 2: return 0xFFFFFFFFu - uint32_t(s.Below(3));
    case 3: return 1u << s.Below(32);
    default: return uint32_t(s.Bits());
  }
}

// Waiters that follow a value history until its last value.
void History(Src& s, Ctx& cx) {
  const size_t slots = 1 + size_t(s.Below(3)), writers = 1 + size_t(s.Below(3)), waiters = 1 + size_t(s.Below(s.Below(4) ? 4 : 12));
  struct W { size_t slot; uint32_t val; bool rmw, wake; unsigned delay; };
  std::vector<std::vector<W>> prog(writers);
  std::vector<uint32_t> initial(slots), last(slots);
  for (size_t i = 0; i < slots; ++i) {
    initial[i] = Value(s);
    do last[i] = Value(s); while (last[i] == initial[i]);
  }
  for (auto& p : prog) {
    const size_t n = size_t(s.Below(6));
    for (size_t i = 0; i < n; ++i) {
      W w;
      w.slot = size_t(s.Below(slots));
      w.val = s.Below(4) == 0 ? initial[w.slot] : Value(s);
      if (w.val == last[w.slot]) w.val = initial[w.slot];  // the last value is unique
      w.rmw = s.Below(4) == 0;
      w.wake = s.Bool();
      w.delay = unsigned(s.Below(4));
      p.push_back(w);
    }
  }
  struct R { size_t slot; unsigned kind, equal; bool change; };
  std::vector<R> readers(waiters);
  for (R& r : readers) { r.slot = size_t(s.Below(slots)); r.kind = unsigned(s.Below(kKinds)); r.equal = r.kind != kFutexWait && s.Below(3) == 0; r.change = s.Below(3) == 0; }
  const bool last_rmw = s.Bool(), late = s.Bool();
  const uint64_t seed = s.Bits();
  cx.Desc([&] {
    std::string d = vf::Fmt("seed %llu;", (unsigned long long)seed);
    for (size_t i = 0; i < slots; ++i) d += vf::Fmt(" slot%zu: %u..%u", i, initial[i], last[i]);
    for (auto& p : prog) { d += " writer:"; for (auto& w : p) d += vf::Fmt(" %zu=%u%s%s", w.slot, w.val, w.rmw ? "x" : "", w.wake ? "!" : ""); }
    for (auto& r : readers) d += vf::Fmt(" waiter: %zu %s%s%s", r.slot, kKind[r.kind], r.equal ? " UntilEqual" : "", r.change ? " any kind" : "");
    return d;
  });
  cx.evals = waiters;
  World w;
  const std::string err = vfs::Run(seed, 400000, [&] {
    for (size_t i = 0; i < slots; ++i) {
      w.slot.emplace_back(new Slot);
      w.slot[i]->initial = initial[i];
      w.slot[i]->v.store(initial[i], std::memory_order_relaxed);
    }
    std::vector<std::vf_thread> t;
    const auto read = [&](size_t i) {
      const R r = readers[i];
      Slot& sl = *w.slot[r.slot];
      if (r.equal) { Equal(Kind(r.kind), last[r.slot], sl); if (sl.v.load(std::memory_order_relaxed) != last[r.slot]) Fail("UntilEqual(%u) returned but the value is different", last[r.slot]); return; }
      uint32_t prev = initial[r.slot];
      while (prev != last[r.slot]) {
        // May block until any later store, hence also with futex: the last is woken.
        prev = Different(r.change && r.kind != kFutexWait ? Kind(vfs::Below(3)) : Kind(r.kind), prev, sl);
      }
    };
    const auto write = [&](size_t i) {
      for (const W& x : prog[i]) {
        for (unsigned d = 0; d < x.delay; ++d) vfs::Point();
        Store(*w.slot[x.slot], x.val, x.rmw);
        if (x.wake) hwy::WakeAll(w.slot[x.slot]->v);
      }
    };
    if (late) for (size_t i = 0; i < writers; ++i) t.emplace_back(write, i);
    const size_t first_writer = t.size();
    for (size_t i = 0; i < waiters; ++i) t.emplace_back(read, i);
    if (!late) for (size_t i = 0; i < writers; ++i) t.emplace_back(write, i);
    const size_t from = late ? 0 : first_writer + waiters;
    for (size_t i = 0; i < writers; ++i) t[from + i].join();
    for (size_t i = 0; i < slots; ++i) { Store(*w.slot[i], last[i], last_rmw); hwy::WakeAll(w.slot[i]->v); }
    for (auto& q : t) if (q.joinable()) q.join();
  });
  VF_CHECK(err.empty(), "%s", err.c_str());
}

// Ping-pong: every value is awaited exactly and acknowledged, none is missed.
void Handshake(Src& s, Ctx& cx) {
  const size_t rounds = 1 + size_t(s.Below(8)), peers = 1 + size_t(s.Below(6));
  std::vector<uint32_t> val(1, Value(s));
  while (val.size() <= rounds) { uint32_t v = Value(s); if (v != val.back()) val.push_back(v); }
  std::vector<unsigned> kind(peers), ack(peers);
  std::vector<bool> equal(peers);
  for (size_t i = 0; i < peers; ++i) { kind[i] = unsigned(s.Below(kKinds)); ack[i] = unsigned(s.Below(kKinds)); equal[i] = s.Bool(); }
  const bool rmw = s.Bool();
  const uint64_t seed = s.Bits();
  cx.Desc([&] {
    std::string d = vf::Fmt("seed %llu; values", (unsigned long long)seed);
    for (uint32_t v : val) d += vf::Fmt(" %u", v);
    for (size_t i = 0; i < peers; ++i) d += vf::Fmt("; peer %s%s, acknowledged by %s", kKind[kind[i]], equal[i] ? " UntilEqual" : "", kKind[ack[i]]);
    return d;
  });
  cx.evals = rounds * peers;
  World w;
  const std::string err = vfs::Run(seed, 400000, [&] {
    for (size_t i = 0; i <= peers; ++i) {
      w.slot.emplace_back(new Slot);
      w.slot[i]->initial = val[0];
      w.slot[i]->v.store(val[0], std::memory_order_relaxed);
    }
    std::vector<std::vf_thread> t;
    for (size_t p = 0; p < peers; ++p) {
      t.emplace_back([&](size_t i) {
        for (size_t r = 1; r <= rounds; ++r) {
          if (equal[i] && kind[i] != kFutexWait) Equal(Kind(kind[i]), val[r], *w.slot[0]);
          else { const uint32_t got = Different(Kind(kind[i]), val[r - 1], *w.slot[0]); if (got != val[r]) Fail("%s: returned %u instead of %u", kKind[kind[i]], got, val[r]); }
          Store(*w.slot[1 + i], val[r], rmw);
          hwy::WakeAll(w.slot[1 + i]->v);
        }
      }, p);
    }
    for (size_t r = 1; r <= rounds; ++r) {
      Store(*w.slot[0], val[r], rmw);
      hwy::WakeAll(w.slot[0]->v);
      for (size_t i = 0; i < peers; ++i) {
        if (ack[i] == kFutexWait || !equal[i]) { const uint32_t got = Different(Kind(ack[i]), val[r - 1], *w.slot[1 + i]); if (got != val[r]) Fail("acknowledged %u instead of %u", got, val[r]); }
        else Equal(Kind(ack[i]), val[r], *w.slot[1 + i]);
      }
    }
    for (auto& q : t) q.join();
  });
  VF_CHECK(err.empty(), "%s", err.c_str());
}

// No waiting and no retries if the value is already different/equal; other
// values do not end the wait.
void Immediate(Src& s, Ctx& cx) {
  const uint32_t prev = Value(s);
  uint32_t val = Value(s);
  if (s.Below(3) == 0) val = prev ^ (1u << s.Below(32));
  const unsigned kind = unsigned(s.Below(3));
  const uint64_t seed = s.Bits();
  cx.evals = 1;
  cx.Desc([&] { return vf::Fmt("%s value %u, prev %u", kKind[kind], val, prev); });
  const std::string err = vfs::Run(seed, 10000, [&] {
    A32 a(val);
    if (val != prev) {
      if (hwy::BlockUntilDifferent(prev, a) != val) Fail("BlockUntilDifferent");
      hwy::CallWithSpin(kType[kind], [&](const auto spin) {
        const hwy::SpinResult r = spin.UntilDifferent(prev, a);
        if (r.current != val || r.reps != 0) Fail("UntilDifferent returned %u after %u retries", r.current, r.reps);
      });
    }
    hwy::CallWithSpin(kType[kind], [&](const auto spin) {
      const size_t r = spin.UntilEqual(val, a);
      if (r != 0) Fail("UntilEqual: %zu retries", r);
    });
  });
  VF_CHECK(err.empty(), "%s", err.c_str());
}
// A wait whose condition never becomes true does not return.
void Never(Src& s, Ctx& cx) {
  const uint32_t prev = Value(s);
  uint32_t other = s.Bool() ? prev ^ (1u << s.Below(32)) : Value(s);
  if (other == prev) ++other;
  const unsigned kind = unsigned(s.Below(kKinds));
  const bool equal = kind != kFutexWait && s.Bool();
  const unsigned wakes = unsigned(s.Below(4));
  const uint64_t seed = s.Bits();
  cx.evals = 1;
  cx.Desc([&] { return vf::Fmt("%s %s: value %u, %u wakes", kKind[kind], equal ? "UntilEqual" : "UntilDifferent", prev, wakes); });
  bool returned = false;
  const std::string err = vfs::Run(seed, 3000, [&] {
    Slot* sl = new Slot;
    sl->initial = prev;
    sl->v.store(prev, std::memory_order_relaxed);
    std::vf_thread t([&](int) {
      if (equal) hwy::CallWithSpin(kType[kind], [&](const auto spin) { spin.UntilEqual(other, sl->v); });
      else if (kind == kFutexWait) hwy::BlockUntilDifferent(prev, sl->v);
      else hwy::CallWithSpin(kType[kind], [&](const auto spin) { spin.UntilDifferent(prev, sl->v); });
      returned = true;
    }, 0);
    for (unsigned i = 0; i < wakes; ++i) { sl->v.store(prev, std::memory_order_release); hwy::WakeAll(sl->v); }
    t.join();
  });
  VF_CHECK(!returned, "returned although the value is unchanged");
  VF_CHECK(err.compare(0, 8, "deadlock") == 0 || err.compare(0, 11, "no progress") == 0, "%s", err.c_str());
}

void Detect(Src& s, Ctx& cx) {
  static const unsigned kVendor[4][3] = {{0x756e6547, 0x49656e69, 0x6c65746e}, {0x68747541, 0x69746e65, 0x444d4163}, {0x6F677948, 0x6E65476E, 0x656E6975}, {0x746E6543, 0x48727561, 0x736C7561}};
  const size_t vendor = size_t(s.Below(4));
  const bool monx = s.Bool(), umon = s.Bool();
  const int disabled = int(s.Below(16)) | (s.Below(4) == 0 ? int(s.Bits() & 0x7FFFFFF0) : 0);
  memcpy(g_cpu.vendor, kVendor[vendor], sizeof(g_cpu.vendor));
  g_cpu.max_level = s.Below(4) == 0 ? 1 + unsigned(s.Below(6)) : 7 + unsigned(s.Below(26));
  g_cpu.ecx7 = (uint32_t(s.Bits()) & ~(1u << 5)) | (umon ? 1u << 5 : 0);
  g_cpu.ext_ecx = (uint32_t(s.Bits()) & ~(1u << 29)) | (monx ? 1u << 29 : 0);
  cx.evals = 1;
  cx.Desc([&] { return vf::Fmt("vendor %zu, max level %u, monitorx %d umonitor %d, disabled 0x%x", vendor, g_cpu.max_level, monx, umon, disabled); });
  hwy::SetWarnFunc([](const char*, int, const char*) {});
  g_cpu.on = true;
  const hwy::SpinType got = hwy::DetectSpin(disabled), def = disabled == 0 ? got : hwy::DetectSpin();
  g_cpu.on = false;
  const auto want = [&](int dis) {
    if (vendor == 1 && monx && !(dis & 2)) return hwy::SpinType::kMonitorX;
    if (umon && g_cpu.max_level >= 7 && !(dis & 4)) return hwy::SpinType::kUMonitor;
    return hwy::SpinType::kPause;
  };
  VF_CHECK(got == want(disabled), "DetectSpin(0x%x) = %d, expected %d", disabled, int(got), int(want(disabled)));
  VF_CHECK(def == want(0), "DetectSpin() = %d, expected %d", int(def), int(want(0)));
  std::vector<std::string> names;
  for (int i = 1; i < int(hwy::SpinType::kSentinel); ++i) {
    const char* n = hwy::ToString(hwy::SpinType(i));
    VF_CHECK(n && *n, "no name for type %d", i);
    for (auto& o : names) VF_CHECK(o != n, "two types are called %s", n);
    names.push_back(n);
    unsigned calls = 0;
    int type = 0;
    hwy::CallWithSpin(hwy::SpinType(i), [&](const auto spin) { ++calls; type = int(spin.Type()); });
    VF_CHECK(calls == 1 && type == i, "CallWithSpin(%d): %u calls, type %d", i, calls, type);
  }
}

void Sleep(Src& s, Ctx& cx) {
  static const uint64_t kNs[] = {0, 1, 999999999, 1000000000, 1000000001, 1999999999, 4294967295ull, 4294967296ull, 86400000000000ull};
  const uint64_t ns = s.Bool() ? kNs[s.Below(9)] : s.Below(uint64_t(1) << s.Below(50));
  g_nap = Nap();
  const unsigned interrupts = unsigned(s.Below(3));
  g_nap.interrupts = interrupts;
  g_nap.seed = s.Bits();
  g_nap.expect = ns;
  cx.evals = 1;
  cx.Desc([&] { return vf::Fmt("%llu ns, %u interruptions", (unsigned long long)ns, interrupts); });
  const bool ok = hwy::NanoSleep(ns);
  VF_CHECK(ok || ns == 0, "returned false");
  VF_CHECK(!g_nap.bad, "bad duration");
  VF_CHECK(g_nap.slept == ns, "slept %llu of %llu ns", (unsigned long long)g_nap.slept, (unsigned long long)ns);
}

VF_REG("Wait.history", 400000, 4000000, &History)
VF_REG("Wait.handshake", 150000, 1500000, &Handshake)
VF_REG("Wait.immediate", 20000, 200000, &Immediate)
VF_REG("Wait.never", 20000, 200000, &Never)
VF_REG("DetectSpin", 20000, 200000, &Detect)
VF_REG("NanoSleep", 10000, 100000, &Sleep)
}  // namespace
