// Deterministic scheduler for code written with std::atomic, std::thread,
// futex and monitor/wait: threads are fibers of one OS thread, every operation
// on an atomic is a scheduling point, and the schedule is drawn from a seed.
// Vector clocks track happens-before according to the given memory orders.
#ifndef VFSCHED_H_
#define VFSCHED_H_
#include <errno.h>
#include <setjmp.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <atomic>
#include <functional>
#include <memory>
#include <string>
#include <thread>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>

namespace vfs {

constexpr size_t kMaxFibers = 200;
using Clock = std::vector<uint32_t>;
inline void Join(Clock& a, const Clock& b) {
  if (a.size() < b.size()) a.resize(b.size(), 0);
  for (size_t i = 0; i < b.size(); ++i) if (b[i] > a[i]) a[i] = b[i];
}

enum State { kRun, kFutex, kMonitor, kSpin, kJoin, kSlow, kDone };

struct Fiber {
  size_t id = 0;
  void* sp = nullptr;
  char* stack = nullptr;
  State state = kRun;
  std::function<void()> fn;
  const void* addr = nullptr;       // futex / monitor
  bool armed = false, touched = false;  // monitor
  Fiber* join = nullptr;
  uint32_t prio = 0;
  Clock vc, rel_fence, acq_pending;
  bool has_rel = false;
  // Spin detection: loads since the last change by this fiber.
  unsigned pauses = 0, loads = 0;
  const void* seen[8];
  size_t num_seen = 0;
  bool any = false;
  uint64_t seen_w = 0;
  std::unordered_map<const void*, uint64_t> seq;  // last seen in modification order
  unsigned fresh = 0;  // number of loads that must return the latest value
};

// Modification order; a load may return any store that is not older than one
// which happens before it or than one the thread has already seen.
struct Store { uint64_t val; Clock rel; uint32_t by, at; };
struct Loc { Clock rel; uint64_t w = 0; uint64_t first = 0; std::vector<Store> hist; };

struct Sched {
  std::vector<std::unique_ptr<Fiber>> fibers;
  Fiber* cur = nullptr;
  uint64_t rng = 1;
  uint64_t writes = 0, steps = 0, switches = 0, max_steps = 0;
  unsigned switch_bits = 2;
  bool pct = false;
  uint64_t pct_interval = 0, pct_next = 0;
  uint32_t pct_low = 0x7FFFFFFF;
  std::unordered_map<const void*, Loc> locs;
  jmp_buf bail;
  bool active = false;
  std::string error;
  uint64_t spurious_bits = 8;
  unsigned stale = 0;  // one in how many loads
  uint64_t stale_loads = 0;
};
inline Sched& S() { static Sched s; return s; }
inline uint64_t Rnd() {
  uint64_t& x = S().rng;
  x += 0x9E3779B97F4A7C15ull;
  uint64_t z = x;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
inline uint64_t Below(uint64_t n) { return n ? Rnd() % n : 0; }

inline void Error(const char* fmt, ...) {
  if (!S().error.empty()) return;
  char b[500];
  va_list a; va_start(a, fmt); vsnprintf(b, sizeof(b), fmt, a); va_end(a);
  S().error = b;
}

extern "C" void vfs_switch(void** save, void* load);
#ifdef VFS_MAIN
asm(R"(
.text
.globl vfs_switch
.type vfs_switch,@function
vfs_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size vfs_switch,.-vfs_switch
)");
#endif

constexpr size_t kStack = 128 * 1024;
inline std::vector<char*>& Stacks() { static std::vector<char*> v; return v; }
inline char* NewStack() {
  auto& v = Stacks();
  if (!v.empty()) { char* p = v.back(); v.pop_back(); return p; }
  char* p = static_cast<char*>(mmap(nullptr, kStack + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  if (p == MAP_FAILED) abort();
  mprotect(p, 4096, PROT_NONE);
  return p;
}

inline void SwitchTo(Fiber* f) {
  Sched& s = S();
  Fiber* from = s.cur;
  if (f == from) return;
  ++s.switches;
  s.cur = f;
  vfs_switch(&from->sp, f->sp);
  if (s.cur->id == 0 && !s.active) longjmp(s.bail, 1);
}
// Ends the case from any fiber: continues the main fiber at `bail`.
[[noreturn]] inline void Bail() {
  Sched& s = S();
  s.active = false;
  Fiber* m = s.fibers[0].get();
  if (s.cur == m) longjmp(s.bail, 1);
  SwitchTo(m);
  abort();
}
inline const char* Name(State s) {
  static const char* const n[] = {"running", "futex", "monitor", "spinning", "join", "slow", "done"};
  return n[s];
}
// Chooses who continues; the current fiber may be blocked.
inline void Pick() {
  Sched& s = S();
  Fiber* best = nullptr;
  static Fiber* run[kMaxFibers];
  size_t n = 0;
  for (auto& f : s.fibers) if (f->state == kRun) run[n++] = f.get();
  if (n == 0) {
    size_t slow = 0;
    for (auto& f : s.fibers) if (f->state == kSlow) run[slow++] = f.get();
    if (slow != 0) { best = run[Below(slow)]; best->state = kRun; SwitchTo(best); return; }
    std::string d;
    for (auto& f : s.fibers) if (f->state != kDone && d.size() < 200) d += " " + std::to_string(f->id) + ":" + Name(f->state);
    Error("deadlock:%s", d.c_str());
    Bail();
  }
  if (s.pct) {
    best = run[0];
    for (size_t i = 1; i < n; ++i) if (run[i]->prio > best->prio) best = run[i];
  } else {
    best = run[Below(n)];
  }
  SwitchTo(best);
}
inline void Point() {
  Sched& s = S();
  if (!s.active) return;
  if (++s.steps > s.max_steps) { Error("no progress after %llu steps", (unsigned long long)s.steps); Bail(); }
  if (s.pct) {
    if (s.steps >= s.pct_next) { s.cur->prio = --s.pct_low; s.pct_next = s.steps + 1 + Below(2 * s.pct_interval); }
    Pick();
  } else if ((Rnd() & ((1u << s.switch_bits) - 1)) == 0) {
    Pick();
  }
}
inline void Block(State st) { S().cur->state = st; Pick(); }
// The current fiber takes longer than everything else.
inline void Slow() { if (S().active) { S().cur->state = kSlow; Pick(); } }

inline Loc& At(const void* p) { return S().locs[p]; }
inline void ResetSpin(Fiber* f) { f->pauses = f->loads = 0; f->num_seen = 0; f->any = false; }
inline void SpinWait(Fiber* f) {
  // Blocks unless something it looked at changed in between.
  if (f->num_seen == 0) return;
  f->fresh = 64;
  for (size_t i = 0; i < f->num_seen; ++i) {
    const Loc& l = At(f->seen[i]);
    const auto it = f->seq.find(f->seen[i]);
    if (l.w > f->seen_w || (!l.hist.empty() && it != f->seq.end() && it->second + 1 < l.first + l.hist.size())) { ResetSpin(f); return; }
  }
  Block(kSpin);
  ResetSpin(f);
}
inline uint64_t OnLoad(const void* p, std::memory_order o, uint64_t val) {
  Sched& s = S();
  if (!s.active) return val;
  Point();
  Fiber* f = s.cur;
  Loc& l = At(p);
  if (f->num_seen == 0) f->seen_w = s.writes;
  bool found = false;
  for (size_t i = 0; i < f->num_seen; ++i) found |= f->seen[i] == p;
  if (!found) { if (f->num_seen < 8) f->seen[f->num_seen++] = p; else { memmove(f->seen, f->seen + 1, 7 * sizeof(f->seen[0])); f->seen[7] = p; } }
  if (++f->loads >= 2000) { f->loads = 0; SpinWait(f); }
  const Clock* rel = &l.rel;
  if (!l.hist.empty()) {
    size_t pick = l.hist.size() - 1;
    uint64_t& seq = f->seq[p];
    if (f->fresh) --f->fresh;
    else if (s.stale && !f->armed && o != std::memory_order_seq_cst && Below(s.stale) == 0) {
      size_t lo = seq > l.first ? size_t(seq - l.first) : 0;
      for (size_t i = pick; i > lo; --i) if (l.hist[i].by < f->vc.size() && f->vc[l.hist[i].by] >= l.hist[i].at) { lo = i; break; }
      pick = lo + size_t(Below(pick - lo + 1));
      s.stale_loads += pick + 1 != l.hist.size();
    }
    seq = l.first + pick;
    rel = &l.hist[pick].rel;
    val = l.hist[pick].val;
  }
  if (o == std::memory_order_relaxed) Join(f->acq_pending, *rel); else Join(f->vc, *rel);
  return val;
}
inline void Touch(const void* p) {
  Sched& s = S();
  Fiber* f = s.cur;
  ++f->vc[f->id];
  ResetSpin(f);
  At(p).w = ++s.writes;
  for (auto& q : s.fibers) {
    Fiber* g = q.get();
    if (g->armed && g->addr == p) g->touched = true;
    if (g->state == kMonitor && g->addr == p) g->state = kRun;
    if (g->state == kSpin) for (size_t i = 0; i < g->num_seen; ++i) if (g->seen[i] == p) { g->state = kRun; break; }
  }
}
inline bool Releases(std::memory_order o) { return o == std::memory_order_release || o == std::memory_order_acq_rel || o == std::memory_order_seq_cst; }
inline bool Acquires(std::memory_order o) { return o == std::memory_order_acquire || o == std::memory_order_acq_rel || o == std::memory_order_seq_cst || o == std::memory_order_consume; }
inline void OnStore(const void* p, std::memory_order o, bool rmw, uint64_t old, uint64_t val) {
  Sched& s = S();
  if (!s.active) return;
  Fiber* f = s.cur;
  Loc& l = At(p);
  if (rmw) { if (Acquires(o)) Join(f->vc, l.rel); else Join(f->acq_pending, l.rel); }
  if (!rmw) l.rel.clear();
  if (Releases(o)) Join(l.rel, f->vc);
  else if (f->has_rel) Join(l.rel, f->rel_fence);
  if (l.hist.empty()) l.hist.push_back(Store{old, Clock(), 0, 0});  // initial value, visible to all
  if (l.hist.size() == 6) { l.hist.erase(l.hist.begin()); ++l.first; }
  l.hist.push_back(Store{val, l.rel, uint32_t(f->id), f->vc[f->id]});
  f->seq[p] = l.first + l.hist.size() - 1;
  Touch(p);
}
inline void OnFence(std::memory_order o) {
  Sched& s = S();
  if (!s.active) return;
  Point();
  Fiber* f = s.cur;
  if (Acquires(o)) Join(f->vc, f->acq_pending);
  if (Releases(o)) { f->rel_fence = f->vc; f->has_rel = true; ++f->vc[f->id]; }
}
inline void OnPause() {
  Sched& s = S();
  if (!s.active) return;
  Fiber* f = s.cur;
  if (f->num_seen == 0) { Point(); return; }
  if (++f->pauses >= 8) { f->pauses = 0; SpinWait(f); } else Point();
}
inline bool Spurious() { return S().spurious_bits < 64 && (Rnd() >> (64 - S().spurious_bits)) == 0; }
inline void Monitor(const void* p) { if (!S().active) return; Fiber* f = S().cur; f->addr = p; f->armed = true; f->touched = false; Point(); }
inline void MonitorWait() {
  if (!S().active) return;
  Fiber* f = S().cur;
  Point();
  if (f->armed && !f->touched && !Spurious()) Block(kMonitor);
  f->armed = false;
  ResetSpin(f);
}
// FUTEX_WAIT / FUTEX_WAKE.
inline long FutexWait(const uint32_t* p, uint32_t expected) {
  Point();
  if (*p != expected) { errno = EAGAIN; return -1; }
  Fiber* f = S().cur;
  ResetSpin(f);
  f->addr = p;
  if (Spurious()) return 0;
  Block(kFutex);
  return 0;
}
inline long FutexWake(const uint32_t* p, int max) {
  Point();
  long n = 0;
  ResetSpin(S().cur);
  // Any subset of size max.
  const size_t nf = S().fibers.size(), start = size_t(Below(nf));
  for (size_t i = 0; i < nf && n < max; ++i) {
    Fiber* g = S().fibers[(i + start) % nf].get();
    if (g->state == kFutex && g->addr == p) { g->state = kRun; ++n; }
  }
  return n;
}

inline void Entry() {
  Sched& s = S();
  Fiber* f = s.cur;
  try { f->fn(); } catch (...) { Error("exception in thread %zu", f->id); }
  f->fn = nullptr;
  ++f->vc[f->id];
  f->state = kDone;
  for (auto& q : s.fibers) if (q->state == kJoin && q->join == f) q->state = kRun;
  Pick();
  abort();
}
inline Fiber* Spawn(std::function<void()> fn) {
  Sched& s = S();
  if (!s.active) { fprintf(stderr, "thread outside of a case\n"); abort(); }
  Fiber* f = new Fiber;
  f->id = s.fibers.size();
  if (f->id >= kMaxFibers) { Error("too many threads"); Bail(); }
  f->fn = std::move(fn);
  f->stack = NewStack();
  uintptr_t top = reinterpret_cast<uintptr_t>(f->stack) + 4096 + kStack;
  top &= ~uintptr_t(15);
  void** sp = reinterpret_cast<void**>(top);
  *--sp = nullptr;                                 // return address of Entry
  *--sp = reinterpret_cast<void*>(&Entry);
  for (int i = 0; i < 6; ++i) *--sp = nullptr;
  f->sp = sp;
  f->prio = uint32_t(Below(1u << 30)) + 0x40000000u + 0x3FFFFFFFu;
  f->vc = s.cur->vc;
  f->vc.resize(std::max(f->vc.size(), f->id + 1), 0);
  f->vc[f->id] = 1;
  ++s.cur->vc[s.cur->id];
  s.fibers.emplace_back(f);
  Point();
  return f;
}
inline void JoinFiber(Fiber* f) {
  Sched& s = S();
  if (!s.active) return;
  Point();
  if (f->state != kDone) { s.cur->join = f; Block(kJoin); }
  Join(s.cur->vc, f->vc);
}

// Runs `body` as the main fiber. Returns the error, empty if none.
template <class F>
std::string Run(uint64_t seed, uint64_t max_steps, const F& body) {
  Sched& s = S();
  s.fibers.clear();
  s.locs.clear();
  s.error.clear();
  s.rng = seed;
  s.writes = s.steps = s.switches = 0;
  s.max_steps = max_steps;
  s.switch_bits = unsigned(Below(6));
  s.pct = Below(2) == 0;
  static const uint64_t kInt[] = {10, 50, 300, 2000, 20000};
  s.pct_interval = kInt[Below(5)];
  s.pct_low = 0x7FFFFFFF;
  s.pct_next = Below(2 * s.pct_interval);
  s.spurious_bits = Below(2) ? 3 : 64;
  static const unsigned kStale[] = {0, 2, 5, 20};
  s.stale = kStale[Below(4)];
  s.stale_loads = 0;
  s.fibers.emplace_back(new Fiber);
  s.cur = s.fibers[0].get();
  s.cur->prio = uint32_t(Below(1u << 30)) + 0x7FFFFFFFu;
  s.cur->vc.assign(1, 1);
  s.active = true;
  if (setjmp(s.bail) == 0) body();
  s.active = false;
  for (auto& f : s.fibers) if (f->stack) Stacks().push_back(f->stack);
  return s.error;
}

inline size_t Self() { return S().cur->id; }
inline const Clock& Now() { return S().cur->vc; }
inline bool HappensBefore(size_t id, uint32_t time, const Clock& c) { return id < c.size() && c[id] >= time; }
}  // namespace vfs

namespace std {
template <class T>
class vf_atomic {
 public:
  vf_atomic() noexcept : v_() { Created(); }
  vf_atomic(T v) noexcept : v_(v) { Created(); }
  vf_atomic(const vf_atomic&) = delete;
  vf_atomic& operator=(const vf_atomic&) = delete;
  T load(memory_order o = memory_order_seq_cst) const { return From(vfs::OnLoad(this, o, To(v_))); }
  void store(T v, memory_order o = memory_order_seq_cst) { vfs::Point(); const T r = v_; v_ = v; vfs::OnStore(this, o, false, To(r), To(v_)); }
  T exchange(T v, memory_order o = memory_order_seq_cst) { vfs::Point(); T r = v_; v_ = v; vfs::OnStore(this, o, true, To(r), To(v_)); return r; }
  bool compare_exchange_strong(T& e, T d, memory_order s = memory_order_seq_cst, memory_order f = memory_order_seq_cst) {
    vfs::Point();
    if (v_ == e) { v_ = d; vfs::OnStore(this, s, true, To(e), To(d)); return true; }
    vfs::S().cur ? void(vfs::S().cur->fresh = 1) : void();
    e = From(vfs::OnLoad(this, f, To(v_)));
    return false;
  }
  bool compare_exchange_weak(T& e, T d, memory_order s = memory_order_seq_cst, memory_order f = memory_order_seq_cst) { return compare_exchange_strong(e, d, s, f); }
  T fetch_add(T d, memory_order o = memory_order_seq_cst) { vfs::Point(); T r = v_; v_ = T(v_ + d); vfs::OnStore(this, o, true, To(r), To(v_)); return r; }
  T fetch_sub(T d, memory_order o = memory_order_seq_cst) { vfs::Point(); T r = v_; v_ = T(v_ - d); vfs::OnStore(this, o, true, To(r), To(v_)); return r; }
  T fetch_or(T d, memory_order o = memory_order_seq_cst) { vfs::Point(); T r = v_; v_ = T(v_ | d); vfs::OnStore(this, o, true, To(r), To(v_)); return r; }
  T fetch_and(T d, memory_order o = memory_order_seq_cst) { vfs::Point(); T r = v_; v_ = T(v_ & d); vfs::OnStore(this, o, true, To(r), To(v_)); return r; }
  T fetch_xor(T d, memory_order o = memory_order_seq_cst) { vfs::Point(); T r = v_; v_ = T(v_ ^ d); vfs::OnStore(this, o, true, To(r), To(v_)); return r; }
  T operator++() { return T(fetch_add(1) + 1); }
  T operator++(int) { return fetch_add(1); }
  T operator--() { return T(fetch_sub(1) - 1); }
  T operator--(int) { return fetch_sub(1); }
  operator T() const { return load(); }
  T operator=(T v) { store(v); return v; }
  bool is_lock_free() const { return true; }
  void wait(T old, memory_order o = memory_order_seq_cst) const { while (load(o) == old) vfs::FutexWait(reinterpret_cast<const uint32_t*>(this), uint32_t(old)); }
  void notify_all() { vfs::FutexWake(reinterpret_cast<const uint32_t*>(this), 1 << 30); }
  void notify_one() { vfs::FutexWake(reinterpret_cast<const uint32_t*>(this), 1); }

 private:
  static uint64_t To(T v) { uint64_t r = 0; memcpy(&r, &v, sizeof(T)); return r; }
  static T From(uint64_t v) { T r; memcpy(&r, &v, sizeof(T)); return r; }
  void Created() { if (vfs::S().active) { vfs::S().locs.erase(this); for (auto& f : vfs::S().fibers) f->seq.erase(this); } }
  alignas(sizeof(T)) T v_;
};
inline void vf_atomic_thread_fence(memory_order o) { vfs::OnFence(o); }

class vf_thread {
 public:
  vf_thread() = default;
  template <class F, class... A> explicit vf_thread(F f, A... a) : f_(vfs::Spawn([f, a...]() mutable { f(a...); })) {}
  vf_thread(vf_thread&& o) noexcept : f_(o.f_) { o.f_ = nullptr; }
  vf_thread& operator=(vf_thread&& o) noexcept { if (f_) abort(); f_ = o.f_; o.f_ = nullptr; return *this; }
  ~vf_thread() { if (f_ && vfs::S().active) { vfs::Error("thread not joined"); vfs::Bail(); } }
  bool joinable() const { return f_ != nullptr; }
  void join() { vfs::JoinFiber(f_); f_ = nullptr; }
  static unsigned hardware_concurrency() { return 8; }

 private:
  vfs::Fiber* f_ = nullptr;
};
}  // namespace std

// syscall(SYS_futex, ...)
inline long vf_syscall(long, const void* p, int op, uint32_t v, const void*, const void*, int) {
  if (!vfs::S().active) return 0;
  if ((op & 127) == 0) return vfs::FutexWait(static_cast<const uint32_t*>(p), v);
  if ((op & 127) == 1) return vfs::FutexWake(static_cast<const uint32_t*>(p), int(v));
  errno = ENOSYS;
  return -1;
}
#endif
