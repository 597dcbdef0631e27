// C35: performance counters on a simulated kernel: the system calls of
// perf_counters.cc are replaced (link-time wrapping) by a model of perf events
// with generated capabilities, multiplexing, interruptions and short reads.
#include "vf.h"

#include <errno.h>
#include <linux/perf_event.h>
#include <stdarg.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/utsname.h>
#include <sys/wait.h>
#include <unistd.h>

#include <map>

#include "hwy/perf_counters.h"
#include "hwy/timer.h"

namespace {
using vf::Ctx;
using vf::Src;
using PC = hwy::platform::PerfCounters;

constexpr int kFd0 = 5000;
struct Event { uint32_t type; uint64_t config; int leader; uint64_t count = 0; };
struct Kernel {
  bool active = false;             // intercept calls
  bool supported = true;           // /proc/sys/kernel/perf_event_paranoid exists
  std::map<std::pair<uint32_t, uint64_t>, bool> have;
  size_t hw_slots = 8, llc_slots = 8;
  uint64_t open_intr = 0;          // EINTR results before each open succeeds
  std::vector<uint64_t> read_plan; // per read(): 0 full, 1 EINTR, 2.. short read of that many bytes
  size_t read_pos = 0;
  std::vector<Event> ev;           // fd - kFd0
  std::map<int, std::pair<uint64_t, uint64_t>> times;  // leader -> enabled, running
  bool enabled = true;             // counters start enabled unless attr.disabled
  std::string complaint;
  uint64_t intr_left = 0;
  char release[32] = "6.10.1-sim";
  void Complain(const std::string& s) { if (complaint.empty()) complaint = s; }
  size_t InGroup(int leader, bool llc) const {
    size_t n = 0;
    for (const Event& e : ev) if (e.leader == leader) n += llc ? IsLLC(e.type, e.config) : e.type != PERF_TYPE_SOFTWARE;
    return n;
  }
  static bool IsLLC(uint32_t type, uint64_t config) { return type == PERF_TYPE_HW_CACHE && (config & 0xFF) == PERF_COUNT_HW_CACHE_LL; }
};
Kernel K;

int SimOpen(const perf_event_attr* a, int pid, int cpu, int leader, unsigned long flags) {
  if (K.intr_left > 0) { --K.intr_left; errno = EINTR; return -1; }
  K.intr_left = K.open_intr;
  if (pid != 0 || cpu != -1) K.Complain(vf::Fmt("opened for pid %d cpu %d", pid, cpu));
  if (flags != 0 || a->inherit) { /* allowed */ }
  if (!a->exclude_kernel) { errno = EACCES; return -1; }  // paranoid level 2
  auto it = K.have.find({a->type, a->config});
  if (it == K.have.end()) { K.Complain(vf::Fmt("unexpected event type %u config %llx", a->type, (unsigned long long)a->config)); errno = EINVAL; return -1; }
  if (!it->second) { errno = ENOENT; return -1; }
  const uint64_t want = PERF_FORMAT_TOTAL_TIME_ENABLED | PERF_FORMAT_TOTAL_TIME_RUNNING | PERF_FORMAT_GROUP;
  if (a->read_format != want) K.Complain("read_format does not request group values and both times");
  const int fd = kFd0 + int(K.ev.size());
  if (leader != -1) {
    if (leader < kFd0 || leader >= fd || K.ev[size_t(leader - kFd0)].leader != leader) { errno = EBADF; return -1; }
    if (a->type != PERF_TYPE_SOFTWARE && K.InGroup(leader, false) >= K.hw_slots) { errno = EINVAL; return -1; }
    if (Kernel::IsLLC(a->type, a->config) && K.InGroup(leader, true) >= K.llc_slots) { errno = EINVAL; return -1; }
  }
  Event e; e.type = a->type; e.config = a->config; e.leader = leader == -1 ? fd : leader;
  K.ev.push_back(e);
  if (leader == -1) K.times[fd] = {0, 0};
  return fd;
}
ssize_t SimRead(int fd, void* buf, size_t n) {
  static std::vector<uint64_t> data; static size_t off = 0; static int cur = -1;
  const uint64_t plan = K.read_pos < K.read_plan.size() ? K.read_plan[K.read_pos++] : 0;
  if (plan == 1) { errno = EINTR; return -1; }
  const size_t idx = size_t(fd - kFd0);
  if (idx >= K.ev.size()) { errno = EBADF; return -1; }
  if (cur != fd || off == 0) {  // values as of the start of this (possibly interrupted) read
    data.clear();
    const int leader = K.ev[idx].leader;
    if (leader != fd) K.Complain("read of a group member");
    data = {0, K.times[leader].first, K.times[leader].second};
    for (const Event& e : K.ev) if (e.leader == leader) { data.push_back(e.count); ++data[0]; }
    cur = fd; off = 0;
  }
  const size_t total = data.size() * 8;
  if (off == 0 && n < total) { errno = ENOSPC; return -1; }
  size_t take = std::min(n, total - off);
  if (plan >= 2) take = std::min<size_t>(take, plan);
  memcpy(buf, reinterpret_cast<const char*>(data.data()) + off, take);
  off += take;
  if (off == total) { off = 0; cur = -1; }
  return ssize_t(take);
}
}  // namespace

extern "C" {
long __real_syscall(long nr, ...);
ssize_t __real_read(int fd, void* buf, size_t n);
int __real_ioctl(int fd, unsigned long req, ...);
int __real_prctl(int op, ...);
int __real_stat(const char* path, struct stat* st);
int __real_uname(struct utsname* u);

long __wrap_syscall(long nr, ...) {
  va_list ap; va_start(ap, nr);
  long a[6]; for (long& x : a) x = va_arg(ap, long);
  va_end(ap);
  if (K.active && nr == __NR_perf_event_open)
    return SimOpen(reinterpret_cast<perf_event_attr*>(a[0]), int(a[1]), int(a[2]), int(a[3]), (unsigned long)int(a[4]));
  return __real_syscall(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
}
ssize_t __wrap_read(int fd, void* buf, size_t n) { return K.active && fd >= kFd0 ? SimRead(fd, buf, n) : __real_read(fd, buf, n); }
ssize_t __wrap___read_chk(int fd, void* buf, size_t n, size_t) { return __wrap_read(fd, buf, n); }  // fortified read
int __wrap_ioctl(int fd, unsigned long req, ...) {
  va_list ap; va_start(ap, req); const unsigned long arg = va_arg(ap, unsigned long); va_end(ap);
  if (!(K.active && fd >= kFd0)) return __real_ioctl(fd, req, arg);
  if (size_t(fd - kFd0) >= K.ev.size()) { errno = EBADF; return -1; }
  if (req == PERF_EVENT_IOC_RESET) {
    const bool group = arg == PERF_IOC_FLAG_GROUP;
    for (size_t i = 0; i < K.ev.size(); ++i) if (int(i) == fd - kFd0 || (group && K.ev[i].leader == K.ev[size_t(fd - kFd0)].leader)) K.ev[i].count = 0;
    return 0;
  }
  K.Complain("unknown ioctl");
  errno = ENOTTY;
  return -1;
}
int __wrap_prctl(int op, ...) {
  if (K.active && op == PR_TASK_PERF_EVENTS_ENABLE) { K.enabled = true; return 0; }
  if (K.active && op == PR_TASK_PERF_EVENTS_DISABLE) { K.enabled = false; return 0; }
  va_list ap; va_start(ap, op);
  unsigned long a[4]; for (unsigned long& x : a) x = va_arg(ap, unsigned long);
  va_end(ap);
  return __real_prctl(op, a[0], a[1], a[2], a[3]);
}
int __wrap_stat(const char* path, struct stat* st) {
  if (K.active && strstr(path, "perf_event_paranoid") != nullptr) {
    if (!K.supported) { errno = ENOENT; return -1; }
    memset(st, 0, sizeof *st);
    return 0;
  }
  return __real_stat(path, st);
}
int __wrap_uname(struct utsname* u) {
  const int r = __real_uname(u);
  if (K.active) { strcpy(u->sysname, "Linux"); strcpy(u->release, K.release); }
  return r;
}
}

namespace {
struct Def { PC::Counter c; uint32_t type; uint64_t config; const char* name; };
std::vector<Def> Defs(bool cycles) {
  const uint64_t ll = PERF_COUNT_HW_CACHE_LL, ld = PERF_COUNT_HW_CACHE_OP_READ << 8, st = PERF_COUNT_HW_CACHE_OP_WRITE << 8, acc = PERF_COUNT_HW_CACHE_RESULT_ACCESS << 16;
  return {{PC::kRefCycles, PERF_TYPE_HARDWARE, cycles ? PERF_COUNT_HW_CPU_CYCLES : PERF_COUNT_HW_REF_CPU_CYCLES, "ref_cycles"},
          {PC::kInstructions, PERF_TYPE_HARDWARE, PERF_COUNT_HW_INSTRUCTIONS, "instructions"},
          {PC::kBranches, PERF_TYPE_HARDWARE, PERF_COUNT_HW_BRANCH_INSTRUCTIONS, "branches"},
          {PC::kBranchMispredicts, PERF_TYPE_HARDWARE, PERF_COUNT_HW_BRANCH_MISSES, "branch_mispredicts"},
          {PC::kBusCycles, PERF_TYPE_HARDWARE, PERF_COUNT_HW_BUS_CYCLES, "bus_cycles"},
          {PC::kCacheRefs, PERF_TYPE_HARDWARE, PERF_COUNT_HW_CACHE_REFERENCES, "cache_refs"},
          {PC::kCacheMisses, PERF_TYPE_HARDWARE, PERF_COUNT_HW_CACHE_MISSES, "cache_misses"},
          {PC::kL3Loads, PERF_TYPE_HW_CACHE, ll | ld | acc, "l3_load"},
          {PC::kL3Stores, PERF_TYPE_HW_CACHE, ll | st | acc, "l3_store"},
          {PC::kPageFaults, PERF_TYPE_SOFTWARE, PERF_COUNT_SW_PAGE_FAULTS, "page_fault"},
          {PC::kMigrations, PERF_TYPE_SOFTWARE, PERF_COUNT_SW_CPU_MIGRATIONS, "migration"}};
}

struct Step { int op; uint64_t dt; std::vector<uint64_t> rate; std::vector<uint64_t> share; std::vector<uint64_t> reads; };

std::string Play(const std::vector<Def>& defs, const std::vector<Step>& steps, bool retry_init) {
  bool any = false;
  auto recompute = [&] { any = false; for (const Def& d : defs) any |= K.have[{d.type, d.config}]; };
  recompute();
  {
    const PC early;  // before Init: nothing is valid
    VF_CHECK(!early.AnyValid(), "counters are valid before Init");
    VF_CHECK(!PC::StartAll(), "StartAll succeeded before Init");
  }
  if (retry_init) {  // first attempt on a system without counters
    const bool s = K.supported;
    K.supported = false;
    VF_CHECK(!PC::Init(), "Init returned true although the kernel does not support counters");
    VF_CHECK(!PC::StartAll(), "StartAll succeeded although Init failed");
    K.supported = s;
  }
  const bool ok = PC::Init();
  VF_CHECK(ok == (any && K.supported), "Init returned %d, %s", ok, !K.supported ? "counters are not supported" : any ? "some counters are available" : "no counter is available");
  VF_CHECK(PC::Init() == ok, "second Init returned another result");
  const bool live = any && K.supported;
  if (live) VF_CHECK(!K.enabled, "counters are running before StartAll");
  for (const Step& st : steps) {
    if (st.op == 0) {
      const bool r = PC::StartAll();
      VF_CHECK(r == live, "StartAll returned %d", r);
      if (live) VF_CHECK(K.enabled, "StartAll did not enable the counters");
    } else if (st.op == 1) {
      PC::StopAllAndReset();
      if (live) VF_CHECK(!K.enabled, "StopAllAndReset did not stop the counters");
      for (const Event& e : K.ev) VF_CHECK(e.count == 0, "StopAllAndReset left event %u/%llx at %llu", e.type, (unsigned long long)e.config, (unsigned long long)e.count);
    } else if (st.op == 2) {  // time passes
      if (K.enabled) {
        size_t g = 0;
        std::map<int, uint64_t> run;
        for (auto& t : K.times) { t.second.first += st.dt; const uint64_t r = st.share[g++ % st.share.size()]; const uint64_t d = st.dt / 16 * std::min<uint64_t>(r, 16); t.second.second += r >= 16 ? st.dt : d; run[t.first] = r; }
        for (size_t i = 0; i < K.ev.size(); ++i) K.ev[i].count += run[K.ev[i].leader] == 0 ? 0 : st.rate[i % st.rate.size()] + i;
      }
    } else {
      K.read_plan = st.reads; K.read_pos = 0;
      PC pc;
      K.read_plan.clear();
      bool valid = live;
      double max_ex = 1.0;
      for (auto& t : K.times) { if (t.second.second == 0) valid = false; else max_ex = std::max(max_ex, double(t.second.first) / double(t.second.second)); }
      VF_CHECK(pc.AnyValid() == valid, "AnyValid() = %d, expected %d", pc.AnyValid(), valid);
      if (valid) VF_CHECK(fabs(pc.MaxExtrapolate() - max_ex) <= 1E-12 * max_ex, "MaxExtrapolate = %.15g, expected %.15g", pc.MaxExtrapolate(), max_ex);
      std::map<int, double> seen;
      int prev = -1;
      pc.Foreach([&](double v, PC::Counter c) {
        VF_CHECK(int(c) > prev, "Foreach visits counter %d after %d", int(c), prev);
        prev = int(c);
        seen[int(c)] = v;
      });
      for (const Def& d : defs) {
        const Event* e = nullptr;
        for (const Event& x : K.ev) if (x.type == d.type && x.config == d.config) { if (e) VF_FAIL("counter %s was opened twice", d.name); e = &x; }
        const bool want = valid && K.have[{d.type, d.config}];
        if (want) VF_CHECK(e != nullptr, "counter %s is available but was not opened", d.name);
        VF_CHECK(pc.IsValid(d.c) == want, "IsValid(%s) = %d, expected %d", d.name, pc.IsValid(d.c), want);
        VF_CHECK((seen.count(int(d.c)) != 0) == want, "Foreach %s %s", want ? "skips" : "visits", d.name);
        double v = 0;
        if (want) { const auto& t = K.times[e->leader]; v = double(e->count) * (double(t.first) / double(t.second)); }
        VF_CHECK(fabs(pc.Get(d.c) - v) <= 1E-12 * v, "Get(%s) = %.17g, expected %.17g", d.name, pc.Get(d.c), v);
        if (want) VF_CHECK(seen[int(d.c)] == pc.Get(d.c), "Foreach passes %.17g for %s, Get returns %.17g", seen[int(d.c)], d.name, pc.Get(d.c));
        VF_CHECK(strcmp(PC::Name(d.c), d.name) == 0, "Name is %s, expected %s", PC::Name(d.c), d.name);
      }
    }
    VF_CHECK(K.complaint.empty(), "%s", K.complaint.c_str());
  }
  return "";
}

void Perf(Src& s, Ctx& cx) {
  char cpu[100] = "";
  const bool epyc = hwy::platform::GetCpuString(cpu) && std::string(cpu).rfind("AMD EPYC", 0) == 0;
  K = Kernel();
  static const char* const kRel[] = {"6.10.1-sim", "6.8.0", "5.15.0-91-generic", "6.9", "7.0.1"};
  const size_t rel = s.Below(5);
  strcpy(K.release, kRel[rel]);
  const std::vector<Def> defs = Defs(epyc && (rel == 1 || rel == 2));
  const int mode = int(s.Below(4));
  size_t avail = 0;
  for (const Def& d : defs) { const bool h = mode == 0 || (mode == 1 ? s.Chance(9, 10) : mode == 2 ? s.Bool() : s.Chance(1, 6)); K.have[{d.type, d.config}] = h; avail += h; }
  K.supported = !s.Chance(1, 20);
  K.hw_slots = 1 + s.Below(8); K.llc_slots = 1 + s.Below(3);
  K.open_intr = s.Chance(1, 4) ? s.Below(9) : 0; K.intr_left = K.open_intr;
  const bool retry_init = s.Chance(1, 6);
  std::vector<Step> steps;
  const size_t n = 1 + s.Below(14);
  cx.Desc([&] { std::string d = vf::Fmt("%s, hw slots %zu, llc %zu, intr %d, available:", K.supported ? "supported" : "unsupported", K.hw_slots, K.llc_slots, int(K.open_intr)); for (const Def& x : defs) if (K.have[{x.type, x.config}]) d += std::string(" ") + x.name; return d + "; "; });
  for (size_t i = 0; i < n; ++i) {
    Step st;
    st.op = i == 0 ? 0 : int(s.Below(6)); if (st.op > 3) st.op = st.op == 4 ? 2 : 3;
    if (st.op == 2) {
      st.dt = 16 * (1 + s.Int(36));
      for (int k = 0; k < 12; ++k) st.rate.push_back(s.Int(s.Bool() ? 20 : 50));
      const bool mux = s.Bool();
      for (int k = 0; k < 6; ++k) st.share.push_back(mux ? s.Below(17) : 16);
      cx.Desc([&] { return vf::Fmt("time passes%s; ", mux ? " (multiplexed)" : ""); });
    } else if (st.op == 3) {
      if (s.Chance(1, 3)) { const size_t k = s.Below(8); for (size_t j = 0; j < k; ++j) st.reads.push_back(s.Bool() ? 1 : 2 + s.Below(80)); }
      cx.Desc([&] { std::string d = "read("; for (uint64_t r : st.reads) d += vf::Fmt("%d ", int(r)); return d + "); "; });
    } else cx.Desc([&] { return std::string(st.op == 0 ? "start; " : "stop+reset; "); });
    steps.push_back(st);
  }
  steps.push_back(Step{3, 0, {}, {}, {}});
  cx.evals = 12 * n;
  cx.nontrivial = avail >= 3 && K.supported;
  int fd[2];
  if (pipe(fd) != 0) throw vf::Discard();
  const pid_t pid = fork();  // the library keeps its state for the whole process
  if (pid == 0) {
    for (int sig : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT}) signal(sig, SIG_DFL);
    alarm(60);
    close(fd[0]);
    FILE* null = getenv("VFDBG")?stderr:freopen("/dev/null", "w", stderr); (void)null;
    K.active = true;
    std::string r;
    try { r = Play(defs, steps, retry_init); } catch (const vf::Failed& e) { r = e.msg; }
    if (!r.empty()) { const ssize_t ign = write(fd[1], r.data(), r.size()); (void)ign; }
    _exit(0);
  }
  close(fd[1]);
  std::string out; char buf[2048];
  for (;;) { const ssize_t r = __real_read(fd[0], buf, sizeof buf); if (r < 0 && errno == EINTR) continue; if (r <= 0) break; out.append(buf, size_t(r)); }
  close(fd[0]);
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  VF_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "process died with signal %d", WIFSIGNALED(st) ? WTERMSIG(st) : 0);
  VF_CHECK(out.empty(), "%s", out.c_str());
}
VF_REG("Perf", 40000, 400000, (&Perf))
}  // namespace
