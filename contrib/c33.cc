// C33: profiler zones (hwy/profiler.h) against a model of the zone tree.  The
// clock is replaced by a per-thread virtual clock, so call counts and
// durations have exact expected values.
#include "vf.h"

#include <errno.h>
#include <sys/wait.h>
#include <unistd.h>

#include <map>
#include <thread>

#include "hwy/aligned_allocator.h"
#include "hwy/cache_control.h"
#include "hwy/contrib/sort/vqsort.h"
#include "hwy/robust_statistics.h"
#include "hwy/timer.h"

namespace hwy {
namespace vf_timer {
using Ticks = uint64_t;
static thread_local uint64_t tl_now = 0, tl_cost = 0;
static inline Ticks Start() { const uint64_t t = tl_now; tl_now += tl_cost; return t; }
static inline Ticks Stop() { const uint64_t t = tl_now; tl_now += tl_cost; return t; }
}  // namespace vf_timer
}  // namespace hwy
#define timer vf_timer
#define PROFILER_ENABLED 1
#define PROFILER_THREAD_STORAGE 1ULL
#include "hwy/profiler.h"
#undef timer

namespace {
using vf::Ctx;
using vf::Src;
namespace clk = hwy::vf_timer;

// Distinct addresses; some have equal contents, as instantiations of a
// function template do.
const char kNames[][24] = {"alpha", "beta", "alpha", "gamma", "delta", "beta", "alpha", "a", "ab", "zeta zone", "gamma",
                           "eta", "theta", "x1", "x2", "x3", "x4", "x5", "x6", "x1", "x2", "y1", "y2", "y3", "y4", "kappa", "lambda", "mu", "nu", "xi", "omicron", "pi"};
constexpr size_t kNumNames = sizeof(kNames) / sizeof(kNames[0]);

struct Node {
  int kind;  // 0: kNames, 1: macro PROFILER_ZONE, 2: function zone, 3: many leaves
  size_t name;
  uint64_t before, after;  // ticks around the children
  uint64_t reps;
  std::vector<Node> kids;
};
struct Thread { uint64_t start; std::vector<Node> top; };
struct Stat { uint64_t calls = 0, self = 0; uint64_t kids = 0; };
using Model = std::map<std::string, Stat>;

uint64_t Work(Src& s) {
  switch (s.Below(6)) {
    case 0: return 0;
    case 1: return s.Below(20);
    case 2: return s.Below(100000);
    case 3: return s.Below(1ull << 33);   // more than 32 bits
    case 4: return s.Below(1ull << 20);
    default: return s.Below(1000);
  }
}
Node Gen(Src& s, int depth, size_t names, size_t& budget) {
  Node n;
  n.kind = int(s.Below(8)); n.kind = n.kind < 4 ? 0 : n.kind < 5 ? 1 : n.kind < 6 ? 2 : 0;
  n.name = s.Below(names);
  n.before = Work(s); n.after = Work(s); n.reps = 1;
  if (depth > 1 && budget > 0) {
    const size_t k = s.Chance(1, 6) ? s.Below(8) : s.Below(3);
    for (size_t i = 0; i < k && budget > 0; ++i) { --budget; n.kids.push_back(Gen(s, depth - 1, names, budget)); }
  }
  return n;
}
const char* Name(const Node& n) {
  if (n.kind == 1) return "macro zone";
  if (n.kind == 2) return "FuncZone";
  return kNames[n.name];
}
uint64_t Fill(Model& m, const Node& n) {  // returns number of zone entries
  Stat& st = m[Name(n)];
  st.calls += n.reps; st.self += (n.before + n.after) * n.reps; for (const Node& k : n.kids) st.kids += k.reps;
  uint64_t c = n.reps;
  for (const Node& k : n.kids) c += Fill(m, k);
  return c;
}
void Run(const Node& n);
void Body(const Node& n) { clk::tl_now += n.before; for (const Node& k : n.kids) Run(k); clk::tl_now += n.after; }
void FuncZone(const Node& n) { PROFILER_FUNC; Body(n); }
void Run(const Node& n) {
  for (uint64_t r = 0; r < n.reps; ++r) {
    if (n.kind == 1) { PROFILER_ZONE("macro zone"); Body(n); }
    else if (n.kind == 2) FuncZone(n);
    else { const hwy::Zone zone(kNames[n.name]); Body(n); }
  }
}
std::string Describe(const Node& n) {
  std::string d = vf::Fmt("%s(%llu", Name(n), (unsigned long long)n.before);
  for (const Node& k : n.kids) d += " " + Describe(k);
  d += vf::Fmt(" %llu)", (unsigned long long)n.after);
  if (n.reps != 1) d += vf::Fmt("x%llu", (unsigned long long)n.reps);
  return d;
}

void Profile(Src& s, Ctx& cx) {
  static const double freq = hwy::platform::InvariantTicksPerSecond();  // cached by the library as well
  const size_t num_threads = s.Chance(1, 3) ? 1 + size_t(s.Below(4)) : s.Chance(1, 30) ? 0 : 1;
  const uint64_t cost = s.Chance(1, 4) ? 1 + s.Below(60) : 0;
  const size_t names = 1 + size_t(s.Below(kNumNames));
  const bool concurrent = s.Bool();
  std::vector<Thread> th(num_threads);
  Model m;
  uint64_t entries = 0;
  for (Thread& t : th) {
    switch (s.Below(4)) {
      case 0: t.start = 0; break;
      case 1: t.start = (1ull << (64 - 25)) - s.Below(100000); break;
      case 2: t.start = ~0ull - s.Below(1u << 22); break;
      default: t.start = s.Bits(62);
    }
    const size_t tops = 1 + size_t(s.Below(4));
    for (size_t i = 0; i < tops; ++i) {
      size_t budget = s.Chance(1, 4) ? 60 : 10;
      Node n = Gen(s, int(1 + s.Below(6)), names, budget);
      if (s.Chance(1, 12)) {  // nesting up to the documented maximum of 64
        Node* p = &n;
        const size_t extra = s.Below(57);
        for (size_t d = 0; d < extra; ++d) { Node c; c.kind = 0; c.name = s.Below(names); c.before = s.Below(1000); c.after = s.Below(1000); c.reps = 1;
          p->kids.insert(p->kids.begin(), c); p = &p->kids[0]; }
      }
      if (s.Chance(1, 10)) {  // more packets than the buffer holds
        Node c; c.kind = 0; c.name = s.Below(names); c.before = s.Below(1000); c.after = s.Below(30); c.reps = s.Chance(1, 2) ? 65500 + s.Below(80) : 1 + s.Below(200000);
        n.kids.insert(n.kids.begin() + long(s.Below(n.kids.size() + 1)), c);
      }
      entries += Fill(m, n);
      t.top.push_back(n);
    }
    // a zone must be shorter than 2^39 ticks in total
    cx.Desc([&] { std::string d = vf::Fmt("thread start %llu:", (unsigned long long)t.start); for (const Node& n : t.top) d += " " + Describe(n); return d + "; "; });
  }
  cx.Desc([&] { return vf::Fmt("clock cost %llu", (unsigned long long)cost); });
  int fd[2];
  if (pipe(fd) != 0) throw vf::Discard();
  fflush(stdout);
  const pid_t pid = fork();
  if (pid == 0) {
    alarm(60);
    for (int sig : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT}) signal(sig, SIG_DFL);
    hwy::SetAbortFunc(nullptr);
    dup2(fd[1], 1); close(fd[0]); close(fd[1]);
    auto work = [&](const Thread& t) { clk::tl_now = t.start; clk::tl_cost = cost; for (const Node& n : t.top) Run(n); };
    std::vector<std::thread> v;
    for (size_t i = 0; i < num_threads; ++i) {
      if (i == 0) { work(th[0]); continue; }  // main first: it owns the first slot
      v.emplace_back(work, std::cref(th[i]));
      if (!concurrent) v.back().join();
    }
    for (auto& t : v) if (t.joinable()) t.join();
    PROFILER_PRINT_RESULTS();
    fflush(stdout);
    _exit(0);
  }
  close(fd[1]);
  std::string out;
  char buf[4096];
  for (;;) { const ssize_t r = read(fd[0], buf, sizeof buf); if (r < 0 && errno == EINTR) continue; if (r <= 0) break; out.append(buf, size_t(r)); }
  close(fd[0]);
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  VF_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "the profiled program died: %s %d; output so far: %.300s",
           WIFSIGNALED(st) ? strsignal(WTERMSIG(st)) : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st), out.c_str());
  std::map<std::string, bool> seen;
  uint64_t prev = ~0ull;
  bool total = false;
  size_t pos = 0;
  while (pos < out.size()) {
    size_t e = out.find('\n', pos);
    if (e == std::string::npos) e = out.size();
    const std::string line = out.substr(pos, e - pos);
    pos = e + 1;
    if (line.compare(0, 14, "Total analysis") == 0) { total = true; continue; }
    const size_t colon = line.rfind(": ");
    unsigned long long calls = 0; double avg = 0, sec = 0;
    if (colon == std::string::npos || sscanf(line.c_str() + colon + 1, "%llu x %lf = %lf", &calls, &avg, &sec) != 3) VF_FAIL("unparsable line '%s'", line.c_str());
    std::string name = line.substr(0, colon);
    while (!name.empty() && name.back() == ' ') name.pop_back();
    auto it = m.find(name);
    VF_CHECK(it != m.end(), "zone '%s' was never entered; output:\n%s", name.c_str(), out.c_str());
    VF_CHECK(!seen[name], "zone '%s' is listed twice; output:\n%s", name.c_str(), out.c_str());
    seen[name] = true;
    const Stat& w = it->second;
    VF_CHECK(calls == w.calls, "zone '%s': %llu calls, expected %llu; output:\n%s", name.c_str(), calls, (unsigned long long)w.calls, out.c_str());
    // The measured overhead is deducted from every call and from its parent;
    // analysing full buffers reads the clock inside whatever zone is open.
    const double slack = double(cost) * (1.05 * double(w.calls) + 0.05 * double(w.kids) + 4.0 * (double(entries) / 8000.0 + 2.0));
    VF_CHECK(fabs(avg - double(w.self) / double(w.calls)) <= 0.501 + slack / double(w.calls) + double(w.self) / double(w.calls) * 1e-12,
             "zone '%s': average self duration %.0f, expected %.3f (self total %llu, %llu calls)", name.c_str(), avg, double(w.self) / double(w.calls), (unsigned long long)w.self, calls);
    VF_CHECK(fabs(sec - double(w.self) / freq) <= 1e-6 + slack / freq + double(w.self) / freq * 1e-9, "zone '%s': %f seconds, expected %f", name.c_str(), sec, double(w.self) / freq);
    if (cost == 0) {
      VF_CHECK(w.self <= prev, "not in descending order of total duration at '%s'; output:\n%s", name.c_str(), out.c_str());
      prev = w.self;
    }
  }
  for (const auto& kv : m) VF_CHECK(seen[kv.first], "zone '%s' entered %llu times is missing; output:\n%s", kv.first.c_str(), (unsigned long long)kv.second.calls, out.c_str());
  VF_CHECK(total == (num_threads != 0), "summary line %s", total ? "present" : "missing");
  cx.evals = m.size() + 1;
  cx.nontrivial = m.size() >= 3;
}
VF_REG("Profile", 2500, 30000, (&Profile))
}  // namespace
