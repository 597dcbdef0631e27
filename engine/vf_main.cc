// Runner for vf.h tasks.
#include "vf.h"

#include <signal.h>

#include "hwy/abort.h"
#include "hwy/targets.h"

namespace vf {
std::vector<Task>& Tasks() { static std::vector<Task> t; return t; }
std::string& AbortMessage() { static std::string s; return s; }
static Options g_opt;
const Options& Opt() { return g_opt; }
bool TargetUsable(int64_t t) { return t == 0 || t == HWY_EMU128 || t == HWY_SCALAR || (hwy::SupportedTargets() & t) != 0; }

static sigjmp_buf g_jmp;
static volatile sig_atomic_t g_in = 0, g_threads = 0;
static volatile int g_sig = 0;
static pid_t g_tid = 0;
static pid_t Tid() { return pid_t(syscall(SYS_gettid)); }
static void OnSig(int sig) {
  if (g_in && !g_threads && Tid() == g_tid) { g_sig = sig; siglongjmp(g_jmp, 1); }
  signal(sig, SIG_DFL);
  raise(sig);
}
static void OnAbort(const char* file, int line, const char* msg) {
  char b[2048];
  snprintf(b, sizeof b, "%s:%d: %s", file ? file : "?", line, msg ? msg : "");
  AbortMessage() = b;
  if (g_in && !g_threads && Tid() == g_tid) { g_sig = 1000; siglongjmp(g_jmp, 1); }
  fprintf(stderr, "abort: %s\n", b);
}

struct Result {
  bool failed = false, discarded = false;
  std::string msg, desc;
  std::vector<uint64_t> choices;
  uint64_t evals = 0;
  bool nontrivial = false;
  const char* cls = nullptr;
};

static Result RunOnce(const Task& t, Src& src, bool describe) {
  Result r;
  static Ctx* cxp; static Src* srcp; static const Task* tp; static Result* rp;
  Ctx cx(src);
  cx.thorough = g_opt.thorough();
  cx.describe = describe;
  cxp = &cx; srcp = &src; tp = &t; rp = &r;
  AbortMessage().clear();
  if (sigsetjmp(g_jmp, 1) != 0) {
    g_in = 0;
    r.failed = true;
    const int sig = g_sig;
    r.msg = sig == 1000 ? "aborted: " + AbortMessage() : Fmt("killed by signal %d (%s)", sig, strsignal(sig));
    if (sig == SIGABRT && !AbortMessage().empty()) r.msg += " " + AbortMessage();
  } else {
    g_threads = (t.flags & kThreads) != 0;
    g_in = 1;
    try {
      tp->fn(*srcp, *cxp);
    } catch (const Failed& f) {
      rp->failed = true; rp->msg = f.msg;
    } catch (const Discard&) {
      rp->discarded = true;
    } catch (const std::exception& e) {
      rp->failed = true; rp->msg = std::string("exception: ") + e.what();
    }
    g_in = 0;
  }
  r.choices = src.Choices();
  r.desc = cx.desc;
  r.evals = cx.evals; r.nontrivial = cx.nontrivial; r.cls = cx.cls;
  return r;
}

static Result RunChoices(const Task& t, const std::vector<uint64_t>& c, bool describe = false) {
  Src s(c);
  return RunOnce(t, s, describe);
}

static std::vector<uint64_t> Shrink(const Task& t, std::vector<uint64_t> c, Shard& sh) {
  const double t0 = Now();
  int runs = 0;
  const double budget = 15.0;
  auto still = [&](const std::vector<uint64_t>& v) {
    if (runs >= 4000 || Now() - t0 > budget) return false;
    ++runs; sh.Tick();
    Result r = RunChoices(t, v);
    return r.failed;
  };
  if (c.size() > 5000) return c;
  bool improved = true;
  while (improved && runs < 4000 && Now() - t0 < budget) {
    improved = false;
    for (size_t len : {size_t(64), size_t(16), size_t(8), size_t(4), size_t(2), size_t(1)}) {
      for (size_t i = c.size(); i-- > 0;) {
        if (i + len > c.size()) continue;
        std::vector<uint64_t> v = c;
        v.erase(v.begin() + long(i), v.begin() + long(i + len));
        if (still(v)) { c = v; improved = true; if (i > c.size()) i = c.size(); }
        if (Now() - t0 > budget) break;
      }
    }
    for (size_t i = 0; i < c.size(); ++i) {
      if (c[i] == 0) continue;
      std::vector<uint64_t> v = c;
      v[i] = 0;
      if (still(v)) { c = v; improved = true; continue; }
      uint64_t lo = 0, hi = c[i];  // lo passes, hi fails
      while (hi - lo > 1) {
        const uint64_t mid = lo + (hi - lo) / 2;
        v = c; v[i] = mid;
        if (still(v)) { hi = mid; c = v; improved = true; } else lo = mid;
        if (runs >= 4000 || Now() - t0 > budget) break;
      }
    }
  }
  return c;
}

static std::string ReplayBody(const Task& t, const std::vector<uint64_t>& c) {
  std::string b = std::string("task ") + t.name + "\nchoices";
  for (uint64_t v : c) b += Fmt(" %llu", (unsigned long long)v);
  return b + "\n";
}

static std::string Trunc(const std::string& s, size_t n) { return s.size() > n ? s.substr(0, n) + "..." : s; }

// Runs and reports one case; returns false if it failed.
static bool DoCase(const Task& t, uint64_t seed, uint64_t i, Shard& sh, int* sample_budget) {
  snprintf(sh.cur, 400, "task %s\nseed %llu\ncase %llu\n", t.name, (unsigned long long)seed, (unsigned long long)i);
  sh.Tick();
  Src src(Mix(seed ^ Mix(HashStr(t.name)) ^ (i * 0xD1342543DE82EF95ull)), i);
  const bool describe = *sample_budget > 0 && i >= 3;
  Result r = RunOnce(t, src, describe);
  if (r.discarded) { ++sh.classes[std::string(t.name) + ":discarded"]; return true; }
  sh.evals += r.evals;
  sh.nontrivial += r.nontrivial ? r.evals : 0;
  sh.classes[r.cls ? std::string(t.name) + ":" + r.cls : std::string(t.name)] += r.evals;
  if (describe && r.nontrivial && !r.failed) { --*sample_budget; sh.Sample(std::string(t.name) + ": " + (r.desc.empty() ? Fmt("%zu choices", r.choices.size()) : Trunc(r.desc, 300))); }
  if (!r.failed) return true;
  Failure f;
  f.where = t.name;
  std::vector<uint64_t> c = r.choices;
  if (!(t.flags & kNondet)) {
    bool ok = true;
    for (int k = 0; k < 3 && ok; ++k) ok = RunChoices(t, c).failed;
    if (!ok) {
      f.desc = r.msg + " (depends on earlier cases or uninitialised state: not reproduced alone) | " + Trunc(r.desc, 1500);
      f.replay = ReplayBody(t, c);
      sh.Fail(f);
      return false;
    }
    c = Shrink(t, c, sh);
    Result d = RunChoices(t, c, true);
    if (d.failed) { f.desc = d.msg + (d.desc.empty() ? "" : " | " + Trunc(d.desc, 1500)); }
    else { c = r.choices; f.desc = r.msg; }
  } else {
    f.desc = r.msg + (r.desc.empty() ? "" : " | " + Trunc(r.desc, 1500));
  }
  f.replay = ReplayBody(t, c) + Fmt("# generated by seed %llu case %llu\n", (unsigned long long)seed, (unsigned long long)i);
  sh.Fail(f);
  return false;
}

static void InstallHandlers() {
  static char alt[65536];
  stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = OnSig; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGTRAP, SIGABRT}) sigaction(s, &sa, nullptr);
  hwy::SetAbortFunc(&OnAbort);
  g_tid = Tid();
}

bool KnownListed(const char* id) {
  FILE* f = fopen((g_opt.verif + "/known_findings.txt").c_str(), "r");
  if (!f) return false;
  const std::string want = "known: property=" + g_opt.property + " " + id + " ";
  char* buf = nullptr; size_t cap = 0; bool found = false;
  while (getline(&buf, &cap, f) > 0) if (!strncmp(buf, want.c_str(), want.size())) found = true;
  free(buf);
  fclose(f);
  return found;
}

}  // namespace vf

// Descriptions of the listed known findings that (still) occur.
__attribute__((weak)) std::vector<std::string> VfKnown();

// Each harness defines these.
extern const char* const kVfRule;
extern const std::vector<std::string> kVfAssumptions;
extern const int kVfJobs;           // shards
extern const double kVfQuickSeconds;  // time cap per shard

int main(int argc, char** argv) {
  using namespace vf;
  g_opt = ParseOptions(argc, argv, nullptr);
  const Options& o = g_opt;
  std::vector<Task> tasks;
  for (const Task& t : Tasks()) if (TargetUsable(t.target)) tasks.push_back(t);
  std::sort(tasks.begin(), tasks.end(), [](const Task& a, const Task& b) { return strcmp(a.name, b.name) < 0; });
  if (o.list) { for (const Task& t : tasks) printf("%s q=%llu t=%llu\n", t.name, (unsigned long long)t.quick, (unsigned long long)t.thorough); return 0; }
  if (!o.replay.empty()) {
    FILE* f = fopen(o.replay.c_str(), "r");
    if (!f) { perror("replay"); return 2; }
    std::string name; std::vector<uint64_t> c; bool have = false; unsigned long long seed = 0, idx = 0;
    char* buf = nullptr; size_t cap = 0;
    while (getline(&buf, &cap, f) > 0) {
      if (!strncmp(buf, "task ", 5)) { name = buf + 5; while (!name.empty() && name.back() == '\n') name.pop_back(); }
      else if (!strncmp(buf, "choices", 7)) { have = true; char* p = buf + 7; char* e; for (;;) { unsigned long long v = strtoull(p, &e, 10); if (e == p) break; c.push_back(v); p = e; } }
      else if (!strncmp(buf, "seed ", 5)) seed = strtoull(buf + 5, nullptr, 10);
      else if (!strncmp(buf, "case ", 5)) idx = strtoull(buf + 5, nullptr, 10);
    }
    fclose(f);
    for (const Task& t : tasks) if (name == t.name) {
      InstallHandlers();
      const int reps = (t.flags & kNondet) ? 300 : 1;
      for (int k = 0; k < reps; ++k) {
        Src s = have ? Src(c) : Src(Mix(seed ^ Mix(HashStr(t.name)) ^ (idx * 0xD1342543DE82EF95ull)), idx);
        Result r = RunOnce(t, s, true);
        if (r.failed) { printf("FAIL %s: %s | %s\nVIOLATION property=%s replay=%s\n", t.name, r.msg.c_str(), r.desc.c_str(), o.property.c_str(), o.replay.c_str()); return 1; }
      }
      printf("replay passes\n");
      return 0;
    }
    fprintf(stderr, "unknown task %s\n", name.c_str());
    return 2;
  }
  Report rep(o);
  rep.rule = kVfRule;
  rep.assumptions = kVfAssumptions;
  if (VfKnown) rep.known = VfKnown();
  rep.hang_seconds = 100;
  if (!o.only.empty()) {
    std::vector<Task> k;
    for (auto& t : tasks) if (strstr(t.name, o.only.c_str())) k.push_back(t);
    tasks = k;
  }
  const int jobs = std::max(1, std::min(o.jobs, kVfJobs));
  const double cap = o.thorough() ? 600.0 : kVfQuickSeconds;
  rep.RunSharded(jobs, [&](Shard& sh) {
    InstallHandlers();
    const double t0 = Now();
    std::vector<uint64_t> n(tasks.size()), done(tasks.size(), 0);
    std::vector<int> samples(tasks.size(), sh.index == 0 ? 1 : 0);
    std::vector<int> fails(tasks.size(), 0);
    for (size_t k = 0; k < tasks.size(); ++k) {
      n[k] = o.thorough() ? tasks[k].thorough : tasks[k].quick;
      n[k] = uint64_t(double(n[k]) * o.scale);
      if (n[k] == 0) n[k] = 1;
    }
    // Several rounds so that a time cap thins all tasks evenly.
    const int kRounds = 16;
    bool stop = false;
    for (int round = 0; round < kRounds && !stop; ++round) {
      for (size_t k = 0; k < tasks.size() && !stop; ++k) {
        if ((tasks[k].flags & kSingle) && sh.index != 0) continue;
        const uint64_t lim = n[k] * uint64_t(round + 1) / kRounds;
        for (uint64_t& i = done[k]; i < lim; ++i) {
          if (!(tasks[k].flags & kSingle) && int((i + k) % uint64_t(sh.count)) != sh.index) continue;
          if (fails[k] >= 2) continue;
          if (!DoCase(tasks[k], o.seed, i, sh, &samples[k])) ++fails[k];
          if (Now() - t0 > cap) { stop = true; ++sh.classes["time cap reached"]; break; }
        }
      }
    }
  });
  return rep.Finish();
}
