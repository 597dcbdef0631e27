// Evidence + violation reporting shared by all checks; fork-sharded execution.
#ifndef VFREPORT_H_
#define VFREPORT_H_
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <functional>
#include <map>
#include <string>
#include <vector>

namespace vf {

inline uint64_t Mix(uint64_t x) {
  x += 0x9E3779B97F4A7C15ull;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
  return x ^ (x >> 31);
}
inline uint64_t HashBytes(const void* p, size_t n, uint64_t h = 0x1234567) {
  const uint8_t* b = static_cast<const uint8_t*>(p);
  while (n >= 8) { uint64_t w; memcpy(&w, b, 8); h = (h ^ w) * 0x9FB21C651E98DF25ull; h ^= h >> 32; b += 8; n -= 8; }
  uint64_t w = 0; if (n) memcpy(&w, b, n);
  h = (h ^ w ^ (uint64_t(n) << 56)) * 0x9FB21C651E98DF25ull;
  return h ^ (h >> 29);
}
inline uint64_t HashStr(const std::string& s) { return HashBytes(s.data(), s.size()); }

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(Mix(seed)) {}
  uint64_t operator()() {
    s += 0x9E3779B97F4A7C15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t Below(uint64_t n) { return n ? uint64_t(((unsigned __int128)(*this)() * n) >> 64) : 0; }
};

inline double Now() {
  struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts);
  return double(ts.tv_sec) + 1e-9 * double(ts.tv_nsec);
}

inline std::string JsonEsc(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += char(c);
  }
  return o + "\"";
}

struct Options {
  std::string property, tier = "quick", replay, verif = "/verif", only;
  uint64_t seed = 1;
  int jobs = 8;
  double scale = 1.0;
  bool list = false;
  bool thorough() const { return tier == "thorough"; }
};
inline Options ParseOptions(int argc, char** argv, const char* property) {
  Options o;
  if (property) o.property = property;
  if (const char* s = getenv("VERIF_SEED")) o.seed = strtoull(s, nullptr, 10);
  if (const char* s = getenv("VERIF_ROOT")) o.verif = s;
  if (const char* s = getenv("VF_SCALE")) o.scale = atof(s);
  if (const char* s = getenv("VF_JOBS")) o.jobs = atoi(s);
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&]() { return i + 1 < argc ? std::string(argv[++i]) : std::string(); };
    if (a == "--tier") o.tier = next();
    else if (a == "--seed") o.seed = strtoull(next().c_str(), nullptr, 10);
    else if (a == "--replay") o.replay = next();
    else if (a == "--property") o.property = next();
    else if (a == "--only") o.only = next();
    else if (a == "--scale") o.scale = atof(next().c_str());
    else if (a == "--jobs") o.jobs = atoi(next().c_str());
    else if (a == "--list") o.list = true;
  }
  if (o.jobs < 1) o.jobs = 1;
  if (o.jobs > 64) o.jobs = 64;
  return o;
}

struct Failure {
  std::string where;   // short id: op/task
  std::string desc;    // human readable
  std::string replay;  // replay file body
};

// Per-shard result channel.
struct Shard {
  int index = 0, count = 1;
  FILE* out = nullptr;
  volatile uint64_t* progress = nullptr;  // shared; bump at least every few seconds
  char* cur = nullptr;                    // shared 4 KiB: description of the current case
  std::map<std::string, uint64_t> classes;
  uint64_t evals = 0, nontrivial = 0;
  size_t samples = 0, fails = 0;
  void Tick() { ++*progress; }
  void Sample(const std::string& s) { fprintf(out, "S %s\n", Flat(s).c_str()); ++samples; }
  void Fail(const Failure& f) {
    fprintf(out, "F %s\nD %s\n", Flat(f.where).c_str(), Flat(f.desc).c_str());
    size_t b = 0;
    while (b < f.replay.size()) {
      size_t e = f.replay.find('\n', b);
      if (e == std::string::npos) e = f.replay.size();
      fprintf(out, "R %s\n", f.replay.substr(b, e - b).c_str());
      b = e + 1;
    }
    fprintf(out, "E\n");
    fflush(out);
    ++fails;
  }
  static std::string Flat(std::string s) { for (char& c : s) if (c == '\n') c = ' '; return s; }
  void Finish() {
    fprintf(out, "N %llu %llu\n", (unsigned long long)evals, (unsigned long long)nontrivial);
    for (auto& kv : classes) fprintf(out, "C %llu %s\n", (unsigned long long)kv.second, kv.first.c_str());
    fprintf(out, "DONE\n");
    fflush(out);
  }
};

struct Report {
  Options opt;
  std::string level = "exploration", rule;
  std::vector<std::string> samples, assumptions, known;
  std::map<std::string, uint64_t> classes;
  std::map<std::string, std::string> extra;  // raw JSON values for coverage
  uint64_t evals = 0, nontrivial = 0;
  std::vector<Failure> fails;
  double t0 = Now();
  double hang_seconds = 150;
  bool error = false;

  explicit Report(const Options& o) : opt(o) {}

  // Runs fn in `jobs` forked shards.
  void RunSharded(int jobs, const std::function<void(Shard&)>& fn) {
    struct Sh { volatile uint64_t progress; char cur[16384]; };
    Sh* sh = static_cast<Sh*>(mmap(nullptr, sizeof(Sh) * size_t(jobs), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    std::vector<pid_t> pids(jobs);
    std::vector<FILE*> files(jobs);
    fflush(stdout); fflush(stderr);
    for (int j = 0; j < jobs; ++j) {
      files[j] = tmpfile();
      pids[j] = fork();
      if (pids[j] == 0) {
        Shard s; s.index = j; s.count = jobs; s.out = files[j]; s.progress = &sh[j].progress; s.cur = sh[j].cur;
        fn(s);
        s.Finish();
        _exit(0);
      }
    }
    std::vector<uint64_t> last(jobs, ~0ull);
    std::vector<double> since(jobs, Now());
    std::vector<int> status(jobs, -1);
    std::vector<bool> hung(jobs, false);
    int left = jobs;
    while (left) {
      usleep(20000);
      for (int j = 0; j < jobs; ++j) {
        if (status[j] != -1) continue;
        int st;
        pid_t r = waitpid(pids[j], &st, WNOHANG);
        if (r == pids[j]) { status[j] = st; --left; continue; }
        uint64_t p = sh[j].progress;
        if (p != last[j]) { last[j] = p; since[j] = Now(); }
        else if (Now() - since[j] > hang_seconds) { hung[j] = true; kill(pids[j], SIGKILL); }
      }
    }
    for (int j = 0; j < jobs; ++j) {
      FILE* f = files[j];
      rewind(f);
      std::string line; bool done = false; Failure cur; bool in = false;
      char* buf = nullptr; size_t cap = 0; ssize_t n;
      while ((n = getline(&buf, &cap, f)) > 0) {
        line.assign(buf, size_t(n)); if (!line.empty() && line.back() == '\n') line.pop_back();
        if (line.size() < 1) continue;
        std::string v = line.size() > 2 ? line.substr(2) : "";
        if (line == "DONE") done = true;
        else if (line == "E") { if (in) fails.push_back(cur); in = false; }
        else if (line[0] == 'S') samples.push_back(v);
        else if (line[0] == 'F') { cur = Failure(); cur.where = v; in = true; }
        else if (line[0] == 'D') cur.desc = v;
        else if (line[0] == 'R') cur.replay += v + "\n";
        else if (line[0] == 'N') { unsigned long long a = 0, b = 0; sscanf(v.c_str(), "%llu %llu", &a, &b); evals += a; nontrivial += b; }
        else if (line[0] == 'C') { char* e; unsigned long long a = strtoull(v.c_str(), &e, 10); while (*e == ' ') ++e; classes[e] += a; }
      }
      free(buf); fclose(f);
      if (!done) {
        Failure c; c.where = hung[j] ? "hang" : "crash";
        char b[128];
        if (hung[j]) snprintf(b, sizeof b, "no progress for %.0f s in: ", hang_seconds);
        else if (WIFSIGNALED(status[j])) snprintf(b, sizeof b, "worker killed by signal %d in: ", WTERMSIG(status[j]));
        else snprintf(b, sizeof b, "worker exited %d in: ", WEXITSTATUS(status[j]));
        sh[j].cur[sizeof(sh[j].cur) - 1] = 0;
        c.desc = std::string(b) + Shard::Flat(std::string(sh[j].cur).substr(0, 400));
        c.replay = std::string(sh[j].cur);
        if (sh[j].cur[0] == 0 || (WIFSIGNALED(status[j]) && WTERMSIG(status[j]) == SIGKILL && !hung[j])) { fprintf(stderr, "%s\n", c.desc.c_str()); error = true; }
        else fails.push_back(c);
      }
    }
    munmap(sh, sizeof(Sh) * size_t(jobs));
  }

  int Finish() {
    // Replays + verdict.
    std::string dir = opt.verif + "/replays";
    mkdir(dir.c_str(), 0755);
    size_t shown = 0;
    for (size_t i = 0; i < fails.size(); ++i) {
      char name[64]; snprintf(name, sizeof name, "/%s-%s-%zu.txt", opt.property.c_str(), opt.tier.c_str(), i);
      std::string path = dir + name;
      if (FILE* f = fopen(path.c_str(), "w")) {
        fprintf(f, "%s# %s\n# %s\n", fails[i].replay.c_str(), Shard::Flat(fails[i].where).c_str(), Shard::Flat(fails[i].desc).c_str());
        fclose(f);
      }
      if (shown++ < 40) {
        printf("FAIL %s: %s\n", fails[i].where.c_str(), fails[i].desc.c_str());
        printf("VIOLATION property=%s replay=%s\n", opt.property.c_str(), path.c_str());
      }
    }
    if (opt.only.empty()) WriteEvidence();
    for (auto& k : known) printf("KNOWN-FINDING: property=%s %s\n", opt.property.c_str(), k.c_str());
    printf("%s: tier=%s seed=%llu evaluations=%llu nontrivial=%llu failures=%zu wall=%.1fs\n", opt.property.c_str(), opt.tier.c_str(),
           (unsigned long long)opt.seed, (unsigned long long)evals, (unsigned long long)nontrivial, fails.size(), Now() - t0);
    fflush(stdout);
    if (!fails.empty()) return 1;
    if (error) return 2;
    return 0;
  }

  void WriteEvidence() {
    std::string dir = opt.verif + "/evidence";
    mkdir(dir.c_str(), 0755);
    std::string path = dir + "/" + opt.property + ".json", tmp = path + ".tmp";
    FILE* f = fopen(tmp.c_str(), "w");
    if (!f) { error = true; return; }
    fprintf(f, "{\n \"property\": %s,\n \"tier\": %s,\n \"seed\": %llu,\n \"level\": %s,\n", JsonEsc(opt.property).c_str(), JsonEsc(opt.tier).c_str(), (unsigned long long)opt.seed, JsonEsc(level).c_str());
    fprintf(f, " \"coverage\": {\n  \"evaluations\": %llu,\n  \"distinct_nontrivial\": %llu,\n  \"rule\": %s,\n  \"samples\": [", (unsigned long long)evals, (unsigned long long)nontrivial, JsonEsc(rule).c_str());
    // spread samples: pick up to 12 evenly
    size_t n = samples.size(), want = n < 12 ? n : 12;
    for (size_t i = 0; i < want; ++i) fprintf(f, "%s\n   %s", i ? "," : "", JsonEsc(samples[i * n / want]).c_str());
    fprintf(f, "\n  ]");
    if (!classes.empty()) {
      fprintf(f, ",\n  \"classes\": {");
      bool first = true;
      for (auto& kv : classes) { fprintf(f, "%s\n   %s: %llu", first ? "" : ",", JsonEsc(kv.first).c_str(), (unsigned long long)kv.second); first = false; }
      fprintf(f, "\n  }");
    }
    for (auto& kv : extra) fprintf(f, ",\n  %s: %s", JsonEsc(kv.first).c_str(), kv.second.c_str());
    fprintf(f, "\n },\n \"assumptions\": [");
    for (size_t i = 0; i < assumptions.size(); ++i) fprintf(f, "%s%s", i ? ", " : "", JsonEsc(assumptions[i]).c_str());
    fprintf(f, "],\n \"wall_s\": %.2f,\n \"violations\": %zu\n}\n", Now() - t0, fails.size());
    fclose(f);
    rename(tmp.c_str(), path.c_str());
  }
};

}  // namespace vf
#endif  // VFREPORT_H_
