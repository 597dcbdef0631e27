// Choice-sequence property-based testing engine: tasks draw every random
// decision from a Src; a failing case is shrunk on its choice sequence and
// written as a replay file.
#ifndef VF_H_
#define VF_H_
#include <math.h>
#include <setjmp.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/syscall.h>

#include <algorithm>
#include <functional>
#include <string>
#include <vector>

#include "vfreport.h"

namespace vf {

struct Failed { std::string msg; };
struct Discard {};

class Src {
 public:
  Src(uint64_t seed, uint64_t index) : rng_(seed), index_(index) {}
  explicit Src(std::vector<uint64_t> pre) : rng_(0), pre_(std::move(pre)), replay_(true) {}

  // Uniform in [0, n); 0 is the simplest.
  uint64_t Below(uint64_t n) {
    if (n <= 1) { Rec(0); return 0; }
    return Rec(replay_ ? Clamp(Pre(), n) : rng_.Below(n));
  }
  uint64_t Bits(int bits = 64) {
    const uint64_t m = bits >= 64 ? ~0ull : (1ull << bits) - 1;
    return Rec((replay_ ? Pre() : rng_()) & m);
  }
  // Enumerates: case i of the task gets i % n.
  uint64_t Enum(uint64_t n) { return Rec(replay_ ? Clamp(Pre(), n) : index_ % n); }
  bool Bool() { return Below(2) != 0; }
  bool Chance(uint64_t num, uint64_t den) {
    // true is the "special" branch: recorded as nonzero
    if (replay_) return Rec(Pre() ? 1 : 0) != 0;
    return Rec(rng_.Below(den) < num ? 1 : 0) != 0;
  }
  int64_t Range(int64_t lo, int64_t hi) { return int64_t(uint64_t(lo) + Below(uint64_t(hi) - uint64_t(lo) + 1)); }
  template <class T> const T& Pick(const std::vector<T>& v) { return v[Below(v.size())]; }
  // Integer of `bits` bits with a mix of magnitudes and boundary values.
  uint64_t Int(int bits = 64) {
    const uint64_t m = bits >= 64 ? ~0ull : (1ull << bits) - 1;
    switch (Below(6)) {
      case 0: return Below(17) & m;
      case 1: return Bits(bits);
      case 2: { const int k = int(Below(uint64_t(bits))); return ((1ull << k) + Below(7) - 3) & m; }
      case 3: return (m - Below(9)) & m;
      case 4: { const int k = int(Below(uint64_t(bits))); return Bits(bits) >> k; }
      default: { const int k = int(Below(uint64_t(bits))); const int j = int(Below(uint64_t(bits)));
        return (((1ull << k) - 1) ^ ((1ull << j) - 1)) & m; }
    }
  }
  // Length biased to small values and values near multiples of `unit`.
  size_t Len(size_t max, size_t unit = 16) {
    size_t r;
    switch (Below(4)) {
      case 0: r = size_t(Below(std::min<size_t>(max, 2 * unit) + 1)); break;
      case 1: r = size_t(Below(max / (unit ? unit : 1) + 1)) * unit + size_t(Below(5)); r = r < 2 ? 0 : r - 2; break;
      case 2: r = size_t(Below(max + 1)) >> Below(6); break;
      default: r = size_t(Below(max + 1)); break;
    }
    return std::min(r, max);
  }
  Rng Sub() { return Rng(Bits(32)); }

  const std::vector<uint64_t>& Choices() const { return rec_; }

 private:
  static uint64_t Clamp(uint64_t v, uint64_t n) { return v < n ? v : n - 1; }
  uint64_t Pre() { return pos_ < pre_.size() ? pre_[pos_++] : 0; }
  uint64_t Rec(uint64_t v) {
    if (rec_.size() < 1000000) rec_.push_back(v);
    return v;
  }
  Rng rng_;
  uint64_t index_ = 0;
  std::vector<uint64_t> pre_, rec_;
  size_t pos_ = 0;
  bool replay_ = false;
};

inline std::string Fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string Fmt(const char* f, ...) {
  char b[4096]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b;
}
#define VF_FAIL(...) throw ::vf::Failed{::vf::Fmt(__VA_ARGS__)}
#define VF_CHECK(cond, ...) do { if (!(cond)) throw ::vf::Failed{::vf::Fmt(__VA_ARGS__)}; } while (0)

struct Ctx {
  Src& s;
  bool thorough = false;
  bool describe = false;
  std::string desc;
  uint64_t evals = 1;       // checks decided in this case
  bool nontrivial = true;   // by the task's rule
  const char* cls = nullptr;
  bool last_of_replay = false;
  explicit Ctx(Src& src) : s(src) {}
  template <class F> void Desc(const F& f) { if (describe) desc += f(); }
};

// Whether known_findings.txt has the line "known: property=<this> <id> ...".
bool KnownListed(const char* id);

struct Task {
  const char* name;
  uint64_t quick, thorough;  // number of cases
  void (*fn)(Src&, Ctx&);
  unsigned flags;  // 1: nondeterministic (threads): no confirmation by re-run
  int64_t target;  // 0 = none
};
enum { kNondet = 1, kSingle = 2 /* run only in shard 0 */,
       kThreads = 4 /* other threads run: a signal ends the shard instead of unwinding */ };
std::vector<Task>& Tasks();
struct TaskReg {
  TaskReg(const char* name, uint64_t q, uint64_t t, void (*fn)(Src&, Ctx&), unsigned flags = 0, int64_t target = 0) {
    Tasks().push_back(Task{name, q, t, fn, flags, target});
  }
};
#ifndef VF_PREFIX
#define VF_PREFIX ""
#endif
#define VF_TASK(NAME, QUICK, THOROUGH, ...)                                      \
  static void VfTask_##NAME(::vf::Src& s, ::vf::Ctx& cx);                        \
  static const ::vf::TaskReg vf_reg_##NAME(VF_PREFIX #NAME, QUICK, THOROUGH, &VfTask_##NAME, ##__VA_ARGS__); \
  static void VfTask_##NAME(::vf::Src& s, ::vf::Ctx& cx)
// Register one (possibly templated) function under a computed name.
#define VF_REG(NAME, QUICK, THOROUGH, FN, ...) \
  static const ::vf::TaskReg VF_UNIQ(vf_reg_)(NAME, QUICK, THOROUGH, FN, ##__VA_ARGS__);
#define VF_UNIQ2(a, b) a##b
#define VF_UNIQ1(a, b) VF_UNIQ2(a, b)
#define VF_UNIQ(a) VF_UNIQ1(a, __COUNTER__)

// Memory region with inaccessible pages on both sides; the bytes around the
// placed array hold a canary.
class Guarded {
 public:
  static constexpr size_t kPage = 4096;
  static constexpr uint8_t kFill = 0xC5;
  ~Guarded() { if (base_) munmap(base_, total_); }
  Guarded() {}
  Guarded(const Guarded&) = delete;
  Guarded& operator=(const Guarded&) = delete;
  // Returns address of `bytes` bytes; at_end: flush against the upper guard
  // page, otherwise `offset` bytes after the lower guard page.
  void* Place(size_t bytes, bool at_end, size_t offset = 0, size_t align_down = 1) {
    const size_t need = ((bytes + offset + align_down + kPage - 1) / kPage + 1) * kPage;
    if (need > cap_) {
      if (base_) munmap(base_, total_);
      cap_ = need; total_ = need + 2 * kPage;
      base_ = static_cast<uint8_t*>(mmap(nullptr, total_, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
      if (base_ == MAP_FAILED) { perror("mmap"); _exit(3); }
      mprotect(base_ + kPage, cap_, PROT_READ | PROT_WRITE);
      lo_ = base_ + kPage; hi_ = lo_ + cap_;
      memset(lo_, kFill, cap_);
      dirty_ = false;
    }
    if (dirty_) {  // restore the previous window
      memset(win_lo_, kFill, size_t(win_hi_ - win_lo_));
    }
    if (at_end) { p_ = hi_ - bytes; p_ -= reinterpret_cast<uintptr_t>(p_) % align_down; }
    else p_ = lo_ + offset;
    n_ = bytes;
    win_lo_ = p_; win_hi_ = p_ + n_; dirty_ = true;
    return p_;
  }
  template <class T> T* Arr(Src& s, size_t n, size_t max_misalign_elems = 64) {
    const bool end = s.Bool();
    const size_t off = end ? 0 : size_t(s.Below(max_misalign_elems + 1)) * sizeof(T);
    return static_cast<T*>(Place(n * sizeof(T), end, off));
  }
  // Offset (relative to the array) of a damaged canary byte, or INT64_MIN.
  int64_t Damaged() const {
    const size_t kNear = 2 * kPage;
    const uint8_t* b = size_t(p_ - lo_) > kNear ? p_ - kNear : lo_;
    const uint8_t* e = size_t(hi_ - (p_ + n_)) > kNear ? p_ + n_ + kNear : hi_;
    for (const uint8_t* q = b; q < p_; ++q) if (*q != kFill) { Repair(b, e); return q - p_; }
    for (const uint8_t* q = p_ + n_; q < e; ++q) if (*q != kFill) { Repair(b, e); return q - p_; }
    return INT64_MIN;
  }
  void Check(const char* what) const {
    const int64_t d = Damaged();
    if (d != INT64_MIN) VF_FAIL("%s: byte at offset %lld outside the %zu-byte array was overwritten", what, (long long)d, n_);
  }

 private:
  void Repair(const uint8_t* b, const uint8_t* e) const {
    memset(const_cast<uint8_t*>(b), kFill, size_t(p_ - b));
    memset(p_ + n_, kFill, size_t(e - (p_ + n_)));
  }
  uint8_t *base_ = nullptr, *lo_ = nullptr, *hi_ = nullptr, *p_ = nullptr, *win_lo_ = nullptr, *win_hi_ = nullptr;
  size_t cap_ = 0, total_ = 0, n_ = 0;
  bool dirty_ = false;
};

std::string& AbortMessage();      // text captured by the abort handler
bool TargetUsable(int64_t target);  // CPU supports it
const Options& Opt();

}  // namespace vf
#endif  // VF_H_
