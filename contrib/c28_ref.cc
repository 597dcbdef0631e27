#include "c28.h"
#include <stdlib.h>
#include <string.h>
#include <vector>
namespace c28 {
uint64_t SplitMix(uint64_t seed, uint64_t i) {
  uint64_t z = seed + i * 0x9E3779B97F4A7C15ull;
  z ^= z >> 30; z *= 0xBF58476D1CE4E5B9ull;
  z ^= z >> 27; z *= 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
State FromSeed(uint64_t seed) { State r; for (uint64_t i = 0; i < 4; ++i) r.s[i] = SplitMix(seed, i + 1); return r; }
static uint64_t Rot(uint64_t x, unsigned k) { return (x << k) | (x >> (64 - k)); }
uint64_t Next(State& x) {
  // Blackman & Vigna, xoshiro256++ 1.0
  const uint64_t r = Rot(x.s[0] + x.s[3], 23) + x.s[0];
  const uint64_t t = x.s[1] << 17;
  x.s[2] ^= x.s[0]; x.s[3] ^= x.s[1]; x.s[1] ^= x.s[2]; x.s[0] ^= x.s[3];
  x.s[2] ^= t;
  x.s[3] = Rot(x.s[3], 45);
  return r;
}
// The state transition is linear over GF(2): jumps are powers of its matrix.
struct Mat { State col[256]; };  // image of each basis vector
static State Apply(const Mat& m, const State& v) {
  State r = {{0, 0, 0, 0}};
  for (int i = 0; i < 256; ++i)
    if ((v.s[i / 64] >> (i % 64)) & 1) for (int k = 0; k < 4; ++k) r.s[k] ^= m.col[i].s[k];
  return r;
}
static const Mat& Power(int log2) {
  static Mat p128, p192;
  static bool init = false;
  if (!init) {
    init = true;
    Mat m;
    for (int i = 0; i < 256; ++i) { State b = {{0, 0, 0, 0}}; b.s[i / 64] = 1ull << (i % 64); Next(b); m.col[i] = b; }
    for (int k = 1; k <= 192; ++k) {
      Mat q;
      for (int i = 0; i < 256; ++i) q.col[i] = Apply(m, m.col[i]);
      m = q;
      if (k == 128) p128 = m;
    }
    p192 = m;
  }
  return log2 == 128 ? p128 : p192;
}
State Jump(const State& s) { return Apply(Power(128), s); }
State LongJump(const State& s) { return Apply(Power(192), s); }

struct Blk { char* p; size_t size; };
static bool g_track = false;
static std::vector<Blk> g_blocks;
static constexpr size_t kTail = 512, kAlign = 8192;
void TrackAllocations(bool on) { if (on) g_blocks.clear(); g_track = on; }
std::string CheckAllocations() {
  for (const Blk& b : g_blocks)
    for (size_t i = 0; i < kTail; ++i)
      if (b.p[b.size + i] != 0x5A) return "wrote " + std::to_string(i) + " bytes beyond the end of an allocation of " + std::to_string(b.size) + " bytes";
  return "";
}
}  // namespace c28
extern "C" {
void* __real_malloc(size_t);
// Aligned to more than AlignedVector needs, so that the payload ends exactly
// at the end of the block, followed by canaries.
void* __wrap_malloc(size_t n) {
  if (!c28::g_track || n < 128) return __real_malloc(n);
  c28::g_track = false;
  void* p = nullptr;
  if (posix_memalign(&p, c28::kAlign, n + c28::kTail) != 0) abort();
  memset(static_cast<char*>(p) + n, 0x5A, c28::kTail);
  c28::g_blocks.push_back(c28::Blk{static_cast<char*>(p), n});
  c28::g_track = true;
  return p;
}
}
