// Shared (target-independent) declarations of the vector-op property engine.
// No Highway op headers here: kernels (per target) and oracles (plain scalar
// C++) both include this.
#ifndef VFOP_H_
#define VFOP_H_
#include <stddef.h>
#include <stdint.h>
#include <string.h>

namespace vf {

enum Ty : uint8_t { U8, U16, U32, U64, I8, I16, I32, I64, F16, BF16, F32, F64, TyNone };
inline size_t TySize(Ty t) {
  static const uint8_t kS[] = {1, 2, 4, 8, 1, 2, 4, 8, 2, 2, 4, 8, 0};
  return kS[t];
}
inline bool TyFloat(Ty t) { return t >= F16 && t <= F64; }
inline bool TySigned(Ty t) { return t >= I8 && t <= I64; }
inline const char* TyName(Ty t) {
  static const char* kN[] = {"u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "f16", "bf16", "f32", "f64", "?"};
  return kN[t];
}

constexpr size_t kRegions = 6;    // 0..2 = a,b,c  3 = d  4 = mask  5 = mask2
constexpr size_t kOutRegions = 4;
constexpr size_t kOutBytes = 192;
constexpr size_t kMem = 4096;     // bytes of accessible arena between guard pages

struct In {
  alignas(64) uint8_t r[kRegions][64];
  int64_t p[4];
};
struct Out {
  alignas(64) uint8_t r[kOutRegions][kOutBytes];
  uint8_t* mem;  // guarded arena (mem family), else nullptr
};

typedef void (*KernelFn)(const In&, Out&);

struct Entry {
  const char* name;
  Ty t, t2;
  uint16_t n;   // lanes of main vector
  int k;        // compile-time immediate (or 0)
  int64_t target;
  int flags;    // 1 = native FMA, 2 = mem ops may fault (HWY_MEM_OPS_MIGHT_FAULT)
  uint16_t full;  // bytes of a full vector for this target
  KernelFn fn;
};

// ---- placement inside the guarded arena (shared by kernel and oracle)
inline uint64_t PMix(int64_t p) {
  uint64_t z = uint64_t(p) + 0x9E3779B97F4A7C15ull;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
// Offset of `need` accessible bytes: flush with the end guard, flush with the
// start guard, or anywhere, at a multiple of `align`.
inline int64_t PlaceOff(int64_t p, size_t need, size_t align) {
  const uint64_t u = PMix(p);
  const size_t slack = kMem - need;
  size_t off = (u & 3) < 2 ? slack : (u & 3) == 2 ? 0 : size_t((u >> 8) % (slack + 1));
  return int64_t(off - off % align);
}
// As above, but only the lanes set in `mask` (N lanes of sz bytes, 0xFF = set)
// are inside the arena; the others may be in a guard page.
inline int64_t PlaceMasked(int64_t p, const uint8_t* mask, size_t n, size_t sz, bool whole) {
  size_t lo = n, hi = 0;
  for (size_t i = 0; i < n; ++i) if (mask[i * sz]) { if (lo == n) lo = i; hi = i + 1; }
  if (whole) { lo = 0; hi = n; }
  if (hi == 0) { const uint64_t u = PMix(p); return (u & 1) ? int64_t(kMem) : -int64_t(n * sz); }
  return PlaceOff(p, (hi - lo) * sz, sz) - int64_t(lo * sz);
}
inline size_t MinSz(size_t a, size_t b) { return a < b ? a : b; }

// Implemented by the driver.
void AddEntry(const Entry& e);
typedef void (*RegisterFn)();
struct TargetRegistrar {
  TargetRegistrar(int64_t target, RegisterFn fn);
};

}  // namespace vf
#endif  // VFOP_H_
