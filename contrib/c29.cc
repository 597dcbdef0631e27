// C29: hwy/contrib/bit_pack.
#include "hwy/detect_targets.h"
#undef HWY_TARGET
#define HWY_TARGET VF_TARGET
#include <string.h>
#include "hwy/contrib/bit_pack/bit_pack-inl.h"
#include "hwy/highway.h"
#include "vf.h"
HWY_BEFORE_NAMESPACE();
namespace hwy {
namespace HWY_NAMESPACE {
namespace {
using vf::Ctx;
using vf::Src;
inline vf::Guarded& G(int i) { static vf::Guarded g[4]; return g[i]; }
constexpr const char* kNames[4] = {"raw lanes", "packed lanes", "output", "packed lanes"};
inline int Pop(const void* p, size_t bytes) {
  const uint8_t* b = static_cast<const uint8_t*>(p);
  int n = 0;
  for (size_t i = 0; i < bytes; ++i) n += __builtin_popcount(b[i]);
  return n;
}

// FoR: subtract/add a frame of reference (32/64-bit only).
template <class P, bool kFoR, class D, class T> HWY_INLINE void DoPack(D d, const T* raw, T* packed, T ref) {
  if constexpr (kFoR) P().template Pack<D, BlockPackingType::kFoRBitPacked>(d, raw, packed, ref);
  else { (void)ref; P().Pack(d, raw, packed); }
}
template <class P, bool kFoR, class D, class T> HWY_INLINE void DoUnpack(D d, const T* packed, T* raw, T ref) {
  if constexpr (kFoR) P().template Unpack<D, BlockPackingType::kFoRBitPacked>(d, packed, raw, ref);
  else { (void)ref; P().Unpack(d, packed, raw); }
}

template <class P, bool kFoR, class D, class T> HWY_NOINLINE void PackFn(const T* raw, T* packed, T ref) { DoPack<P, kFoR>(D(), raw, packed, ref); }
template <class P, bool kFoR, class D, class T> HWY_NOINLINE void UnpackFn(const T* packed, T* raw, T ref) { DoUnpack<P, kFoR>(D(), packed, raw, ref); }
template <class T> HWY_NOINLINE void CheckT(void (*pack)(const T*, T*, T), void (*unpack)(const T*, T*, T), const size_t N, const size_t kBits, const bool kFoR, Src& s, Ctx& cx) {
  constexpr size_t kB = sizeof(T) * 8;
  const size_t nr = kB * N, np = kBits * N;
  const T mask = T(kBits >= kB ? ~T(0) : T((uint64_t(1) << kBits) - 1));
  const T ref = kFoR ? T(s.Int(int(kB))) : T(0);
  T* raw = G(0).Arr<T>(s, nr);
  T* packed = G(1).Arr<T>(s, np);
  T* back = G(2).Arr<T>(s, nr);
  T* other = G(3).Arr<T>(s, np);
  const int mode = int(s.Below(6));
  vf::Rng r = s.Sub();
  cx.evals = 1;
  cx.nontrivial = true;
  cx.Desc([&] { return vf::Fmt("%zu of %zu bits, %zu lanes, mode %d, reference %llx", kBits, kB, N, mode, (unsigned long long)ref); });
  if (mode == 5) {
    // Unpacking any bits yields lanes within the width, which pack to the same bits.
    for (size_t i = 0; i < np; ++i) packed[i] = T(r());
    unpack(packed, raw, ref);
    G(0).Check(kNames[0]); G(1).Check(kNames[1]);
    for (size_t i = 0; i < nr; ++i) VF_CHECK(T(raw[i] - ref) <= mask, "unpacked lane %zu of vector %zu = %llx exceeds %zu bits", i % N, i / N, (unsigned long long)T(raw[i] - ref), kBits);
    pack(raw, other, ref);
    G(3).Check(kNames[3]); G(0).Check(kNames[0]);
    for (size_t i = 0; i < np; ++i) VF_CHECK(other[i] == packed[i], "Pack(Unpack(x)) differs: packed lane %zu of vector %zu = %llx, was %llx", i % N, i / N, (unsigned long long)other[i], (unsigned long long)packed[i]);
    return;
  }
  const size_t hot = size_t(s.Below(nr));
  const T hot_val = mode == 1 ? T(T(1) << s.Below(kBits)) : T(s.Bits(64) & mask);
  for (size_t i = 0; i < nr; ++i) {
    T v = 0;
    switch (mode) {
      case 0: v = T(r()); break;
      case 1: case 2: v = i == hot ? hot_val : T(0); break;
      case 3: v = i == hot ? hot_val : mask; break;
      default: { const uint64_t k = r.Below(4); v = k == 0 ? T(0) : k == 1 ? mask : k == 2 ? T(1) : T(T(1) << (kBits - 1)); break; }
    }
    raw[i] = T((v & mask) + ref);
  }
  for (size_t i = 0; i < np; ++i) packed[i] = T(r());
  for (size_t i = 0; i < nr; ++i) back[i] = T(r());
  pack(raw, packed, ref);
  G(0).Check(kNames[0]); G(1).Check(kNames[1]);
  // Every bit of every lane is there once.
  int want = 0;
  for (size_t i = 0; i < nr; ++i) { const T v = T(raw[i] - ref); want += Pop(&v, sizeof v); }
  const int got = Pop(packed, np * sizeof(T));
  VF_CHECK(got == want, "%d bits set in the packed lanes, %d in the raw lanes", got, want);
  memcpy(other, packed, np * sizeof(T));
  unpack(packed, back, ref);
  G(2).Check(kNames[2]); G(1).Check(kNames[1]);
  VF_CHECK(memcmp(other, packed, np * sizeof(T)) == 0, "Unpack changed its input");
  for (size_t i = 0; i < nr; ++i)
    VF_CHECK(back[i] == raw[i], "lane %zu of vector %zu: %llx, packed was %llx", i % N, i / N, (unsigned long long)back[i], (unsigned long long)raw[i]);
  if (mode == 0) {
    // Packing is linear: the xor of two sets of lanes packs to the xor.
    if (!kFoR) {
      for (size_t i = 0; i < nr; ++i) back[i] = T(T(r()) & mask);
      pack(back, other, ref);
      for (size_t i = 0; i < nr; ++i) back[i] = T(back[i] ^ raw[i]);
      for (size_t i = 0; i < np; ++i) packed[i] = T(packed[i] ^ other[i]);
      pack(back, other, ref);
      for (size_t i = 0; i < np; ++i) VF_CHECK(other[i] == packed[i], "Pack(a^b) != Pack(a)^Pack(b) in packed lane %zu of vector %zu", i % N, i / N);
    }
  }
}
template <class P, size_t kBits, class T, bool kFoR, class D> void Check(D d, Src& s, Ctx& cx) {
  CheckT<T>(&PackFn<P, kFoR, D, T>, &UnpackFn<P, kFoR, D, T>, Lanes(d), kBits, kFoR, s, cx);
}
template <class P, size_t kBits, class T, bool kFoR> void Sizes(Src& s, Ctx& cx) {
  constexpr size_t kMax = HWY_LANES(T);
  switch (s.Below(4)) {
    case 0: if (kMax > 2) { Check<P, kBits, T, kFoR>(CappedTag<T, 2>(), s, cx); break; } [[fallthrough]];
    case 1: if (kMax > 4 && kMax / 2 > 2) { Check<P, kBits, T, kFoR>(CappedTag<T, (kMax > 4 ? kMax / 2 : kMax)>(), s, cx); break; } [[fallthrough]];
    default: Check<P, kBits, T, kFoR>(ScalableTag<T>(), s, cx); break;
  }
}
#define REG(P, BITS, T, N) VF_REG(VF_PREFIX #P "<" #BITS ">", N, N * 15, (&Sizes<P<BITS>, BITS, T, false>), 0, HWY_TARGET)
#define REGF(P, BITS, T, N) REG(P, BITS, T, N) VF_REG(VF_PREFIX #P "<" #BITS ">FoR", N, N * 15, (&Sizes<P<BITS>, BITS, T, true>), 0, HWY_TARGET)
#define R8(P, T, B1, B2, B3, B4, B5, B6, B7, B8, M, N) M(P, B1, T, N) M(P, B2, T, N) M(P, B3, T, N) M(P, B4, T, N) M(P, B5, T, N) M(P, B6, T, N) M(P, B7, T, N) M(P, B8, T, N)
#if VF_PART == 0
R8(Pack8, uint8_t, 1, 2, 3, 4, 5, 6, 7, 8, REG, 2000)
R8(Pack16, uint16_t, 1, 2, 3, 4, 5, 6, 7, 8, REG, 1600)
R8(Pack16, uint16_t, 9, 10, 11, 12, 13, 14, 15, 16, REG, 1600)
#elif VF_PART == 1
R8(Pack32, uint32_t, 1, 2, 3, 4, 5, 6, 7, 8, REGF, 1000)
R8(Pack32, uint32_t, 9, 10, 11, 12, 13, 14, 15, 16, REGF, 1000)
R8(Pack32, uint32_t, 17, 18, 19, 20, 21, 22, 23, 24, REGF, 1000)
R8(Pack32, uint32_t, 25, 26, 27, 28, 29, 30, 31, 32, REGF, 1000)
#elif VF_PART == 2
R8(Pack64, uint64_t, 1, 2, 3, 4, 5, 6, 7, 8, REGF, 500)
R8(Pack64, uint64_t, 9, 10, 11, 12, 13, 14, 15, 16, REGF, 500)
R8(Pack64, uint64_t, 17, 18, 19, 20, 21, 22, 23, 24, REGF, 500)
R8(Pack64, uint64_t, 25, 26, 27, 28, 29, 30, 31, 32, REGF, 500)
#else
R8(Pack64, uint64_t, 33, 34, 35, 36, 37, 38, 39, 40, REGF, 500)
R8(Pack64, uint64_t, 41, 42, 43, 44, 45, 46, 47, 48, REGF, 500)
R8(Pack64, uint64_t, 49, 50, 51, 52, 53, 54, 55, 56, REGF, 500)
R8(Pack64, uint64_t, 57, 58, 59, 60, 61, 62, 63, 64, REGF, 500)
#endif
}  // namespace
}  // namespace HWY_NAMESPACE
}  // namespace hwy
HWY_AFTER_NAMESPACE();
