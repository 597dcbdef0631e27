// Compiled once per (family, target): instantiates every op kernel for every
// lane type and power-of-two lane count.
// -DVF_FAMILY="\"...inc\"" -DVF_TARGET=HWY_AVX2
#include "hwy/detect_targets.h"
#ifndef VF_STATIC
#undef HWY_TARGET
#define HWY_TARGET VF_TARGET
#endif
#include "hwy/cache_control.h"
#include "hwy/highway.h"
#include "vfop.h"

#if HWY_TARGET != VF_TARGET
#error "wrong target"
#endif

HWY_BEFORE_NAMESPACE();
namespace vfk {
namespace HWY_NAMESPACE {
namespace hn = hwy::HWY_NAMESPACE;
using hwy::bfloat16_t;
using hwy::float16_t;
using hwy::MakeFloat;
using hwy::MakeNarrow;
using hwy::MakeSigned;
using hwy::MakeUnsigned;
using hwy::MakeWide;
using hn::CappedTag;
using hn::DFromV;
using hn::Half;
using hn::Rebind;
using hn::RebindToFloat;
using hn::RebindToSigned;
using hn::RebindToUnsigned;
using hn::Repartition;
using hn::RepartitionToNarrow;
using hn::RepartitionToWide;
using hn::RepartitionToWideX2;
using hn::RepartitionToWideX3;
using hn::ScalableTag;
using hn::Simd;
using hn::TFromD;
using hn::TFromV;
using hn::Twice;
using hn::Vec;
using hn::VFromD;
using hn::Zero;

template <typename T> constexpr vf::Ty TyOf() {
  return hwy::IsSame<T, float>() ? vf::F32 : hwy::IsSame<T, double>() ? vf::F64
       : hwy::IsSame<T, float16_t>() ? vf::F16 : hwy::IsSame<T, bfloat16_t>() ? vf::BF16
       : hwy::IsSigned<T>() ? (sizeof(T) == 1 ? vf::I8 : sizeof(T) == 2 ? vf::I16 : sizeof(T) == 4 ? vf::I32 : vf::I64)
       : (sizeof(T) == 1 ? vf::U8 : sizeof(T) == 2 ? vf::U16 : sizeof(T) == 4 ? vf::U32 : vf::U64);
}

template <class D> HWY_INLINE VFromD<D> Ld(D d, const void* p) {
  using T = TFromD<D>;
  const ScalableTag<T> df;  // full vector: upper lanes of partial d are garbage
  return hn::ResizeBitCast(d, hn::LoadU(df, static_cast<const T*>(p)));
}
template <class D> HWY_INLINE hn::Mask<D> LdM(D d, const void* p) {
  const RebindToUnsigned<D> du;
  return hn::RebindMask(d, hn::Ne(Ld(du, p), Zero(du)));
}
template <class D, class V> HWY_INLINE void St(D d, V v, void* p) {
  hn::StoreU(v, d, static_cast<TFromD<D>*>(p));
}
template <class D, class M> HWY_INLINE void StM(D d, M m, void* p) {
  const RebindToUnsigned<D> du;
  hn::StoreU(hn::VecFromMask(du, hn::RebindMask(du, m)), du, reinterpret_cast<TFromD<decltype(du)>*>(p));
}

template <typename... Ts> struct TL {};
template <typename A, typename B> struct TP { using T = A; using T2 = B; };
template <int... Ks> struct KL {};
template <typename X> struct PackOf { using T = X; using T2 = X; };
template <typename A, typename B> struct PackOf<TP<A, B>> { using T = A; using T2 = B; };
template <typename X, typename Y> struct Cat;
template <typename... A, typename... B> struct Cat<TL<A...>, TL<B...>> { using type = TL<A..., B...>; };

constexpr int kFlags = (HWY_NATIVE_FMA ? 1 : 0) | (HWY_MEM_OPS_MIGHT_FAULT ? 2 : 0);
constexpr size_t kVecBytes = hn::Lanes(ScalableTag<uint8_t>());
constexpr size_t kVecBytesFor(size_t s) { return HWY_TARGET == HWY_SCALAR ? s : kVecBytes; }

template <class K, typename T, typename T2, size_t N, int kI> HWY_INLINE void RegN() {
  constexpr size_t kBig = sizeof(T) > sizeof(T2) ? sizeof(T) : sizeof(T2);
  constexpr bool fits = HWY_TARGET == HWY_SCALAR ? N == 1 : N * kBig <= kVecBytes;
  if constexpr (fits) {
    using D = Simd<T, N, 0>;
    if constexpr (K::template Ok<T, T2, N, kI>()) {
      vf::Entry e;
      e.name = K::Name();
      e.t = TyOf<T>(); e.t2 = TyOf<T2>();
      e.n = N; e.k = kI; e.target = HWY_TARGET; e.flags = kFlags;
      e.full = static_cast<uint16_t>(kVecBytesFor(sizeof(T)));
      e.fn = &K::template Run<D, T2, kI>;
      vf::AddEntry(e);
    }
  }
}
template <class K, typename P, int kI> HWY_NOINLINE void RegT() {
  using T = typename PackOf<P>::T;
  using T2 = typename PackOf<P>::T2;
  RegN<K, T, T2, 1, kI>();
  RegN<K, T, T2, 2, kI>();
  RegN<K, T, T2, 4, kI>();
  RegN<K, T, T2, 8, kI>();
  RegN<K, T, T2, 16, kI>();
  RegN<K, T, T2, 32, kI>();
  RegN<K, T, T2, 64, kI>();
}
template <class K, int kI, typename... Ps> HWY_INLINE void RegL(TL<Ps...>) { (RegT<K, Ps, kI>(), ...); }
template <class K, class L, int... Ks> HWY_INLINE void RegK(L, KL<Ks...>) { (RegL<K, Ks>(L()), ...); }

// ---- type lists
using L_U = TL<uint8_t, uint16_t, uint32_t, uint64_t>;
using L_I = TL<int8_t, int16_t, int32_t, int64_t>;
using L_UI = TL<uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int64_t>;
using L_UI8 = TL<uint8_t, int8_t>;
using L_UI16 = TL<uint16_t, int16_t>;
using L_UI32 = TL<uint32_t, int32_t>;
using L_UI64 = TL<uint64_t, int64_t>;
using L_UI8_16 = TL<uint8_t, uint16_t, int8_t, int16_t>;
using L_UI163264 = TL<uint16_t, uint32_t, uint64_t, int16_t, int32_t, int64_t>;
using L_UI3264 = TL<uint32_t, uint64_t, int32_t, int64_t>;
using L_UI8_32 = TL<uint8_t, uint16_t, uint32_t, int8_t, int16_t, int32_t>;
#if HWY_HAVE_FLOAT16
using L_F = TL<float16_t, float, double>;
#else
using L_F = TL<float, double>;
#endif
using L_F3264 = TL<float, double>;
using L_F32 = TL<float>;
using L_F64 = TL<double>;
using L_SPECIAL = TL<float16_t, bfloat16_t>;  // storage only
using L_ALL = typename Cat<L_UI, L_F>::type;
using L_IF = typename Cat<L_I, L_F>::type;
#if HWY_HAVE_FLOAT16
using L_ALLS = typename Cat<L_ALL, TL<bfloat16_t>>::type;
#else
using L_ALLS = typename Cat<L_ALL, L_SPECIAL>::type;
#endif
using L_UIF3264 = TL<uint32_t, uint64_t, int32_t, int64_t, float, double>;
using L_U64 = TL<uint64_t>;
using L_U8 = TL<uint8_t>;
using L_I8 = TL<int8_t>;
using L_I16 = TL<int16_t>;
using L_U16 = TL<uint16_t>;
using L_I32 = TL<int32_t>;
using L_U32 = TL<uint32_t>;
using L_I64 = TL<int64_t>;

#define VF_UNP(...) __VA_ARGS__
#define VF_CAT2(a, b) a##b
#define VF_CAT(a, b) VF_CAT2(a, b)

// OPK(name, types, immediates, cond, spec, fix, kernel, oracle)
#define OPK(NAME, TYPES, KS, COND, SPEC, FIX, KERNEL, ORACLE)                      \
  struct K_##NAME {                                                                \
    static const char* Name() { return #NAME; }                                    \
    template <typename T, typename T2, size_t N, int K> static constexpr bool Ok() { return VF_UNP COND; } \
    template <class D, typename T2, int K>                                         \
    static HWY_NOINLINE void Run(const vf::In& in, vf::Out& out) {                 \
      const D d; using T = TFromD<D>; constexpr size_t N = HWY_MAX_LANES_D(D);     \
      using TU = hwy::MakeUnsigned<T>; (void)sizeof(TU);                           \
      const RebindToUnsigned<D> du; (void)du;                                      \
      (void)d; (void)N; (void)in; (void)out;                                       \
      VF_UNP KERNEL                                                                \
    }                                                                              \
    static void Reg() { RegK<K_##NAME>(VF_UNP TYPES (), KL<VF_UNP KS>()); }        \
  };                                                                               \
  static const vf::TargetRegistrar reg_##NAME(HWY_TARGET, &K_##NAME::Reg);

// Kernel-side shorthands
#define VA Ld(d, in.r[0])
#define VB Ld(d, in.r[1])
#define VC Ld(d, in.r[2])
#define VD Ld(d, in.r[3])
#define VX(dd, k) Ld(dd, in.r[k])
#define MK LdM(d, in.r[4])
#define MK2 LdM(d, in.r[5])
#define MX(dd, k) LdM(dd, in.r[k])
#define OUT(...) St(d, (__VA_ARGS__), out.r[0]);
#define PUT(k, dd, ...) St(dd, (__VA_ARGS__), out.r[k]);
#define OUTM(...) StM(d, (__VA_ARGS__), out.r[0]);
#define PUTM(k, dd, ...) StM(dd, (__VA_ARGS__), out.r[k]);
#define OUTS(k, ...) { const auto vf_s = (__VA_ARGS__); memcpy(out.r[k], &vf_s, sizeof(vf_s)); }
#define PI(k) in.p[k]
#define SCALAR_T (HWY_TARGET == HWY_SCALAR)
#define VF_KERNEL 1

#include VF_FAMILY

}  // namespace HWY_NAMESPACE
}  // namespace vfk
HWY_AFTER_NAMESPACE();
