// Oracle side of the op engine: plain scalar C++, no Highway headers at all.
#ifndef VFORACLE_H_
#define VFORACLE_H_
#include <math.h>

#include <algorithm>
#include <cfloat>
#include <cmath>
#include <limits>
#include <string>
#include <type_traits>
#include <vector>

#include "vfop.h"

// Target ids (documented bit positions of hwy/detect_targets.h).
#ifndef HWY_SSE2
#define HWY_AVX3_SPR (1LL << 4)
#define HWY_AVX3_ZEN4 (1LL << 6)
#define HWY_AVX3_DL (1LL << 7)
#define HWY_AVX3 (1LL << 8)
#define HWY_AVX2 (1LL << 9)
#define HWY_SSE4 (1LL << 11)
#define HWY_SSSE3 (1LL << 12)
#define HWY_SSE2 (1LL << 14)
#define HWY_EMU128 (1LL << 61)
#define HWY_SCALAR (1LL << 62)
#endif

namespace vfo {
using namespace vf;
typedef __int128 i128;
typedef unsigned __int128 u128;
struct float16_t { uint16_t bits; };
struct bfloat16_t { uint16_t bits; };

template <typename T> constexpr Ty TyOf() {
  return std::is_same<T, float>() ? F32 : std::is_same<T, double>() ? F64
       : std::is_same<T, float16_t>() ? F16 : std::is_same<T, bfloat16_t>() ? BF16
       : std::is_signed<T>() ? (sizeof(T) == 1 ? I8 : sizeof(T) == 2 ? I16 : sizeof(T) == 4 ? I32 : I64)
       : (sizeof(T) == 1 ? U8 : sizeof(T) == 2 ? U16 : sizeof(T) == 4 ? U32 : U64);
}
template <size_t S> struct BySize;
template <> struct BySize<1> { using U = uint8_t; using I = int8_t; using F = void; };
template <> struct BySize<2> { using U = uint16_t; using I = int16_t; using F = float16_t; };
template <> struct BySize<4> { using U = uint32_t; using I = int32_t; using F = float; };
template <> struct BySize<8> { using U = uint64_t; using I = int64_t; using F = double; };
template <> struct BySize<16> { using U = u128; using I = i128; using F = void; };
template <typename T> using MakeUnsigned = typename BySize<sizeof(T)>::U;
template <typename T> using MakeSigned = typename BySize<sizeof(T)>::I;
template <typename T> using MakeFloat = typename BySize<sizeof(T)>::F;
template <typename T> constexpr bool IsFloat() { return std::is_floating_point<T>() || std::is_same<T, float16_t>() || std::is_same<T, bfloat16_t>(); }
template <typename T> constexpr bool IsSigned() { return IsFloat<T>() || std::is_signed<T>(); }
template <typename T> constexpr bool IsSpecialFloat() { return std::is_same<T, float16_t>() || std::is_same<T, bfloat16_t>(); }
template <typename T, int kMul> struct Scale_ {
  static constexpr size_t S = kMul > 0 ? sizeof(T) * (kMul > 0 ? kMul : 1) : sizeof(T) / (kMul < 0 ? -kMul : 1);
  using type = std::conditional_t<std::is_same<T, bfloat16_t>::value && kMul == 2, float,
      std::conditional_t<IsFloat<T>(), typename BySize<S>::F,
      std::conditional_t<std::is_signed<T>::value, typename BySize<S>::I, typename BySize<S>::U>>>;
};
template <typename T> using MakeWide = typename Scale_<T, 2>::type;
template <typename T> using MakeNarrow = typename Scale_<T, -2>::type;

// ---- independent half / bfloat16 arithmetic (compiler's _Float16; bit code for bf16)
inline float F16ToF32(float16_t h) { _Float16 x; memcpy(&x, &h, 2); return (float)x; }
inline float16_t F32ToF16(float f) { _Float16 x = (_Float16)f; float16_t h; memcpy(&h, &x, 2); return h; }
inline float16_t F64ToF16(double f) { _Float16 x = (_Float16)f; float16_t h; memcpy(&h, &x, 2); return h; }
inline float BF16ToF32(bfloat16_t b) { uint32_t u = uint32_t(b.bits) << 16; float f; memcpy(&f, &u, 4); return f; }
inline bfloat16_t F32ToBF16(float f) {
  uint32_t u; memcpy(&u, &f, 4);
  bfloat16_t b;
  if (f != f) { b.bits = uint16_t((u >> 16) | 0x40); return b; }
  uint32_t lsb = (u >> 16) & 1;
  uint64_t r = uint64_t(u & 0x7FFFFFFFu) + 0x7FFFu + lsb;
  b.bits = uint16_t((r >> 16) | ((u >> 16) & 0x8000u));
  return b;
}
// Widen to an arithmetic type in which one op followed by Rnd is correctly rounded.
inline float W(float x) { return x; }
inline double W(double x) { return x; }
inline double W(float16_t x) { return F16ToF32(x); }
inline double W(bfloat16_t x) { return BF16ToF32(x); }
template <typename T, typename std::enable_if<std::is_integral<T>::value>::type* = nullptr> inline T W(T x) { return x; }
template <typename T, typename X> inline T Rnd(X x) {
  if constexpr (std::is_same<T, float16_t>()) return F64ToF16((double)x);
  else if constexpr (std::is_same<T, bfloat16_t>()) return F32ToBF16((float)x);
  else return (T)x;
}
template <typename T> inline MakeUnsigned<T> Bits(T x) { MakeUnsigned<T> u; memcpy(&u, &x, sizeof u); return u; }
template <typename T> inline T FromBits(MakeUnsigned<T> u) { T x; memcpy(&x, &u, sizeof u); return x; }
template <typename T> inline bool IsNan(T x) { if constexpr (IsFloat<T>()) { auto w = W(x); return w != w; } else return false; }
template <typename T> inline bool IsInfT(T x) { auto w = W(x); return w == w && (w - w) != (w - w); }
template <typename T> constexpr MakeUnsigned<T> SignBit() { return MakeUnsigned<T>(MakeUnsigned<T>(1) << (sizeof(T) * 8 - 1)); }
template <typename T> inline T FZero() { return FromBits<T>(0); }
template <typename T> inline T Lim(bool mx) { return mx ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min(); }
template <typename T> inline T Sat(i128 x) {
  const i128 lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
  return x < lo ? T(lo) : x > hi ? T(hi) : T(x);
}
template <typename T> inline int MantBits() { return std::is_same<T, double>() ? 52 : std::is_same<T, float>() ? 23 : std::is_same<T, float16_t>() ? 10 : 7; }
template <typename T> inline int ExpBias() { return std::is_same<T, double>() ? 1023 : std::is_same<T, float16_t>() ? 15 : 127; }

struct OpSpec {
  Ty type[6];
  int count[6];   // valid lanes per region; rest garbage
  int sweep = 0;  // 1: enumerate region a lanes; 2: enumerate (a,b) pairs (8-bit)
  int weight = 4; // relative number of random cases (4 = default)
  Ty mt;          // lane type of masks
  int mcount;
  bool mem = false;
  bool nogarbage = false;
};

enum Mode : uint8_t { kNone = 0, kExact = 1, kFlt = 2, kFltZ = 3 };  // kFltZ: +0 == -0
struct Exp {
  alignas(64) uint8_t r[4][128];
  alignas(64) uint8_t alt[4][128];
  uint8_t mode[4];
  bool has_alt[4], has_dc[4];
  uint8_t dc[4][128];
  Ty ty[4];
  uint16_t n[4];
};

struct Cx {
  const In& in;
  Out& got;
  const Entry& e;
  Exp& ex;
  bool m[128], m2[128];
  std::string fail;
  uint8_t* mem = nullptr;    // expected arena (starts as the initial contents)
  uint8_t* memdc = nullptr;  // nonzero: byte unspecified
  template <typename R> R MGet(int64_t off) const { R r; memcpy(&r, mem + off, sizeof r); return r; }
  template <typename R> void MPut(int64_t off, R r) { memcpy(mem + off, &r, sizeof r); }
  void MDC(int64_t off, size_t bytes) { for (size_t i = 0; i < bytes; ++i) if (off + int64_t(i) >= 0 && off + int64_t(i) < int64_t(kMem)) memdc[off + int64_t(i)] = 1; }
  Cx(const In& i, Out& g, const Entry& en, Exp& x) : in(i), got(g), e(en), ex(x) {}
  template <typename R> R* Res(int k, size_t n, Mode mode = kExact) {
    ex.mode[k] = mode; ex.ty[k] = TyOf<R>(); ex.n[k] = uint16_t(n);
    return reinterpret_cast<R*>(ex.r[k]);
  }
  template <typename R> R* Alt(int k) {
    if (!ex.has_alt[k]) { memcpy(ex.alt[k], ex.r[k], 128); ex.has_alt[k] = true; }
    return reinterpret_cast<R*>(ex.alt[k]);
  }
  void DC(int k, size_t i) {
    if (!ex.has_dc[k]) { memset(ex.dc[k], 0, 128); ex.has_dc[k] = true; }
    ex.dc[k][i] = 1;
  }
  template <typename R> const R* Got(int k) const { return reinterpret_cast<const R*>(got.r[k]); }
};

struct OracleEntry {
  const char* name;
  Ty t, t2;
  void (*spec)(OpSpec&, const Entry&);
  void (*fix)(In&, const Entry&, bool* m, bool* m2);
  void (*run)(Cx&);
};
void AddOracle(const OracleEntry& o);
struct OracleRegistrar { explicit OracleRegistrar(void (*fn)()) { fn(); } };

template <typename... Ts> struct TL {};
template <typename A, typename B> struct TP {};
template <int... Ks> struct KL {};
template <typename X> struct PackOf { using T = X; using T2 = X; };
template <typename A, typename B> struct PackOf<TP<A, B>> { using T = A; using T2 = B; };
template <typename X, typename Y> struct Cat;
template <typename... A, typename... B> struct Cat<TL<A...>, TL<B...>> { using type = TL<A..., B...>; };

using L_U = TL<uint8_t, uint16_t, uint32_t, uint64_t>;
using L_I = TL<int8_t, int16_t, int32_t, int64_t>;
using L_UI = TL<uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int64_t>;
using L_UI8 = TL<uint8_t, int8_t>;
using L_UI16 = TL<uint16_t, int16_t>;
using L_UI32 = TL<uint32_t, int32_t>;
using L_UI64 = TL<uint64_t, int64_t>;
using L_UI8_16 = TL<uint8_t, uint16_t, int8_t, int16_t>;
using L_UI163264 = TL<uint16_t, uint32_t, uint64_t, int16_t, int32_t, int64_t>;
using L_UI3264 = TL<uint32_t, uint64_t, int32_t, int64_t>;
using L_UI8_32 = TL<uint8_t, uint16_t, uint32_t, int8_t, int16_t, int32_t>;
using L_F = TL<float16_t, float, double>;
using L_F3264 = TL<float, double>;
using L_F32 = TL<float>;
using L_F64 = TL<double>;
using L_SPECIAL = TL<float16_t, bfloat16_t>;
using L_ALL = typename Cat<L_UI, L_F>::type;
using L_IF = typename Cat<L_I, L_F>::type;
using L_ALLS = typename Cat<L_ALL, TL<bfloat16_t>>::type;
using L_UIF3264 = TL<uint32_t, uint64_t, int32_t, int64_t, float, double>;
using L_U64 = TL<uint64_t>;
using L_U8 = TL<uint8_t>;
using L_I8 = TL<int8_t>;
using L_I16 = TL<int16_t>;
using L_U16 = TL<uint16_t>;
using L_I32 = TL<int32_t>;
using L_U32 = TL<uint32_t>;
using L_I64 = TL<int64_t>;

template <class O, typename P> void RegOT() {
  using T = typename PackOf<P>::T;
  using T2 = typename PackOf<P>::T2;
  OracleEntry o;
  o.name = O::Name(); o.t = TyOf<T>(); o.t2 = TyOf<T2>();
  o.spec = &O::template Spec<T, T2>;
  o.fix = &O::template Fix<T, T2>;
  o.run = &O::template Run<T, T2>;
  AddOracle(o);
}
template <class O, typename... Ps> void RegO(TL<Ps...>) { (RegOT<O, Ps>(), ...); }

#define VF_UNP(...) __VA_ARGS__
#define OPK(NAME, TYPES, KS, COND, SPEC, FIX, KERNEL, ORACLE)                            \
  struct O_##NAME {                                                                      \
    static const char* Name() { return #NAME; }                                          \
    template <typename T, typename T2> static void Spec(OpSpec& s, const Entry& e) {     \
      const size_t N = e.n; const int K = e.k; const int64_t target = e.target;          \
      using TU = MakeUnsigned<T>; (void)sizeof(TU);                                      \
      (void)s; (void)N; (void)K; (void)target; VF_UNP SPEC                               \
    }                                                                                    \
    template <typename T, typename T2> static void Fix(In& in, const Entry& e, bool* M, bool* M2) { \
      const size_t N = e.n; const int K = e.k; const int64_t target = e.target;          \
      using TU = MakeUnsigned<T>; (void)sizeof(TU);                                      \
      T* A = reinterpret_cast<T*>(in.r[0]); T* B = reinterpret_cast<T*>(in.r[1]);        \
      T* C = reinterpret_cast<T*>(in.r[2]); T* D = reinterpret_cast<T*>(in.r[3]);        \
      int64_t* P = in.p; (void)A; (void)B; (void)C; (void)D; (void)P; (void)N; (void)K;  \
      (void)M; (void)M2; (void)target; VF_UNP FIX                                        \
    }                                                                                    \
    template <typename T, typename T2> static void Run(Cx& cx) {                         \
      const In& in = cx.in; const Entry& e = cx.e;                                       \
      const size_t N = e.n; const int K = e.k; const int64_t target = e.target;          \
      using TU = MakeUnsigned<T>; (void)sizeof(TU); using TI = MakeSigned<T>; (void)sizeof(TI); \
      const T* A = reinterpret_cast<const T*>(in.r[0]); const T* B = reinterpret_cast<const T*>(in.r[1]); \
      const T* C = reinterpret_cast<const T*>(in.r[2]); const T* D = reinterpret_cast<const T*>(in.r[3]); \
      const bool* M = cx.m; const bool* M2 = cx.m2; const int64_t* P = in.p;             \
      (void)A; (void)B; (void)C; (void)D; (void)M; (void)M2; (void)P; (void)N; (void)K;  \
      (void)target; VF_UNP ORACLE                                                        \
    }                                                                                    \
    static void Reg() { RegO<O_##NAME>(VF_UNP TYPES ()); }                               \
  };                                                                                     \
  static const OracleRegistrar reg_##NAME(&O_##NAME::Reg);

// lane-wise oracle: expression over a,b,c,d (lane i), m, m2
#define LANES_(MODE, RT, ...)                                                    \
  { RT* R = cx.template Res<RT>(0, N, MODE);                                     \
    for (size_t i = 0; i < N; ++i) {                                             \
      const T a = A[i], b = B[i], c = C[i], d = D[i]; const bool m = M[i], m2 = M2[i]; \
      (void)a; (void)b; (void)c; (void)d; (void)m; (void)m2;                     \
      R[i] = (__VA_ARGS__); } }
#define LANE(...) LANES_(kExact, T, (T)(__VA_ARGS__))
#define LANEF(...) LANES_(kFlt, T, __VA_ARGS__)
#define LANEFZ(...) LANES_(kFltZ, T, __VA_ARGS__)
// second acceptable value per lane (after LANE*)
#define ALTL(...)                                                                \
  { T* R = cx.template Alt<T>(0);                                                \
    for (size_t i = 0; i < N; ++i) {                                             \
      const T a = A[i], b = B[i], c = C[i], d = D[i]; const bool m = M[i], m2 = M2[i]; \
      (void)a; (void)b; (void)c; (void)d; (void)m; (void)m2;                     \
      R[i] = (__VA_ARGS__); } }
#define DCL(...)                                                                 \
  { for (size_t i = 0; i < N; ++i) {                                             \
      const T a = A[i], b = B[i], c = C[i], d = D[i]; const bool m = M[i], m2 = M2[i]; \
      (void)a; (void)b; (void)c; (void)d; (void)m; (void)m2;                     \
      if (__VA_ARGS__) cx.DC(0, i); } }
// mask result (all ones / zero lanes) in region 0
#define LANEM(...) LANES_(kExact, TU, (__VA_ARGS__) ? TU(~TU(0)) : TU(0))
#define SCALAR_T (target == HWY_SCALAR)
#define VF_ORACLE 1
}  // namespace vfo
#endif  // VFORACLE_H_
