// Helpers for oracles (scalar reference model).
#ifndef VFMODEL_H_
#define VFMODEL_H_
#include "vforacle.h"
namespace vfo {
template <typename T> inline T AddT(T a, T b) { if constexpr (IsFloat<T>()) return Rnd<T>(W(a) + W(b)); else return T(MakeUnsigned<T>(a) + MakeUnsigned<T>(b)); }
template <typename T> inline T SubT(T a, T b) { if constexpr (IsFloat<T>()) return Rnd<T>(W(a) - W(b)); else return T(MakeUnsigned<T>(a) - MakeUnsigned<T>(b)); }
template <typename T> inline T MulT(T a, T b) { if constexpr (IsFloat<T>()) return Rnd<T>(W(a) * W(b)); else return T((u128)(i128)a * (u128)(i128)b); }
template <typename T> inline T NegT(T a) { if constexpr (IsFloat<T>()) return FromBits<T>(Bits(a) ^ SignBit<T>()); else return T(MakeUnsigned<T>(0) - MakeUnsigned<T>(a)); }
template <typename T> inline T AbsT(T a) { if constexpr (IsFloat<T>()) return FromBits<T>(Bits(a) & MakeUnsigned<T>(~SignBit<T>())); else return a < 0 ? NegT(a) : a; }
template <typename T> inline bool LtT(T a, T b) { return W(a) < W(b); }
template <typename T> inline bool EqT(T a, T b) { return W(a) == W(b); }
template <typename T> inline bool IsZero(T a) { return W(a) == 0; }
template <typename T> inline T DivF(T a, T b) { return Rnd<T>(W(a) / W(b)); }
template <typename T> inline T SqrtF(T a) { return Rnd<T>(std::sqrt(W(a))); }
// fused and unfused a*b+c
template <typename T> inline T FmaF(T a, T b, T c) {
  if constexpr (std::is_same<T, float16_t>()) {
    _Float16 x, y, z; memcpy(&x, &a, 2); memcpy(&y, &b, 2); memcpy(&z, &c, 2);
    const double p = (double)x * (double)y;  // exact
    if (!(std::isfinite(p) && std::isfinite((double)z))) return Rnd<T>(p + (double)z);
    const __float128 s = (__float128)p + (__float128)(double)z;  // exact
    if (s == 0) return Rnd<T>(p + (double)z);
    _Float16 r = (_Float16)s; T t; memcpy(&t, &r, 2); return t;
  } else return std::fma(a, b, c);
}
template <typename T> inline T MulAddF(T a, T b, T c) { return AddT(MulT(a, b), c); }
template <typename T> inline T MulAddAny(T a, T b, T c) { if constexpr (IsFloat<T>()) return FmaF(a, b, c); else return AddT(MulT(a, b), c); }
// 0 round-half-even 1 trunc 2 ceil 3 floor
template <typename T> inline T RoundF(T a, int how) {
  auto w = W(a);
  auto r = how == 0 ? std::nearbyint(w) : how == 1 ? std::trunc(w) : how == 2 ? std::ceil(w) : std::floor(w);
  return Rnd<T>(r);
}
template <typename T> inline T LdexpF(T a, int64_t e) {
  int x = e > 100000 ? 100000 : e < -100000 ? -100000 : int(e);
  if constexpr (std::is_same<T, float16_t>()) return Rnd<T>(std::ldexp((double)W(a), x < -500 ? -500 : x > 500 ? 500 : x));
  else return std::ldexp(a, x);
}
template <typename T> inline T Eps() { return T(0); }
inline double EpsOf(Ty t) { return t == F64 ? 0x1p-53 : t == F32 ? 0x1p-24 : t == F16 ? 0x1p-11 : 0x1p-8; }
inline double TinyOf(Ty t) { return t == F64 ? 0x1p-1022 : t == F32 ? 0x1p-126 : t == F16 ? 0x1p-14 : 0x1p-126; }
inline double DenormOf(Ty t) { return t == F64 ? 0x1p-1074 : t == F32 ? 0x1p-149 : t == F16 ? 0x1p-24 : 0x1p-133; }
inline double MaxOf(Ty t) { return t == F64 ? 1.79e308 : t == F32 ? 3.4028234e38 : t == F16 ? 65504.0 : 3.38e38; }
template <typename T> inline bool Normal(T a) { auto w = W(a); return std::isfinite(w) && std::fabs((double)w) >= TinyOf(TyOf<T>()); }
template <typename T> inline bool Finite(T a) { auto w = W(a); return std::isfinite(w); }
// Complex product lane (re even, im odd): exact value + magnitude for tolerance.
template <typename T> inline long double CplxLane(const T* A, const T* B, size_t i, bool conj, long double& mag) {
  const size_t j = i & ~size_t(1);
  const long double ar = W(A[j]), ai = W(A[j + 1]), br = W(B[j]), bi = conj ? -(long double)W(B[j + 1]) : (long double)W(B[j + 1]);
  if ((i & 1) == 0) { mag = fabsl(ar * br) + fabsl(ai * bi); return ar * br - ai * bi; }
  mag = fabsl(ar * bi) + fabsl(ai * br);
  return ar * bi + ai * br;
}
}  // namespace vfo
#endif
