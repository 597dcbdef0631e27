// C27: hwy/contrib/math against higher-precision references.
#ifndef VF_STATIC
#include "hwy/detect_targets.h"
#undef HWY_TARGET
#define HWY_TARGET VF_TARGET
#endif
#include <float.h>
#include <math.h>
#include <stdlib.h>
#include <set>
#include "hwy/contrib/math/math-inl.h"
#include "hwy/highway.h"
#include "c27.h"
#include "vf.h"
HWY_BEFORE_NAMESPACE();
namespace hwy {
namespace HWY_NAMESPACE {
namespace {
using vf::Ctx;
using vf::Src;
using c27::Fn;
template <Fn kF, class D> HWY_ATTR Vec<D> Call(D d, Vec<D> x, Vec<D> y) {
  (void)y;
  Vec<D> s, c;
  if constexpr (kF == c27::kAcos) return Acos(d, x);
  else if constexpr (kF == c27::kAcosh) return Acosh(d, x);
  else if constexpr (kF == c27::kAsin) return Asin(d, x);
  else if constexpr (kF == c27::kAsinh) return Asinh(d, x);
  else if constexpr (kF == c27::kAtan) return Atan(d, x);
  else if constexpr (kF == c27::kAtanh) return Atanh(d, x);
  else if constexpr (kF == c27::kAtan2) return Atan2(d, x, y);
  else if constexpr (kF == c27::kCos) return Cos(d, x);
  else if constexpr (kF == c27::kExp) return Exp(d, x);
  else if constexpr (kF == c27::kExp2) return Exp2(d, x);
  else if constexpr (kF == c27::kExpm1) return Expm1(d, x);
  else if constexpr (kF == c27::kLog) return Log(d, x);
  else if constexpr (kF == c27::kLog10) return Log10(d, x);
  else if constexpr (kF == c27::kLog1p) return Log1p(d, x);
  else if constexpr (kF == c27::kLog2) return Log2(d, x);
  else if constexpr (kF == c27::kSin) return Sin(d, x);
  else if constexpr (kF == c27::kSinh) return Sinh(d, x);
  else if constexpr (kF == c27::kTanh) return Tanh(d, x);
  else if constexpr (kF == c27::kSinCosSin) { SinCos(d, x, s, c); return s; }
  else if constexpr (kF == c27::kSinCosCos) { SinCos(d, x, s, c); return c; }
  else return Hypot(d, x, y);
}
// The same via the non-inlined wrappers.
template <Fn kF, class D> HWY_ATTR Vec<D> Wrapped(D d, Vec<D> x, Vec<D> y) {
  (void)y;
  Vec<D> s, c;
  if constexpr (kF == c27::kAcos) return CallAcos(d, x);
  else if constexpr (kF == c27::kAcosh) return CallAcosh(d, x);
  else if constexpr (kF == c27::kAsin) return CallAsin(d, x);
  else if constexpr (kF == c27::kAsinh) return CallAsinh(d, x);
  else if constexpr (kF == c27::kAtan) return CallAtan(d, x);
  else if constexpr (kF == c27::kAtanh) return CallAtanh(d, x);
  else if constexpr (kF == c27::kAtan2) return CallAtan2(d, x, y);
  else if constexpr (kF == c27::kCos) return CallCos(d, x);
  else if constexpr (kF == c27::kExp) return CallExp(d, x);
  else if constexpr (kF == c27::kExp2) return CallExp2(d, x);
  else if constexpr (kF == c27::kExpm1) return CallExpm1(d, x);
  else if constexpr (kF == c27::kLog) return CallLog(d, x);
  else if constexpr (kF == c27::kLog10) return CallLog10(d, x);
  else if constexpr (kF == c27::kLog1p) return CallLog1p(d, x);
  else if constexpr (kF == c27::kLog2) return CallLog2(d, x);
  else if constexpr (kF == c27::kSin) return CallSin(d, x);
  else if constexpr (kF == c27::kSinh) return CallSinh(d, x);
  else if constexpr (kF == c27::kTanh) return CallTanh(d, x);
  else if constexpr (kF == c27::kSinCosSin) { CallSinCos(d, x, s, c); return s; }
  else if constexpr (kF == c27::kSinCosCos) { CallSinCos(d, x, s, c); return c; }
  else return CallHypot(d, x, y);
}
template <Fn kF, class D, class T> HWY_NOINLINE void Eval(D d, const T* x, const T* y, T* out, size_t n) {
  const size_t N = Lanes(d);
  for (size_t i = 0; i < n; i += N) StoreU(Call<kF>(d, LoadU(d, x + i), LoadU(d, y + i)), d, out + i);
}
template <Fn kF, class D, class T> HWY_NOINLINE void EvalW(D d, const T* x, const T* y, T* out, size_t n) {
  const size_t N = Lanes(d);
  for (size_t i = 0; i < n; i += N) StoreU(Wrapped<kF>(d, LoadU(d, x + i), LoadU(d, y + i)), d, out + i);
}
template <Fn kF, class T> void Run(Src& s, Ctx& cx) {
  constexpr size_t kN = 256;
  alignas(64) T x[kN], y[kN], out[kN];
  c27::Gen<T>(kF, s, x, y, kN);
  const uint64_t tag = s.Below(4);
  const auto run = [&](const T* px, const T* py, T* po, size_t n) {
    if (tag == 1) Eval<kF>(CappedTag<T, 1>(), px, py, po, n);
    else if (tag == 2) Eval<kF>(CappedTag<T, 4>(), px, py, po, n);
    else if (tag == 3) EvalW<kF>(ScalableTag<T>(), px, py, po, n);
    else Eval<kF>(ScalableTag<T>(), px, py, po, n);
  };
  run(x, y, out, kN);
  cx.evals = 0;
  cx.Desc([&] { return vf::Fmt("x=%.17g y=%.17g result=%.17g", double(x[0]), double(y[0]), double(out[0])); });
  for (size_t i = 0; i < kN; ++i) {
    ++cx.evals;
    c27::Judge<T>(kF, VF_PREFIX, HWY_NATIVE_FMA != 0, x[i], y[i], out[i]);
  }
}
template <Fn kF, class T> void EvalAll(const T* x, T* out, size_t n) { Eval<kF>(ScalableTag<T>(), x, x, out, n); }
#if HWY_HAVE_FLOAT64
#define E64(F) (&EvalAll<c27::F, double>)
#else
#define E64(F) nullptr
#endif
#define EV(F) static c27::EvalReg HWY_CONCAT(g_eval_, F)(c27::Eval{c27::F, VF_PREFIX, HWY_TARGET, HWY_NATIVE_FMA != 0, &EvalAll<c27::F, float>, E64(F)});
EV(kAcos) EV(kAcosh) EV(kAsin) EV(kAsinh) EV(kAtan) EV(kAtanh) EV(kCos) EV(kExp) EV(kExp2) EV(kExpm1) EV(kLog) EV(kLog10) EV(kLog1p) EV(kLog2) EV(kSin) EV(kSinh) EV(kTanh) EV(kSinCosSin) EV(kSinCosCos)
#define R1(F, NAME, T, TN) VF_REG(VF_PREFIX NAME "<" TN ">", 1600, 40000, (&Run<c27::F, T>), 0, HWY_TARGET)
#if HWY_HAVE_FLOAT64
#define R(F, NAME) R1(F, NAME, float, "f32") R1(F, NAME, double, "f64")
#else
#define R(F, NAME) R1(F, NAME, float, "f32")
#endif
R(kAcos, "Acos") R(kAcosh, "Acosh") R(kAsin, "Asin") R(kAsinh, "Asinh") R(kAtan, "Atan") R(kAtanh, "Atanh") R(kAtan2, "Atan2") R(kCos, "Cos")
R(kExp, "Exp") R(kExp2, "Exp2") R(kExpm1, "Expm1") R(kLog, "Log") R(kLog10, "Log10") R(kLog1p, "Log1p") R(kLog2, "Log2") R(kSin, "Sin")
R(kSinh, "Sinh") R(kTanh, "Tanh") R(kSinCosSin, "SinCos.sin") R(kSinCosCos, "SinCos.cos") R(kHypot, "Hypot")
}  // namespace
}  // namespace HWY_NAMESPACE
}  // namespace hwy
HWY_AFTER_NAMESPACE();
