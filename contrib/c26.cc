// C26: MatVec / MatVecAdd against the exact products.
#include "hwy/detect_targets.h"
#undef HWY_TARGET
#define HWY_TARGET VF_TARGET
#include <memory>
#include "hwy/contrib/matvec/matvec-inl.h"
#include "hwy/highway.h"
#include "vf.h"
HWY_BEFORE_NAMESPACE();
namespace hwy {
namespace HWY_NAMESPACE {
namespace {
using vf::Ctx;
using vf::Src;
inline vf::Guarded& G(int i) { static vf::Guarded g[4]; return g[i]; }
inline ThreadPool& Pool(size_t n) {
  static std::unique_ptr<ThreadPool> p[8];
  if (!p[n]) p[n].reset(new ThreadPool(n));
  return *p[n];
}
template <class T> double ToD(T v) { return ConvertScalarTo<double>(v); }
template <class T> T FromD(double v) { return ConvertScalarTo<T>(v); }
template <class T> T GenFloat(vf::Rng& r, int emax) {
  const double m = 1.0 + double(r() >> (64 - 30)) / double(1 << 30);
  const int e = int(r.Below(uint64_t(2 * emax + 1))) - emax;
  return FromD<T>((r.Below(2) ? -1.0 : 1.0) * ldexp(m, e));
}
template <class R> double U() { return IsSame<R, float16_t>() ? ldexp(1.0, -11) : sizeof(R) == 8 ? ldexp(1.0, -53) : ldexp(1.0, -24); }
template <class R> double Tiny() { return IsSame<R, float16_t>() ? ldexp(1.0, -14) : sizeof(R) == 8 ? ldexp(1.0, -1022) : ldexp(1.0, -126); }

template <class TM, class TV, class TA, class R, class F>
void Check(size_t rows, size_t cols, bool with_add, Src& s, Ctx& cx, const F& run) {
  const size_t threads = s.Chance(1, 3) ? size_t(s.Below(8)) : size_t(s.Below(3));
  TM* mat = G(0).Arr<TM>(s, rows * cols);
  TV* vec = G(1).Arr<TV>(s, cols);
  TA* add = with_add ? G(2).Arr<TA>(s, rows) : nullptr;
  // Rows are written with Stream, which requires alignment.
  R* out = static_cast<R*>(G(3).Place(rows * sizeof(R), s.Bool(), size_t(s.Below(3)) * 128, 128));
  vf::Rng r = s.Sub();
  const bool ints = s.Bool();
  constexpr bool kHalf = IsSame<R, float16_t>();
  const int emax = kHalf ? 1 : sizeof(R) == 8 ? 60 : 12;
  const uint64_t lim = kHalf ? 2 : sizeof(TM) == 2 || sizeof(TV) == 2 ? 100 : 200;
  const auto val = [&](auto t) {
    using T = decltype(t);
    if (!ints) return GenFloat<T>(r, emax);
    return FromD<T>(double(r.Below(2 * lim + 1)) - double(lim));
  };
  for (size_t i = 0; i < rows * cols; ++i) mat[i] = val(TM());
  for (size_t i = 0; i < cols; ++i) vec[i] = kHalf && ints ? FromD<TV>(double(r.Below(3)) - 1) : val(TV());
  for (size_t i = 0; i < rows && add; ++i) add[i] = s.Chance(1, 8) ? FromD<TA>(0) : val(TA());
  if (s.Chance(1, 4)) {  // one nonzero column
    const size_t k = s.Below(cols);
    for (size_t i = 0; i < cols; ++i) if (i != k) vec[i] = FromD<TV>(0);
  }
  memset(static_cast<void*>(out), 0xFF, rows * sizeof(R));
  std::vector<TM> mat0(mat, mat + rows * cols); std::vector<TV> vec0(vec, vec + cols);
  cx.nontrivial = rows * cols > 1;
  cx.cls = threads == 0 ? "no workers" : "workers";
  cx.evals = rows;
  cx.Desc([&] { return vf::Fmt("%zu x %zu add=%d threads=%zu ints=%d", rows, cols, with_add, threads, ints); });
  run(mat, vec, add, out, Pool(threads));
  for (int i = 0; i < 4; ++i) if (i != 2 || add) G(i).Check("MatVec array");
  VF_CHECK(memcmp(mat, mat0.data(), rows * cols * sizeof(TM)) == 0 && memcmp(vec, vec0.data(), cols * sizeof(TV)) == 0, "MatVec modified its input");
  for (size_t i = 0; i < rows; ++i) {
    __float128 exact = 0, mag = 0;
    for (size_t j = 0; j < cols; ++j) { const __float128 p = __float128(ToD(mat[i * cols + j])) * ToD(vec[j]); exact += p; mag += p < 0 ? -p : p; }
    if (add) { const double a = ToD(add[i]); exact += a; mag += fabs(a); }
    const double got = ToD(out[i]);
    if (ints) {
      VF_CHECK(got == double(exact), "%zu x %zu%s, %zu threads: row %zu is %.17g instead of %.17g", rows, cols, add ? " with add" : "", threads, i, got, double(exact));
    } else {
      const double tol = (double(cols) + 9) * 1.05 * U<R>() * double(mag) + (double(cols) + 2) * Tiny<R>();
      const double err = fabs(double(__float128(got) - exact));
      VF_CHECK(err <= tol, "%zu x %zu%s, %zu threads: row %zu is %.17g, exact %.17g, error %g > %g", rows, cols, add ? " with add" : "", threads, i, got, double(exact), err, tol);
    }
  }
}
template <size_t kO, size_t kI, class TM, class TV, class R> void Run(Src& s, Ctx& cx) {
  const bool add = s.Bool();
  Check<TM, TV, TV, R>(kO, kI, add, s, cx, [](const TM* m, const TV* v, const TV* a, R* o, ThreadPool& pool) {
    if (a) MatVecAdd<kO, kI>(m, v, a, o, pool);
    else MatVec<kO, kI>(m, v, o, pool);
  });
}
#define ONE(TN, O, I, ...) VF_REG(VF_PREFIX "MatVec<" TN "," #O "," #I ">", 160, 1200, (&Run<O, I, __VA_ARGS__>), vf::kThreads, HWY_TARGET)
#define SHAPES_Q(TN, ...) \
  ONE(TN, 1, 1, __VA_ARGS__) ONE(TN, 7, 3, __VA_ARGS__) ONE(TN, 8, 33, __VA_ARGS__) ONE(TN, 9, 16, __VA_ARGS__) ONE(TN, 15, 64, __VA_ARGS__) \
  ONE(TN, 16, 7, __VA_ARGS__) ONE(TN, 16, 128, __VA_ARGS__) ONE(TN, 17, 31, __VA_ARGS__) ONE(TN, 24, 9, __VA_ARGS__) ONE(TN, 31, 130, __VA_ARGS__) \
  ONE(TN, 32, 1, __VA_ARGS__) ONE(TN, 33, 65, __VA_ARGS__) ONE(TN, 40, 100, __VA_ARGS__) ONE(TN, 64, 17, __VA_ARGS__) ONE(TN, 65, 48, __VA_ARGS__) \
  ONE(TN, 100, 200, __VA_ARGS__) ONE(TN, 131, 5, __VA_ARGS__) ONE(TN, 200, 63, __VA_ARGS__)
#ifdef VF_THOROUGH
#define SHAPES(TN, ...) SHAPES_Q(TN, __VA_ARGS__) \
  ONE(TN, 2, 2, __VA_ARGS__) ONE(TN, 3, 129, __VA_ARGS__) ONE(TN, 5, 15, __VA_ARGS__) ONE(TN, 10, 257, __VA_ARGS__) ONE(TN, 14, 32, __VA_ARGS__) \
  ONE(TN, 18, 511, __VA_ARGS__) ONE(TN, 23, 127, __VA_ARGS__) ONE(TN, 39, 8, __VA_ARGS__) ONE(TN, 48, 66, __VA_ARGS__) ONE(TN, 63, 4, __VA_ARGS__) \
  ONE(TN, 80, 95, __VA_ARGS__) ONE(TN, 96, 6, __VA_ARGS__) ONE(TN, 127, 24, __VA_ARGS__) ONE(TN, 128, 12, __VA_ARGS__) ONE(TN, 129, 40, __VA_ARGS__) \
  ONE(TN, 160, 256, __VA_ARGS__) ONE(TN, 255, 11, __VA_ARGS__) ONE(TN, 256, 96, __VA_ARGS__)
#else
#define SHAPES(TN, ...) SHAPES_Q(TN, __VA_ARGS__)
#endif
SHAPES("f32", float, float, float)
#if HWY_HAVE_FLOAT64
SHAPES("f64", double, double, double)
#endif
#if HWY_HAVE_FLOAT16
SHAPES("f16", float16_t, float16_t, float16_t)
#endif
#if HWY_TARGET != HWY_SCALAR
SHAPES("bf16*f32", bfloat16_t, float, float)
SHAPES("bf16", bfloat16_t, bfloat16_t, float)
#endif
}  // namespace
}  // namespace HWY_NAMESPACE
}  // namespace hwy
HWY_AFTER_NAMESPACE();
