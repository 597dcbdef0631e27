// C25: Dot::Compute against the exact sum.
#include "hwy/detect_targets.h"
#undef HWY_TARGET
#define HWY_TARGET VF_TARGET
#include "hwy/contrib/dot/dot-inl.h"
#include "hwy/highway.h"
#include "vf.h"
#ifndef VF_C25_COMMON
#define VF_C25_COMMON
namespace c25 {
enum Mode { kSmallInt, kOneHot, kFloat, kCancel, kSpecial };
}
#endif
HWY_BEFORE_NAMESPACE();
namespace hwy {
namespace HWY_NAMESPACE {
namespace {
using vf::Ctx;
using vf::Src;
using c25::Mode;
inline vf::Guarded& G(int i) { static vf::Guarded g[2]; return g[i]; }
template <class T> double ToD(T v) { return ConvertScalarTo<double>(v); }
template <class T> T FromD(double v) { return ConvertScalarTo<T>(v); }
template <class T> constexpr int Mant() { return IsSame<T, bfloat16_t>() ? 8 : IsSame<T, float16_t>() ? 11 : sizeof(T) == 8 ? 53 : 24; }
template <class T> T GenFloat(vf::Rng& r, int emax) {
  const double m = 1.0 + double(r() >> (64 - 30)) / double(1 << 30);
  const int e = int(r.Below(uint64_t(2 * emax + 1))) - emax;
  return FromD<T>((r.Below(2) ? -1.0 : 1.0) * ldexp(m, e));
}
// Unit roundoff and smallest subnormal of the accumulator.
template <class R> double U() { return IsSame<R, float16_t>() ? ldexp(1.0, -11) : sizeof(R) == 8 ? ldexp(1.0, -53) : ldexp(1.0, -24); }
template <class R> double Tiny() { return IsSame<R, float16_t>() ? ldexp(1.0, -14) : sizeof(R) == 8 ? ldexp(1.0, -1022) : ldexp(1.0, -126); }

template <int kA, class D, class TA, class TB, class R>
void RunF(D d, Src& s, Ctx& cx) {
  const size_t N = Lanes(d);
  size_t n = s.Chance(1, 10) ? size_t(s.Below(40 * N + 100)) : s.Len(10 * N + 3, N);
  if (kA & Dot::kMultipleOfVector) n = RoundUpTo(n, N);
  if ((kA & Dot::kAtLeastOneVector) && n < N) n += N;
  const size_t mem = (kA & Dot::kPaddedToVector) ? RoundUpTo(n, N) : n;
  TA* a = G(0).Arr<TA>(s, mem);
  TB* b = G(1).Arr<TB>(s, mem);
  const Mode mode = Mode(s.Below(5));
  vf::Rng r = s.Sub();
  constexpr bool kHalf = IsSame<R, float16_t>();
  const int emax = kHalf ? 2 : sizeof(R) == 8 ? 60 : 20;
  const uint64_t lim = kHalf ? 3 : 100;
  for (size_t i = 0; i < n; ++i) {
    if (mode == c25::kSmallInt) {
      const uint64_t l = n <= 40 ? s.Below(2 * lim + 1) : r.Below(2 * lim + 1), m = n <= 40 ? s.Below(2 * lim + 1) : r.Below(2 * lim + 1);
      const double sa = l & 1 ? -double(l / 2 + 1) : double(l / 2), sb = m & 1 ? -double(m / 2 + 1) : double(m / 2);
      a[i] = FromD<TA>(sa); b[i] = FromD<TB>(sb);
      if (kHalf && n > 200) { a[i] = FromD<TA>(sa > 0 ? 1 : sa < 0 ? -1 : 0); b[i] = FromD<TB>(1); }
    } else {
      a[i] = GenFloat<TA>(r, mode == c25::kCancel ? 1 : emax); b[i] = GenFloat<TB>(r, mode == c25::kCancel ? 1 : emax);
      if (mode == c25::kCancel && (i & 1)) { a[i] = FromD<TA>(-ToD(a[i - 1])); b[i] = b[i - 1]; }
    }
  }
  size_t hot = 0;
  bool nan = false; double inf = 0;
  if (n && mode == c25::kOneHot) {
    hot = s.Below(n);
    for (size_t i = 0; i < n; ++i) if (i != hot) { if (r.Below(2)) a[i] = FromD<TA>(0); else b[i] = FromD<TB>(0); }
  }
  if (n && mode == c25::kSpecial) {
    hot = s.Below(n);
    nan = s.Bool();
    const double sp = nan ? double(NAN) : s.Bool() ? double(INFINITY) : -double(INFINITY);
    if (s.Bool()) { a[hot] = FromD<TA>(sp); inf = sp * ToD(b[hot]); } else { b[hot] = FromD<TB>(sp); inf = sp * ToD(a[hot]); }
  }
  // Padding must not matter.
  for (size_t i = n; i < mem; ++i) {
    const uint64_t k = r.Below(4);
    const double v = k == 0 ? double(NAN) : k == 1 ? double(INFINITY) : k == 2 ? -3.0 : 1E4;
    a[i] = FromD<TA>(v); b[i] = FromD<TB>(r.Below(2) ? v : 7.0);
  }
  cx.nontrivial = n > 0;
  cx.cls = n == 0 ? "empty" : n < N ? "<1 vector" : n % N ? "vectors+rest" : "vectors";
  __float128 exact = 0, mag = 0;
  for (size_t i = 0; i < n; ++i) { const __float128 p = __float128(ToD(a[i])) * ToD(b[i]); exact += p; mag += p < 0 ? -p : p; }
  cx.Desc([&] {
    std::string o = vf::Fmt("assumptions=%d N=%zu n=%zu mode=%d exact=%.17g ", kA, N, n, int(mode), double(exact));
    for (size_t i = 0; i < n && i < 24; ++i) o += vf::Fmt("%g*%g ", ToD(a[i]), ToD(b[i]));
    return o;
  });
  const R got_r = Dot::Compute<kA>(d, a, b, n);
  const double got = ToD(got_r);
  G(0).Check("pa"); G(1).Check("pb");
  if (n && mode == c25::kSpecial) {
    if (nan || inf != inf) VF_CHECK(got != got, "Dot with a NaN product at %zu of %zu is %g", hot, n, got);
    else VF_CHECK(got == inf, "Dot with an infinite product at %zu of %zu is %g instead of %g", hot, n, got, inf);
    return;
  }
  if (mode == c25::kSmallInt) {
    VF_CHECK(got == double(exact), "Dot of %zu small integers (assumptions %d) is %.17g instead of %.17g", n, kA, got, double(exact));
  } else {
    // n products, n additions plus the reduction tree
    const double terms = mode == c25::kOneHot ? 2.0 : double(n) + 8;
    const double tol = terms * 1.05 * U<R>() * double(mag) + (double(n) + 1) * Tiny<R>();
    const double err = fabs(double(__float128(got) - exact));
    VF_CHECK(err <= tol, "Dot of %zu elements (assumptions %d) is %.17g, exact sum %.17g, error %g > %g", n, kA, got, double(exact), err, tol);
  }
}
#if HWY_TARGET != HWY_SCALAR
template <int kA, class D> void RunI(D d, Src& s, Ctx& cx) {
  const size_t N = Lanes(d);
  size_t n = s.Chance(1, 10) ? size_t(s.Below(40 * N + 100)) : s.Len(10 * N + 3, N);
  if (kA & Dot::kMultipleOfVector) n = RoundUpTo(n, N);
  if ((kA & Dot::kAtLeastOneVector) && n < N) n += N;
  const size_t mem = (kA & Dot::kPaddedToVector) ? RoundUpTo(n, N) : n;
  int16_t* a = G(0).Arr<int16_t>(s, mem);
  int16_t* b = G(1).Arr<int16_t>(s, mem);
  vf::Rng r = s.Sub();
  const int bits = int(s.Below(17));
  int64_t exact = 0, mag = 0;
  for (size_t i = 0; i < mem; ++i) {
    const uint64_t u = i < 24 ? s.Bits(32) : r();
    a[i] = int16_t(int16_t(u) >> (16 - bits > 15 ? 15 : 16 - bits)); b[i] = int16_t(int16_t(u >> 16) >> s.Below(2));
    if (r.Below(20) == 0) a[i] = r.Below(2) ? -32768 : 32767;
    if (i >= n) { a[i] = 30000; b[i] = int16_t(u); continue; }  // padding must not matter
    const int64_t p = int64_t(a[i]) * b[i];
    // Pairs and sums must stay representable.
    if (mag + (p < 0 ? -p : p) > 0x7FFFFFFF) { if (r.Below(2)) a[i] = 0; else b[i] = 0; continue; }
    mag += p < 0 ? -p : p; exact += p;
  }
  cx.nontrivial = n > 0;
  cx.cls = n == 0 ? "empty" : n < N ? "<1 vector" : n % N ? "vectors+rest" : "vectors";
  cx.Desc([&] { std::string o = vf::Fmt("assumptions=%d N=%zu n=%zu ", kA, N, n); for (size_t i = 0; i < n && i < 24; ++i) o += vf::Fmt("%d*%d ", a[i], b[i]); return o; });
  const int32_t got = Dot::Compute<kA>(d, a, b, n);
  G(0).Check("pa"); G(1).Check("pb");
  VF_CHECK(int64_t(got) == exact, "i16 Dot of %zu elements (assumptions %d) is %d instead of %lld", n, kA, got, (long long)exact);
}
template <int kA> void I16(Src& s, Ctx& cx) {
  switch (s.Below(4)) {
    case 1: return RunI<kA>(CappedTag<int16_t, 8>(), s, cx);
    case 2: return RunI<kA>(CappedTag<int16_t, 2>(), s, cx);
    default: return RunI<kA>(ScalableTag<int16_t>(), s, cx);
  }
}
template <int kA> void BF16(Src& s, Ctx& cx) {
  switch (s.Below(4)) {
    case 1: return RunF<kA, CappedTag<bfloat16_t, 8>, bfloat16_t, bfloat16_t, float>(CappedTag<bfloat16_t, 8>(), s, cx);
    case 2: return RunF<kA, CappedTag<bfloat16_t, 2>, bfloat16_t, bfloat16_t, float>(CappedTag<bfloat16_t, 2>(), s, cx);
    default: return RunF<kA, ScalableTag<bfloat16_t>, bfloat16_t, bfloat16_t, float>(ScalableTag<bfloat16_t>(), s, cx);
  }
}
#endif
template <int kA, class TD, class TB> void F(Src& s, Ctx& cx) {
  switch (s.Below(4)) {
    case 1: return RunF<kA, CappedTag<TD, 4>, TD, TB, TD>(CappedTag<TD, 4>(), s, cx);
    case 2: return RunF<kA, CappedTag<TD, 1>, TD, TB, TD>(CappedTag<TD, 1>(), s, cx);
    default: return RunF<kA, ScalableTag<TD>, TD, TB, TD>(ScalableTag<TD>(), s, cx);
  }
}
#define R8(NAME, FN, ...) R1(NAME, 0, FN, ##__VA_ARGS__) R1(NAME, 1, FN, ##__VA_ARGS__) R1(NAME, 2, FN, ##__VA_ARGS__) R1(NAME, 3, FN, ##__VA_ARGS__) \
  R1(NAME, 4, FN, ##__VA_ARGS__) R1(NAME, 5, FN, ##__VA_ARGS__) R1(NAME, 6, FN, ##__VA_ARGS__) R1(NAME, 7, FN, ##__VA_ARGS__)
#define R1(NAME, A, FN, ...) VF_REG(VF_PREFIX "Dot<" NAME "," #A ">", 10000, 100000, (&FN<A, ##__VA_ARGS__>), 0, HWY_TARGET)
R8("f32", F, float, float)
R8("f32*bf16", F, float, bfloat16_t)
#if HWY_HAVE_FLOAT64
R8("f64", F, double, double)
#endif
#if HWY_HAVE_FLOAT16
R8("f16", F, float16_t, float16_t)
#endif
#if HWY_TARGET != HWY_SCALAR
R8("bf16", BF16)
R8("i16", I16)
#endif
}  // namespace
}  // namespace HWY_NAMESPACE
}  // namespace hwy
HWY_AFTER_NAMESPACE();
