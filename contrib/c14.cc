// C14: float16_t / bfloat16_t scalar conversions, comparison and arithmetic.
// Oracle: a value decoded bit by bit into double (exact for every encoding)
// and round-to-nearest-even narrowing by neighbour search in integers.
#include <type_traits>
#include "hwy/base.h"
#include "vf.h"

#include <cmath>
#include <limits>
#if __cplusplus >= 202002L
#include <compare>
#endif

namespace {
using vf::Ctx;
using vf::Src;
using hwy::bfloat16_t;
using hwy::float16_t;

template <class T, class F> T Cast(const F& f) { T t; static_assert(sizeof(t) == sizeof(f), ""); memcpy(&t, &f, sizeof t); return t; }

struct Fmt16 { int m, e; };  // mantissa and exponent bits
static constexpr Fmt16 kF16 = {10, 5}, kBF16 = {7, 8};
static double Decode(uint16_t b, Fmt16 f) {
  const int bias = (1 << (f.e - 1)) - 1, ex = (b >> f.m) & ((1 << f.e) - 1), ma = b & ((1 << f.m) - 1);
  double v;
  if (ex == (1 << f.e) - 1) v = ma ? std::numeric_limits<double>::quiet_NaN() : std::numeric_limits<double>::infinity();
  else if (ex == 0) v = std::ldexp(double(ma), 1 - bias - f.m);
  else v = std::ldexp(double(ma + (1 << f.m)), ex - bias - f.m);
  return (b & 0x8000) ? -v : v;
}
// Correctly rounded (nearest, ties to even) encoding of a non-NaN double.
static uint16_t Encode(double d, Fmt16 f) {
  const uint16_t sign = std::signbit(d) ? 0x8000 : 0;
  const double a = std::fabs(d);
  const int bias = (1 << (f.e - 1)) - 1;
  const uint16_t inf = uint16_t(((1 << f.e) - 1) << f.m);
  if (std::isinf(a)) return sign | inf;
  if (a == 0) return sign;
  int ex; std::frexp(a, &ex);             // a = fr * 2^ex, fr in [0.5, 1)
  int lsb = ex - 1 - f.m;                 // exponent of the result ulp
  if (lsb < 1 - bias - f.m) lsb = 1 - bias - f.m;
  if (ex - 1 > bias + 1) return sign | inf;
  const uint64_t bits = Cast<uint64_t>(a);
  // a = M * 2^E exactly
  uint64_t M = bits & ((1ull << 52) - 1);
  int E = int(bits >> 52);
  if (E == 0) E = 1; else M |= 1ull << 52;
  E -= 1075;
  const int sh = lsb - E;
  uint64_t q; 
  if (sh <= 0) q = M << -sh;
  else if (sh > 60) q = 0;
  else {
    q = M >> sh;
    const uint64_t rem = M & ((1ull << sh) - 1), half = 1ull << (sh - 1);
    if (rem > half || (rem == half && (q & 1))) ++q;
  }
  // q ulps at exponent lsb
  const double r = std::ldexp(double(q), lsb);
  if (r >= std::ldexp(1.0, bias + 1)) return sign | inf;
  if (q < (1ull << f.m)) return uint16_t(sign | q);
  int rex; std::frexp(r, &rex);
  const uint64_t mant = uint64_t(std::ldexp(r, f.m - (rex - 1)));
  return uint16_t(sign | ((rex - 1 + bias) << f.m) | (mant & ((1u << f.m) - 1)));
}
static bool IsNaN16(uint16_t b, Fmt16 f) { const uint16_t inf = uint16_t(((1 << f.e) - 1) << f.m); return (b & 0x7FFF) > inf; }
static uint16_t B(float16_t h) { return Cast<uint16_t>(h); }
static uint16_t B(bfloat16_t h) { return Cast<uint16_t>(h); }
template <class T> Fmt16 FmtOf() { return hwy::IsSame<T, float16_t>() ? kF16 : kBF16; }
template <class T> const char* NameOf() { return hwy::IsSame<T, float16_t>() ? "float16_t" : "bfloat16_t"; }

// Result encoding `got` for the exact (or float-rounded) value `want`.
static void CheckEnc(uint16_t got, double want, Fmt16 f, const char* what, double in) {
  if (std::isnan(want)) {
    VF_CHECK(IsNaN16(got, f), "%s(NaN %a) = %04x is not NaN", what, in, got);
    return;
  }
  const uint16_t e = Encode(want, f);
  VF_CHECK(got == e, "%s(%a): got %04x, correctly rounded %04x", what, in, got, e);
}
static void CheckNarrow32(float v) {
  const uint16_t h = B(hwy::F16FromF32(v)), b = B(hwy::BF16FromF32(v));
  CheckEnc(h, double(v), kF16, "F16FromF32", v);
  CheckEnc(b, double(v), kBF16, "BF16FromF32", v);
  if (std::isnan(v)) {
    VF_CHECK((h >> 15) == (Cast<uint32_t>(v) >> 31) && (b >> 15) == (Cast<uint32_t>(v) >> 31), "sign of NaN %08x lost: f16 %04x bf16 %04x", Cast<uint32_t>(v), h, b);
  }
  VF_CHECK(B(hwy::ConvertScalarTo<float16_t>(v)) == h && B(hwy::ConvertScalarTo<bfloat16_t>(v)) == b, "ConvertScalarTo from float %a differs", v);
}
static void CheckNarrow64(double v) {
  const uint16_t h = B(hwy::F16FromF64(v)), b = B(hwy::BF16FromF64(v));
  CheckEnc(h, v, kF16, "F16FromF64", v);
  CheckEnc(b, v, kBF16, "BF16FromF64", v);
  if (std::isnan(v)) VF_CHECK((h >> 15) == int(std::signbit(v)) && (b >> 15) == int(std::signbit(v)), "sign of NaN lost");
  VF_CHECK(B(hwy::ConvertScalarTo<float16_t>(v)) == h && B(hwy::ConvertScalarTo<bfloat16_t>(v)) == b, "ConvertScalarTo from double %a differs", v);
}
static bool SameF(double a, double b) { return std::isnan(a) ? std::isnan(b) : Cast<uint64_t>(a) == Cast<uint64_t>(b); }

// All 65536 encodings, 256 per case.
template <class T> void Widen(Src& s, Ctx& cx) {
  const Fmt16 f = FmtOf<T>();
  const uint32_t hi = uint32_t(s.Enum(256)) << 8;
  cx.Desc([&] { return vf::Fmt("%s encodings %04x..%04x", NameOf<T>(), hi, hi + 255); });
  for (uint32_t lo = 0; lo < 256; ++lo) {
    const uint16_t b = uint16_t(hi | lo);
    const double want = Decode(b, f);
    const T x = T::FromBits(b);
    VF_CHECK(B(x) == b, "FromBits(%04x) stores %04x", b, B(x));
    float w, w2; double w3;
    uint16_t mem = b;
    w2 = hwy::ConvertScalarTo<float>(x);
    w3 = hwy::ConvertScalarTo<double>(x);
    if constexpr (hwy::IsSame<T, float16_t>()) w = hwy::F32FromF16(x);
    else { w = hwy::F32FromBF16(x); VF_CHECK(SameF(hwy::F32FromBF16Mem(&mem), want), "F32FromBF16Mem(%04x)", b); }
    if constexpr (hwy::IsSame<T, float16_t>()) VF_CHECK(SameF(hwy::F32FromF16Mem(&mem), want), "F32FromF16Mem(%04x)", b);
    VF_CHECK(SameF(w, want) && SameF(w2, want) && SameF(w3, want), "%s %04x widens to %a / %a / %a, expected %a", NameOf<T>(), b, w, w2, w3, want);
    if (std::isnan(want)) VF_CHECK((Cast<uint32_t>(w) >> 31) == (b >> 15), "widening NaN %04x loses its sign", b);
    VF_CHECK(hwy::ScalarIsNaN(x) == std::isnan(want) && hwy::ScalarIsInf(x) == std::isinf(want) && hwy::ScalarIsFinite(x) == std::isfinite(want), "%s %04x: ScalarIsNaN/Inf/Finite", NameOf<T>(), b);
    VF_CHECK(hwy::ScalarSignBit(x) == bool(b >> 15), "ScalarSignBit(%04x)", b);
    VF_CHECK(B(hwy::ScalarAbs(x)) == (b & 0x7FFF), "ScalarAbs(%04x)", b);
    if (!std::isnan(want)) {
      VF_CHECK(B(hwy::ConvertScalarTo<T>(w)) == b && B(hwy::ConvertScalarTo<T>(double(w))) == b, "%s %04x does not round-trip", NameOf<T>(), b);
      // the other 16-bit type, rounded once
      using O = hwy::If<hwy::IsSame<T, float16_t>(), bfloat16_t, float16_t>;
      CheckEnc(B(hwy::ConvertScalarTo<O>(x)), want, FmtOf<O>(), "ConvertScalarTo<other 16-bit>", want);
      if (std::fabs(want) < 1E9) VF_CHECK(hwy::ConvertScalarTo<int64_t>(x) == int64_t(want), "ConvertScalarTo<int64_t>(%a)", want);
    }
    // every value between this encoding and its successor: the two halves and tie
    if (!IsNaN16(b, f)) {
      const float v = float(want);
      CheckNarrow32(v); CheckNarrow64(v);
      if ((b & 0x7FFF) < (((1 << f.e) - 1) << f.m)) {
        const double next = std::isinf(Decode(uint16_t(b + 1), f)) ? (b >> 15 ? -1 : 1) * std::ldexp(1.0, 1 << (f.e - 1)) : Decode(uint16_t(b + 1), f);
        const double mid = (want + next) / 2;  // exact
        CheckNarrow64(mid); CheckNarrow64(std::nextafter(mid, -1E308)); CheckNarrow64(std::nextafter(mid, 1E308));
        CheckNarrow64(std::nextafter(want, next)); CheckNarrow64(std::nextafter(next, want));
        const float midf = float(mid);
        if (double(midf) == mid) {
          CheckNarrow32(midf); CheckNarrow32(std::nextafterf(midf, -INFINITY)); CheckNarrow32(std::nextafterf(midf, INFINITY));
        }
        if (std::fabs(next) <= 3.4028234663852886e38) {
          CheckNarrow32(std::nextafterf(v, float(next))); CheckNarrow32(std::nextafterf(float(next), v));
        }
      }
    }
  }
  cx.evals = 256 * 20;
}
VF_REG(VF_PREFIX "WidenF16", 256, 256, &Widen<float16_t>)
VF_REG(VF_PREFIX "WidenBF16", 256, 256, &Widen<bfloat16_t>)

VF_TASK(NarrowF32All, 8192, 65536) {
  // 65536 slices of the 2^32 floats; thorough takes every value of a slice,
  // quick takes every 8th slice value with a random offset.
  const uint64_t n = cx.thorough ? 65536 : 8192;
  const uint32_t slice = uint32_t(s.Enum(n)) * uint32_t(65536 / n);
  const uint32_t off = cx.thorough ? 0 : uint32_t(s.Below(64));
  const uint32_t step = cx.thorough ? 1 : 61;
  const uint32_t extra = cx.thorough ? 0 : uint32_t(s.Below(8));
  uint64_t k = 0;
  for (uint32_t lo = off; lo < 65536; lo += step, ++k) CheckNarrow32(Cast<float>(((slice + extra) << 16) | lo));
  cx.evals = k;
  cx.Desc([&] { return vf::Fmt("floats %08x.. step %u", ((slice + extra) << 16) | off, step); });
}
static double RandF64(Src& s) {
  switch (s.Below(5)) {
    case 0: return Cast<double>(s.Bits());
    case 1: {  // exponent range of the 16-bit types
      const uint64_t e = 1023 - 140 + s.Below(280);
      return Cast<double>((s.Below(2) << 63) | (e << 52) | s.Bits(52));
    }
    case 2: {  // f16 exponent range
      const uint64_t e = 1023 - 27 + s.Below(45);
      return Cast<double>((s.Below(2) << 63) | (e << 52) | s.Bits(52));
    }
    case 3: {  // ones/zeros tails around the rounding point
      const uint64_t e = s.Bool() ? 1023 - 27 + s.Below(45) : 1023 - 140 + s.Below(280);
      const int k = int(s.Below(52));
      uint64_t m = s.Bits(52) & ~((1ull << k) - 1);
      m += s.Below(5) - 2;
      return Cast<double>((s.Below(2) << 63) | (e << 52) | (m & ((1ull << 52) - 1)));
    }
    default: {
      const uint64_t v[] = {0, 0x8000000000000000ull, 1, 0x7FF0000000000000ull, 0x7FF0000000000001ull, 0x7FF8000000000000ull, 0xFFF0000000000001ull, 0x000FFFFFFFFFFFFFull, 0x7FEFFFFFFFFFFFFFull, 0x36A0000000000000ull, 0x47EFFFFFF0000000ull, 0x47EFFFFFE0000000ull};
      return Cast<double>(v[s.Below(12)]);
    }
  }
}
VF_TASK(NarrowF64, 6000000, 40000000) {
  const double v = RandF64(s);
  cx.Desc([&] { return vf::Fmt("%a", v); });
  CheckNarrow64(v);
  cx.evals = 2; cx.nontrivial = v != 0;
}

static uint16_t Rand16(Src& s, Fmt16 f) {
  switch (s.Below(4)) {
    case 0: { const uint16_t inf = uint16_t(((1 << f.e) - 1) << f.m);
      const uint16_t v[] = {0, 1, 2, uint16_t(1 << f.m), uint16_t((1 << f.m) - 1), uint16_t(inf - 1), inf, uint16_t(inf + 1), uint16_t(inf | (1 << (f.m - 1))), uint16_t(((1 << (f.e - 1)) - 1) << f.m)};
      return uint16_t(v[s.Below(10)] | (s.Below(2) << 15)); }
    default: return uint16_t(s.Bits(16));
  }
}
template <class T> void Compare(Src& s, Ctx& cx) {
  const Fmt16 f = FmtOf<T>();
  const uint16_t a = Rand16(s, f);
  uint16_t b;
  switch (s.Below(4)) { case 0: b = a; break; case 1: b = uint16_t(a ^ 0x8000); break; case 2: b = uint16_t(a + s.Below(3) - 1); break; default: b = Rand16(s, f); }
  cx.Desc([&] { return vf::Fmt("%s %04x ? %04x", NameOf<T>(), a, b); });
  const double x = Decode(a, f), y = Decode(b, f);
  const T p = T::FromBits(a), q = T::FromBits(b);
#define CMP(op) VF_CHECK((p op q) == (x op y), "%s %04x " #op " %04x is %d", NameOf<T>(), a, b, int(p op q));
  CMP(==) CMP(!=) CMP(<) CMP(<=) CMP(>) CMP(>=)
#undef CMP
#if HWY_HAVE_CXX20_THREE_WAY_COMPARE
  VF_CHECK((p <=> q) == (x <=> y), "%s %04x <=> %04x", NameOf<T>(), a, b);
  cx.evals = 7;
#else
  cx.evals = 6;
#endif
  cx.nontrivial = a != b;
}
VF_REG(VF_PREFIX "CompareF16", 1200000, 12000000, &Compare<float16_t>)
VF_REG(VF_PREFIX "CompareBF16", 1200000, 12000000, &Compare<bfloat16_t>)

template <class T> void CheckRes(T got, double want, const char* what, double x, double y) {
  const Fmt16 f = FmtOf<T>();
  if (std::isnan(want)) { VF_CHECK(IsNaN16(B(got), f), "%s %a %s %a = %04x, expected NaN", NameOf<T>(), x, what, y, B(got)); return; }
  VF_CHECK(B(got) == Encode(want, f), "%s %a %s %a = %04x, expected %04x", NameOf<T>(), x, what, y, B(got), Encode(want, f));
}
// Only where the library provides T op= float.
template <class T, class F> auto AssignF(T& r, float y, F f, double w, const char* what, float x, int) -> decltype(f(r, y)) { f(r, y); CheckRes(r, w, what, x, y); }
template <class T, class F> void AssignF(T&, float, F, double, const char*, float, long) {}
template <class T> void Arith(Src& s, Ctx& cx) {
  const Fmt16 f = FmtOf<T>();
  const uint16_t a = Rand16(s, f), b = s.Chance(1, 4) ? uint16_t((a & ~0xFF) ^ s.Bits(8) ^ (s.Below(2) << 15)) : Rand16(s, f);
  cx.Desc([&] { return vf::Fmt("%s %04x op %04x", NameOf<T>(), a, b); });
  const float x = float(Decode(a, f)), y = float(Decode(b, f));
  const T p = T::FromBits(a), q = T::FromBits(b);
  T r;
#define OP(op, fn) \
  CheckRes(T(p op q), double(x op y), #op, x, y);                                \
  r = p; r op## = q; CheckRes(r, double(x op y), #op "=", x, y);                 \
  { const float m1 = float(p op y), m2 = float(x op q), w = x op y;              \
    VF_CHECK(SameF(m1, w), "%s %a " #op " float %a = %a, expected %a", NameOf<T>(), x, y, m1, w); \
    VF_CHECK(SameF(m2, w), "float %a " #op " %s %a = %a, expected %a", x, NameOf<T>(), y, m2, w); \
    const double d1 = double(p op double(y)), d2 = double(double(x) op q), dw = double(x) op double(y); \
    VF_CHECK(SameF(d1, dw) && SameF(d2, dw), "%s " #op " double: %a / %a, expected %a", NameOf<T>(), d1, d2, dw); \
    float fa = x; fa op## = q; VF_CHECK(SameF(fa, w), "float " #op "= %s", NameOf<T>()); \
    AssignF(r = p, y, [](auto& l, auto v) -> decltype(void(l op## = v)) { l op## = v; }, double(w), #op "= float", x, 0); }
  OP(+, Add) OP(-, Sub) OP(*, Mul) OP(/, Div)
#undef OP
  VF_CHECK(B(-p) == (a ^ 0x8000) || IsNaN16(a, f), "unary minus of %s %04x = %04x", NameOf<T>(), a, B(-p));
  VF_CHECK(B(+p) == a || IsNaN16(a, f), "unary plus");
  T t = p; T u = ++t; CheckRes(t, double(x + 1.0f), "++", x, 1); CheckRes(u, double(x + 1.0f), "++", x, 1);
  t = p; u = --t; CheckRes(t, double(x - 1.0f), "--", x, 1); CheckRes(u, double(x - 1.0f), "--", x, 1);
  t = p; u = t++; CheckRes(t, double(x + 1.0f), "post++", x, 1); VF_CHECK(B(u) == a || IsNaN16(a, f), "post++ result");
  t = p; u = t--; CheckRes(t, double(x - 1.0f), "post--", x, 1); VF_CHECK(B(u) == a || IsNaN16(a, f), "post-- result");
#define CMPF(op) VF_CHECK((p op y) == (x op y) && (x op q) == (x op y) && (p op double(y)) == (x op y), "%s vs float: %a " #op " %a", NameOf<T>(), x, y);
  CMPF(==) CMPF(!=) CMPF(<) CMPF(<=) CMPF(>) CMPF(>=)
#undef CMPF
  // small integers are exact in both formats
  const int i = int(s.Below(201)) - 100;
  CheckRes(T(p + i), double(x + float(i)), "+ int", x, i);
  CheckRes(T(i - p), double(float(i) - x), "int -", x, i);
  CheckRes(T(p * i), double(x * float(i)), "* int", x, i);
  VF_CHECK((p < i) == (x < float(i)) && (p == i) == (x == float(i)) && (i >= p) == (float(i) >= x), "%s vs int", NameOf<T>());
  VF_CHECK(B(T(i)) == Encode(i, f), "construct from int %d", i);
  CheckRes(T(y), double(y), "construct from float", y, 0);
  VF_CHECK(SameF(float(p), x), "static_cast<float>");
  cx.evals = 40;
  cx.nontrivial = std::isfinite(x) && std::isfinite(y) && x != 0 && y != 0;
}
#if HWY_HAVE_SCALAR_F16_OPERATORS
VF_REG(VF_PREFIX "ArithF16", 1200000, 12000000, &Arith<float16_t>)
#endif
#if HWY_HAVE_SCALAR_BF16_OPERATORS
VF_REG(VF_PREFIX "ArithBF16", 1200000, 12000000, &Arith<bfloat16_t>)
#endif
}  // namespace
