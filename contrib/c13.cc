// C13: scalar helpers of base.h against direct mathematics (128-bit integers,
// bit loops).  Compiled in several variants; see contrib_checks.py.
#include <type_traits>
#include "hwy/base.h"
#include "vf.h"

#include <cmath>
#include <limits>

namespace {
using vf::Ctx;
using vf::Src;
typedef unsigned __int128 u128;
typedef __int128 i128;
using hwy::bfloat16_t;
using hwy::float16_t;

VF_TASK(BitScan32, 300000, 3000000) {
  uint32_t x = uint32_t(s.Int(32)); if (!x) x = 1;
  cx.Desc([&] { return vf::Fmt("x=%08x", x); });
  size_t lo = 0, hi = 0;
  while (!((x >> lo) & 1)) ++lo;
  while (!((x << hi) & 0x80000000u)) ++hi;
  VF_CHECK(hwy::Num0BitsBelowLS1Bit_Nonzero32(x) == lo, "Num0BitsBelowLS1Bit_Nonzero32(%08x) = %zu, expected %zu", x, hwy::Num0BitsBelowLS1Bit_Nonzero32(x), lo);
  VF_CHECK(hwy::Num0BitsAboveMS1Bit_Nonzero32(x) == hi, "Num0BitsAboveMS1Bit_Nonzero32(%08x) = %zu, expected %zu", x, hwy::Num0BitsAboveMS1Bit_Nonzero32(x), hi);
  cx.nontrivial = x > 1;
}
VF_TASK(BitScan64, 300000, 3000000) {
  uint64_t x = s.Int(64); if (!x) x = 1;
  cx.Desc([&] { return vf::Fmt("x=%016llx", (unsigned long long)x); });
  size_t lo = 0, hi = 0;
  while (!((x >> lo) & 1)) ++lo;
  while (!((x << hi) >> 63)) ++hi;
  VF_CHECK(hwy::Num0BitsBelowLS1Bit_Nonzero64(x) == lo, "Num0BitsBelowLS1Bit_Nonzero64(%llx) = %zu, expected %zu", (unsigned long long)x, hwy::Num0BitsBelowLS1Bit_Nonzero64(x), lo);
  VF_CHECK(hwy::Num0BitsAboveMS1Bit_Nonzero64(x) == hi, "Num0BitsAboveMS1Bit_Nonzero64(%llx) = %zu, expected %zu", (unsigned long long)x, hwy::Num0BitsAboveMS1Bit_Nonzero64(x), hi);
  cx.nontrivial = x > 1;
}

template <typename T> void CheckPop(T x) {
  size_t n = 0;
  for (size_t b = 0; b < 8 * sizeof(T); ++b) n += (uint64_t(x) >> b) & 1;
  VF_CHECK(hwy::PopCount(x) == n, "PopCount of a %zu-byte integer %llx = %zu, expected %zu", sizeof(T), (unsigned long long)x, hwy::PopCount(x), n);
}
VF_TASK(PopCount, 300000, 3000000) {
  const uint64_t x = s.Int(64);
  cx.Desc([&] { return vf::Fmt("x=%016llx", (unsigned long long)x); });
  CheckPop(uint8_t(x)); CheckPop(int8_t(x)); CheckPop(uint16_t(x)); CheckPop(int16_t(x));
  CheckPop(uint32_t(x)); CheckPop(int32_t(x)); CheckPop(x); CheckPop(int64_t(x));
  cx.evals = 8; cx.nontrivial = x != 0;
}

template <typename T> void CheckLog(uint64_t v) {
  T x = T(v);
  if (!(x > 0)) x = 1;
  size_t f = 0;
  while (f + 1 < 64 && (u128(1) << (f + 1)) <= u128(x)) ++f;
  size_t c = 0;
  while ((u128(1) << c) < u128(x)) ++c;
  VF_CHECK(hwy::FloorLog2(x) == f, "FloorLog2(%llu) = %zu, expected %zu", (unsigned long long)x, hwy::FloorLog2(x), f);
  VF_CHECK(hwy::CeilLog2(x) == c, "CeilLog2(%llu) = %zu, expected %zu", (unsigned long long)x, hwy::CeilLog2(x), c);
}
VF_TASK(Log2, 200000, 2000000) {
  const uint64_t x = s.Int(64);
  cx.Desc([&] { return vf::Fmt("x=%016llx", (unsigned long long)x); });
  CheckLog<uint8_t>(x); CheckLog<uint16_t>(x); CheckLog<uint32_t>(x); CheckLog<uint64_t>(x);
  CheckLog<int8_t>(x); CheckLog<int16_t>(x); CheckLog<int32_t>(x); CheckLog<int64_t>(x); CheckLog<size_t>(x);
  cx.evals = 9; cx.nontrivial = x > 1;
}

VF_TASK(Rounding, 300000, 3000000) {
  uint64_t b = s.Int(64); if (b == 0) b = 1;
  uint64_t a = s.Int(64);
  if (s.Bool()) { const uint64_t q = s.Int(32); a = uint64_t(u128(b) * q) + s.Below(5) - 2; }
  cx.Desc([&] { return vf::Fmt("a=%llu b=%llu", (unsigned long long)a, (unsigned long long)b); });
  const u128 q = (u128(a) + b - 1) / b;
  const uint64_t down = uint64_t(u128(a) / b * b);
  VF_CHECK(hwy::RoundDownTo(a, b) == down, "RoundDownTo(%llu, %llu) = %zu, expected %llu", (unsigned long long)a, (unsigned long long)b, hwy::RoundDownTo(a, b), (unsigned long long)down);
  if (u128(a) + b - 1 <= ~uint64_t(0)) {
    VF_CHECK(hwy::DivCeil(a, b) == uint64_t(q), "DivCeil(%llu, %llu) wrong", (unsigned long long)a, (unsigned long long)b);
    const u128 up = q * b;
    if (up <= ~uint64_t(0)) VF_CHECK(hwy::RoundUpTo(a, b) == uint64_t(up), "RoundUpTo(%llu, %llu) = %zu", (unsigned long long)a, (unsigned long long)b, hwy::RoundUpTo(a, b));
  }
  const int64_t sa = int64_t(a >> 2), sb = int64_t(b >> 2) ? int64_t(b >> 2) : 1;
  VF_CHECK(hwy::DivCeil(sa, sb) == int64_t((i128(sa) + sb - 1) / sb), "DivCeil<int64_t>(%lld, %lld) wrong", (long long)sa, (long long)sb);
  const int ia = int(a & 0x3FFFFFFF), ib = int(b & 0x3FFFFFFF) ? int(b & 0x3FFFFFFF) : 1;
  VF_CHECK(hwy::DivCeil(ia, ib) == int((int64_t(ia) + ib - 1) / ib), "DivCeil<int>(%d, %d) wrong", ia, ib);
  cx.evals = 4; cx.nontrivial = a != 0;
}

template <typename T> void CheckShr(uint64_t v, int amt) {
  amt %= int(8 * sizeof(T));
  const T x = T(v);
  // floor division by 2^amt
  const i128 wide = i128(x);
  const i128 p = i128(1) << amt;
  i128 q = wide / p; if (wide % p < 0) --q;
  VF_CHECK(hwy::ScalarShr(x, amt) == T(q), "ScalarShr<%zu bytes, %s>(%lld, %d) = %lld, expected %lld", sizeof(T), hwy::IsSigned<T>() ? "signed" : "unsigned", (long long)x, amt, (long long)hwy::ScalarShr(x, amt), (long long)T(q));
}
VF_TASK(ScalarShr, 200000, 2000000) {
  const uint64_t x = s.Int(64); const int a = int(s.Below(64));
  cx.Desc([&] { return vf::Fmt("x=%016llx amt=%d", (unsigned long long)x, a); });
  CheckShr<uint8_t>(x, a); CheckShr<uint16_t>(x, a); CheckShr<uint32_t>(x, a); CheckShr<uint64_t>(x, a);
  CheckShr<int8_t>(x, a); CheckShr<int16_t>(x, a); CheckShr<int32_t>(x, a); CheckShr<int64_t>(x, a);
  cx.evals = 8; cx.nontrivial = x != 0 && a != 0;
}

template <typename T> void CheckWrap(uint64_t v, uint64_t inc) {
  const T x = T(v);
  const T want = T(hwy::MakeUnsigned<T>(v + inc));
  VF_CHECK(hwy::AddWithWraparound(x, inc) == want, "AddWithWraparound<%zu bytes>(%lld, %llu) = %lld, expected %lld", sizeof(T), (long long)x, (unsigned long long)inc, (long long)hwy::AddWithWraparound(x, inc), (long long)want);
  const int si = int(inc);
  const T want2 = T(hwy::MakeUnsigned<T>(v + uint64_t(int64_t(si))));
  VF_CHECK(hwy::AddWithWraparound(x, si) == want2, "AddWithWraparound<%zu bytes>(%lld, int %d) wrong", sizeof(T), (long long)x, si);
}
VF_TASK(AddWithWraparound, 200000, 2000000) {
  const uint64_t x = s.Int(64), i = s.Int(64);
  cx.Desc([&] { return vf::Fmt("x=%016llx inc=%016llx", (unsigned long long)x, (unsigned long long)i); });
  CheckWrap<uint8_t>(x, i); CheckWrap<uint16_t>(x, i); CheckWrap<uint32_t>(x, i); CheckWrap<uint64_t>(x, i);
  CheckWrap<int8_t>(x, i); CheckWrap<int16_t>(x, i); CheckWrap<int32_t>(x, i); CheckWrap<int64_t>(x, i);
  const float f = float(int32_t(x)); const double d = double(int64_t(x));
  const int32_t n = int32_t(i);
  VF_CHECK(hwy::AddWithWraparound(f, n) == f + float(n), "AddWithWraparound<float>");
  VF_CHECK(hwy::AddWithWraparound(d, n) == d + double(n), "AddWithWraparound<double>");
  // small integers are exact in the 16-bit types
  const int si = int(x % 64), sj = int(i % 64);
  cx.evals = 12;
}

VF_TASK(Mul128, 400000, 4000000) {
  const uint64_t a = s.Int(64), b = s.Int(64);
  cx.Desc([&] { return vf::Fmt("a=%016llx b=%016llx", (unsigned long long)a, (unsigned long long)b); });
  uint64_t hi = 0;
  const uint64_t lo = hwy::Mul128(a, b, &hi);
  const u128 p = u128(a) * b;
  VF_CHECK(lo == uint64_t(p) && hi == uint64_t(p >> 64), "Mul128 unsigned %llx * %llx = %llx:%llx", (unsigned long long)a, (unsigned long long)b, (unsigned long long)hi, (unsigned long long)lo);
  int64_t shi = 0;
  const int64_t slo = hwy::Mul128(int64_t(a), int64_t(b), &shi);
  const i128 sp = i128(int64_t(a)) * int64_t(b);
  VF_CHECK(slo == int64_t(sp) && shi == int64_t(sp >> 64), "Mul128 signed %lld * %lld = %llx:%llx", (long long)a, (long long)b, (unsigned long long)shi, (unsigned long long)slo);
  cx.evals = 2; cx.nontrivial = a > 1 && b > 1;
}

VF_TASK(Divisor32, 60000, 1500000) {
  uint32_t d = uint32_t(s.Int(32)); if (!d) d = 1;
  cx.Desc([&] { return vf::Fmt("divisor=%u", d); });
  const hwy::Divisor div(d);
  VF_CHECK(div.GetDivisor() == d, "GetDivisor");
  auto chk = [&](uint32_t n) {
    VF_CHECK(div.Divide(n) == n / d, "Divisor(%u).Divide(%u) = %u, expected %u", d, n, div.Divide(n), n / d);
    VF_CHECK(div.Remainder(n) == n % d, "Divisor(%u).Remainder(%u) = %u, expected %u", d, n, div.Remainder(n), n % d);
  };
  const uint32_t qmax = 0xFFFFFFFFu / d;
  for (int k = 0; k < 24; ++k) {
    const uint32_t q = k == 0 ? qmax : uint32_t(s.Below(uint64_t(qmax) + 1));
    const uint32_t m = q * d;
    chk(m); chk(m - 1); chk(m + 1); chk(m + (d - 1)); chk(uint32_t(s.Int(32)));
  }
  chk(0); chk(0xFFFFFFFFu);
  cx.evals = 122; cx.nontrivial = d > 1;
}
VF_TASK(Divisor64, 60000, 1500000) {
  uint64_t d = s.Int(64); if (!d) d = 1;
  cx.Desc([&] { return vf::Fmt("divisor=%llu", (unsigned long long)d); });
  const hwy::Divisor64 div(d);
  VF_CHECK(div.GetDivisor() == d, "GetDivisor");
  auto chk = [&](uint64_t n) {
    VF_CHECK(div.Divide(n) == n / d, "Divisor64(%llu).Divide(%llu) = %llu, expected %llu", (unsigned long long)d, (unsigned long long)n, (unsigned long long)div.Divide(n), (unsigned long long)(n / d));
    VF_CHECK(div.Remainder(n) == n % d, "Divisor64(%llu).Remainder(%llu) = %llu", (unsigned long long)d, (unsigned long long)n, (unsigned long long)div.Remainder(n));
  };
  const uint64_t qmax = ~0ull / d;
  for (int k = 0; k < 24; ++k) {
    const uint64_t q = k == 0 ? qmax : (qmax == ~0ull ? s.Bits() : s.Below(qmax + 1));
    const uint64_t m = q * d;
    chk(m); chk(m - 1); chk(m + 1); chk(m + (d - 1)); chk(s.Int(64));
  }
  chk(0); chk(~0ull);
  cx.evals = 122; cx.nontrivial = d > 1;
}

// ---- float classification and sign helpers
template <typename F> struct Bits;
template <> struct Bits<float> { using U = uint32_t; static constexpr int kMant = 23; };
template <> struct Bits<double> { using U = uint64_t; static constexpr int kMant = 52; };
template <> struct Bits<float16_t> { using U = uint16_t; static constexpr int kMant = 10; };
template <> struct Bits<bfloat16_t> { using U = uint16_t; static constexpr int kMant = 7; };
template <typename F> typename Bits<F>::U ToB(F f) { typename Bits<F>::U u; memcpy(&u, &f, sizeof u); return u; }
template <typename F> F FromB(typename Bits<F>::U u) { F f; memcpy(static_cast<void*>(&f), &u, sizeof u); return f; }

template <typename F> void CheckFloat(uint64_t v, uint64_t v2) {
  using U = typename Bits<F>::U;
  constexpr int W = 8 * sizeof(U), M = Bits<F>::kMant;
  const U sign = U(U(1) << (W - 1)), em = U((U(1) << (W - 1)) - (U(1) << M)), mm = U((U(1) << M) - 1);
  const U b = U(v), b2 = U(v2);
  const F f = FromB<F>(b), g = FromB<F>(b2);
  const bool nan = (b & em) == em && (b & mm), inf = (b & U(~sign)) == em;
  VF_CHECK(hwy::ScalarIsNaN(f) == nan, "ScalarIsNaN(%zu-byte %llx) wrong", sizeof(F), (unsigned long long)b);
  VF_CHECK(hwy::ScalarIsInf(f) == inf, "ScalarIsInf(%zu-byte %llx) wrong", sizeof(F), (unsigned long long)b);
  VF_CHECK(hwy::ScalarIsFinite(f) == (!nan && !inf), "ScalarIsFinite(%zu-byte %llx) wrong", sizeof(F), (unsigned long long)b);
  VF_CHECK(hwy::ScalarSignBit(f) == ((b & sign) != 0), "ScalarSignBit(%zu-byte %llx) wrong", sizeof(F), (unsigned long long)b);
  VF_CHECK(ToB(hwy::ScalarAbs(f)) == U(b & U(~sign)), "ScalarAbs(%zu-byte %llx) wrong", sizeof(F), (unsigned long long)b);
  VF_CHECK(ToB(hwy::ScalarCopySign(f, g)) == U((b & U(~sign)) | (b2 & sign)), "ScalarCopySign(%zu-byte %llx, %llx) wrong", sizeof(F), (unsigned long long)b, (unsigned long long)b2);
  VF_CHECK((hwy::SignMask<F>() == sign) && (hwy::ExponentMask<F>() == em) && (hwy::MantissaMask<F>() == mm), "float field masks wrong (%zu bytes)", sizeof(F));
}
template <typename T> void CheckIntAbs(uint64_t v) {
  const T x = T(v);
  const i128 w = i128(x);
  VF_CHECK(hwy::ScalarAbs(x) == T(w < 0 ? -w : w), "ScalarAbs<%zu-byte int>(%lld) wrong", sizeof(T), (long long)x);
  VF_CHECK(hwy::ScalarIsFinite(x), "ScalarIsFinite(int)");
  VF_CHECK(hwy::ScalarSignBit(x) == (((uint64_t(x) >> (8 * sizeof(T) - 1)) & 1) != 0), "ScalarSignBit<%zu-byte int>(%llx) wrong", sizeof(T), (unsigned long long)x);
}
VF_TASK(FloatClass, 200000, 2000000) {
  auto gen = [&](int m, int w) -> uint64_t {
    const uint64_t b = s.Int(w);
    if (s.Chance(1, 3)) return (b & (1ull << (w - 1))) | ((((1ull << (w - 1 - m)) - 1) - s.Below(2)) << m) | (s.Bool() ? 0 : s.Int(m));
    return b;
  };
  const uint64_t a = gen(10, 16), b = gen(10, 16), c = gen(7, 16), d = gen(7, 16), e = gen(23, 32), f = gen(23, 32), g = gen(52, 64), h = gen(52, 64);
  cx.Desc([&] { return vf::Fmt("f16=%llx bf16=%llx f32=%llx f64=%llx", (unsigned long long)a, (unsigned long long)c, (unsigned long long)e, (unsigned long long)g); });
  CheckFloat<float16_t>(a, b); CheckFloat<bfloat16_t>(c, d); CheckFloat<float>(e, f); CheckFloat<double>(g, h);
  CheckIntAbs<uint8_t>(g); CheckIntAbs<int8_t>(g); CheckIntAbs<uint16_t>(g); CheckIntAbs<int16_t>(g);
  CheckIntAbs<uint32_t>(g); CheckIntAbs<int32_t>(g); CheckIntAbs<uint64_t>(g); CheckIntAbs<int64_t>(g);
  cx.evals = 52;
}

// ---- limits
template <typename T> void CheckIntLimits() {
  using L = std::numeric_limits<T>;
  VF_CHECK(hwy::LimitsMax<T>() == L::max() && hwy::LimitsMin<T>() == L::min(), "LimitsMin/Max of %zu-byte %s", sizeof(T), L::is_signed ? "signed" : "unsigned");
  VF_CHECK(hwy::LowestValue<T>() == L::lowest() && hwy::HighestValue<T>() == L::max(), "Lowest/HighestValue of %zu-byte %s", sizeof(T), L::is_signed ? "signed" : "unsigned");
  VF_CHECK(hwy::NegativeInfOrLowestValue<T>() == L::lowest() && hwy::PositiveInfOrHighestValue<T>() == L::max(), "*OrLowest/HighestValue of %zu-byte int", sizeof(T));
  VF_CHECK(hwy::Epsilon<T>() == T(1), "Epsilon<int>");
  VF_CHECK(hwy::IsSigned<T>() == L::is_signed, "IsSigned %zu", sizeof(T));
  VF_CHECK(!hwy::IsFloat<T>() && !hwy::IsFloat3264<T>() && !hwy::IsSpecialFloat<T>() && hwy::IsInteger<T>() && hwy::IsIntegerLaneType<T>(), "type predicates of %zu-byte int", sizeof(T));
  VF_CHECK((hwy::IsSame<hwy::MakeUnsigned<T>, typename std::make_unsigned<T>::type>()) && (hwy::IsSame<hwy::MakeSigned<T>, typename std::make_signed<T>::type>()), "MakeUnsigned/MakeSigned");
}
template <typename F> void CheckFloatLimits() {
  using U = typename Bits<F>::U;
  constexpr int W = 8 * sizeof(U), M = Bits<F>::kMant, E = W - 1 - M, B = (1 << (E - 1)) - 1;
  const U em = U(((U(1) << E) - 1) << M);
  const U sign = U(U(1) << (W - 1));
  VF_CHECK(ToB(hwy::HighestValue<F>()) == U(em - 1), "HighestValue of %zu-byte float", sizeof(F));
  VF_CHECK(ToB(hwy::LowestValue<F>()) == U((em - 1) | sign), "LowestValue of %zu-byte float", sizeof(F));
  VF_CHECK(ToB(hwy::PositiveInfOrHighestValue<F>()) == em && ToB(hwy::NegativeInfOrLowestValue<F>()) == U(em | sign), "infinities of %zu-byte float", sizeof(F));
  VF_CHECK(ToB(hwy::Epsilon<F>()) == U(U(B - M) << M), "Epsilon of %zu-byte float, %d mantissa bits", sizeof(F), M);
  VF_CHECK(hwy::MantissaBits<F>() == M && hwy::ExponentBits<F>() == E, "MantissaBits/ExponentBits");
  VF_CHECK(ToB(hwy::MantissaEnd<F>()) == U(U(B + M) << M), "MantissaEnd of %zu-byte float", sizeof(F));
  VF_CHECK(uint64_t(hwy::MaxExponentField<F>()) == (1ull << E) - 1, "MaxExponentField");
  VF_CHECK(U(hwy::MaxExponentTimes2<F>()) == U(em << 1), "MaxExponentTimes2");
  VF_CHECK((hwy::IsFloat<F>() != hwy::IsSame<F, bfloat16_t>()), "IsFloat");
  VF_CHECK(hwy::IsSigned<F>() && !hwy::IsInteger<F>(), "float type predicates");
  VF_CHECK(hwy::IsFloat3264<F>() == (sizeof(F) >= 4) && hwy::IsSpecialFloat<F>() == (sizeof(F) == 2), "IsFloat3264/IsSpecialFloat");
  VF_CHECK((hwy::IsSame<hwy::MakeUnsigned<F>, U>()) && sizeof(hwy::MakeSigned<F>) == sizeof(F), "MakeUnsigned of float");
}
VF_TASK(Limits, 4, 4) {
  (void)s;
  CheckIntLimits<uint8_t>(); CheckIntLimits<int8_t>(); CheckIntLimits<uint16_t>(); CheckIntLimits<int16_t>();
  CheckIntLimits<uint32_t>(); CheckIntLimits<int32_t>(); CheckIntLimits<uint64_t>(); CheckIntLimits<int64_t>();
  CheckFloatLimits<float16_t>(); CheckFloatLimits<bfloat16_t>(); CheckFloatLimits<float>(); CheckFloatLimits<double>();
  VF_CHECK((hwy::IsSame<hwy::MakeWide<uint8_t>, uint16_t>()) && (hwy::IsSame<hwy::MakeWide<int32_t>, int64_t>()) && (hwy::IsSame<hwy::MakeWide<float>, double>()) && (hwy::IsSame<hwy::MakeWide<float16_t>, float>()) && (hwy::IsSame<hwy::MakeWide<bfloat16_t>, float>()), "MakeWide");
  VF_CHECK((hwy::IsSame<hwy::MakeNarrow<uint16_t>, uint8_t>()) && (hwy::IsSame<hwy::MakeNarrow<int64_t>, int32_t>()) && (hwy::IsSame<hwy::MakeNarrow<double>, float>()) && (hwy::IsSame<hwy::MakeNarrow<float>, float16_t>()), "MakeNarrow");
  VF_CHECK((hwy::IsSame<hwy::MakeFloat<int32_t>, float>()) && (hwy::IsSame<hwy::MakeFloat<uint64_t>, double>()) && (hwy::IsSame<hwy::MakeFloat<int16_t>, float16_t>()), "MakeFloat");
  VF_CHECK((hwy::IsSame<hwy::UnsignedFromSize<4>, uint32_t>()) && (hwy::IsSame<hwy::SignedFromSize<8>, int64_t>()) && (hwy::IsSame<hwy::FloatFromSize<2>, float16_t>()), "TypeFromSize");
  cx.evals = 150;
}

// ---- bytes
VF_TASK(Bytes, 100000, 1000000) {
  static vf::Guarded g1, g2;
  const size_t n = s.Len(300, 16);
  uint8_t* a = g1.Arr<uint8_t>(s, n); uint8_t* b = g2.Arr<uint8_t>(s, n);
  vf::Rng r = s.Sub();
  for (size_t i = 0; i < n; ++i) { a[i] = uint8_t(r()); b[i] = uint8_t(r()); }
  cx.Desc([&] { return vf::Fmt("n=%zu", n); });
  hwy::CopyBytes(a, b, n);
  VF_CHECK(n == 0 || memcmp(a, b, n) == 0, "CopyBytes of %zu bytes", n);
  g2.Check("CopyBytes");
  hwy::ZeroBytes(b, n);
  for (size_t i = 0; i < n; ++i) VF_CHECK(b[i] == 0, "ZeroBytes(%zu): byte %zu not zero", n, i);
  g2.Check("ZeroBytes");
  const uint64_t v = r(); uint8_t o[24]; memset(o, 7, sizeof o);
  hwy::CopyBytes<8>(&v, o + 8);
  VF_CHECK(memcmp(&v, o + 8, 8) == 0 && o[7] == 7 && o[16] == 7, "CopyBytes<8>");
  hwy::CopyBytes<3>(&v, o);
  VF_CHECK(memcmp(&v, o, 3) == 0 && o[3] == 7, "CopyBytes<3>");
  hwy::ZeroBytes<5>(o + 16);
  VF_CHECK(o[16] == 0 && o[20] == 0 && o[21] == 7, "ZeroBytes<5>");
  double dd; hwy::CopySameSize(&v, &dd);
  VF_CHECK(memcmp(&dd, &v, 8) == 0, "CopySameSize");
  VF_CHECK(hwy::BitCastScalar<uint64_t>(dd) == v && hwy::BitCastScalar<uint32_t>(hwy::BitCastScalar<float>(uint32_t(v))) == uint32_t(v), "BitCastScalar %llx", (unsigned long long)v);
  cx.evals = 7; cx.nontrivial = n > 0;
}

// ---- 128-bit and key-value comparisons
VF_TASK(Compare128, 200000, 2000000) {
  const bool near = s.Bool();
  hwy::uint128_t a, b;
  a.lo = s.Int(64); a.hi = s.Int(64);
  b.lo = near && s.Bool() ? a.lo : s.Int(64); b.hi = near ? a.hi : s.Int(64);
  cx.Desc([&] { return vf::Fmt("a=%llx:%llx b=%llx:%llx", (unsigned long long)a.hi, (unsigned long long)a.lo, (unsigned long long)b.hi, (unsigned long long)b.lo); });
  const u128 x = (u128(a.hi) << 64) | a.lo, y = (u128(b.hi) << 64) | b.lo;
  VF_CHECK((a < b) == (x < y) && (a > b) == (x > y) && (a == b) == (x == y), "uint128_t comparison of %llx:%llx and %llx:%llx", (unsigned long long)a.hi, (unsigned long long)a.lo, (unsigned long long)b.hi, (unsigned long long)b.lo);
  hwy::K64V64 k, l; k.key = a.hi; k.value = a.lo; l.key = b.hi; l.value = b.lo;
  VF_CHECK((k < l) == (k.key < l.key) && (k > l) == (k.key > l.key) && (k == l) == (k.key == l.key), "K64V64 comparison");
  hwy::K32V32 p, q; p.key = uint32_t(a.hi); p.value = uint32_t(a.lo); q.key = uint32_t(b.hi); q.value = uint32_t(b.lo);
  VF_CHECK((p < q) == (p.key < q.key) && (p > q) == (p.key > q.key) && (p == q) == (p.key == q.key), "K32V32 comparison");
  VF_CHECK(HWY_MIN(a.lo, b.lo) == (a.lo < b.lo ? a.lo : b.lo) && HWY_MAX(a.lo, b.lo) == (a.lo < b.lo ? b.lo : a.lo), "HWY_MIN/HWY_MAX");
  cx.evals = 10;
}
}  // namespace
