#include "c27.h"
#include <stdio.h>
#include <stdlib.h>
#include <limits>
#include "hwy/detect_targets.h"
namespace c27 {
static const double kF = FLT_MAX, kD = DBL_MAX;
// Documented ranges and maximum errors of math-inl.h.
static const Info kInfo[kNumFn] = {
    {"Acos", -1, 1, -1, 1, 2}, {"Acosh", 1, kF, 1, kD, 3}, {"Asin", -1, 1, -1, 1, 2}, {"Asinh", -kF, kF, -kD, kD, 3}, {"Atan", -kF, kF, -kD, kD, 3},
    {"Atanh", -1 + 0x1p-24, 1 - 0x1p-24, -1 + 0x1p-53, 1 - 0x1p-53, 3}, {"Atan2", -kF, kF, -kD, kD, 4}, {"Cos", -39000, 39000, -39000, 39000, 3},
    {"Exp", -kF, 104, -kD, 706, 1}, {"Exp2", -kF, 128, -kD, 1024, 2}, {"Expm1", -kF, 104, -kD, 706, 4},
    {"Log", 0x1p-149, kF, 0x1p-1074, kD, 4}, {"Log10", 0x1p-149, kF, 0x1p-1074, kD, 2}, {"Log1p", 0, kF, 0, kD, 2}, {"Log2", 0x1p-149, kF, 0x1p-1074, kD, 2},
    {"Sin", -39000, 39000, -39000, 39000, 3}, {"Sinh", -88.7228, 88.7228, -709, 709, 4}, {"Tanh", -kF, kF, -kD, kD, 4},
    {"SinCos.sin", -39000, 39000, -39000, 39000, 1}, {"SinCos.cos", -39000, 39000, -39000, 39000, 1}, {"Hypot", -kF, kF, -kD, kD, 4}};
const Info& InfoOf(Fn f) { return kInfo[f]; }

#define CASES(S)                                                                                                   \
  switch (f) {                                                                                                     \
    case kAcos: return acos##S(x); case kAcosh: return acosh##S(x); case kAsin: return asin##S(x);                 \
    case kAsinh: return asinh##S(x); case kAtan: return atan##S(x); case kAtanh: return atanh##S(x);               \
    case kAtan2: return atan2##S(x, y); case kCos: case kSinCosCos: return cos##S(x); case kExp: return exp##S(x); \
    case kExp2: return exp2##S(x); case kExpm1: return expm1##S(x); case kLog: return log##S(x);                   \
    case kLog10: return log10##S(x); case kLog1p: return log1p##S(x); case kLog2: return log2##S(x);               \
    case kSin: case kSinCosSin: return sin##S(x); case kSinh: return sinh##S(x); case kTanh: return tanh##S(x);    \
    default: return hypot##S(x, y);                                                                                \
  }
double Ref(Fn f, float xf, float yf) { const double x = xf, y = yf; CASES() }
long double Ref(Fn f, double xd, double yd) { const long double x = xd, y = yd; CASES(l) }

template <class T> struct Tr;
template <> struct Tr<float> { using U = uint32_t; static constexpr int kMant = 23, kBits = 32; };
template <> struct Tr<double> { using U = uint64_t; static constexpr int kMant = 52, kBits = 64; };
template <class T> T FromBits(uint64_t b) { typename Tr<T>::U u = typename Tr<T>::U(b); T v; memcpy(&v, &u, sizeof v); return v; }
template <class T> uint64_t ToBits(T v) { typename Tr<T>::U u; memcpy(&u, &v, sizeof v); return u; }

template <class T> static T One(Fn f, vf::Rng& r, int mode, double c, double w) {
  const double lo = sizeof(T) == 4 ? InfoOf(f).lo32 : InfoOf(f).lo64, hi = sizeof(T) == 4 ? InfoOf(f).hi32 : InfoOf(f).hi64;
  const double u = double(r() >> 11) * 0x1p-53;
  T v = T(0);
  switch (mode) {
    case 0:  // uniform in the bit patterns of the range
      for (int k = 0; k < 200; ++k) {
        v = FromBits<T>(r());
        if (v >= lo && v <= hi) return v;
        // exponent restricted
        const int emax = hi >= 1e300 || (sizeof(T) == 4 && hi > 1e30) ? 0 : ilogb(fmax(fabs(lo), fabs(hi)));
        if (emax || (fabs(hi) <= 1)) {
          const uint64_t bias = sizeof(T) == 4 ? 127 : 1023;
          const uint64_t e = r.Below(bias + uint64_t(int64_t(emax)) + 1);
          v = FromBits<T>((r() & ((1ull << Tr<T>::kMant) - 1)) | (e << Tr<T>::kMant) | (r.Below(2) << (Tr<T>::kBits - 1)));
          if (v >= lo && v <= hi) return v;
        }
      }
      return T(1);
    case 1: v = T(c + w * (2 * u - 1)); break;       // window around a point
    case 2: {                                        // adjacent values
      v = T(c);
      const uint64_t k = r.Below(17);
      v = FromBits<T>(ToBits(v) + k - 8);
      break;
    }
    case 3: v = T((u * 2 - 1) * fmin(fmax(fabs(lo), fabs(hi)), w)); break;  // uniform in value
    default: {                                       // small/large magnitudes
      const int e = int(r.Below(64)) - 48;
      v = T(ldexp(1 + u, e)); if (r.Below(2)) v = -v;
      break;
    }
  }
  if (!(v >= lo)) v = T(lo);
  if (!(v <= hi)) v = T(hi);
  if (v > hi) v = FromBits<T>(ToBits(v) - 1);
  if (v < lo) v = FromBits<T>(lo < 0 ? ToBits(v) - 1 : ToBits(v) + 1);
  return v;
}
template <class T> void Gen(Fn f, vf::Src& s, T* x, T* y, size_t n) {
  const int mode = int(s.Below(5));
  const double kPi = 3.14159265358979323846, kLn2 = 0.69314718055994530942;
  double c = 0, w = 1;
  const double lo = sizeof(T) == 4 ? InfoOf(f).lo32 : InfoOf(f).lo64, hi = sizeof(T) == 4 ? InfoOf(f).hi32 : InfoOf(f).hi64;
  const int64_t k = s.Range(0, 60) - 30;
  switch (s.Below(9)) {
    case 0: c = 0; break;
    case 1: c = double(k) * kPi / 4; break;
    case 2: c = double(s.Range(-49656, 49656)) * kPi / 4; break;
    case 3: c = (double(k) + 0.5) * kLn2; break;
    case 4: c = ldexp(1.0, int(s.Range(-40, 40))) * (s.Bool() ? 1 : -1); break;
    case 5: c = s.Bool() ? lo : hi; break;
    case 6: { static const double t[] = {0.5, 1, 1.4142135623730951, 0.70710678118654752, 0.6, 0.3, 0.35, 1.5, 2, 10, 22, 88.0, 88.7228, -87.3, -103.97, -104, 709.78, -708.4, -745.1, 104, 128, -126, -149, -150, 1024, -1022, -1074, 2147483648.0, 4294967296.0, 4503599627370496.0, 8388608.0, 1e18};
      c = t[s.Below(sizeof t / sizeof t[0])] * (s.Bool() ? 1 : -1); break; }
    case 7: c = double(k) / 8; break;
    default: c = double(s.Range(-1500, 1500)); break;
  }
  { static const double ws[] = {1e-6, 1e-3, 0.05, 1, 10, 100, 1000, 39000}; w = ws[s.Below(8)]; }
  vf::Rng r = s.Sub();
  for (size_t i = 0; i < n; ++i) x[i] = One<T>(f, r, mode, c, w);
  if (f == kAtan2 || f == kHypot) {
    static const double sp[] = {0.0, -0.0, INFINITY, -INFINITY, NAN, 1, -1};
    const int ymode = int(s.Below(6));
    for (size_t i = 0; i < n; ++i) {
      if (ymode == 0) y[i] = One<T>(f, r, mode, c, w);
      else if (ymode == 1) y[i] = One<T>(f, r, 0, c, w);
      else if (ymode == 2) { y[i] = T(x[i] * (0.25 + double(r() >> 11) * 0x1p-51)); if (r.Below(2)) y[i] = -y[i]; }
      else if (ymode == 3) { y[i] = T(sp[r.Below(7)]); if (r.Below(2)) x[i] = T(sp[r.Below(7)]); else if (r.Below(4) == 0) { const T t = x[i]; x[i] = y[i]; y[i] = t; } }
      else if (ymode == 4) y[i] = T(ldexp(double(x[i]), int(r.Below(120)) - 60));
      else { x[i] = FromBits<T>(r()); y[i] = FromBits<T>(r()); }
    }
  } else {
    for (size_t i = 0; i < n; ++i) y[i] = T(0);
  }
}
template void Gen<float>(Fn, vf::Src&, float*, float*, size_t);
template void Gen<double>(Fn, vf::Src&, double*, double*, size_t);

// |got - true| in units of the spacing at the true value (subnormal spacing
// at least).
template <class T, class W> static double UlpErr(W t, T got) {
  if (got != got || t != t) return (got != got && t != t) ? 0 : INFINITY;
  const T r = T(t);  // correctly rounded
  if (isinf(r) || isinf(got)) {
    if (r == got) return 0;
    if (isinf(r) && isinf(got)) return INFINITY;
    // bit distance to the largest finite number
    const uint64_t a = ToBits(r), b = ToBits(got);
    return double(a > b ? a - b : b - a);
  }
  int e = t == 0 ? -100000 : ilogbl(t);
  const int emin = sizeof(T) == 4 ? -126 : -1022;
  if (e < emin) e = emin;
  const long double ulp = ldexpl(1.0L, e - Tr<T>::kMant);
  return double(fabsl((long double)got - (long double)t) / ulp);
}
static const char* g_measure = getenv("VF_MEASURE");
struct Max { double v[2][2][kNumFn]; };
static Max g_max;
template <class T> void Judge(Fn f, const char* target, bool fma, T x, T y, T got) {
  const auto t = Ref(f, x, y);
  double err;
  if (f == kAtan2 && got == 0 && !signbit(got) != !signbit(x)) VF_FAIL("Atan2(%.17g, %.17g): sign of zero", double(x), double(y));
  if (f == kHypot && (isinf(x) || isinf(y))) err = isinf(got) && got > 0 ? 0 : INFINITY;
  else err = UlpErr<T>(t, got);
  // Error relative to the correctly rounded result plus its rounding.
  if (g_measure && (f == kSinCosSin || f == kSinCosCos)) {
    static double mx[2][2][2][3];
    const double eps = ldexp(1.0, -Tr<T>::kMant);
    const double ab = double(fabsl((long double)got - (long double)t)) / eps;
    const double v[3] = {ab, ab / fmax(1, fabs(double(x))), fabs(double(t)) > 0.5 ? err : 0};
    for (int k = 0; k < 3; ++k) {
      double& m = mx[sizeof(T) == 8][fma][f == kSinCosSin][k];
      if (v[k] > m) { m = v[k]; fprintf(stderr, "MEASURE %s%d %s fma=%d %.3f x=%.9g (%a) y=%.9g got=%.9g want=%.9g %s\n", InfoOf(f).name, k, sizeof(T) == 4 ? "f32" : "f64", fma, v[k], double(x), double(x), double(y), double(got), double(t), target); }
    }
  }
  if (g_measure) {
    double& m = g_max.v[sizeof(T) == 8][fma][f];
    if (err > m) { m = err; fprintf(stderr, "MEASURE %s %s fma=%d %.3f x=%.9g (%a) y=%.9g got=%.9g want=%.9g %s\n", InfoOf(f).name, sizeof(T) == 4 ? "f32" : "f64", fma, err, double(x), double(x), double(y), double(got), double(t), target); }
    return;
  }
  if (err <= InfoOf(f).ulp + 0.51) return;
  // Known finding (known_findings.txt): SinCos exceeds its documented 1 ulp
  // where the result is close to zero, and for large |x| on float32 targets
  // without FMA. The absolute error there is still bounded.
  static const bool listed = vf::KnownListed("SinCos");
  if (listed && (f == kSinCosSin || f == kSinCosCos)) {
    const double eps = ldexp(1.0, -Tr<T>::kMant);
    const bool f32_nofma = sizeof(T) == 4 && !fma;
    const double limit = f32_nofma ? 0.75 + 5.0 * fabs(double(x)) / 39000 : 0.75;
    const bool in_class = f32_nofma ? fabs(double(x)) > 1.5 : fabs(double(t)) < 0.375;
    if (in_class && double(fabsl((long double)got - (long double)t)) <= limit * eps) return;
  }
  VF_FAIL("%s(%.17g [%a]%s) = %.17g, reference %.20Lg: error %.2f ulp, documented %d", InfoOf(f).name, double(x), double(x),
          f == kAtan2 || f == kHypot ? vf::Fmt(", %.17g", double(y)).c_str() : "", double(got), (long double)t, err, InfoOf(f).ulp);
}
template void Judge<float>(Fn, const char*, bool, float, float, float);
template void Judge<double>(Fn, const char*, bool, double, double, double);

std::vector<Eval>& Evals() { static std::vector<Eval> e; return e; }
// Upper bound of |got - t| / ulp, exact except near powers of two.
static inline double FastErr(double t, float got) {
  uint64_t b; memcpy(&b, &t, 8);
  int64_t e = int64_t((b >> 52) & 0x7FF);
  if (e == 0x7FF) return INFINITY;
  if (e < 1023 - 126) e = 1023 - 126;
  const uint64_t inv = uint64_t(1023 + 1023 + 23 - e) << 52;  // 1/ulp
  double i; memcpy(&i, &inv, 8);
  return fabs(double(got) - t) * i;
}
static inline double FastErr(long double t, double got) {
  const double td = double(t);
  uint64_t b; memcpy(&b, &td, 8);
  int64_t e = int64_t((b >> 52) & 0x7FF);
  if (e == 0x7FF) return INFINITY;
  if (e < 60) return INFINITY;
  const uint64_t u = uint64_t(e - 52) << 52;
  double ulp; memcpy(&ulp, &u, 8);
  // t may have been rounded up to the next power of two.
  return 2 * double(fabsl((long double)got - t) / (long double)ulp);
}
template <class T, Fn kFn> static void Sweep(vf::Src& s, vf::Ctx& cx) {
  constexpr bool kF32 = sizeof(T) == 4;
  // Case: 2^20 adjacent values of the upper 32 bits, subsampled.
  static const char* env = getenv("VF_STRIDE");
  const uint64_t stride = env ? strtoull(env, nullptr, 10) : kF32 ? (cx.thorough ? 4 : 64) : (cx.thorough ? 16 : 256);
  const uint64_t chunk = s.Enum(4096), off = s.Below(stride);
  vf::Rng r = s.Sub();
  const double lo = kF32 ? InfoOf(kFn).lo32 : InfoOf(kFn).lo64, hi = kF32 ? InfoOf(kFn).hi32 : InfoOf(kFn).hi64;
  constexpr size_t kB = 1024;
  alignas(64) static T x[kB], out[kB];
  static std::vector<decltype(Ref(kFn, T(0), T(0)))> ref(kB);
  uint64_t evals = 0;
  uint64_t v = (chunk << 20) + off;
  const uint64_t end = (chunk + 1) << 20;
  const double bound = InfoOf(kFn).ulp;
  while (v < end) {
    size_t n = 0;
    while (n < kB && v < end) {
      const T t = kF32 ? FromBits<T>(v) : FromBits<T>((v << 32) | (r() >> 32));
      v += stride;
      if (!(t >= T(lo) && t <= T(hi))) continue;
      x[n] = t;
      ref[n] = Ref(kFn, t, T(0));
      ++n;
    }
    if (n == 0) continue;
    for (size_t i = n; i < kB; ++i) { x[i] = x[0]; ref[i] = ref[0]; }
    for (const Eval& e : Evals()) {
      if (e.f != kFn || !vf::TargetUsable(e.target)) continue;
      if ((e.target == HWY_EMU128 || e.target == HWY_SCALAR) && r.Below(16) != 0) continue;  // slow
      if constexpr (kF32) e.f32(x, out, kB);
      else { if (!e.f64) continue; e.f64(x, out, kB); }
      for (size_t i = 0; i < kB; ++i) {
        const double err = FastErr(ref[i], out[i]);
        if (err <= (g_measure && (kFn == kSinCosSin || kFn == kSinCosCos) ? 0.2 : g_measure ? (kF32 ? 1 : 2) * g_max.v[!kF32][e.fma][kFn] : bound)) continue;
        Judge<T>(kFn, e.prefix, e.fma, x[i], T(0), out[i]);
      }
      evals += n;
    }
  }
  cx.evals = evals;
  cx.nontrivial = evals != 0;
  cx.Desc([&] { return vf::Fmt("bit patterns %llx.. every %llu of %s", (unsigned long long)(chunk << 20), (unsigned long long)stride, InfoOf(kFn).name); });
}
#define SW(F) VF_REG("Sweep." #F "<f32>", 4096, 4096, (&Sweep<float, F>)) VF_REG("Sweep." #F "<f64>", 4096, 4096, (&Sweep<double, F>))
SW(kAcos) SW(kAcosh) SW(kAsin) SW(kAsinh) SW(kAtan) SW(kAtanh) SW(kCos) SW(kExp) SW(kExp2) SW(kExpm1) SW(kLog) SW(kLog10) SW(kLog1p) SW(kLog2) SW(kSin) SW(kSinh) SW(kTanh) SW(kSinCosSin) SW(kSinCosCos)
}  // namespace c27

std::vector<std::string> VfKnown() {
  using namespace c27;
  std::vector<std::string> r;
  if (!vf::KnownListed("SinCos")) return r;
  static const struct { Fn f; bool f32, fma; double x; } in[] = {
      {kSinCosCos, true, false, 0x1.9639p+14}, {kSinCosSin, true, false, 0x1.d40c58p+14}, {kSinCosCos, true, true, 0x1.9639p+14}, {kSinCosSin, true, true, 0x1.f9cbe2p+12},
      {kSinCosCos, false, false, 0x1.a09ac99350198p+13}, {kSinCosSin, false, false, 0x1.0c0aaaaf7419fp+15}, {kSinCosCos, false, true, -0x1.dc580f791c26bp+10}, {kSinCosSin, false, true, -0x1.1b291be0251d1p+15}};
  for (const auto& i : in) {
    double worst = 0;
    for (const Eval& e : Evals()) {
      if (e.f != i.f || e.fma != i.fma || !vf::TargetUsable(e.target)) continue;
      if (i.f32) { alignas(64) float x[64], o[64]; for (float& v : x) v = float(i.x); e.f32(x, o, 64); worst = fmax(worst, UlpErr<float>(Ref(i.f, float(i.x), 0.f), o[0])); }
      else if (e.f64) { alignas(64) double x[64], o[64]; for (double& v : x) v = i.x; e.f64(x, o, 64); worst = fmax(worst, UlpErr<double>(Ref(i.f, i.x, 0.0), o[0])); }
    }
    if (worst > 1.51) r.push_back(vf::Fmt("%s(%a) %s on targets %s FMA: error %.1f ulp, documented 1", InfoOf(i.f).name, i.x, i.f32 ? "float32" : "float64", i.fma ? "with" : "without", worst));
  }
  return r;
}
