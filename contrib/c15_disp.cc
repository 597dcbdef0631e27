// C15: one module with its own set of compiled-in targets (VF_NS = variant).
// Every function returns the target it was compiled for, plus an echo of its
// arguments, through the different export / dispatch forms.
#undef HWY_TARGET_INCLUDE
#define HWY_TARGET_INCLUDE "c15_disp.cc"
#include "hwy/foreach_target.h"
#include "hwy/highway.h"
#include "c15.h"

HWY_BEFORE_NAMESPACE();
namespace VF_NS {
namespace HWY_NAMESPACE {
int64_t Ret() { return HWY_TARGET; }
int Caps() { return (HWY_HAVE_INTEGER64 ? 1 : 0) | (HWY_HAVE_FLOAT16 ? 2 : 0) | (HWY_HAVE_FLOAT64 ? 4 : 0); }
void Void(int64_t* out, int64_t x, const int64_t& y, C15Big b) { out[0] = HWY_TARGET; out[1] = x; out[2] = y; for (int i = 0; i < 8; ++i) out[3 + i] = b.v[i]; }
C15Big Big(C15Big b, double d) { b.v[0] = HWY_TARGET; b.v[1] = int64_t(d); return b; }
int64_t& Ref(int64_t& r) { r = HWY_TARGET; return r; }
float Float(float f, uint8_t c, int16_t h) { return float(hwy::Num0BitsBelowLS1Bit_Nonzero64(uint64_t(HWY_TARGET))) + 100.0f * f + float(c) * 10000.0f + float(h) * 0; }
template <typename T> int64_t Tmpl(T* out, T x) { *out = x; return HWY_TARGET; }
template <typename T> int64_t Tmpl2(T x) { return HWY_TARGET ^ int64_t(x); }
int64_t Ov1(int32_t x) { return HWY_TARGET ^ (int64_t(x) << 40); }
}  // namespace HWY_NAMESPACE
}  // namespace VF_NS
HWY_AFTER_NAMESPACE();

#if HWY_ONCE
namespace VF_NS {
namespace {
HWY_EXPORT(Ret);
HWY_EXPORT(Caps);
HWY_EXPORT(Void);
HWY_EXPORT(Big);
HWY_EXPORT(Ref);
HWY_EXPORT(Float);
HWY_EXPORT(Ov1);

template <typename T> int64_t CallT(T x) {
  HWY_EXPORT_T(TabA, Tmpl<T>);
  T out = T(x + 1);
  const int64_t r = HWY_DYNAMIC_DISPATCH_T(TabA)(&out, x);
  return out == x ? r : -1;
}
template <typename T> int64_t CallTP(T x) {
  HWY_EXPORT_T(TabB, Tmpl2<T>);
  HWY_EXPORT_T(TabC, Tmpl<T>);
  const auto p = HWY_DYNAMIC_POINTER_T(TabB);
  const int64_t r = p(x) ^ int64_t(x);
  T out = T(x + 1);
  const int64_t r2 = HWY_DYNAMIC_DISPATCH_T(TabC)(&out, x);
  return r == r2 && out == x ? r : -2;
}
template <typename T> int64_t Wrap(T* out, T x) { *out = x; HWY_EXPORT_AND_DYNAMIC_DISPATCH_T(Tmpl<T>)(out, x); return 0; }
// statement-context form: result through a pointer
template <typename T> int64_t CallE(T x) {
  T out = T(x + 1);
  Wrap(&out, x);
  return out == x ? 0 : -1;
}

int64_t Call(int form, int64_t a) {
  switch (form) {
    case 0: return HWY_DYNAMIC_DISPATCH(Ret)();
    case 1: { const auto p = HWY_DYNAMIC_POINTER(Ret); return p(); }
    case 2: {
      int64_t o[11] = {0}; C15Big b; for (int i = 0; i < 8; ++i) b.v[i] = a * 31 + i;
      HWY_DYNAMIC_DISPATCH(Void)(o, a, a + 1, b);
      if (o[1] != a || o[2] != a + 1) return -1;
      for (int i = 0; i < 8; ++i) if (o[3 + i] != a * 31 + i) return -1;
      return o[0];
    }
    case 3: {
      C15Big b; for (int i = 0; i < 8; ++i) b.v[i] = a * 31 + i;
      const C15Big r = HWY_DYNAMIC_DISPATCH(Big)(b, double(int32_t(a)));
      if (r.v[1] != int32_t(a)) return -1;
      for (int i = 2; i < 8; ++i) if (r.v[i] != a * 31 + i) return -1;
      return r.v[0];
    }
    case 4: { int64_t x = 0; int64_t& r = HWY_DYNAMIC_DISPATCH(Ref)(x); return &r == &x ? x : -1; }
    case 5: {
      const int f = int(a & 7), c = int((a >> 3) & 7);
      const float r = HWY_DYNAMIC_DISPATCH(Float)(float(f), uint8_t(c), int16_t(a));
      const int ri = int(r);
      if (ri / 10000 != c || (ri / 100) % 100 != f) return -1;
      return int64_t(1ull << (ri % 100));
    }
    case 6: return CallT<int32_t>(int32_t(a));
    case 7: return CallT<double>(double(int32_t(a)));
    case 8: return CallTP<uint16_t>(uint16_t(a & 0x7FFF));
    case 9: return CallTP<int64_t>(int64_t(int32_t(a)));
    case 10: { const int64_t x = int64_t(int16_t(a)) << 40; return HWY_DYNAMIC_DISPATCH(Ov1)(int16_t(a)) ^ x; }
    case 11: { if (CallE<float>(float(int16_t(a))) != 0) return -1; return HWY_DYNAMIC_DISPATCH(Ret)(); }
    default: return HWY_STATIC_DISPATCH(Ret)();
  }
}
int Capabilities() { return HWY_DYNAMIC_DISPATCH(Caps)(); }
int64_t Supported() { return HWY_SUPPORTED_TARGETS; }
std::vector<int64_t> Generated() { return hwy::SupportedAndGeneratedTargets(); }
}  // namespace
extern const C15Variant kVariant;
const C15Variant kVariant = {VF_NAME, HWY_TARGETS, HWY_STATIC_TARGET, &Call, &Supported, &Generated, &Capabilities};
}  // namespace VF_NS
#endif
