// C20: Print(d, caption, v, lane, max) for every target.
#ifndef VF_STATIC
#include "hwy/detect_targets.h"
#undef HWY_TARGET
#define HWY_TARGET VF_TARGET
#endif
#include "hwy/highway.h"
#include "hwy/print-inl.h"
#include "vf.h"
#include <string>

namespace c20 {
std::string CaptureStderr(const std::function<void()>& f);
}
HWY_BEFORE_NAMESPACE();
namespace hwy {
namespace HWY_NAMESPACE {
namespace {
template <class T, size_t kN, int kPow2>
void PrintCase(vf::Src& s, vf::Ctx& cx) {
  const CappedTag<T, kN, kPow2> d;
  const size_t n = Lanes(d);
  HWY_ALIGN T lanes[MaxLanes(d)];
  std::string want;
  vf::Rng r = s.Sub();
  const size_t lane = size_t(s.Below(n + 4)), max = s.Bool() ? 7 : size_t(s.Below(n + 3));
  cx.Desc([&] { return vf::Fmt("%zu lanes, lane %zu max %zu", n, lane, max); });
  for (size_t i = 0; i < n; ++i) { uint64_t b = r() >> (r.Below(4) * 8); CopyBytes<sizeof(T)>(&b, &lanes[i]); }
  const size_t begin = lane < 2 ? 0 : lane - 2, end = begin + max < n ? begin + max : n;
  for (size_t i = begin; i < end; ++i) {
    char str[100];
    hwy::detail::ToString(hwy::detail::MakeTypeInfo<T>(), &lanes[i], str);
    want += std::string(str) + ",";
  }
  char tn[100];
  hwy::detail::TypeName(hwy::detail::MakeTypeInfo<T>(), n, tn);
  const bool dflt = s.Below(3) == 0 && lane == 0 && max == 7;
  const std::string out = c20::CaptureStderr([&]() HWY_ATTR {
    if (dflt) Print(d, "the caption", Load(d, lanes));
    else Print(d, "the caption", Load(d, lanes), lane, max);
  });
  VF_CHECK(out.compare(0, strlen(tn), tn) == 0, "'%s' does not start with the type %s", out.c_str(), tn);
  VF_CHECK(out.find("the caption") != std::string::npos, "'%s' lacks the caption", out.c_str());
  VF_CHECK(out.find(want.empty() ? "out of bounds" : want) != std::string::npos, "'%s' lacks '%s'", out.c_str(), want.c_str());
  VF_CHECK(size_t(std::count(out.begin(), out.end(), ',')) == (begin < end ? end - begin : 0), "'%s': number of lanes", out.c_str());
  cx.nontrivial = n > 1;
}
#define R(T, N) VF_REG(VF_PREFIX "Print<" #T "," #N ">", 120, 2000, (&PrintCase<T, N, 0>), 0, HWY_TARGET)
R(uint8_t, 64) R(int16_t, 32) R(uint32_t, 2) R(int64_t, 8) R(float, 16) R(double, 1) R(uint16_t, 4)
}  // namespace
}  // namespace HWY_NAMESPACE
}  // namespace hwy
HWY_AFTER_NAMESPACE();
