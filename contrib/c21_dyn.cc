// C21/C22: VQSort / VQPartialSort / VQSelect through dynamic dispatch to every
// target supported by this CPU.
#undef HWY_TARGET_INCLUDE
#define HWY_TARGET_INCLUDE "c21_dyn.cc"
#include "hwy/foreach_target.h"
#include "hwy/highway.h"
HWY_BEFORE_NAMESPACE();
namespace c21dyn {
namespace HWY_NAMESPACE {
int Have() { return (HWY_HAVE_FLOAT16 ? 1 : 0) | (HWY_HAVE_FLOAT64 ? 2 : 0); }
}
}
HWY_AFTER_NAMESPACE();
#if HWY_ONCE
#include "hwy/contrib/sort/vqsort.h"
#include "hwy/targets.h"
#include "c21.h"

namespace c21dyn {
HWY_EXPORT(Have);

void Use(int64_t target) {
  hwy::SetSupportedTargetsForTest(target);
  hwy::GetChosenTarget().Update(hwy::SupportedTargets());
}

struct TargetInfo { int64_t target; int have; };
const std::vector<TargetInfo>& Targets() {
  static const std::vector<TargetInfo> t = [] {
    std::vector<TargetInfo> r;
    Use(0);
    for (int64_t x : hwy::SupportedAndGeneratedTargets()) { Use(x); r.push_back({x, HWY_DYNAMIC_DISPATCH(Have)()}); }
    Use(0);
    return r;
  }();
  return t;
}

template <class T, class Order, c21::Op kOp>
void Run(vf::Src& s, vf::Ctx& cx) {
  std::vector<int64_t> usable;
  for (const TargetInfo& t : Targets()) {
    if (std::is_same<T, hwy::float16_t>::value && !(t.have & 1)) continue;
    if (std::is_same<T, double>::value && !(t.have & 2)) continue;
    // 128-bit keys require 128-bit vectors.
    if (sizeof(T) == 16 && t.target == HWY_SCALAR) continue;
    usable.push_back(t.target);
  }
  if (usable.empty()) { cx.evals = 0; cx.nontrivial = false; return; }
  const int64_t target = usable[size_t(s.Enum(usable.size()))];
  cx.Desc([&] { return std::string(hwy::TargetName(target)) + " "; });
  Use(target);
  uint64_t* state = hwy::GetGeneratorState();
  state[0] = s.Bits(32); state[1] = s.Bits(32); state[2] = 1;
  const bool cls = kOp == c21::kSort && s.Below(8) == 7;
  struct Restore { ~Restore() { Use(0); } } restore;
  c21::RunCase<T, Order>(kOp, s, cx, [&](T* p, size_t n, size_t k) {
    if (kOp == c21::kSort) {
      if (cls) { const hwy::Sorter sorter; sorter(p, n, Order()); }
      else hwy::VQSort(p, n, Order());
    } else if (kOp == c21::kPartial) hwy::VQPartialSort(p, n, k, Order());
    else hwy::VQSelect(p, n, k, Order());
  });
}
#ifdef VF_C22
#define R1(T, O, NAME) VF_REG("VQPartialSort<" NAME ">", 20000, 200000, (&Run<T, hwy::O, c21::kPartial>)) VF_REG("VQSelect<" NAME ">", 20000, 200000, (&Run<T, hwy::O, c21::kSelect>))
#else
#define R1(T, O, NAME) VF_REG("VQSort<" NAME ">", 40000, 400000, (&Run<T, hwy::O, c21::kSort>))
#endif
#define R(T, NAME) R1(T, SortAscending, NAME ",asc") R1(T, SortDescending, NAME ",desc")
R(uint16_t, "u16") R(uint32_t, "u32") R(uint64_t, "u64") R(int16_t, "i16") R(int32_t, "i32") R(int64_t, "i64")
R(hwy::float16_t, "f16") R(float, "f32") R(double, "f64") R(hwy::uint128_t, "u128") R(hwy::K64V64, "kv128") R(hwy::K32V32, "kv64")
}  // namespace c21dyn
#endif
