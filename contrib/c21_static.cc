// C21/C22: static entry points on targets without dynamic dispatch.
#ifndef VF_STATIC
#include "hwy/detect_targets.h"
#undef HWY_TARGET
#define HWY_TARGET VF_TARGET
#endif
#include "hwy/contrib/sort/vqsort-inl.h"
#include "hwy/highway.h"
#include "c21.h"
HWY_BEFORE_NAMESPACE();
namespace hwy {
namespace HWY_NAMESPACE {
namespace {
template <class T, class Order, c21::Op kOp>
void Run(vf::Src& s, vf::Ctx& cx) {
  uint64_t* state = hwy::detail::GetGeneratorStateStatic();
  state[0] = s.Bits(32); state[1] = s.Bits(32); state[2] = 1;
  c21::RunCase<T, Order>(kOp, s, cx, [&](T* p, size_t n, size_t k) {
    if (kOp == c21::kSort) VQSortStatic(p, n, Order());
    else if (kOp == c21::kPartial) VQPartialSortStatic(p, n, k, Order());
    else VQSelectStatic(p, n, k, Order());
  }, 3000);
}
#ifdef VF_C22
#define R1(T, O, NAME) VF_REG(VF_PREFIX "VQPartialSort<" NAME ">", 2500, 25000, (&Run<T, hwy::O, c21::kPartial>)) VF_REG(VF_PREFIX "VQSelect<" NAME ">", 2500, 25000, (&Run<T, hwy::O, c21::kSelect>))
#else
#define R1(T, O, NAME) VF_REG(VF_PREFIX "VQSort<" NAME ">", 2500, 25000, (&Run<T, hwy::O, c21::kSort>))
#endif
#define R(T, NAME) R1(T, SortAscending, NAME ",asc") R1(T, SortDescending, NAME ",desc")
R(uint16_t, "u16") R(uint32_t, "u32") R(uint64_t, "u64") R(int16_t, "i16") R(int32_t, "i32") R(int64_t, "i64")
R(float, "f32") R(hwy::K32V32, "kv64")
#if HWY_HAVE_FLOAT64
R(double, "f64")
#endif
#if HWY_TARGET != HWY_SCALAR
R(hwy::uint128_t, "u128") R(hwy::K64V64, "kv128")
#endif
}  // namespace
}  // namespace HWY_NAMESPACE
}  // namespace hwy
HWY_AFTER_NAMESPACE();
