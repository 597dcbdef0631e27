// C36: vector tags. Random sequences of tag transformations (a walk over the
// graph of tag types reachable from the documented aliases) against a model
// that only tracks the lane type and the lane count.
#include "hwy/detect_targets.h"
#undef HWY_TARGET
#define HWY_TARGET VF_TARGET
#include <string.h>
#include <map>
#include "hwy/highway.h"
#include "vf.h"
HWY_BEFORE_NAMESPACE();
namespace hwy {
namespace HWY_NAMESPACE {
namespace {
using vf::Ctx;
using vf::Src;

enum { kU8, kI8, kU16, kI16, kF16, kBF16, kU32, kI32, kF32, kU64, kI64, kF64, kTypes };
template <int I> struct TypeT;
#define VF_T(I, TT) template <> struct TypeT<I> { using type = TT; };
VF_T(kU8, uint8_t) VF_T(kI8, int8_t) VF_T(kU16, uint16_t) VF_T(kI16, int16_t) VF_T(kF16, float16_t) VF_T(kBF16, bfloat16_t)
VF_T(kU32, uint32_t) VF_T(kI32, int32_t) VF_T(kF32, float) VF_T(kU64, uint64_t) VF_T(kI64, int64_t) VF_T(kF64, double)
template <int I> using Type = typename TypeT<I>::type;
template <class T> constexpr int IdOf() {
  return hwy::IsSame<T, uint8_t>() ? kU8 : hwy::IsSame<T, int8_t>() ? kI8 : hwy::IsSame<T, uint16_t>() ? kU16 : hwy::IsSame<T, int16_t>() ? kI16
       : hwy::IsSame<T, float16_t>() ? kF16 : hwy::IsSame<T, bfloat16_t>() ? kBF16 : hwy::IsSame<T, uint32_t>() ? kU32 : hwy::IsSame<T, int32_t>() ? kI32
       : hwy::IsSame<T, float>() ? kF32 : hwy::IsSame<T, uint64_t>() ? kU64 : hwy::IsSame<T, int64_t>() ? kI64 : hwy::IsSame<T, double>() ? kF64 : -1;
}
constexpr size_t kSize[kTypes] = {1, 1, 2, 2, 2, 2, 4, 4, 4, 8, 8, 8};
const char* const kName[kTypes] = {"u8", "i8", "u16", "i16", "f16", "bf16", "u32", "i32", "f32", "u64", "i64", "f64"};
// Independent of hwy's own constants: the register width of the target.
constexpr size_t kVec = HWY_TARGET == HWY_SCALAR ? 0 : (HWY_TARGET == HWY_EMU128 || HWY_TARGET >= HWY_SSE4) ? 16 : HWY_TARGET == HWY_AVX2 ? 32 : 64;
constexpr size_t Full(int t) { return kVec == 0 ? 1 : kVec / kSize[t]; }

enum { kHalf = 2 * kTypes, kTwice, kToSigned, kToUnsigned, kToFloat, kWide, kNarrow, kWideX2, kWideX3, kBlock, kFromV, kOps };
std::string OpName(int op) {
  if (op < kTypes) return vf::Fmt("Rebind<%s>", kName[op]);
  if (op < 2 * kTypes) return vf::Fmt("Repartition<%s>", kName[op - kTypes]);
  static const char* const n[] = {"Half", "Twice", "RebindToSigned", "RebindToUnsigned", "RebindToFloat", "RepartitionToWide", "RepartitionToNarrow", "RepartitionToWideX2", "RepartitionToWideX3", "BlockDFromD", "DFromV<VFromD>"};
  return n[op - kHalf];
}
constexpr int SignedOf(int t) { return kSize[t] == 1 ? kI8 : kSize[t] == 2 ? kI16 : kSize[t] == 4 ? kI32 : kI64; }
constexpr int UnsignedOf(int t) { return kSize[t] == 1 ? kU8 : kSize[t] == 2 ? kU16 : kSize[t] == 4 ? kU32 : kU64; }
constexpr bool IsFlt(int t) { return t == kF16 || t == kF32 || t == kF64 || t == kBF16; }
constexpr bool IsSgn(int t) { return t == kI8 || t == kI16 || t == kI32 || t == kI64; }
// Twice / half the size, same kind; -1 if there is none.
constexpr int WideOf(int t) {
  return t == kF16 || t == kBF16 ? kF32 : t == kF32 ? kF64 : IsFlt(t) || kSize[t] == 8 ? -1 : kSize[t] == 1 ? (IsSgn(t) ? kI16 : kU16) : kSize[t] == 2 ? (IsSgn(t) ? kI32 : kU32) : IsSgn(t) ? kI64 : kU64;
}
constexpr int NarrowOf(int t) {
  return t == kF64 ? kF32 : t == kF32 ? kF16 : IsFlt(t) || kSize[t] == 1 ? -1 : kSize[t] == 8 ? (IsSgn(t) ? kI32 : kU32) : kSize[t] == 4 ? (IsSgn(t) ? kI16 : kU16) : IsSgn(t) ? kI8 : kU8;
}
struct Shape { int t; size_t n; };  // t = -1: outside the documented domain
constexpr bool Fits(int t, size_t n) { return t >= 0 && n >= 1 && n <= Full(t); }
constexpr Shape Mk(int t, size_t n) { return Fits(t, n) ? Shape{t, n} : Shape{-1, 0}; }
constexpr Shape Repart(int from, size_t n, int to) { return to < 0 || n * kSize[from] < kSize[to] ? Shape{-1, 0} : Mk(to, n * kSize[from] / kSize[to]); }
// The model: what each transformation does to (lane type, lanes).
constexpr Shape Model(int op, int t, size_t n) {
  return op < kTypes ? Mk(op, n)
       : op < 2 * kTypes ? Repart(t, n, op - kTypes)
       : op == kHalf ? (n < 2 ? Shape{-1, 0} : Mk(t, n / 2))
       : op == kTwice ? Mk(t, 2 * n)
       : op == kToSigned ? Mk(SignedOf(t), n)
       : op == kToUnsigned ? Mk(UnsignedOf(t), n)
       : op == kToFloat ? (kSize[t] == 1 || t == kBF16 ? Shape{-1, 0} : Mk(kSize[t] == 2 ? kF16 : kSize[t] == 4 ? kF32 : kF64, n))
       : op == kWide ? Repart(t, n, WideOf(t))
       : op == kNarrow ? Repart(t, n, NarrowOf(t))
       : op == kWideX2 ? (WideOf(t) < 0 || IsFlt(t) ? Shape{-1, 0} : Repart(t, n, WideOf(WideOf(t))))
       : op == kWideX3 ? (kSize[t] != 1 ? Shape{-1, 0} : Repart(t, n, IsSgn(t) ? kI64 : kU64))
       : op == kBlock ? Mk(t, n < 16 / kSize[t] ? n : 16 / kSize[t])
       : Mk(t, n);  // kFromV
}

struct Node {
  const Node* (*apply)(int op);  // null if outside the domain
  int t; size_t n;               // the model's shape for this type
  void (*check)(Src& s, Ctx& cx, const std::string& path);
  int pow2;
};
template <class D> struct NodeOf;

template <int kOp, class D> struct ApplyOp;
#define VF_OP(OP, ...) template <class D> struct ApplyOp<OP, D> { using type = __VA_ARGS__; };
template <int kOp, class D> struct ApplyOp { using type = Repartition<Type<kOp - kTypes>, D>; };
VF_OP(0, Rebind<Type<0>, D>) VF_OP(1, Rebind<Type<1>, D>) VF_OP(2, Rebind<Type<2>, D>) VF_OP(3, Rebind<Type<3>, D>) VF_OP(4, Rebind<Type<4>, D>) VF_OP(5, Rebind<Type<5>, D>)
VF_OP(6, Rebind<Type<6>, D>) VF_OP(7, Rebind<Type<7>, D>) VF_OP(8, Rebind<Type<8>, D>) VF_OP(9, Rebind<Type<9>, D>) VF_OP(10, Rebind<Type<10>, D>) VF_OP(11, Rebind<Type<11>, D>)
VF_OP(kHalf, Half<D>) VF_OP(kTwice, Twice<D>) VF_OP(kToSigned, RebindToSigned<D>) VF_OP(kToUnsigned, RebindToUnsigned<D>) VF_OP(kToFloat, RebindToFloat<D>)
VF_OP(kWide, RepartitionToWide<D>) VF_OP(kNarrow, RepartitionToNarrow<D>) VF_OP(kWideX2, RepartitionToWideX2<D>) VF_OP(kWideX3, RepartitionToWideX3<D>) VF_OP(kBlock, BlockDFromD<D>) VF_OP(kFromV, DFromV<VFromD<D>>)

constexpr int Log2(size_t x) { return x < 2 ? 0 : 1 + Log2(x / 2); }
// kPow2 of the result; the walk stays in the range that Simd<> accepts.
constexpr int NewPow2(int op, int p, int from, int to) {
  return op == kHalf ? p - 1 : op == kTwice ? p + 1 : op == kBlock || op == kFromV ? 0
       : op < kTypes || op == kToSigned || op == kToUnsigned || op == kToFloat ? p + Log2(kSize[to]) - Log2(kSize[from]) : p;
}
constexpr bool InRange(int p) { return p <= HWY_MAX_POW2 && p >= (HWY_TARGET == HWY_SCALAR ? -3 : HWY_MIN_POW2); }
template <int kOp, class D, int T, size_t N> constexpr bool Allowed() {
  return Model(kOp, T, N).t >= 0 && InRange(NewPow2(kOp, HWY_POW2_D(D), T, Model(kOp, T, N).t < 0 ? T : Model(kOp, T, N).t));
}
// The node of the real tag; its model shape is carried along from the parent,
// so that a tag with a wrong shape is reported rather than believed.
template <class D, int T, size_t N> struct NodeFor;
template <int kOp, class D, int T, size_t N, bool kOk = Allowed<kOp, D, T, N>()> struct Next {
  static const Node* Get() { return &NodeFor<typename ApplyOp<kOp, D>::type, Model(kOp, T, N).t, Model(kOp, T, N).n>::kNode; }
};
template <int kOp, class D, int T, size_t N> struct Next<kOp, D, T, N, false> { static const Node* Get() { return nullptr; } };

template <class D, int T, size_t N> void CheckTag(Src& s, Ctx& cx, const std::string& path) {
  const D d;
  using TT = TFromD<D>;
  const char* p = path.c_str();
  VF_CHECK(IdOf<TT>() == T, "%s: lane type is %s, expected %s", p, IdOf<TT>() < 0 ? "?" : kName[IdOf<TT>()], kName[T]);
  VF_CHECK(sizeof(TT) == kSize[T], "%s: lane size %zu", p, sizeof(TT));
  VF_CHECK(Lanes(d) == N, "%s: Lanes %zu, expected %zu x %s", p, Lanes(d), N, kName[T]);
  VF_CHECK(MaxLanes(d) == N && HWY_MAX_LANES_D(D) == N && d.MaxLanes() == N, "%s: MaxLanes %zu, expected %zu", p, MaxLanes(d), N);
  VF_CHECK(d.MaxBytes() == N * kSize[T], "%s: MaxBytes %zu, expected %zu", p, d.MaxBytes(), N * kSize[T]);
  VF_CHECK(d.MaxBlocks() == (N * kSize[T] + 15) / 16, "%s: MaxBlocks %zu for %zu bytes", p, d.MaxBlocks(), N * kSize[T]);
  VF_CHECK(d.Pow2() == HWY_POW2_D(D), "%s: Pow2", p);
  cx.evals += 6;
}
// Vectors of the tag: observable lanes are exactly the first Lanes(d).
template <class D, int T, size_t N> void CheckVec(Src& s, Ctx& cx, const std::string& path) {
  CheckTag<D, T, N>(s, cx, path);
  const char* p = path.c_str();
  const D d;
  using TT = TFromD<D>;
  // Every tag of the same shape has the same vector type.
  const bool same = hwy::IsSame<VFromD<D>, VFromD<FixedTag<Type<T>, N>>>();
  VF_CHECK(same, "%s: vector type differs from that of FixedTag<%s, %zu>", p, kName[T], N);
  const bool same_m = hwy::IsSame<MFromD<D>, MFromD<FixedTag<Type<T>, N>>>();
  VF_CHECK(same_m, "%s: mask type differs from that of FixedTag<%s, %zu>", p, kName[T], N);
  alignas(64) unsigned char src[64], dst[64 + 64];
  vf::Rng r = s.Sub();
  for (unsigned char& b : src) b = static_cast<unsigned char>(r());
  memset(dst, 0xA5, sizeof dst);
  const size_t off = s.Below(2) ? sizeof(TT) * s.Below(4) : 0;
  const auto v = LoadU(d, reinterpret_cast<const TT*>(src));
  StoreU(v, d, reinterpret_cast<TT*>(dst + off));
  VF_CHECK(memcmp(dst + off, src, N * sizeof(TT)) == 0, "%s: StoreU did not store the %zu lanes of LoadU", p, N);
  for (size_t i = 0; i < sizeof dst; ++i)
    VF_CHECK((i >= off && i < off + N * sizeof(TT)) || dst[i] == 0xA5, "%s: StoreU wrote byte %zu, beyond %zu lanes at %zu", p, i, N, off);
  VF_CHECK(CountTrue(d, FirstN(d, 2 * N)) == N, "%s: %zu lanes are counted", p, CountTrue(d, FirstN(d, 2 * N)));
  const TT* q = reinterpret_cast<const TT*>(src);
  const size_t lane = s.Below(64 / sizeof(TT) - N + 1);
  VF_CHECK(IsAligned(d, q + lane) == (lane % N == 0), "%s: IsAligned of lane %zu", p, lane);
  cx.evals += 6;
}

template <class D, int T, size_t N, bool kSameShape> struct CheckerFor { static constexpr auto kFn = &CheckTag<D, T, N>; };
template <class D, int T, size_t N> struct CheckerFor<D, T, N, true> { static constexpr auto kFn = &CheckVec<D, T, N>; };

template <class D, int T, size_t N> struct NodeFor {
  static const Node* Apply(int op) {
    switch (op) {
#define VF_CASE(I) case I: return Next<I, D, T, N>::Get();
#define VF_CASE6(I) VF_CASE(I) VF_CASE(I + 1) VF_CASE(I + 2) VF_CASE(I + 3) VF_CASE(I + 4) VF_CASE(I + 5)
      VF_CASE6(0) VF_CASE6(6) VF_CASE6(12) VF_CASE6(18) VF_CASE6(24) VF_CASE(30) VF_CASE(31) VF_CASE(32) VF_CASE(33) VF_CASE(34)
    }
    return nullptr;
  }
  static constexpr bool kShapeOk = IdOf<TFromD<D>>() == T && HWY_MAX_LANES_D(D) == N;
  static const Node kNode;
};
static_assert(kOps == 35, "cases");
// A tag whose shape already differs from the model is a failure found by its
// check; do not expand the graph behind it.
template <class D, int T, size_t N, bool kOk> struct Expand { static constexpr auto kApply = &NodeFor<D, T, N>::Apply; };
inline const Node* NoApply(int) { return nullptr; }
template <class D, int T, size_t N> struct Expand<D, T, N, false> { static constexpr auto kApply = &NoApply; };
template <class D, int T, size_t N> const Node NodeFor<D, T, N>::kNode = {
    Expand<D, T, N, kShapeOk>::kApply, T, N, CheckerFor<D, T, N, kShapeOk>::kFn, HWY_POW2_D(D)};

// ------------------------------ starting points
struct Start { std::string name; const Node* node; };
constexpr size_t FloorPow2(size_t x) { return x < 2 ? x : 2 * FloorPow2(x / 2); }
constexpr size_t MinS(size_t a, size_t b) { return a < b ? a : b; }
template <class D, int T, size_t N> void AddStart(std::vector<Start>& v, std::string n) { v.push_back({n, &NodeFor<D, T, N>::kNode}); }
// Fractions of less than one lane are outside the domain ("your code should
// ensure the lower bound is not exceeded").
template <template <class, int> class Tag, int T, size_t N, int kPow2, bool kOk = ((N >> -kPow2) != 0)> struct AddFrac {
  static void Do(std::vector<Start>& v, const std::string& n) { AddStart<Tag<Type<T>, kPow2>, T, (N >> -kPow2)>(v, vf::Fmt("%s, %d>", n.c_str(), kPow2)); }
};
template <template <class, int> class Tag, int T, size_t N, int kPow2> struct AddFrac<Tag, T, N, kPow2, false> { static void Do(std::vector<Start>&, const std::string&) {} };
template <size_t kCap> struct Capped { template <class TT, int kPow2> using Tag = CappedTag<TT, kCap, kPow2>; };
template <int T, size_t kCap> void AddCap(std::vector<Start>& v) {
  constexpr size_t n = MinS(FloorPow2(kCap), Full(T));
  AddStart<CappedTag<Type<T>, kCap>, T, n>(v, vf::Fmt("CappedTag<%s, %zu>", kName[T], kCap));
  AddStart<CappedTagIfFixed<Type<T>, kCap>, T, n>(v, vf::Fmt("CappedTagIfFixed<%s, %zu>", kName[T], kCap));
  AddFrac<Capped<kCap>::template Tag, T, n, -1>::Do(v, vf::Fmt("CappedTag<%s, %zu", kName[T], kCap));
  AddFrac<Capped<kCap>::template Tag, T, n, -2>::Do(v, vf::Fmt("CappedTag<%s, %zu", kName[T], kCap));
}
template <int T, size_t N, bool kOk = (N <= Full(T))> struct AddFixed {
  static void Do(std::vector<Start>& v) { AddStart<FixedTag<Type<T>, N>, T, N>(v, vf::Fmt("FixedTag<%s, %zu>", kName[T], N)); AddFixed<T, N * 2>::Do(v); }
};
template <int T, size_t N> struct AddFixed<T, N, false> { static void Do(std::vector<Start>&) {} };
template <int T, size_t kBytes, bool kOk> struct AddFull { static void Do(std::vector<Start>&) {} };
template <int T> struct AddFull<T, 16, true> { static void Do(std::vector<Start>& v) { AddStart<Full128<Type<T>>, T, 16 / kSize[T]>(v, vf::Fmt("Full128<%s>", kName[T])); } };
template <int T> struct AddFull<T, 8, true> { static void Do(std::vector<Start>& v) { AddStart<Full64<Type<T>>, T, 8 / kSize[T]>(v, vf::Fmt("Full64<%s>", kName[T])); } };
template <int T> struct AddFull<T, 4, true> { static void Do(std::vector<Start>& v) { AddStart<Full32<Type<T>>, T, 4 / kSize[T]>(v, vf::Fmt("Full32<%s>", kName[T])); } };
template <int T> struct AddFull<T, 2, true> { static void Do(std::vector<Start>& v) { AddStart<Full16<Type<T>>, T, 2 / kSize[T]>(v, vf::Fmt("Full16<%s>", kName[T])); } };
template <int T> void AddType(std::vector<Start>& v) {
  using TT = Type<T>;
  constexpr size_t F = Full(T);
  AddStart<ScalableTag<TT>, T, F>(v, vf::Fmt("ScalableTag<%s>", kName[T]));
  AddStart<HWY_FULL(TT), T, F>(v, vf::Fmt("HWY_FULL(%s)", kName[T]));
  AddFrac<ScalableTag, T, F, -1>::Do(v, vf::Fmt("ScalableTag<%s", kName[T]));
  AddFrac<ScalableTag, T, F, -2>::Do(v, vf::Fmt("ScalableTag<%s", kName[T]));
  AddFrac<ScalableTag, T, F, -3>::Do(v, vf::Fmt("ScalableTag<%s", kName[T]));
  AddCap<T, 1>(v); AddCap<T, 2>(v); AddCap<T, 3>(v); AddCap<T, 4>(v); AddCap<T, 5>(v); AddCap<T, 7>(v); AddCap<T, 8>(v); AddCap<T, 12>(v); AddCap<T, 15>(v); AddCap<T, 16>(v);
  AddCap<T, 17>(v); AddCap<T, 31>(v); AddCap<T, 32>(v); AddCap<T, 33>(v); AddCap<T, 63>(v); AddCap<T, 64>(v); AddCap<T, 65>(v); AddCap<T, 1000>(v); AddCap<T, 65536>(v); AddCap<T, (size_t{1} << 40) + 7>(v);
  AddStart<HWY_CAPPED(TT, 6), T, MinS(4, F)>(v, vf::Fmt("HWY_CAPPED(%s, 6)", kName[T]));
  AddFixed<T, 1>::Do(v);
  AddFull<T, 16, (16 <= kVec)>::Do(v); AddFull<T, 8, (8 <= kVec)>::Do(v); AddFull<T, 4, (4 <= kVec && kSize[T] <= 4)>::Do(v); AddFull<T, 2, (2 <= kVec && kSize[T] <= 2)>::Do(v);
}
const std::vector<Start>& Starts() {
  static const std::vector<Start>* v = [] {
    auto* r = new std::vector<Start>;
    AddType<0>(*r); AddType<1>(*r); AddType<2>(*r); AddType<3>(*r); AddType<4>(*r); AddType<5>(*r);
    AddType<6>(*r); AddType<7>(*r); AddType<8>(*r); AddType<9>(*r); AddType<10>(*r); AddType<11>(*r);
    return r;
  }();
  return *v;
}

void Walk(Src& s, Ctx& cx) {
  const Start& st = Starts()[s.Below(Starts().size())];
  std::string path = st.name;
  const Node* n = st.node;
  cx.evals = 0;
  cx.Desc([&] { return st.name; });
  n->check(s, cx, path);
  const int steps = int(s.Below(10));
  int done = 0;
  for (int i = 0; i < steps; ++i) {
    const int op = int(s.Below(4)) == 0 ? kHalf + int(s.Below(kOps - kHalf)) : int(s.Below(kOps));
    const Node* m = n->apply(op);
    if (!m) continue;
    ++done;
    path += " -> " + OpName(op);
    cx.Desc([&] { return " -> " + OpName(op); });
    m->check(s, cx, path);
    n = m;
  }
  cx.nontrivial = done > 0;
}
VF_REG(VF_PREFIX "Tags", 150000, 3000000, &Walk, 0, HWY_TARGET)
}  // namespace
}  // namespace HWY_NAMESPACE
}  // namespace hwy
HWY_AFTER_NAMESPACE();
