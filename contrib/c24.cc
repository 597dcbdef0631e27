// C24: hwy/contrib/unroller against simple loops, arrays between guard pages.
#include "hwy/detect_targets.h"
#undef HWY_TARGET
#define HWY_TARGET VF_TARGET
#include <stdlib.h>
#include "hwy/contrib/unroller/unroller-inl.h"
#include "hwy/highway.h"
#include "vf.h"
HWY_BEFORE_NAMESPACE();
namespace hwy {
namespace HWY_NAMESPACE {
namespace {
using vf::Ctx;
using vf::Src;
inline vf::Guarded& G(int i) { static vf::Guarded g[4]; return g[i]; }
inline void AllIntact(const char* w) { for (int i = 0; i < 3; ++i) G(i).Check(w); }
template <class T> T Val(Src& s) {
  if (hwy::IsFloat<T>()) return static_cast<T>(s.Range(-60, 60));  // sums and products stay exact
  switch (s.Below(3)) {
    case 0: return static_cast<T>(s.Below(4));
    case 1: return static_cast<T>(s.Bits(int(sizeof(T) * 8)));
    default: return static_cast<T>(s.Int(int(sizeof(T) * 8)));
  }
}
template <class T> T* GenArr(int g, Src& s, size_t n, std::vector<T>& copy) {
  T* p = G(g).template Arr<T>(s, n);
  vf::Rng r = s.Sub();
  const bool many = n > 64;
  T pool[16];
  if (many) for (T& v : pool) v = Val<T>(s);
  for (size_t i = 0; i < n; ++i) p[i] = many ? pool[r.Below(16)] : Val<T>(s);
  copy.assign(p, p + n);
  return p;
}
template <class T> void Unchanged(const T* p, const std::vector<T>& c, const char* w) {
  VF_CHECK(c.empty() || memcmp(p, c.data(), c.size() * sizeof(T)) == 0, "%s: input array was modified", w);
}
inline size_t Count(Src& s, size_t N) { return s.Chance(1, 12) ? size_t(s.Below(40 * N)) : s.Len(10 * N + 3, N); }
inline void Note(Ctx& cx, size_t N, size_t n) { cx.nontrivial = n != 0; cx.cls = n == 0 ? "empty" : n < N ? "<1 vector" : n <= 4 * N ? (n % N ? "1-4 vectors+rest" : "1-4 vectors") : n % N ? "unrolled+rest" : "unrolled"; }

template <class ToD, class FromV, hwy::EnableIf<(sizeof(TFromV<FromV>) > sizeof(TFromD<ToD>))>* = nullptr>
HWY_INLINE Vec<ToD> Conv(ToD d, FromV v) { return DemoteTo(d, v); }
template <class ToD, class FromV, hwy::EnableIf<(sizeof(TFromV<FromV>) == sizeof(TFromD<ToD>)) && !hwy::IsSame<TFromV<FromV>, TFromD<ToD>>()>* = nullptr>
HWY_INLINE Vec<ToD> Conv(ToD d, FromV v) { return ConvertTo(d, v); }
template <class ToD, class FromV, hwy::EnableIf<hwy::IsSame<TFromV<FromV>, TFromD<ToD>>()>* = nullptr>
HWY_INLINE Vec<ToD> Conv(ToD, FromV v) { return v; }
template <class ToD, class FromV, hwy::EnableIf<(sizeof(TFromV<FromV>) < sizeof(TFromD<ToD>))>* = nullptr>
HWY_INLINE Vec<ToD> Conv(ToD d, FromV v) { return PromoteTo(d, v); }
template <class TO, class FROM> TO SConv(FROM v) {
  if (hwy::IsFloat<FROM>() || hwy::IsFloat<TO>() || sizeof(TO) > sizeof(FROM)) return static_cast<TO>(v);
  if (sizeof(TO) == sizeof(FROM)) return static_cast<TO>(v);
  // saturating demotion
  if (hwy::IsSigned<FROM>()) {
    const int64_t x = int64_t(v), lo = int64_t(hwy::LowestValue<TO>()), hi = int64_t(hwy::HighestValue<TO>());
    return static_cast<TO>(x < lo ? lo : x > hi ? hi : x);
  }
  const uint64_t x = uint64_t(v), hi = uint64_t(hwy::HighestValue<TO>());
  return static_cast<TO>(x > hi ? hi : x);
}
template <class T, HWY_IF_FLOAT(T)> T WAdd(T a, T b) { return a + b; }
template <class T, HWY_IF_NOT_FLOAT(T)> T WAdd(T a, T b) { return T(MakeUnsigned<T>(uint64_t(a) + uint64_t(b))); }
template <class T, HWY_IF_FLOAT(T)> T WSub(T a, T b) { return a - b; }
template <class T, HWY_IF_NOT_FLOAT(T)> T WSub(T a, T b) { return T(MakeUnsigned<T>(uint64_t(a) - uint64_t(b))); }

// y[i] = convert(x[i]) + i, with the index derived from `idx`.
template <class F, class T> struct MapUnit : UnrollerUnit<MapUnit<F, T>, F, T> {
  using Base = UnrollerUnit<MapUnit<F, T>, F, T>;
  using DF = Rebind<F, typename Base::LargerD>;
  using DT = Rebind<T, typename Base::LargerD>;
  bool use_idx;
  ptrdiff_t stop_at = -1;  // for StopUnit
  Vec<DT> Func(ptrdiff_t idx, const Vec<DF> x, const Vec<DT>) {
    const DT d;
    Vec<DT> r = Conv(d, x);
    if (use_idx) r = Add(r, Add(Iota(d, 0), Set(d, static_cast<T>(idx))));
    return r;
  }
};
template <class F, class T> T MapRef(F x, size_t i, bool use_idx) { T r = SConv<T>(x); return use_idx ? WAdd(r, static_cast<T>(i)) : r; }
template <class F, class T> void Map(Src& s, Ctx& cx) {
  MapUnit<F, T> u; u.use_idx = s.Bool();
  const size_t N = u.ActualLanes(), n = Count(s, N); Note(cx, N, n);
  std::vector<F> in; std::vector<T> y0;
  F* x = GenArr<F>(0, s, n, in); T* y = GenArr<T>(1, s, n, y0);
  cx.Desc([&] { return vf::Fmt("map n=%zu lanes=%zu use_idx=%d", n, N, u.use_idx); });
  Unroller(u, x, y, ptrdiff_t(n));
  for (size_t i = 0; i < n; ++i) { const T w = MapRef<F, T>(in[i], i, u.use_idx); VF_CHECK(y[i] == w, "map: element %zu of %zu is %.17g, simple loop %.17g", i, n, double(y[i]), double(w)); }
  Unchanged(x, in, "map"); AllIntact("map");
}
// Stops after the first whole vector that contains `stop`.
template <class T> struct StopUnit : UnrollerUnit<StopUnit<T>, T, T> {
  using D = ScalableTag<T>;
  T stop;
  std::vector<ptrdiff_t> stores;
  Vec<D> Func(ptrdiff_t idx, const Vec<D> x, const Vec<D>) { const D d; return Add(x, Add(Iota(d, 0), Set(d, static_cast<T>(idx)))); }
  bool StoreAndShortCircuitImpl(const ptrdiff_t idx, T* to, const Vec<D> v) {
    const D d;
    StoreU(v, d, to + idx);
    stores.push_back(idx);
    const Vec<D> x = Sub(v, Add(Iota(d, 0), Set(d, static_cast<T>(idx))));
    return AllFalse(d, Eq(x, Set(d, stop)));
  }
};
template <class T> void Stop(Src& s, Ctx& cx) {
  StopUnit<T> u;
  const size_t N = u.ActualLanes(), n = Count(s, N); Note(cx, N, n);
  std::vector<T> in, y0;
  T* x = GenArr<T>(0, s, n, in); T* y = GenArr<T>(1, s, n, y0);
  u.stop = n && s.Bool() ? in[s.Below(n)] : Val<T>(s);
  size_t stop_i = n;
  if (s.Bool() && n) {  // unique stop element
    for (size_t i = 0; i < n; ++i) if (x[i] == u.stop) x[i] = in[i] = WAdd(u.stop, T(1));
    stop_i = s.Below(n); x[stop_i] = in[stop_i] = u.stop;
  }
  size_t end = n; bool stopped = false; size_t whole = n / N;
  for (size_t i = 0; i < whole && !stopped; ++i) for (size_t j = 0; j < N; ++j) if (in[i * N + j] == u.stop) { stopped = true; end = (i + 1) * N; whole = i + 1; break; }
  cx.Desc([&] { return vf::Fmt("early exit n=%zu lanes=%zu reference stops after %zu", n, N, end); });
  Unroller(u, x, y, ptrdiff_t(n));
  for (size_t i = 0; i < n; ++i) { const T w = i < end ? WAdd(in[i], static_cast<T>(i)) : y0[i]; VF_CHECK(y[i] == w, "early exit after %zu of %zu: element %zu is %.17g, want %.17g", end, n, i, double(y[i]), double(w)); }
  VF_CHECK(u.stores.size() == whole, "early exit: %zu vector stores, simple loop makes %zu", u.stores.size(), whole);
  for (size_t i = 0; i < whole; ++i) VF_CHECK(u.stores[i] == ptrdiff_t(i * N), "early exit: store %zu at index %lld", i, (long long)u.stores[i]);
  Unchanged(x, in, "stop"); AllIntact("stop");
}
template <class T> struct FindUnit : UnrollerUnit<FindUnit<T>, T, MakeSigned<T>> {
  using TI = MakeSigned<T>;
  using Base = UnrollerUnit<FindUnit<T>, T, TI>;
  using D = ScalableTag<T>; using DI = RebindToSigned<D>;
  T find, other;
  Vec<DI> Func(ptrdiff_t idx, const Vec<D> x, const Vec<DI> y) {
    const D d; const DI di;
    const intptr_t f = FindFirstTrue(d, Eq(x, Set(d, find)));
    return f >= 0 ? Set(di, static_cast<TI>(idx + f)) : y;
  }
  Vec<D> X0InitImpl() { return Set(D(), other); }
  Vec<DI> YInitImpl() { return Set(DI(), TI(-1)); }
  Vec<D> MaskLoadImpl(const ptrdiff_t idx, const T* from, const ptrdiff_t places) {
    const D d;
    const auto mask = places < 0 ? Not(FirstN(d, size_t(places + ptrdiff_t(Base::ActualLanes())))) : FirstN(d, size_t(places));
    return IfThenElse(mask, MaskedLoad(mask, d, from + idx), X0InitImpl());
  }
  bool StoreAndShortCircuitImpl(const ptrdiff_t, TI* to, const Vec<DI> x) { to[0] = GetLane(x); return to[0] == -1; }
  ptrdiff_t MaskStoreImpl(const ptrdiff_t, TI* to, const Vec<DI> x, const ptrdiff_t) { to[0] = GetLane(x); return 1; }
};
template <class T> void Find(Src& s, Ctx& cx) {
  FindUnit<T> u;
  const size_t N = u.ActualLanes();
  size_t n = Count(s, N); if (n == 0) n = 1;
  if (sizeof(T) == 1 && n > 127) n = 127;  // the index is returned in a lane
  Note(cx, N, n);
  std::vector<T> in; std::vector<MakeSigned<T>> y0;
  T* x = GenArr<T>(0, s, n, in); MakeSigned<T>* y = GenArr<MakeSigned<T>>(1, s, 1, y0);
  u.find = s.Bool() ? in[s.Below(n)] : Val<T>(s);
  u.other = WAdd(u.find, T(1));
  if (s.Bool()) {
    for (size_t i = 0; i < n; ++i) if (x[i] == u.find) x[i] = in[i] = u.other;
    if (s.Chance(3, 4)) { const size_t k = s.Below(n); x[k] = in[k] = u.find; }
  }
  int64_t want = -1;
  for (size_t i = n; i--;) if (in[i] == u.find) want = int64_t(i);
  cx.Desc([&] { return vf::Fmt("find n=%zu lanes=%zu want=%lld", n, N, (long long)want); });
  Unroller(u, x, y, ptrdiff_t(n));
  VF_CHECK(int64_t(y[0]) == want, "find: %lld, simple loop %lld (n=%zu)", (long long)y[0], (long long)want, n);
  Unchanged(x, in, "find"); AllIntact("find");
}
#define VF_NO_STORES(T, D)                                                                   \
  bool StoreAndShortCircuitImpl(const ptrdiff_t, T*, const Vec<D>) { return true; }          \
  ptrdiff_t MaskStoreImpl(const ptrdiff_t, T*, const Vec<D>, const ptrdiff_t) { return 0; }
// Sum of converted elements; counts how often each element was seen.
template <class F, class T> struct SumUnit : UnrollerUnit<SumUnit<F, T>, F, T> {
  using Base = UnrollerUnit<SumUnit<F, T>, F, T>;
  using DF = Rebind<F, typename Base::LargerD>; using DT = Rebind<T, typename Base::LargerD>;
  std::vector<uint32_t>* seen = nullptr;
  Vec<DT> Func(ptrdiff_t, const Vec<DF> x, const Vec<DT> y) {
    if (seen) {
      const DF df; F buf[MaxLanes(df)];
      StoreU(x, df, buf);
      for (size_t i = 0; i < Lanes(df); ++i) if (buf[i] != F(0)) { const size_t k = size_t(buf[i]) - 1; if (k < seen->size()) (*seen)[k]++; else seen->at(0) = 1000; }
    }
    return Add(y, Conv(DT(), x));
  }
  VF_NO_STORES(T, DT)
  ptrdiff_t ReduceImpl(const Vec<DT> x, T* to) { to[0] = ReduceSum(DT(), x); return 1; }
  void ReduceImpl(const Vec<DT> x0, const Vec<DT> x1, const Vec<DT> x2, Vec<DT>* y) { *y = Add(Add(*y, x0), Add(x1, x2)); }
};
template <class F, class T> void Sum(Src& s, Ctx& cx) {
  SumUnit<F, T> u;
  const size_t N = u.ActualLanes(), n = Count(s, N); Note(cx, N, n);
  std::vector<F> in; std::vector<T> y0;
  F* x = GenArr<F>(0, s, n, in); T* y = GenArr<T>(1, s, 1, y0);
  const bool count = s.Bool() && (sizeof(F) >= 4 || n < 120);
  std::vector<uint32_t> seen; seen.resize(n + 1);
  if (count) { u.seen = &seen; for (size_t i = 0; i < n; ++i) x[i] = in[i] = static_cast<F>(i + 1); }
  T want = T(0);
  for (size_t i = 0; i < n; ++i) want = WAdd(want, SConv<T>(in[i]));
  cx.Desc([&] { return vf::Fmt("sum n=%zu lanes=%zu", n, N); });
  Unroller(u, x, y, ptrdiff_t(n));
  VF_CHECK(y[0] == want, "sum: %.17g, simple loop %.17g (n=%zu)", double(y[0]), double(want), n);
  if (count) for (size_t i = 0; i < n; ++i) VF_CHECK(seen[i] == 1, "element %zu of %zu was passed to Func %u times", i, n, seen[i]);
  Unchanged(x, in, "sum"); AllIntact("sum");
}
// Non-zero start value and padding: minimum.
template <class T> struct MinUnit : UnrollerUnit<MinUnit<T>, T, T> {
  using Base = UnrollerUnit<MinUnit<T>, T, T>;
  using D = ScalableTag<T>;
  Vec<D> Func(ptrdiff_t, const Vec<D> x, const Vec<D> y) { return Min(y, x); }
  Vec<D> YInitImpl() { return Set(D(), hwy::HighestValue<T>()); }
  Vec<D> MaskLoadImpl(const ptrdiff_t idx, const T* from, const ptrdiff_t places) {
    const D d;
    const auto mask = places < 0 ? Not(FirstN(d, size_t(places + ptrdiff_t(Base::ActualLanes())))) : FirstN(d, size_t(places));
    return MaskedLoadOr(YInitImpl(), mask, d, from + idx);
  }
  VF_NO_STORES(T, D)
  ptrdiff_t ReduceImpl(const Vec<D> x, T* to) { to[0] = GetLane(MinOfLanes(D(), x)); return 1; }
  void ReduceImpl(const Vec<D> x0, const Vec<D> x1, const Vec<D> x2, Vec<D>* y) { *y = Min(Min(*y, x0), Min(x1, x2)); }
};
template <class T> void RMin(Src& s, Ctx& cx) {
  MinUnit<T> u;
  const size_t N = u.ActualLanes(), n = Count(s, N); Note(cx, N, n);
  std::vector<T> in, y0;
  T* x = GenArr<T>(0, s, n, in); T* y = GenArr<T>(1, s, 1, y0);
  if (n && s.Bool()) {  // a single small element
    for (size_t i = 0; i < n; ++i) x[i] = in[i] = T(100);
    const size_t k = s.Below(n); x[k] = in[k] = T(s.Below(100));
  }
  T want = hwy::HighestValue<T>();
  for (size_t i = 0; i < n; ++i) want = in[i] < want ? in[i] : want;
  cx.Desc([&] { return vf::Fmt("min n=%zu lanes=%zu", n, N); });
  Unroller(u, x, y, ptrdiff_t(n));
  VF_CHECK(y[0] == want, "min: %.17g, simple loop %.17g (n=%zu)", double(y[0]), double(want), n);
  Unchanged(x, in, "min"); AllIntact("min");
}
// Two inputs.
template <class A, class B, class T> struct Map2Unit : UnrollerUnit2D<Map2Unit<A, B, T>, A, B, T> {
  using Base = UnrollerUnit2D<Map2Unit<A, B, T>, A, B, T>;
  using DA = Rebind<A, typename Base::LargerD>; using DB = Rebind<B, typename Base::LargerD>; using DT = Rebind<T, typename Base::LargerD>;
  bool use_idx;
  Vec<DT> Func(ptrdiff_t idx, const Vec<DA> a, const Vec<DB> b, const Vec<DT>) {
    const DT d;
    const Vec<DT> vb = Conv(d, b);
    Vec<DT> r = Add(Conv(d, a), Add(vb, vb));
    if (use_idx) r = Add(r, Add(Iota(d, 0), Set(d, static_cast<T>(idx))));
    return r;
  }
};
template <class A, class B, class T> void Map2(Src& s, Ctx& cx) {
  Map2Unit<A, B, T> u; u.use_idx = s.Bool();
  const size_t N = u.ActualLanes(), n = Count(s, N); Note(cx, N, n);
  std::vector<A> ia; std::vector<B> ib; std::vector<T> y0;
  A* a = GenArr<A>(0, s, n, ia); B* b = GenArr<B>(1, s, n, ib); T* y = GenArr<T>(2, s, n, y0);
  cx.Desc([&] { return vf::Fmt("map2 n=%zu lanes=%zu", n, N); });
  Unroller(u, a, b, y, ptrdiff_t(n));
  for (size_t i = 0; i < n; ++i) {
    const T vb = SConv<T>(ib[i]);
    T w = WAdd(SConv<T>(ia[i]), WAdd(vb, vb));
    if (u.use_idx) w = WAdd(w, static_cast<T>(i));
    VF_CHECK(y[i] == w, "map2: element %zu of %zu is %.17g, simple loop %.17g", i, n, double(y[i]), double(w));
  }
  Unchanged(a, ia, "map2"); Unchanged(b, ib, "map2"); AllIntact("map2");
}
template <class T> struct Stop2Unit : UnrollerUnit2D<Stop2Unit<T>, T, T, T> {
  using D = ScalableTag<T>;
  std::vector<ptrdiff_t> stores;
  Vec<D> Func(ptrdiff_t, const Vec<D> a, const Vec<D> b, const Vec<D>) { return Sub(a, b); }
  bool StoreAndShortCircuitImpl(const ptrdiff_t idx, T* to, const Vec<D> v) {
    const D d; StoreU(v, d, to + idx); stores.push_back(idx);
    return AllTrue(d, Eq(v, Zero(d)));  // stop at the first difference
  }
};
template <class T> void Stop2(Src& s, Ctx& cx) {
  Stop2Unit<T> u;
  const size_t N = u.ActualLanes(), n = Count(s, N); Note(cx, N, n);
  std::vector<T> ia, ib, y0;
  T* a = GenArr<T>(0, s, n, ia); T* b = GenArr<T>(1, s, n, ib); T* y = GenArr<T>(2, s, n, y0);
  for (size_t i = 0; i < n; ++i) b[i] = ib[i] = ia[i];
  if (n) for (uint64_t k = s.Below(3); k--;) { const size_t i = s.Below(n); b[i] = ib[i] = WAdd(ia[i], T(1)); }
  size_t whole = n / N, end = n;
  for (size_t i = 0; i < whole; ++i) { bool diff = false; for (size_t j = 0; j < N; ++j) diff |= ia[i * N + j] != ib[i * N + j]; if (diff) { end = (i + 1) * N; whole = i + 1; } }
  cx.Desc([&] { return vf::Fmt("early exit 2D n=%zu lanes=%zu stop after %zu", n, N, end); });
  Unroller(u, a, b, y, ptrdiff_t(n));
  for (size_t i = 0; i < n; ++i) {
    const T w = i < end ? WSub(ia[i], ib[i]) : y0[i];
    VF_CHECK(y[i] == w, "early exit 2D after %zu of %zu: element %zu is %.17g, want %.17g", end, n, i, double(y[i]), double(w));
  }
  VF_CHECK(u.stores.size() == whole, "early exit 2D: %zu vector stores, simple loop %zu", u.stores.size(), whole);
  Unchanged(a, ia, "stop2"); Unchanged(b, ib, "stop2"); AllIntact("stop2");
}
template <class A, class B, class T> struct Dot2Unit : UnrollerUnit2D<Dot2Unit<A, B, T>, A, B, T> {
  using Base = UnrollerUnit2D<Dot2Unit<A, B, T>, A, B, T>;
  using DA = Rebind<A, typename Base::LargerD>; using DB = Rebind<B, typename Base::LargerD>; using DT = Rebind<T, typename Base::LargerD>;
  Vec<DT> Func(ptrdiff_t, const Vec<DA> a, const Vec<DB> b, const Vec<DT> y) { const DT d; return Add(y, Mul(Conv(d, a), Conv(d, b))); }
  VF_NO_STORES(T, DT)
  ptrdiff_t ReduceImpl(const Vec<DT> x, T* to) { to[0] = ReduceSum(DT(), x); return 1; }
  void ReduceImpl(const Vec<DT> x0, const Vec<DT> x1, const Vec<DT> x2, Vec<DT>* y) { *y = Add(Add(*y, x0), Add(x1, x2)); }
};
template <class A, class B, class T> void Dot2(Src& s, Ctx& cx) {
  Dot2Unit<A, B, T> u;
  const size_t N = u.ActualLanes(), n = Count(s, N); Note(cx, N, n);
  std::vector<A> ia; std::vector<B> ib; std::vector<T> y0;
  A* a = GenArr<A>(0, s, n, ia); B* b = GenArr<B>(1, s, n, ib); T* y = GenArr<T>(2, s, 1, y0);
  T want = T(0);
  for (size_t i = 0; i < n; ++i) {
    const T x = SConv<T>(ia[i]), z = SConv<T>(ib[i]);
    want = WAdd(want, hwy::IsFloat<T>() ? T(x * z) : T(MakeUnsigned<T>(1ull * uint64_t(x) * uint64_t(z))));
  }
  cx.Desc([&] { return vf::Fmt("dot n=%zu lanes=%zu", n, N); });
  Unroller(u, a, b, y, ptrdiff_t(n));
  VF_CHECK(y[0] == want, "dot: %.17g, simple loop %.17g (n=%zu)", double(y[0]), double(want), n);
  Unchanged(a, ia, "dot"); Unchanged(b, ib, "dot"); AllIntact("dot");
}

#define R(NAME, ...) VF_REG(VF_PREFIX NAME, 5000, 50000, (&__VA_ARGS__), 0, HWY_TARGET)
#define R_INT(T, TN) R("map<" TN ">", Map<T, T>) R("stop<" TN ">", Stop<T>) R("find<" TN ">", Find<T>) R("sum<" TN ">", Sum<T, T>) \
  R("map2<" TN ">", Map2<T, T, T>) R("stop2<" TN ">", Stop2<T>)
#define R_MUL(T, TN) R_INT(T, TN) R("dot<" TN ">", Dot2<T, T, T>) R("min<" TN ">", RMin<T>)
R_INT(uint8_t, "u8") R_INT(int8_t, "i8")
R_MUL(uint16_t, "u16") R_MUL(int16_t, "i16") R_MUL(uint32_t, "u32") R_MUL(int32_t, "i32") R_MUL(uint64_t, "u64") R_MUL(int64_t, "i64") R_MUL(float, "f32")
R("map<u8,u16>", Map<uint8_t, uint16_t>) R("map<u8,u32>", Map<uint8_t, uint32_t>) R("map<u16,u32>", Map<uint16_t, uint32_t>)
R("map<i8,i32>", Map<int8_t, int32_t>) R("map<i16,i32>", Map<int16_t, int32_t>) R("map<u32,u64>", Map<uint32_t, uint64_t>)
R("map<i32,i16>", Map<int32_t, int16_t>) R("map<i32,u8>", Map<int32_t, uint8_t>) R("map<i16,u8>", Map<int16_t, uint8_t>) R("map<f32,i32>", Map<float, int32_t>)
R("sum<u8,u32>", Sum<uint8_t, uint32_t>) R("sum<i16,i32>", Sum<int16_t, int32_t>) R("sum<u16,u32>", Sum<uint16_t, uint32_t>)
R("map2<u8,u16,u32>", Map2<uint8_t, uint16_t, uint32_t>) R("map2<u32,u8,u32>", Map2<uint32_t, uint8_t, uint32_t>) R("map2<i16,i16,i32>", Map2<int16_t, int16_t, int32_t>)
R("map2<i32,i32,i16>", Map2<int32_t, int32_t, int16_t>)
R("dot<i16,i16,i32>", Dot2<int16_t, int16_t, int32_t>) R("dot<u8,u16,u32>", Dot2<uint8_t, uint16_t, uint32_t>) R("dot<i32,i16,i32>", Dot2<int32_t, int16_t, int32_t>)
#if HWY_HAVE_FLOAT64
R_MUL(double, "f64")
R("map<f32,f64>", Map<float, double>) R("map<f64,f32>", Map<double, float>) R("map<i32,f64>", Map<int32_t, double>) R("sum<f32,f64>", Sum<float, double>)
R("dot<f32,f32,f64>", Dot2<float, float, double>)
#endif
}  // namespace
}  // namespace HWY_NAMESPACE
}  // namespace hwy
HWY_AFTER_NAMESPACE();
