// C23: hwy/contrib/algo against scalar loops, arrays between guard pages.
#include "hwy/detect_targets.h"
#undef HWY_TARGET
#define HWY_TARGET VF_TARGET
#include "hwy/contrib/algo/copy-inl.h"
#include "hwy/contrib/algo/find-inl.h"
#include "hwy/contrib/algo/transform-inl.h"
#include "hwy/highway.h"
#include "vf.h"
HWY_BEFORE_NAMESPACE();
namespace hwy {
namespace HWY_NAMESPACE {
namespace {
using vf::Ctx;
using vf::Src;
template <class T> using Bits = MakeUnsigned<T>;
template <class T> Bits<T> ToBits(T v) { Bits<T> b; memcpy(&b, &v, sizeof v); return b; }
template <class T> T FromBits(Bits<T> b) { T v; memcpy(&v, &b, sizeof v); return v; }

template <class T> constexpr bool IsStd() { return !hwy::IsSpecialFloat<T>(); }
// Element: special values, canary value, small alphabet, random bits.
template <class T> T Elem(Src& s, int mode) {
  constexpr int kB = int(sizeof(T) * 8);
  const uint64_t canary = 0xC5C5C5C5C5C5C5C5ull;
  switch (mode) {
    case 0: return FromBits<T>(Bits<T>(s.Below(3)));
    case 1: return FromBits<T>(Bits<T>(s.Bits(kB)));
    default:
      switch (s.Below(6)) {
        case 0: return FromBits<T>(Bits<T>(0));
        case 1: return FromBits<T>(Bits<T>(1ull << (kB - 1)));  // -0 or min
        case 2: return FromBits<T>(Bits<T>(canary));
        case 3: return FromBits<T>(Bits<T>(~0ull));  // NaN or -1
        case 4: return FromBits<T>(Bits<T>(1));
        default: return FromBits<T>(Bits<T>(s.Int(kB)));
      }
  }
}
template <class T> void Gen(Src& s, T* p, size_t n) {
  const int mode = int(s.Below(3));
  vf::Rng r = s.Sub();
  if (s.Bool()) {  // one value everywhere with a few changes
    const T e = Elem<T>(s, mode);
    for (size_t i = 0; i < n; ++i) p[i] = e;
    if (n) for (uint64_t k = s.Below(4); k--;) p[s.Below(n)] = Elem<T>(s, mode);
  } else if (n <= 40) {
    for (size_t i = 0; i < n; ++i) p[i] = Elem<T>(s, mode);
  } else {
    T a[8];
    for (T& e : a) e = Elem<T>(s, mode);
    for (size_t i = 0; i < n; ++i) p[i] = mode == 1 ? FromBits<T>(Bits<T>(r())) : a[r.Below(8)];
  }
}
template <class T> std::string Show(const T* p, size_t n) {
  std::string o = vf::Fmt(" n=%zu [", n);
  for (size_t i = 0; i < n && i < 48; ++i) o += vf::Fmt("%llx ", (unsigned long long)ToBits(p[i]));
  return o + "]";
}
template <class T> void Same(const char* what, const T* got, const T* want, size_t n) {
  for (size_t i = 0; i < n; ++i)
    VF_CHECK(ToBits(got[i]) == ToBits(want[i]), "%s: element %zu of %zu is %llx, scalar loop gives %llx", what, i, n,
             (unsigned long long)ToBits(got[i]), (unsigned long long)ToBits(want[i]));
}
inline vf::Guarded& G(int i) { static vf::Guarded g[4]; return g[i]; }
template <class T> T* Place(int g, Src& s, const std::vector<T>& v) {
  T* p = G(g).template Arr<T>(s, v.size());
  if (!v.empty()) memcpy(static_cast<void*>(p), v.data(), v.size() * sizeof(T));
  return p;
}
template <class T> std::vector<T> GenVec(Src& s, size_t n) {
  std::vector<T> v; v.resize(n);
  Gen(s, v.data(), n);
  return v;
}
inline void AllIntact(const char* w) { for (int i = 0; i < 4; ++i) if (i < 3) G(i).Check(w); }

// Predicates usable on every lane type.
template <class T> struct Pred {
  int kind; T k; Bits<T> kb;
  bool operator()(T v) const {
    if (kind == 0) return (ToBits(v) & kb) != 0;
    if (kind == 1) return (ToBits(v) & kb) == 0;  // true for zero padding
    if (kind == 2) return ToBits(v) == kb;
    return Num(v);
  }
  template <class U = T, HWY_IF_NOT_SPECIAL_FLOAT(U)> bool Num(U v) const { return kind == 3 ? v < k : !(v == k); }
  template <class U = T, HWY_IF_SPECIAL_FLOAT(U)> bool Num(U) const { return true; }
  template <class D, class V> HWY_ATTR Mask<D> operator()(D d, V v) const {
    const RebindToUnsigned<D> du;
    if (kind == 0) return RebindMask(d, Ne(And(BitCast(du, v), Set(du, kb)), Zero(du)));
    if (kind == 1) return RebindMask(d, Eq(And(BitCast(du, v), Set(du, kb)), Zero(du)));
    if (kind == 2) return RebindMask(d, Eq(BitCast(du, v), Set(du, kb)));
    return VNum(d, v);
  }
  template <class D, class V, typename U = TFromD<D>, HWY_IF_NOT_SPECIAL_FLOAT(U)> HWY_ATTR Mask<D> VNum(D d, V v) const {
    return kind == 3 ? Lt(v, Set(d, k)) : Ne(v, Set(d, k));
  }
  template <class D, class V, typename U = TFromD<D>, HWY_IF_SPECIAL_FLOAT(U)> HWY_ATTR Mask<D> VNum(D d, V) const {
    const RebindToUnsigned<D> du;
    return RebindMask(d, Eq(Zero(du), Zero(du)));
  }
};
template <class T> Pred<T> GenPred(Src& s, const T* p, size_t n) {
  Pred<T> r;
  r.kind = int(s.Below(5));
  r.k = n && s.Bool() ? p[s.Below(n)] : Elem<T>(s, int(s.Below(3)));
  r.kb = s.Bool() ? ToBits(r.k) : Bits<T>(1ull << s.Below(sizeof(T) * 8));
  if (r.kind == 2) r.kb = ToBits(r.k);
  return r;
}
template <class D> size_t Count(Src& s, D d) {
  const size_t N = Lanes(d);
  return s.Chance(1, 12) ? size_t(s.Below(40 * N + 300)) : s.Len(5 * N + 3, N);
}
template <class T> void Note(Ctx& cx, size_t N, size_t n) { cx.nontrivial = n != 0; cx.cls = n == 0 ? "empty" : n % N ? (n < N ? "<1 vector" : "whole+remainder") : "whole vectors"; }

struct OpFill { template <class D, class T> static void Go(D d, T, Src& s, Ctx& cx) {
  const size_t n = Count(s, d); Note<T>(cx, Lanes(d), n);
  const T v = Elem<T>(s, int(s.Below(3)));
  const std::vector<T> init = GenVec<T>(s, n);
  T* to = Place(0, s, init);
  cx.Desc([&] { return vf::Fmt("Fill n=%zu N=%zu value=%llx", n, Lanes(d), (unsigned long long)ToBits(v)); });
  Fill(d, v, n, to);
  std::vector<T> want; want.assign(n, v);
  Same("Fill", to, want.data(), n); AllIntact("Fill");
} };
struct OpCopy { template <class D, class T> static void Go(D d, T, Src& s, Ctx& cx) {
  const size_t n = Count(s, d); Note<T>(cx, Lanes(d), n);
  const std::vector<T> src = GenVec<T>(s, n), init = GenVec<T>(s, n);
  T* from = Place(0, s, src); T* to = Place(1, s, init);
  cx.Desc([&] { return vf::Fmt("Copy N=%zu", Lanes(d)) + Show(from, n); });
  Copy(d, from, n, to);
  Same("Copy", to, src.data(), n); Same("Copy source", from, src.data(), n); AllIntact("Copy");
} };
struct OpCopyIf { template <class D, class T> static void Go(D d, T, Src& s, Ctx& cx) {
  const size_t n = Count(s, d); Note<T>(cx, Lanes(d), n);
  const std::vector<T> src = GenVec<T>(s, n), init = GenVec<T>(s, n);
  const Pred<T> p = GenPred(s, src.data(), n);
  std::vector<T> want = init; size_t k = 0;
  for (size_t i = 0; i < n; ++i) if (p(src[i])) want[k++] = src[i];
  T* from = Place(0, s, src); T* to = Place(1, s, init);
  cx.Desc([&] { return vf::Fmt("CopyIf N=%zu pred=%d kept=%zu", Lanes(d), p.kind, k) + Show(from, n); });
  T* end = CopyIf(d, from, n, to, p);
  VF_CHECK(end - to == ptrdiff_t(k), "CopyIf of %zu elements returned end %lld, scalar loop keeps %zu", n, (long long)(end - to), k);
  Same("CopyIf", to, want.data(), n); Same("CopyIf source", from, src.data(), n); AllIntact("CopyIf");
} };
struct OpFind { template <class D, class T> static void Go(D d, T, Src& s, Ctx& cx) {
  const size_t n = Count(s, d); Note<T>(cx, Lanes(d), n);
  const std::vector<T> src = GenVec<T>(s, n);
  const T v = n && s.Bool() ? src[s.Below(n)] : Elem<T>(s, int(s.Below(3)));
  size_t want = n;
  for (size_t i = n; i--;) if (src[i] == v) want = i;
  T* in = Place(0, s, src);
  cx.Desc([&] { return vf::Fmt("Find N=%zu value=%llx", Lanes(d), (unsigned long long)ToBits(v)) + Show(in, n); });
  const size_t got = Find(d, v, in, n);
  VF_CHECK(got == want, "Find in %zu elements returned %zu, scalar loop %zu", n, got, want);
  AllIntact("Find");
} };
struct OpFindIf { template <class D, class T> static void Go(D d, T, Src& s, Ctx& cx) {
  const size_t n = Count(s, d); Note<T>(cx, Lanes(d), n);
  const std::vector<T> src = GenVec<T>(s, n);
  const Pred<T> p = GenPred(s, src.data(), n);
  size_t want = n;
  for (size_t i = n; i--;) if (p(src[i])) want = i;
  T* in = Place(0, s, src);
  cx.Desc([&] { return vf::Fmt("FindIf N=%zu pred=%d", Lanes(d), p.kind) + Show(in, n); });
  const size_t got = FindIf(d, in, n, p);
  VF_CHECK(got == want, "FindIf in %zu elements returned %zu, scalar loop %zu", n, got, want);
  AllIntact("FindIf");
} };
struct OpGenerate { template <class D, class T> static void Go(D d, T, Src& s, Ctx& cx) {
  const size_t n = Count(s, d); Note<T>(cx, Lanes(d), n);
  using TU = Bits<T>;
  const TU k = TU(s.Bits(32));
  T* out = Place(0, s, GenVec<T>(s, n));
  const size_t N = Lanes(d);
  size_t calls = 0; bool bad = false;
  cx.Desc([&] { return vf::Fmt("Generate N=%zu n=%zu", N, n); });
  std::vector<TU> seen(N);
  Generate(d, out, n, [&](D dd, Vec<RebindToUnsigned<D>> vi) HWY_ATTR {
    const RebindToUnsigned<D> du;
    StoreU(vi, du, seen.data());
    for (size_t i = 0; i < N; ++i) bad |= seen[i] != TU(calls * N + i);
    ++calls;
    return BitCast(dd, Xor(Add(vi, vi), Set(du, k)));
  });
  VF_CHECK(!bad, "Generate: func received lanes other than consecutive indices (n=%zu)", n);
  VF_CHECK(calls == (n + N - 1) / N, "Generate: func was called %zu times for %zu elements", calls, n);
  std::vector<T> want; want.resize(n);
  for (size_t i = 0; i < n; ++i) want[i] = FromBits<T>(TU(TU(2 * TU(i)) ^ k));
  Same("Generate", out, want.data(), n); AllIntact("Generate");
} };
struct OpForeach { template <class D, class T> static void Go(D d, T, Src& s, Ctx& cx) {
  const size_t n = Count(s, d); Note<T>(cx, Lanes(d), n);
  const size_t N = Lanes(d);
  const std::vector<T> src = GenVec<T>(s, n), no = GenVec<T>(s, N);
  T* in = Place(0, s, src);
  cx.Desc([&] { return vf::Fmt("Foreach N=%zu", N) + Show(in, n) + " no" + Show(no.data(), N); });
  std::vector<T> seen; seen.resize(n + 4 * N); size_t at = 0, calls = 0;
  Foreach(d, in, n, LoadU(d, no.data()), [&](D dd, Vec<D> v) HWY_ATTR { if (at + N <= seen.size()) StoreU(v, dd, seen.data() + at); at += N; ++calls; });
  VF_CHECK(calls == (n + N - 1) / N, "Foreach: func was called %zu times for %zu elements of %zu lanes", calls, n, N);
  std::vector<T> want = src;
  while (want.size() % N) want.push_back(no[want.size() % N]);
  Same("Foreach lanes", seen.data(), want.data(), want.size()); AllIntact("Foreach");
} };
template <int kIn> struct OpTransform { template <class D, class T> static void Go(D d, T, Src& s, Ctx& cx) {
  const size_t n = Count(s, d); Note<T>(cx, Lanes(d), n);
  using TU = Bits<T>;
  const TU k = TU(s.Bits(32));
  const std::vector<T> a = GenVec<T>(s, n), b = GenVec<T>(s, kIn > 0 ? n : 0), c = GenVec<T>(s, kIn > 1 ? n : 0);
  T* pa = Place(0, s, a); T* pb = Place(1, s, b); T* pc = Place(2, s, c);
  std::vector<T> want; want.resize(n);
  for (size_t i = 0; i < n; ++i) {
    TU r = TU(ToBits(a[i]) + k);
    if (kIn > 0) r = TU(r - ToBits(b[i]));
    if (kIn > 1) r = TU(r ^ ToBits(c[i]));
    want[i] = FromBits<T>(r);
  }
  cx.Desc([&] { return vf::Fmt("Transform%d N=%zu", kIn, Lanes(d)) + Show(a.data(), n); });
  const RebindToUnsigned<D> du;
  // Results of lanes beyond `count` are discarded.
  if constexpr (kIn == 0)
    Transform(d, pa, n, [&](D dd, Vec<D> v) HWY_ATTR { return BitCast(dd, Add(BitCast(du, v), Set(du, k))); });
  else if constexpr (kIn == 1)
    Transform1(d, pa, n, pb, [&](D dd, Vec<D> v, Vec<D> v1) HWY_ATTR { return BitCast(dd, Sub(Add(BitCast(du, v), Set(du, k)), BitCast(du, v1))); });
  else
    Transform2(d, pa, n, pb, pc, [&](D dd, Vec<D> v, Vec<D> v1, Vec<D> v2) HWY_ATTR {
      return BitCast(dd, Xor(Sub(Add(BitCast(du, v), Set(du, k)), BitCast(du, v1)), BitCast(du, v2))); });
  Same("Transform", pa, want.data(), n);
  Same("Transform in1", pb, b.data(), b.size()); Same("Transform in2", pc, c.data(), c.size());
  AllIntact("Transform");
} };
struct OpReplace { template <class D, class T> static void Go(D d, T, Src& s, Ctx& cx) {
  const size_t n = Count(s, d); Note<T>(cx, Lanes(d), n);
  const std::vector<T> a = GenVec<T>(s, n);
  const T old_t = n && s.Bool() ? a[s.Below(n)] : Elem<T>(s, int(s.Below(3)));
  const T new_t = Elem<T>(s, int(s.Below(3)));
  T* p = Place(0, s, a);
  std::vector<T> want = a;
  for (T& v : want) if (v == old_t) v = new_t;
  cx.Desc([&] { return vf::Fmt("Replace N=%zu old=%llx new=%llx", Lanes(d), (unsigned long long)ToBits(old_t), (unsigned long long)ToBits(new_t)) + Show(a.data(), n); });
  Replace(d, p, n, new_t, old_t);
  Same("Replace", p, want.data(), n); AllIntact("Replace");
} };
struct OpReplaceIf { template <class D, class T> static void Go(D d, T, Src& s, Ctx& cx) {
  const size_t n = Count(s, d); Note<T>(cx, Lanes(d), n);
  const std::vector<T> a = GenVec<T>(s, n);
  const Pred<T> pr = GenPred(s, a.data(), n);
  const T new_t = Elem<T>(s, int(s.Below(3)));
  T* p = Place(0, s, a);
  std::vector<T> want = a;
  for (T& v : want) if (pr(v)) v = new_t;
  cx.Desc([&] { return vf::Fmt("ReplaceIf N=%zu pred=%d", Lanes(d), pr.kind) + Show(a.data(), n); });
  ReplaceIf(d, p, n, new_t, pr);
  Same("ReplaceIf", p, want.data(), n); AllIntact("ReplaceIf");
} };

template <class Op, class T> void Run(Src& s, Ctx& cx) {
  switch (s.Below(4)) {
    case 1: return Op::Go(CappedTag<T, 4>(), T(), s, cx);
    case 2: return Op::Go(CappedTag<T, 1>(), T(), s, cx);
    default: return Op::Go(ScalableTag<T>(), T(), s, cx);
  }
}
#define R1(OP, NAME, T, TN) VF_REG(VF_PREFIX NAME "<" TN ">", 3000, 30000, (&Run<OP, T>), 0, HWY_TARGET)
#define R_ANY(T, TN) R1(OpFill, "Fill", T, TN) R1(OpCopy, "Copy", T, TN) R1(OpFindIf, "FindIf", T, TN) \
  R1(OpForeach, "Foreach", T, TN) R1(OpTransform<0>, "Transform", T, TN) \
  R1(OpTransform<1>, "Transform1", T, TN) R1(OpTransform<2>, "Transform2", T, TN) R1(OpReplaceIf, "ReplaceIf", T, TN) R1(OpGenerate, "Generate", T, TN)
#define R_EQ(T, TN) R1(OpFind, "Find", T, TN) R1(OpReplace, "Replace", T, TN)
#define R_CIF(T, TN) R1(OpCopyIf, "CopyIf", T, TN)
#define R_ALL(T, TN) R_ANY(T, TN) R_EQ(T, TN) R_CIF(T, TN)
R_ANY(uint8_t, "u8") R_EQ(uint8_t, "u8") R_ANY(int8_t, "i8") R_EQ(int8_t, "i8")
R_ALL(uint16_t, "u16") R_ALL(int16_t, "i16") R_ALL(uint32_t, "u32") R_ALL(int32_t, "i32") R_ALL(uint64_t, "u64") R_ALL(int64_t, "i64")
R_ALL(float, "f32")
#if HWY_HAVE_FLOAT64
R_ALL(double, "f64")
#endif
R_ANY(hwy::float16_t, "f16") R_CIF(hwy::float16_t, "f16")
R_ANY(hwy::bfloat16_t, "bf16") R_CIF(hwy::bfloat16_t, "bf16")
#if HWY_HAVE_FLOAT16
R_EQ(hwy::float16_t, "f16")
#endif
}  // namespace
}  // namespace HWY_NAMESPACE
}  // namespace hwy
HWY_AFTER_NAMESPACE();
