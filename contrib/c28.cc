// C28: hwy/contrib/random against an independent xoshiro256++ model.
#ifndef VF_STATIC
#include "hwy/detect_targets.h"
#undef HWY_TARGET
#define HWY_TARGET VF_TARGET
#endif
#include <string.h>
#include <array>
#include <memory>
#include <random>
#include <vector>
#include "hwy/contrib/random/random-inl.h"
#include "hwy/highway.h"
#include "c28.h"
#include "vf.h"
HWY_BEFORE_NAMESPACE();
namespace hwy {
namespace HWY_NAMESPACE {
namespace {
using vf::Ctx;
using vf::Src;

uint64_t Seed(Src& s) { return s.Int(64); }

// The model of VectorXoshiro: one stream per lane.
struct Model {
  std::vector<c28::State> st;
  Model(uint64_t seed, uint64_t thread, size_t lanes) {
    c28::State x = c28::FromSeed(seed);
    for (uint64_t i = 0; i < thread; ++i) x = c28::LongJump(x);
    for (size_t i = 0; i < lanes; ++i) { st.push_back(x); x = c28::Jump(x); }
  }
  // One vector of outputs.
  std::vector<uint64_t> Draw() { std::vector<uint64_t> r; for (auto& x : st) r.push_back(c28::Next(x)); return r; }
};
double ToUniform(uint64_t x) { return ldexp(double(x >> 11), -53); }

template <class T, size_t N> HWY_NOINLINE void CheckArr(const std::array<T, N>& got, Model& m, const char* what) {
  const size_t L = m.st.size();
  for (size_t i = 0; i < N; i += L) {
    const auto w = m.Draw();
    for (size_t k = 0; k < L && i + k < N; ++k) {
      const T want = sizeof(T) && std::is_same<T, double>::value ? T(ToUniform(w[k])) : T(w[k]);
      VF_CHECK(got[i + k] == want, "%s<%zu>: element %zu", what, N, i + k);
    }
  }
}
template <size_t N> HWY_NOINLINE std::array<uint64_t, N> BatchU(VectorXoshiro& g) { return g.operator()<N>(); }
template <size_t N> HWY_NOINLINE std::array<double, N> BatchF(VectorXoshiro& g) { return g.Uniform<N>(); }

void Vector(Src& s, Ctx& cx) {
  const uint64_t seed = Seed(s), thread = s.Below(s.Below(4) == 0 ? 40 : 4);
  const ScalableTag<uint64_t> d;
  const ScalableTag<double> df;
  const size_t L = Lanes(d);
  VectorXoshiro g(seed, thread);
  Model m(seed, thread, L);
  if (thread == 0 && s.Bool()) g.~VectorXoshiro(), new (&g) VectorXoshiro(seed);
  cx.evals = 0;
  cx.Desc([&] { return vf::Fmt("seed %llx thread %llu lanes %zu:", (unsigned long long)seed, (unsigned long long)thread, L); });
  const auto state = [&] {
    VF_CHECK(g.StateSize() == 4 * L, "StateSize %llu", (unsigned long long)g.StateSize());
    const auto& st = g.GetState();
    for (size_t j = 0; j < 4; ++j) {
      VF_CHECK(st[{j}].size() == L, "state row size");
      for (size_t i = 0; i < L; ++i) VF_CHECK(st[{j}][i] == m.st[i].s[j], "state %zu of lane %zu", j, i);
    }
  };
  state();
  const size_t ops = 1 + size_t(s.Below(12));
  for (size_t o = 0; o < ops; ++o) {
    const uint64_t op = s.Below(9);
    cx.Desc([&] { return vf::Fmt(" op%llu", (unsigned long long)op); });
    ++cx.evals;
    switch (op) {
      case 0: {
        HWY_ALIGN uint64_t out[8];
        Store(g(), d, out);
        const auto w = m.Draw();
        for (size_t i = 0; i < L; ++i) VF_CHECK(out[i] == w[i], "operator(): lane %zu = %llx, reference %llx", i, (unsigned long long)out[i], (unsigned long long)w[i]);
        break;
      }
      case 1: {
        HWY_ALIGN double out[8];
        Store(g.Uniform(), df, out);
        const auto w = m.Draw();
        for (size_t i = 0; i < L; ++i) {
          VF_CHECK(out[i] >= 0.0 && out[i] < 1.0, "Uniform: %a", out[i]);
          VF_CHECK(out[i] == ToUniform(w[i]), "Uniform: lane %zu = %a, reference %a", i, out[i], ToUniform(w[i]));
        }
        break;
      }
      case 2: case 3: {
        const size_t n = s.Len(300, L);
        cx.Desc([&] { return vf::Fmt("(%zu)", n); });
        c28::TrackAllocations(true);
        if (op == 2) {
          AlignedVector<uint64_t> r = g(n);
          const std::string bad = c28::CheckAllocations();
          c28::TrackAllocations(false);
          VF_CHECK(bad.empty(), "operator()(%zu): %s", n, bad.c_str());
          VF_CHECK(r.size() == n, "size %zu, requested %zu", r.size(), n);
          for (size_t i = 0; i < n; i += L) {
            const auto w = m.Draw();
            for (size_t k = 0; k < L && i + k < n; ++k) VF_CHECK(r[i + k] == w[k], "operator()(%zu): element %zu", n, i + k);
          }
        } else {
          AlignedVector<double> r = g.Uniform(n);
          const std::string bad = c28::CheckAllocations();
          c28::TrackAllocations(false);
          VF_CHECK(bad.empty(), "Uniform(%zu): %s", n, bad.c_str());
          VF_CHECK(r.size() == n, "size %zu, requested %zu", r.size(), n);
          for (size_t i = 0; i < n; i += L) {
            const auto w = m.Draw();
            for (size_t k = 0; k < L && i + k < n; ++k) VF_CHECK(r[i + k] == ToUniform(w[k]), "Uniform(%zu): element %zu", n, i + k);
          }
        }
        break;
      }
      case 4:
        switch (s.Below(6)) {
          case 0: CheckArr(BatchU<1>(g), m, "operator()"); break;
          case 1: CheckArr(BatchU<3>(g), m, "operator()"); break;
          case 2: CheckArr(BatchU<8>(g), m, "operator()"); break;
          case 3: CheckArr(BatchU<13>(g), m, "operator()"); break;
          case 4: CheckArr(BatchU<64>(g), m, "operator()"); break;
          default: CheckArr(BatchU<257>(g), m, "operator()"); break;
        }
        break;
      case 5:
        switch (s.Below(6)) {
          case 0: CheckArr(BatchF<1>(g), m, "Uniform"); break;
          case 1: CheckArr(BatchF<3>(g), m, "Uniform"); break;
          case 2: CheckArr(BatchF<8>(g), m, "Uniform"); break;
          case 3: CheckArr(BatchF<13>(g), m, "Uniform"); break;
          case 4: CheckArr(BatchF<64>(g), m, "Uniform"); break;
          default: CheckArr(BatchF<257>(g), m, "Uniform"); break;
        }
        break;
      case 6: state(); break;
      case 7: {  // moves: the streams continue
        VectorXoshiro g2(std::move(g));
        HWY_ALIGN uint64_t out[8];
        Store(g2(), d, out);
        const auto w = m.Draw();
        for (size_t i = 0; i < L; ++i) VF_CHECK(out[i] == w[i], "moved: lane %zu", i);
        g.~VectorXoshiro();
        new (&g) VectorXoshiro(std::move(g2));
        break;
      }
      default:
        for (size_t k = s.Below(200); k; --k) { (void)g(); m.Draw(); }
        break;
    }
  }
  state();
}

template <uint64_t kSize> HWY_NOINLINE void CachedImpl(Src& s, Ctx& cx) {
  const uint64_t seed = Seed(s), thread = s.Below(4);
  const size_t L = Lanes(ScalableTag<uint64_t>());
  struct Box { uint64_t pre = 0x1122334455667788ull; CachedXoshiro<kSize> g; uint64_t post = 0x99AABBCCDDEEFF00ull; Box(uint64_t a, uint64_t b) : g(a, b) {} };
  AlignedUniquePtr<Box> b = MakeUniqueAligned<Box>(seed, thread);
  Model m(seed, thread, L);
  const size_t n = size_t(s.Below(4 * kSize + 4 * L));
  cx.evals = n + 1;
  cx.Desc([&] { return vf::Fmt("cache %d, seed %llx thread %llu, %zu draws", int(kSize), (unsigned long long)seed, (unsigned long long)thread, n); });
  std::vector<uint64_t> want;
  while (want.size() < n) {
    size_t left = kSize;
    while (left) { const auto w = m.Draw(); for (size_t k = 0; k < L && left; ++k, --left) want.push_back(w[k]); }
  }
  for (size_t i = 0; i < n; ++i) {
    const uint64_t got = b->g();
    VF_CHECK(got == want[i], "CachedXoshiro<%d>: draw %zu = %llx, reference %llx", int(kSize), i, (unsigned long long)got, (unsigned long long)want[i]);
  }
  VF_CHECK(b->pre == 0x1122334455667788ull && b->post == 0x99AABBCCDDEEFF00ull, "CachedXoshiro<%d> wrote outside the object", int(kSize));
  static_assert(CachedXoshiro<kSize>::min() == 0 && CachedXoshiro<kSize>::max() == ~0ull, "range");
  if (s.Below(8) == 0) {
    std::uniform_int_distribution<int> dist(3, 11);
    for (int k = 0; k < 20; ++k) { const int v = dist(b->g); VF_CHECK(v >= 3 && v <= 11, "distribution"); }
  }
}
void Cached(Src& s, Ctx& cx) {
  switch (s.Below(7)) {
    case 0: CachedImpl<1>(s, cx); break;
    case 1: CachedImpl<2>(s, cx); break;
    case 2: CachedImpl<4>(s, cx); break;
    case 3: CachedImpl<8>(s, cx); break;
    case 4: CachedImpl<16>(s, cx); break;
    case 5: CachedImpl<64>(s, cx); break;
    default: CachedImpl<1024>(s, cx); break;
  }
}

void Scalar(Src& s, Ctx& cx) {
  using internal::Xoshiro;
  const uint64_t seed = Seed(s), thread = s.Below(6);
  const bool with_thread = s.Bool();
  Xoshiro x = with_thread ? Xoshiro(seed, thread) : Xoshiro(seed);
  c28::State m = c28::FromSeed(seed);
  if (with_thread) for (uint64_t i = 0; i < thread; ++i) m = c28::Jump(m);
  static_assert(Xoshiro::StateSize() == 4, "state size");
  cx.Desc([&] { return vf::Fmt("seed %llx thread %d:", (unsigned long long)seed, with_thread ? int(thread) : -1); });
  internal::SplitMix64 sm(seed);
  for (uint64_t i = 1; i < 6; ++i) VF_CHECK(sm() == c28::SplitMix(seed, i), "SplitMix64(%llx) output %llu", (unsigned long long)seed, (unsigned long long)i);
  const auto same = [&](const char* what) {
    const std::array<uint64_t, 4> st = x.GetState();
    for (int i = 0; i < 4; ++i) VF_CHECK(st[size_t(i)] == m.s[i], "%s: state %d is %llx, reference %llx", what, i, (unsigned long long)st[size_t(i)], (unsigned long long)m.s[i]);
  };
  same("constructor");
  const size_t ops = 1 + size_t(s.Below(20));
  cx.evals = ops;
  for (size_t o = 0; o < ops; ++o) {
    const uint64_t op = s.Below(5);
    cx.Desc([&] { return vf::Fmt(" %llu", (unsigned long long)op); });
    switch (op) {
      case 0: { const uint64_t g = x(), w = c28::Next(m); VF_CHECK(g == w, "next %llx, reference %llx", (unsigned long long)g, (unsigned long long)w); break; }
      case 1: { const double g = x.Uniform(), w = ToUniform(c28::Next(m)); VF_CHECK(g == w && g >= 0 && g < 1, "Uniform %a, reference %a", g, w); break; }
      case 2: x.Jump(); m = c28::Jump(m); same("Jump"); break;
      case 3: x.LongJump(); m = c28::LongJump(m); same("LongJump"); break;
      default: {
        std::array<uint64_t, 4> st;
        for (int i = 0; i < 4; ++i) st[size_t(i)] = m.s[i] = s.Int(64);
        x.SetState(st);
        same("SetState");
        break;
      }
    }
  }
  same("end");
}
VF_REG(VF_PREFIX "VectorXoshiro", 30000, 400000, &Vector, 0, HWY_TARGET)
VF_REG(VF_PREFIX "CachedXoshiro", 8000, 80000, &Cached, 0, HWY_TARGET)
VF_REG(VF_PREFIX "Xoshiro", 30000, 400000, &Scalar, 0, HWY_TARGET)
}  // namespace
}  // namespace HWY_NAMESPACE
}  // namespace hwy
HWY_AFTER_NAMESPACE();
