// C15: histories of DisableTargets / SetSupportedTargetsForTest / DeInit /
// queries / dispatched calls against a set model; simulated CPUID.
#include "hwy/highway.h"
#include "hwy/targets.h"
#include "hwy/per_target.h"
#include "c15.h"
#include "vf.h"

#include <sched.h>
#include <atomic>
#include <thread>

#define VFV(ns) namespace ns { extern const C15Variant kVariant; }
VFV(vall) VFV(vmap) VFV(vfew) VFV(vfew2) VFV(vdef) VFV(vstatic) VFV(vemu) VFV(vscalar) VFV(vavx2)
#undef VFV

namespace {
using vf::Ctx;
using vf::Src;
const C15Variant* kV[] = {&vall::kVariant, &vmap::kVariant, &vfew::kVariant, &vfew2::kVariant, &vdef::kVariant, &vstatic::kVariant, &vemu::kVariant, &vscalar::kVariant, &vavx2::kVariant};
constexpr size_t kNV = sizeof(kV) / sizeof(kV[0]);
const int64_t kX86 = HWY_SSE2 | HWY_SSSE3 | HWY_SSE4 | HWY_AVX2 | HWY_AVX3 | HWY_AVX3_DL | HWY_AVX3_ZEN4 | HWY_AVX3_SPR | HWY_AVX10_2 | HWY_AVX10_2_512;

int64_t CpuTargets() {
  static int64_t t = [] {
    __builtin_cpu_init();
    int64_t b = HWY_SCALAR | HWY_EMU128 | HWY_SSE2;
    const bool ssse3 = __builtin_cpu_supports("ssse3") && __builtin_cpu_supports("sse3");
    const bool sse4 = ssse3 && __builtin_cpu_supports("sse4.1") && __builtin_cpu_supports("sse4.2") && __builtin_cpu_supports("aes") && __builtin_cpu_supports("pclmul");
    const bool avx2 = sse4 && __builtin_cpu_supports("avx2") && __builtin_cpu_supports("bmi") && __builtin_cpu_supports("bmi2") && __builtin_cpu_supports("fma") && __builtin_cpu_supports("f16c") && __builtin_cpu_supports("lzcnt");
    const bool avx3 = avx2 && __builtin_cpu_supports("avx512f") && __builtin_cpu_supports("avx512vl") && __builtin_cpu_supports("avx512dq") && __builtin_cpu_supports("avx512bw") && __builtin_cpu_supports("avx512cd");
    const bool dl = avx3 && __builtin_cpu_supports("avx512vnni") && __builtin_cpu_supports("vpclmulqdq") && __builtin_cpu_supports("avx512vbmi") && __builtin_cpu_supports("avx512vbmi2") && __builtin_cpu_supports("vaes") && __builtin_cpu_supports("avx512vpopcntdq") && __builtin_cpu_supports("avx512bitalg") && __builtin_cpu_supports("gfni");
    const bool bf = dl && __builtin_cpu_supports("avx512bf16");
    const bool spr = bf && __builtin_cpu_supports("avx512fp16");
    if (ssse3) b |= HWY_SSSE3;
    if (sse4) b |= HWY_SSE4;
    if (avx2) b |= HWY_AVX2;
    if (avx3) b |= HWY_AVX3;
    if (dl) b |= HWY_AVX3_DL;
    if (bf && __builtin_cpu_is("amd")) b |= HWY_AVX3_ZEN4;
    if (spr) b |= HWY_AVX3_SPR;
    return b;
  }();
  return t;
}
// AVX10.2 cannot be queried by this compiler's builtins: taken as reported.
constexpr int64_t kUnknown = HWY_AVX10_2 | HWY_AVX10_2_512;

struct Model {
  int64_t disabled = 0, forced = 0, avx10 = 0;
  bool init = false;
  int64_t Allowed() const {
    int64_t t = forced ? forced : (CpuTargets() | avx10);
    t &= ~disabled & INT64_MAX;
    return t ? t : vdef::kVariant.static_target;
  }
  int64_t Best(const C15Variant& v) const {
    if ((v.targets & (v.targets - 1)) == 0) return v.static_target;
    const int64_t t = Allowed() & v.targets & kX86;
    if (t) return t & -t;
    if (v.targets & HWY_EMU128) return HWY_EMU128;
    if (v.targets & HWY_SCALAR) return HWY_SCALAR;
    return v.static_target;
  }
};
int64_t RandMask(Src& s) {
  static const int64_t all[] = {HWY_SSE2, HWY_SSSE3, HWY_SSE4, HWY_AVX2, HWY_AVX3, HWY_AVX3_DL, HWY_AVX3_ZEN4, HWY_AVX3_SPR, HWY_AVX10_2, HWY_AVX10_2_512, HWY_EMU128, HWY_SCALAR};
  switch (s.Below(5)) {
    case 0: return all[s.Below(12)];
    case 1: { int64_t m = 0; for (int64_t t : all) if (s.Bool()) m |= t; return m; }
    case 2: { const int64_t t = all[s.Below(10)]; return (t << 1) - 1; }     // this and better
    case 3: { const int64_t t = all[s.Below(10)]; return kX86 & ~(t - 1); }  // this and worse
    default: return s.Bool() ? kX86 : ~int64_t(0);
  }
}
void Reset() { hwy::SetSupportedTargetsForTest(0); hwy::DisableTargets(0); }
struct Cleanup { ~Cleanup() { Reset(); } };

std::string T(int64_t t) { return vf::Fmt("0x%llx", (unsigned long long)t); }

VF_TASK(History, 400000, 4000000) {
  Reset();
  Cleanup cleanup;
  Model m;
  m.avx10 = hwy::SupportedTargets() & kUnknown;
  hwy::DisableTargets(0);
  const size_t n = size_t(s.Below(10)) + 2;
  uint64_t calls = 0;
  for (size_t i = 0; i < n; ++i) {
    switch (s.Below(9)) {
      case 0: m.disabled = s.Below(4) == 0 ? 0 : RandMask(s); cx.Desc([&] { return "Disable " + T(m.disabled) + "; "; }); hwy::DisableTargets(m.disabled); m.init = false; break;
      case 1: m.forced = s.Below(4) == 0 ? 0 : (RandMask(s) & INT64_MAX); cx.Desc([&] { return "Force " + T(m.forced) + "; "; }); hwy::SetSupportedTargetsForTest(m.forced); m.init = false; break;
      case 2: cx.Desc([&] { return std::string("DeInit; "); }); hwy::GetChosenTarget().DeInit(); VF_CHECK(!hwy::GetChosenTarget().IsInitialized(), "IsInitialized after DeInit"); break;
      case 3: {
        cx.Desc([&] { return std::string("SupportedTargets; "); });
        const int64_t got = hwy::SupportedTargets(), want = m.Allowed();
        VF_CHECK(got == want, "SupportedTargets() = %s, expected %s (disabled %s forced %s)", T(got).c_str(), T(want).c_str(), T(m.disabled).c_str(), T(m.forced).c_str());
        ++calls;
        break;
      }
      case 4: {
        const C15Variant& v = *kV[s.Below(kNV)];
        cx.Desc([&] { return vf::Fmt("%s.SupportedAndGenerated; ", v.name); });
        const std::vector<int64_t> got = v.generated();
        int64_t want = m.Allowed() & v.targets; size_t k = 0;
        while (want) { const int64_t b = want & -want; VF_CHECK(k < got.size() && got[k] == b, "%s: SupportedAndGeneratedTargets()[%zu] wrong, expected %s", v.name, k, T(b).c_str()); ++k; want &= want - 1; }
        VF_CHECK(k == got.size(), "%s: SupportedAndGeneratedTargets() has %zu elements, expected %zu", v.name, got.size(), k);
        const int64_t sup = v.supported(), wsup = (v.targets & (v.targets - 1)) == 0 ? v.targets : m.Allowed();
        VF_CHECK(sup == wsup, "%s: HWY_SUPPORTED_TARGETS = %s, expected %s", v.name, T(sup).c_str(), T(wsup).c_str());
        ++calls;
        break;
      }
      case 8: {
        const int64_t want = m.Best(vall::kVariant);
        const int query = int(s.Below(5));
        cx.Desc([&] { return vf::Fmt("per-target query %d; ", query); });
        if (query == 0) {
          const int64_t got = hwy::DispatchedTarget();
          VF_CHECK(got == want, "DispatchedTarget() = %s, expected %s (disabled %s forced %s)", T(got).c_str(), T(want).c_str(), T(m.disabled).c_str(), T(m.forced).c_str());
        } else if (query == 1) {
          const size_t got = hwy::VectorBytes();
          const size_t bytes = want == HWY_SCALAR ? 1 : want == HWY_AVX2 || want == HWY_AVX10_2 ? 32 : want & (HWY_AVX3 | HWY_AVX3_DL | HWY_AVX3_ZEN4 | HWY_AVX3_SPR | HWY_AVX10_2_512) ? 64 : 16;
          VF_CHECK(got == bytes, "VectorBytes() = %zu, expected %zu for target %s", got, bytes, T(want).c_str());
        } else {
          const bool got = query == 2 ? hwy::HaveInteger64() : query == 3 ? hwy::HaveFloat16() : hwy::HaveFloat64();
          const bool exp = (vall::kVariant.caps() >> (query - 2)) & 1;
          VF_CHECK(got == exp, "%s() = %d, expected %d for target %s", query == 2 ? "HaveInteger64" : query == 3 ? "HaveFloat16" : "HaveFloat64", got, exp, T(want).c_str());
          VF_CHECK(query == 3 || exp, "integer64/float64 must be available on x86");
        }
        ++calls;
        break;
      }
      default: {
        const C15Variant& v = *kV[s.Below(kNV)];
        const int form = int(s.Below(kC15Forms));
        const int64_t a = int64_t(s.Int(48));
        cx.Desc([&] { return vf::Fmt("%s.call form %d; ", v.name, form); });
        const int64_t want = form == kC15Forms - 1 ? v.static_target : m.Best(v);
        const int64_t got = v.call(form, a);
        VF_CHECK(got == want, "%s form %d ran %s, expected %s (disabled %s forced %s allowed %s compiled %s)", v.name, form, T(got).c_str(), T(want).c_str(), T(m.disabled).c_str(), T(m.forced).c_str(), T(m.Allowed()).c_str(), T(v.targets).c_str());
        if (form != kC15Forms - 1 && (v.targets & (v.targets - 1))) VF_CHECK(hwy::GetChosenTarget().IsInitialized(), "not initialised after a dispatched call");
        ++calls;
      }
    }
  }
  cx.evals = calls ? calls : 1;
  cx.nontrivial = calls && (m.disabled || m.forced);
}

// Concurrent first calls.
VF_TASK(Threads, 1600, 20000, vf::kNondet) {
  Reset();
  Cleanup cleanup;
  Model m;
  m.avx10 = hwy::SupportedTargets() & kUnknown;
  m.disabled = s.Bool() ? RandMask(s) : (int64_t(HWY_AVX3_DL) << (1 + s.Below(3))) - 1;
  if (s.Chance(1, 4)) m.forced = RandMask(s) & INT64_MAX;
  hwy::SetSupportedTargetsForTest(m.forced);
  const int nt = 2 + int(s.Below(7));
  const int vi = int(s.Below(kNV)), form = int(s.Below(kC15Forms - 1));
  cx.Desc([&] { return vf::Fmt("%d threads, variant %s form %d disabled %s", nt, kV[vi]->name, form, T(m.disabled).c_str()); });
  std::atomic<int> ready{0}, go{0}; std::atomic<int> done{0};
  constexpr int kRounds = 20;
  int64_t bad[8]; for (int64_t& b : bad) b = 0;
  std::atomic<int> round{0};
  std::vector<std::thread> th;
  hwy::DisableTargets(m.disabled);
  const int64_t want[2] = {m.Best(*kV[vi]), m.Best(*kV[(vi + 1) % kNV])};
  for (int t = 0; t < nt; ++t) th.emplace_back([&, t] {
    for (int r = 1; r <= kRounds; ++r) {
      ++ready;
      while (go.load() < r) sched_yield();
      const int k = (t + r) & 1;
      const int64_t got = kV[(vi + k) % int(kNV)]->call((form + t) % (kC15Forms - 1), r * 7 + t);
      if (got != want[k]) bad[t] = got ? got : 1;
      ++done;
    }
  });
  for (int r = 1; r <= kRounds; ++r) {
    while (ready.load() < nt * r) sched_yield();
    hwy::DisableTargets(m.disabled);  // all threads are waiting
    go = r;
    while (done.load() < nt * r) sched_yield();
  }
  for (auto& t : th) t.join();
  for (int t = 0; t < nt; ++t) VF_CHECK(bad[t] == 0, "thread %d ran %s, expected %s or %s (allowed %s)", t, T(bad[t]).c_str(), T(want[0]).c_str(), T(want[1]).c_str(), T(m.Allowed()).c_str());
  cx.evals = uint64_t(nt) * kRounds;
}

// Detection logic against a model of CPUID feature bits.
struct Feature { int leaf, reg, bit; };  // leaf 0:1 1:7 2:7.1 3:0x80000001
constexpr Feature kF[] = {
    {0, 2, 0}, {0, 2, 9},                               // SSE3 SSSE3
    {0, 2, 19}, {0, 2, 20}, {0, 2, 1}, {0, 2, 25},      // SSE4.1 SSE4.2 CLMUL AES
    {0, 2, 28}, {1, 1, 5}, {0, 2, 29}, {0, 2, 12}, {3, 2, 5}, {1, 1, 3}, {1, 1, 8},  // AVX AVX2 F16C FMA LZCNT BMI BMI2
    {1, 1, 16}, {1, 1, 31}, {1, 1, 28}, {1, 1, 17}, {1, 1, 30},  // F VL CD DQ BW
    {1, 2, 11}, {1, 2, 10}, {1, 2, 1}, {1, 2, 6}, {1, 2, 9}, {1, 2, 14}, {1, 2, 12}, {1, 2, 8},  // VNNI VPCLMULQDQ VBMI VBMI2 VAES POPCNTDQ BITALG GFNI
    {2, 0, 5}, {1, 3, 23}, {2, 3, 19}, {2, 3, 21}};     // BF16 FP16 AVX10 APX
constexpr int kNF = int(sizeof(kF) / sizeof(kF[0]));
VF_TASK(Detect, 2000000, 30000000) {
  C15Cpu c;
  memset(&c, 0, sizeof c);
  // start from a level's features, then flip a few
  static const int kLevels[] = {0, 2, 6, 13, 18, 26, 27, 28, 30};
  const int lvl = kLevels[s.Below(9)];
  bool f[kNF];
  for (int i = 0; i < kNF; ++i) f[i] = i < lvl;
  const bool avx10 = s.Chance(1, 4);
  if (avx10) { f[28] = f[29] = true; }
  const int flips = int(s.Below(4));
  for (int i = 0; i < flips; ++i) { const int k = int(s.Below(kNF)); f[k] = !f[k]; }
  if (s.Chance(1, 2)) {  // unrelated bits are noise
    for (int i = 0; i < 4; ++i) { c.l1[i] = uint32_t(s.Bits(32)); c.l7[i] = uint32_t(s.Bits(32)); c.l71[i] = uint32_t(s.Bits(32)); c.ext1[i] = uint32_t(s.Bits(32)); c.l24[i] = uint32_t(s.Bits(32)); }
  }
  uint32_t* leaf[4] = {c.l1, c.l7, c.l71, c.ext1};
  for (int i = 0; i < kNF; ++i) {
    uint32_t& r = leaf[kF[i].leaf][kF[i].reg]; r &= ~(1u << kF[i].bit); if (f[i]) r |= 1u << kF[i].bit;
  }
  c.l1[3] |= 3u << 25;
  const bool xsave = !s.Chance(1, 10), osx = !s.Chance(1, 10);
  c.l1[2] = (c.l1[2] & ~(3u << 26)) | (uint32_t(xsave) << 26) | (uint32_t(osx) << 27);
  c.max_level = s.Chance(1, 8) ? uint32_t(s.Below(8)) : 0x24 + uint32_t(s.Below(4));
  if (c.max_level == 0) c.max_level = 1;
  const bool amd = s.Bool();
  if (amd) { memcpy(c.vendor, "AuthcAMDenti", 12); } else { memcpy(c.vendor, "GenuntelineI", 12); }
  if (!amd && s.Bool()) { memcpy(c.vendor, "AuthcAMDenti", 12); c.vendor[s.Below(3)] ^= 1u << s.Below(32); }
  const uint32_t ver = uint32_t(s.Below(4)); const bool w512 = s.Bool();
  c.l24[1] = (c.l24[1] & ~(0xFFu | (1u << 18))) | ver | (uint32_t(w512) << 18);
  c.xcr0 = uint32_t(s.Chance(1, 3) ? s.Bits(8) : 0xE7);
  const int64_t disabled = s.Chance(1, 4) ? RandMask(s) : 0;
  // ---- model
  if (c.max_level < 7) for (int i = 0; i < kNF; ++i) if (kF[i].leaf == 1 || kF[i].leaf == 2) f[i] = false;
  auto all = [&](int lo, int hi) { for (int i = lo; i < hi; ++i) if (!f[i]) return false; return true; };
  const bool ymm = xsave && osx && (c.xcr0 & 6) == 6, zmm = ymm && (c.xcr0 & 0xE0) == 0xE0;
  int64_t w = HWY_SCALAR | HWY_EMU128 | HWY_SSE2;
  if (all(0, 2)) w |= HWY_SSSE3;
  if (all(0, 6)) w |= HWY_SSE4;
  const bool avx2 = all(0, 13);
  if (avx2 && ymm) w |= HWY_AVX2;
  bool f3 = all(0, 18), fdl = all(0, 26), fbf = all(0, 27), fspr = all(0, 28);
  int64_t a10 = 0;
  if (avx2 && f[28] && f[29] && f[19] && f[22] && f[25] && c.max_level >= 0x24) {
    if (ver >= 1 && w512) f3 = fdl = fspr = true;
    if (ver >= 2) a10 = HWY_AVX10_2 | (w512 ? HWY_AVX10_2_512 : 0);
  }
  if (f3 && zmm) w |= HWY_AVX3;
  if (fdl && zmm) w |= HWY_AVX3_DL;
  if (fspr && zmm) w |= HWY_AVX3_SPR;
  if (fdl && zmm && fbf && amd) w |= HWY_AVX3_ZEN4;
  int64_t care = ~int64_t(0);
  if (a10) {
    if (zmm) w |= a10;
    else if (ymm) care &= ~kUnknown;  // AVX10 without ZMM state: unspecified
  }
  if (f[28] && c.max_level < 0x24) care &= ~(kUnknown | HWY_AVX3 | HWY_AVX3_DL | HWY_AVX3_SPR | HWY_AVX3_ZEN4);
  int used = 0;
  const int64_t got = C15MockSupported(c, disabled, &used);
  cx.Desc([&] { return vf::Fmt("level %d flips %d xcr0 %02x xsave %d osxsave %d max_level %u amd %d avx10 %d ver %u 512 %d disabled %s -> %s", lvl, flips, c.xcr0, xsave, osx, c.max_level, amd, avx10, ver, w512, T(disabled).c_str(), T(got).c_str()); });
  if (!(used & 1) || (!(used & 2) && xsave && osx)) { cx.evals = 0; cx.cls = "mock not consulted"; return; }
  int64_t want = w & ~disabled & INT64_MAX;
  if (!want) { if (care != ~int64_t(0)) care &= ~vdef::kVariant.static_target; want = vdef::kVariant.static_target; if (care != ~int64_t(0)) want &= care; }
  VF_CHECK((got & care) == (want & care), "detected %s, feature bits imply %s (cared bits %s)", T(got).c_str(), T(want).c_str(), T(care).c_str());
  cx.nontrivial = flips > 0 || c.xcr0 != 0xE7 || !xsave || !osx;
}

VF_TASK(TargetNames, 64, 64) {
  const uint64_t i = s.Enum(64);
  const int64_t t = int64_t(1ull << i);
  struct { int64_t t; const char* n; } k[] = {{HWY_SSE2, "SSE2"}, {HWY_SSSE3, "SSSE3"}, {HWY_SSE4, "SSE4"}, {HWY_AVX2, "AVX2"}, {HWY_AVX3, "AVX3"}, {HWY_AVX3_DL, "AVX3_DL"}, {HWY_AVX3_ZEN4, "AVX3_ZEN4"}, {HWY_AVX3_SPR, "AVX3_SPR"}, {HWY_AVX10_2, "AVX10_2"}, {HWY_AVX10_2_512, "AVX10_2_512"}, {HWY_EMU128, "EMU128"}, {HWY_SCALAR, "SCALAR"}};
  for (auto& e : k) if (e.t == t) { VF_CHECK(!strcmp(hwy::TargetName(t), e.n), "TargetName(%s) = %s", e.n, hwy::TargetName(t)); return; }
  VF_CHECK(!strcmp(hwy::TargetName(t), "Unknown"), "TargetName of unused bit %d = %s", int(i), hwy::TargetName(t));
}
}  // namespace
