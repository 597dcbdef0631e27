// targets.cc compiled against a simulated CPUID / XGETBV (namespace renamed
// with -Dhwy=hwy_mock).
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
#include <atomic>
#include <immintrin.h>
#include <cpuid.h>
#include "hwy/base.h"
#include "hwy/highway.h"
#include "hwy/targets.h"
#include "hwy/detect_targets.h"
#include "c15.h"

static C15Cpu g_cpu;
static int g_used;
static void MockCpuid(uint32_t level, uint32_t count, uint32_t& a, uint32_t& b, uint32_t& c, uint32_t& d) {
  g_used |= 1;
  const uint32_t* r = nullptr;
  static const uint32_t zero[4] = {0, 0, 0, 0};
  const uint32_t l0[4] = {g_cpu.max_level, g_cpu.vendor[0], g_cpu.vendor[1], g_cpu.vendor[2]};
  if (level == 0) r = l0;
  else if (level == 1) r = g_cpu.l1;
  else if (level == 7 && count == 0) r = g_cpu.l7;
  else if (level == 7 && count == 1) r = g_cpu.l71;
  else if (level == 0x24) r = g_cpu.l24;
  else if (level == 0x80000001u) r = g_cpu.ext1;
  else r = zero;
  if (level < 0x80000000u && level > g_cpu.max_level) r = zero;
  a = r[0]; b = r[1]; c = r[2]; d = r[3];
}
static void MockXgetbv(uint32_t& lo, uint32_t& hi) { g_used |= 2; lo = g_cpu.xcr0; hi = 0; }
#undef __cpuid_count
#define __cpuid_count(level, count, a, b, c, d) MockCpuid(uint32_t(level), uint32_t(count), a, b, c, d)
#undef __cpuid
#define __cpuid(level, a, b, c, d) MockCpuid(uint32_t(level), 0, a, b, c, d)
#include "hwy/x86_cpuid.h"

namespace hwy {
HWY_DLLEXPORT void HWY_FORMAT(3, 4) Warn(const char*, int, const char*, ...) {}
HWY_DLLEXPORT HWY_NORETURN void HWY_FORMAT(3, 4) Abort(const char*, int, const char*, ...) { abort(); }
}
// ReadXCR0 is inline assembly: asm volatile("..." : outputs : inputs).
#define asm
#define volatile(...) MockXgetbv(xcr0, xcr0_high)
#include "hwy/targets.cc"
#undef asm
#undef volatile

int64_t C15MockSupported(const C15Cpu& cpu, int64_t disabled, int* used) {
  g_cpu = cpu;
  g_used = 0;
  hwy::DisableTargets(disabled);
  const int64_t r = hwy::SupportedTargets();
  hwy::DisableTargets(0);
  *used = g_used;
  return r;
}
