#ifndef C15_H_
#define C15_H_
#include <stdint.h>
#include <vector>
struct C15Big { int64_t v[8]; };
struct C15Variant {
  const char* name;
  int64_t targets, static_target;
  int64_t (*call)(int form, int64_t a);
  int64_t (*supported)();
  std::vector<int64_t> (*generated)();
  int (*caps)();  // of the target dispatch chooses: bit 0 i64, 1 f16, 2 f64
};
enum { kC15Forms = 13 };
// c15_mock.cc
struct C15Cpu { uint32_t max_level; uint32_t vendor[3]; uint32_t l1[4], l7[4], l71[4], ext1[4], l24[4]; uint32_t xcr0; };
// Returns hwy::SupportedTargets() of a copy of targets.cc that sees `cpu`;
// *used: bit 0 CPUID mock was consulted, bit 1 XCR0 mock was consulted.
int64_t C15MockSupported(const C15Cpu& cpu, int64_t disabled, int* used);
#endif
