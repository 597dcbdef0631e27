// C28: reference xoshiro256++ and allocation canaries.
#ifndef C28_H_
#define C28_H_
#include <math.h>
#include <stdint.h>
#include <string>
namespace c28 {
struct State { uint64_t s[4]; };
uint64_t SplitMix(uint64_t seed, uint64_t i);  // i-th output, i >= 1
State FromSeed(uint64_t seed);
uint64_t Next(State&);
State Jump(const State&);      // 2^128 calls
State LongJump(const State&);  // 2^192 calls
void TrackAllocations(bool on);
std::string CheckAllocations();  // error or empty
}  // namespace c28
#endif
