#include <string>
#include <vector>
extern const char* const kVfRule = "every operation of every generated history";
extern const std::vector<std::string> kVfAssumptions = {
    "reference: xoshiro256++ / splitmix64 of Blackman & Vigna; jumps as matrix powers T^(2^128), T^(2^192) over GF(2)",
    "a batch of n outputs consumes ceil(n / Lanes) draws; the unused lanes of the last draw are dropped"};
extern const int kVfJobs = 8;
extern const double kVfQuickSeconds = 120;
