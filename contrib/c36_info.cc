#include <string>
#include <vector>
extern const char* const kVfRule = "at least one transformation was applied to the starting tag";
extern const std::vector<std::string> kVfAssumptions = {
    "tags stay within one register (HWY_LANES lanes) and the documented kPow2 range",
    "register width of each x86 target: SSE2/SSSE3/SSE4/EMU128 16, AVX2 32, AVX3 and better 64 bytes, SCALAR one lane"};
extern const int kVfJobs = 8;
extern const double kVfQuickSeconds = 120;
