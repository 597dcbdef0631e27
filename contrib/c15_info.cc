#include <string>
#include <vector>
extern const char* const kVfRule = "histories with at least one call or query after a disable/force; simulated CPUs with flipped features or missing OS state";
extern const std::vector<std::string> kVfAssumptions = {"DisableTargets replaces the previous set (as the tests use it)", "AVX10 without ZMM state enabled by the OS is left unspecified", "x86 only: other architectures' detection cannot run here"};
extern const int kVfJobs = 8;
extern const double kVfQuickSeconds = 90;
