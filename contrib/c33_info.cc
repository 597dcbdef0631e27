#include <string>
#include <vector>
extern const char* const kVfRule = "programs that enter at least three differently named zones";
extern const std::vector<std::string> kVfAssumptions = {"PROFILER_ENABLED=1", "zones shorter than 2^39 ticks, at most 64 nested, at most 256 in total, results printed exactly once after all zones ended",
  "durations are read from a virtual clock with constant cost per call; with a nonzero cost, durations are compared within two clock calls per zone"};
extern const int kVfJobs = 8;
extern const double kVfQuickSeconds = 60;
