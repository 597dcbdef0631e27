#include <string>
#include <vector>
extern const char* const kVfRule = "clocks with disturbed samples; benchmarks of more than one unique input";
extern const std::vector<std::string> kVfAssumptions = {"virtual clock: every Start/Stop and every call of the measured function has a fixed cost of at least one tick; at most one in five benchmark samples (one in three timer samples) is disturbed",
  "function costs of at least one tick; results compared to 4e-7 relative (float)"};
extern const int kVfJobs = 8;
extern const double kVfQuickSeconds = 60;
