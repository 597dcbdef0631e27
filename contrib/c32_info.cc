#include <string>
#include <vector>
extern const char* const kVfRule = "every wait, simulated machine or affinity change";
extern const std::vector<std::string> kVfAssumptions = {
    "simulated sysfs files are in the format documented by the kernel; NUMA nodes are numbered contiguously",
    "monitor/wait instructions of other vendors are modelled by the scheduler (wake on store, or spuriously)",
    "SetThreadAffinity is only documented relative to the processors available to the thread before any change"};
extern const int kVfJobs = 8;
extern const double kVfQuickSeconds = 200;
