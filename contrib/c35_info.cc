#include <string>
#include <vector>
extern const char* const kVfRule = "kernels that support counters and at least three events";
extern const std::vector<std::string> kVfAssumptions = {"the kernel is simulated: perf_event_open, read, ioctl, prctl, stat and uname of perf_counters.cc are replaced at link time",
  "fewer than ten interruptions in a row per call; the simulated group is never rescheduled during a read"};
extern const int kVfJobs = 8;
extern const double kVfQuickSeconds = 60;
