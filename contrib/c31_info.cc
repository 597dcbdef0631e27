#include <string>
#include <vector>
extern const char* const kVfRule = "every operation (run, mode change, re-creation) of a history under its own schedule";
extern const std::vector<std::string> kVfAssumptions = {
    "schedules are interleavings of the operations on atomics; happens-before is checked with vector clocks, hardware reordering is not simulated"};
extern const int kVfJobs = 8;
extern const double kVfQuickSeconds = 200;
