#include <string>
#include <vector>
extern const char* const kVfRule = "more than two samples that are merged from parts (Stats), not all equal (robust statistics), at least two non-empty bins (Bins)";
extern const std::vector<std::string> kVfAssumptions = {"finite samples; geometric mean only of positive samples; Mode/Median of at least one unsigned value; deviations below 2^63"};
extern const int kVfJobs = 8;
extern const double kVfQuickSeconds = 90;
