#include <string>
#include <vector>
extern const char* const kVfRule = "more than one candidate (AutoTune), at least one outlier or unequal samples (CostDistribution), at least two skips (NextWithSkip)";
extern const std::vector<std::string> kVfAssumptions = {
    "costs below 2^53; minimal winner is decided for exact costs and for costs separated by 1.6x with at most 3 % noise and one outlier per six samples (kMinSamples >= 12)",
    "outlier rejection is decided for 4..14 samples with at most a quarter of outliers in one direction (factor >= 2), then at most 2 % outliers online"};
extern const int kVfJobs = 8;
extern const double kVfQuickSeconds = 90;
