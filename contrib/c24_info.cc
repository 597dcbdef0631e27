#include <string>
#include <vector>
extern const char* const kVfRule = "array length > 0";
extern const std::vector<std::string> kVfAssumptions = {
    "reductions are exactly associative (wrapping integers, small-integer floats); the early-exit decision is taken per whole vector, the remainder is always stored (as in the interface)"};
extern const int kVfJobs = 8;
extern const double kVfQuickSeconds = 150;
