#include <string>
#include <vector>
extern const char* const kVfRule = "non-zero values, arrays/vectors of more than one lane, known targets, histories with at least one message";
extern const std::vector<std::string> kVfAssumptions = {
    "floats denote the value up to half a unit of the documented last printed digit; NaN payload and bfloat16 type prefix unspecified; messages up to 799 characters"};
extern const int kVfJobs = 8;
extern const double kVfQuickSeconds = 90;
