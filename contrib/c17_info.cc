#include <string>
#include <vector>
extern const char* const kVfRule = "histories that end with more than one element";
extern const std::vector<std::string> kVfAssumptions = {"indices below the declared size, First() only when Any()"};
extern const int kVfJobs = 8;
extern const double kVfQuickSeconds = 90;
