#include <string>
#include <vector>
extern const char* const kVfRule = "every evaluated lane (inputs inside the documented range)";
extern const std::vector<std::string> kVfAssumptions = {
    "reference: glibc double functions for float, x87 long double functions for double"};
extern const int kVfJobs = 8;
extern const double kVfQuickSeconds = 150;
