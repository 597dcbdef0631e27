#include <string>
#include <vector>
extern const char* const kVfRule = "operands other than zero / equal operands; for the exhaustive slices every value counts";
extern const std::vector<std::string> kVfAssumptions = {"NaN payloads are not specified, only NaN-ness (and its sign for conversions)", "scalar operators exist only where the compiler provides the native type"};
extern const int kVfJobs = 8;
extern const double kVfQuickSeconds = 120;
