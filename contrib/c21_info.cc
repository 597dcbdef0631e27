#include <string>
#include <vector>
extern const char* const kVfRule = "arrays of at least two keys that are not already in the requested order";
extern const std::vector<std::string> kVfAssumptions = {"NaN payloads are not preserved (documented); equivalent keys may be reordered", "float16 only on targets that support it"};
extern const int kVfJobs = 8;
extern const double kVfQuickSeconds = 240;
