#include <string>
#include <vector>
extern const char* const kVfRule = "every checked image state, row mapping, rectangle and coordinate";
extern const std::vector<std::string> kVfAssumptions = {
    "external memory is also aligned to 64 bytes (bytes() assumes it)",
    "a moved-from image is only assigned to or destroyed",
    "padding is initialised only in MemorySanitizer builds: that configuration is compiled as well (without the sanitizer itself)"};
extern const int kVfJobs = 8;
extern const double kVfQuickSeconds = 120;
