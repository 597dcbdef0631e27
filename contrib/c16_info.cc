#include <string>
#include <vector>
extern const char* const kVfRule = "histories with more than two allocations; vectors with more than one element";
extern const std::vector<std::string> kVfAssumptions = {"zero-byte requests are outside the domain (AllocateAlignedBytes asserts)", "allocation failure of std containers is outside the domain"};
extern const int kVfJobs = 8;
extern const double kVfQuickSeconds = 90;
