#include <string>
#include <vector>
extern const char* const kVfRule = "every packed and unpacked set of lanes";
extern const std::vector<std::string> kVfAssumptions = {"raw lanes (minus the frame of reference) are less than 2^kBits, as documented",
                                                        "not supported on HWY_SCALAR (as in bit_pack_test.cc)"};
extern const int kVfJobs = 8;
extern const double kVfQuickSeconds = 120;
