#include <string>
#include <vector>
extern const char* const kVfRule = "element count > 0";
extern const std::vector<std::string> kVfAssumptions = {
    "CopyIf destination holds at least `count` elements (as its comment requires) and is unchanged after the returned end",
    "func is lane-wise and does not depend on the call order except for Generate/Foreach whose documented call sequence is checked"};
extern const int kVfJobs = 8;
extern const double kVfQuickSeconds = 150;
