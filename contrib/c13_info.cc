#include <string>
#include <vector>
extern const char* const kVfRule = "an input other than 0/1-like identities (nonzero operand, divisor > 1, non-empty range)";
extern const std::vector<std::string> kVfAssumptions = {"documented domains only: nonzero for bit scans/logs/divisors, no intermediate overflow for DivCeil/RoundUpTo"};
extern const int kVfJobs = 8;
extern const double kVfQuickSeconds = 120;
