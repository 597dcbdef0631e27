#include <string>
#include <vector>
extern const char* const kVfRule = "at least one element";
extern const std::vector<std::string> kVfAssumptions = {
    "rounding model: (n+8) half-ulps of the accumulator type times the sum of |products|, plus n smallest normal numbers (AVX3_SPR bfloat16 dot flushes subnormals); fused or unfused multiply-add",
    "i16: the sum of absolute products fits int32_t; assumption flags are true of the data; reads beyond num_elements only with kPaddedToVector"};
extern const int kVfJobs = 8;
extern const double kVfQuickSeconds = 150;
