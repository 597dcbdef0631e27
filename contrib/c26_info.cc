#include <string>
#include <vector>
extern const char* const kVfRule = "matrix with more than one element";
extern const std::vector<std::string> kVfAssumptions = {
    "rounding model: (columns+9) half-ulps of the accumulator type times the sum of |products| and |addend|, plus (columns+2) smallest normal numbers",
    "out is vector-aligned (it is written with Stream); a fixed list of template shapes covering all remainders modulo the chunk and vector sizes"};
extern const int kVfJobs = 8;
extern const double kVfQuickSeconds = 150;
