// thread_pool.h's auto-tuner only needs sorted doubles.
#include <algorithm>
#include "hwy/contrib/sort/vqsort.h"
namespace hwy {
void VQSort(double* HWY_RESTRICT keys, const size_t n, SortAscending) { std::sort(keys, keys + n); }
}
