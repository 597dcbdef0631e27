// C30: tracked malloc blocks (linked with --wrap=malloc,--wrap=free).
#ifndef C30_ALLOC_H_
#define C30_ALLOC_H_
#include <stddef.h>
#include <string>
namespace c30 {
void Track(bool on);       // also forgets all blocks
size_t Live();
std::string Check();       // canaries of live blocks; error or empty
}  // namespace c30
#endif
