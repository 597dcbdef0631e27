// Stand-in: the image check only wants the code paths that depend on MEMORY_SANITIZER.
#pragma once
#include <stddef.h>
static inline void __msan_poison(const volatile void*, size_t) {}
static inline void __msan_unpoison(const volatile void*, size_t) {}
static inline void __msan_check_mem_is_initialized(const volatile void*, size_t) {}
