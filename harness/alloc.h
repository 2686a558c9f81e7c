// The process's heap under the harness's control: exact count of live bytes, and (C17) the content of fresh memory.
#pragma once
#include <cstddef>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <malloc.h>
extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t); }
#if defined(__SANITIZE_ADDRESS__)   // the sanitizer owns the heap: nothing is counted or filled
namespace heap { inline long long& bytes() { static long long b = 0; return b; } inline int& poison() { static int p = -1; return p; } }
#else
namespace heap {
inline long long& bytes() { static long long b = 0; return b; }
inline int& poison() { static int p = -1; return p; }       // -1: leave fresh memory as it is; otherwise the byte it is filled with; 256: doubles that look like data
inline void* got(void* p, bool fill) {
    if (!p) return p;
    size_t n = malloc_usable_size(p); __atomic_add_fetch(&bytes(), (long long)n, __ATOMIC_RELAXED);
    if (fill && poison() >= 0) { if (poison() < 256) memset(p, poison(), n); else { double d = -3.71; for (size_t i = 0; i + 8 <= n; i += 8) memcpy((char*)p + i, &d, 8); } }
    return p;
}
inline void gone(void* p) { if (p) __atomic_sub_fetch(&bytes(), (long long)malloc_usable_size(p), __ATOMIC_RELAXED); }
}
extern "C" {
void* malloc(size_t n) noexcept { return heap::got(__libc_malloc(n), true); }
void free(void* p) noexcept { heap::gone(p); __libc_free(p); }
void* calloc(size_t a, size_t b) noexcept { return heap::got(__libc_calloc(a, b), false); }
void* realloc(void* p, size_t n) noexcept { heap::gone(p); return heap::got(__libc_realloc(p, n), false); }
void* memalign(size_t a, size_t n) noexcept { return heap::got(__libc_memalign(a, n), true); }
void* aligned_alloc(size_t a, size_t n) noexcept { return heap::got(__libc_memalign(a, n), true); }
int posix_memalign(void** p, size_t a, size_t n) noexcept { void* q = heap::got(__libc_memalign(a, n), true); if (!q) return ENOMEM; *p = q; return 0; }
}
#endif
