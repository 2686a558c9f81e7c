// Kokkos allocates views with padding behind them, in which AddressSanitizer sees nothing.  exactViews() (after
// Kokkos::initialize) has that padding poisoned as it is allocated, so that the first element past a view is reported.
#pragma once
#include <Kokkos_Core.hpp>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
namespace exact {
inline void allocated(const Kokkos::Profiling::SpaceHandle, const char*, const void* const ptr, const uint64_t size) {
    // ptr is the start of the record's header, size that of the data behind it
    const char* end = (const char*)ptr + sizeof(Kokkos::Impl::SharedAllocationHeader) + size;
    void* base = nullptr; size_t n = 0; char name[8];
    __asan_locate_address((void*)ptr, name, sizeof name, &base, &n);
    if (base && n && (const char*)base + n > end) __asan_poison_memory_region(end, (const char*)base + n - end);
}
}
inline void exactViews() { Kokkos::Tools::Experimental::set_allocate_data_callback(exact::allocated); }
#else
inline void exactViews() {}
#endif
