// The configured allocator of the storage check: counts, remembers and fails.  Included before the
// library, which is told to use h::fault_alloc; std::allocator reports its uses too (faultshim).
#pragma once
#include <cstddef>
#include <new>

extern "C" {
void h_point(int kind);             // 1 router, 2 conversion given by the program
void h_lib(int d);                  // library code is entered (1) and left (-1)
void h_own(int d);                  // the program's own code is entered and left
void* h_take(std::size_t bytes, const void* tag);
void h_give(void* p, std::size_t bytes, const void* tag);
}

namespace h
{
struct alloc_failed : std::bad_alloc {
    const char* what() const noexcept override { return "allocation failed"; }
};
struct user_failed {
};
template <typename T>
inline const char type_tag = 0;
template <typename T>
struct fault_alloc {
    using value_type = T;
    fault_alloc() = default;
    template <typename U>
    fault_alloc(const fault_alloc<U>&) noexcept
    {
    }
    T* allocate(std::size_t n) { return static_cast<T*>(h_take(n * sizeof(T), &type_tag<T>)); }
    void deallocate(T* p, std::size_t n) noexcept { h_give(p, n * sizeof(T), &type_tag<T>); }
    friend bool operator==(const fault_alloc&, const fault_alloc&) { return true; }
    friend bool operator!=(const fault_alloc&, const fault_alloc&) { return false; }
};
}  // namespace h
#define AR_ALLOCATOR h::fault_alloc
#define H_SCHED
#define H_FAULT
