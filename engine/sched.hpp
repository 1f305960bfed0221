// Scheduling points of the harness: storage taken from the configured allocator, calls of the
// program's own functions.  Included before the library, which is told to use h::sched_alloc.
#pragma once
#include <cstddef>
#include <new>

extern "C" void h_point(int kind);  // 0 storage, 1 router, 2 conversion given by the program

namespace h
{
template <typename T>
struct sched_alloc {
    using value_type = T;
    sched_alloc() = default;
    template <typename U>
    sched_alloc(const sched_alloc<U>&) noexcept
    {
    }
    T* allocate(std::size_t n)
    {
        h_point(0);
        return static_cast<T*>(::operator new(n * sizeof(T)));
    }
    void deallocate(T* p, std::size_t) noexcept
    {
        h_point(0);
        ::operator delete(p);
    }
    friend bool operator==(const sched_alloc&, const sched_alloc&) { return true; }
    friend bool operator!=(const sched_alloc&, const sched_alloc&) { return false; }
};
}  // namespace h
#define AR_ALLOCATOR h::sched_alloc
#define H_SCHED
