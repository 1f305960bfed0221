// In place of the standard library's header of this name: std::allocator reports what it is used for.
#pragma once
#include <bits/new_allocator.h>

extern "C" void h_std_alloc(const char* what);

namespace std
{
template <typename T>
struct __h_allocator : __new_allocator<T> {
    using __new_allocator<T>::__new_allocator;
    constexpr __h_allocator() = default;
    template <typename U>
    constexpr __h_allocator(const __h_allocator<U>&) noexcept
    {
    }
    T* allocate(decltype(sizeof 0) n, const void* hint = nullptr)
    {
        ::h_std_alloc(__PRETTY_FUNCTION__);
        return __new_allocator<T>::allocate(n, hint);
    }
};
template <typename T>
using __allocator_base = __h_allocator<T>;
}  // namespace std
