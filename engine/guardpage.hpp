// A string whose last byte is the last of its page: reading past it faults
#pragma once
#include <cstring>
#include <string_view>
#include <sys/mman.h>
namespace gp
{
inline std::string_view put(std::string_view s)
{
    static char* end = [] {
        auto* p = static_cast<char*>(mmap(nullptr, 3 * 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        mprotect(p + 8192, 4096, PROT_NONE);
        return p + 8192;
    }();
    std::memcpy(end - s.size(), s.data(), s.size());
    return {end - s.size(), s.size()};
}
}  // namespace gp
