#include <arg_router/exception.hpp>

#include <functional>
#include <optional>
#include <string>

std::optional<std::string> guarded(const std::function<void()>& f)
{
    try {
        f();
    } catch (const arg_router::parse_exception& e) {
        return std::string{e.what()};
    }
    return {};
}
