// Stands in for the span-lite package (not installed here) when building for C++17
#pragma once
#include <cstddef>
#include <boost/core/span.hpp>
namespace nonstd
{
namespace span_lite
{
inline constexpr std::size_t dynamic_extent = boost::dynamic_extent;
template <typename T, std::size_t E = dynamic_extent>
using span = boost::span<T, E>;
}  // namespace span_lite
using span_lite::dynamic_extent;
using span_lite::span;
}  // namespace nonstd
