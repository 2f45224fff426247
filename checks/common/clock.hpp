// The clocks belong to the harness: include in exactly one translation unit.
#pragma once
#include <chrono>
#include <cstdint>
namespace hv
{
inline int64_t nowNs = 1'000'000'000'000'000'000;  // wall clock
inline int64_t steadyNs = 5'000'000'000'000;       // monotonic clock
} // namespace hv
namespace std::chrono::_V2
{
system_clock::time_point system_clock::now() noexcept
{
    return time_point(duration(hv::nowNs));
}
steady_clock::time_point steady_clock::now() noexcept
{
    return time_point(duration(hv::steadyNs));
}
} // namespace std::chrono::_V2
