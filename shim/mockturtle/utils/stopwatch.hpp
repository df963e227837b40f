#pragma once
#include <chrono>
#include <cstdint>
#include <utility>
namespace mockturtle
{
template <class Clock = std::chrono::steady_clock>
class stopwatch
{
  public:
    using clock    = Clock;
    using duration = typename Clock::duration;
    explicit stopwatch(duration&) {}
};
template <class Duration>
inline double to_seconds(const Duration& d)
{
    return std::chrono::duration_cast<std::chrono::duration<double>>(d).count();
}
template <class Fn>
auto call_with_stopwatch(stopwatch<>::duration&, Fn&& fn)
{
    return fn();
}
}  // namespace mockturtle
