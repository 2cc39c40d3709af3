#pragma once
#include <chrono>
#include <iostream>
#include <utility>
#include <fmt/format.h>
namespace mockturtle
{
template <class Clock = std::chrono::steady_clock>
class stopwatch
{
  public:
    using clock      = Clock;
    using duration   = typename Clock::duration;
    using time_point = typename Clock::time_point;
    explicit stopwatch(duration& dur) : dur(dur), beg(clock::now()) {}
    ~stopwatch() { dur += (clock::now() - beg); }

  private:
    duration&  dur;
    time_point beg;
};
template <class Fn, class Clock = std::chrono::steady_clock>
std::invoke_result_t<Fn> call_with_stopwatch(typename Clock::duration& dur, Fn&& fn)
{
    stopwatch<Clock> t(dur);
    return fn();
}
template <class Duration>
inline double to_seconds(const Duration& dur)
{
    return std::chrono::duration_cast<std::chrono::duration<double>>(dur).count();
}
}  // namespace mockturtle
