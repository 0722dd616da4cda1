#ifndef OPENTRACING_UTIL_H
#define OPENTRACING_UTIL_H
#include <opentracing/expected/expected.hpp>
#include <opentracing/string_view.h>
#include <opentracing/version.h>
#include <chrono>
namespace opentracing {
BEGIN_OPENTRACING_ABI_NAMESPACE
using SystemClock = std::chrono::system_clock;
using SteadyClock = std::chrono::steady_clock;
using SystemTime = SystemClock::time_point;
using SteadyTime = SteadyClock::time_point;
template <class ToClock, class Clock, class Duration>
typename ToClock::time_point convert_time_point(
    std::chrono::time_point<Clock, Duration> from_time_point) {
  auto from_now = Clock::now();
  auto to_now = ToClock::now();
  return to_now + std::chrono::duration_cast<typename ToClock::duration>(
                      from_time_point - from_now);
}
END_OPENTRACING_ABI_NAMESPACE
}  // namespace opentracing
#endif
