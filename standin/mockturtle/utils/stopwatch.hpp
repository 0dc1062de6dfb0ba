#ifndef STANDIN_MT_STOPWATCH
#define STANDIN_MT_STOPWATCH
#include <chrono>
#include <functional>
#include <iostream>
#include <type_traits>
#include <utility>
namespace mockturtle
{
// time does not pass in the stand-in: results must not depend on it
template <class Clock = std::chrono::steady_clock> class stopwatch
{
  public:
    using clock    = Clock;
    using duration = typename Clock::duration;
    explicit stopwatch(duration& d) : d_(d) {}
    ~stopwatch() { d_ += duration{1}; }

  private:
    duration& d_;
};
template <class Fn, class Clock = std::chrono::steady_clock> auto call_with_stopwatch(typename Clock::duration& d, Fn&& fn)
{
    stopwatch<Clock> t(d);
    return fn();
}
template <class D> double to_seconds(const D& d) { return std::chrono::duration_cast<std::chrono::duration<double>>(d).count(); }
}  // namespace mockturtle
#endif
