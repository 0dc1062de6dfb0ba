// Glue between the explorer and the controlled scheduler.
#ifndef VERIF_CONC_HPP
#define VERIF_CONC_HPP
#include "mc.hpp"
#include "sched.hpp"
namespace mc
{
inline int conc_choose(void* c, int n)
{
    return static_cast<ctx*>(c)->choose(n);
}
// runs f under every schedule with at most `preemptions` preemptions; reports races and runaway threads
template <class F>
void explore_schedules(ctx& c, int preemptions, const std::string& what, F&& f)
{
    vs_begin(preemptions, conc_choose, &c);
    f();
    const int  left = vs_end();
    const long pts  = vs_points();
    c.step(static_cast<uint64_t>(pts));
    for (int i = 0; i < vs_races(); ++i)
    {
        c.report("data race, " + what + ": " + vs_race(i), std::string{"data race, "} + what + ": " + vs_race(i));
    }
    c.check(left == 0, "threads still running after the call returned, " + what);
}
}  // namespace mc
#endif
