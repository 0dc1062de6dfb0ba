// Controlled scheduler and happens-before race detector for code instrumented with -fsanitize=thread.
// Only one thread of the program runs at a time; at each scheduling point the explorer chooses who is next.
#ifndef VERIF_SCHED_HPP
#define VERIF_SCHED_HPP
extern "C"
{
    // start controlling; choose(ctx, n) picks among n alternatives; at most `preemptions` switches away from a
    // thread that could go on
    void vs_begin(int preemptions, int (*choose)(void*, int), void* ctx);
    // all other threads must have ended; returns the number of threads that had not (they are run to their end)
    int         vs_end();
    int         vs_live();               // threads that were created and have not ended
    int         vs_created();            // threads created since vs_begin
    void        vs_yield();              // a scheduling point
    void        vs_ignore(int delta);    // +1/-1: accesses of this thread are not looked at
    int         vs_races();              // number of distinct races seen since vs_begin
    const char* vs_race(int i);          // description of race i
    long        vs_points();             // scheduling points passed
    long        vs_accesses();           // memory accesses checked
    void        vs_atomic_points(int on);  // are atomic operations scheduling points? (default yes)
    int         vs_self();
}
struct vs_quiet  // bookkeeping of the harness
{
    vs_quiet() { vs_ignore(1); }
    ~vs_quiet() { vs_ignore(-1); }
};
#endif
