// Controlled scheduler and race detector for P17. The code under test is
// compiled with -fsanitize=thread, but linked against this runtime instead of
// the ThreadSanitizer's: every memory access, atomic operation, lock and static
// initialisation of the code under test ends up here.
#ifndef VERIF_P17_RT_HPP
#define VERIF_P17_RT_HPP

#include <cstdint>
#include <cstddef>

namespace rt {

const int MAX_THREADS = 3;

struct Scenario
{
    virtual ~Scenario() {}
    virtual int threads() = 0;
    virtual void setup() = 0;       // before each execution
    virtual void thread(int i) = 0; // code of the threads
    virtual void check() = 0;       // after each execution, all threads are done
    virtual void teardown() = 0;
};

struct Stats
{
    uint64_t schedules = 0;     // executions
    uint64_t accesses = 0;      // shared accesses observed
    uint64_t points = 0;        // scheduling points in the first execution
    uint64_t conflicts = 0;     // synchronised conflicting accesses (further interleavings needed)
    bool complete = true;       // false: stopped at max_schedules
};

// executes all schedules with at most bound preemptions; preempts at every
// shared access. A race or a deadlock is reported through report(), which does
// not return. first: the first schedule to execute (shards take every n-th
// scenario instead)
void explore(Scenario& s, int bound, uint64_t max_schedules, Stats *stats);

// description of the current schedule
const char *schedule();

extern void (*report)(const char *text);

}

#endif
