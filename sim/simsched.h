// The thread seam: simulated threads and the scheduler deciding their interleaving.
#ifndef SIM_SCHED_H
#define SIM_SCHED_H
#include "core.h"
namespace sim {
struct SchedReport {
    long candidates = 0, switches = 0, forced = 0, accesses = 0, blocked = 0, sharedWrites = 0;
    uint64_t trace = 0;
    std::string race;          // description of the first data race
};
// runs body(0) ... body(n-1) as simulated threads; null where the sources are not instrumented
extern bool (*runThreads)(int n, const std::function<void(int)> & body, const VS & schedule, SchedReport & out);
// the recorded schedule, in memory shared with the parent process
extern char * schedLog;
static const size_t SCHED_LOG = 1u << 20;
// called with the class of a problem that cannot be unwound (deadlock)
extern void (*fatalHook)(const std::string & cls, const std::string & msg);
}
#endif
