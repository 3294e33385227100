// A controlled scheduler: the threads of one execution run one at a time and change only at scheduling points.
#pragma once
#include <functional>
#include <vector>
#include <string>
namespace sched {
struct Decision { unsigned short options, chosen; bool curEnabled; };   // option 0 = the current thread when it can go on
static const int MAXD = 300000;
struct Trace { int n; int status; long points; Decision d[MAXD]; };    // shared with the parent; status 1 = done, 2 = deadlock, 3 = too long, 4 = did not repeat
typedef std::vector<std::pair<int, int>> Prefix;   // deviations: (decision number, option), ascending; every other decision takes option 0
// Runs the bodies as threads under the schedule `prefix`.
// bound: how many deviations may preempt a thread that could go on; countAll: every deviation counts.
// fine: also instrumented basic blocks are scheduling points.
void run(const std::vector<std::function<void()>>& bodies, const Prefix& prefix, int bound, bool fine, bool countAll, Trace* out);
void mark();                      // a scheduling point of the harness itself: between two operations
extern bool freeMarks;            // changing the thread there is not a deviation
extern bool recording;            // read/write locks taken now, before run(), count as held in run()
long tick();                      // a counter that orders the begin and end of operations
extern bool poison;               // overwrite memory when it is freed, and do not hand it out again
std::vector<std::string> held();  // locks that are held although all threads ended, and unlocks of locks not held
}
