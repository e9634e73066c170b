// Threads under a scheduler of our own: real pthreads, of which exactly one runs at a
// time; the plan decides at which memory access, lock or disk operation another one
// continues.  The code under test is compiled with -fsanitize=thread but linked with
// the runtime in mt_rt.cc instead of the one of the compiler.
#ifndef GEARSIM_MT_H
#define GEARSIM_MT_H
#include "alloc.h"
#include "core.h"
#include <functional>
#include <set>
namespace sim {
enum { MAXT = 4 };
// kinds of points at which a switch can happen
enum { PT_ANY, PT_CONFLICT, PT_SYNC, PT_IO, PT_N };
struct Switch { int kind; long at; int to; };
struct MtPlan {
  std::vector<Switch> sw;                  // explicit switches
  u64 rseed = 0; long per = 0;             // additional random switches: one in per points (0 = none)
  bool perConflict = false;                // the random ones only at conflicting accesses
  int first = 0;                           // the thread that starts
  const std::vector<u64>* conflict = nullptr;   // addresses (8 byte granules) known to be shared and written
};
struct MtResult {
  long points[PT_N] = {0};
  long switches = 0;
  std::vector<u64> conflict;
};
// runs the functions as threads to their end; races, deadlocks and use of freed memory are violations
MtResult mtRun(const std::vector<std::function<void()>>& fn, const MtPlan& p);
int mtSelf();           // index of the running simulated thread, -1 outside
}
#endif
