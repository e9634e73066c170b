// The allocation seam: operator new/delete of the whole program.
#ifndef GEARSIM_ALLOC_H
#define GEARSIM_ALLOC_H
#include "core.h"
namespace sim {
struct AllocSeam {
  long armed;        // > 0: allocations belong to the code under test
  long count;        // allocations of the code under test since arm
  long failAt;       // fail this one (0-based), -1 = none
  long failFor;      // so many consecutive ones fail (1 = a single failure), -1 = all further
  long fired;
  long total;        // armed allocations since the start of the process
  long limit;        // runaway guard
  long fill;         // byte that fresh memory holds (what was there before), -1 = whatever
};
extern AllocSeam as;
inline void armAlloc(long failAt, long failFor = 1) { as.count = 0; as.failAt = failAt; as.failFor = failFor; as.fired = 0; }
// code under test runs inside a Lib scope; harness code inside callbacks in an Unarm scope
struct Lib { Lib() { ++as.armed; } ~Lib() { --as.armed; } };
struct Unarm { long s; Unarm() : s(as.armed) { as.armed = 0; } ~Unarm() { as.armed = s; } };
}
#endif
