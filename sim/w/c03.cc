// C03: Cancellation and lifecycle rules.
#include "rt.h"
#include "w/pool.h"
const char* const kCheckId = "C03";
void workload() { poolsim::run(poolsim::kCancel); }
