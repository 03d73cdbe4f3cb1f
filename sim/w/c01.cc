// C01: every accepted task runs exactly once, after the start and before finish returns, with its outcome delivered.
#include "maliput/utility/thread_pool.h"
#include "rt.h"
#include "w/pool.h"
const char* const kCheckId = "C01";
void workload() { poolsim::run(poolsim::kOnce); }
