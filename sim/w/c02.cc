// C02: Finishing or destroying a pool always returns.
#include "rt.h"
#include "w/pool.h"
const char* const kCheckId = "C02";
void workload() { poolsim::run(poolsim::kShutdown); }
