// C09: Concurrent read-only use of a road geometry is safe and exact.
#include <sstream>
#include "w/geo_queries.h"
#include "w/ask.h"

const char* const kCheckId = "C09";

void workload() {
  sim::set_step_cap(60000000);
  w::NetworkPlan* plan;
  w::RoutePlan* route;
  {
    sim::Quiet q;
    w::names();
    plan = new w::NetworkPlan(3);
    route = new w::RoutePlan(w::random_route(plan->net));
  }
  w::ask_concurrently<w::Instance>([&] { return w::build_instance(*plan, *route); }, [&] { return w::geo_query(*plan, *route); });
  sim::Quiet q;
  delete plan;
  delete route;
}
