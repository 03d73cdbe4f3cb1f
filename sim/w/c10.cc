// C10: Concurrent read-only use of rules, states and books is safe and exact.
#include "w/rule_queries.h"
#include "w/ask.h"

const char* const kCheckId = "C10";

void workload() {
  sim::set_step_cap(800000000);
  w::NetworkPlan* plan;
  {
    sim::Quiet q;
    w::names();
    plan = new w::NetworkPlan(2);
  }
  w::ask_concurrently<w::Network>([&] { return w::build_network(*plan); }, [&] { return w::rule_query(*plan); });
  sim::Quiet q;
  delete plan;
}
