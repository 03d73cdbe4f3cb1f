// C18: memory runs out at each allocation of each construction and query in turn.
#include "w/sweep.h"

const char* const kCheckId = "C18";

namespace w {
Told tell(const Op& op, Instance& x, uint32_t k, bool more) {
  Told t;
  std::string text;
  Outcome o = attempt([&] { std::string y = op.run(x); sim::Quiet q; text = y; }, k, more);
  sim::Quiet q;
  t.threw = o.threw;
  t.injected = o.injected;
  t.text = o.threw ? "exception " + o.what : text;
  return t;
}
}  // namespace w

void workload() {
  using namespace w;
  sim::set_step_cap(600000000);
  NetworkPlan* plan;
  RoutePlan* rp;
  std::vector<Op> ops;
  {
    sim::Quiet q;
    names();
    plan = new NetworkPlan(2);
    rp = new RoutePlan(random_route(plan->net));
    for (int i = 0, n = 1 + sim::choose(5); i < n; ++i) {
      int kind = sim::choose(3);
      if (kind == 0) ops.push_back(build_op(*plan, *rp));
      else {
        Query y = kind == 1 ? geo_query(*plan, *rp) : rule_query(*plan);
        ops.push_back({y.what, [y](Instance& x) { return y.ask(x); }});
      }
    }
  }
  std::unique_ptr<Instance> x = build_instance(*plan, *rp);
  std::vector<std::string> good;
  // First without failures: what is kept from first use on is made now.
  for (const auto& op : ops) {
    Told t = tell(op, *x, 0, false);
    t = tell(op, *x, 0, false);
    sim::Quiet q;
    good.push_back(t.text);
    sim::mix_state(hash_of(op.what + t.text));
  }
  uint64_t failures = 0;
  for (size_t i = 0; i < ops.size(); ++i) {
    const Op& op = ops[i];
    bool sweep = sim::flip(1, 2);
    uint32_t tries = sweep ? 200 : 1 + sim::choose(12);
    bool more = sim::flip(1, 3);
    for (uint32_t n = 1; n <= tries; ++n) {
      static const uint32_t lim[] = {5, 30, 200, 1500};
      uint32_t k = sweep ? n : 1 + sim::choose(lim[sim::choose(4)]);
      long before = sim::live_blocks(), serial = sim::alloc_serial();
      SIM_EVENT(op.what + " with allocation " + num(k) + (more ? " and later ones" : "") + " failing");
      Told t = tell(op, *x, k, more);
      SIM_EVENT(t.text.substr(0, 60));
      sim::Quiet q;
      if (sim::live_blocks() != before)
        sim::violation("leak", op.what + " with allocation " + num(k) + " failing: " + num(sim::live_blocks() - before) + " blocks more than before:" + sim::leak_report(serial));
      if (t.injected) {
        ++failures;
        if (!t.threw && terse(t.text) != terse(good[i]))
          sim::violation("silently-wrong", op.what + " with allocation " + num(k) + " failing gives " + t.text + "; it should give " + good[i]);
        sim::probe(t.threw ? "failure_reported" : "failure_absorbed");
        if (t.threw && t.text != "exception std::bad_alloc") sim::probe("other_exception");
      } else {
        sim::check(t.text == good[i], "later-answer-differs", op.what + " now gives " + t.text + "; before the failures it gave " + good[i]);
        if (sweep) break;
      }
    }
  }
  for (size_t i = 0; i < ops.size(); ++i) {
    Told t = tell(ops[i], *x, 0, false);
    sim::Quiet q;
    sim::check(t.text == good[i], "later-answer-differs", ops[i].what + " now gives " + t.text + "; before the failures it gave " + good[i]);
  }
  if (failures) sim::mark_nontrivial();
  x.reset();
  sim::Quiet q;
  delete plan;
  delete rp;
}
