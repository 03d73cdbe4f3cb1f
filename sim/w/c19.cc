// C19: what users bring along - lane geometries, books, state providers, filters - fails at each call into it in turn.
#include "maliput/utility/generate_urdf.h"
#include "w/sweep.h"

const char* const kCheckId = "C19";

namespace w {
Told tell(const Op& op, Instance& x, uint32_t k, bool more, bool odd) {
  Told t;
  std::string text;
  BackendFail f;
  f.k = k;
  f.more = more;
  f.odd = odd;
  struct Arm {
    explicit Arm(BackendFail* f) { backend_fail() = f; }
    ~Arm() { backend_fail() = nullptr; }
  };
  Outcome o;
  {
    Arm arm(&f);
    o = attempt([&] { std::string y = op.run(x); sim::Quiet q; text = y; });
  }
  sim::Quiet q;
  t.threw = o.threw;
  t.injected = f.fired;
  t.text = o.threw ? "exception " + o.what : text;
  return t;
}

Op export_op(const NetworkPlan& p) {
  auto f = random_features(p);
  f.off_grid_mesh_generation = false;
  bool urdf = sim::flip(1, 3), whole = sim::flip(1, 3);
  return {urdf ? "exporting a robot description" : "exporting meshes", [=](Instance& x) {
    struct Clean { ~Clean() { sim::Quiet q; sim::fs::remove("/sim/out"); sim::fs::mkdirs("/sim/out"); } } clean;
    if (urdf) utility::GenerateUrdfFile(x.rg(), "/sim/out", "file", f);
    else if (whole) utility::GenerateObjFile(x.rn.get(), "/sim/out", "file", f);
    else utility::GenerateObjFile(x.rg(), "/sim/out", "file", f);
    sim::Quiet q;
    std::string s;
    for (const char* n : {".obj", ".mtl", ".urdf"}) { std::string d; s += n; if (sim::fs::get(std::string("/sim/out/file") + n, &d)) s += hashed(d); }
    return s;
  }};
}
// The position search of a geometry is replaced. When that fails, the old one goes on answering.
Op strategy_op(const NetworkPlan& p) {
  InertialPosition pt = random_point(p.net);
  double step = 2. + sim::choose(3);
  return {"replacing the position search asked for " + str(pt), [&p, pt, step](Instance&) {
    BackendFail* armed = backend_fail();
    backend_fail() = nullptr;
    Net n = build_net(p.net);
    auto before = n.rg->ToRoadPosition(pt);
    auto near_before = n.rg->FindRoadPositions(pt, 3.);
    backend_fail() = armed;
    try {
      n.rg->InitializeStrategy<gb::KDTreeStrategy>(step);
    } catch (...) {
      backend_fail() = nullptr;
      auto after = n.rg->ToRoadPosition(pt);
      auto near_after = n.rg->FindRoadPositions(pt, 3.);
      {
        sim::Quiet q;
        sim::check(str(before) == str(after) && str(near_before) == str(near_after), "later-answer-differs",
                   "after the position search could not be replaced the position of " + str(pt) + " is " + str(after) + ", before it was " + str(before));
        sim::probe("search_not_replaced");
      }
      backend_fail() = armed;
      throw;
    }
    auto y = n.rg->ToRoadPosition(pt);
    auto z = n.rg->FindRoadPositions(pt, 3.);
    sim::Quiet q;
    return str(y) + str(z);
  }};
}
}  // namespace w

void workload() {
  using namespace w;
  sim::set_step_cap(600000000);
  NetworkPlan* plan;
  RoutePlan* rp;
  std::vector<Op> ops;
  {
    sim::Quiet q;
    names();
    sim::fs::mkdirs("/sim/out");
    own_components() = sim::flip(3, 4);
    plan = new NetworkPlan(2);
    rp = new RoutePlan(random_route(plan->net));
    for (int i = 0, n = 1 + sim::choose(5); i < n; ++i) {
      int kind = sim::choose(12);
      if (kind == 0) ops.push_back(export_op(*plan));
      else if (kind == 1 && sim::flip(1, 2)) ops.push_back(strategy_op(*plan));
      else if (kind < 4) ops.push_back(build_op(*plan, *rp));
      else {
        Query y = kind < 8 ? geo_query(*plan, *rp) : rule_query(*plan);
        ops.push_back({y.what, [y](Instance& x) { return y.ask(x); }});
      }
    }
  }
  std::unique_ptr<Instance> x = build_instance(*plan, *rp);
  std::vector<std::string> good;
  for (const auto& op : ops) {
    Told t = tell(op, *x, 0, false, false);
    t = tell(op, *x, 0, false, false);
    sim::Quiet q;
    good.push_back(t.text);
    sim::mix_state(hash_of(op.what + t.text));
  }
  uint64_t failures = 0;
  // One failing attempt; false if no call into the backend failed.
  auto one = [&](size_t i, uint32_t k, bool more, bool odd, bool alone) {
    const Op& op = ops[i];
    long before = sim::live_blocks(), serial = sim::alloc_serial();
    std::string name;
    { sim::Quiet q; name = op.what + " with call " + num(k) + (more ? " and later ones" : "") + " into the backend failing"; sim::event(name); }
    Told t = tell(op, *x, k, more, odd);
    sim::Quiet q;
    sim::event(t.text.substr(0, 60));
    if (alone) {
      sim::check(sim::fs::open_fds() == 0, "descriptor-leaked", name + " leaves a file open");
      if (sim::live_blocks() != before) sim::violation("leak", name + ": " + num(sim::live_blocks() - before) + " blocks more than before:" + sim::leak_report(serial));
    }
    if (t.injected) {
      ++failures;
      sim::probe("backend_failed");
      sim::check(t.threw, "failure-swallowed", name + " gives " + t.text);
      sim::check(t.text == (odd ? "exception (not a std::exception)" : "exception the backend failed"), "other-exception", name + " gives " + t.text);
    } else {
      sim::check(t.text == good[i], "later-answer-differs", op.what + " now gives " + t.text + "; before the failures it gave " + good[i]);
    }
    return t.injected;
  };
  for (size_t i = 0; i < ops.size(); ++i) {
    bool sweep = sim::flip(1, 2), more = sim::flip(1, 3), odd = sim::flip(1, 4);
    uint32_t tries = sweep ? 60 : 1 + sim::choose(8);
    for (uint32_t n = 1; n <= tries; ++n) {
      static const uint32_t lim[] = {5, 30, 200, 1500};
      uint32_t k = sweep ? n : 1 + sim::choose(lim[sim::choose(4)]);
      if (!one(i, k, more, odd, true) && sweep) break;
    }
  }
  if (sim::flip(1, 3)) {
    // Several threads ask; the failures that some of them meet are nothing to the others.
    sim::probe("several_threads");
    std::vector<int> ids;
    for (int c = 0, n = 2 + sim::choose(2); c < n; ++c) {
      bool failing = c == 0 || sim::flip(1, 3);
      std::vector<std::pair<size_t, uint32_t>> todo;
      {
        sim::Quiet q;
        for (int j = 0, m = 1 + sim::choose(3); j < m; ++j) {
          size_t i = sim::choose(ops.size());
          if (ops[i].what.compare(0, 9, "exporting") == 0) continue;  // they would write the same file
          todo.emplace_back(i, failing ? 1 + sim::choose(30) : 0);
        }
      }
      int id = sim::spawn([&one, todo] { for (auto& t : todo) one(t.first, t.second, false, false, false); });
      sim::Quiet q;
      ids.push_back(id);
    }
    for (int id : ids) sim::join(id);
  }
  for (size_t i = 0; i < ops.size(); ++i) {
    Told t = tell(ops[i], *x, 0, false, false);
    sim::Quiet q;
    sim::check(t.text == good[i], "later-answer-differs", ops[i].what + " now gives " + t.text + "; before the failures it gave " + good[i]);
  }
  if (failures) sim::mark_nontrivial();
  x.reset();
  sim::Quiet q;
  delete plan;
  delete rp;
}
