// C21: whatever several users do at once, each with objects of its own, comes out as if each had been alone.
#include "maliput/drake/arc_length_integrator.h"
#include "maliput/drake/inverse_arc_length_integrator.h"
#include "maliput/utility/generate_urdf.h"
#include "maliput/utility/thread_pool.h"
#include "w/docs.h"
#include "w/sweep.h"

const char* const kCheckId = "C21";

namespace w {
// Something one user does from beginning to end: makes objects, uses them, throws them away.
struct Deed {
  std::string what;
  std::function<std::string(const std::string& dir)> run;  // simulated
};

struct Shared {  // read only
  std::vector<std::unique_ptr<NetworkPlan>> plans;
  std::vector<RoutePlan> routes;
  std::unique_ptr<docs::World> world;
  std::vector<std::unique_ptr<docs::Doc>> docs;
};

Deed network_deed(const NetworkPlan& p, const RoutePlan& rp, const Theme* theme) {
  std::vector<Query> qs;
  std::string what = "a network of its own, asked for";
  for (int i = 0, n = 1 + sim::choose(4); i < n; ++i) {
    if (theme && sim::flip(3, 4)) qs.push_back(theme->kind < 32 ? geo_query(p, rp, theme) : rule_query(p, theme));
    else qs.push_back(sim::flip(1, 2) ? geo_query(p, rp) : rule_query(p));
    what += " " + qs.back().what + ";";
  }
  struct Step { int ring; std::string phase; std::optional<double> in; };
  std::vector<Step> steps;  // phases announced before each question
  for (size_t i = 0; i < qs.size(); ++i) {
    Step s{-1, "", std::nullopt};
    if (!p.phases.empty() && sim::flip(1, 2)) {
      s.ring = p.phases[sim::choose(p.phases.size())].ring;
      auto& ph = p.rings[s.ring].phases();
      std::vector<std::string> v;
      for (auto& e : ph) v.push_back(e.first.string());
      std::sort(v.begin(), v.end());
      s.phase = v[sim::choose(v.size())];
      if (sim::flip(1, 2)) s.in = 1. + sim::choose(5);
    }
    steps.push_back(s);
  }
  bool states = sim::flip(1, 2), search = sim::flip(1, 3);
  double step = 2. + sim::choose(3);
  return {what, [=, &p, &rp](const std::string&) {
    auto x = build_instance(p, rp);
    std::string all;
    for (size_t i = 0; i < qs.size(); ++i) {
      const Step& s = steps[i];
      if (s.ring >= 0) {
        rules::Phase::Id id(s.phase);
        x->phases->SetPhase(p.rings[s.ring].id(), id, s.in ? std::optional<rules::Phase::Id>(id) : std::nullopt, s.in);
      }
      if (states)
        for (const auto& d : p.discretes) x->discretes->SetState(d.id(), d.states()[i % d.states().size()], std::nullopt, std::nullopt);
      if (search && i == 1) const_cast<SimRoadGeometry*>(static_cast<const SimRoadGeometry*>(x->rg()))->InitializeStrategy<gb::KDTreeStrategy>(step);
      std::string a;
      try {
        a = qs[i].ask(*x);
      } catch (const std::bad_alloc&) {
        throw;
      } catch (const std::exception& e) {
        sim::Quiet q;
        a = std::string("exception ") + e.what();
      }
      sim::Quiet q;
      all += a + "\n";
    }
    return all;
  }};
}
Deed build_deed(const NetworkPlan& p, const RoutePlan& rp) {
  Op op = build_op(p, rp);
  return {op.what, [=, &p, &rp](const std::string&) {
    auto x = build_instance(p, rp);
    return op.run(*x);
  }};
}
Deed load_deed(const docs::Doc& d, const docs::World& world) {
  bool file = sim::flip(1, 2), wrong = !d.wrong_text.empty() && sim::flip(1, 4);
  std::string text = wrong ? d.wrong_text : d.text;
  return {std::string("loading a ") + docs::kKindName[d.kind] + (wrong ? " with a mistake (" + d.mistake + ")" : std::string()), [=, &d, &world](const std::string& dir) {
    std::string path = dir + "/in.yaml";
    if (file) { sim::Quiet q; sim::fs::put(path, text); }
    return docs::load(d, world, file, file ? path : text);
  }};
}
Deed export_deed(const NetworkPlan& p) {
  auto f = random_features(p);
  f.off_grid_mesh_generation = false;
  bool urdf = sim::flip(1, 3), whole = sim::flip(1, 3);
  return {urdf ? "exporting a robot description" : "exporting meshes", [=, &p](const std::string& dir) {
    auto x = build_network(p);
    if (urdf) utility::GenerateUrdfFile(x->rg(), dir, "file", f);
    else if (whole) utility::GenerateObjFile(x->rn.get(), dir, "file", f);
    else utility::GenerateObjFile(x->rg(), dir, "file", f);
    sim::Quiet q;
    std::string s;
    for (const char* n : {".obj", ".mtl", ".urdf"}) { std::string d; s += n; if (sim::fs::get(dir + "/file" + n, &d)) s += hashed(d); }
    return s;
  }};
}
Deed pool_deed() {
  int threads = 1 + sim::choose(3), tasks = 1 + sim::choose(6), bad = sim::flip(1, 3) ? sim::choose(tasks) : -1;
  bool late = sim::flip(1, 2), waits = sim::flip(1, 2);
  int rounds = late ? 1 : 1 + sim::choose(3);
  return {num(tasks) + " tasks for " + num(threads) + " threads", [=](const std::string&) {
    std::vector<std::future<int>> fs;
    std::vector<int> seen(tasks, 0);
    {
      utility::ThreadPool pool(threads);
      if (!late) pool.Start();
      for (int i = 0; i < tasks; ++i) {
        fs.push_back(pool.Queue([i, bad, &seen] {
          if (i == bad) throw std::runtime_error("task " + std::to_string(i));
          seen[i] = i * i + 1;
          return i * i;
        }));
        if (!late && waits && i % rounds == rounds - 1) fs.back().wait();  // its threads fall asleep again
      }
      if (late) pool.Start();
      pool.Finish();
    }
    std::string s;
    for (int i = 0; i < tasks; ++i) {
      try {
        int v = fs[i].get();
        sim::Quiet q;
        s += num(v) + "/" + num(seen[i]) + ",";
      } catch (const std::exception& e) {
        sim::Quiet q;
        s += std::string(e.what()) + ",";
      }
    }
    return s;
  }};
}
Deed integral_deed() {
  bool inverse = sim::flip(1, 2);
  double a = 1 + sim::choose(3), b = .25 * sim::choose(4);
  std::vector<double> xs;
  for (int i = 0, n = 1 + sim::choose(4); i < n; ++i) xs.push_back(.25 + sim::choose(12) * .25);
  bool dense = sim::flip(1, 2);
  return {inverse ? "inverting arc lengths" : "integrating arc lengths", [=](const std::string&) {
    maliput::drake::IntegratorConfiguration c;
    c.parameter_lower_bound = 0;
    c.image_lower_bound = 0;
    c.k = maliput::math::Vector2(0, 0);
    c.initial_step_size_target = .1;
    c.maximum_step_size = 1;
    c.target_accuracy = 1e-4;
    std::string s;
    std::vector<double> ys;
    if (inverse) {
      maliput::drake::InverseArcLengthIntegrator in([a, b](const double&, const double& p, const maliput::math::Vector2&) { return 1 / (a + b * p); }, c);
      for (double x : xs) ys.push_back(in.Evaluate(x, c.k));
      if (dense) { auto f = in.InverseFunction(0, 4, c.k, 1e-3, 1e-6); for (double x : xs) ys.push_back(f(x)); }
    } else {
      maliput::drake::ArcLengthIntegrator in([a, b](const double& p, const maliput::math::Vector2&) { return a + b * p; }, c);
      for (double x : xs) ys.push_back(in.Evaluate(x, c.k));
      if (dense) { auto f = in.IntegralFunction(0, 4, c.k, 1e-3); for (double x : xs) ys.push_back(f(x)); }
    }
    sim::Quiet q;
    for (double y : ys) s += dbl(y) + ",";
    return s;
  }};
}
Deed random_deed(const Shared& sh, const Theme* theme) {
  size_t i = sim::choose(sh.plans.size());
  const NetworkPlan& p = *sh.plans[i];
  const RoutePlan& rp = sh.routes[i];
  switch (theme && sim::flip(3, 4) ? 0 : sim::choose(12)) {
    case 0: case 1: case 2: case 3: return network_deed(p, rp, theme);
    case 4: case 5: return build_deed(p, rp);
    case 6: case 7: case 8: return load_deed(*sh.docs[sim::choose(sh.docs.size())], *sh.world);
    case 9: return export_deed(p);
    case 10: return pool_deed();
    default: return integral_deed();
  }
}

struct Report { std::string text; bool injected = false; };
Report carry_out(const Deed& d, const std::string& dir, uint32_t k) {
  { sim::Quiet q; sim::fs::mkdirs(dir); SIM_EVENT("does " + d.what + (k ? " with allocation " + num(k) + " failing" : std::string())); }
  std::string text;
  Outcome o = attempt([&] { std::string s = d.run(dir); sim::Quiet q; text = s; }, k);
  sim::Quiet q;
  sim::fs::remove(dir);
  Report r{o.threw ? "exception " + o.what : text, o.injected};
  sim::event("-> " + r.text.substr(0, 100));
  return r;
}
}  // namespace w

void workload() {
  using namespace w;
  sim::set_step_cap(800000000);
  Shared* sh;
  struct User { std::vector<Deed> deeds; std::vector<uint32_t> faults; std::vector<Report> reports; };
  std::vector<User>* users;
  bool burst, alone_first;
  {
    sim::Quiet q;
    names();
    docs::ids();
    sh = new Shared;
    for (int i = 0, n = 1 + sim::choose(3); i < n; ++i) {
      sh->plans.push_back(std::make_unique<NetworkPlan>(3));
      sh->routes.push_back(random_route(sh->plans.back()->net));
    }
    sh->world = std::make_unique<docs::World>();
    sh->world->net = build_net(random_net(2));
    for (auto& s : sh->world->net.lanes) for (auto* l : s) { sh->world->lanes.ids.push_back(l->id()); sh->world->lanes.lengths.push_back(l->length()); }
    for (int i = 0, n = 1 + sim::choose(3); i < n; ++i) sh->docs.push_back(docs::random_doc(*sh->world));
    users = new std::vector<User>(1 + sim::choose(3) + (sim::flip(1, 2) ? 1 : 0));
    // In some runs all ask the same of their networks, and freed memory is used again: what is kept from one network must
    // not answer for another.
    std::optional<Theme> theme;
    if (sim::flip(1, 3)) { theme = random_theme(); sim::probe("same_question_to_different_networks"); if (sim::flip(2, 3)) sim::reuse_memory(true); }
    bool failing = sim::flip(1, 4), same = sim::flip(1, 4);
    int per = 1 + sim::choose(3);
    for (auto& u : *users) {
      if (same && &u != &(*users)[0]) u.deeds = (*users)[0].deeds;
      else for (int i = 0; i < per; ++i) u.deeds.push_back(random_deed(*sh, theme ? &*theme : nullptr));
      static const uint32_t lim[] = {20, 200, 2000, 10000};
      for (size_t i = 0; i < u.deeds.size(); ++i) u.faults.push_back(failing && sim::flip(1, 3) ? 1 + sim::choose(lim[sim::choose(4)]) : 0);
      u.reports.resize(u.deeds.size());
    }
    burst = sim::flip(1, 2);
    alone_first = sim::flip(1, 4);
    if (users->size() > 1) sim::mark_nontrivial();
  }
  std::vector<std::vector<std::string>>* alone;
  { sim::Quiet q; alone = new std::vector<std::vector<std::string>>(users->size()); }
  auto by_oneself = [&] {
    for (size_t u = 0; u < users->size(); ++u)
      for (size_t i = 0; i < (*users)[u].deeds.size(); ++i) {
        Report r = carry_out((*users)[u].deeds[i], "/sim/alone" + num(u), 0);
        sim::Quiet q;
        (*alone)[u].push_back(r.text);
      }
  };
  if (alone_first) by_oneself();
  std::vector<int> ids;
  for (size_t u = 0; u < users->size(); ++u) {
    int id = sim::spawn([&, u] {
      User& me = (*users)[u];
      std::string dir = "/sim/user" + num(u);
      for (size_t i = 0; i < me.deeds.size(); ++i) {
        if (!burst && sim::flip(1, 3)) sim::sleep_ns(1000 + sim::choose(50000));
        Report r = carry_out(me.deeds[i], dir, me.faults[i]);
        sim::Quiet q;
        if (r.injected) sim::probe("hit_by_allocation_failure");
        me.reports[i] = r;
      }
    });
    sim::Quiet q;
    ids.push_back(id);
  }
  for (int id : ids) sim::join(id);
  SIM_CHECK(sim::fs::open_fds() == 0, "descriptor-leaked", "a file is still open");
  if (!alone_first) by_oneself();
  sim::Quiet q;
  uint64_t h = 0;
  for (size_t u = 0; u < users->size(); ++u)
    for (size_t i = 0; i < (*users)[u].deeds.size(); ++i) {
      const Report& r = (*users)[u].reports[i];
      const std::string& a = (*alone)[u][i];
      if (a.compare(0, 9, "exception") == 0) sim::probe("refused");
      h = h * 31 + hash_of((*users)[u].deeds[i].what + a);
      if (r.injected) continue;
      if (r.text != a) sim::violation("outcome-differs", (*users)[u].deeds[i].what + ", done beside others: " + docs::difference(r.text, a) + " when done alone");
    }
  sim::mix_state(h);
  delete alone;
  delete users;
  delete sh;
}
