// C20: what maliput hands out, or is given, does not change when what it came from does.
#include "w/rule_queries.h"

#include "maliput/math/kd_tree.h"
#include "maliput/base/phase_based_right_of_way_rule_state_provider.h"

const char* const kCheckId = "C20";

namespace w {

// Something taken at some time, and what it said then.
struct Keep {
  std::string name, said;
  std::function<std::string()> say;
  int part = -1;  // what it points into; -1: a copy of its own
};

std::string text(const std::vector<api::Intersection*>& v) {
  std::string s;
  for (auto* i : v) s += i->id().string() + ",";
  return s;
}
std::string more_of(const api::Intersection* i) { return i->id().string() + " of " + i->ring_id().string() + " at " + str(LaneSRoute(i->region())); }
std::string more_of(const TrafficLight* t) {
  std::string s = str(t);
  for (const auto* g : t->bulb_groups()) {
    s += g->unique_id().string() + (g->traffic_light() == t ? "" : "!");
    for (const auto* b : g->bulbs()) s += b->unique_id().string() + (b->bulb_group() == g ? "" : "!");
  }
  return s;
}

struct World {
  enum { kRules, kRings, kLights, kTypes, kParts, kGround = kParts };
  std::mutex lock;
  Gen gen;
  std::vector<std::shared_ptr<Keep>> keeps;
  int users[kParts + 1] = {};  // readers holding something that points into a part
  // ---- the parts
  std::unique_ptr<maliput::ManualRulebook> book;
  std::unique_ptr<maliput::ManualDiscreteValueRuleStateProvider> discretes;
  std::unique_ptr<maliput::ManualRangeValueRuleStateProvider> ranges;
  std::unique_ptr<maliput::ManualRightOfWayRuleStateProvider> rows;
  std::unique_ptr<maliput::ManualPhaseRingBook> rings;
  std::unique_ptr<maliput::ManualPhaseProvider> phases;
  std::unique_ptr<maliput::PhaseBasedRightOfWayRuleStateProvider> phase_rows;
  std::unique_ptr<maliput::IntersectionBook> crossings;
  std::unique_ptr<maliput::TrafficLightBook> lights;
  std::unique_ptr<rules::RuleRegistry> types;
  Net net;
  std::unique_ptr<NetworkPlan> plan;  // in some runs: a network with its routes
  RoutePlan route_plan;
  std::unique_ptr<Instance> ground;
  // ---- what they hold: name -> text
  std::map<std::string, std::string> discrete, range, row, speed, usage, ring, crossing, light, dtype, rtype;
  std::map<std::string, std::vector<rules::DiscreteValueRule::DiscreteValue>> dvalues;
  std::map<std::string, std::vector<rules::RangeValueRule::Range>> rvalues;
  std::map<std::string, std::vector<std::string>> states, ring_phases;
  std::set<std::string> has_phase;
  int fresh = 0;

  std::string a_name() {  // quiet; often a new one, so that containers grow
    if (sim::flip(1, 2)) return names()[sim::choose(names().size())];
    return "entry with a number " + num(fresh++);
  }
  template <class M>
  std::string known(const M& m) {
    if (m.empty() || sim::flip(1, 10)) return names()[sim::choose(names().size())];
    auto it = m.begin();
    std::advance(it, sim::choose(m.size()));
    return it->first;
  }

  void build(int part) {
    if (part == kRules) {
      rows.reset(); ranges.reset(); discretes.reset(); book.reset();
      book = std::make_unique<maliput::ManualRulebook>();
      discretes = std::make_unique<maliput::ManualDiscreteValueRuleStateProvider>(book.get());
      ranges = std::make_unique<maliput::ManualRangeValueRuleStateProvider>(book.get());
      rows = std::make_unique<maliput::ManualRightOfWayRuleStateProvider>();
      sim::Quiet q;
      discrete.clear(); range.clear(); row.clear(); speed.clear(); usage.clear(); dvalues.clear(); rvalues.clear(); states.clear();
    } else if (part == kRings) {
      crossings.reset(); phase_rows.reset(); phases.reset(); rings.reset();
      rings = std::make_unique<maliput::ManualPhaseRingBook>();
      phases = std::make_unique<maliput::ManualPhaseProvider>();
      phase_rows = std::make_unique<maliput::PhaseBasedRightOfWayRuleStateProvider>(rings.get(), phases.get());
      crossings = std::make_unique<maliput::IntersectionBook>(net.rg.get());
      sim::Quiet q;
      ring.clear(); crossing.clear(); ring_phases.clear(); has_phase.clear();
    } else if (part == kLights) {
      lights.reset();
      lights = std::make_unique<maliput::TrafficLightBook>();
      sim::Quiet q;
      light.clear();
    } else {
      types.reset();
      types = std::make_unique<rules::RuleRegistry>();
      sim::Quiet q;
      dtype.clear(); rtype.clear();
    }
  }
  World() {
    {
      sim::Quiet q;
      NetSpec s = random_net(1);
      s.strategy_step = 0;
      net = build_net(s);
    }
    for (int i = 0; i < kParts; ++i) build(i);
    if (sim::flip(1, 3)) {
      {
        sim::Quiet q;
        plan = std::make_unique<NetworkPlan>(4);
        route_plan = random_route(plan->net);
      }
      ground = build_instance(*plan, route_plan);
      sim::probe("with_a_network");
      sim::mark_nontrivial();
    }
  }

  // Something is taken: `get` gives it, `say` puts it in words. A pointer names the part it points into.
  template <class G, class S>
  void take(const std::string& name, int part, G get, S say) {
    uint32_t k = alloc_faults() && sim::flip(1, 3) ? random_k() : 0;
    SIM_EVENT("take " + name + (k ? " with allocation " + num(k) + " failing" : std::string()));
    using T = decltype(get());
    std::shared_ptr<T> v;
    std::string said;
    Outcome o = attempt([&] { v = std::make_shared<T>(get()); said = say(*v); }, k);
    if (o.threw) {
      SIM_EVENT("-> " + o.what);
      return;
    }
    auto keep = std::make_shared<Keep>();
    keep->say = [v, say] { return say(*v); };
    sim::Quiet q;
    keep->name = name;
    keep->said = said;
    keep->part = part;
    keeps.push_back(keep);
    sim::probe(part < 0 ? "copy_taken" : "pointer_taken");
  }
  // What somebody wants to give to a book: it is changed and thrown away as soon as it was given.
  template <class T, class F>
  bool give(const std::string& name, bool expected, const T& quiet_value, const T& other, F f) {
    return give(name, expected, quiet_value, [&](T& mine) { mine = other; }, f, 0);
  }
  template <class T, class C, class F>
  bool give(const std::string& name, bool expected, const T& quiet_value, C change, F f, int) {
    std::unique_ptr<T> given;
    bool done = edit(name, expected, [&] {
      auto mine = std::make_unique<T>(quiet_value);
      f(*mine);
      given = std::move(mine);
    }, [] {});
    if (given && sim::flip(2, 3)) change(*given);
    return done;
  }

  // Every value that a part holds is what was given to it.
  void holds(const std::string& what, const std::map<std::string, std::string>& m, const std::function<std::string(const std::string&)>& get) {
    for (const auto& e : m) {
      std::string got;
      Outcome o = attempt([&] { got = get(e.first); });
      SIM_CHECK(!o.threw, "held-value-lost", what + " " + e.first + ": " + o.what);
      SIM_CHECK(got == e.second, "held-value-changed", what + " " + e.first + " is now " + got + " instead of " + e.second);
    }
  }
  void check_held() {
    holds("discrete rule", discrete, [&](const std::string& n) { return str(book->GetDiscreteValueRule(rules::Rule::Id(n))); });
    holds("range rule", range, [&](const std::string& n) { return str(book->GetRangeValueRule(rules::Rule::Id(n))); });
    holds("right-of-way rule", row, [&](const std::string& n) { return str(book->GetRule(rules::RightOfWayRule::Id(n))); });
    holds("speed rule", speed, [&](const std::string& n) { return str(book->GetRule(rules::SpeedLimitRule::Id(n))); });
    holds("usage rule", usage, [&](const std::string& n) { return str(book->GetRule(rules::DirectionUsageRule::Id(n))); });
    holds("ring", ring, [&](const std::string& n) { return opt(rings->GetPhaseRing(rules::PhaseRing::Id(n))); });
    holds("intersection", crossing, [&](const std::string& n) { return more_of(crossings->GetIntersection(api::Intersection::Id(n))); });
    holds("light", light, [&](const std::string& n) { return more_of(lights->GetTrafficLight(TrafficLight::Id(n))); });
    holds("type", dtype, [&](const std::string& n) { return type_text(types->GetPossibleStatesOfRuleType(rules::Rule::TypeId(n))); });
    holds("type", rtype, [&](const std::string& n) { return type_text(types->GetPossibleStatesOfRuleType(rules::Rule::TypeId(n))); });
  }
  static std::string type_text(const std::optional<rules::RuleRegistry::QueryResult>& r) {
    if (!r) return "nothing";
    std::string s = r->type_id.string() + ":";
    if (r->rule_values.index()) for (const auto& x : std::get<1>(r->rule_values)) s += str(x) + ";";
    else for (const auto& x : std::get<0>(r->rule_values)) s += str(x) + ";";
    return s;
  }

  // ---- edits
  void add_rule() {
    std::string n = sim::quietly([&] { return a_name(); });
    bool done = false;
    switch (sim::choose(5)) {
      case 0: {
        auto a = boxed([&] { return gen.discrete(n, "type", gen.route()); }), b = boxed([&] { return gen.discrete("other", "type two", gen.route()); });
        bool ok = sim::quietly([&] { return !discrete.count(n) && !range.count(n); });
        done = give("add discrete rule " + n, ok, *a, *b, [&](auto& r) { book->AddRule(r); });
        sim::Quiet q;
        if (done) { discrete[n] = str(*a); dvalues[n] = a->states(); }
        a.reset(); b.reset();
        break;
      }
      case 1: {
        auto a = boxed([&] { return gen.range_rule(n, "type", gen.route()); }), b = boxed([&] { return gen.range_rule("other", "type two", gen.route()); });
        bool ok = sim::quietly([&] { return !discrete.count(n) && !range.count(n); });
        done = give("add range rule " + n, ok, *a, *b, [&](auto& r) { book->AddRule(r); });
        sim::Quiet q;
        if (done) { range[n] = str(*a); rvalues[n] = a->states(); }
        a.reset(); b.reset();
        break;
      }
      case 2: {
        auto a = boxed([&] { return gen.right_of_way(n, gen.route()); }), b = boxed([&] { return gen.right_of_way("other", gen.route()); });
        bool ok = sim::quietly([&] { return !row.count(n); });
        done = give("add right-of-way rule " + n, ok, *a, *b, [&](auto& r) { book->AddRule(r); });
        sim::Quiet q;
        if (done) row[n] = str(*a);
        a.reset(); b.reset();
        break;
      }
      case 3: {
        auto a = boxed([&] { return gen.speed(n, gen.lane_s_range()); }), b = boxed([&] { return gen.speed("other", gen.lane_s_range()); });
        bool ok = sim::quietly([&] { return !speed.count(n); });
        done = give("add speed rule " + n, ok, *a, *b, [&](auto& r) { book->AddRule(r); });
        sim::Quiet q;
        if (done) speed[n] = str(*a);
        a.reset(); b.reset();
        break;
      }
      default: {
        auto a = boxed([&] { return gen.usage(n, gen.lane_s_range()); }), b = boxed([&] { return gen.usage("other", gen.lane_s_range()); });
        bool ok = sim::quietly([&] { return !usage.count(n); });
        done = give("add usage rule " + n, ok, *a, *b, [&](auto& r) { book->AddRule(r); });
        sim::Quiet q;
        if (done) usage[n] = str(*a);
        a.reset(); b.reset();
      }
    }
    if (done) sim::mark_nontrivial();
  }
  void remove_rule() {
    int kind = sim::choose(5);
    auto& m = kind == 0 ? discrete : kind == 1 ? range : kind == 2 ? row : kind == 3 ? speed : usage;
    std::string n = sim::quietly([&] { return known(m); });
    bool ok = sim::quietly([&] { return m.count(n) > 0 || (kind < 2 && (discrete.count(n) || range.count(n))); });
    bool done = edit("remove rule " + n, ok, [&] {
      if (kind < 2) book->RemoveRule(rules::Rule::Id(n));
      else if (kind == 2) book->RemoveRule(rules::RightOfWayRule::Id(n));
      else if (kind == 3) book->RemoveRule(rules::SpeedLimitRule::Id(n));
      else book->RemoveRule(rules::DirectionUsageRule::Id(n));
    }, [] {});
    sim::Quiet q;
    if (!done) return;
    if (kind < 2) { discrete.erase(n); range.erase(n); }
    else m.erase(n);
    sim::probe("removed");
  }
  void set_state() {
    if (sim::flip(1, 3)) {
      std::string n = sim::quietly([&] { return sim::flip(1, 2) ? known(row) : a_name(); }), s = "state " + num(sim::choose(30));
      using Two = std::pair<rules::RightOfWayRule::Id, rules::RightOfWayRule::State::Id>;
      auto v = boxed([&] { return Two(rules::RightOfWayRule::Id(n), rules::RightOfWayRule::State::Id(s)); }), other = boxed([&] { return Two(rules::RightOfWayRule::Id("another rule, with a longer name"), rules::RightOfWayRule::State::Id("another state, with a longer name")); });
      bool has = sim::quietly([&] { return states.count("w " + n) > 0; });
      bool done = give("right-of-way state of " + n, true, *v, *other, [&](Two& x) { if (has) rows->SetState(x.first, x.second); else rows->AddState(x.first, x.second); });
      sim::Quiet q;
      v.reset(); other.reset();
      if (done) states["w " + n] = {s};
      return;
    }
    if (sim::flip(1, 2)) {
      bool any = sim::quietly([&] { return !discrete.empty(); });
      if (!any) return;
      std::string n = sim::quietly([&] { auto it = discrete.begin(); std::advance(it, sim::choose(discrete.size())); return it->first; });
      std::vector<rules::DiscreteValueRule::DiscreteValue>* vs = sim::quietly([&] { return &dvalues[n]; });
      size_t i = sim::choose(vs->size()), j = sim::choose(vs->size());
      int next = sim::choose(3);
      struct Given { rules::DiscreteValueRule::DiscreteValue now; std::optional<rules::DiscreteValueRule::DiscreteValue> next; };
      auto v = boxed([&] { return Given{(*vs)[i], next ? std::optional<rules::DiscreteValueRule::DiscreteValue>((*vs)[j]) : std::nullopt}; });
      give("discrete state of " + n, true, *v, [](Given& g) { g.now.value = "changed later, and to something long"; if (g.next) g.next->value = g.now.value; }, [&](Given& g) { discretes->SetState(rules::Rule::Id(n), g.now, g.next, next == 2 ? std::optional<double>(4.) : std::nullopt); }, 0);
      drop(&v);
    } else {
      bool any = sim::quietly([&] { return !range.empty(); });
      if (!any) return;
      std::string n = sim::quietly([&] { auto it = range.begin(); std::advance(it, sim::choose(range.size())); return it->first; });
      std::vector<rules::RangeValueRule::Range>* vs = sim::quietly([&] { return &rvalues[n]; });
      size_t i = sim::choose(vs->size()), j = sim::choose(vs->size());
      int next = sim::choose(3);
      struct Given { rules::RangeValueRule::Range now; std::optional<rules::RangeValueRule::Range> next; };
      auto v = boxed([&] { return Given{(*vs)[i], next ? std::optional<rules::RangeValueRule::Range>((*vs)[j]) : std::nullopt}; });
      give("range state of " + n, true, *v, [](Given& g) { g.now.description = "changed later, and to something long"; if (g.next) g.next->description = g.now.description; }, [&](Given& g) { ranges->SetState(rules::Rule::Id(n), g.now, g.next, next == 2 ? std::optional<double>(4.) : std::nullopt); }, 0);
      drop(&v);
    }
  }
  void edit_rings() {
    if (sim::flip(1, 3)) {
      std::string n = sim::quietly([&] { return known(ring); });
      bool ok = sim::quietly([&] { return ring.count(n) > 0; });
      if (edit("remove ring " + n, ok, [&] { rings->RemovePhaseRing(rules::PhaseRing::Id(n)); }, [] {})) { sim::Quiet q; ring.erase(n); sim::probe("removed"); }
      return;
    }
    if (sim::flip(1, 2)) {
      bool any = sim::quietly([&] { return !ring_phases.empty(); });
      if (!any) return;
      std::string n;
      std::string p, nx;
      bool has;
      {
        sim::Quiet q;
        auto it = ring_phases.begin();
        std::advance(it, sim::choose(ring_phases.size()));
        n = it->first;
        p = it->second[sim::choose(it->second.size())];
        nx = it->second[sim::choose(it->second.size())];
        has = has_phase.count(n);
      }
      int next = sim::choose(3);
      struct Given { rules::PhaseRing::Id id; rules::Phase::Id now; std::optional<rules::Phase::Id> next; };
      auto v = boxed([&] { return Given{rules::PhaseRing::Id(n), rules::Phase::Id(p), next ? std::optional<rules::Phase::Id>(rules::Phase::Id(nx)) : std::nullopt}; });
      bool done = give("phase of ring " + n, true, *v, [](Given& g) { g.now = rules::Phase::Id("something else, with a longer name"); if (g.next) g.next = g.now; }, [&](Given& g) {
        auto in = next == 2 ? std::optional<double>(2.5) : std::nullopt;
        if (has) phases->SetPhase(g.id, g.now, g.next, in);
        else phases->AddPhaseRing(g.id, g.now, g.next, in);
      }, 0);
      drop(&v);
      sim::Quiet q;
      if (done) has_phase.insert(n);
      return;
    }
    // A ring of rules and discrete rules of its own: a rule belongs to one ring only.
    std::string n = sim::quietly([&] { return a_name(); });
    bool crossing_too = sim::flip(1, 2), ok_ring = false, ok_crossing = false;
    Box<rules::PhaseRing> a, b;
    std::vector<LaneSRange>* region;
    {
      sim::Quiet q;
      RingSpec rs;
      rs.id = n;
      rs.rows = {"w1 " + n, "w2 " + n};
      rs.discretes = {"d1 " + n};
      rs.bulbs.emplace_back(TrafficLight::Id(n), BulbGroup::Id("g"), Bulb::Id("b"));
      rs.with_bulbs = sim::flip(2, 3);
      rs.nphases = 1 + sim::choose(3);
      rs.with_next = sim::flip(1, 2);
      a = boxed([&] { return make_ring(&gen, rs); });
      rs.id = "other";
      rs.rows = {"z"};
      b = boxed([&] { return make_ring(&gen, rs); });
      ok_ring = !ring.count(n);
      ok_crossing = !crossing.count("at " + n);
      region = new std::vector<LaneSRange>;
      for (int i = 0, m = 1 + sim::choose(3); i < m; ++i) region->push_back(gen.lane_s_range());
    }
    bool done = give("add ring " + n, ok_ring, *a, *b, [&](auto& r) { rings->AddPhaseRing(r); });
    {
      sim::Quiet q;
      if (done) {
        ring[n] = str(*a);
        sim::mark_nontrivial();
        if (!ring_phases.count(n)) for (const auto& p : a->phases()) ring_phases[n].push_back(p.first.string());
        std::sort(ring_phases[n].begin(), ring_phases[n].end());
      }
    }
    if (crossing_too) {
      done = give("add intersection at " + n, ok_crossing, *a, *b, [&](auto& r) {
        auto mine = std::make_unique<std::vector<LaneSRange>>(*region);
        auto x = std::make_unique<maliput::Intersection>(api::Intersection::Id("at " + n), *mine, r, phases.get());
        (*mine)[0] = LaneSRange(LaneId("elsewhere"), SRange(1, 2));
        mine.reset();
        crossings->AddIntersection(std::move(x));
      });
      sim::Quiet q;
      if (done) crossing["at " + n] = "at " + n + " of " + n + " at " + str(LaneSRoute(*region));
    }
    sim::Quiet q;
    delete region;
    a.reset(); b.reset();
  }
  void add_light() {
    LightPlan* l;
    bool ok;
    {
      sim::Quiet q;
      l = new LightPlan{a_name(), sim::choose(40) * .5, {}};
      for (int g = 0, m = 1 + sim::choose(2); g < m; ++g) {
        std::vector<BulbPlan> bulbs;
        for (int b = 0, k = 1 + sim::choose(3); b < k; ++b) bulbs.push_back({"bulb " + num(b), static_cast<int>(sim::choose(3)), static_cast<int>(sim::choose(2)), b * .5});
        l->groups.emplace_back(g ? "group of a second kind" : "group", bulbs);
      }
      ok = !light.count(l->id);
    }
    const TrafficLight* p = nullptr;
    std::string said;
    bool done = edit("add light " + l->id, ok, [&] {
      auto t = make_light(*l);
      said = more_of(t.get());
      p = t.get();
      lights->AddTrafficLight(std::move(t));
    }, [] {});
    sim::Quiet q;
    if (done) { light[l->id] = said; sim::mark_nontrivial(); }
    delete l;
  }
  void add_type() {
    std::string n = sim::quietly([&] { return a_name(); });
    bool ok = sim::quietly([&] { return !dtype.count(n) && !rtype.count(n); });
    if (sim::flip(1, 2)) {
      auto a = boxed([&] { return gen.values(); }), b = boxed([&] { return gen.values(); });
      bool done = give("register discrete type " + n, ok, *a, *b, [&](auto& v) { types->RegisterDiscreteValueRule(rules::Rule::TypeId(n), v); });
      sim::Quiet q;
      if (done) { std::string s = n + ":"; for (auto& x : *a) s += str(x) + ";"; dtype[n] = s; sim::mark_nontrivial(); }
      a.reset(); b.reset();
    } else {
      auto mk = [&] { std::vector<rules::RangeValueRule::Range> r; for (int i = 0, m = 1 + sim::choose(3); i < m; ++i) r.push_back(gen.range(++gen.serial)); return r; };
      auto a = boxed(mk), b = boxed(mk);
      bool done = give("register range type " + n, ok, *a, *b, [&](auto& v) { types->RegisterRangeValueRule(rules::Rule::TypeId(n), v); });
      sim::Quiet q;
      if (done) { std::string s = n + ":"; for (auto& x : *a) s += str(x) + ";"; rtype[n] = s; sim::mark_nontrivial(); }
      a.reset(); b.reset();
    }
  }
  void change() {
    if (ground && sim::flip(1, 4)) { new_strategy(); return; }
    switch (sim::choose(9)) {
      case 0: case 1: add_rule(); break;
      case 2: remove_rule(); break;
      case 3: set_state(); break;
      case 4: edit_rings(); break;
      case 5: add_light(); break;
      case 6: add_type(); break;
      case 7:  // many at once
        sim::probe("many_at_once");
        for (int kind = sim::choose(4), i = 0, n = 4 + sim::choose(12); i < n; ++i) kind == 0 ? add_rule() : kind == 1 ? edit_rings() : kind == 2 ? add_light() : add_type();
        break;
      default: {
        int part = sim::choose(kParts);
        if (sim::flip(1, 2)) {
          if (part == kRules && sim::flip(1, 2)) {
            if (edit("remove all rules", true, [&] { book->RemoveAll(); }, [] {})) { sim::Quiet q; discrete.clear(); range.clear(); row.clear(); speed.clear(); usage.clear(); }
          } else change();
          return;
        }
        bool busy = sim::quietly([&] { return users[part] > 0; });
        if (busy) return;
        SIM_EVENT("part " + num(part) + " is destroyed");
        sim::probe("source_destroyed");
        forget(part);
        build(part);
      }
    }
  }
  void forget(int part) {
    std::vector<std::shared_ptr<Keep>> gone;
    {
      sim::Quiet q;
      for (size_t i = 0; i < keeps.size();) {
        if (keeps[i]->part == part) { gone.push_back(std::move(keeps[i])); keeps.erase(keeps.begin() + i); }
        else ++i;
      }
    }
    for (auto& g : gone) g.reset();
  }
  // ---- the network
  void new_strategy() {
    auto* rg = const_cast<SimRoadGeometry*>(static_cast<const SimRoadGeometry*>(ground->rg()));
    int kind = sim::choose(3);
    double step = 2. + sim::choose(4);
    edit("a new position search", true, [&] {
      if (kind) rg->InitializeStrategy<gb::KDTreeStrategy>(step);
      else rg->InitializeStrategy<gb::BruteForceStrategy>();
    }, [] {});
  }
  void take_from_ground() {
    NetSpec& n = plan->net;
    Instance& x = *ground;
    Box<Spot> a = boxed([&] { return random_spot(n); }), b = boxed([&] { return random_spot(n); });
    InertialPosition pt = sim::quietly([&] { return random_point(n); });
    using Results = std::vector<api::RoadPositionResult>;
    switch (sim::choose(8)) {
      case 0: {
        bool sw = sim::flip(1, 2);
        take("routes of a router that goes", kGround, [&] {
          maliput::DistanceRouter router(*x.rn, 1e-3);
          auto c = std::make_unique<routing::RoutingConstraints>();
          c->allow_lane_switch = sw;
          return router.ComputeRoutes(at(x, *a), at(x, *b), *c);
        }, [](const std::vector<routing::Route>& v) { std::string s; for (auto& r : v) s += str(r) + "|"; return s; });
        break;
      }
      case 1:
        take("route from phases that go", kGround, [&] { return make_route(n, route_plan, x); }, [pt](const routing::Route& r) { return str(r) + str(r.FindRoutePosition(pt)); });
        break;
      case 2:
        take("lane route of a route that goes", -1, [&] {
          routing::Route r(*x.route);
          const auto& p = r.start_route_position();
          return r.ComputeLaneSRoute(p);
        }, [](const LaneSRoute& r) { return str(r); });
        break;
      case 3: {
        double radius = 5. + sim::choose(20);
        take("road positions around " + sim::quietly([&] { return str(pt); }), kGround, [&] { return Results(x.rg()->FindRoadPositions(pt, radius)); }, [](const Results& v) { return str(v); });
        break;
      }
      case 4: {
        int m = 1 + sim::choose(40), seed = sim::choose(1000);
        using Tree = maliput::math::KDTree3D<maliput::math::Vector3>;
        auto point = [seed](int i) { return maliput::math::Vector3((i * 37 + seed) % 41, (i * 53 + seed) % 29, i % 3); };
        take("kd-tree of points that go", -1, [&] {
          std::vector<maliput::math::Vector3> pts;
          for (int i = 0; i < m; ++i) pts.push_back(point(i));
          auto t = std::make_shared<Tree>(pts.begin(), pts.end());
          for (auto& y : pts) y = maliput::math::Vector3(1e3, 1e3, 1e3);
          return t;
        }, [pt](const std::shared_ptr<Tree>& t) {
          std::set<std::string> found;
          maliput::math::Vector3 c(20, 15, 1), r(9, 9, 9);
          for (const auto* y : t->RangeSearch(maliput::math::AxisAlignedBox(c - r, c + r))) found.insert(str(*y));
          std::string s = str(t->nearest_point(c)) + str(t->nearest_point(pt.xyz()));
          for (auto& y : found) s += y;
          return s;
        });
        break;
      }
      case 5:
        take("graph of the network", kGround, [&] { return routing::graph::BuildGraph(x.rg()); }, [](const routing::graph::Graph& g) { return str(g); });
        break;
      case 6: {
        double max = 10. + sim::choose(60);
        take("lane sequences", kGround, [&] { return routing::FindLaneSequences(x.lanes[a->seg][a->lane], x.lanes[b->seg][b->lane], max); }, [](const std::vector<std::vector<const api::Lane*>>& v) {
          std::string s;
          for (auto& y : v) { for (auto* l : y) s += l->id().string() + ","; s += "|"; }
          return s;
        });
        break;
      }
      default: {
        auto f = boxed([&] { auto y = random_features(*plan); y.off_grid_mesh_generation = false; return y; });
        std::string lane = sim::quietly([&] { return plan->lane(); });
        take("mesh of " + lane, -1, [&] {
          auto mine = std::make_unique<utility::ObjFeatures>(*f);
          return utility::BuildMesh(x.rg(), *mine, api::LaneId(lane), utility::MaterialType::Lane);
        }, [](const std::pair<utility::mesh::GeoMesh, utility::Material>& m) { return mesh_digest(m); });
        drop(&f);
      }
    }
    drop(&a);
    drop(&b);
  }
  // ---- taking
  void take_one() {
    if (ground && sim::flip(1, 2)) { take_from_ground(); return; }
    auto I = [](const std::string& s) { return rules::Rule::Id(s); };
    std::string d = sim::quietly([&] { return known(discrete); }), r = sim::quietly([&] { return known(range); }), w_ = sim::quietly([&] { return known(row); }), p = sim::quietly([&] { return known(ring); });
    bool has_d = sim::quietly([&] { return discrete.count(d) > 0; }), has_r = sim::quietly([&] { return range.count(r) > 0; }), has_w = sim::quietly([&] { return row.count(w_) > 0; });
    switch (sim::choose(22)) {
      case 0: take("all rules", -1, [&] { return book->Rules(); }, [](const rules::RoadRulebook::QueryResults& x) { return str(x); }); break;
      case 1: {
        auto z = boxed([&] { return gen.route(); });
        take("rules on " + sim::quietly([&] { return str(*z); }), -1, [&] { return book->FindRules(z->ranges(), .1); }, [](const rules::RoadRulebook::QueryResults& x) { return str(x); });
        drop(&z);
        break;
      }
      case 2: if (has_d) take("discrete rule " + d, -1, [&] { return book->GetDiscreteValueRule(I(d)); }, [](const rules::DiscreteValueRule& x) { return str(x); }); break;
      case 3: if (has_r) take("range rule " + r, -1, [&] { return book->GetRangeValueRule(I(r)); }, [](const rules::RangeValueRule& x) { return str(x); }); break;
      case 4: if (has_w) take("right-of-way rule " + w_, -1, [&] { return book->GetRule(rules::RightOfWayRule::Id(w_)); }, [](const rules::RightOfWayRule& x) { return str(x); }); break;
      case 5: {
        std::string s = sim::quietly([&] { return known(speed); });
        if (sim::quietly([&] { return speed.count(s) > 0; })) take("speed rule " + s, -1, [&] { return book->GetRule(rules::SpeedLimitRule::Id(s)); }, [](const rules::SpeedLimitRule& x) { return str(x); });
        break;
      }
      case 6: {
        std::string s = sim::quietly([&] { return known(usage); });
        if (sim::quietly([&] { return usage.count(s) > 0; })) take("usage rule " + s, -1, [&] { return book->GetRule(rules::DirectionUsageRule::Id(s)); }, [](const rules::DirectionUsageRule& x) { return str(x); });
        break;
      }
      case 7: take("discrete state of " + d, -1, [&] { return discretes->GetState(I(d)); }, [](const std::optional<rules::DiscreteValueRuleStateProvider::StateResult>& x) { return result(x); }); break;
      case 8: take("range state of " + r, -1, [&] { return ranges->GetState(I(r)); }, [](const std::optional<rules::RangeValueRuleStateProvider::StateResult>& x) { return result(x); }); break;
      case 9: take("right-of-way state of " + w_, -1, [&] { return rows->GetState(rules::RightOfWayRule::Id(w_)); }, [](const std::optional<rules::RightOfWayRuleStateProvider::RightOfWayResult>& x) { return result(x); }); break;
      case 10: take("ring " + p, -1, [&] { return rings->GetPhaseRing(rules::PhaseRing::Id(p)); }, [](const std::optional<rules::PhaseRing>& x) { return opt(x); }); break;
      case 11: take("ring of rule d1 " + p, -1, [&] { return rings->FindPhaseRing(I("d1 " + p)); }, [](const std::optional<rules::PhaseRing>& x) { return opt(x); }); break;
      case 12: take("names of the rings", -1, [&] { return rings->GetPhaseRings(); }, [](const std::vector<rules::PhaseRing::Id>& x) { return str(x); }); break;
      case 13: take("phase of ring " + p, -1, [&] { return phases->GetPhase(rules::PhaseRing::Id(p)); }, [](const std::optional<rules::PhaseProvider::Result>& x) { return result(x); }); break;
      case 14: take("phase-based state of w1 " + p, -1, [&] { return phase_rows->GetState(rules::RightOfWayRule::Id("w1 " + p)); }, [](const std::optional<rules::RightOfWayRuleStateProvider::RightOfWayResult>& x) { return result(x); }); break;
      case 15: {
        std::string n = sim::quietly([&] { return known(crossing); });
        if (!sim::quietly([&] { return crossing.count(n) > 0; })) break;
        api::Intersection* x = crossings->GetIntersection(api::Intersection::Id(n));
        if (sim::flip(1, 2)) { take("intersection " + n, kRings, [&] { return x; }, [](api::Intersection* i) { return more_of(i); }); break; }
        if (!sim::quietly([&] { return has_phase.count(n.substr(3)) > 0; })) break;
        // The ring of an intersection may have been replaced by one whose phases it does not know.
        struct All { std::optional<rules::BulbStates> b; std::optional<rules::DiscreteValueRuleStates> d; std::optional<rules::RuleStates> r; std::optional<rules::PhaseProvider::Result> p; std::vector<LaneSRange> region; };
        take("state of intersection " + n, -1, [&] { return All{x->bulb_states(), x->DiscreteValueRuleStates(), x->RuleStates(), x->Phase(), x->region()}; }, [](const All& a) {
          std::string s = result(a.p) + str(LaneSRoute(a.region));
          if (a.b) for (auto& e : *a.b) s += str(e.first) + num(static_cast<int>(e.second));
          if (a.d) for (auto& e : *a.d) s += e.first.string() + str(e.second);
          if (a.r) for (auto& e : *a.r) s += e.first.string() + e.second.string();
          return s;
        });
        break;
      }
      case 16: take("all intersections", kRings, [&] { return crossings->GetIntersections(); }, [](const std::vector<api::Intersection*>& v) { return text(v); }); break;
      case 17: case 18: {
        std::string n = sim::quietly([&] { return known(light); });
        if (!sim::quietly([&] { return light.count(n) > 0; })) break;
        struct Parts { const TrafficLight* t; const BulbGroup* g; const Bulb* b; };
        take("light " + n, kLights, [&] {
          Parts x{lights->GetTrafficLight(TrafficLight::Id(n)), nullptr, nullptr};
          x.g = x.t->GetBulbGroup(BulbGroup::Id("group"));
          x.b = x.g->GetBulb(Bulb::Id("bulb 0"));
          return x;
        }, [](const Parts& x) { return more_of(x.t) + x.g->unique_id().string() + x.b->unique_id().string() + str(x.b->position_bulb_group()); });
        break;
      }
      case 19: take("all lights", kLights, [&] { return lights->TrafficLights(); }, [](const std::vector<const TrafficLight*>& v) { std::string s; for (auto* t : v) s += more_of(t); return s; }); break;
      case 20: {
        std::string n = sim::quietly([&] { return sim::flip(1, 2) ? known(dtype) : known(rtype); });
        take("type " + n, -1, [&] { return types->GetPossibleStatesOfRuleType(rules::Rule::TypeId(n)); }, [](const std::optional<rules::RuleRegistry::QueryResult>& r) { return type_text(r); });
        break;
      }
      default:
        take("copy of the registry", -1, [&] { return rules::RuleRegistry(*types); }, [](const rules::RuleRegistry& r) {
          std::string s;
          for (auto& e : r.DiscreteValueRuleTypes()) { s += e.first.string() + ":"; for (auto& x : e.second) s += str(x) + ";"; }
          for (auto& e : r.RangeValueRuleTypes()) { s += e.first.string() + ":"; for (auto& x : e.second) s += str(x) + ";"; }
          return s;
        });
    }
  }
  // ---- reading, without the lock
  void read() {
    std::shared_ptr<Keep> k;
    {
      std::lock_guard<std::mutex> l(lock);
      sim::Quiet q;
      if (keeps.empty()) return;
      k = keeps[sim::choose(keeps.size())];
      if (k->part >= 0) ++users[k->part];
      sim::event("read " + k->name);
    }
    compare(*k);
    std::lock_guard<std::mutex> l(lock);
    { sim::Quiet q; if (k->part >= 0) --users[k->part]; }
    k.reset();
  }
  static void compare(const Keep& k) {
    std::string now;
    Outcome o = attempt([&] { now = k.say(); });
    SIM_CHECK(!o.threw, "kept-value-lost", k.name + " cannot be read any more: " + o.what);
    SIM_CHECK(now == k.said, "kept-value-changed", k.name + " was " + k.said + " and is now " + now);
  }
};
}  // namespace w

void workload() {
  using namespace w;
  sim::set_step_cap(40000000);
  alloc_faults() = sim::flip(1, 2);
  sim::quietly([] { return names().size(); });
  auto world = std::make_unique<World>();
  int editors = 1 + sim::choose(2), readers = sim::choose(3);
  int steps = 3 + sim::choose(20);
  auto editor = [&] {
    for (int i = 0; i < steps; ++i) {
      if (sim::flip(1, 4)) sim::yield_point();
      std::lock_guard<std::mutex> l(world->lock);
      if (sim::flip(2, 5)) world->take_one();
      else world->change();
      if (sim::flip(1, 10)) world->check_held();
    }
  };
  auto reader = [&] {
    for (int i = 0; i < steps; ++i) {
      world->read();
      if (sim::flip(1, 4)) sim::yield_point();
    }
  };
  if (readers == 0 && editors == 1) editor();
  else {
    sim::probe("several_threads");
    std::vector<int> ids;
    for (int i = 0; i < editors + readers; ++i) {
      int id = i < editors ? sim::spawn(editor) : sim::spawn(reader);
      sim::Quiet q;
      ids.push_back(id);
    }
    for (int id : ids) sim::join(id);
  }
  world->check_held();
  for (size_t i = 0; i < world->keeps.size(); ++i) World::compare(*world->keeps[i]);
  // What was copied outlives everything.
  for (int i = 0; i <= World::kGround; ++i) world->forget(i);
  world->ground.reset();
  world->crossings.reset(); world->phase_rows.reset(); world->phases.reset(); world->rings.reset();
  world->rows.reset(); world->ranges.reset(); world->discretes.reset(); world->book.reset();
  world->lights.reset(); world->types.reset();
  std::string all;
  for (size_t i = 0; i < world->keeps.size(); ++i) {
    World::compare(*world->keeps[i]);
    sim::Quiet q;
    all += world->keeps[i]->said;
  }
  { sim::Quiet q; sim::mix_state(hash_of(all)); }
  std::vector<std::shared_ptr<Keep>> rest;
  { sim::Quiet q; rest.swap(world->keeps); }
  for (auto& k : rest) k.reset();
  { sim::Quiet q; std::vector<std::shared_ptr<Keep>>().swap(rest); }
}
