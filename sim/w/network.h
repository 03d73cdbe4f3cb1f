// A whole road network (geometry, rules, lights, intersections, phases, states) that can be built again and again alike.
#pragma once
#include "maliput/api/road_network.h"
#include "maliput/base/intersection.h"
#include "maliput/base/intersection_book.h"
#include "maliput/base/manual_discrete_value_rule_state_provider.h"
#include "maliput/base/manual_phase_provider.h"
#include "maliput/base/manual_phase_ring_book.h"
#include "maliput/base/manual_range_value_rule_state_provider.h"
#include "maliput/base/manual_right_of_way_rule_state_provider.h"
#include "maliput/base/manual_rulebook.h"
#include "maliput/base/phase_based_right_of_way_rule_state_provider.h"
#include "maliput/base/phased_discrete_rule_state_provider.h"
#include "maliput/base/rule_registry.h"
#include "maliput/base/traffic_light_book.h"
#include "w/geo.h"

namespace w {

using rules::Bulb;
using rules::BulbGroup;
using rules::TrafficLight;

struct BulbPlan { std::string id; int color = 0, type = 0; double x = 0; };
struct LightPlan { std::string id; double x = 0; std::vector<std::pair<std::string, std::vector<BulbPlan>>> groups; };
inline std::unique_ptr<const TrafficLight> make_light(const LightPlan& l) {
  std::vector<std::unique_ptr<BulbGroup>> groups;
  for (const auto& g : l.groups) {
    std::vector<std::unique_ptr<Bulb>> bulbs;
    for (const auto& b : g.second)
      bulbs.push_back(std::make_unique<Bulb>(Bulb::Id(b.id), InertialPosition(b.x, 1, 2), Rotation::FromRpy(0., 0., b.x), static_cast<rules::BulbColor>(b.color),
                                             static_cast<rules::BulbType>(b.type), b.type ? std::optional<double>(b.x) : std::nullopt));
    groups.push_back(std::make_unique<BulbGroup>(BulbGroup::Id(g.first), InertialPosition(1, l.x, 0), Rotation::FromRpy(0., 0., 0.), std::move(bulbs)));
  }
  return std::make_unique<const TrafficLight>(TrafficLight::Id(l.id), InertialPosition(l.x, 2, 3), Rotation::FromRpy(0., 0., l.x / 50), std::move(groups));
}

struct PhaseOf { int ring; std::string phase; std::optional<std::string> next; std::optional<double> in; };
struct NetworkPlan {
  NetSpec net;
  std::vector<rules::DiscreteValueRule> discretes;
  std::vector<rules::RangeValueRule> ranges;
  std::vector<rules::RightOfWayRule> rows;
  std::vector<rules::SpeedLimitRule> speeds;
  std::vector<rules::DirectionUsageRule> usages;
  std::vector<rules::PhaseRing> rings;
  std::vector<LightPlan> lights;
  struct Crossing { std::string id; std::vector<LaneSRange> region; int ring; };
  std::vector<Crossing> crossings;
  std::vector<PhaseOf> phases;
  std::vector<int> discrete_states, range_states;  // index of the state a rule is in; -1: none
  bool phased_discretes = false;
  std::vector<std::string> types{"type one", "type number two with a long name", maliput::RightOfWayRuleTypeId().string()};
  Gen gen;

  std::string lane() const {
    int s = sim::choose(net.segs.size());
    return net.lane_name(s, sim::choose(net.segs[s].lanes));
  }
  LaneSRange range() { return LaneSRange(LaneId(lane()), gen.s_range()); }
  LaneSRoute zone() {
    std::vector<LaneSRange> v;
    for (int i = 0, n = 1 + sim::choose(3); i < n; ++i) v.push_back(range());
    return LaneSRoute(v);
  }
  // Quiet.
  explicit NetworkPlan(int max_segs) {
    net = random_net(max_segs);
    for (int i = 0, n = sim::choose(3); i < n; ++i) {
      LightPlan l{i == 1 ? "light with a long identifier" : "light " + num(i), i * 10. + sim::choose(5), {}};
      for (int g = 0, m = 1 + sim::choose(2); g < m; ++g) {
        std::vector<BulbPlan> bulbs;
        for (int b = 0, k = 1 + sim::choose(3); b < k; ++b) bulbs.push_back({"bulb " + num(b), static_cast<int>(sim::choose(3)), static_cast<int>(sim::choose(2)), b * .5});
        l.groups.emplace_back(g ? "group of a second kind" : "group", bulbs);
      }
      lights.push_back(l);
    }
    if (sim::flip(1, 2)) gen.related_prefix = "d ";
    if (sim::flip(1, 2))
      for (const auto& l : lights) for (const auto& g : l.groups) gen.related_things.push_back(rules::UniqueBulbGroupId(TrafficLight::Id(l.id), BulbGroup::Id(g.first)));
    std::vector<std::string> dn, rn;
    for (const auto& n : names()) {
      if (sim::flip(1, 2)) { discretes.push_back(gen.discrete("d " + n, types[sim::choose(3)], zone())); dn.push_back("d " + n); }
      if (sim::flip(1, 3)) ranges.push_back(gen.range_rule("r " + n, types[sim::choose(2)], zone()));
      if (sim::flip(1, 3)) { rows.push_back(gen.right_of_way("w " + n, zone())); rn.push_back("w " + n); }
      if (sim::flip(1, 4)) speeds.push_back(gen.speed("s " + n, range()));
      if (sim::flip(1, 4)) usages.push_back(gen.usage("u " + n, range()));
    }
    int nrings = sim::choose(3);
    for (int i = 0; i < nrings; ++i) {
      RingSpec r;
      r.id = i ? "ring with a longer name" : "ring";
      for (size_t j = 0; j < rn.size(); ++j) if (static_cast<int>(j % 3) == i) r.rows.push_back(rn[j]);
      for (size_t j = 0; j < dn.size(); ++j) if (static_cast<int>(j % 3) == i) r.discretes.push_back(dn[j]);
      for (const auto& l : lights)
        for (const auto& g : l.groups)
          for (const auto& b : g.second)
            if (sim::flip(1, 2)) r.bulbs.emplace_back(TrafficLight::Id(l.id), BulbGroup::Id(g.first), Bulb::Id(b.id));
      r.with_bulbs = sim::flip(2, 3);
      r.nphases = 1 + sim::choose(3);
      r.with_next = sim::flip(1, 2);
      rings.push_back(make_ring(&gen, r));
      std::vector<std::string> ph;
      for (int p = 0; p < r.nphases; ++p) ph.push_back(p % 2 ? "phase " + num(p) : "phase with a longer name " + num(p));
      if (sim::flip(3, 4)) {
        PhaseOf o{i, ph[sim::choose(ph.size())], std::nullopt, std::nullopt};
        if (sim::flip(1, 2)) { o.next = ph[sim::choose(ph.size())]; if (sim::flip(1, 2)) o.in = sim::choose(9) + .5; }
        phases.push_back(o);
      }
      if (sim::flip(3, 4)) {
        Crossing c{i ? "intersection with a long name" : "crossing", {}, i};
        for (int k = 0, m = 1 + sim::choose(2); k < m; ++k) c.region.push_back(range());
        crossings.push_back(c);
      }
    }
    for (const auto& d : discretes) discrete_states.push_back(sim::choose(3) ? static_cast<int>(sim::choose(d.states().size())) : -1);
    for (const auto& d : ranges) range_states.push_back(sim::choose(3) ? static_cast<int>(sim::choose(d.states().size())) : -1);
    phased_discretes = sim::flip(1, 2);
  }
};

// What a plan is built into. Everything maliput does while it is built is simulated.
struct Network {
  std::unique_ptr<api::RoadNetwork> rn;
  std::vector<std::vector<SimLane*>> lanes;
  maliput::ManualDiscreteValueRuleStateProvider* discretes = nullptr;
  maliput::ManualRangeValueRuleStateProvider* ranges = nullptr;
  maliput::ManualPhaseProvider* phases = nullptr;

  const api::RoadGeometry* rg() const { return rn->road_geometry(); }
  SimLane* lane(int seg, int l) const { return lanes[seg][l % lanes[seg].size()]; }
};
inline bool& own_components() {  // do users bring implementations of their own?
  static bool on = false;
  return on;
}
inline std::unique_ptr<Network> build_network(const NetworkPlan& p) {
  auto out = std::make_unique<Network>();
  Net net = build_net(p.net);
  auto book = std::make_unique<maliput::ManualRulebook>();
  for (const auto& r : p.discretes) book->AddRule(r);
  for (const auto& r : p.ranges) book->AddRule(r);
  for (const auto& r : p.rows) book->AddRule(r);
  for (const auto& r : p.speeds) book->AddRule(r);
  for (const auto& r : p.usages) book->AddRule(r);
  auto lights = std::make_unique<maliput::TrafficLightBook>();
  for (const auto& l : p.lights) lights->AddTrafficLight(make_light(l));
  auto rings = std::make_unique<maliput::ManualPhaseRingBook>();
  for (const auto& r : p.rings) rings->AddPhaseRing(r);
  auto phases = std::make_unique<maliput::ManualPhaseProvider>();
  for (const auto& o : p.phases)
    phases->AddPhaseRing(p.rings[o.ring].id(), rules::Phase::Id(o.phase), o.next ? std::optional<rules::Phase::Id>(rules::Phase::Id(*o.next)) : std::nullopt, o.in);
  auto crossings = std::make_unique<maliput::IntersectionBook>(net.rg.get());
  for (const auto& c : p.crossings)
    crossings->AddIntersection(std::make_unique<maliput::Intersection>(maliput::Intersection::Id(c.id), c.region, p.rings[c.ring], phases.get()));
  auto registry = std::make_unique<rules::RuleRegistry>();
  {
    std::map<std::string, std::vector<rules::DiscreteValueRule::DiscreteValue>> dv;
    std::map<std::string, std::vector<rules::RangeValueRule::Range>> rv;
    for (const auto& r : p.discretes) for (const auto& s : r.states()) dv[r.type_id().string()].push_back(s);
    for (const auto& r : p.ranges) for (const auto& s : r.states()) rv["range " + r.type_id().string()].push_back(s);
    for (const auto& e : dv) registry->RegisterDiscreteValueRule(rules::Rule::TypeId(e.first), e.second);
    for (const auto& e : rv) registry->RegisterRangeValueRule(rules::Rule::TypeId(e.first), e.second);
  }
  std::unique_ptr<rules::RoadRulebook> rulebook = std::move(book);
  std::unique_ptr<rules::PhaseRingBook> ringbook = std::move(rings);
  if (own_components()) {
    rulebook = std::make_unique<fwd::Rulebook>(std::move(rulebook));
    ringbook = std::make_unique<fwd::Rings>(std::move(ringbook));
  }
  std::unique_ptr<maliput::ManualDiscreteValueRuleStateProvider> ds;
  if (p.phased_discretes) ds = std::make_unique<maliput::PhasedDiscreteRuleStateProvider>(rulebook.get(), ringbook.get(), phases.get());
  else ds = std::make_unique<maliput::ManualDiscreteValueRuleStateProvider>(rulebook.get());
  for (size_t i = 0; i < p.discretes.size(); ++i)
    if (p.discrete_states[i] >= 0) ds->SetState(p.discretes[i].id(), p.discretes[i].states()[p.discrete_states[i]], std::nullopt, std::nullopt);
  auto rs = std::make_unique<maliput::ManualRangeValueRuleStateProvider>(rulebook.get());
  for (size_t i = 0; i < p.ranges.size(); ++i)
    if (p.range_states[i] >= 0) rs->SetState(p.ranges[i].id(), p.ranges[i].states()[p.range_states[i]], std::nullopt, std::nullopt);
  auto ws = std::make_unique<maliput::PhaseBasedRightOfWayRuleStateProvider>(ringbook.get(), phases.get());
  out->lanes = net.lanes;
  out->discretes = ds.get();
  out->ranges = rs.get();
  out->phases = phases.get();
  std::unique_ptr<rules::TrafficLightBook> lightbook = std::move(lights);
  std::unique_ptr<api::IntersectionBook> crossbook = std::move(crossings);
  std::unique_ptr<rules::RightOfWayRuleStateProvider> rowp = std::move(ws);
  std::unique_ptr<rules::DiscreteValueRuleStateProvider> dsp = std::move(ds);
  std::unique_ptr<rules::RangeValueRuleStateProvider> rsp = std::move(rs);
  if (own_components()) {
    lightbook = std::make_unique<fwd::Lights>(std::move(lightbook));
    crossbook = std::make_unique<fwd::Crossings>(std::move(crossbook));
    rowp = std::make_unique<fwd::Rows>(std::move(rowp));
    dsp = std::make_unique<fwd::Discretes>(std::move(dsp));
    rsp = std::make_unique<fwd::Ranges>(std::move(rsp));
  }
  out->rn = std::make_unique<api::RoadNetwork>(std::move(net.rg), std::move(rulebook), std::move(lightbook), std::move(crossbook), std::move(ringbook), std::move(rowp), std::move(phases),
                                               std::move(registry), std::move(dsp), std::move(rsp));
  return out;
}

inline std::string hashed(const std::string& s) { return s.size() < 200 ? s : s.substr(0, 120) + "... (" + num(s.size()) + " bytes, " + num(hash_of(s)) + ")"; }

// A question to a network; the answer is a text. It is asked in simulated code.
struct Query {
  std::string what;
  std::function<std::string(Network&)> ask;
};
struct Answer {
  std::string text;
  bool injected = false;  // spoilt by an allocation made to fail
};
inline Answer answer(const Query& q, Network& n, uint32_t k = 0) {
  Answer a;
  std::string text;
  Outcome o = attempt([&] { text = q.ask(n); }, k);
  sim::Quiet quiet;
  a.injected = o.injected;
  a.text = o.threw ? "exception " + o.what : text;
  return a;
}

}  // namespace w
