// Builds and queries that are tried with something failing at each place in turn (C18: memory, C19: the backend).
#pragma once
#include <sstream>
#include "maliput/math/kd_tree.h"
#include "w/geo_queries.h"
#include "w/rule_queries.h"

namespace w {
struct Op {
  std::string what;
  std::function<std::string(Instance&)> run;  // simulated; gives a text that was made quietly
};

// Things that are built from a plan and torn down again.
Op build_op(const NetworkPlan& p, const RoutePlan& rp) {
  switch (sim::choose(14)) {
    case 0: case 1:
      return {"building the network", [&p](Instance&) { auto n = build_network(p); sim::Quiet q; return num(n->lanes.size()); }};
    case 2:
      return {"building the network, a router and a route", [&p, &rp](Instance&) { auto n = build_instance(p, rp); sim::Quiet q; return str(*n->route); }};
    case 3:
      return {"building the geometry", [&p](Instance&) { Net n = build_net(p.net); sim::Quiet q; return num(n.rg->num_junctions()) + " " + num(n.lanes.size()); }};
    case 4:
      return {"building a rulebook", [&p](Instance&) {
        maliput::ManualRulebook book;
        for (const auto& r : p.discretes) book.AddRule(r);
        for (const auto& r : p.ranges) book.AddRule(r);
        for (const auto& r : p.rows) book.AddRule(r);
        for (const auto& r : p.speeds) book.AddRule(r);
        for (const auto& r : p.usages) book.AddRule(r);
        auto y = book.Rules();
        book.RemoveAll();
        sim::Quiet q;
        return hashed(str(y));
      }};
    case 5:
      return {"building discrete and range rules", [&p](Instance&) {
        std::vector<rules::DiscreteValueRule> d;
        std::vector<rules::RangeValueRule> r;
        for (const auto& x : p.discretes) d.emplace_back(x.id(), x.type_id(), x.zone(), x.states());
        for (const auto& x : p.ranges) r.emplace_back(x.id(), x.type_id(), x.zone(), x.states());
        sim::Quiet q;
        std::string s;
        for (const auto& x : d) s += str(x);
        for (const auto& x : r) s += str(x);
        return hashed(s);
      }};
    case 6:
      return {"building right-of-way, speed and usage rules", [&p](Instance&) {
        std::vector<rules::RightOfWayRule> d;
        std::vector<rules::DirectionUsageRule> u;
        for (const auto& x : p.rows) {
          std::vector<rules::RightOfWayRule::State> st;
          for (const auto& e : x.states()) st.push_back(e.second);
          d.emplace_back(x.id(), x.zone(), x.zone_type(), st, x.related_bulb_groups());
        }
        for (const auto& x : p.usages) {
          std::vector<rules::DirectionUsageRule::State> st;
          for (const auto& e : x.states()) st.push_back(e.second);
          u.emplace_back(x.id(), x.zone(), st);
        }
        sim::Quiet q;
        std::string s;
        for (const auto& x : d) s += str(x);
        for (const auto& x : u) s += str(x);
        return hashed(s);
      }};
    case 7:
      return {"building traffic lights", [&p](Instance&) {
        std::vector<std::unique_ptr<const TrafficLight>> v;
        for (const auto& l : p.lights) v.push_back(make_light(l));
        std::vector<std::string> all;
        for (const auto& l : v) for (const auto* g : l->bulb_groups()) for (const auto* b : g->bulbs()) all.push_back(b->unique_id().string());
        sim::Quiet q;
        std::string s;
        for (const auto& l : v) s += str(l.get());
        for (const auto& x : all) s += x;
        return hashed(s);
      }};
    case 8: case 9:
      return {"building phases and rings", [&p](Instance&) {
        std::vector<rules::PhaseRing> rings;
        for (const auto& r : p.rings) {
          std::vector<rules::Phase> phases;
          std::unordered_map<rules::Phase::Id, std::vector<rules::PhaseRing::NextPhase>> next;
          for (const auto& ph : r.phases()) {
            const auto& x = ph.second;
            phases.emplace_back(x.id(), x.rule_states(), x.discrete_value_rule_states(), x.bulb_states());
            next[x.id()] = r.GetNextPhases(x.id());
          }
          rings.emplace_back(r.id(), phases, next);
        }
        maliput::ManualPhaseRingBook book;
        for (const auto& r : rings) book.AddPhaseRing(r);
        auto ids = book.GetPhaseRings();
        sim::Quiet q;
        std::string s = num(ids.size());
        for (const auto& r : rings) s += str(r);
        return hashed(s);
      }};
    case 10: {
      std::vector<maliput::math::Vector3> pts;
      for (int i = 0, n = 1 + sim::choose(40); i < n; ++i) pts.push_back(random_point(p.net).xyz());
      maliput::math::Vector3 at = random_point(p.net).xyz();
      return {"building a kd-tree of " + num(pts.size()) + " points and searching it", [pts, at](Instance&) {
        maliput::math::KDTree3D<maliput::math::Vector3> t(pts.begin(), pts.end());
        auto x = t.nearest_point(at);
        auto v = t.RangeSearch(maliput::math::AxisAlignedBox(at - maliput::math::Vector3(9, 9, 9), at + maliput::math::Vector3(9, 9, 9)));
        sim::Quiet q;
        std::set<std::string> s;
        for (const auto* y : v) s.insert(str(*y));
        std::string o = str(x);
        for (const auto& y : s) o += y;
        return hashed(o);
      }};
    }
    case 11:
      return {"building a router", [](Instance& x) { maliput::DistanceRouter r(*x.rn, 1e-3); (void)r; return std::string(); }};
    case 12:
      return {"building a route", [&p, &rp](Instance& x) { routing::Route r = make_route(p.net, rp, x); sim::Quiet q; return str(r); }};
    default:
      return {"building a phase provider and state providers", [&p](Instance& x) {
        maliput::ManualPhaseProvider ph;
        for (const auto& o : p.phases)
          ph.AddPhaseRing(p.rings[o.ring].id(), rules::Phase::Id(o.phase), o.next ? std::optional<rules::Phase::Id>(rules::Phase::Id(*o.next)) : std::nullopt, o.in);
        maliput::PhaseBasedRightOfWayRuleStateProvider ws(x.rn->phase_ring_book(), &ph);
        maliput::ManualDiscreteValueRuleStateProvider ds(x.rn->rulebook());
        for (size_t i = 0; i < p.discretes.size(); ++i) ds.SetState(p.discretes[i].id(), p.discretes[i].states()[0], std::nullopt, std::nullopt);
        std::vector<std::optional<rules::DiscreteValueRuleStateProvider::StateResult>> v;
        for (const auto& r : p.discretes) v.push_back(ds.GetState(r.id()));
        sim::Quiet q;
        std::string s;
        for (const auto& r : v) s += r ? str(r->state) : "none";
        return hashed(s);
      }};
  }
}

// Without what is only there to explain.
std::string terse(const std::string& s) {
  std::string o;
  size_t at = 0;
  for (;;) {
    size_t a = s.find("<<<", at);
    o += s.substr(at, a == std::string::npos ? a : a + 3 - at);
    if (a == std::string::npos) return o;
    at = s.find(">>>", a);
    if (at == std::string::npos) return o;
  }
}

struct Told {
  std::string text;
  bool threw = false, injected = false;
};
}  // namespace w
