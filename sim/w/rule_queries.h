// Questions to the rules, states, books and exporters of a network.
#pragma once
#include <sstream>
#include "maliput/api/road_network_validator.h"
#include "maliput/api/rules/compare.h"
#include "maliput/base/rule_filter.h"
#include "maliput/base/rule_tools.h"
#include "maliput/common/logger.h"
#include "maliput/utility/generate_dot.h"
#include "maliput/utility/generate_obj.h"
#include "maliput/utility/generate_string.h"
#include "w/geo_queries.h"
#include "w/site.h"

namespace w {

namespace utility = maliput::utility;

inline std::string str(const rules::RoadRulebook::QueryResults& r) {
  std::string s;
  for (auto& e : r.right_of_way) s += str(e.second) + "|";
  for (auto& e : r.speed_limit) s += str(e.second) + "|";
  for (auto& e : r.direction_usage) s += str(e.second) + "|";
  for (auto& e : r.discrete_value_rules) s += str(e.second) + "|";
  for (auto& e : r.range_value_rules) s += str(e.second) + "|";
  return s;
}
inline std::string str(const TrafficLight* t) {
  if (!t) return "no light";
  std::string s = t->id().string() + str(t->position_road_network()) + str(t->orientation_road_network());
  for (const auto* g : t->bulb_groups()) {
    s += " " + g->id().string() + str(g->position_traffic_light());
    for (const auto* b : g->bulbs()) {
      s += "," + b->id().string() + num(static_cast<int>(b->color())) + num(static_cast<int>(b->type())) + (b->arrow_orientation_rad() ? dbl(*b->arrow_orientation_rad()) : std::string("-"));
      for (auto x : b->states()) s += num(static_cast<int>(x));
    }
  }
  return s;
}
inline std::string str(const api::Intersection* i) { return i ? i->id().string() : "no intersection"; }
inline std::string mesh_digest(const std::pair<utility::mesh::GeoMesh, utility::Material>& m) {  // simulated
  std::ostringstream os;
  m.first.EmitObj(os, m.second.name, 6, InertialPosition(0, 0, 0), 0, 0);
  whole(os);
  std::string s = os.str();
  sim::Quiet q;
  return m.second.name + hashed(s);
}
inline utility::ObjFeatures random_features(const NetworkPlan& p) {
  utility::ObjFeatures f;
  f.max_grid_unit = 3. + sim::choose(4);
  f.min_grid_resolution = 1. + sim::choose(2);
  f.draw_stripes = sim::flip(1, 2);
  f.draw_arrows = sim::flip(1, 2);
  f.draw_lane_haze = sim::flip(1, 2);
  f.draw_branch_points = sim::flip(1, 2);
  f.draw_elevation_bounds = sim::flip(1, 2);
  f.off_grid_mesh_generation = sim::flip(1, 24);  // a grid as fine as the linear tolerance
  f.simplify_mesh_threshold = sim::flip(1, 4) ? .1 : 0.;
  if (sim::flip(1, 3)) f.origin = InertialPosition(1., 2., 3.);
  if (sim::flip(1, 4)) f.highlighted_segments.push_back(api::SegmentId(p.net.segs[0].name));
  return f;
}

// Quiet; the question itself is not.
inline Query rule_query(const NetworkPlan& p, const Theme* theme = nullptr) {
  auto some = [theme](const auto& v, const char* none) {
    if (theme) for (const auto& x : v) if (x.id().string() == theme->name) return theme->name;
    if (theme && !v.empty()) return v[theme->which % v.size()].id().string();
    return v.empty() || sim::flip(1, 10) ? std::string(none) : v[sim::choose(v.size())].id().string();
  };
  Spot a = theme ? theme->spot : random_spot(p.net);
  InertialPosition pt = theme ? theme->pt : random_point(p.net);
  std::string d = some(p.discretes, "no rule"), r = some(p.ranges, "no rule"), w_ = some(p.rows, "no rule"), ring = some(p.rings, "no ring");
  std::string s_ = some(p.speeds, "no rule"), u = some(p.usages, "no rule");
  std::string light = p.lights.empty() || sim::flip(1, 8) ? "no light" : p.lights[sim::choose(p.lights.size())].id;
  std::string crossing = p.crossings.empty() || sim::flip(1, 8) ? "no crossing" : p.crossings[sim::choose(p.crossings.size())].id;
  std::string type = p.types[theme ? theme->which % 3 : sim::choose(3)];
  double tol = theme ? theme->tol : sim::choose(3) * .75;
  switch (theme ? theme->kind % 28 : sim::choose(28)) {
    case 0: return {"all rules", [=](Network& x) { auto y = x.rn->rulebook()->Rules(); sim::Quiet q; return hashed(str(y)); }};
    case 1: case 2: {
      std::vector<LaneSRange> v;
      for (int i = 0, n = 1 + sim::choose(2); i < n; ++i) v.push_back(LaneSRange(LaneId(p.lane()), SRange(sim::choose(5), sim::choose(9))));
      return {"rules at " + str(LaneSRoute(v)), [=](Network& x) { auto y = x.rn->rulebook()->FindRules(v, tol); sim::Quiet q; return hashed(str(y)); }};
    }
    case 3: return {"rule " + d, [=](Network& x) { auto y = x.rn->rulebook()->GetDiscreteValueRule(rules::Rule::Id(d)); sim::Quiet q; return str(y); }};
    case 4: return {"rule " + r, [=](Network& x) { auto y = x.rn->rulebook()->GetRangeValueRule(rules::Rule::Id(r)); sim::Quiet q; return str(y); }};
    case 5: return {"rule " + w_ , [=](Network& x) { auto y = x.rn->rulebook()->GetRule(rules::RightOfWayRule::Id(w_)); sim::Quiet q; return str(y); }};
    case 6: return {"rules " + s_ + ", " + u, [=](Network& x) {
      std::string s;
      if (s_ != "no rule") { auto y = x.rn->rulebook()->GetRule(rules::SpeedLimitRule::Id(s_)); sim::Quiet q; s += str(y); }
      auto y = x.rn->rulebook()->GetRule(rules::DirectionUsageRule::Id(u));
      sim::Quiet q;
      return s + str(y);
    }};
    case 7: return {"filtered rules of type " + type, [=](Network& x) {
      maliput::RuleTypeFilter f{rules::Rule::TypeId(type)};
      auto own = [](const auto& r) { backend_call(); return r.id().string().size() % 5 != 0; };
      auto y = maliput::FilterRules(x.rn->rulebook()->Rules(), {f, own}, {f, own});
      sim::Quiet q;
      return hashed(str(y));
    }};
    case 8: return {"rule types", [=](Network& x) {
      auto y = x.rn->rule_registry()->DiscreteValueRuleTypes();
      auto z = x.rn->rule_registry()->RangeValueRuleTypes();
      sim::Quiet q;
      std::string s;
      for (auto& e : y) { s += e.first.string(); for (auto& k : e.second) s += str(k); }
      for (auto& e : z) { s += e.first.string(); for (auto& k : e.second) s += str(k); }
      return hashed(s);
    }};
    case 9: return {"states of type " + type, [=](Network& x) {
      auto y = x.rn->rule_registry()->GetPossibleStatesOfRuleType(rules::Rule::TypeId(type));
      auto z = x.rn->rule_registry()->GetPossibleStatesOfRuleType(rules::Rule::TypeId("range " + type));
      sim::Quiet q;
      return std::string(y ? "known" : "unknown") + (z ? "known" : "unknown");
    }};
    case 10: return {"state of " + d, [=](Network& x) { auto y = x.rn->discrete_value_rule_state_provider()->GetState(rules::Rule::Id(d)); sim::Quiet q; return result(y); }};
    case 11: return {"state of " + r, [=](Network& x) { auto y = x.rn->range_value_rule_state_provider()->GetState(rules::Rule::Id(r)); sim::Quiet q; return result(y); }};
    case 12: return {"state of " + w_, [=](Network& x) { auto y = x.rn->right_of_way_rule_state_provider()->GetState(rules::RightOfWayRule::Id(w_)); sim::Quiet q; return result(y); }};
    case 13: return {"discrete state of type " + type + " at " + p.net.lane_name(a.seg, a.lane), [=](Network& x) {
      auto y = x.rn->discrete_value_rule_state_provider()->GetState(at(x, a), rules::Rule::TypeId(type), tol);
      sim::Quiet q;
      return result(y);
    }};
    case 14: return {"range state of type " + type + " at " + p.net.lane_name(a.seg, a.lane), [=](Network& x) {
      auto y = x.rn->range_value_rule_state_provider()->GetState(at(x, a), rules::Rule::TypeId(type), tol);
      sim::Quiet q;
      return result(y);
    }};
    case 15: return {"phase of " + ring, [=](Network& x) { auto y = x.rn->phase_provider()->GetPhase(rules::PhaseRing::Id(ring)); sim::Quiet q; return result(y); }};
    case 16: return {"ring " + ring + " and rings of " + d + ", " + w_, [=](Network& x) {
      const auto* b = x.rn->phase_ring_book();
      auto y = b->GetPhaseRing(rules::PhaseRing::Id(ring));
      auto z = b->FindPhaseRing(rules::Rule::Id(d));
      auto v = b->FindPhaseRing(rules::RightOfWayRule::Id(w_));
      auto all = b->GetPhaseRings();
      std::string nx;
      if (y) for (auto& e : y->phases()) { auto n = y->GetNextPhases(e.first); sim::Quiet q; nx += e.first.string() + num(n.size()); }
      sim::Quiet q;
      std::set<std::string> ids;
      for (auto& i : all) ids.insert(i.string());
      std::string s;
      for (auto& i : ids) s += i + ",";
      (void)nx;
      return hashed(opt(y) + opt(z) + opt(v) + s);
    }};
    case 17: return {"traffic light " + light, [=](Network& x) {
      const auto* b = x.rn->traffic_light_book();
      const auto* t = b->GetTrafficLight(TrafficLight::Id(light));
      auto all = b->TrafficLights();
      std::string s;
      if (t)
        for (const auto* g : t->bulb_groups())
          for (const auto* bulb : g->bulbs()) { auto id = bulb->unique_id(); auto gid = g->unique_id(); const auto* same = g->GetBulb(bulb->id()); sim::Quiet q; s += str(id) + gid.string() + (same == bulb ? "" : "?"); }
      sim::Quiet q;
      std::set<std::string> ids;
      for (auto* i : all) ids.insert(i->id().string());
      for (auto& i : ids) s += i + ",";
      return str(t) + s;
    }};
    case 18: return {"intersection " + crossing, [=](Network& x) {
      auto* i = x.rn->intersection_book()->GetIntersection(maliput::Intersection::Id(crossing));
      if (!i) { sim::Quiet q; return std::string("no intersection"); }
      auto ph = i->Phase();
      auto bs = i->bulb_states();
      auto ds = i->DiscreteValueRuleStates();
      auto rs = i->RuleStates();
      bool in = i->Includes(TrafficLight::Id(light)), in2 = i->Includes(rules::Rule::Id(d)), in3 = i->Includes(rules::RightOfWayRule::Id(w_)), in4 = i->Includes(pt, x.rg());
      sim::Quiet q;
      std::map<std::string, std::string> m;
      if (bs) for (auto& e : *bs) m["b" + str(e.first)] = num(static_cast<int>(e.second));
      if (ds) for (auto& e : *ds) m["d" + e.first.string()] = str(e.second);
      if (rs) for (auto& e : *rs) m["r" + e.first.string()] = e.second.string();
      std::string s = str(i) + i->ring_id().string() + result(ph) + num(in) + num(in2) + num(in3) + num(in4) + (bs ? "b" : "-") + (ds ? "d" : "-") + (rs ? "r" : "-");
      for (auto& e : m) s += e.first + "=" + e.second + ";";
      for (auto& z : i->region()) s += str(z);
      return hashed(s);
    }};
    case 19: return {"intersections of " + light + ", " + d + ", " + w_ + ", " + str(pt), [=](Network& x) {
      auto* b = x.rn->intersection_book();
      auto *i = b->FindIntersection(TrafficLight::Id(light)), *j = b->FindIntersection(rules::Rule::Id(d)), *k = b->FindIntersection(rules::RightOfWayRule::Id(w_)), *l = b->FindIntersection(pt);
      auto all = b->GetIntersections();
      sim::Quiet q;
      std::set<std::string> ids;
      for (auto* e : all) ids.insert(e->id().string());
      std::string s = str(i) + "," + str(j) + "," + str(k) + "," + str(l) + " of ";
      for (auto& e : ids) s += e + ",";
      return s;
    }};
    case 20: return {"groups related to " + d, [=](Network& x) {
      auto rule = x.rn->rulebook()->GetDiscreteValueRule(rules::Rule::Id(d));
      auto y = maliput::GetYieldGroup(rule.states()[0]);
      auto z = maliput::GetCurrentYieldGroup(rule, x.rn->discrete_value_rule_state_provider());
      sim::Quiet q;
      return str(y) + "/" + str(z);
    }};
    case 21: {
      utility::GenerateStringOptions o;
      o.include_type_labels = sim::flip(1, 2);
      o.include_road_geometry_id = sim::flip(1, 2);
      o.include_junction_ids = sim::flip(1, 2);
      o.include_segment_ids = sim::flip(1, 2);
      o.include_lane_ids = sim::flip(3, 4);
      o.include_lane_details = sim::flip(1, 2);
      return {"text of the geometry", [=](Network& x) { auto y = utility::GenerateString(*x.rg(), o); sim::Quiet q; return hashed(y); }};
    }
    case 22: return {"graph drawing", [=](Network& x) {
      auto g = routing::graph::BuildGraph(x.rg());
      std::ostringstream os;
      utility::GenerateDotStream(g, &os);
      whole(os);
      std::string s = os.str();
      sim::Quiet q;
      return hashed(s);
    }};
    case 23: {
      auto f = random_features(p);
      if (theme) f.off_grid_mesh_generation = false;  // asked many times
      static const utility::MaterialType ms[] = {utility::MaterialType::Asphalt, utility::MaterialType::Lane, utility::MaterialType::Marker, utility::MaterialType::HBounds,
                                                 utility::MaterialType::GrayedAsphalt, utility::MaterialType::GrayedLane, utility::MaterialType::GrayedMarker};
      auto m = ms[sim::choose(7)];
      std::string lane = p.net.lane_name(a.seg, a.lane);
      return {"mesh " + num(static_cast<int>(m)) + " of " + lane, [=](Network& x) { return mesh_digest(utility::BuildMesh(x.rg(), f, api::LaneId(lane), m)); }};
    }
    case 24: {
      auto f = random_features(p);
      if (theme) f.off_grid_mesh_generation = false;  // asked many times
      if (sim::flip(1, 2))
        return {"meshes", [=](Network& x) {
          auto m = utility::BuildMeshes(x.rg(), f);
          std::string s;
          for (auto& e : m) { std::string t = mesh_digest(e.second); sim::Quiet q; s += e.first + t; }
          sim::Quiet q;
          return hashed(s);
        }};
      std::string sg = p.net.segs[a.seg].name;
      return {"asphalt of " + sg, [=](Network& x) { return mesh_digest(utility::BuildMesh(x.rg(), f, api::SegmentId(sg), utility::MaterialType::Asphalt)); }};
    }
    case 25: {
      static const char* mats[] = {"bland_asphalt", "lane_haze", "marker_paint", "branch_point_glow", "h_bounds_haze", "no such material"};
      std::string m = mats[sim::choose(6)];
      return {"material " + m, [=](Network&) { const auto& y = utility::GetMaterialByName(m); sim::Quiet q; return y.name + dbl(y.shininess) + dbl(y.transparency) + str(y.diffuse); }};
    }
    case 26: {
      // Either some of the conditions or just one, so that a network that breaks another does not hide it.
      api::RoadNetworkValidatorOptions o;
      bool* all[] = {&o.check_direction_usage_rule_coverage, &o.check_road_geometry_invariants, &o.check_road_geometry_hierarchy, &o.check_related_bulb_groups, &o.check_contiguity_rule_zones,
                     &o.check_phase_discrete_value_rule_states, &o.check_phase_bulb_states, &o.check_related_rules};
      int one = sim::choose(10), bits = 0;
      for (int i = 0; i < 8; ++i) { *all[i] = one < 8 ? i == one : one == 8 ? i != 0 && i != 3 && i != 5 && i != 7 : sim::flip(1, 2); bits |= *all[i] << i; }
      return {"validity of the network, conditions " + num(bits), [=](Network& x) {
        api::ValidateRoadNetwork(*x.rn, o);
        sim::Quiet q;
        return std::string("valid");
      }};
    }
    default: {
      int n = sim::choose(1000);
      return {"logging and naming", [=](Network& x) {
        maliput::log()->debug("a debug message ", n);
        std::ostringstream os;
        os << rules::Rule::Id(d) << x.lanes[a.seg][a.lane]->id();
        whole(os);
        auto m1 = rules::BulbColorMapper();
        auto m2 = rules::BulbTypeMapper();
        auto m3 = rules::BulbStateMapper();
        auto m4 = rules::DirectionUsageRule::StateTypeMapper();
        sim::Quiet q;
        return os.str() + num(m1.size() + m2.size() + m3.size() + m4.size());
      }};
    }
  }
}

}  // namespace w
