// Configuration files: random plans of what is in them, their text, and books built from the plans without them.
#pragma once
#include "maliput/base/intersection.h"
#include "maliput/base/intersection_book.h"
#include "maliput/base/intersection_book_loader.h"
#include "maliput/base/manual_phase_provider.h"
#include "maliput/base/manual_phase_ring_book.h"
#include "maliput/base/manual_rulebook.h"
#include "maliput/base/phase_ring_book_loader.h"
#include "maliput/base/road_rulebook_loader.h"
#include "maliput/base/rule_registry.h"
#include "maliput/base/rule_registry_loader.h"
#include "maliput/base/traffic_light_book.h"
#include "maliput/base/traffic_light_book_loader.h"
#include "maliput/api/intersection_book.h"
#include "maliput/api/rules/rule_registry.h"
#include "w/geo.h"
#include "w/yaml.h"

namespace docs {

using namespace w;
using rules::Bulb;
using rules::BulbGroup;
using rules::BulbState;
using rules::DiscreteValueRule;
using rules::DirectionUsageRule;
using rules::Phase;
using rules::PhaseRing;
using rules::RangeValueRule;
using rules::RightOfWayRule;
using rules::Rule;
using rules::TrafficLight;
using maliput::math::Quaternion;
using maliput::math::Vector3;

enum Kind { kRegistry, kRulebook, kOldRulebook, kRings, kOldRings, kLights, kIntersections, kKinds };
const char* const kKindName[] = {"rule registry", "rulebook", "rulebook (old rules)", "phase rings", "phase rings (old rules)", "traffic lights", "intersections"};

// ---- digests (quiet) ----
std::string state_str(Rule::State s) {
  for (auto& g : s.related_unique_ids) std::sort(g.second.begin(), g.second.end(), [](const UniqueId& a, const UniqueId& b) { return a.string() < b.string(); });
  return str(s);
}
std::string rule_str(const DiscreteValueRule& r) {
  std::string s = "discrete " + str(static_cast<const Rule&>(r));
  for (const auto& v : r.states()) s += ";" + v.value + state_str(v);
  return s;
}
std::string digest(const rules::RuleRegistry& r) {
  std::string s;
  for (const auto& e : r.DiscreteValueRuleTypes()) { s += e.first.string() + "="; for (const auto& v : e.second) s += v.value + state_str(v) + ";"; s += "\n"; }
  for (const auto& e : r.RangeValueRuleTypes()) { s += e.first.string() + "="; for (const auto& v : e.second) s += str(v) + ";"; s += "\n"; }
  return s;
}
std::string digest(const rules::RoadRulebook::QueryResults& r) {
  return sorted(r.right_of_way, [](const RightOfWayRule& x) { return str(x); }) + "\n" + sorted(r.speed_limit, [](const rules::SpeedLimitRule& x) { return str(x); }) + "\n" +
         sorted(r.direction_usage, [](const DirectionUsageRule& x) { return str(x); }) + "\n" + sorted(r.discrete_value_rules, [](const DiscreteValueRule& x) { return rule_str(x); }) +
         "\n" + sorted(r.range_value_rules, [](const RangeValueRule& x) { return str(x); });
}
std::string digest(const rules::RoadRulebook& b, const std::vector<LaneId>& lanes) {
  std::string s = digest(b.Rules());
  for (const auto& l : lanes) s += "\nat " + l.string() + ": " + num(hash_of(digest(b.FindRules({LaneSRange(l, SRange(1., 2.))}, 0.)))); 
  return s;
}
std::string digest(const rules::TrafficLightBook& b) {
  std::map<std::string, std::string> out;
  for (const TrafficLight* t : b.TrafficLights()) {
    std::string s = str(t->position_road_network()) + str(t->orientation_road_network());
    for (const auto* g : t->bulb_groups()) {
      s += "\n  " + g->id().string() + str(g->position_traffic_light()) + str(g->orientation_traffic_light());
      for (const auto* x : g->bulbs()) {
        s += "\n    " + x->unique_id().string() + str(x->position_bulb_group()) + str(x->orientation_bulb_group()) + num(static_cast<int>(x->color())) +
             num(static_cast<int>(x->type())) + (x->arrow_orientation_rad() ? dbl(*x->arrow_orientation_rad()) : std::string("-")) + str(x->bounding_box().p_BMin) +
             str(x->bounding_box().p_BMax);
        for (auto y : x->states()) s += num(static_cast<int>(y));
      }
    }
    out[t->id().string()] += s;
  }
  std::string s;
  for (const auto& e : out) s += e.first + " " + e.second + "\n";
  return s;
}
std::string ring_str(const PhaseRing& r) {
  std::string s = "ring " + r.id().string();
  std::map<std::string, std::string> out;
  for (const auto& e : r.phases()) {
    const Phase& p = e.second;
    std::string t = sorted(p.rule_states(), [](const RightOfWayRule::State::Id& i) { return i.string(); });
    t += sorted(p.discrete_value_rule_states(), [](const DiscreteValueRule::DiscreteValue& v) { return v.value + state_str(v); });
    if (p.bulb_states()) {
      std::map<std::string, int> b;
      for (const auto& kv : *p.bulb_states()) b[str(kv.first)] = static_cast<int>(kv.second);
      for (const auto& kv : b) t += kv.first + "=" + num(kv.second) + ";";
    } else t += "(no bulbs)";
    t += " next ";
    auto n = r.next_phases().find(e.first);
    if (n == r.next_phases().end()) t += "?";
    else for (const auto& x : n->second) t += x.id.string() + (x.duration_until ? "@" + dbl(*x.duration_until) : std::string()) + ",";
    out[e.first.string()] = t;
  }
  for (const auto& e : out) s += "\n  " + e.first + " " + e.second;
  return s;
}
std::string digest(const rules::PhaseRingBook& b, const std::vector<std::string>& rule_names) {
  std::map<std::string, std::string> out;
  for (const auto& id : b.GetPhaseRings()) { auto r = b.GetPhaseRing(id); out[id.string()] += r ? ring_str(*r) : std::string("nothing"); }
  std::string s;
  for (const auto& e : out) s += e.second + "\n";
  for (const auto& n : rule_names) {
    auto x = b.FindPhaseRing(Rule::Id(n));
    auto y = b.FindPhaseRing(RightOfWayRule::Id(n));
    s += n + " is in " + (x ? x->id().string() : "-") + "," + (y ? y->id().string() : "-") + "\n";
  }
  return s;
}
std::string digest(maliput::api::IntersectionBook& b, const maliput::ManualPhaseProvider& provider, const std::vector<std::string>& rings) {
  auto phase = [](const std::optional<rules::PhaseProvider::Result>& r) {
    if (!r) return std::string("no phase");
    std::string s = r->state.string();
    if (r->next) s += " next " + r->next->state.string() + (r->next->duration_until ? "@" + dbl(*r->next->duration_until) : std::string());
    return s;
  };
  std::map<std::string, std::string> out;
  for (auto* i : b.GetIntersections()) {
    std::vector<std::string> region;
    for (const auto& x : i->region()) region.push_back(str(x));
    std::sort(region.begin(), region.end());
    std::string s = "ring " + i->ring_id().string() + " " + phase(i->Phase()) + " region ";
    for (const auto& x : region) s += x;
    if (b.GetIntersection(i->id()) != i) s += " not found by its id";
    out[i->id().string()] += s;
  }
  std::string s;
  for (const auto& e : out) s += e.first + ": " + e.second + "\n";
  for (const auto& r : rings) s += "ring " + r + " is in " + phase(provider.GetPhase(PhaseRing::Id(r))) + "\n";
  return s;
}

// ---- plans ----
const std::vector<std::string>& ids() {
  static const std::vector<std::string> v = {"a",     "it's: a #strange \"name\"", "a name that is long enough to need memory of its own", "1e5",
                                             "null",  "{braces}, [brackets]",      "back\\slash",                                         "last one"};
  return v;
}
double number() { static const double d[] = {0., 1., -2.5, .1, 1e-3, 12345.678, 3.}; return d[sim::choose(7)]; }

struct BulbSpec {
  std::string id;
  Vector3 pos;
  Quaternion rot;
  int color, type;
  double arrow;
  std::vector<BulbState> states;  // empty: not given
  bool box;
  Vector3 min, max;
};
struct GroupSpec { std::string id; Vector3 pos; Quaternion rot; std::vector<BulbSpec> bulbs; };
struct LightSpec { std::string id; Vector3 pos; Quaternion rot; std::vector<GroupSpec> groups; };

Quaternion random_rot() {
  double w_ = 1 + sim::choose(3), x = sim::choose(2), y = sim::choose(2), z = sim::choose(3);
  return Quaternion(w_ * .25, x * .5, y * -.5, z * .5);
}
Vector3 random_vec() { double a = number(), b = number(), c = number(); return Vector3(a, b, c); }
Rotation rotation(const Quaternion& q) { Rotation r; r.set_quat(q); return r; }
InertialPosition position(const Vector3& v) { return InertialPosition(v.x(), v.y(), v.z()); }
std::vector<std::string> some_ids(int at_least, int at_most) {
  std::vector<std::string> all = ids(), v;
  int n = at_least + static_cast<int>(sim::choose(at_most - at_least + 1));
  for (int i = 0; i < n; ++i) { size_t j = sim::choose(all.size()); v.push_back(all[j]); all.erase(all.begin() + j); }
  return v;
}

std::vector<LightSpec> random_lights() {
  std::vector<LightSpec> out;
  for (const auto& id : some_ids(0, 3)) {
    LightSpec l{id, random_vec(), random_rot(), {}};
    for (const auto& g : some_ids(1, 2)) {
      GroupSpec gs{g, random_vec(), random_rot(), {}};
      for (const auto& b : some_ids(1, 3)) {
        BulbSpec s{b, random_vec(), random_rot(), static_cast<int>(sim::choose(3)), static_cast<int>(sim::choose(2)), number(), {}, sim::flip(1, 2), random_vec(), random_vec()};
        if (sim::flip(1, 2)) {
          for (int i = 0; i < 3; ++i) if (sim::flip(1, 2)) s.states.push_back(static_cast<BulbState>(i));
          if (s.states.size() > 1 && sim::flip(1, 2)) std::swap(s.states[0], s.states[1]);
        }
        gs.bulbs.push_back(s);
      }
      l.groups.push_back(gs);
    }
    out.push_back(l);
  }
  return out;
}
std::unique_ptr<maliput::TrafficLightBook> make_lights(const std::vector<LightSpec>& v) {
  auto book = std::make_unique<maliput::TrafficLightBook>();
  for (const auto& l : v) {
    std::vector<std::unique_ptr<BulbGroup>> groups;
    for (const auto& g : l.groups) {
      std::vector<std::unique_ptr<Bulb>> bulbs;
      for (const auto& b : g.bulbs) {
        std::vector<BulbState> st = b.states.empty() ? std::vector<BulbState>{BulbState::kOn, BulbState::kOff} : b.states;
        Bulb::BoundingBox box;
        if (b.box) { box.p_BMin = b.min; box.p_BMax = b.max; }
        bulbs.push_back(std::make_unique<Bulb>(Bulb::Id(b.id), position(b.pos), rotation(b.rot), static_cast<rules::BulbColor>(b.color), static_cast<rules::BulbType>(b.type),
                                               b.type ? std::optional<double>(b.arrow) : std::nullopt, st, box));
      }
      groups.push_back(std::make_unique<BulbGroup>(BulbGroup::Id(g.id), position(g.pos), rotation(g.rot), std::move(bulbs)));
    }
    book->AddTrafficLight(std::make_unique<TrafficLight>(TrafficLight::Id(l.id), position(l.pos), rotation(l.rot), std::move(groups)));
  }
  return book;
}
Y vec_y(const Vector3& v, Mistake* m) {
  Y y = Y::List({Y(v.x()), Y(v.y()), Y(v.z())});
  if (m->here("position of two numbers")) y.list.pop_back();
  if (m->here("position that is no number")) y.list[1] = Y("far away");
  return y;
}
Y rot_y(const Quaternion& q, Mistake* m) {
  Y y = Y::List({Y(q.w()), Y(q.x()), Y(q.y()), Y(q.z())});
  if (m->here("orientation of three numbers")) y.list.pop_back();
  return y;
}
Y pose_y(const char* frame, const Vector3& v, const Quaternion& q, Mistake* m) {
  Y y = Y::Map();
  m->req(&y, std::string("position_") + frame, vec_y(v, m));
  m->req(&y, std::string("orientation_") + frame, rot_y(q, m));
  return y;
}
Y lights_y(const std::vector<LightSpec>& v, Mistake* m) {
  static const char* colors[] = {"Red", "Yellow", "Green"};
  static const char* types[] = {"Round", "Arrow"};
  static const char* states[] = {"Off", "On", "Blinking"};
  Y all = Y::List();
  for (const auto& l : v) {
    Y ly = Y::Map();
    m->req(&ly, "ID", Y(l.id));
    m->req(&ly, "Pose", pose_y("road_network", l.pos, l.rot, m));
    Y gl = Y::List();
    for (const auto& g : l.groups) {
      Y gy = Y::Map();
      m->req(&gy, "ID", Y(g.id));
      m->req(&gy, "Pose", pose_y("traffic_light", g.pos, g.rot, m));
      Y bl = Y::List();
      for (const auto& b : g.bulbs) {
        Y by = Y::Map();
        m->req(&by, "ID", Y(b.id));
        m->req(&by, "Pose", pose_y("bulb_group", b.pos, b.rot, m));
        if (b.box) {
          Y box = Y::Map();
          m->req(&box, "min", Y::List({Y(b.min.x()), Y(b.min.y()), Y(b.min.z())}));
          m->req(&box, "max", Y::List({Y(b.max.x()), Y(b.max.y()), Y(b.max.z())}));
          by.put("BoundingBox", box);
        }
        m->req(&by, "Color", m->here("unknown colour") ? Y("Mauve") : Y(colors[b.color]));
        m->req(&by, "Type", m->here("unknown bulb type") ? Y("Square") : Y(types[b.type]));
        if (b.type == 1) m->req(&by, "ArrowOrientation", m->here("orientation that is no number") ? Y("left") : Y(b.arrow));
        if (!b.states.empty()) {
          Y st = Y::List();
          for (auto s : b.states) st.add(m->here("unknown bulb state") ? Y("Dim") : Y(states[static_cast<int>(s)]));
          by.put("States", st);
        }
        bl.add(by);
        if (m->here("bulb twice")) bl.add(by);
      }
      if (m->here("group without bulbs")) bl.list.clear();
      m->req(&gy, "Bulbs", bl);
      gl.add(gy);
      if (m->here("bulb group twice")) gl.add(gy);
    }
    m->req(&ly, "BulbGroups", gl);
    all.add(ly);
    if (m->here("traffic light twice")) all.add(ly);
  }
  Y root = Y::Map();
  if (sim::flip(1, 4)) root.put("Another section", Y("of no interest"));
  m->req(&root, "TrafficLights", all);
  return root;
}

struct TypeSpec {
  std::string name;
  std::vector<DiscreteValueRule::DiscreteValue> values;
  std::vector<RangeValueRule::Range> ranges;
  std::vector<bool> severity_given;
};
std::vector<TypeSpec> random_types() {
  std::vector<TypeSpec> out;
  for (const auto& id : some_ids(0, 4)) {
    TypeSpec t;
    t.name = id;
    bool discrete = sim::flip(3, 5);
    for (int i = 0, n = 1 + sim::choose(4); i < n; ++i) {
      Rule::State s;
      bool given = sim::flip(2, 3);
      s.severity = given ? sim::choose(3) : Rule::State::kStrict;
      for (const auto& k : some_ids(0, 2)) if (sim::flip(1, 3)) s.related_rules[k];
      for (const auto& k : some_ids(0, 2)) if (sim::flip(1, 3)) s.related_unique_ids[k];
      double lo = number();
      if (discrete) t.values.push_back({s.severity, s.related_rules, s.related_unique_ids, ids()[i]});
      else t.ranges.push_back({s.severity, s.related_rules, s.related_unique_ids, ids()[7 - i], lo, lo + sim::choose(4)});
      t.severity_given.push_back(given);
    }
    out.push_back(t);
  }
  return out;
}
std::unique_ptr<rules::RuleRegistry> make_registry(const std::vector<TypeSpec>& v) {
  auto r = std::make_unique<rules::RuleRegistry>();
  for (const auto& t : v) {
    if (!t.values.empty()) r->RegisterDiscreteValueRule(Rule::TypeId(t.name), t.values);
    else r->RegisterRangeValueRule(Rule::TypeId(t.name), t.ranges);
  }
  return r;
}
Y severity_y(int s, Mistake* m) {
  if (m->here("negative severity")) return Y(-1);
  if (m->here("severity that is no number")) return Y("severe");
  return Y(s);
}
Y range_y(double lo, double hi, Mistake* m) {
  if (m->here("upside-down range")) return Y::List({Y(hi + 1.), Y(lo)});
  if (m->here("range of one number")) return Y::List({Y(lo)});
  if (m->here("range of three numbers")) return Y::List({Y(lo), Y(hi), Y(hi)});
  if (m->here("range that is no list")) return Y(lo);
  return Y::List({Y(lo), Y(hi)});
}
Y keys_y(const std::map<std::string, std::vector<Rule::Id>>& m) { Y y = Y::List(); for (const auto& e : m) y.add(Y(e.first)); return y; }
Y keys_y(const std::map<std::string, std::vector<UniqueId>>& m) { Y y = Y::List(); for (const auto& e : m) y.add(Y(e.first)); return y; }
Y registry_y(const std::vector<TypeSpec>& v, Mistake* m) {
  Y all = Y::Map();
  for (const auto& t : v) {
    Y l = Y::List();
    for (size_t i = 0; i < t.severity_given.size(); ++i) {
      Y e = Y::Map();
      const Rule::State& s = t.values.empty() ? static_cast<const Rule::State&>(t.ranges[i]) : t.values[i];
      if (!t.values.empty()) m->req(&e, "value", Y(t.values[i].value));
      else {
        m->req(&e, "range", range_y(t.ranges[i].min, t.ranges[i].max, m));
        m->req(&e, "description", Y(t.ranges[i].description));
      }
      if (t.severity_given[i]) e.put("severity", severity_y(s.severity, m));
      if (!s.related_rules.empty() || sim::flip(1, 3)) e.put("related_rules", m->here("related rules that are no list") ? Y("x") : keys_y(s.related_rules));
      if (!s.related_unique_ids.empty() || sim::flip(1, 3)) e.put("related_unique_ids", keys_y(s.related_unique_ids));
      if (sim::flip(1, 3)) std::reverse(e.map.begin(), e.map.end());
      l.add(e);
      if (m->here("state twice")) l.add(e);
    }
    if (m->here("type without states")) l.list.clear();
    if (m->here("values and ranges together")) {
      if (t.values.empty()) l.add(Y::Map({{"value", Y("out of place")}}));
      else l.add(Y::Map({{"range", Y::List({Y(1.), Y(2.)})}, {"description", Y("out of place")}}));
    }
    all.put(t.name, l);
    if (m->here("type twice")) all.put(t.name, l);
  }
  Y root = Y::Map();
  m->req(&root, "RuleRegistry", all);
  return root;
}

struct Lanes {
  std::vector<LaneId> ids;
  std::vector<double> lengths;
};
struct ZonePart { LaneSRange range; bool whole; int lane; };
ZonePart random_part(const Lanes& l) {
  int i = sim::choose(l.ids.size());
  if (sim::flip(1, 3)) return {LaneSRange(l.ids[i], SRange(0., l.lengths[i])), true, i};
  double a = .5 * sim::choose(4), b = a + .5 * sim::choose(4);
  return {LaneSRange(l.ids[i], sim::flip(1, 5) ? SRange(b, a) : SRange(a, b)), false, i};
}
std::vector<ZonePart> random_zone(const Lanes& l) {
  std::vector<ZonePart> v;
  for (int i = 0, n = 1 + sim::choose(3); i < n; ++i) v.push_back(random_part(l));
  return v;
}
LaneSRoute route(const std::vector<ZonePart>& z) {
  std::vector<LaneSRange> v;
  for (const auto& p : z) v.push_back(p.range);
  return LaneSRoute(v);
}
Y part_y(const ZonePart& p, const char* lane_key, const char* range_key, const Lanes& lanes, Mistake* m) {
  Y y = Y::Map();
  m->req(&y, lane_key, m->here("unknown lane") ? Y("no such lane") : Y(p.range.lane_id().string()));
  if (!p.whole) {
    double a = p.range.s_range().s0(), b = p.range.s_range().s1();
    if (m->here("range beyond the end of the lane")) b = lanes.lengths[p.lane] + 1.;
    if (m->here("range before the start of the lane")) a = -1.;
    Y r = Y::List({Y(a), Y(b)});
    if (m->here("range of three numbers")) r.add(Y(1.));
    y.put(range_key, r);
  }
  return y;
}
Y zone_y(const std::vector<ZonePart>& z, const char* lane_key, const char* range_key, const Lanes& lanes, Mistake* m) {
  Y y = Y::List();
  for (const auto& p : z) y.add(part_y(p, lane_key, range_key, lanes, m));
  if (m->here("zone that is no list")) return Y::Map({{lane_key, Y(z[0].range.lane_id().string())}});
  return y;
}

struct RuleSpec {
  std::string id, type;
  std::vector<ZonePart> zone;
  std::vector<DiscreteValueRule::DiscreteValue> values;
  std::vector<RangeValueRule::Range> ranges;
};
std::vector<RuleSpec> random_rules(const std::vector<TypeSpec>& types, const Lanes& lanes) {
  std::vector<RuleSpec> out;
  if (types.empty()) return out;
  for (const auto& id : some_ids(0, 6)) {
    const TypeSpec& t = types[sim::choose(types.size())];
    RuleSpec r;
    r.id = id;
    r.type = t.name;
    r.zone = random_zone(lanes);
    size_t n = t.severity_given.size();
    for (size_t i = 0; i < n; ++i) {
      if (i + 1 < n && sim::flip(1, 3)) continue;
      Rule::State s;
      s.severity = t.values.empty() ? t.ranges[i].severity : t.values[i].severity;
      for (const auto& k : some_ids(0, 2)) for (const auto& x : some_ids(1, 3)) s.related_rules[k].push_back(Rule::Id(x));
      for (const auto& k : some_ids(0, 2)) for (const auto& x : some_ids(1, 2)) s.related_unique_ids[k].push_back(UniqueId(x));
      if (t.values.empty()) r.ranges.push_back({s.severity, s.related_rules, s.related_unique_ids, t.ranges[i].description, t.ranges[i].min, t.ranges[i].max});
      else r.values.push_back({s.severity, s.related_rules, s.related_unique_ids, t.values[i].value});
    }
    out.push_back(r);
  }
  return out;
}
std::unique_ptr<maliput::ManualRulebook> make_rulebook(const std::vector<RuleSpec>& v) {
  auto b = std::make_unique<maliput::ManualRulebook>();
  for (const auto& r : v) {
    if (r.ranges.empty()) b->AddRule(DiscreteValueRule(Rule::Id(r.id), Rule::TypeId(r.type), route(r.zone), r.values));
    else b->AddRule(RangeValueRule(Rule::Id(r.id), Rule::TypeId(r.type), route(r.zone), r.ranges));
  }
  return b;
}
template <class M>
Y related_y(const M& m, Mistake* mk) {
  Y y = Y::List();
  Y together = Y::Map();
  bool split = sim::flip(1, 2);
  for (const auto& e : m) {
    Y l = Y::Ids(e.second);
    if (mk->here("related id twice") && !l.list.empty()) l.add(l.list[0]);
    if (split) y.add(Y::Map({{e.first, l}}));
    else together.put(e.first, l);
  }
  if (!split && !together.map.empty()) y.add(together);
  return y;
}
Y rulebook_y(const std::vector<RuleSpec>& v, const Lanes& lanes, Mistake* m) {
  Y all = Y::List();
  for (const auto& r : v) {
    Y y = Y::Map();
    m->req(&y, "id", Y(r.id));
    m->req(&y, "type", m->here("unknown type") ? Y("no such type") : Y(r.type));
    m->req(&y, "zone", zone_y(r.zone, "lane_id", "s_range", lanes, m));
    Y l = Y::List();
    for (size_t i = 0; i < std::max(r.values.size(), r.ranges.size()); ++i) {
      const Rule::State& s = r.ranges.empty() ? static_cast<const Rule::State&>(r.values[i]) : r.ranges[i];
      Y e = Y::Map();
      if (r.ranges.empty()) m->req(&e, "value", m->here("unknown value") ? Y("no such value") : Y(r.values[i].value));
      else {
        m->req(&e, "range", m->here("unknown range") ? Y::List({Y(77.), Y(78.)}) : range_y(r.ranges[i].min, r.ranges[i].max, m));
        m->req(&e, "description", m->here("unknown description") ? Y("no such description") : Y(r.ranges[i].description));
      }
      if (s.severity != Rule::State::kStrict || sim::flip(1, 2)) e.put("severity", m->here("unknown severity") ? Y(7) : severity_y(s.severity, m));
      m->req(&e, "related_rules", related_y(s.related_rules, m));
      m->req(&e, "related_unique_ids", related_y(s.related_unique_ids, m));
      if (m->here("unknown attribute")) e.put("colour", Y("blue"));
      l.add(e);
      if (m->here("state twice")) l.add(e);
    }
    if (m->here("rule without states")) l.list.clear();
    m->req(&y, r.ranges.empty() ? "values" : "ranges", l);
    if (sim::flip(1, 3)) std::swap(y.map[0], y.map.back());
    all.add(y);
    if (m->here("rule twice")) all.add(y);
  }
  Y root = Y::Map();
  m->req(&root, "RoadRulebook", m->here("rules that are no list") ? Y::Map({{"rules", all}}) : all);
  return root;
}

struct RowSpec {
  std::string id;
  std::vector<ZonePart> zone;
  int zone_type;  // 0: not given
  std::vector<std::pair<int, std::vector<std::string>>> states;
  std::vector<std::pair<std::string, std::vector<std::string>>> groups;
};
struct UsageSpec { std::string id; ZonePart zone{LaneSRange(LaneId("x"), SRange(0, 1)), true, 0}; std::vector<std::pair<std::string, std::pair<int, int>>> states; };
const char* const kRow[] = {"Go", "Stop", "StopThenGo"};
RightOfWayRule::State::Type row_type(int i) {
  static const RightOfWayRule::State::Type t[] = {RightOfWayRule::State::Type::kGo, RightOfWayRule::State::Type::kStop, RightOfWayRule::State::Type::kStopThenGo};
  return t[i];
}
std::vector<RowSpec> random_rows(const Lanes& lanes) {
  std::vector<RowSpec> out;
  for (const auto& id : some_ids(0, 4)) {
    RowSpec r;
    r.id = id;
    r.zone = random_zone(lanes);
    r.zone_type = sim::choose(3);
    for (int i = 0; i < 3; ++i) if (sim::flip(1, 2)) r.states.emplace_back(i, some_ids(0, 2));
    if (r.states.empty()) r.states.emplace_back(sim::choose(3), some_ids(0, 2));
    for (const auto& l : some_ids(0, 2)) r.groups.emplace_back(l, some_ids(1, 2));
    out.push_back(r);
  }
  return out;
}
std::vector<UsageSpec> random_usages(const Lanes& lanes) {
  std::vector<UsageSpec> out;
  for (const auto& id : some_ids(0, 3)) {
    UsageSpec u;
    u.id = id;
    u.zone = random_part(lanes);
    for (const auto& s : some_ids(1, 2)) u.states.push_back({s, {static_cast<int>(sim::choose(6)), static_cast<int>(sim::choose(2))}});
    out.push_back(u);
  }
  return out;
}
RightOfWayRule make_row(const RowSpec& r) {
  std::vector<RightOfWayRule::State> st;
  for (const auto& s : r.states) {
    RightOfWayRule::State::YieldGroup y;
    for (const auto& x : s.second) y.emplace_back(x);
    st.emplace_back(RightOfWayRule::State::Id(kRow[s.first]), row_type(s.first), y);
  }
  RightOfWayRule::RelatedBulbGroups g;
  for (const auto& e : r.groups) for (const auto& x : e.second) g[TrafficLight::Id(e.first)].emplace_back(x);
  return RightOfWayRule(RightOfWayRule::Id(r.id), route(r.zone), r.zone_type == 2 ? RightOfWayRule::ZoneType::kStopAllowed : RightOfWayRule::ZoneType::kStopExcluded, st, g);
}
std::string stop_rule_id(const std::string& id) { return maliput::VehicleStopInZoneBehaviorRuleTypeId().string() + "/" + id; }
std::string row_rule_id(const std::string& id) { return maliput::RightOfWayRuleTypeId().string() + "/" + id; }
DiscreteValueRule::DiscreteValue row_value(const RowSpec& r, size_t i) {
  DiscreteValueRule::DiscreteValue v;
  v.severity = Rule::State::kStrict;
  v.value = kRow[r.states[i].first];
  v.related_rules[maliput::VehicleStopInZoneBehaviorRuleTypeId().string()] = {Rule::Id(stop_rule_id(r.id))};
  auto& y = v.related_rules[maliput::RelatedRulesKeys::kYieldGroup];
  for (const auto& x : r.states[i].second) y.push_back(Rule::Id(row_rule_id(x)));
  auto& g = v.related_unique_ids[maliput::RelatedUniqueIdsKeys::kBulbGroup];
  RightOfWayRule rule = make_row(r);  // the groups in the order in which the rule names them
  for (const auto& e : rule.related_bulb_groups()) for (const auto& x : e.second) g.push_back(rules::UniqueBulbGroupId(e.first, x));
  return v;
}
std::unique_ptr<maliput::ManualRulebook> make_old_rulebook(const std::vector<RowSpec>& rows, const std::vector<UsageSpec>& usages) {
  auto b = std::make_unique<maliput::ManualRulebook>();
  for (const auto& r : rows) {
    b->AddRule(make_row(r));
    b->AddRule(DiscreteValueRule(Rule::Id(stop_rule_id(r.id)), maliput::VehicleStopInZoneBehaviorRuleTypeId(), route(r.zone),
                                 {DiscreteValueRule::DiscreteValue{Rule::State::kStrict, {}, {}, r.zone_type == 2 ? "UnconstrainedParking" : "DoNotStop"}}));
    std::vector<DiscreteValueRule::DiscreteValue> values;
    // In the order in which the rule lists its states.
    const RightOfWayRule rule = make_row(r);
    for (const auto& s : rule.states())
      for (size_t i = 0; i < r.states.size(); ++i) if (s.first.string() == kRow[r.states[i].first]) values.push_back(row_value(r, i));
    b->AddRule(DiscreteValueRule(Rule::Id(row_rule_id(r.id)), maliput::RightOfWayRuleTypeId(), route(r.zone), values));
  }
  for (const auto& u : usages) {
    std::vector<DirectionUsageRule::State> st;
    for (const auto& s : u.states)
      st.emplace_back(DirectionUsageRule::State::Id(s.first), static_cast<DirectionUsageRule::State::Type>(s.second.first), static_cast<DirectionUsageRule::State::Severity>(s.second.second));
    b->AddRule(DirectionUsageRule(DirectionUsageRule::Id(u.id), u.zone.range, st));
  }
  return b;
}
Y old_rulebook_y(const std::vector<RowSpec>& rows, const std::vector<UsageSpec>& usages, const Lanes& lanes, Mistake* m) {
  Y rl = Y::List(), ul = Y::List();
  for (const auto& r : rows) {
    Y y = Y::Map();
    m->req(&y, "ID", Y(r.id));
    m->req(&y, "Zone", zone_y(r.zone, "Lane", "SRange", lanes, m));
    if (r.zone_type) y.put("ZoneType", m->here("unknown zone type") ? Y("StopMaybe") : Y(r.zone_type == 2 ? "StopAllowed" : "StopExcluded"));
    Y st = Y::Map();
    for (const auto& s : r.states) {
      Y l = Y::List();
      for (const auto& x : s.second) l.add(Y(x));
      if (m->here("yield group that is no list")) l = Y("somebody");
      if (m->here("unknown state")) st.put("Wait", l);
      else st.put(kRow[s.first], l);
    }
    if (sim::flip(1, 3)) std::reverse(st.map.begin(), st.map.end());
    if (m->here("rule without states")) st.map.clear();
    m->req(&y, "States", st);
    if (!r.groups.empty()) {
      Y g = Y::Map();
      for (const auto& e : r.groups) {
        Y l = Y::List();
        for (const auto& x : e.second) l.add(Y(x));
        g.put(e.first, l);
        if (m->here("traffic light twice")) g.put(e.first, l);
      }
      y.put("RelatedBulbGroups", m->here("bulb groups that are no map") ? Y("groups") : g);
    }
    rl.add(y);
    if (m->here("rule twice")) rl.add(y);
  }
  auto types = DirectionUsageRule::StateTypeMapper();
  for (const auto& u : usages) {
    Y y = Y::Map();
    m->req(&y, "ID", Y(u.id));
    m->req(&y, "Zone", part_y(u.zone, "Lane", "SRange", lanes, m));
    Y st = Y::List();
    for (const auto& s : u.states) {
      Y e = Y::Map();
      m->req(&e, "ID", Y(s.first));
      m->req(&e, "Severity", m->here("unknown severity") ? Y("Gentle") : Y(static_cast<DirectionUsageRule::State::Severity>(s.second.second) == DirectionUsageRule::State::Severity::kStrict ? "Strict" : "Preferred"));
      m->req(&e, "Type", m->here("unknown direction") ? Y("Sideways") : Y(types.at(static_cast<DirectionUsageRule::State::Type>(s.second.first))));
      st.add(e);
      if (m->here("state twice")) st.add(e);
    }
    if (m->here("rule without states")) st.list.clear();
    m->req(&y, "States", st);
    ul.add(y);
    if (m->here("rule twice")) ul.add(y);
  }
  Y book = Y::Map();
  m->req(&book, "RightOfWayRules", rl);
  m->req(&book, "DirectionUsageRules", ul);
  Y root = Y::Map();
  m->req(&root, "RoadRulebook", book);
  return root;
}

// Rings, over old or new rules.
struct PhaseSpec {
  std::string id;
  std::map<std::string, int> states;                                              // rule -> state given; absent: not given
  std::vector<std::vector<std::vector<std::pair<std::string, int>>>> bulbs;       // by light, by group: the bulbs given
  std::vector<std::pair<std::string, std::optional<double>>> next;
};
struct RingPlan {
  std::string id;
  std::vector<std::string> rules;                                  // the rules named
  std::vector<std::pair<size_t, std::vector<size_t>>> lights;      // lights and groups whose bulbs have states
  bool with_bulbs = false, with_graph = false;
  std::vector<PhaseSpec> phases;
};
const int kNoDefault = 3;  // a value no default is taken from
const char* const kRowValue[] = {"Go", "Stop", "StopThenGo", "Something else"};
// Discrete rules for rings: rule -> values it may take.
struct RingRule { std::string id; std::vector<int> values; std::vector<ZonePart> zone; };

std::vector<RingPlan> random_rings(const std::vector<std::pair<std::string, std::vector<int>>>& rules_, const std::vector<LightSpec>& lights, bool old) {
  std::vector<RingPlan> out;
  std::vector<bool> taken(rules_.size(), false);
  for (const auto& id : some_ids(0, 3)) {
    RingPlan r;
    r.id = id;
    std::vector<size_t> mine;
    for (size_t i = 0; i < rules_.size(); ++i) if (!taken[i] && sim::flip(1, 2)) { taken[i] = true; mine.push_back(i); r.rules.push_back(rules_[i].first); }
    r.with_bulbs = sim::flip(2, 3);
    r.with_graph = sim::flip(2, 3);
    if (r.with_bulbs)
      for (size_t l = 0; l < lights.size(); ++l) {
        std::vector<size_t> g;
        for (size_t k = 0; k < lights[l].groups.size(); ++k) if (sim::flip(2, 3)) g.push_back(k);
        if (!g.empty()) r.lights.emplace_back(l, g);
      }
    bool all_given = sim::flip(1, 2);
    std::vector<std::string> ph = some_ids(1, 4);
    for (const auto& p : ph) {
      PhaseSpec s;
      s.id = p;
      for (size_t i : mine)
        if (old ? sim::flip(1, 2) : all_given) s.states[rules_[i].first] = rules_[i].second[sim::choose(rules_[i].second.size())];
      for (const auto& l : r.lights) {
        s.bulbs.emplace_back();
        for (size_t g : l.second) {
          s.bulbs.back().emplace_back();
          for (const auto& b : lights[l.first].groups[g].bulbs) {
            if (!sim::flip(2, 3)) continue;
            std::vector<BulbState> st = b.states.empty() ? std::vector<BulbState>{BulbState::kOn, BulbState::kOff} : b.states;
            s.bulbs.back().back().emplace_back(b.id, static_cast<int>(st[sim::choose(st.size())]));
          }
        }
      }
      for (uint32_t i = 0, n = sim::choose(3); i < n; ++i) s.next.emplace_back(ph[sim::choose(ph.size())], sim::flip(1, 2) ? std::optional<double>(number() + 3.) : std::nullopt);
      r.phases.push_back(s);
    }
    out.push_back(r);
  }
  return out;
}
int default_value(const std::vector<int>& v) {
  for (int k : {1, 2, 0}) if (std::find(v.begin(), v.end(), k) != v.end()) return k;
  return -1;
}
BulbState default_bulb(const BulbSpec& b) {
  std::vector<BulbState> st = b.states.empty() ? std::vector<BulbState>{BulbState::kOn, BulbState::kOff} : b.states;
  for (auto s : {BulbState::kOff, BulbState::kBlinking, BulbState::kOn}) if (std::find(st.begin(), st.end(), s) != st.end()) return s;
  return BulbState::kOff;
}
// `value(rule, v)`: the discrete value that rule has for v.
std::unique_ptr<maliput::ManualPhaseRingBook> make_rings(const std::vector<RingPlan>& rings, const std::vector<std::pair<std::string, std::vector<int>>>& rules_,
                                                         const std::vector<LightSpec>& lights, bool old, bool only_old,
                                                         const std::function<DiscreteValueRule::DiscreteValue(const std::string&, int)>& value) {
  auto book = std::make_unique<maliput::ManualPhaseRingBook>();
  for (const auto& r : rings) {
    std::vector<Phase> phases;
    std::unordered_map<Phase::Id, std::vector<PhaseRing::NextPhase>> next;
    for (const auto& p : r.phases) {
      rules::RuleStates rs;
      rules::DiscreteValueRuleStates ds;
      rules::BulbStates bs;
      for (const auto& rule : rules_) {
        if (std::find(r.rules.begin(), r.rules.end(), rule.first) == r.rules.end()) continue;
        auto given = p.states.find(rule.first);
        int v = given == p.states.end() ? default_value(rule.second) : given->second;
        if (old) {
          rs.emplace(RightOfWayRule::Id(rule.first), RightOfWayRule::State::Id(kRowValue[v]));
          if (!only_old) ds.emplace(Rule::Id(row_rule_id(rule.first)), value(rule.first, v));
        } else {
          ds.emplace(Rule::Id(rule.first), value(rule.first, v));
        }
      }
      for (size_t i = 0; i < r.lights.size(); ++i)
        for (size_t k = 0; k < r.lights[i].second.size(); ++k) {
          const GroupSpec& g = lights[r.lights[i].first].groups[r.lights[i].second[k]];
          for (const auto& b : g.bulbs) {
            BulbState st = default_bulb(b);
            for (const auto& e : p.bulbs[i][k]) if (e.first == b.id) st = static_cast<BulbState>(e.second);
            bs[rules::UniqueBulbId(TrafficLight::Id(lights[r.lights[i].first].id), BulbGroup::Id(g.id), Bulb::Id(b.id))] = st;
          }
        }
      phases.emplace_back(Phase::Id(p.id), rs, ds, r.with_bulbs ? std::optional<rules::BulbStates>(bs) : std::nullopt);
      auto& n = next[Phase::Id(p.id)];
      for (const auto& e : p.next) n.push_back({Phase::Id(e.first), e.second});
    }
    if (r.with_graph) book->AddPhaseRing(PhaseRing(PhaseRing::Id(r.id), phases, next));
    else book->AddPhaseRing(PhaseRing(PhaseRing::Id(r.id), phases));
  }
  return book;
}
Y rings_y(const std::vector<RingPlan>& rings, const std::vector<LightSpec>& lights, bool old, const std::vector<std::string>& no_default, Mistake* m) {
  static const char* states[] = {"Off", "On", "Blinking"};
  Y all = Y::List();
  for (size_t ri = 0; ri < rings.size(); ++ri) {
    const RingPlan& r = rings[ri];
    Y y = Y::Map();
    m->req(&y, "ID", Y(r.id));
    Y rl = Y::List();
    for (const auto& x : r.rules) rl.add(Y(x));
    if (m->here("unknown rule")) rl.add(Y("no such rule"));
    if (!no_default.empty() && m->here("rule without any usual state")) rl.add(Y(no_default[0]));
    if (ri && !rings[0].rules.empty() && m->here("rule of another ring")) rl.add(Y(rings[0].rules[0]));
    y.put("Rules", rl);
    Y pl = Y::List();
    for (const auto& p : r.phases) {
      Y py = Y::Map();
      m->req(&py, "ID", Y(p.id));
      Y st = Y::Map();
      for (const auto& e : p.states) st.put(e.first, m->here("unknown value") ? Y("no such value") : Y(kRowValue[e.second]));
      if (m->here("state of a rule that is not named")) st.put("no such rule", Y("Stop"));
      if (m->here("rule states that are no map")) py.put("RightOfWayRuleStates", Y::List({Y("Stop")}));
      else if (old) m->req(&py, "RightOfWayRuleStates", st);
      else if (!st.map.empty() || sim::flip(1, 2)) py.put("RightOfWayRuleStates", st);
      if (r.with_bulbs && !(r.phases.size() > 1 && m->here("phase without its bulb states"))) {
        Y ts = Y::Map();
        for (size_t i = 0; i < r.lights.size(); ++i) {
          const LightSpec& l = lights[r.lights[i].first];
          Y gs = Y::Map();
          for (size_t k = 0; k < r.lights[i].second.size(); ++k) {
            Y bs = Y::Map();
            for (const auto& e : p.bulbs[i][k]) bs.put(m->here("unknown bulb") ? "no such bulb" : e.first, m->here("unknown bulb state") ? Y("Dim") : Y(states[e.second]));
            std::string gid = l.groups[r.lights[i].second[k]].id;
            gs.put(m->here("unknown bulb group") ? "no such group" : gid, bs);
          }
          ts.put(m->here("unknown traffic light") ? "no such light" : l.id, gs);
        }
        py.put("TrafficLightStates", m->here("bulb states that are no map") ? Y::List({Y("On")}) : ts);
      }
      pl.add(py);
      if (m->here("phase twice")) pl.add(py);
    }
    if (m->here("ring without phases")) pl.list.clear();
    m->req(&y, "Phases", pl);
    if (r.with_graph) {
      Y g = Y::Map();
      for (const auto& p : r.phases) {
        Y l = Y::List();
        for (const auto& n : p.next) {
          Y e = Y::Map();
          m->req(&e, "ID", m->here("unknown next phase") ? Y("no such phase") : Y(n.first));
          if (n.second) e.put("duration_until", m->here("duration that is no number") ? Y("soon") : Y(*n.second));
          l.add(e);
        }
        if (m->here("next phases that are no list")) { g.put(p.id, Y("another")); continue; }
        m->req(&g, m->here("unknown phase in the graph") ? "no such phase" : p.id, l);
      }
      y.put("PhaseTransitionGraph", g);
    }
    all.add(y);
    if (m->here("ring twice")) all.add(y);
  }
  Y root = Y::Map();
  m->req(&root, "PhaseRings", all);
  return root;
}

struct CrossingSpec { std::string id; size_t ring, phase; };
Y crossings_y(const std::vector<CrossingSpec>& v, const std::vector<RingPlan>& rings, Mistake* m) {
  Y all = Y::List();
  for (const auto& c : v) {
    Y y = Y::Map();
    m->req(&y, "ID", Y(c.id));
    m->req(&y, "PhaseRing", m->here("unknown ring") ? Y("no such ring") : Y(rings[c.ring].id));
    m->req(&y, "InitialPhase", m->here("unknown phase") ? Y("no such phase") : Y(rings[c.ring].phases[c.phase].id));
    all.add(y);
    if (m->here("intersection twice")) all.add(y);
  }
  Y root = Y::Map();
  if (all.list.empty() && sim::flip(1, 2)) root.put("Nothing", Y("here"));
  else root.put("Intersections", m->here("intersections that are no list") ? Y("many") : all);
  return root;
}

// One document with all it refers to.
struct Doc {
  Kind kind;
  std::unique_ptr<rules::RuleRegistry> registry;
  std::unique_ptr<maliput::ManualRulebook> rulebook;
  std::unique_ptr<maliput::TrafficLightBook> lights;
  std::unique_ptr<maliput::ManualPhaseRingBook> rings;
  std::vector<std::string> rule_names, ring_names;
  std::string text, wrong_text, mistake, want;  // wrong_text: with a mistake in it
};
struct World { Net net; Lanes lanes; };

void two_texts(Doc* d, const std::function<Y(Mistake*)>& make) {
  Mistake none;
  Y y = make(&none);
  d->text = YamlWriter().write(y);
  if (none.seen == 0) return;
  Mistake m;
  m.target = sim::choose(none.seen);
  y = make(&m);
  d->mistake = m.made;
  if (!m.made.empty()) d->wrong_text = YamlWriter().write(y);
}

std::unique_ptr<Doc> random_doc(const World& world) {
  auto d = std::make_unique<Doc>();
  d->kind = static_cast<Kind>(sim::choose(kKinds));
  const Lanes& lanes = world.lanes;
  switch (d->kind) {
    case kRegistry: {
      auto t = random_types();
      d->want = digest(*make_registry(t));
      two_texts(d.get(), [&](Mistake* m) { return registry_y(t, m); });
      break;
    }
    case kRulebook: {
      auto t = random_types();
      d->registry = make_registry(t);
      auto r = random_rules(t, lanes);
      d->want = digest(*make_rulebook(r), lanes.ids);
      two_texts(d.get(), [&](Mistake* m) { return rulebook_y(r, lanes, m); });
      break;
    }
    case kOldRulebook: {
      auto rows = random_rows(lanes);
      auto usages = random_usages(lanes);
      d->want = digest(*make_old_rulebook(rows, usages), lanes.ids);
      two_texts(d.get(), [&](Mistake* m) { return old_rulebook_y(rows, usages, lanes, m); });
      break;
    }
    case kLights: {
      auto l = random_lights();
      d->want = digest(*make_lights(l));
      two_texts(d.get(), [&](Mistake* m) { return lights_y(l, m); });
      break;
    }
    default: {
      bool old = d->kind == kOldRings || (d->kind == kIntersections && sim::flip(1, 2));
      auto lights = random_lights();
      d->lights = make_lights(lights);
      std::vector<std::pair<std::string, std::vector<int>>> ring_rules;
      std::vector<std::string> no_default;
      std::function<DiscreteValueRule::DiscreteValue(const std::string&, int)> value;
      std::vector<RowSpec> rows;
      std::map<std::string, DiscreteValueRule> discretes;
      if (old) {
        rows = random_rows(lanes);
        d->rulebook = make_old_rulebook(rows, {});
        for (const auto& r : rows) {
          std::vector<int> v;
          for (const auto& s : r.states) v.push_back(s.first);
          ring_rules.emplace_back(r.id, v);
        }
        value = [&](const std::string& id, int v) {
          for (const auto& r : rows)
            if (r.id == id)
              for (size_t i = 0; i < r.states.size(); ++i) if (r.states[i].first == v) return row_value(r, i);
          return DiscreteValueRule::DiscreteValue{};
        };
      } else {
        d->rulebook = std::make_unique<maliput::ManualRulebook>();
        for (const auto& id : some_ids(0, 5)) {
          std::vector<int> v;
          for (int k = 0; k < 4; ++k) if (sim::flip(1, 2)) v.push_back(k);
          if (v.empty()) v.push_back(kNoDefault);
          std::vector<DiscreteValueRule::DiscreteValue> values;
          for (int k : v) {
            Rule::State s;
            s.severity = sim::choose(2);
            for (const auto& x : some_ids(0, 2)) s.related_unique_ids["bulb groups"].push_back(UniqueId(x));
            values.push_back({s.severity, s.related_rules, s.related_unique_ids, kRowValue[k]});
          }
          DiscreteValueRule rule(Rule::Id(id), maliput::RightOfWayRuleTypeId(), route(random_zone(lanes)), values);
          d->rulebook->AddRule(rule);
          discretes.emplace(id, rule);
          if (v.size() == 1 && v[0] == kNoDefault) no_default.push_back(id);
          else ring_rules.emplace_back(id, v);
        }
        value = [&](const std::string& id, int v) {
          for (const auto& s : discretes.at(id).states()) if (s.value == kRowValue[v]) return s;
          return DiscreteValueRule::DiscreteValue{};
        };
      }
      auto rings = random_rings(ring_rules, lights, old);
      for (const auto& r : ring_rules) { d->rule_names.push_back(r.first); if (old) d->rule_names.push_back(row_rule_id(r.first)); }
      for (const auto& r : rings) d->ring_names.push_back(r.id);
      // Rings that are not loaded from a file need not carry the new form of the old rules.
      const bool only_old = old && d->kind == kIntersections && sim::flip(1, 2);
      auto book = make_rings(rings, ring_rules, lights, old, only_old, value);
      if (d->kind != kIntersections) {
        d->want = digest(*book, d->rule_names);
        // Without any rule in the rulebook the loader of new rules does not look at the names.
        bool blind = !old && discretes.empty();
        two_texts(d.get(), [&](Mistake* m) { return rings_y(rings, lights, old, no_default, m); });
        if (blind && d->mistake == "unknown rule") d->wrong_text.clear();
        break;
      }
      std::vector<CrossingSpec> cs;
      if (!rings.empty())
        for (const auto& id : some_ids(0, 3)) {
          size_t r = sim::choose(rings.size());
          cs.push_back({id, r, sim::choose(rings[r].phases.size())});
        }
      maliput::ManualPhaseProvider provider;
      maliput::IntersectionBook want(world.net.rg.get());
      for (const auto& c : cs) {
        const PhaseSpec& p = rings[c.ring].phases[c.phase];
        PhaseRing::Id rid(rings[c.ring].id);
        std::optional<Phase::Id> next;
        std::optional<double> until;
        if (rings[c.ring].with_graph && !p.next.empty()) { next = Phase::Id(p.next[0].first); until = p.next[0].second; }
        if (!provider.GetPhase(rid)) provider.AddPhaseRing(rid, Phase::Id(p.id), next, until);
        else provider.SetPhase(rid, Phase::Id(p.id), next, until);
        std::vector<LaneSRange> region;
        for (const auto& n : rings[c.ring].rules) {
          LaneSRoute z = old ? d->rulebook->GetRule(RightOfWayRule::Id(n)).zone() : d->rulebook->GetDiscreteValueRule(Rule::Id(n)).zone();
          for (const auto& x : z.ranges()) region.push_back(x);
        }
        want.AddIntersection(std::make_unique<maliput::Intersection>(maliput::api::Intersection::Id(c.id), region, *book->GetPhaseRing(rid), &provider));
      }
      d->want = digest(want, provider, d->ring_names);
      d->rings = std::move(book);
      two_texts(d.get(), [&](Mistake* m) { return crossings_y(cs, rings, m); });
    }
  }
  return d;
}

// Loads from a file or a string, and says what came out of it. Simulated.
std::string load(const Doc& d, const World& world, bool from_file, const std::string& x) {
  const maliput::api::RoadGeometry* rg = world.net.rg.get();
  switch (d.kind) {
    case kRegistry: {
      auto r = from_file ? maliput::LoadRuleRegistryFromFile(x) : maliput::LoadRuleRegistry(x);
      sim::Quiet q;
      return digest(*r);
    }
    case kRulebook: {
      auto r = from_file ? maliput::LoadRoadRulebookFromFile(rg, x, *d.registry) : maliput::LoadRoadRulebook(rg, x, *d.registry);
      sim::Quiet q;
      return digest(*r, world.lanes.ids);
    }
    case kOldRulebook: {
      auto r = from_file ? maliput::LoadRoadRulebookFromFile(rg, x) : maliput::LoadRoadRulebook(rg, x);
      sim::Quiet q;
      return digest(*r, world.lanes.ids);
    }
    case kRings: {
      auto r = from_file ? maliput::LoadPhaseRingBookFromFile(d.rulebook.get(), d.lights.get(), x) : maliput::LoadPhaseRingBook(d.rulebook.get(), d.lights.get(), x);
      sim::Quiet q;
      return digest(*r, d.rule_names);
    }
    case kOldRings: {
      auto r = from_file ? maliput::LoadPhaseRingBookFromFileOldRules(d.rulebook.get(), d.lights.get(), x) : maliput::LoadPhaseRingBookOldRules(d.rulebook.get(), d.lights.get(), x);
      sim::Quiet q;
      return digest(*r, d.rule_names);
    }
    case kLights: {
      auto r = from_file ? maliput::LoadTrafficLightBookFromFile(x) : maliput::LoadTrafficLightBook(x);
      sim::Quiet q;
      return digest(*r);
    }
    default: {
      maliput::ManualPhaseProvider p;
      auto r = from_file ? maliput::LoadIntersectionBookFromFile(x, *d.rulebook, *d.rings, rg, &p) : maliput::LoadIntersectionBook(x, *d.rulebook, *d.rings, rg, &p);
      sim::Quiet q;
      return digest(*r, p, d.ring_names);
    }
  }
}

std::string difference(const std::string& a, const std::string& b) {
  size_t i = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
  size_t from = i < 60 ? 0 : i - 60;
  return "..." + a.substr(from, 160) + "... instead of ..." + b.substr(from, 160) + "...";
}
}  // namespace docs
