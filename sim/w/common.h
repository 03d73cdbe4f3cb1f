// Things shared by the workloads: fault-injecting attempts, serialised clients, generators and digests of rules.
#pragma once
#include <algorithm>
#include <cstdio>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <utility>
#include <vector>

#include "maliput/api/regions.h"
#include "maliput/api/rules/direction_usage_rule.h"
#include "maliput/api/rules/discrete_value_rule.h"
#include "maliput/api/rules/phase.h"
#include "maliput/api/rules/phase_ring.h"
#include "maliput/api/rules/range_value_rule.h"
#include "maliput/api/rules/right_of_way_rule.h"
#include "maliput/api/rules/speed_limit_rule.h"
#include "maliput/api/rules/traffic_lights.h"
#include "rt.h"

namespace w {

using maliput::api::InertialPosition;
using maliput::api::LaneId;
using maliput::api::LaneSRange;
using maliput::api::LaneSRoute;
using maliput::api::Rotation;
using maliput::api::SRange;
using maliput::api::UniqueId;
namespace rules = maliput::api::rules;

inline std::string num(long x) { return std::to_string(x); }
inline std::string dbl(double x) {
  char b[40];
  std::snprintf(b, sizeof b, "%.17g", x);
  return b;
}

// ---- attempts ----
struct Outcome {
  bool threw = false;
  bool injected = false;  // an allocation was made to fail
  bool out_of_range = false;
  std::string what;
};

template <class F>
Outcome attempt(F f, uint32_t k = 0, bool more = false) {
  Outcome o;
  try {
    sim::AllocFail af(k, more);
    struct Note {
      sim::AllocFail* a;
      bool* f;
      ~Note() { *f = a->fired(); }
    } note{&af, &o.injected};
    f();
  } catch (const std::out_of_range& e) {
    sim::Quiet q;
    o.threw = o.out_of_range = true;
    o.what = e.what();
  } catch (const std::exception& e) {
    sim::Quiet q;
    o.threw = true;
    o.what = e.what();
  } catch (...) {
    sim::Quiet q;
    o.threw = true;
    o.what = "(not a std::exception)";
  }
  return o;
}

// A stream that could not take all its text says so itself.
template <class S>
void whole(const S& os) {
  if (!os) throw std::runtime_error("the stream failed");
}

// Text that only explains something to a reader; C18 does not look inside.
inline std::string diag(const std::string& s) { return "<<<" + s + ">>>"; }

// Whether this run makes allocations fail; decided once per run, so that fault-free histories are explored too.
inline bool& alloc_faults() {
  static bool on = false;
  return on;
}

inline uint32_t random_k() {
  static const uint32_t lim[] = {3, 8, 20, 60};
  return 1 + sim::choose(lim[sim::choose(4)]);
}

// Makes one edit, with allocation failures injected into it when the run has them: not at all, at one random
// allocation, or at each allocation in turn until the edit is made. After every failed attempt `unchanged` must hold.
// Returns whether the edit was made; `expected` says whether it must be accepted.
template <class F, class U>
bool edit(const std::string& name, bool expected, F f, U unchanged) {
  uint32_t mode = alloc_faults() ? sim::choose(6) : 0;  // 0-2 plain, 3-4 one failure, 5 sweep
  bool more = mode >= 3 && sim::flip(1, 3);
  bool retry = mode == 5 || mode < 3 || !sim::flip(1, 4);
  uint32_t k = mode < 3 ? 0 : mode == 5 ? 1 : random_k();
  if (mode == 5) sim::probe("sweep_over_allocations");
  for (;;) {
    { sim::Quiet q; sim::event(name + (k ? " with allocation " + num(k) + " failing" : std::string())); }
    Outcome o = attempt(f, k, more);
    { sim::Quiet q; sim::event(o.threw ? "-> " + o.what : "-> done"); }
    if (o.threw) {
      unchanged();
      if (!o.injected) {
        SIM_CHECK(!expected, "edit-rejected", name + " was rejected: " + o.what);
        sim::probe("rejected_edit");
        return false;
      }
      sim::probe("edit_hit_by_allocation_failure");
      if (!retry) return false;
      k = mode == 5 && k < 300 ? k + 1 : 0;
      continue;
    }
    SIM_CHECK(expected, "edit-accepted", name + " was accepted although it must be rejected");
    return true;
  }
}

// Questions that are asked right before an edit and again as the first thing after it (and after every failed attempt at
// it), so that an answer which was kept from before shows. Some are about what is edited, some were asked long ago.
class Recall {
 public:
  template <class F>
  void keep(F f) {
    sim::Quiet q;
    std::function<void()> g(std::move(f));
    if (kept_.size() < 4) kept_.push_back(std::move(g));
    else kept_[next_++ % 4] = std::move(g);
  }
  template <class F>
  void before(F f) {
    {
      sim::Quiet q;
      uint32_t r = sim::choose(3);
      if (r == 0) pending_ = nullptr;
      else if (r == 1 || kept_.empty()) pending_ = std::move(f);
      else pending_ = kept_[sim::choose(kept_.size())];
    }
    again();
  }
  void again() const { if (pending_) pending_(); }

 private:
  std::vector<std::function<void()>> kept_;
  std::function<void()> pending_;
  size_t next_ = 0;
};

// `n` clients, serialised by a lock as a single-writer object demands; the schedule decides the order of their steps.
inline void clients(int n, int steps, const std::function<void(int client)>& step) {
  if (n <= 1) {
    for (int i = 0; i < steps; ++i) step(0);
    return;
  }
  sim::probe("several_clients");
  std::mutex m;
  std::vector<int> ids;
  for (int c = 0; c < n; ++c) {
    int mine = steps / n + (c < steps % n ? 1 : 0);
    int id = sim::spawn([&m, &step, mine, c] {
      for (int i = 0; i < mine; ++i) {
        if (sim::flip(1, 3)) sim::yield_point();
        if (sim::flip(1, 6)) sim::sleep_ns(1000 + sim::choose(100000));
        std::lock_guard<std::mutex> l(m);
        { sim::Quiet q; sim::event("client " + num(c)); }
        step(c);
      }
    });
    sim::Quiet q;
    ids.push_back(id);
  }
  for (int id : ids) sim::join(id);
}

// ---- names ----
template <class Id>
Id id_of(const std::string& s) { return Id(s); }
inline const std::vector<std::string>& names() {
  static const std::vector<std::string> v = {"a", "b", "name number three is too long for a small string", "d", "e",
                                             "another name that needs memory of its own", "g", "h"};
  return v;
}
inline const std::vector<std::string>& lanes() {
  static const std::vector<std::string> v = {"l1", "l2", "a lane with a long identifier", "l4", "lane without any rule on it"};
  return v;
}

// ---- digests ----
inline std::string str(const SRange& r) { return "[" + dbl(r.s0()) + "," + dbl(r.s1()) + "]"; }
inline std::string str(const LaneSRange& r) { return r.lane_id().string() + str(r.s_range()); }
inline std::string str(const LaneSRoute& r) {
  std::string s;
  for (const LaneSRange& x : r.ranges()) s += str(x) + " ";
  return s;
}
inline std::string str(const rules::Rule::State& st) {
  std::string s = num(st.severity) + "{";
  for (const auto& g : st.related_rules) {
    s += g.first + ":";
    for (const auto& i : g.second) s += i.string() + ",";
  }
  s += "}{";
  for (const auto& g : st.related_unique_ids) {
    s += g.first + ":";
    for (const auto& i : g.second) s += i.string() + ",";
  }
  return s + "}";
}
inline std::string str(const rules::DiscreteValueRule::DiscreteValue& v) { return v.value + str(static_cast<const rules::Rule::State&>(v)); }
inline std::string str(const rules::RangeValueRule::Range& v) {
  return v.description + "<" + dbl(v.min) + "," + dbl(v.max) + ">" + str(static_cast<const rules::Rule::State&>(v));
}
inline std::string str(const rules::Rule& r) { return r.id().string() + " of " + r.type_id().string() + " at " + str(r.zone()); }
inline std::string str(const rules::DiscreteValueRule& r) {
  std::string s = "discrete " + str(static_cast<const rules::Rule&>(r));
  for (const auto& v : r.states()) s += ";" + str(v);
  return s;
}
inline std::string str(const rules::RangeValueRule& r) {
  std::string s = "range " + str(static_cast<const rules::Rule&>(r));
  for (const auto& v : r.states()) s += ";" + str(v);
  return s;
}
inline std::string str(const rules::RightOfWayRule::State& x) {
  std::string s = x.id().string() + "=" + num(static_cast<int>(x.type()));
  for (const auto& y : x.yield_to()) s += "," + y.string();
  return s;
}
template <class M, class F>
std::string sorted(const M& m, F f) {
  std::map<std::string, std::string> out;
  for (const auto& kv : m) out[kv.first.string()] = f(kv.second);
  std::string s;
  for (const auto& kv : out) s += kv.first + "->" + kv.second + "|";
  return s;
}
template <class Id>
std::string str(const std::vector<Id>& v) {
  std::string s;
  for (const auto& x : v) s += x.string() + ",";
  return s;
}
inline std::string str(const rules::RightOfWayRule& r) {
  return "row " + r.id().string() + " at " + str(r.zone()) + " " + num(static_cast<int>(r.zone_type())) + " " +
         sorted(r.states(), [](const rules::RightOfWayRule::State& s) { return str(s); }) + " " +
         sorted(r.related_bulb_groups(), [](const std::vector<rules::BulbGroup::Id>& s) { return str(s); });
}
inline std::string str(const rules::SpeedLimitRule& r) {
  return "speed " + r.id().string() + " at " + str(r.zone()) + " " + num(static_cast<int>(r.severity())) + " " + dbl(r.min()) + " " + dbl(r.max());
}
inline std::string str(const rules::DirectionUsageRule& r) {
  return "usage " + r.id().string() + " at " + str(r.zone()) + " " +
         sorted(r.states(), [](const rules::DirectionUsageRule::State& s) {
           return s.id().string() + "=" + num(static_cast<int>(s.type())) + "," + num(static_cast<int>(s.severity()));
         });
}
inline std::string str(const rules::UniqueBulbId& b) {
  return b.traffic_light_id().string() + "/" + b.bulb_group_id().string() + "/" + b.bulb_id().string();
}
inline std::string str(const rules::Phase& p) {
  std::string s = "phase " + p.id().string() + " ";
  s += sorted(p.rule_states(), [](const rules::RightOfWayRule::State::Id& i) { return i.string(); });
  s += sorted(p.discrete_value_rule_states(), [](const rules::DiscreteValueRule::DiscreteValue& v) { return str(v); });
  if (p.bulb_states().has_value()) {
    std::map<std::string, int> b;
    for (const auto& kv : *p.bulb_states()) b[str(kv.first)] = static_cast<int>(kv.second);
    for (const auto& kv : b) s += kv.first + "=" + num(kv.second) + ";";
  } else {
    s += "(no bulbs)";
  }
  return s;
}
inline std::string str(const rules::PhaseRing& r) {
  std::string s = "ring " + r.id().string() + " {" + sorted(r.phases(), [](const rules::Phase& p) { return str(p); }) + "} {";
  s += sorted(r.next_phases(), [](const std::vector<rules::PhaseRing::NextPhase>& v) {
    std::string t;
    for (const auto& n : v) t += n.id.string() + (n.duration_until.has_value() ? "@" + dbl(*n.duration_until) : std::string()) + ",";
    return t;
  });
  return s + "}";
}

// ---- generators (call them quietly) ----
struct Gen {
  int serial = 0;  // makes payloads differ
  std::string related_prefix;            // of the names of rules that states refer to
  bool similar_values = false;           // whether values of a rule may differ in their severity or relations only
  std::vector<UniqueId> related_things;  // what states refer to; two that do not exist when empty

  SRange s_range() {
    double a = sim::choose(9), b = sim::choose(9);
    return SRange(a, b);
  }
  LaneSRange lane_s_range() { return LaneSRange(LaneId(lanes()[sim::choose(4)]), s_range()); }
  LaneSRoute route() {
    std::vector<LaneSRange> v;
    uint32_t n = sim::choose(5);
    for (uint32_t i = 0; i < (n == 4 && sim::flip(1, 2) ? 0 : 1 + n % 4); ++i) {
      if (!v.empty() && sim::flip(1, 3)) v.emplace_back(v[sim::choose(v.size())].lane_id(), s_range());
      else v.push_back(lane_s_range());
    }
    return LaneSRoute(v);
  }
  rules::Rule::State state() {
    rules::Rule::State s;
    s.severity = sim::choose(3);
    if (sim::flip(1, 3)) s.related_rules["Yield Group"] = {rules::Rule::Id(related_prefix + names()[sim::choose(8)])};
    if (sim::flip(1, 3)) {
      auto& g = s.related_unique_ids["a group of bulbs, related"];
      if (related_things.empty()) g = {UniqueId("u" + num(sim::choose(3))), UniqueId("v")};
      else g = {related_things[sim::choose(related_things.size())]};
    }
    return s;
  }
  rules::DiscreteValueRule::DiscreteValue value(int i) {
    rules::Rule::State s = state();
    return {s.severity, s.related_rules, s.related_unique_ids, "value " + num(i) + (sim::flip(1, 2) ? " with more text than fits" : "")};
  }
  rules::RangeValueRule::Range range(int i) {
    rules::Rule::State s = state();
    double lo = sim::choose(50);
    return {s.severity, s.related_rules, s.related_unique_ids, "range " + num(i), lo, lo + sim::choose(50)};
  }
  std::vector<rules::DiscreteValueRule::DiscreteValue> values() {
    std::vector<rules::DiscreteValueRule::DiscreteValue> v;
    for (uint32_t i = 0, n = 1 + sim::choose(3); i < n; ++i) {
      v.push_back(value(++serial));
      if (!similar_values || i == 0 || !sim::flip(1, 4)) continue;
      v[i] = v[i - 1];
      if (sim::flip(1, 2)) v[i].severity += 10;
      else v[i].related_rules["Yield Group"] = {rules::Rule::Id("yields to " + num(serial))};
      sim::probe("values_that_differ_in_relations_only");
    }
    return v;
  }
  rules::DiscreteValueRule discrete(const std::string& id, const std::string& type, const LaneSRoute& zone) {
    return rules::DiscreteValueRule(rules::Rule::Id(id), rules::Rule::TypeId(type), zone, values());
  }
  rules::RangeValueRule range_rule(const std::string& id, const std::string& type, const LaneSRoute& zone) {
    std::vector<rules::RangeValueRule::Range> v;
    for (uint32_t i = 0, n = 1 + sim::choose(3); i < n; ++i) v.push_back(range(++serial));
    return rules::RangeValueRule(rules::Rule::Id(id), rules::Rule::TypeId(type), zone, v);
  }
  rules::RightOfWayRule right_of_way(const std::string& id, const LaneSRoute& zone) {
    std::vector<rules::RightOfWayRule::State> st;
    for (uint32_t i = 0, n = 1 + sim::choose(3); i < n; ++i) {
      rules::RightOfWayRule::State::YieldGroup y;
      if (sim::flip(1, 3)) y.emplace_back(names()[sim::choose(8)]);
      st.emplace_back(rules::RightOfWayRule::State::Id("state " + num(++serial)), static_cast<rules::RightOfWayRule::State::Type>(sim::choose(3)), y);
    }
    rules::RightOfWayRule::RelatedBulbGroups g;
    if (sim::flip(1, 3)) g[rules::TrafficLight::Id("light")] = {rules::BulbGroup::Id("group")};
    return rules::RightOfWayRule(rules::RightOfWayRule::Id(id), zone, static_cast<rules::RightOfWayRule::ZoneType>(sim::choose(2)), st, g);
  }
  rules::SpeedLimitRule speed(const std::string& id, const LaneSRange& zone) {
    double lo = sim::choose(20);
    return rules::SpeedLimitRule(rules::SpeedLimitRule::Id(id), zone, static_cast<rules::SpeedLimitRule::Severity>(sim::choose(2)), lo, lo + ++serial);
  }
  rules::DirectionUsageRule usage(const std::string& id, const LaneSRange& zone) {
    std::vector<rules::DirectionUsageRule::State> st;
    st.emplace_back(rules::DirectionUsageRule::State::Id("usage " + num(++serial)), static_cast<rules::DirectionUsageRule::State::Type>(sim::choose(7)),
                    static_cast<rules::DirectionUsageRule::State::Severity>(sim::choose(2)));
    return rules::DirectionUsageRule(rules::DirectionUsageRule::Id(id), zone, st);
  }
};

// A ring of `nphases` phases over these rules and bulbs; every phase gives every one of them a state of its own.
struct RingSpec {
  std::string id;
  std::vector<std::string> rows, discretes;
  std::vector<rules::UniqueBulbId> bulbs;
  bool with_bulbs = false;
  int nphases = 1;
  bool with_next = false;
};
inline rules::PhaseRing make_ring(Gen* g, const RingSpec& spec) {
  std::vector<rules::Phase> phases;
  std::unordered_map<rules::Phase::Id, std::vector<rules::PhaseRing::NextPhase>> next;
  for (int p = 0; p < spec.nphases; ++p) {
    rules::RuleStates rs;
    rules::DiscreteValueRuleStates ds;
    rules::BulbStates bs;
    for (const auto& r : spec.rows) rs.emplace(rules::RightOfWayRule::Id(r), rules::RightOfWayRule::State::Id("state " + num(sim::choose(3)) + " of phase " + num(p)));
    for (const auto& r : spec.discretes) ds.emplace(rules::Rule::Id(r), g->value(100 + p));
    for (const auto& b : spec.bulbs) bs.emplace(b, static_cast<rules::BulbState>(sim::choose(3)));
    rules::Phase::Id id(p % 2 ? "phase " + num(p) : "phase with a longer name " + num(p));
    phases.emplace_back(id, rs, ds, spec.with_bulbs ? std::optional<rules::BulbStates>(bs) : std::nullopt);
    next[id];
  }
  if (!spec.with_next) return rules::PhaseRing(rules::PhaseRing::Id(spec.id), phases);
  for (auto& kv : next)
    for (uint32_t i = 0, n = sim::choose(3); i < n; ++i)
      kv.second.push_back({phases[sim::choose(phases.size())].id(), sim::flip(1, 2) ? std::optional<double>(1. + sim::choose(20)) : std::nullopt});
  return rules::PhaseRing(rules::PhaseRing::Id(spec.id), phases, next);
}
inline std::vector<std::string> subset(const std::vector<std::string>& v, uint32_t num_, uint32_t den) {
  std::vector<std::string> out;
  for (const auto& s : v) if (sim::flip(num_, den)) out.push_back(s);
  return out;
}
inline uint64_t hash_of(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (char c : s) h = (h ^ static_cast<unsigned char>(c)) * 1099511628211ull;
  return h;
}

// Like std::optional, for values without default constructor made in quiet code.
template <class T>
using Box = std::unique_ptr<T>;
template <class F>
auto boxed(F f) -> Box<decltype(f())> {
  sim::Quiet q;
  return Box<decltype(f())>(new decltype(f())(f()));
}
template <class T>
void drop(Box<T>* b) { sim::Quiet q; b->reset(); }

}  // namespace w
