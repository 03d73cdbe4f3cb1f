// A road network with rules for the providers of states, and digests of their answers.
#pragma once
#include "maliput/base/manual_rulebook.h"
#include "maliput/base/rule_registry.h"
#include "w/geo.h"

namespace w {

inline std::string str_id(const rules::Phase::Id& x) { return x.string(); }
inline std::string str_id(const rules::RightOfWayRule::State::Id& x) { return x.string(); }
inline std::string str_id(const rules::DiscreteValueRule::DiscreteValue& x) { return str(x); }
inline std::string str_id(const rules::RangeValueRule::Range& x) { return str(x); }
template <class T>
std::string result(const std::optional<rules::StateProviderResult<T>>& r) {
  if (!r) return "nothing";
  std::string s = str_id(r->state);
  if (r->next) s += " then " + str_id(r->next->state) + (r->next->duration_until ? " in " + dbl(*r->next->duration_until) : std::string());
  return s;
}
inline std::string result(const std::string& state, const std::optional<std::string>& next, const std::optional<double>& in) {
  std::string s = state;
  if (next) s += " then " + *next + (in ? " in " + dbl(*in) : std::string());
  return s;
}
struct Site {  // the geometry and rulebook that the providers refer to
  NetSpec spec;
  Net net;
  std::unique_ptr<maliput::ManualRulebook> book;
  Gen gen;
  std::vector<std::string> types{"type one", "type number two with a long name", maliput::RightOfWayRuleTypeId().string()};

  LaneSRoute zone() {
    std::vector<LaneSRange> v;
    for (int i = 0, n = 1 + sim::choose(3); i < n; ++i) {
      int s = sim::choose(spec.segs.size());
      v.emplace_back(LaneId(!v.empty() && sim::flip(1, 4) ? v[0].lane_id().string() : spec.lane_name(s, sim::choose(spec.segs[s].lanes))), gen.s_range());
    }
    return LaneSRoute(v);
  }
  Site() {
    sim::Quiet q;
    gen.similar_values = sim::flip(1, 2);
    spec = random_net(3);
    spec.strategy_step = 0;
    net = build_net(spec);
    book = std::make_unique<maliput::ManualRulebook>();
    for (const auto& n : names()) {
      if (sim::flip(1, 2)) book->AddRule(gen.discrete(n, types[sim::choose(3)], zone()));
      else if (sim::flip(4, 5)) book->AddRule(gen.range_rule(n, types[sim::choose(3)], zone()));
    }
  }
};

}  // namespace w
