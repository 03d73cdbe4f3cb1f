// What users of maliput implement: calls into it can be made to fail.
#pragma once
#include <stdexcept>

#include "maliput/api/intersection_book.h"
#include "maliput/api/rules/discrete_value_rule_state_provider.h"
#include "maliput/api/rules/phase_ring_book.h"
#include "maliput/api/rules/range_value_rule_state_provider.h"
#include "maliput/api/rules/right_of_way_rule_state_provider.h"
#include "maliput/api/rules/road_rulebook.h"
#include "maliput/api/rules/traffic_light_book.h"
#include "rt.h"

namespace w {

struct BackendFailure : std::runtime_error {
  BackendFailure() : std::runtime_error("the backend failed") {}
};
struct OddFailure {};  // not a std::exception

// The k-th call of this thread into the backend fails, and perhaps all later ones.
struct BackendFail {
  uint32_t k = 0, n = 0;
  bool more = false, odd = false, fired = false;
};
inline BackendFail*& backend_fail() {
  static thread_local BackendFail* f = nullptr;
  return f;
}
inline void backend_call() {
  BackendFail* f = backend_fail();
  if (!f) return;
  bool odd = false;
  {
    sim::Quiet q;
    ++f->n;
    if (!(f->n == f->k || (f->more && f->n > f->k))) return;
    f->fired = true;
    odd = f->odd;
    sim::fault_fired(sim::F_TASK_THROW);
  }
  if (odd) throw OddFailure();
  throw BackendFailure();
}

namespace fwd {
namespace api = maliput::api;
namespace rules = maliput::api::rules;

#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
struct Rulebook : rules::RoadRulebook {
  explicit Rulebook(std::unique_ptr<rules::RoadRulebook> x) : in(std::move(x)) {}
  std::unique_ptr<rules::RoadRulebook> in;
 private:
  QueryResults DoFindRules(const std::vector<api::LaneSRange>& r, double t) const override { backend_call(); return in->FindRules(r, t); }
  QueryResults DoRules() const override { backend_call(); return in->Rules(); }
  rules::RightOfWayRule DoGetRule(const rules::RightOfWayRule::Id& id) const override { backend_call(); return in->GetRule(id); }
  rules::SpeedLimitRule DoGetRule(const rules::SpeedLimitRule::Id& id) const override { backend_call(); return in->GetRule(id); }
  rules::DirectionUsageRule DoGetRule(const rules::DirectionUsageRule::Id& id) const override { backend_call(); return in->GetRule(id); }
  rules::DiscreteValueRule DoGetDiscreteValueRule(const rules::Rule::Id& id) const override { backend_call(); return in->GetDiscreteValueRule(id); }
  rules::RangeValueRule DoGetRangeValueRule(const rules::Rule::Id& id) const override { backend_call(); return in->GetRangeValueRule(id); }
};
struct Rows : rules::RightOfWayRuleStateProvider {
  explicit Rows(std::unique_ptr<rules::RightOfWayRuleStateProvider> x) : in(std::move(x)) {}
  std::unique_ptr<rules::RightOfWayRuleStateProvider> in;
 private:
  std::optional<RightOfWayResult> DoGetState(const rules::RightOfWayRule::Id& id) const override { backend_call(); return in->GetState(id); }
};
template <class P, class R>
struct States : P {
  explicit States(std::unique_ptr<P> x) : in(std::move(x)) {}
  std::unique_ptr<P> in;
 private:
  std::optional<R> DoGetState(const rules::Rule::Id& id) const override { backend_call(); return in->GetState(id); }
  std::optional<R> DoGetState(const api::RoadPosition& p, const rules::Rule::TypeId& t, double tol) const override { backend_call(); return in->GetState(p, t, tol); }
};
using Discretes = States<rules::DiscreteValueRuleStateProvider, rules::DiscreteValueRuleStateProvider::StateResult>;
using Ranges = States<rules::RangeValueRuleStateProvider, rules::RangeValueRuleStateProvider::StateResult>;
struct Rings : rules::PhaseRingBook {
  explicit Rings(std::unique_ptr<rules::PhaseRingBook> x) : in(std::move(x)) {}
  std::unique_ptr<rules::PhaseRingBook> in;
 private:
  std::vector<rules::PhaseRing::Id> DoGetPhaseRings() const override { backend_call(); return in->GetPhaseRings(); }
  std::optional<rules::PhaseRing> DoGetPhaseRing(const rules::PhaseRing::Id& id) const override { backend_call(); return in->GetPhaseRing(id); }
  std::optional<rules::PhaseRing> DoFindPhaseRing(const rules::RightOfWayRule::Id& id) const override { backend_call(); return in->FindPhaseRing(id); }
  std::optional<rules::PhaseRing> DoFindPhaseRing(const rules::Rule::Id& id) const override { backend_call(); return in->FindPhaseRing(id); }
};
struct Lights : rules::TrafficLightBook {
  explicit Lights(std::unique_ptr<rules::TrafficLightBook> x) : in(std::move(x)) {}
  std::unique_ptr<rules::TrafficLightBook> in;
 private:
  const rules::TrafficLight* DoGetTrafficLight(const rules::TrafficLight::Id& id) const override { backend_call(); return in->GetTrafficLight(id); }
  std::vector<const rules::TrafficLight*> DoTrafficLights() const override { backend_call(); return in->TrafficLights(); }
};
struct Crossings : api::IntersectionBook {
  explicit Crossings(std::unique_ptr<api::IntersectionBook> x) : in(std::move(x)) {}
  std::unique_ptr<api::IntersectionBook> in;
 private:
  std::vector<api::Intersection*> DoGetIntersections() override { backend_call(); return in->GetIntersections(); }
  api::Intersection* DoGetIntersection(const api::Intersection::Id& id) override { backend_call(); return in->GetIntersection(id); }
  api::Intersection* DoGetFindIntersection(const rules::TrafficLight::Id& id) override { backend_call(); return in->FindIntersection(id); }
  api::Intersection* DoGetFindIntersection(const rules::DiscreteValueRule::Id& id) override { backend_call(); return in->FindIntersection(id); }
  api::Intersection* DoGetFindIntersection(const api::InertialPosition& p) override { backend_call(); return in->FindIntersection(p); }
  api::Intersection* DoGetFindIntersection(const rules::RightOfWayRule::Id& id) override { backend_call(); return in->FindIntersection(id); }
};
#pragma GCC diagnostic pop
}  // namespace fwd
}  // namespace w
