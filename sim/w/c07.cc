// C07: State providers report exactly the last accepted state.
#include <cmath>
#include <limits>

#include "maliput/base/manual_discrete_value_rule_state_provider.h"
#include "maliput/base/manual_phase_provider.h"
#include "maliput/base/manual_phase_ring_book.h"
#include "maliput/base/manual_range_value_rule_state_provider.h"
#include "maliput/base/manual_right_of_way_rule_state_provider.h"
#include "maliput/base/rule_tools.h"
#include "w/site.h"

const char* const kCheckId = "C07";

namespace {
using namespace w;

std::string some_name() { return names()[sim::choose(names().size())]; }

template <class F>
void must(const std::string& what, F f) {
  Outcome o = attempt(f);
  SIM_CHECK(!o.threw, "lookup-failed", what + " threw: " + o.what);
}

std::optional<double> some_duration() {
  static const double d[] = {1., .25, 1e-300, 1e9, 3., 0., -1., -0., std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN()};
  if (sim::flip(1, 3)) return std::nullopt;
  return d[sim::flip(3, 4) ? sim::choose(5) : sim::choose(10)];
}

template <class RuleT, class Value, class Provider>
struct Manual {
  Site* site;
  std::unique_ptr<Provider> provider;
  std::map<std::string, RuleT> known;
  std::map<std::string, std::string> model;  // the last accepted result
  const char* kind;
  Recall recall;

  Manual(Site* s, const std::map<rules::Rule::Id, RuleT>& k, const char* kd) : site(s), kind(kd) {
    sim::Quiet q;
    for (const auto& e : k) known.emplace(e.first.string(), e.second);
  }
  void check_id(const std::string& n) {
    must("GetState(" + n + ")", [&] {
      auto r = provider->GetState(rules::Rule::Id(n));
      sim::Quiet q;
      auto it = model.find(n);
      std::string want = it == model.end() ? "nothing" : it->second, got = result(r);
      if (got != want) sim::violation("state-differs", std::string(kind) + " GetState(" + n + ") is " + got + " instead of " + want);
    });
  }
  void check() {
    recall.again();
    for (const auto& n : names()) check_id(n);
  }
  void check_position() {
    const NetSpec& sp = site->spec;
    int si = sim::choose(sp.segs.size()), li = sim::choose(sp.segs[si].lanes);
    double s = sim::choose(9) + .5;
    static const double tols[] = {0., .25, .75, 2., -.5};
    double tol = tols[sim::choose(5)];
    std::string type, lane;
    { sim::Quiet q; type = site->types[sim::choose(3)]; lane = sp.lane_name(si, li); }
    check_place(si, li, lane, s, type, tol, alloc_faults() && sim::flip(1, 4) ? random_k() : 0);
    if (sim::flip(1, 2)) recall.keep([this, si, li, lane, s, type, tol] { check_place(si, li, lane, s, type, tol, 0); });
  }
  void check_place(int si, int li, const std::string& lane, double s, const std::string& type, double tol, uint32_t k) {
    api::RoadPosition rp(site->net.lanes[si][li], api::LanePosition(s, 0., 0.));
    std::string got;
    Outcome o = attempt([&] { auto r = provider->GetState(rp, rules::Rule::TypeId(type), tol); sim::Quiet q; got = result(r); }, k);
    sim::Quiet q;
    std::string what = std::string(kind) + " GetState(" + lane + " at " + dbl(s) + ", " + type + ", " + dbl(tol) + ")";
    if (o.threw && o.injected) return;
    if (tol < 0) { if (!o.threw) sim::violation("position-state-differs", what + " accepted a negative tolerance"); return; }
    bool any = false, without = false, ok = false;
    std::string wants;
    for (const auto& e : known) {
      if (e.second.type_id().string() != type) continue;
      bool here = false;
      for (const auto& z : e.second.zone().ranges())
        if (z.lane_id().string() == lane && std::min(z.s_range().s0(), z.s_range().s1()) - tol <= s && s <= std::max(z.s_range().s0(), z.s_range().s1()) + tol) here = true;
      if (!here) continue;
      if (any) sim::probe("several_rules_at_position");
      any = true;
      auto it = model.find(e.first);
      if (it == model.end()) without = true;
      else { ok = ok || got == it->second; wants += " or " + it->second; }
    }
    if (any) sim::probe("rule_found_by_position");
    if (o.threw) { if (!without) sim::violation("lookup-failed", what + " threw: " + o.what); return; }
    if (!any ? got != "nothing" : !ok && !(without && got == "nothing")) sim::violation("position-state-differs", what + " is " + got + " instead of" + (any ? wants : std::string(" nothing")));
  }
  void set() {
    std::string id;
    Box<Value> state, next;
    std::optional<double> in;
    bool ok = true;
    std::string want;
    {
      sim::Quiet q;
      id = some_name();
      for (int i = 0; i < 4 && !known.count(id); ++i) id = some_name();
      auto pick_value = [&](Box<Value>* out) {
        auto it = known.find(id);
        bool foreign = it == known.end() || sim::flip(1, 8);
        if (foreign) {
          it = known.begin();
          if (it == known.end()) { ok = false; return; }
          std::advance(it, sim::choose(known.size()));
        }
        Value v = it->second.states()[sim::choose(it->second.states().size())];
        if (sim::flip(1, 12)) {
          switch (sim::choose(4)) {
            case 0: v.severity += 5; break;
            case 1: v.related_rules["no such key"] = {rules::Rule::Id("r")}; break;
            case 2: if (v.related_rules.empty()) v.severity += 9; else v.related_rules.begin()->second.emplace_back("one related rule too many"); sim::probe("superset_of_related_rules"); break;
            default: if (v.related_unique_ids.empty()) v.severity += 9; else v.related_unique_ids.begin()->second.pop_back(); break;
          }
        }
        out->reset(new Value(v));
        auto k = known.find(id);
        bool allowed = false;
        if (k != known.end()) for (const auto& x : k->second.states()) allowed = allowed || str(x) == str(v);
        ok = ok && allowed;
      };
      pick_value(&state);
      if (sim::flip(1, 2)) pick_value(&next);
      in = some_duration();
      if (in && (!next || !(*in > 0.))) ok = false;
      ok = ok && known.count(id);
      if (!state) return;
      std::optional<std::string> nx;
      if (next) nx = str(*next);
      want = result(str(*state), nx, in);
    }
    std::optional<Value>* nv;
    { sim::Quiet q; nv = new std::optional<Value>; if (next) nv->emplace(*next); }
    // A place where the rule is, or the rule itself.
    {
      int si = -1, li = 0;
      std::string lane, type;
      double s = 0;
      if (ok && sim::flip(1, 2)) {
        sim::Quiet q;
        const RuleT& r = known.at(id);
        const auto& z = r.zone().ranges()[sim::choose(r.zone().ranges().size())];
        const NetSpec& sp = site->spec;
        for (int i = 0; i < static_cast<int>(sp.segs.size()); ++i) for (int j = 0; j < sp.segs[i].lanes; ++j) if (sp.lane_name(i, j) == z.lane_id().string()) { si = i; li = j; }
        lane = z.lane_id().string();
        type = r.type_id().string();
        s = std::floor(std::min(z.s_range().s0(), z.s_range().s1())) + .5;
      }
      recall.before([this, si, li, lane, s, type, id] { if (si >= 0) check_place(si, li, lane, s, type, .75, 0); else check_id(id); });
    }
    bool done = edit(std::string("set ") + kind + " rule " + id + " to " + want, ok, [&] { provider->SetState(rules::Rule::Id(id), *state, *nv, in); }, [&] { check(); });
    {
      sim::Quiet q;
      if (done) { model[id] = want; sim::mark_nontrivial(); }
      delete nv;
      state.reset();
      next.reset();
    }
    check();
    if (done && sim::flip(1, 2)) {
      const RuleT* rule = sim::quietly([&] { auto k = known.find(id); return k == known.end() ? nullptr : &k->second; });
      if (rule) group_of(id, *rule);
    }
  }
  void groups() {  // the relations of the current state of a right-of-way rule
    for (auto& e : known) group_of(e.first, e.second);
  }
  void group_of(const std::string& id, const rules::DiscreteValueRule& rule) {
    std::string want_rules = "none", want_ids = "none";
    bool right_type;
    {
      sim::Quiet q;
      right_type = rule.type_id().string() == site->types[2];
      auto it = model.find(id);
      if (it != model.end() && right_type) {
        for (const auto& v : rule.states()) {
          if (it->second.compare(0, str(v).size(), str(v)) != 0) continue;
          if (v.related_rules.count("Yield Group")) { want_rules.clear(); for (auto& x : v.related_rules.at("Yield Group")) want_rules += x.string() + ","; }
          if (v.related_unique_ids.count("Bulb Group")) { want_ids.clear(); for (auto& x : v.related_unique_ids.at("Bulb Group")) want_ids += x.string() + ","; }
        }
      }
    }
    std::string got_rules = "none", got_ids = "none";
    attempt([&] { auto v = maliput::GetCurrentYieldGroup(rule, provider.get()); sim::Quiet q; got_rules.clear(); for (auto& x : v) got_rules += x.string() + ","; });
    attempt([&] { auto v = maliput::GetCurrentBulbGroup(rule, provider.get()); sim::Quiet q; got_ids.clear(); for (auto& x : v) got_ids += x.string() + ","; });
    SIM_CHECK(got_rules == want_rules && got_ids == want_ids, "group-differs", "current groups of rule " + id + ": " + got_rules + " / " + got_ids + " instead of " + want_rules + " / " + want_ids);
  }
  void group_of(const std::string&, const rules::RangeValueRule&) {}
  void step() {
    uint32_t r = sim::choose(10);
    if (r < 6) set();
    else if (r < 9) check_position();
    else groups();
  }
};

struct World {
  Site site;
  std::unique_ptr<Manual<rules::DiscreteValueRule, rules::DiscreteValueRule::DiscreteValue, maliput::ManualDiscreteValueRuleStateProvider>> discrete;
  std::unique_ptr<Manual<rules::RangeValueRule, rules::RangeValueRule::Range, maliput::ManualRangeValueRuleStateProvider>> range;
  std::unique_ptr<maliput::ManualRightOfWayRuleStateProvider> row;
  std::unique_ptr<maliput::ManualPhaseProvider> phases;
  std::map<std::string, std::string> row_model, phase_model;
  Recall recall;

  void start() {
    {
      sim::Quiet q;
      auto all = site.book->Rules();
      discrete.reset(new decltype(discrete)::element_type(&site, all.discrete_value_rules, "discrete"));
      range.reset(new decltype(range)::element_type(&site, all.range_value_rules, "range"));
    }
    edit("make a discrete provider without rulebook", false, [&] { maliput::ManualDiscreteValueRuleStateProvider p(nullptr); }, [] {});
    edit("make a range provider without rulebook", false, [&] { maliput::ManualRangeValueRuleStateProvider p(nullptr); }, [] {});
    discrete->provider = std::make_unique<maliput::ManualDiscreteValueRuleStateProvider>(site.book.get());
    if (sim::flip(1, 2)) {
      range->provider = std::make_unique<maliput::ManualRangeValueRuleStateProvider>(site.book.get());
    } else {
      bool done = edit("make a range provider with the default states", true, [&] { range->provider = maliput::ManualRangeValueRuleStateProvider::GetDefaultManualRangeValueRuleStateProvider(site.book.get()); }, [] {});
      if (!done) range->provider = std::make_unique<maliput::ManualRangeValueRuleStateProvider>(site.book.get());
      sim::Quiet q;
      if (done) for (auto& e : range->known) range->model[e.first] = str(e.second.states().front());
    }
    row = std::make_unique<maliput::ManualRightOfWayRuleStateProvider>();
    if (sim::flip(1, 2)) phases = std::make_unique<maliput::ManualPhaseProvider>();
    else default_phases();
  }
  void default_phases() {
    std::unique_ptr<maliput::ManualPhaseRingBook> rings;
    std::map<std::string, rules::PhaseRing> specs;
    {
      sim::Quiet q;
      rings = std::make_unique<maliput::ManualPhaseRingBook>();
      for (const auto& n : subset(names(), 1, 2)) {
        RingSpec rs;
        rs.id = n;
        rs.nphases = 1 + sim::choose(3);
        rs.with_next = sim::flip(1, 2);
        rules::PhaseRing ring = make_ring(&site.gen, rs);
        rings->AddPhaseRing(ring);
        specs.emplace(n, ring);
      }
    }
    bool done = edit("make a phase provider with the first phase of every ring", true, [&] { phases = maliput::ManualPhaseProvider::GetDefaultPopulatedManualPhaseProvider(rings.get()); }, [] {});
    if (!done) phases = std::make_unique<maliput::ManualPhaseProvider>();
    else {
      for (auto& e : specs) {
        auto r = phases->GetPhase(rules::PhaseRing::Id(e.first));
        sim::Quiet q;
        if (!r || !e.second.phases().count(r->state)) sim::violation("state-differs", "the default phase of ring " + e.first + " is " + result(r));
        const auto& nx = e.second.next_phases().at(r->state);
        std::optional<std::string> want;
        if (!nx.empty()) want = nx[0].id.string();
        std::string w = result(r->state.string(), want, nx.empty() ? std::nullopt : nx[0].duration_until);
        if (result(r) != w) sim::violation("state-differs", "the default phase of ring " + e.first + " is " + result(r) + " instead of " + w);
        phase_model[e.first] = w;
      }
    }
    sim::Quiet q;
    rings.reset();
  }
  void check_row() {
    recall.again();
    for (const auto& n : names()) check_row(n);
  }
  void check_row(const std::string& n) {
    must("GetState(" + n + ")", [&] {
      auto r = row->GetState(rules::RightOfWayRule::Id(n));
      sim::Quiet q;
      auto it = row_model.find(n);
      std::string want = it == row_model.end() ? "nothing" : it->second;
      if (result(r) != want) sim::violation("state-differs", "right-of-way GetState(" + n + ") is " + result(r) + " instead of " + want);
    });
  }
  void check_phases() {
    recall.again();
    for (const auto& n : names()) check_phase(n);
  }
  void check_phase(const std::string& n) {
    must("GetPhase(" + n + ")", [&] {
      auto r = phases->GetPhase(rules::PhaseRing::Id(n));
      sim::Quiet q;
      auto it = phase_model.find(n);
      std::string want = it == phase_model.end() ? "nothing" : it->second;
      if (result(r) != want) sim::violation("state-differs", "GetPhase(" + n + ") is " + result(r) + " instead of " + want);
    });
  }
  void step_row() {
    std::string id = sim::quietly([] { return some_name(); }), st = sim::quietly([this] { return "state with a long enough name " + num(++site.gen.serial); });
    bool have = sim::quietly([&] { return row_model.count(id) > 0; });
    bool add = sim::flip(1, 2);
    rules::RightOfWayRule::Id rid(id);
    rules::RightOfWayRule::State::Id sid(st);
    recall.before([this, id] { check_row(id); });
    bool done = add ? edit("add right-of-way state of " + id, !have, [&] { row->AddState(rid, sid); }, [&] { check_row(); })
                    : edit("set right-of-way state of " + id, have, [&] { row->SetState(rid, sid); }, [&] { check_row(); });
    { sim::Quiet q; if (done) { row_model[id] = st; sim::mark_nontrivial(); } }
    check_row();
  }
  void step_phase() {
    std::string id, ph, want;
    std::optional<rules::Phase::Id> next;
    std::optional<double> in;
    bool have, add = sim::flip(1, 2);
    {
      sim::Quiet q;
      id = some_name();
      ph = "phase with a name of some length " + num(++site.gen.serial) + std::string(sim::choose(20), '.');
      std::optional<std::string> nx;
      if (sim::flip(2, 3)) {
        switch (sim::choose(4)) {
          case 0: nx = "p" + num(site.gen.serial); break;
          case 1: nx = ph; break;  // the phase repeats itself
          default: nx = "next phase with a name of some length " + num(site.gen.serial) + std::string(sim::choose(20), '.');
        }
        next.emplace(*nx);
      }
      if (sim::flip(1, 2)) in = 1. + sim::choose(30);
      have = phase_model.count(id);
      want = result(ph, nx, in);
    }
    bool valid = next || !in;
    rules::PhaseRing::Id rid(id);
    rules::Phase::Id pid(ph);
    recall.before([this, id] { check_phase(id); });
    bool done = add ? edit("add ring " + id + " in " + want, valid && !have, [&] { phases->AddPhaseRing(rid, pid, next, in); }, [&] { check_phases(); })
                    : edit("set ring " + id + " to " + want, valid && have, [&] { phases->SetPhase(rid, pid, next, in); }, [&] { check_phases(); });
    { sim::Quiet q; if (done) { phase_model[id] = want; sim::mark_nontrivial(); } next.reset(); }
    check_phases();
  }
  void step() {
    switch (sim::choose(6)) {
      case 0: case 1: discrete->step(); break;
      case 2: case 3: range->step(); break;
      case 4: step_row(); break;
      default: step_phase();
    }
  }
};
}  // namespace

void workload() {
  sim::set_step_cap(40000000);
  w::alloc_faults() = sim::flip(1, 2);
  World* world;
  { sim::Quiet q; names(); world = new World; }
  world->start();
  int n = 1 + sim::choose(3);
  int steps = 2 + sim::choose(24);
  w::clients(n, steps, [world](int) { world->step(); });
  world->discrete->check();
  world->range->check();
  world->check_row();
  world->check_phases();
  {
    sim::Quiet q;
    std::string s;
    for (auto* m : {&world->discrete->model, &world->range->model, &world->row_model, &world->phase_model}) for (auto& e : *m) s += e.first + e.second;
    sim::mix_state(hash_of(s));
  }
  { sim::Quiet q; delete world; }
}
