// C06: Light, intersection and rule-type registries accept each entry once, whole.
#include "maliput/api/rules/rule_registry.h"
#include "maliput/base/intersection.h"
#include "maliput/base/intersection_book.h"
#include "maliput/base/manual_phase_provider.h"
#include "maliput/base/rule_registry.h"
#include "maliput/base/traffic_light_book.h"
#include "w/geo.h"

const char* const kCheckId = "C06";

namespace {
using namespace w;
using rules::Bulb;
using rules::BulbGroup;
using rules::TrafficLight;

std::string some_name() { return names()[sim::choose(names().size())]; }

template <class F>
void must(const std::string& what, F f) {
  Outcome o = attempt(f);
  SIM_CHECK(!o.threw, "lookup-failed", what + " threw: " + o.what);
}

// ---------------------------------------------------------------- traffic lights
struct BulbSpec {
  bool null = false;
  std::string id;
  int color = 0, type = 0;
  std::optional<double> arrow;
  std::optional<std::vector<rules::BulbState>> states;
  bool box = false;
  double x = 0;
  bool ok() const { return !null && (type == 1) == arrow.has_value(); }
};
struct GroupSpec {
  bool null = false;
  std::string id;
  std::vector<BulbSpec> bulbs;
  double x = 0;
  bool ok() const {
    if (null || bulbs.empty()) return false;
    std::set<std::string> s;
    for (auto& b : bulbs) if (!b.ok() || !s.insert(b.id).second) return false;
    return true;
  }
};
struct LightSpec {
  bool null = false;
  std::string id;
  std::vector<GroupSpec> groups;
  double x = 0;
  bool ok() const {
    if (null) return false;
    std::set<std::string> s;
    for (auto& g : groups) if (!g.ok() || !s.insert(g.id).second) return false;
    return true;
  }
};
LightSpec random_light() {
  LightSpec l;
  l.id = some_name();
  l.null = sim::flip(1, 25);
  l.x = sim::choose(100);
  bool odd = sim::flip(1, 4);  // whether this light may be an impossible one
  for (int g = 0, n = sim::choose(4); g < n; ++g) {
    GroupSpec gs;
    gs.null = odd && sim::flip(1, 12);
    gs.id = odd && g && sim::flip(1, 5) ? l.groups[0].id : "group " + num(g) + (sim::flip(1, 2) ? " with a longer identifier" : "");
    gs.x = sim::choose(100);
    for (int b = 0, m = odd && sim::flip(1, 8) ? 0 : 1 + sim::choose(4); b < m; ++b) {
      BulbSpec bs;
      bs.null = odd && sim::flip(1, 15);
      bs.id = odd && b && sim::flip(1, 6) ? gs.bulbs[0].id : "bulb " + num(b) + (sim::flip(1, 2) ? " whose identifier is long enough" : "");
      bs.color = sim::choose(3);
      bs.type = sim::choose(2);
      if ((bs.type == 1) != (odd && sim::flip(1, 15))) bs.arrow = sim::choose(6) * .5;
      if (sim::flip(1, 2)) {
        bs.states.emplace();
        for (int s : {2, 0, 1}) if (sim::flip(1, 2)) bs.states->push_back(static_cast<rules::BulbState>(s));
      }
      bs.box = sim::flip(1, 2);
      bs.x = sim::choose(100);
      gs.bulbs.push_back(bs);
    }
    l.groups.push_back(gs);
  }
  return l;
}
std::unique_ptr<TrafficLight> make_light(const LightSpec& l) {
  if (l.null) return nullptr;
  std::vector<std::unique_ptr<BulbGroup>> groups;
  for (const auto& g : l.groups) {
    if (g.null) { groups.push_back(nullptr); continue; }
    std::vector<std::unique_ptr<Bulb>> bulbs;
    for (const auto& b : g.bulbs) {
      if (b.null) { bulbs.push_back(nullptr); continue; }
      Bulb::BoundingBox box;
      if (b.box) { box.p_BMin = Vector3(-1, -2, -b.x); box.p_BMax = Vector3(1, 2, b.x); }
      bulbs.push_back(std::make_unique<Bulb>(Bulb::Id(b.id), InertialPosition(b.x, 1, 2), Rotation::FromRpy(0., 0., b.x), static_cast<rules::BulbColor>(b.color),
                                             static_cast<rules::BulbType>(b.type), b.arrow, b.states, box));
    }
    groups.push_back(std::make_unique<BulbGroup>(BulbGroup::Id(g.id), InertialPosition(3, g.x, 4), Rotation::FromRpy(0., g.x / 100, 0.), std::move(bulbs)));
  }
  return std::make_unique<TrafficLight>(TrafficLight::Id(l.id), InertialPosition(5, 6, l.x), Rotation::FromRpy(l.x / 100, 0., 0.), std::move(groups));
}

struct Lights {
  std::unique_ptr<maliput::TrafficLightBook> book = std::make_unique<maliput::TrafficLightBook>();
  struct Entry { LightSpec spec; const TrafficLight* ptr; };
  std::map<std::string, Entry> model;
  Recall recall;

  void check_name(const std::string& n) {
    const Entry* e = sim::quietly([&] { auto it = model.find(n); return it == model.end() ? nullptr : &it->second; });
    if (e) check_light(*e);
    else must("GetTrafficLight", [&] { SIM_CHECK(!book->GetTrafficLight(TrafficLight::Id(n)), "light-extra", "GetTrafficLight(" + n + ") finds a light that was not accepted"); });
  }
  void differs(const std::string& what) { SIM_CHECK(false, "light-differs", what); }
  void check_light(const Entry& e) {
    const LightSpec& l = e.spec;
    must("a walk over traffic light " + l.id, [&] {
      const TrafficLight* t = book->GetTrafficLight(TrafficLight::Id(l.id));
      SIM_CHECK(t == e.ptr, t ? "light-differs" : "light-missing", "GetTrafficLight(" + l.id + ") does not find the light that was added");
      if (t->id().string() != l.id || t->position_road_network().z() != l.x || t->orientation_road_network().Distance(Rotation::FromRpy(l.x / 100, 0., 0.)) > 1e-6) differs(l.id + ": id or pose");
      auto groups = t->bulb_groups();
      if (groups.size() != l.groups.size()) differs(l.id + ": number of bulb groups");
      for (size_t i = 0; i < groups.size(); ++i) {
        const GroupSpec& gs = l.groups[i];
        const BulbGroup* g = t->GetBulbGroup(BulbGroup::Id(gs.id));
        if (g != groups[i]) differs(l.id + ": GetBulbGroup(" + gs.id + ")");
        if (g->id().string() != gs.id || g->traffic_light() != t || g->position_traffic_light().y() != gs.x) differs(l.id + "/" + gs.id + ": contents");
        auto uid = g->unique_id();
        if (uid.string() != l.id + "-" + gs.id || !(uid == rules::UniqueBulbGroupId(TrafficLight::Id(l.id), BulbGroup::Id(gs.id)))) differs(l.id + "/" + gs.id + ": unique id");
        auto bulbs = g->bulbs();
        if (bulbs.size() != gs.bulbs.size()) differs(l.id + "/" + gs.id + ": number of bulbs");
        for (size_t j = 0; j < bulbs.size(); ++j) {
          const BulbSpec& bs = gs.bulbs[j];
          const Bulb* b = g->GetBulb(Bulb::Id(bs.id));
          if (b != bulbs[j]) differs(l.id + "/" + gs.id + ": GetBulb(" + bs.id + ")");
          std::vector<rules::BulbState> st = bs.states && !bs.states->empty() ? *bs.states : std::vector<rules::BulbState>{rules::BulbState::kOff, rules::BulbState::kOn};
          rules::BulbState def = rules::BulbState::kOn;
          for (auto s : {rules::BulbState::kBlinking, rules::BulbState::kOff}) if (std::count(st.begin(), st.end(), s)) def = s;
          if (b->id().string() != bs.id || b->bulb_group() != g || b->position_bulb_group().x() != bs.x || static_cast<int>(b->color()) != bs.color ||
              static_cast<int>(b->type()) != bs.type || b->arrow_orientation_rad() != bs.arrow || b->states() != st || b->GetDefaultState() != def ||
              b->bounding_box().p_BMax.z() != (bs.box ? bs.x : .1778)) differs(l.id + "/" + gs.id + "/" + bs.id + ": contents");
          for (auto s : {rules::BulbState::kOff, rules::BulbState::kOn, rules::BulbState::kBlinking})
            if (b->IsValidState(s) != (std::count(st.begin(), st.end(), s) > 0)) differs(l.id + "/" + gs.id + "/" + bs.id + ": valid states");
          auto u = b->unique_id();
          if (u.string() != l.id + "-" + gs.id + "-" + bs.id || u.bulb_id().string() != bs.id) differs(l.id + "/" + gs.id + "/" + bs.id + ": unique id");
        }
        if (g->GetBulb(Bulb::Id("no such bulb"))) differs(l.id + ": GetBulb finds a bulb that does not exist");
      }
      if (t->GetBulbGroup(BulbGroup::Id("no such group"))) differs(l.id + ": GetBulbGroup finds a group that does not exist");
    });
  }
  void check() {
    recall.again();
    must("TrafficLights()", [&] {
      auto v = book->TrafficLights();
      sim::Quiet q;
      if (v.size() != model.size()) sim::violation(v.size() < model.size() ? "light-missing" : "light-extra", "TrafficLights() has " + num(v.size()) + " lights instead of " + num(model.size()));
      for (auto& e : model) if (std::count(v.begin(), v.end(), e.second.ptr) != 1) sim::violation("light-missing", "TrafficLights() does not contain " + e.first);
    });
    for (auto& e : model) check_light(e.second);
    for (const auto& n : names()) {
      if (sim::quietly([&] { return model.count(n); })) continue;
      check_name(n);
    }
  }
  void step() {
    LightSpec* spec;
    { sim::Quiet q; spec = new LightSpec(random_light()); }
    bool ok = sim::quietly([&] { return spec->ok() && !model.count(spec->id); });
    const TrafficLight* p = nullptr;
    recall.before([this, n = spec->id] { check_name(n); });
    bool done = edit("add traffic light " + spec->id, ok, [&] {
      std::unique_ptr<TrafficLight> t = make_light(*spec);
      p = t.get();
      book->AddTrafficLight(std::move(t));
    }, [&] { check(); });
    {
      sim::Quiet q;
      if (done) { model[spec->id] = Entry{*spec, p}; sim::mark_nontrivial(); sim::probe("light_added"); }
      else if (!spec->ok()) sim::probe("impossible_light");
      delete spec;
    }
    recall.again();
    if (alloc_faults()) attempt([&] { book->TrafficLights(); }, random_k());
    if (sim::flip(1, 3)) check();
    if (sim::flip(1, 4)) { std::string n = sim::quietly([] { return some_name(); }); recall.keep([this, n] { check_name(n); }); }
  }
};

// ---------------------------------------------------------------- rule types
struct Registry {
  rules::RuleRegistry registry;
  std::map<std::string, std::vector<rules::DiscreteValueRule::DiscreteValue>> discrete;
  std::map<std::string, std::vector<rules::RangeValueRule::Range>> range;
  Gen gen;
  Recall recall;

  template <class V>
  static std::string all(const V& v) { std::string s; for (const auto& x : v) s += str(x) + ";"; return s; }
  void check_type(const std::string& n) {
      must("GetPossibleStatesOfRuleType", [&] {
        auto r = registry.GetPossibleStatesOfRuleType(rules::Rule::TypeId(n));
        sim::Quiet q;
        bool d = discrete.count(n), g = range.count(n);
        if (!d && !g) { if (r) sim::violation("type-extra", "type " + n + " is found although it was not accepted"); return; }
        if (!r) sim::violation("type-missing", "type " + n + " is not found");
        if (r->type_id.string() != n) sim::violation("type-differs", "type " + n + " is reported as " + r->type_id.string());
        if (r->rule_values.index() != (d ? 1u : 0u)) sim::violation("type-differs", "type " + n + " has values of the wrong kind");
        std::string got = d ? all(std::get<1>(r->rule_values)) : all(std::get<0>(r->rule_values)), want = d ? all(discrete[n]) : all(range[n]);
        if (got != want) sim::violation("type-differs", "type " + n + " has the values " + got + " instead of " + want);
      });
  }
  void check() {
    recall.again();
    for (const auto& n : names()) check_type(n);
    sim::Quiet q;
    const auto& d = registry.DiscreteValueRuleTypes();
    const auto& g = registry.RangeValueRuleTypes();
    if (d.size() != discrete.size() || g.size() != range.size()) sim::violation("type-extra", "the lists of types have the wrong size");
    for (auto& e : discrete) if (!d.count(rules::Rule::TypeId(e.first)) || all(d.at(rules::Rule::TypeId(e.first))) != all(e.second)) sim::violation("type-missing", "DiscreteValueRuleTypes() lacks " + e.first);
    for (auto& e : range) if (!g.count(rules::Rule::TypeId(e.first)) || all(g.at(rules::Rule::TypeId(e.first))) != all(e.second)) sim::violation("type-missing", "RangeValueRuleTypes() lacks " + e.first);
  }
  void add() {
    std::string id = sim::quietly([] { return some_name(); });
    bool taken = sim::quietly([&] { return discrete.count(id) || range.count(id); });
    recall.before([this, id] { check_type(id); });
    if (sim::flip(1, 2)) {
      auto v = boxed([&] { return gen.values(); });
      bool ok = !taken;
      {
        sim::Quiet q;
        if (sim::flip(1, 10)) { v->clear(); ok = false; }
        else if (sim::flip(1, 6)) { v->push_back((*v)[sim::choose(v->size())]); ok = false; sim::probe("type_with_equal_values"); }
      }
      bool done = edit("register discrete type " + id, ok, [&] { registry.RegisterDiscreteValueRule(rules::Rule::TypeId(id), *v); }, [&] { check(); });
      sim::Quiet q;
      if (done) { discrete[id] = *v; sim::mark_nontrivial(); }
      v.reset();
    } else {
      auto v = boxed([&] { std::vector<rules::RangeValueRule::Range> r; for (int i = 0, n = 1 + sim::choose(3); i < n; ++i) r.push_back(gen.range(++gen.serial)); return r; });
      bool ok = !taken;
      {
        sim::Quiet q;
        if (sim::flip(1, 10)) { v->clear(); ok = false; }
        else if (sim::flip(1, 6)) { v->push_back((*v)[sim::choose(v->size())]); ok = false; sim::probe("type_with_equal_values"); }
      }
      bool done = edit("register range type " + id, ok, [&] { registry.RegisterRangeValueRule(rules::Rule::TypeId(id), *v); }, [&] { check(); });
      sim::Quiet q;
      if (done) { range[id] = *v; sim::mark_nontrivial(); }
      v.reset();
    }
    check();
  }
  template <class Map, class Alter, class Make>
  void build(const char* kind, const Map& types, Alter alter, Make make) {
    std::string type = sim::quietly([] { return some_name(); });
    typename Map::mapped_type* v;
    bool ok;
    auto zone = boxed([&] { return gen.route(); });
    {
      sim::Quiet q;
      v = new typename Map::mapped_type;
      if (!types.empty() && !sim::flip(1, 4)) { auto it = types.begin(); std::advance(it, sim::choose(types.size())); type = it->first; }
      auto it = types.find(type);
      ok = it != types.end();
      if (ok) for (auto& x : it->second) if (sim::flip(2, 3)) v->push_back(x);
      if (v->empty()) ok = false;
      else if (sim::flip(1, 3)) ok = alter(&(*v)[sim::choose(v->size())]) && ok;
      else if (sim::flip(1, 8)) { v->push_back((*v)[sim::choose(v->size())]); ok = false; }
    }
    std::string got;
    bool done = edit(std::string("build a ") + kind + " rule of type " + type, ok, [&] { auto r = make(rules::Rule::Id("rule id"), rules::Rule::TypeId(type), *zone, *v); sim::Quiet q; got = str(r); }, [&] { check(); });
    sim::Quiet q;
    if (done) {
      sim::probe("rule_built");
      std::string want = std::string(kind) + " rule id of " + type + " at " + str(*zone);
      for (auto& x : *v) want += ";" + str(x);
      if (got != want) sim::violation("built-rule-differs", "got " + got + " instead of " + want);
    }
    delete v;
    zone.reset();
  }
  void step() {
    if (sim::flip(1, 2)) { add(); return; }
    if (sim::flip(1, 2)) {
      build("discrete", discrete, [](rules::DiscreteValueRule::DiscreteValue* d) {
        switch (sim::choose(4)) {
          case 0: d->severity += 7; return false;
          case 1: d->value += "x"; return false;
          case 2: d->related_rules["more"] = {rules::Rule::Id("z")}; return true;  // the relations are the rule's own
          default: d->related_unique_ids[""] = {UniqueId("z")}; return false;
        }
      }, [&](auto&&... a) { return registry.BuildDiscreteValueRule(a...); });
    } else {
      build("range", range, [](rules::RangeValueRule::Range* d) {
        switch (sim::choose(6)) {
          case 0: d->severity += 7; return false;
          case 1: d->description += "x"; return false;
          case 2: d->min -= 1; return false;
          case 3: d->max += 1; return false;
          case 4: d->related_rules["more"] = {rules::Rule::Id("z")}; return true;
          default: d->related_rules["twice"] = {rules::Rule::Id("z"), rules::Rule::Id("z")}; return false;
        }
      }, [&](auto&&... a) { return registry.BuildRangeValueRule(a...); });
    }
    if (alloc_faults()) attempt([&] { registry.GetPossibleStatesOfRuleType(rules::Rule::TypeId("a")); }, random_k());
    check();
  }
};

// ---------------------------------------------------------------- intersections
struct Intersections {
  Net net;
  NetSpec spec;
  std::unique_ptr<maliput::ManualPhaseProvider> phases = std::make_unique<maliput::ManualPhaseProvider>();
  std::unique_ptr<maliput::IntersectionBook> book;
  struct Entry {
    maliput::Intersection* ptr = nullptr;
    std::vector<LaneSRange> region;
    std::string region_digest, ring;
    std::set<std::string> rows, discretes, lights;
    bool has_phase = false;
  };
  std::map<std::string, Entry> model;
  Gen gen;
  Recall recall;

  Intersections() {
    {
      sim::Quiet q;
      for (int i = 0, n = 2 + sim::choose(3); i < n; ++i) {
        SegSpec s;
        s.name = i % 2 ? "segment with a long name " + num(i) : "s" + num(i);
        s.start = Pose{100. * i, 30. * i, 0., .3 * i};
        s.k = i % 3 == 2 ? .02 : 0.;
        s.length = 12;
        s.lanes = 1 + sim::choose(3);
        s.junction = spec.junctions++;
        spec.segs.push_back(s);
      }
      net = build_net(spec);
    }
    Outcome o = attempt([] { maliput::IntersectionBook b(nullptr); });
    SIM_CHECK(o.threw, "edit-accepted", "an intersection book without road geometry was accepted");
    book = std::make_unique<maliput::IntersectionBook>(net.rg.get());
  }
  std::string some_lane() { int i = sim::choose(spec.segs.size()); return spec.lane_name(i, sim::choose(spec.segs[i].lanes)); }
  static bool inside(const SRange& r, double s) { return std::min(r.s0(), r.s1()) <= s && s <= std::max(r.s0(), r.s1()); }
  static bool meets(const SRange& a, const SRange& b, double tol) {
    return std::min(a.s0(), a.s1()) - tol <= std::max(b.s0(), b.s1()) && std::min(b.s0(), b.s1()) <= std::max(a.s0(), a.s1()) + tol;
  }
  template <class P>
  void check_find(const std::string& what, bool known, maliput::api::Intersection* got, P includes) {
    (void)known;
    sim::Quiet q;
    bool any = false;
    for (auto& e : model) {
      bool in = includes(e.second);
      any = any || in;
      if (got == e.second.ptr) { if (!in) sim::violation("intersection-wrong", what + " finds intersection " + e.first); return; }
    }
    if (got) sim::violation("intersection-extra", what + " finds an intersection that is not in the book");
    if (any) sim::violation("intersection-missing", what + " finds nothing");
  }
  void check_name(const std::string& n) {
      must("GetIntersection(" + n + ")", [&] {
        auto* x = book->GetIntersection(maliput::api::Intersection::Id(n));
        sim::Quiet q;
        auto it = model.find(n);
        if (it == model.end()) { if (x) sim::violation("intersection-extra", "GetIntersection(" + n + ") finds an intersection that was not accepted"); }
        else {
          if (x != it->second.ptr) sim::violation("intersection-missing", "GetIntersection(" + n + ") does not find the intersection that was added");
          if (x->id().string() != n || str(LaneSRoute(x->region())) != it->second.region_digest || x->ring_id().string() != it->second.ring) sim::violation("intersection-differs", n + " has other contents");
        }
      });
  }
  // By traffic light, by rule or by right-of-way rule.
  void check_thing(int kind, const std::string& n) {
    must("lookups for " + n, [&] {
      if (kind == 0) check_find("FindIntersection(traffic light " + n + ")", true, book->FindIntersection(TrafficLight::Id(n)), [&](const Entry& e) { return e.has_phase && e.lights.count(n); });
      if (kind == 1) check_find("FindIntersection(rule " + n + ")", true, book->FindIntersection(rules::DiscreteValueRule::Id(n)), [&](const Entry& e) { return e.has_phase && e.discretes.count(n); });
      if (kind == 2) check_find("FindIntersection(right-of-way rule " + n + ")", true, book->FindIntersection(rules::RightOfWayRule::Id(n)), [&](const Entry& e) { return e.has_phase && e.rows.count(n); });
    });
  }
  void check() {
    recall.again();
    must("GetIntersections()", [&] {
      auto v = book->GetIntersections();
      sim::Quiet q;
      if (v.size() != model.size()) sim::violation(v.size() < model.size() ? "intersection-missing" : "intersection-extra", "GetIntersections() has " + num(v.size()) + " entries instead of " + num(model.size()));
      for (auto& e : model) if (std::count(v.begin(), v.end(), e.second.ptr) != 1) sim::violation("intersection-missing", "GetIntersections() lacks " + e.first);
    });
    for (const auto& n : names()) {
      check_name(n);
      for (int kind = 0; kind < 3; ++kind) check_thing(kind, n);
    }
  }
  void check_positions() {
    int si = sim::choose(spec.segs.size()), li = sim::choose(spec.segs[si].lanes);
    std::string lane = sim::quietly([&] { return spec.lane_name(si, li); });
    double s = sim::choose(9) + .5;
    bool off = sim::flip(1, 5);
    InertialPosition p = net.lanes[si][li]->ToInertialPosition(api::LanePosition(s, 0., 0.));
    if (off) p = InertialPosition(p.x(), p.y(), p.z() + 7.);
    check_point(p, lane, s, off);
    if (sim::flip(1, 3)) recall.keep([this, p, lane, s, off] { check_point(p, lane, s, off); });
    // By region.
    std::vector<LaneSRange> region;
    static const double tols[] = {0., .25, .75};
    double tol = tols[sim::choose(3)];
    {
      sim::Quiet q;
      for (int i = 0, n = sim::choose(3); i < n; ++i) region.emplace_back(LaneId(some_lane()), SRange(sim::choose(9) + .5, sim::choose(9) + .5));
    }
    check_region(region, tol);
    if (sim::flip(1, 3)) recall.keep([this, region, tol] { check_region(region, tol); });
    { sim::Quiet q; region = {}; }
  }
  void check_point(const InertialPosition& p, const std::string& lane, double s, bool off) {
    must("FindIntersection(position)", [&] {
      auto* x = book->FindIntersection(p);
      check_find("FindIntersection(position on " + lane + " at " + dbl(s) + ")", true, x, [&](const Entry& e) {
        if (off) return false;
        for (const auto& r : e.region) if (r.lane_id().string() == lane && inside(r.s_range(), s)) return true;
        return false;
      });
    });
  }
  void check_region(const std::vector<LaneSRange>& region, double tol) {
    must("FindIntersections(region)", [&] {
      auto v = book->FindIntersections(region, tol);
      sim::Quiet q;
      for (auto& e : model) {
        bool want = false;
        for (const auto& a : e.second.region) for (const auto& b : region) if (a.lane_id() == b.lane_id() && meets(a.s_range(), b.s_range(), tol)) want = true;
        if (std::count(v.begin(), v.end(), e.second.ptr) != want) sim::violation(want ? "intersection-missing" : "intersection-wrong", "FindIntersections(" + str(LaneSRoute(region)) + ", " + dbl(tol) + ") about " + e.first);
      }
      for (auto* x : v) { bool known = false; for (auto& e : model) known = known || x == e.second.ptr; if (!known) sim::violation("intersection-extra", "FindIntersections()"); }
    });
  }
  void add() {
    if (sim::flip(1, 20)) { edit("add a null intersection", false, [&] { book->AddIntersection(nullptr); }, [&] { check(); }); return; }
    Entry* e;
    Box<rules::PhaseRing> ring;
    std::string id;
    bool no_provider = sim::flip(1, 20);
    bool ok;
    {
      sim::Quiet q;
      e = new Entry;
      id = some_name();
      RingSpec rs;
      e->ring = rs.id = "ring of " + id;
      rs.rows = subset(names(), 1, 3);
      rs.discretes = subset(names(), 1, 3);
      rs.with_bulbs = sim::flip(2, 3);
      for (const auto& n : subset(names(), 1, 3)) { rs.bulbs.emplace_back(TrafficLight::Id(n), BulbGroup::Id("g"), Bulb::Id("b")); if (rs.with_bulbs) e->lights.insert(n); }
      rs.nphases = 1 + sim::choose(2);
      rs.with_next = sim::flip(1, 2);
      ring = boxed([&] { return make_ring(&gen, rs); });
      e->rows.insert(rs.rows.begin(), rs.rows.end());
      e->discretes.insert(rs.discretes.begin(), rs.discretes.end());
      std::set<std::string> lanes;
      for (int i = 0, n = 1 + sim::choose(3); i < n; ++i) {
        std::string l = some_lane();
        if (lanes.insert(l).second) e->region.emplace_back(LaneId(l), SRange(sim::choose(10), sim::choose(10)));
      }
      e->region_digest = str(LaneSRoute(e->region));
      ok = !no_provider && !model.count(id);
    }
    {
      int kind = sim::choose(4);
      std::string thing;
      if (kind < 3) { sim::Quiet q; const auto& s = kind == 0 ? e->lights : kind == 1 ? e->discretes : e->rows; if (s.empty()) kind = 3; else { auto it = s.begin(); std::advance(it, sim::choose(s.size())); thing = *it; } }
      recall.before([this, kind, thing, id] { if (kind < 3) check_thing(kind, thing); else check_name(id); });
    }
    bool done = edit("add intersection " + id, ok, [&] {
      auto x = std::make_unique<maliput::Intersection>(maliput::api::Intersection::Id(id), e->region, *ring, no_provider ? nullptr : phases.get());
      e->ptr = x.get();
      book->AddIntersection(std::move(x));
    }, [&] { check(); });
    { sim::Quiet q; if (done) { model[id] = *e; sim::mark_nontrivial(); sim::probe("intersection_added"); } }
    recall.again();
    if (done && sim::flip(3, 4)) {
      // The ring gets a phase, or already had one from an intersection of an earlier attempt.
      bool set = edit("set the first phase of " + e->ring, true, [&] { phases->AddPhaseRing(rules::PhaseRing::Id(e->ring), ring->phases().begin()->first); }, [&] { recall.again(); });
      { sim::Quiet q; model[id].has_phase = set; }
      recall.again();
    }
    {
      sim::Quiet q;
      delete e;
      ring.reset();
    }
    check();
  }
  void step() {
    if (sim::flip(1, 2)) { add(); return; }
    if (alloc_faults()) {
      uint32_t k = random_k();
      attempt([&] { book->FindIntersection(TrafficLight::Id("g")); }, k);
      attempt([&] { book->FindIntersection(rules::RightOfWayRule::Id("g")); }, k);
      attempt([&] { book->FindIntersection(InertialPosition(1, 2, 3)); }, k);
    }
    check_positions();
    if (sim::flip(1, 3)) check();
  }
};
}  // namespace

void workload() {
  sim::set_step_cap(40000000);
  w::alloc_faults() = sim::flip(1, 2);
  sim::quietly([] { return names().size(); });
  uint32_t which = 1 + sim::choose(7);
  std::unique_ptr<Lights> lights;
  std::unique_ptr<Registry> registry;
  std::unique_ptr<Intersections> intersections;
  if (which & 1) lights = std::make_unique<Lights>();
  if (which & 2) registry = std::make_unique<Registry>();
  if (which & 4) intersections = std::make_unique<Intersections>();
  int n = 1 + sim::choose(3);
  int steps = 2 + sim::choose(20);
  w::clients(n, steps, [&](int) {
    for (uint32_t s = sim::choose(3);; s = (s + 1) % 3) {
      if (!(which >> s & 1)) continue;
      if (s == 0) lights->step();
      if (s == 1) registry->step();
      if (s == 2) intersections->step();
      return;
    }
  });
  std::string d;
  if (lights) { lights->check(); sim::Quiet q; for (auto& e : lights->model) d += e.first; }
  if (registry) { registry->check(); sim::Quiet q; for (auto& e : registry->discrete) d += e.first; for (auto& e : registry->range) d += e.first; }
  if (intersections) { intersections->check(); intersections->check_positions(); sim::Quiet q; for (auto& e : intersections->model) d += e.first + e.second.region_digest; }
  sim::mix_state(hash_of(d));
}
