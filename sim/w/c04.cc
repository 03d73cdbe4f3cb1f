// C04: Rulebook contents always equal the accepted edits.
#include "w/common.h"
#include "maliput/base/manual_rulebook.h"
#include "maliput/base/rule_filter.h"

const char* const kCheckId = "C04";

namespace {
using namespace w;
using maliput::ManualRulebook;
using Results = rules::RoadRulebook::QueryResults;

enum Kind { kRow, kSpeed, kUsage, kDiscrete, kRange };
const char* const kKind[] = {"right-of-way", "speed-limit", "direction-usage", "discrete", "range"};

struct Entry {
  Kind kind;
  std::string id, digest, type;
  std::vector<LaneSRange> zone;
};
using Contents = std::map<std::string, std::string>;  // "kind/id" -> digest

struct World {
  std::unique_ptr<ManualRulebook> book;
  std::map<std::pair<int, std::string>, Entry> model;
  Gen gen;
  Recall recall;
  bool shared = false;

  // ---- model ----
  bool has(Kind k, const std::string& id) const { return model.count({k, id}) > 0; }
  bool can_add(Kind k, const std::string& id) const {
    if (k == kDiscrete || k == kRange) return !has(kDiscrete, id) && !has(kRange, id);
    return !has(k, id);
  }
  Contents expect_all() const {
    Contents c;
    for (const auto& e : model) c[std::string(kKind[e.second.kind]) + "/" + e.second.id] = e.second.digest;
    return c;
  }
  static bool meets(const SRange& z, const SRange& q, double tol) {
    double zl = std::min(z.s0(), z.s1()) - tol, zh = std::max(z.s0(), z.s1()) + tol;
    double ql = std::min(q.s0(), q.s1()), qh = std::max(q.s0(), q.s1());
    return qh >= zl && ql <= zh;
  }
  Contents expect_find(const std::vector<LaneSRange>& ranges, double tol) const {
    Contents c;
    for (const auto& e : model)
      for (const LaneSRange& z : e.second.zone)
        for (const LaneSRange& r : ranges)
          if (z.lane_id() == r.lane_id() && meets(z.s_range(), r.s_range(), tol)) c[std::string(kKind[e.second.kind]) + "/" + e.second.id] = e.second.digest;
    return c;
  }
  template <class M>
  static void put(Contents* c, Kind k, const M& m) {
    for (const auto& kv : m) {
      if (!(kv.first == kv.second.id())) sim::violation("wrong-key", "a query result lists rule " + kv.second.id().string() + " under " + kv.first.string());
      (*c)[std::string(kKind[k]) + "/" + kv.first.string()] = str(kv.second);
    }
  }
  static Contents contents(const Results& r) {
    Contents c;
    put(&c, kRow, r.right_of_way);
    put(&c, kSpeed, r.speed_limit);
    put(&c, kUsage, r.direction_usage);
    put(&c, kDiscrete, r.discrete_value_rules);
    put(&c, kRange, r.range_value_rules);
    return c;
  }
  static void compare(const Contents& got, const Contents& want, const std::string& what) {
    for (const auto& kv : want) {
      auto it = got.find(kv.first);
      if (it == got.end()) sim::violation("rule-missing", what + " does not report rule " + kv.first);
      if (it->second != kv.second) sim::violation("rule-differs", what + " reports rule " + kv.first + " as " + it->second + " but it was added as " + kv.second);
    }
    for (const auto& kv : got)
      if (!want.count(kv.first)) sim::violation("rule-extra", what + " reports rule " + kv.first + ", which does not belong there");
  }

  // ---- lookups (live code, no faults) ----
  void check_all() {
    Box<Results> r;
    Outcome o = attempt([&] { Results x = book->Rules(); sim::Quiet q; r.reset(new Results(x)); });
    sim::Quiet q;
    if (o.threw) sim::violation("lookup-failed", "Rules() threw: " + o.what);
    compare(contents(*r), expect_all(), "Rules()");
  }
  void check_find(const std::vector<LaneSRange>& ranges, double tol) {
    Box<Results> r;
    Outcome o = attempt([&] { Results x = book->FindRules(ranges, tol); sim::Quiet q; r.reset(new Results(x)); });
    sim::Quiet q;
    std::string what = "FindRules(" + str(LaneSRoute(ranges)) + ", " + dbl(tol) + ")";
    if (o.threw) sim::violation("lookup-failed", what + " threw: " + o.what);
    compare(contents(*r), expect_find(ranges, tol), what);
  }
  void check_get(Kind k, const std::string& id) {
    std::string got;
    Outcome o = attempt([&] {
      switch (k) {
        case kRow: { auto x = book->GetRule(rules::RightOfWayRule::Id(id)); sim::Quiet q; got = str(x); break; }
        case kSpeed: { auto x = book->GetRule(rules::SpeedLimitRule::Id(id)); sim::Quiet q; got = str(x); break; }
        case kUsage: { auto x = book->GetRule(rules::DirectionUsageRule::Id(id)); sim::Quiet q; got = str(x); break; }
        case kDiscrete: { auto x = book->GetDiscreteValueRule(rules::Rule::Id(id)); sim::Quiet q; got = str(x); break; }
        case kRange: { auto x = book->GetRangeValueRule(rules::Rule::Id(id)); sim::Quiet q; got = str(x); break; }
      }
    });
    sim::Quiet q;
    std::string what = std::string("looking up ") + kKind[k] + " rule " + id;
    if (has(k, id)) {
      if (o.threw) sim::violation("rule-missing", what + " threw: " + o.what);
      const std::string& want = model.at({k, id}).digest;
      if (got != want) sim::violation("rule-differs", what + " gives " + got + " but it was added as " + want);
    } else {
      if (!o.threw) sim::violation("rule-extra", what + " succeeded although there is none");
      if (!o.out_of_range) sim::violation("wrong-error", what + " failed with something else than std::out_of_range: " + o.what);
    }
  }
  std::vector<LaneSRange> everything() {
    std::vector<LaneSRange> v;
    for (const auto& l : lanes()) v.emplace_back(LaneId(l), SRange(0., 1000.));
    return v;
  }
  std::vector<LaneSRange> random_query() {
    std::vector<LaneSRange> v;
    for (uint32_t i = 0, n = sim::choose(4); i < n; ++i) {
      uint32_t l = sim::choose(6);
      double a = sim::choose(9) + .5, b = sim::flip(1, 3) ? a : sim::choose(9) + .5;
      v.emplace_back(LaneId(l < 5 ? lanes()[l] : "unknown lane"), SRange(a, b));
    }
    return v;
  }
  // The id just edited, in every kind, plus the two complete views.
  void check_around(const std::string& id) {
    recall.again();
    check_all();
    check_find(quiet([this] { return everything(); }), 0.);
    for (int k = 0; k < 5; ++k) check_get(static_cast<Kind>(k), id);
  }
  template <class F>
  auto quiet(F f) -> decltype(f()) { sim::Quiet q; return f(); }
  void check_everything() {
    recall.again();
    check_all();
    check_find(quiet([this] { return everything(); }), 0.);
    for (const auto& n : names())
      for (int k = 0; k < 5; ++k) check_get(static_cast<Kind>(k), n);
    for (const auto& l : lanes())
      check_find(quiet([&] { return std::vector<LaneSRange>{LaneSRange(LaneId(l), SRange(3.5, 4.5))}; }), .25);
  }

  // ---- edits ----
  void add() {
    Kind k = static_cast<Kind>(sim::choose(5));
    std::string id;
    Box<rules::RightOfWayRule> row;
    Box<rules::SpeedLimitRule> speed;
    Box<rules::DirectionUsageRule> usage;
    Box<rules::DiscreteValueRule> disc;
    Box<rules::RangeValueRule> range;
    Entry e;
    bool ok;
    {
      sim::Quiet q;
      id = names()[sim::choose(names().size())];
      e.kind = k;
      e.id = id;
      e.type = sim::flip(1, 2) ? "type one" : "type number two with a long name";
      LaneSRoute zone = gen.route();
      LaneSRange zone1 = gen.lane_s_range();
      e.zone = zone.ranges();
      switch (k) {
        case kRow: row = boxed([&] { return gen.right_of_way(id, zone); }); e.digest = str(*row); break;
        case kSpeed: speed = boxed([&] { return gen.speed(id, zone1); }); e.digest = str(*speed); e.zone = {zone1}; break;
        case kUsage: usage = boxed([&] { return gen.usage(id, zone1); }); e.digest = str(*usage); e.zone = {zone1}; break;
        case kDiscrete: disc = boxed([&] { return gen.discrete(id, e.type, zone); }); e.digest = str(*disc); break;
        case kRange: range = boxed([&] { return gen.range_rule(id, e.type, zone); }); e.digest = str(*range); break;
      }
      ok = can_add(k, id);
    }
    recall.before([this, k, id] { check_get(k, id); });
    bool done = edit(quiet([&] { return "add " + e.digest; }), ok, [&] {
      switch (k) {
        case kRow: book->AddRule(*row); break;
        case kSpeed: book->AddRule(*speed); break;
        case kUsage: book->AddRule(*usage); break;
        case kDiscrete: book->AddRule(*disc); break;
        case kRange: book->AddRule(*range); break;
      }
    }, [&] { check_around(id); });
    {
      sim::Quiet q;
      if (done) { model[{k, id}] = e; sim::mark_nontrivial(); }
      // the book must not depend on the caller's object
      row.reset(); speed.reset(); usage.reset(); disc.reset(); range.reset();
    }
    recall.again();
    if (sim::flip(1, 2)) check_around(id);
  }

  void remove() {
    Kind k = static_cast<Kind>(sim::choose(5));
    std::string id = quiet([] { return names()[sim::choose(names().size())]; });
    if (!model.empty() && !sim::flip(1, 4)) {  // mostly something that is there
      sim::Quiet q;
      auto it = model.begin();
      std::advance(it, sim::choose(model.size()));
      k = it->second.kind;
      id = it->second.id;
    }
    bool ok = quiet([&] { return k >= kDiscrete ? has(kDiscrete, id) || has(kRange, id) : has(k, id); });
    recall.before([this, k, id] { check_get(k, id); });
    bool done = edit(quiet([&] { return std::string("remove ") + kKind[k] + " " + id; }), ok, [&] {
      switch (k) {
        case kRow: book->RemoveRule(rules::RightOfWayRule::Id(id)); break;
        case kSpeed: book->RemoveRule(rules::SpeedLimitRule::Id(id)); break;
        case kUsage: book->RemoveRule(rules::DirectionUsageRule::Id(id)); break;
        default: book->RemoveRule(rules::Rule::Id(id)); break;
      }
    }, [&] { check_around(id); });
    {
      sim::Quiet q;
      if (done) {
        if (k >= kDiscrete) { model.erase({kDiscrete, id}); model.erase({kRange, id}); }
        else model.erase({k, id});
        sim::probe("removed");
      }
    }
    recall.again();
    if (sim::flip(1, 2)) check_around(id);
  }

  void remove_all() {
    recall.before([this] { check_all(); });
    bool done = edit("remove all rules", true, [&] { book->RemoveAll(); }, [&] { check_everything(); });
    { sim::Quiet q; if (done) model.clear(); }
    check_everything();
  }

  void query() {
    static const double tols[] = {0., .125, .25, 1.25};
    auto ranges = quiet([this] { return random_query(); });
    double tol = tols[sim::choose(4)];
    if (sim::flip(1, 12)) {
      Outcome o = attempt([&] { book->FindRules(ranges, -.25); });
      SIM_CHECK(o.threw, "edit-accepted", "a query with negative tolerance was accepted");
    }
    if (alloc_faults() && sim::flip(1, 4)) {  // a failed query spoils nothing
      uint32_t k = random_k();
      attempt([&] { book->FindRules(ranges, tol); }, k);
      attempt([&] { book->Rules(); }, k);
    }
    check_find(ranges, tol);
    if (sim::flip(1, 3)) recall.keep([this, ranges, tol] { check_find(ranges, tol); });
    if (sim::flip(1, 6)) filter();
  }

  void filter() {
    std::string type = quiet([] { return std::string("type one"); });
    Box<Results> out;
    attempt([&] {
      Results all = book->Rules();
      Results f = maliput::FilterRules(all, {[&type](const rules::DiscreteValueRule& r) { return r.type_id().string() == type; }},
                                       {[&type](const rules::RangeValueRule& r) { return r.type_id().string() != type; }});
      sim::Quiet q;
      out.reset(new Results(f));
    });
    sim::Quiet q;
    Contents want;
    for (const auto& e : model) {
      if (e.second.kind == kDiscrete && e.second.type != type) continue;
      if (e.second.kind == kRange && e.second.type == type) continue;
      want[std::string(kKind[e.second.kind]) + "/" + e.second.id] = e.second.digest;
    }
    if (!out) sim::violation("lookup-failed", "FilterRules threw");
    compare(contents(*out), want, "FilterRules");
  }

  void step() {
    uint32_t r = sim::choose(100);
    if (r < 45) add();
    else if (r < 72) remove();
    else if (r < 96) query();
    else if (r < 98) remove_all();
    else check_everything();
  }
};
}  // namespace

void workload() {
  sim::set_step_cap(40000000);
  w::alloc_faults() = sim::flip(1, 2);
  World* world;
  { sim::Quiet q; world = new World; world->gen.similar_values = sim::flip(1, 2); }
  {
    auto b = std::make_unique<maliput::ManualRulebook>();
    world->book = std::move(b);
  }
  int n = 1 + sim::choose(3);
  int steps = 3 + sim::choose(30);
  w::clients(n, steps, [world](int) { world->step(); });
  world->check_everything();
  if (sim::flip(1, 2)) {  // everything that is there can be removed
    while (!world->model.empty()) {
      Entry e;
      { sim::Quiet q; e = world->model.begin()->second; world->model.erase(world->model.begin()); }
      Outcome o = attempt([&] {
        switch (e.kind) {
          case kRow: world->book->RemoveRule(rules::RightOfWayRule::Id(e.id)); break;
          case kSpeed: world->book->RemoveRule(rules::SpeedLimitRule::Id(e.id)); break;
          case kUsage: world->book->RemoveRule(rules::DirectionUsageRule::Id(e.id)); break;
          default: world->book->RemoveRule(rules::Rule::Id(e.id)); break;
        }
      });
      SIM_CHECK(!o.threw, "edit-rejected", "rule " + e.id + " cannot be removed: " + o.what);
    }
    world->check_everything();
  }
  { sim::Quiet q; std::string s; for (auto& e : world->model) s += e.second.digest; sim::mix_state(hash_of(s)); }
  world->book.reset();
  { sim::Quiet q; delete world; }
}
