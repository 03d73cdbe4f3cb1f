// C08: Right-of-way, discrete and light states agree with the current phase.
#include "maliput/base/intersection.h"
#include "maliput/base/manual_phase_provider.h"
#include "maliput/base/manual_phase_ring_book.h"
#include "maliput/base/phase_based_right_of_way_rule_state_provider.h"
#include "maliput/base/phased_discrete_rule_state_provider.h"
#include "w/site.h"

const char* const kCheckId = "C08";

namespace {
using namespace w;

struct PhaseM {
  std::string id;
  std::map<std::string, std::string> rows;                                   // right-of-way rule -> state
  std::map<std::string, rules::DiscreteValueRule::DiscreteValue> discretes;  // rule -> state
  std::vector<std::pair<rules::UniqueBulbId, rules::BulbState>> bulbs;
};
struct RingM {  // one version of a ring
  std::string id;
  bool with_bulbs = false;
  std::vector<PhaseM> phases;
  std::vector<std::pair<int, int>> arcs;  // announced successors
  const PhaseM& phase(const std::string& p) const {
    for (const auto& x : phases) if (x.id == p) return x;
    std::abort();
  }
  bool governs_row(const std::string& n) const { return phases[0].rows.count(n); }
  bool governs(const std::string& n) const { return phases[0].discretes.count(n); }
  rules::PhaseRing make() const {
    std::vector<rules::Phase> v;
    std::unordered_map<rules::Phase::Id, std::vector<rules::PhaseRing::NextPhase>> next;
    for (const auto& p : phases) {
      rules::RuleStates rs;
      rules::DiscreteValueRuleStates ds;
      rules::BulbStates bs;
      for (const auto& r : p.rows) rs.emplace(rules::RightOfWayRule::Id(r.first), rules::RightOfWayRule::State::Id(r.second));
      for (const auto& r : p.discretes) ds.emplace(rules::Rule::Id(r.first), r.second);
      for (const auto& b : p.bulbs) bs.emplace(b.first, b.second);
      v.emplace_back(rules::Phase::Id(p.id), rs, ds, with_bulbs ? std::optional<rules::BulbStates>(bs) : std::nullopt);
      next[rules::Phase::Id(p.id)];
    }
    for (const auto& a : arcs) next[rules::Phase::Id(phases[a.first].id)].push_back({rules::Phase::Id(phases[a.second].id), a.first % 2 ? std::optional<double>(.25 + a.second) : std::nullopt});
    return rules::PhaseRing(rules::PhaseRing::Id(id), v, next);
  }
};
struct Current {
  std::string phase;
  std::optional<std::string> next;
  std::optional<double> in;
};

struct World {
  Site site;
  maliput::ManualPhaseRingBook book;
  maliput::ManualPhaseProvider phases;
  std::unique_ptr<maliput::PhaseBasedRightOfWayRuleStateProvider> rows;
  std::unique_ptr<maliput::PhasedDiscreteRuleStateProvider> discretes;
  std::map<std::string, rules::DiscreteValueRule> known;
  struct Place {  // an intersection
    std::unique_ptr<maliput::Intersection> i;
    RingM ring;
    std::string id, region;
  };
  std::vector<Place> places;
  std::vector<RingM> rings;                // the current version of every ring
  std::map<std::string, RingM> in_book;
  std::map<std::string, Current> current;  // what the phase provider was told
  std::map<std::string, std::string> manual;
  int version = 0;
  Recall recall;

  RingM random_ring(const std::string& id, const RingM* like, std::vector<std::string>* free_rows, std::vector<std::string>* free_discretes) {  // quiet
    RingM r;
    r.id = id;
    ++version;
    std::vector<std::string> rs, ds;
    std::vector<rules::UniqueBulbId> bulbs;
    int n = 1 + sim::choose(4);
    if (like) {
      r.with_bulbs = like->with_bulbs;
      n = like->phases.size();
      for (auto& e : like->phases[0].rows) rs.push_back(e.first);
      for (auto& e : like->phases[0].discretes) ds.push_back(e.first);
      for (auto& e : like->phases[0].bulbs) bulbs.push_back(e.first);
    } else {
      auto take = [](std::vector<std::string>* from, std::vector<std::string>* to) {
        for (size_t i = 0; i < from->size();) {
          if (sim::flip(1, 3)) { to->push_back((*from)[i]); from->erase(from->begin() + i); }
          else ++i;
        }
      };
      take(free_rows, &rs);
      take(free_discretes, &ds);
      r.with_bulbs = sim::flip(2, 3);
      for (int l = 0; l < 3; ++l)
        for (int b = 0; b < 2; ++b)
          if (sim::flip(1, 3)) bulbs.emplace_back(rules::TrafficLight::Id(l == 1 ? "light with a long name" : "light " + num(l)), rules::BulbGroup::Id("group"), rules::Bulb::Id("bulb " + num(b)));
    }
    for (int p = 0; p < n; ++p) {
      PhaseM m;
      m.id = (p % 2 ? "p" : "phase with a longer name ") + num(p);
      for (auto& x : rs) m.rows[x] = "state " + num(version) + "/" + num(sim::choose(4));
      for (auto& x : ds) {
        auto k = known.find(x);
        m.discretes.emplace(x, k != known.end() && sim::flip(2, 3) ? k->second.states()[sim::choose(k->second.states().size())] : site.gen.value(100 * version + p));
      }
      for (auto& b : bulbs) m.bulbs.emplace_back(b, static_cast<rules::BulbState>(sim::choose(3)));
      r.phases.push_back(m);
    }
    for (int p = 0; p < n; ++p)
      if (sim::flip(2, 3)) r.arcs.emplace_back(p, (p + 1) % n);
    return r;
  }

  void start() {
    {
      sim::Quiet q;
      for (const auto& e : site.book->Rules().discrete_value_rules) known.emplace(e.first.string(), e.second);
      std::vector<std::string> r = names(), d = names();
      for (int i = 0, n = 1 + sim::choose(3); i < n; ++i) rings.push_back(random_ring(i == 1 ? "ring with a long enough name" : "ring " + num(i), nullptr, &r, &d));
    }
    edit("make providers without phase provider", false, [&] { maliput::PhasedDiscreteRuleStateProvider p(site.book.get(), &book, nullptr); }, [] {});
    edit("make providers without ring book", false, [&] { maliput::PhasedDiscreteRuleStateProvider p(site.book.get(), nullptr, &phases); }, [] {});
    rows = std::make_unique<maliput::PhaseBasedRightOfWayRuleStateProvider>(&book, &phases);
    if (sim::flip(1, 2) && edit("make a discrete provider with default states", true, [&] { discretes = maliput::PhasedDiscreteRuleStateProvider::GetDefaultPhasedDiscreteRuleStateProvider(site.book.get(), &book, &phases); }, [] {})) {
      sim::Quiet q;
      for (auto& e : known) manual[e.first] = str(e.second.states().front());
    }
    if (!discretes) discretes = std::make_unique<maliput::PhasedDiscreteRuleStateProvider>(site.book.get(), &book, &phases);
    for (const auto& r : rings) {
      if (sim::flip(1, 4)) continue;
      add_place(r);
    }
    for (size_t i = 0; i < rings.size(); ++i) {
      if (!sim::flip(1, 5)) to_book(rings[i]);
      if (!sim::flip(1, 5)) announce(rings[i], true, nullptr);
    }
  }
  void add_place(const RingM& r) {
    std::vector<LaneSRange> region;
    Box<rules::PhaseRing> ring = boxed([&] { return r.make(); });
    Place p;
    {
      sim::Quiet q;
      region = site.zone().ranges();
      p.ring = r;
      p.id = "intersection of " + r.id;
      for (auto& z : region) p.region += str(z);
    }
    bool done = edit("make " + p.id, true, [&] { p.i = std::make_unique<maliput::Intersection>(api::Intersection::Id(p.id), region, *ring, &phases); }, [] {});
    edit("make an intersection without phase provider", false, [&] { maliput::Intersection x(api::Intersection::Id("x"), region, *ring, nullptr); }, [] {});
    { sim::Quiet q; if (done) places.push_back(std::move(p)); }
    drop(&ring);
  }
  void to_book(const RingM& r) {
    Box<rules::PhaseRing> ring = boxed([&] { return r.make(); });
    ask_before(r);
    bool done = edit("add " + r.id + " to the book", !in_book.count(r.id), [&] { book.AddPhaseRing(*ring); }, [&] { brief(); });
    { sim::Quiet q; if (done) in_book[r.id] = r; }
    drop(&ring);
  }

  // ---- checks ----
  template <class F>
  std::string ask(const std::string& what, F f) {  // asks with an allocation failing, perhaps, and then without
    std::string got;
    if (alloc_faults() && sim::flip(1, 8)) {
      std::string first;
      Outcome o = attempt([&] { first = f(); }, random_k(), sim::flip(1, 2));
      sim::Quiet q;
      if (o.threw && !o.injected) sim::violation("lookup-failed", what + " threw: " + o.what);
      if (o.injected) sim::probe("query_hit_by_allocation_failure");
      got = f();
      if (!o.threw && first != got) sim::violation("answer-changed", what + " is " + first + " when an allocation fails and " + got + " otherwise");
      return got;
    }
    Outcome o = attempt([&] { got = f(); });
    SIM_CHECK(!o.threw, "lookup-failed", what + " threw: " + o.what);
    return got;
  }
  void compare(const std::string& what, const std::string& got, const std::string& want) { SIM_CHECK(got == want, "state-differs", what + " is " + got + " instead of " + want); }

  std::string want_row(const std::string& n) const {
    for (const auto& e : in_book) {
      auto c = current.find(e.first);
      if (!e.second.governs_row(n) || c == current.end()) continue;
      std::optional<std::string> nx;
      if (c->second.next) nx = e.second.phase(*c->second.next).rows.at(n);
      return result(e.second.phase(c->second.phase).rows.at(n), nx, c->second.in);
    }
    return "nothing";
  }
  std::string want_discrete(const std::string& n, bool* governed = nullptr) const {
    for (const auto& e : in_book) {
      auto c = current.find(e.first);
      if (!e.second.governs(n) || c == current.end()) continue;
      if (governed) *governed = true;
      std::optional<std::string> nx;
      if (c->second.next) nx = str(e.second.phase(*c->second.next).discretes.at(n));
      return result(str(e.second.phase(c->second.phase).discretes.at(n)), nx, c->second.in);
    }
    auto it = manual.find(n);
    return it == manual.end() ? "nothing" : it->second;
  }
  void check_rule(const std::string& n) {
    std::string row = ask("right-of-way state of " + n, [&] { auto r = rows->GetState(rules::RightOfWayRule::Id(n)); sim::Quiet q; return result(r); });
    std::string dis = ask("discrete state of " + n, [&] { auto r = discretes->GetState(rules::Rule::Id(n)); sim::Quiet q; return result(r); });
    sim::Quiet q;
    compare("right-of-way state of " + n, row, want_row(n));
    bool governed = false;
    std::string want = want_discrete(n, &governed);
    if (governed) sim::probe("state_from_phase");
    else if (want != "nothing") sim::probe("state_from_fallback");
    compare("discrete state of " + n, dis, want);
  }
  void check_place(const Place& p) {
    auto c = current.find(p.ring.id);
    std::string want = "nothing", bulbs = "nothing", rs = "nothing", ds = "nothing", incl;
    {
      sim::Quiet q;
      std::set<std::string> lights, r_in, d_in;
      if (c != current.end()) {
        const PhaseM& m = p.ring.phase(c->second.phase);
        want = result(m.id, c->second.next, c->second.in);
        std::map<std::string, std::string> b, r, d;
        for (auto& x : m.bulbs) { b[str(x.first)] = num(static_cast<int>(x.second)); if (p.ring.with_bulbs) lights.insert(x.first.traffic_light_id().string()); }
        for (auto& x : m.rows) { r[x.first] = x.second; r_in.insert(x.first); }
        for (auto& x : m.discretes) { d[x.first] = str(x.second); d_in.insert(x.first); }
        auto join = [](const std::map<std::string, std::string>& mm) { std::string s; for (auto& e : mm) s += e.first + "=" + e.second + ";"; return s; };
        if (p.ring.with_bulbs) bulbs = join(b);
        rs = join(r);
        ds = join(d);
      }
      for (int l = 0; l < 4; ++l) incl += lights.count(l == 1 ? "light with a long name" : "light " + num(l)) ? "1" : "0";
      for (auto& n : names()) { incl += r_in.count(n) ? "1" : "0"; incl += d_in.count(n) ? "1" : "0"; }
    }
    compare("phase of " + p.id, ask("phase of " + p.id, [&] { auto r = p.i->Phase(); sim::Quiet q; return result(r); }), want);
    compare("bulb states of " + p.id, ask("bulb states", [&] {
      auto x = p.i->bulb_states();
      sim::Quiet q;
      if (!x) return std::string("nothing");
      std::map<std::string, std::string> m;
      for (auto& e : *x) m[str(e.first)] = num(static_cast<int>(e.second));
      std::string s;
      for (auto& e : m) s += e.first + "=" + e.second + ";";
      return s;
    }), bulbs);
    compare("right-of-way states of " + p.id, ask("right-of-way states", [&] {
      auto x = p.i->RuleStates();
      sim::Quiet q;
      if (!x) return std::string("nothing");
      std::map<std::string, std::string> m;
      for (auto& e : *x) m[e.first.string()] = e.second.string();
      std::string s;
      for (auto& e : m) s += e.first + "=" + e.second + ";";
      return s;
    }), rs);
    compare("discrete states of " + p.id, ask("discrete states", [&] {
      auto x = p.i->DiscreteValueRuleStates();
      sim::Quiet q;
      if (!x) return std::string("nothing");
      std::map<std::string, std::string> m;
      for (auto& e : *x) m[e.first.string()] = str(e.second);
      std::string s;
      for (auto& e : m) s += e.first + "=" + e.second + ";";
      return s;
    }), ds);
    compare("what is included in " + p.id, ask("inclusion", [&] {
      std::string s;
      for (int l = 0; l < 4; ++l) s += p.i->Includes(rules::TrafficLight::Id(l == 1 ? "light with a long name" : "light " + std::to_string(l))) ? "1" : "0";
      for (auto& n : names()) { s += p.i->Includes(rules::RightOfWayRule::Id(n)) ? "1" : "0"; s += p.i->Includes(rules::Rule::Id(n)) ? "1" : "0"; }
      return s;
    }), incl);
    sim::Quiet q;
    std::string region;
    for (auto& z : p.i->region()) region += str(z);
    if (p.i->id().string() != p.id || region != p.region || p.i->ring_id().string() != p.ring.id) sim::violation("state-differs", "identity of " + p.id);
  }
  void check_place_at(int k) { check_place(places[k]); }
  // Something about ring `r` is asked before an edit, and again after it.
  void ask_before(const RingM& r) {
    std::string rule;
    int place = -1;
    {
      sim::Quiet q;
      std::vector<std::string> v;
      for (auto& e : r.phases[0].rows) v.push_back(e.first);
      for (auto& e : r.phases[0].discretes) v.push_back(e.first);
      for (size_t i = 0; i < places.size(); ++i) if (places[i].ring.id == r.id) place = i;
      if (!v.empty() && (place < 0 || sim::flip(1, 2))) { rule = v[sim::choose(v.size())]; place = -1; }
    }
    recall.before([this, rule, place] { if (place >= 0) check_place_at(place); else if (!rule.empty()) check_rule(rule); });
  }
  void check_position() {
    const NetSpec& sp = site.spec;
    int si = sim::choose(sp.segs.size()), li = sim::choose(sp.segs[si].lanes);
    double s = sim::choose(9) + .5;
    double tol = sim::choose(3) * .75;
    std::string type = sim::quietly([&] { return site.types[sim::choose(3)]; }), lane = sim::quietly([&] { return sp.lane_name(si, li); });
    check_point(si, li, lane, s, type, tol);
    if (sim::flip(1, 2)) recall.keep([this, si, li, lane, s, type, tol] { check_point(si, li, lane, s, type, tol); });
  }
  void check_point(int si, int li, const std::string& lane, double s, const std::string& type, double tol) {
    api::RoadPosition rp(site.net.lanes[si][li], api::LanePosition(s, 0., 0.));
    std::string got = ask("discrete state at a position", [&] { auto r = discretes->GetState(rp, rules::Rule::TypeId(type), tol); sim::Quiet q; return result(r); });
    sim::Quiet q;
    bool any = false, ok = false;
    std::string wants;
    for (const auto& e : known) {
      if (e.second.type_id().string() != type) continue;
      bool here = false;
      for (const auto& z : e.second.zone().ranges())
        if (z.lane_id().string() == lane && std::min(z.s_range().s0(), z.s_range().s1()) - tol <= s && s <= std::max(z.s_range().s0(), z.s_range().s1()) + tol) here = true;
      if (!here) continue;
      any = true;
      std::string w = want_discrete(e.first);
      ok = ok || w == got;
      wants += " or " + w;
    }
    if (any) sim::probe("rule_found_by_position");
    if (any ? !ok : got != "nothing") sim::violation("position-state-differs", "state at " + lane + " " + dbl(s) + " of type " + type + " is " + got + " instead of" + (any ? wants : std::string(" nothing")));
  }
  void check() {
    recall.again();
    for (const auto& n : names()) check_rule(n);
    for (const auto& p : places) check_place(p);
  }

  void brief() {  // after a failed edit
    recall.again();
    if (sim::flip(1, 6)) { check(); return; }
    for (int i = 0; i < 2; ++i) check_rule(names()[sim::choose(names().size())]);
    if (!places.empty()) check_place(places[sim::choose(places.size())]);
  }

  // ---- what controllers do ----
  // Announces a phase of ring `r`; gives the time after which the next one is due.
  double announce(const RingM& r, bool add, const Place* via) {
    Current c;
    std::optional<rules::Phase::Id> next;
    bool valid;
    {
      sim::Quiet q;
      auto it = current.find(r.id);
      c.phase = it != current.end() && it->second.next && sim::flip(3, 4) ? *it->second.next : r.phases[sim::choose(r.phases.size())].id;
      if (sim::flip(3, 4)) {
        c.next = r.phases[sim::choose(r.phases.size())].id;
        for (auto& a : r.arcs) if (r.phases[a.first].id == c.phase && sim::flip(3, 4)) c.next = r.phases[a.second].id;
      }
      if (c.next ? sim::flip(2, 3) : sim::flip(1, 8)) c.in = sim::choose(40) * .25;
      if (c.next) next.emplace(*c.next);
      valid = (c.next || !c.in) && (add ? it == current.end() : it != current.end());
    }
    std::string what = r.id + " in " + result(c.phase, c.next, c.in);
    bool done;
    ask_before(r);
    if (add) done = edit("add " + what, valid, [&] { phases.AddPhaseRing(rules::PhaseRing::Id(r.id), rules::Phase::Id(c.phase), next, c.in); }, [&] { brief(); });
    else if (via) done = edit("through the intersection, put " + what, valid, [&] { via->i->SetPhase(rules::Phase::Id(c.phase), next, c.in); }, [&] { brief(); });
    else done = edit("put " + what, valid, [&] { phases.SetPhase(rules::PhaseRing::Id(r.id), rules::Phase::Id(c.phase), next, c.in); }, [&] { brief(); });
    sim::Quiet q;
    if (done) { current[r.id] = c; sim::mark_nontrivial(); sim::probe(via ? "phase_set_through_intersection" : "phase_set_directly"); }
    next.reset();
    return c.in.value_or(1.);
  }
  double drive(int k) {
    double d = drive_once(k);
    recall.again();
    return d;
  }
  double drive_once(int k) {  // one step of the controller of ring k
    RingM& r = rings[k];
    bool in_provider = sim::quietly([&] { return current.count(r.id) > 0; });
    const Place* via = nullptr;
    { sim::Quiet q; for (auto& p : places) if (p.ring.id == r.id && sim::flip(1, 2)) via = &p; }
    switch (sim::choose(10)) {
      case 0: return announce(r, true, nullptr);  // rejected when already there
      case 1: bookkeeping(k); return .5;
      case 2: set_manual(); return .5;
      case 3: check_position(); return .25;
      case 4: bad_ring(r); return .25;
      default: return announce(r, !in_provider && sim::flip(1, 2), via);
    }
  }
  void bookkeeping(int k) {  // the ring is withdrawn, or added, perhaps in a new version
    RingM& r = rings[k];
    if (in_book.count(r.id)) {
      if (sim::flip(1, 3)) { to_book(r); return; }
      ask_before(r);
      bool done = edit("remove " + r.id + " from the book", true, [&] { book.RemovePhaseRing(rules::PhaseRing::Id(r.id)); }, [&] { brief(); });
      sim::Quiet q;
      if (done) in_book.erase(r.id);
    } else {
      if (sim::flip(1, 2)) { sim::Quiet q; sim::probe("new_version_of_ring"); r = random_ring(r.id, &r, nullptr, nullptr); }
      to_book(r);
    }
  }
  void set_manual() {
    std::string id, want;
    Box<rules::DiscreteValueRule::DiscreteValue> v;
    {
      sim::Quiet q;
      if (known.empty()) return;
      auto it = known.begin();
      std::advance(it, sim::choose(known.size()));
      id = it->first;
      v.reset(new rules::DiscreteValueRule::DiscreteValue(it->second.states()[sim::choose(it->second.states().size())]));
      want = str(*v);
    }
    recall.before([this, id] { check_rule(id); });
    bool done = edit("set discrete rule " + id + " to " + want, true, [&] { discretes->SetState(rules::Rule::Id(id), *v, std::nullopt, std::nullopt); }, [&] { brief(); });
    { sim::Quiet q; if (done) manual[id] = want; }
    drop(&v);
  }
  void bad_ring(const RingM& good) {  // cannot be constructed
    RingM r;
    std::string why;
    std::vector<rules::Phase> v;
    std::unordered_map<rules::Phase::Id, std::vector<rules::PhaseRing::NextPhase>> next;
    {
      sim::Quiet q;
      r = good;
      if (r.phases.size() < 2) { r.phases.push_back(r.phases[0]); r.phases[1].id = "second"; }
      int at = sim::choose(r.phases.size());
      PhaseM& p = r.phases[at];
      bool drop_bulbs = false, no_phase = false;
      int next_case = 0;
      switch (sim::choose(10)) {
        case 0: p.rows["one rule more"] = "x"; why = "one phase covers one right-of-way rule more"; break;
        case 1: if (p.rows.empty()) p.rows["one"] = "x"; else { auto s = p.rows.begin()->second; p.rows.erase(p.rows.begin()); p.rows["another rule"] = s; } why = "one phase covers another right-of-way rule"; break;
        case 2: p.discretes.emplace("one rule more", site.gen.value(1)); why = "one phase covers one discrete rule more"; break;
        case 3: if (!p.discretes.empty()) p.discretes.erase(p.discretes.begin()); p.discretes.emplace("another rule", site.gen.value(1)); why = "one phase covers another discrete rule"; break;
        case 4: r.with_bulbs = true; p.bulbs.emplace_back(rules::UniqueBulbId(rules::TrafficLight::Id("l"), rules::BulbGroup::Id("g"), rules::Bulb::Id("extra")), rules::BulbState::kOn); why = "one phase has one bulb more"; break;
        case 5: r.with_bulbs = true; drop_bulbs = true; why = "one phase does without bulb states"; break;
        case 6: p.id = r.phases[at ? 0 : 1].id; why = "two phases share an identifier"; break;
        case 7: next_case = 1 + sim::choose(3); why = next_case == 1 ? "a next phase is not in the ring" : next_case == 2 ? "successors of an unknown phase" : "a phase without successors"; break;
        case 8:
          r.with_bulbs = true;
          if (p.bulbs.empty()) for (auto& x : r.phases) x.bulbs.emplace_back(rules::UniqueBulbId(rules::TrafficLight::Id("l"), rules::BulbGroup::Id("g"), rules::Bulb::Id("b")), rules::BulbState::kOn);
          p.bulbs.back().first = rules::UniqueBulbId(rules::TrafficLight::Id("l"), rules::BulbGroup::Id("g"), rules::Bulb::Id("another"));
          why = "one phase has another bulb";
          break;
        default: no_phase = true; why = "no phases"; break;
      }
      for (size_t i = 0; i < r.phases.size(); ++i) {
        const PhaseM& m = r.phases[i];
        rules::RuleStates rs;
        rules::DiscreteValueRuleStates ds;
        rules::BulbStates bs;
        for (const auto& x : m.rows) rs.emplace(rules::RightOfWayRule::Id(x.first), rules::RightOfWayRule::State::Id(x.second));
        for (const auto& x : m.discretes) ds.emplace(rules::Rule::Id(x.first), x.second);
        for (const auto& b : m.bulbs) bs.emplace(b.first, b.second);
        v.emplace_back(rules::Phase::Id(m.id), rs, ds, r.with_bulbs && !(drop_bulbs && static_cast<int>(i) == at) ? std::optional<rules::BulbStates>(bs) : std::nullopt);
        next[rules::Phase::Id(m.id)];
      }
      if (no_phase) { v.clear(); next.clear(); }
      if (next_case == 1) next[rules::Phase::Id(p.id)].push_back({rules::Phase::Id("a phase from elsewhere"), sim::flip(1, 2) ? std::optional<double>(2.) : std::nullopt});
      if (next_case >= 2) next.erase(rules::Phase::Id(p.id));
      if (next_case == 2) next[rules::Phase::Id("an unknown phase")];
      sim::probe("bad_ring");
    }
    bool with_next = why.find("next") != std::string::npos || why.find("successors") != std::string::npos || sim::flip(1, 2);
    edit("make a ring where " + why, false, [&] {
      if (with_next) rules::PhaseRing x(rules::PhaseRing::Id("r"), v, next);
      else rules::PhaseRing x(rules::PhaseRing::Id("r"), v);
    }, [] {});
    sim::Quiet q;
    v.clear();
    next.clear();
  }
};
}  // namespace

void workload() {
  sim::set_step_cap(40000000);
  w::alloc_faults() = sim::flip(1, 2);
  World* world;
  { sim::Quiet q; names(); world = new World; }
  world->start();
  world->check();
  std::mutex m;
  std::vector<int> ids;
  int steps = 2 + sim::choose(8);
  for (size_t k = 0; k < world->rings.size(); ++k) {
    int id = sim::spawn([world, &m, k, steps] {
      for (int i = 0; i < steps; ++i) {
        double pause;
        {
          std::lock_guard<std::mutex> l(m);
          pause = world->drive(k);
          { sim::Quiet q; sim::event("t=" + dbl(sim::now_ns() * 1e-9)); }
          if (sim::flip(1, 2)) world->check();
          else world->check_position();
        }
        sim::sleep_ns(static_cast<uint64_t>(pause * 1e9) + 1000);
      }
    });
    sim::Quiet q;
    ids.push_back(id);
  }
  for (int id : ids) sim::join(id);
  world->check();
  {
    sim::Quiet q;
    std::string s;
    for (auto& e : world->current) s += e.first + result(e.second.phase, e.second.next, e.second.in);
    for (auto& e : world->manual) s += e.first + e.second;
    for (auto& e : world->in_book) s += e.first;
    sim::mix_state(hash_of(s));
    delete world;
  }
}
