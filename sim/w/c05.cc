// C05: Phase ring book contents always equal the accepted edits.
#include "w/common.h"
#include "maliput/base/manual_phase_ring_book.h"

const char* const kCheckId = "C05";

namespace {
using namespace w;
using Ring = rules::PhaseRing;

struct Entry {
  std::string digest;
  std::set<std::string> rows, discretes;
};

const std::vector<std::string>& ring_names() {
  static const std::vector<std::string> v = {"r1", "r2", "a ring with an identifier of some length", "r4", "r5"};
  return v;
}

struct World {
  std::unique_ptr<maliput::ManualPhaseRingBook> book;
  std::map<std::string, Entry> model;
  Gen gen;
  Recall recall;

  const Entry* owner(bool row, const std::string& rule, std::string* ring = nullptr) const {
    for (const auto& e : model)
      if ((row ? e.second.rows : e.second.discretes).count(rule)) { if (ring) *ring = e.first; return &e.second; }
    return nullptr;
  }

  void check_list() {
    std::vector<std::string> got;
    Outcome o = attempt([&] {
      auto v = book->GetPhaseRings();
      sim::Quiet q;
      for (const auto& x : v) got.push_back(x.string());
    });
    sim::Quiet q;
    if (o.threw) sim::violation("lookup-failed", "GetPhaseRings() threw: " + o.what);
    std::sort(got.begin(), got.end());
    std::vector<std::string> want;
    for (const auto& e : model) want.push_back(e.first);
    for (const auto& x : want) if (!std::count(got.begin(), got.end(), x)) sim::violation("ring-missing", "GetPhaseRings() does not list ring " + x);
    for (const auto& x : got) if (std::count(got.begin(), got.end(), x) != 1 || !model.count(x)) sim::violation("ring-extra", "GetPhaseRings() lists ring " + x + " wrongly");
  }
  void compare(const std::string& what, const Outcome& o, bool found, const std::string& got, const std::string* want) {
    if (o.threw) sim::violation("lookup-failed", what + " threw: " + o.what);
    if (want && !found) sim::violation("ring-missing", what + " finds nothing");
    if (!want && found) sim::violation("ring-extra", what + " finds " + got);
    if (want && got != *want) sim::violation("ring-differs", what + " finds " + got + " instead of " + *want);
  }
  void check_ring(const std::string& id) {
    std::string got;
    bool found = false;
    Outcome o = attempt([&] { auto x = book->GetPhaseRing(Ring::Id(id)); sim::Quiet q; found = x.has_value(); if (found) got = str(*x); });
    sim::Quiet q;
    auto it = model.find(id);
    compare("GetPhaseRing(" + id + ")", o, found, got, it == model.end() ? nullptr : &it->second.digest);
  }
  void check_rule(bool row, const std::string& rule) {
    std::string got;
    bool found = false;
    Outcome o = attempt([&] {
      std::optional<Ring> x = row ? book->FindPhaseRing(rules::RightOfWayRule::Id(rule)) : book->FindPhaseRing(rules::Rule::Id(rule));
      sim::Quiet q;
      found = x.has_value();
      if (found) got = str(*x);
    });
    sim::Quiet q;
    const Entry* e = owner(row, rule);
    compare(std::string("FindPhaseRing(") + (row ? "right-of-way rule " : "rule ") + rule + ")", o, found, got, e ? &e->digest : nullptr);
  }
  void check_everything() {
    recall.again();
    check_list();
    for (const auto& r : ring_names()) check_ring(r);
    for (const auto& n : names()) { check_rule(true, n); check_rule(false, n); }
  }

  void ask_before(const std::string& ring, const Entry* e) {
    uint32_t which = sim::choose(3);
    std::string rule;
    {
      sim::Quiet q;
      std::set<std::string> s;
      if (which && e) s = which == 1 ? e->rows : e->discretes;
      if (s.empty()) { which = 0; } else { auto it = s.begin(); std::advance(it, sim::choose(s.size())); rule = *it; }
    }
    recall.before([this, which, ring, rule] { if (which) check_rule(which == 1, rule); else check_ring(ring); });
  }
  void add() {
    Box<Ring> ring;
    Entry e;
    std::string id;
    bool ok = true;
    {
      sim::Quiet q;
      RingSpec spec;
      spec.id = id = ring_names()[sim::choose(ring_names().size())];
      uint32_t den = 2 + sim::choose(5);
      spec.rows = subset(names(), 1, den);
      spec.discretes = subset(names(), 1, den);
      spec.nphases = 1 + sim::choose(3);
      spec.with_next = sim::flip(1, 2);
      spec.with_bulbs = sim::flip(1, 2);
      spec.bulbs = {rules::UniqueBulbId(rules::TrafficLight::Id("t"), rules::BulbGroup::Id("g"), rules::Bulb::Id("b"))};
      ring = boxed([&] { return make_ring(&gen, spec); });
      e.digest = str(*ring);
      e.rows.insert(spec.rows.begin(), spec.rows.end());
      e.discretes.insert(spec.discretes.begin(), spec.discretes.end());
      ok = !model.count(id);
      for (const auto& r : e.rows) ok = ok && !owner(true, r);
      for (const auto& r : e.discretes) ok = ok && !owner(false, r);
      if (!ok && !model.count(id)) sim::probe("rule_already_governed");
    }
    ask_before(id, &e);
    bool done = edit("add " + e.digest, ok, [&] { book->AddPhaseRing(*ring); }, [&] { check_everything(); });
    {
      sim::Quiet q;
      if (done) { model[id] = e; sim::mark_nontrivial(); }
      ring.reset();
    }
    recall.again();
    check_list();
    check_ring(id);
    { auto rows = sim::quietly([&] { return e.rows; }); for (const auto& r : rows) check_rule(true, r); }
    { auto ds = sim::quietly([&] { return e.discretes; }); for (const auto& r : ds) check_rule(false, r); }
  }
  void remove() {
    std::string id = sim::quietly([this] {
      if (!model.empty() && !sim::flip(1, 4)) { auto it = model.begin(); std::advance(it, sim::choose(model.size())); return it->first; }
      return ring_names()[sim::choose(ring_names().size())];
    });
    bool ok = sim::quietly([&] { return model.count(id) > 0; });
    ask_before(id, ok ? &model.at(id) : nullptr);
    bool done = edit("remove ring " + id, ok, [&] { book->RemovePhaseRing(Ring::Id(id)); }, [&] { check_everything(); });
    { sim::Quiet q; if (done) { model.erase(id); sim::probe("removed"); } }
    check_everything();
  }
  void query() {
    if (alloc_faults()) {
      uint32_t k = random_k();
      std::string n = sim::quietly([] { return names()[sim::choose(8)]; });
      attempt([&] { book->FindPhaseRing(rules::Rule::Id(n)); }, k);
      attempt([&] { book->GetPhaseRings(); }, k);
    }
    bool row = sim::flip(1, 2);
    std::string rule = sim::quietly([] { return names()[sim::choose(8)]; }), ring = sim::quietly([] { return ring_names()[sim::choose(5)]; });
    check_rule(row, rule);
    check_ring(ring);
    if (sim::flip(1, 3)) recall.keep([this, row, rule] { check_rule(row, rule); });
    if (sim::flip(1, 3)) recall.keep([this, ring] { check_ring(ring); });
  }
  void step() {
    uint32_t r = sim::choose(100);
    if (r < 50) add();
    else if (r < 75) remove();
    else query();
  }
};
}  // namespace

void workload() {
  sim::set_step_cap(40000000);
  w::alloc_faults() = sim::flip(1, 2);
  World* world;
  { sim::Quiet q; world = new World; }
  world->book = std::make_unique<maliput::ManualPhaseRingBook>();
  int n = 1 + sim::choose(3);
  int steps = 2 + sim::choose(20);
  w::clients(n, steps, [world](int) { world->step(); });
  world->check_everything();
  { sim::Quiet q; std::string s; for (auto& e : world->model) s += e.second.digest; sim::mix_state(hash_of(s)); }
  world->book.reset();
  { sim::Quiet q; delete world; }
}
