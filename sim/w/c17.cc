// C17: Assembling a road geometry keeps index and structure in step.
#include "w/geo.h"

const char* const kCheckId = "C17";

namespace {
using namespace w;

struct MBranchPoint;
struct MLane {
  std::string id;
  SimLane* ptr = nullptr;
  MBranchPoint* bp[2] = {nullptr, nullptr};
};
struct MSegment {
  std::string id;
  SimSegment* ptr = nullptr;
  std::vector<std::unique_ptr<MLane>> lanes;
};
struct MJunction {
  std::string id;
  SimJunction* ptr = nullptr;
  std::vector<std::unique_ptr<MSegment>> segments;
};
struct End {
  MLane* lane;
  int end;
  bool operator<(const End& o) const { return lane != o.lane ? lane < o.lane : end < o.end; }
  bool operator==(const End& o) const { return lane == o.lane && end == o.end; }
};
struct MBranchPoint {
  std::string id;
  SimBranchPoint* ptr = nullptr;
  std::vector<End> side[2];
  std::map<End, End> defaults;
};

std::vector<std::string>& ids() {
  static std::vector<std::string> v = {"a", "b", "an identifier that does not fit into a small string", "d", "e", "f", "one more identifier that needs memory", "h", "i", "j"};
  return v;
}
std::string some_id() { return ids()[sim::choose(ids().size())]; }

api::LaneEnd::Which which(int e) { return e ? api::LaneEnd::kFinish : api::LaneEnd::kStart; }

struct World {
  std::unique_ptr<SimRoadGeometry> rg;
  std::vector<std::unique_ptr<MJunction>> junctions;
  std::vector<std::unique_ptr<MBranchPoint>> bps;
  Recall recall;

  // ---- the model's index ----
  template <class F>
  void each_lane(F f) {
    for (auto& j : junctions) for (auto& s : j->segments) for (auto& l : s->lanes) f(*l);
  }
  bool known_lane(const std::string& id) {
    bool k = false;
    each_lane([&](MLane& l) { k = k || l.id == id; });
    return k;
  }
  bool known_segment(const std::string& id) {
    for (auto& j : junctions) for (auto& s : j->segments) if (s->id == id) return true;
    return false;
  }
  bool known_junction(const std::string& id) {
    for (auto& j : junctions) if (j->id == id) return true;
    return false;
  }

  // ---- checks ----
  template <class F>
  void must(const std::string& what, F f) {  // live queries that must not throw
    Outcome o = attempt(f);
    SIM_CHECK(!o.threw, "lookup-failed", what + " threw: " + o.what);
  }
  template <class F>
  void must_throw(const std::string& what, F f) {
    Outcome o = attempt(f);
    SIM_CHECK(o.threw, "lookup-accepted", what + " did not throw");
  }
  static void same(const void* got, const void* want, const std::string& what) {
    SIM_CHECK(got == want, want && !got ? "element-missing" : got && !want ? "element-extra" : "element-wrong", what);
  }
  static void same(long got, long want, const std::string& what) {
    SIM_CHECK(got == want, "count-differs", what + ": " + num(got) + " instead of " + num(want));
  }

  void check_set(const api::LaneEndSet* set, const std::vector<End>& want, const std::string& what) {
    SIM_CHECK(set != nullptr, "branches-differ", what + " is null");
    must(what, [&] {
      same(set->size(), want.size(), what + ": size");
      for (int i = 0; i < set->size(); ++i) {
        api::LaneEnd e = set->get(i);
        SIM_CHECK(e.lane == want[i].lane->ptr && e.end == which(want[i].end), "branches-differ", what + ": entry " + num(i) + " is " + str(e));
      }
    });
    must_throw(what + ": get(size)", [&] { set->get(set->size()); });
  }
  void check_structure() {
    must("a walk over the structure", [&] {
      same(rg->num_junctions(), junctions.size(), "number of junctions");
      for (size_t a = 0; a < junctions.size(); ++a) {
        MJunction& mj = *junctions[a];
        const api::Junction* j = rg->junction(a);
        same(j, static_cast<const api::Junction*>(mj.ptr), "junction(" + num(a) + ")");
        SIM_CHECK(sim::quietly([&] { return j->id().string() == mj.id; }), "element-wrong", "junction " + mj.id + " has another id");
        same(j->road_geometry(), static_cast<const api::RoadGeometry*>(rg.get()), "road geometry of junction " + mj.id);
        same(j->num_segments(), mj.segments.size(), "number of segments of junction " + mj.id);
        for (size_t b = 0; b < mj.segments.size(); ++b) {
          MSegment& ms = *mj.segments[b];
          const api::Segment* s = j->segment(b);
          same(s, static_cast<const api::Segment*>(ms.ptr), "segment(" + num(b) + ") of junction " + mj.id);
          SIM_CHECK(sim::quietly([&] { return s->id().string() == ms.id; }), "element-wrong", "segment " + ms.id + " has another id");
          same(s->junction(), j, "junction of segment " + ms.id);
          same(s->num_lanes(), ms.lanes.size(), "number of lanes of segment " + ms.id);
          for (size_t c = 0; c < ms.lanes.size(); ++c) {
            MLane& ml = *ms.lanes[c];
            const api::Lane* l = s->lane(c);
            same(l, static_cast<const api::Lane*>(ml.ptr), "lane(" + num(c) + ") of segment " + ms.id);
            SIM_CHECK(sim::quietly([&] { return l->id().string() == ml.id; }), "element-wrong", "lane " + ml.id + " has another id");
            same(l->segment(), s, "segment of lane " + ml.id);
            same(l->index(), c, "index of lane " + ml.id);
            same(l->to_left(), c + 1 < ms.lanes.size() ? static_cast<const api::Lane*>(ms.lanes[c + 1]->ptr) : nullptr, "lane to the left of " + ml.id);
            same(l->to_right(), c > 0 ? static_cast<const api::Lane*>(ms.lanes[c - 1]->ptr) : nullptr, "lane to the right of " + ml.id);
          }
        }
      }
      same(rg->num_branch_points(), bps.size(), "number of branch points");
      for (size_t a = 0; a < bps.size(); ++a) {
        const api::BranchPoint* p = rg->branch_point(a);
        same(p, static_cast<const api::BranchPoint*>(bps[a]->ptr), "branch_point(" + num(a) + ")");
        same(p->road_geometry(), static_cast<const api::RoadGeometry*>(rg.get()), "road geometry of branch point " + bps[a]->id);
      }
    });
    must_throw("junction(n)", [&] { rg->junction(rg->num_junctions()); });
    must_throw("branch_point(n)", [&] { rg->branch_point(rg->num_branch_points()); });
  }
  void check_id(const std::string& id, size_t* nl) {
      const api::RoadGeometry::IdIndex& ix = rg->ById();
      const void *wl = nullptr, *ws = nullptr, *wj = nullptr, *wb = nullptr;
      {
        sim::Quiet q;
        each_lane([&](MLane& l) { if (l.id == id) { wl = static_cast<const api::Lane*>(l.ptr); ++*nl; } });
        for (auto& j : junctions) {
          if (j->id == id) wj = static_cast<const api::Junction*>(j->ptr);
          for (auto& s : j->segments) if (s->id == id) ws = static_cast<const api::Segment*>(s->ptr);
        }
        for (auto& b : bps) if (b->id == id) wb = static_cast<const api::BranchPoint*>(b->ptr);
      }
      must("a search by identifier", [&] {
        same(ix.GetLane(api::LaneId(id)), wl, "ById().GetLane(" + id + ")");
        same(ix.GetSegment(api::SegmentId(id)), ws, "ById().GetSegment(" + id + ")");
        same(ix.GetJunction(api::JunctionId(id)), wj, "ById().GetJunction(" + id + ")");
        same(ix.GetBranchPoint(api::BranchPointId(id)), wb, "ById().GetBranchPoint(" + id + ")");
      });
  }
  void check_index() {
    const api::RoadGeometry::IdIndex& ix = rg->ById();
    size_t nl = 0;
    for (const std::string& id : ids()) check_id(id, &nl);
    const auto& lanes = ix.GetLanes();
    same(lanes.size(), nl, "size of GetLanes()");
    sim::Quiet q;
    for (const auto& kv : lanes) same(known_lane(kv.first.string()), 1, "GetLanes() contains " + kv.first.string());
  }
  void check_branches() {
    for (auto& b : bps) {
      check_set(b->ptr->GetASide(), b->side[0], "A side of " + b->id);
      check_set(b->ptr->GetBSide(), b->side[1], "B side of " + b->id);
    }
    std::vector<MLane*> all;
    { sim::Quiet q; each_lane([&](MLane& l) { all.push_back(&l); }); }
    for (MLane* l : all) for (int e = 0; e < 2; ++e) check_end(l, e);
  }
  void check_end(MLane* l, int e) {
        std::string what = sim::quietly([&] { return l->id + (e ? " finish" : " start"); });
        same(l->ptr->GetBranchPoint(which(e)), l->bp[e] ? static_cast<const api::BranchPoint*>(l->bp[e]->ptr) : nullptr, "branch point of " + what);
        api::LaneEnd le(l->ptr, which(e));
        for (auto& b : bps) {
          if (b.get() == l->bp[e]) continue;
          must_throw("GetConfluentBranches of a lane end that is not attached there", [&] { b->ptr->GetConfluentBranches(le); });
          must("GetDefaultBranch of a lane end that is not attached there", [&] { SIM_CHECK(!b->ptr->GetDefaultBranch(le).has_value(), "branches-differ", "foreign default"); });
        }
        if (!l->bp[e]) return;
        MBranchPoint& b = *l->bp[e];
        int side = std::count(b.side[0].begin(), b.side[0].end(), End{l, e}) ? 0 : 1;
        check_set(l->ptr->GetConfluentBranches(which(e)), b.side[side], "confluent branches of " + what);
        check_set(l->ptr->GetOngoingBranches(which(e)), b.side[1 - side], "ongoing branches of " + what);
        must("default branch", [&] {
          auto d = l->ptr->GetDefaultBranch(which(e));
          sim::Quiet q;
          auto it = b.defaults.find(End{l, e});
          if (d.has_value() != (it != b.defaults.end())) sim::violation("branches-differ", "default branch of " + what);
          if (d && (d->lane != it->second.lane->ptr || d->end != which(it->second.end))) sim::violation("branches-differ", "default branch of " + what + " is " + str(*d));
        });
  }
  void check_walk() {  // an index built from the finished structure agrees with the one kept while it was built
    must("WalkAndAddAll", [&] {
      api::BasicIdIndex ix;
      ix.WalkAndAddAll(rg.get());
      same(ix.GetLanes().size(), rg->ById().GetLanes().size(), "GetLanes() of an index built afterwards");
      for (const std::string& id : ids()) {
        same(ix.GetLane(api::LaneId(id)), rg->ById().GetLane(api::LaneId(id)), "GetLane(" + id + ") of an index built afterwards");
        same(ix.GetSegment(api::SegmentId(id)), rg->ById().GetSegment(api::SegmentId(id)), "GetSegment(" + id + ") of an index built afterwards");
        same(ix.GetJunction(api::JunctionId(id)), rg->ById().GetJunction(api::JunctionId(id)), "GetJunction(" + id + ") of an index built afterwards");
        same(ix.GetBranchPoint(api::BranchPointId(id)), rg->ById().GetBranchPoint(api::BranchPointId(id)), "GetBranchPoint(" + id + ") of an index built afterwards");
      }
    });
  }
  void ask_before_id(const std::string& id) {
    recall.before([this, id] { size_t n = 0; check_id(id, &n); });
    if (sim::flip(1, 4)) recall.keep([this, id] { size_t n = 0; check_id(id, &n); });
  }
  void ask_before_end(MLane* l, int e) {
    recall.before([this, l, e] { check_end(l, e); });
    if (sim::flip(1, 4)) recall.keep([this, l, e] { check_end(l, e); });
  }
  void check_everything() {
    recall.again();
    check_structure();
    check_index();
    check_branches();
    sim::probe("full_check");
  }

  // ---- edits ----
  struct Plan {  // a segment (or several, in a junction) to be added
    std::string junction;
    std::vector<std::pair<std::string, std::vector<std::string>>> segments;
    bool late = false;  // lanes are added to the segments after these have been added to their junction
  };
  std::vector<std::string> some_lanes(int max) {
    std::vector<std::string> v;
    if (sim::flip(1, 3)) {  // a broad one
      for (int i = 0, n = sim::choose(9); i < n; ++i) {
        if (sim::flip(1, 25) || ids().size() > 40) { v.push_back(some_id()); continue; }
        v.push_back("one of many, number " + num(ids().size()));
        ids().push_back(v.back());
      }
      return v;
    }
    for (int i = 0, n = sim::choose(max + 1); i < n; ++i) v.push_back(some_id());
    return v;
  }
  bool fits(const Plan& p, bool with_junction) {
    std::set<std::string> s, l;
    for (auto& x : p.segments) {
      if (known_segment(x.first) || !s.insert(x.first).second) return false;
      for (auto& y : x.second) if (known_lane(y) || !l.insert(y).second) return false;
    }
    return !with_junction || !known_junction(p.junction);
  }
  static std::unique_ptr<SimLane> lane(const std::string& id) {
    return std::make_unique<SimLane>(api::LaneId(id), Pose{}, 0., 10., 0., 3.5, 1.75, 1.75);
  }
  static std::unique_ptr<SimSegment> segment(const std::string& id, const std::vector<std::string>& lanes, MSegment* out) {
    auto s = std::make_unique<SimSegment>(api::SegmentId(id));
    { sim::Quiet q; out->id = id; out->ptr = s.get(); out->lanes.clear(); }
    for (const auto& x : lanes) {
      SimLane* p = s->AddLane(lane(x));
      sim::Quiet q;
      out->lanes.push_back(std::make_unique<MLane>());
      out->lanes.back()->id = x;
      out->lanes.back()->ptr = p;
    }
    return s;
  }
  std::string describe(const Plan& p) {
    std::string s;
    for (auto& x : p.segments) {
      s += "[" + x.first + ":";
      for (auto& y : x.second) s += " " + y;
      s += "]";
    }
    return s;
  }

  void add_junction() {
    std::unique_ptr<Plan> plan;
    std::unique_ptr<MJunction> mj;
    bool ok;
    std::string name;
    {
      sim::Quiet q;
      plan.reset(new Plan);
      plan->junction = some_id();
      for (int i = 0, n = sim::choose(4); i < n; ++i) plan->segments.emplace_back(some_id(), some_lanes(3));
      plan->late = sim::flip(1, 3);
      mj.reset(new MJunction);
      ok = fits(*plan, true);
      if (!plan->segments.empty()) sim::probe(ok ? "populated_junction_added" : "populated_junction_rejected");
      name = "add junction " + plan->junction + " with " + describe(*plan);
    }
    {
      std::string id = plan->junction;
      { sim::Quiet q; for (auto& x : plan->segments) { if (sim::flip(1, 3)) id = x.first; for (auto& y : x.second) if (sim::flip(1, 3)) id = y; } }
      ask_before_id(id);
    }
    bool done = edit(name, ok, [&] {
      auto j = std::make_unique<SimJunction>(api::JunctionId(plan->junction));
      { sim::Quiet q; mj->id = plan->junction; mj->ptr = j.get(); mj->segments.clear(); }
      for (auto& x : plan->segments) {
        MSegment* ms;
        { sim::Quiet q; mj->segments.push_back(std::make_unique<MSegment>()); ms = mj->segments.back().get(); }
        if (!plan->late) {
          j->AddSegment(segment(x.first, x.second, ms));
        } else {
          std::vector<std::string> none;
          SimSegment* s = j->AddSegment(segment(x.first, none, ms));
          for (auto& y : x.second) {
            SimLane* l = s->AddLane(lane(y));
            sim::Quiet q;
            ms->lanes.push_back(std::make_unique<MLane>());
            ms->lanes.back()->id = y;
            ms->lanes.back()->ptr = l;
          }
        }
      }
      SimJunction* p = rg->AddJunction(std::move(j));
      SIM_CHECK(p == mj->ptr, "element-wrong", "AddJunction returned another junction");
    }, [&] { check_everything(); });
    { sim::Quiet q; if (done) { junctions.push_back(std::move(mj)); sim::mark_nontrivial(); } mj.reset(); plan.reset(); }
  }
  MJunction* some_junction() { return junctions.empty() ? nullptr : junctions[sim::choose(junctions.size())].get(); }
  MSegment* some_segment() {
    std::vector<MSegment*> v;
    for (auto& j : junctions) for (auto& s : j->segments) v.push_back(s.get());
    return v.empty() ? nullptr : v[sim::choose(v.size())];
  }
  MLane* some_lane() {
    std::vector<MLane*> v;
    each_lane([&](MLane& l) { v.push_back(&l); });
    return v.empty() ? nullptr : v[sim::choose(v.size())];
  }
  void add_segment() {
    MJunction* j;
    std::unique_ptr<Plan> plan;
    std::unique_ptr<MSegment> ms;
    bool ok;
    std::string name;
    {
      sim::Quiet q;
      j = some_junction();
      if (!j) return;
      plan.reset(new Plan);
      plan->segments.emplace_back(some_id(), some_lanes(3));
      ms.reset(new MSegment);
      ok = fits(*plan, false);
      if (!plan->segments[0].second.empty()) sim::probe(ok ? "populated_segment_added" : "populated_segment_rejected");
      name = "add segment " + describe(*plan) + " to junction " + j->id;
    }
    ask_before_id(sim::quietly([&] { auto& x = plan->segments[0]; return x.second.empty() || sim::flip(1, 3) ? x.first : x.second[sim::choose(x.second.size())]; }));
    bool done = edit(name, ok, [&] { j->ptr->AddSegment(segment(plan->segments[0].first, plan->segments[0].second, ms.get())); }, [&] { check_everything(); });
    { sim::Quiet q; if (done) j->segments.push_back(std::move(ms)); ms.reset(); plan.reset(); }
  }
  void add_lane() {
    MSegment* s;
    std::string id;
    SimLane* p = nullptr;
    bool ok;
    std::string name;
    {
      sim::Quiet q;
      s = some_segment();
      if (!s) return;
      id = some_id();
      ok = !known_lane(id);
      name = "add lane " + id + " to segment " + s->id;
    }
    ask_before_id(id);
    bool done = edit(name, ok, [&] { p = s->ptr->AddLane(lane(id)); }, [&] { check_everything(); });
    sim::Quiet q;
    if (!done) return;
    s->lanes.push_back(std::make_unique<MLane>());
    s->lanes.back()->id = id;
    s->lanes.back()->ptr = p;
  }
  void add_null() {
    uint32_t k = sim::choose(4);
    MJunction* j = sim::quietly([&] { return some_junction(); });
    MSegment* s = sim::quietly([&] { return some_segment(); });
    MLane* l = sim::quietly([&] { return some_lane(); });
    (void)l;
    if (k == 0) edit("add a null junction", false, [&] { rg->AddJunction(std::unique_ptr<SimJunction>()); }, [&] { check_everything(); });
    if (k == 1) edit("add a null branch point", false, [&] { rg->AddBranchPoint(std::unique_ptr<SimBranchPoint>()); }, [&] { check_everything(); });
    if (k == 2 && j) edit("add a null segment", false, [&] { j->ptr->AddSegment(std::unique_ptr<SimSegment>()); }, [&] { check_everything(); });
    if (k == 3 && s) edit("add a null lane", false, [&] { s->ptr->AddLane(std::unique_ptr<SimLane>()); }, [&] { check_everything(); });
  }
  void add_branch_point() {
    std::string id;
    bool ok = true;
    { sim::Quiet q; id = some_id(); for (auto& b : bps) ok = ok && b->id != id; }
    SimBranchPoint* p = nullptr;
    ask_before_id(id);
    bool done = edit("add branch point " + id, ok, [&] { p = rg->AddBranchPoint(std::make_unique<SimBranchPoint>(api::BranchPointId(id))); }, [&] { check_everything(); });
    sim::Quiet q;
    if (!done) return;
    bps.push_back(std::make_unique<MBranchPoint>());
    bps.back()->id = id;
    bps.back()->ptr = p;
  }
  void attach() {
    if (bps.empty()) return;
    MBranchPoint* b;
    MLane* l;
    int e, side;
    bool ok;
    std::string name;
    {
      sim::Quiet q;
      b = bps[sim::choose(bps.size())].get();
      l = sim::flip(1, 20) ? nullptr : some_lane();
      for (int i = 0; i < 3 && l && l->bp[0] && l->bp[1]; ++i) l = some_lane();
      e = sim::choose(2);
      if (l && l->bp[e] && !sim::flip(1, 5)) e = 1 - e;
      side = sim::choose(2);
      ok = l && !l->bp[e];
      name = "attach " + (l ? l->id : std::string("null")) + (e ? " finish" : " start") + " to side " + num(side) + " of " + b->id;
    }
    {
      MLane* about = l;
      if (!b->side[0].empty() && sim::flip(1, 3)) about = b->side[0][0].lane;
      if (about) ask_before_end(about, e);
    }
    bool done = edit(name, ok, [&] {
      if (side) b->ptr->AddBBranch(l ? l->ptr : nullptr, which(e));
      else b->ptr->AddABranch(l ? l->ptr : nullptr, which(e));
    }, [&] { check_everything(); });
    sim::Quiet q;
    if (!done) return;
    b->side[side].push_back({l, e});
    l->bp[e] = b;
    sim::probe("lane_end_attached");
  }
  void set_default() {
    if (bps.empty()) return;
    MBranchPoint* b;
    End from{nullptr, 0}, to{nullptr, 0};
    bool ok;
    {
      sim::Quiet q;
      b = bps[sim::choose(bps.size())].get();
      for (int i = 0; i < 4 && (b->side[0].empty() || b->side[1].empty()); ++i) b = bps[sim::choose(bps.size())].get();
      std::vector<End> all;
      int side = sim::choose(2);
      if (!b->side[side].empty() && !b->side[1 - side].empty() && !sim::flip(1, 4)) {
        from = b->side[side][sim::choose(b->side[side].size())];
        to = b->side[1 - side][sim::choose(b->side[1 - side].size())];
      } else {
        each_lane([&](MLane& l) { all.push_back({&l, 0}); all.push_back({&l, 1}); });
        if (all.empty()) return;
        from = all[sim::choose(all.size())];
        to = all[sim::choose(all.size())];
      }
      auto side_of = [&](End x) { return std::count(b->side[0].begin(), b->side[0].end(), x) ? 0 : std::count(b->side[1].begin(), b->side[1].end(), x) ? 1 : 2; };
      ok = side_of(from) + side_of(to) == 1;
    }
    ask_before_end(from.lane, from.end);
    bool done = edit("set the default of " + from.lane->id + " at " + b->id + " to " + to.lane->id, ok,
                     [&] { b->ptr->SetDefault({from.lane->ptr, which(from.end)}, {to.lane->ptr, which(to.end)}); }, [&] { check_everything(); });
    sim::Quiet q;
    if (!done) return;
    b->defaults.erase(from);
    b->defaults.emplace(from, to);
    sim::probe("default_set");
  }
  void step() {
    uint32_t r = sim::choose(100);
    if (r < 18) add_junction();
    else if (r < 33) add_segment();
    else if (r < 48) add_lane();
    else if (r < 52) add_null();
    else if (r < 64) add_branch_point();
    else if (r < 82) attach();
    else set_default();
    recall.again();
    if (sim::flip(1, 4)) check_everything();
  }
};
}  // namespace

void workload() {
  sim::set_step_cap(40000000);
  w::alloc_faults() = sim::flip(1, 2);
  World* world;
  { sim::Quiet q; world = new World; ids(); }
  world->rg = std::make_unique<SimRoadGeometry>("road geometry");
  int n = 1 + sim::choose(3);
  int steps = 3 + sim::choose(24);
  w::clients(n, steps, [world](int) { world->step(); });
  world->check_everything();
  world->check_walk();
  {
    sim::Quiet q;
    std::string s;
    for (auto& j : world->junctions) { s += "J" + j->id; for (auto& g : j->segments) { s += "S" + g->id; for (auto& l : g->lanes) s += "L" + l->id; } }
    for (auto& b : world->bps) { s += "B" + b->id; for (auto& x : b->side[0]) s += x.lane->id + num(x.end); s += "/"; for (auto& x : b->side[1]) s += x.lane->id + num(x.end); }
    sim::mix_state(hash_of(s));
  }
  world->rg.reset();
  { sim::Quiet q; delete world; }
}
