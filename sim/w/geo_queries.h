// Questions to the geometry of a network: lanes, position searches, index, regions, routing.
#pragma once
#include <sstream>
#include "maliput/api/compare.h"
#include "maliput/base/distance_router.h"
#include "maliput/geometry_base/brute_force_find_road_positions_strategy.h"
#include "maliput/geometry_base/brute_force_strategy.h"
#include "maliput/geometry_base/filter_positions.h"
#include "maliput/math/fresnel.h"
#include "maliput/routing/derive_lane_s_routes.h"
#include "maliput/routing/find_lane_sequences.h"
#include "maliput/routing/graph/graph.h"
#include "maliput/routing/graph/graph_utils.h"
#include "maliput/routing/phase.h"
#include "maliput/routing/route.h"
#include "maliput/utility/generate_dot.h"
#include "maliput/utility/segment_analysis.h"
#include "w/network.h"

namespace w {

namespace routing = maliput::routing;

// One network and what its users share: a router and a route.
struct Instance : Network {
  std::unique_ptr<maliput::DistanceRouter> router;
  std::unique_ptr<routing::Route> route;
};

inline std::string str(const routing::PhasePositionResult& r) { return num(r.lane_s_range_index) + str(r.lane_position) + str(r.inertial_position) + dbl(r.distance); }
inline std::string str(const routing::RoutePositionResult& r) { return num(r.phase_index) + ":" + str(r.phase_position_result); }
inline std::string str(const api::RoadPosition& r) { return (r.lane ? r.lane->id().string() : std::string("none")) + str(r.pos); }
inline std::string str(const routing::Route& r) {
  std::string s;
  for (int i = 0; i < r.size(); ++i) {
    const auto& p = r.Get(i);
    s += "<" + num(p.index());
    for (const auto& x : p.start_positions()) s += " from " + str(x);
    for (const auto& x : p.end_positions()) s += " to " + str(x);
    for (const auto& x : p.lane_s_ranges()) s += " on " + str(x);
    s += ">";
  }
  return s;
}
inline std::string str(const std::vector<api::RoadPositionResult>& v) {
  std::string s;
  for (const auto& x : v) s += str(x) + ";";
  return s;
}
inline std::string str(const routing::graph::Graph& g) {
  std::map<std::string, std::string> m;
  for (const auto& e : g.edges) m["e" + e.first.string()] = e.second.segment->id().string() + " " + e.second.node_a.string() + "-" + e.second.node_b.string();
  for (const auto& e : g.nodes) {
    std::set<std::string> b;
    for (auto* x : e.second.branch_points) b.insert(x->id().string());
    std::string s;
    for (auto& x : b) s += x + ",";
    for (auto& x : e.second.edges) s += x.string() + ",";
    m["n" + e.first.string()] = s;
  }
  std::string s;
  for (auto& e : m) s += e.first + "=" + e.second + ";";
  return s;
}
template <class T> std::string opt(const std::optional<T>& o) { return o ? str(*o) : std::string("nothing"); }

struct Spot { int seg, lane; double s, r, h; };
inline Spot random_spot(const NetSpec& n) {
  Spot p;
  p.seg = sim::choose(n.segs.size());
  p.lane = sim::choose(n.segs[p.seg].lanes);
  p.s = n.segs[p.seg].length * sim::choose(9) / 8.;
  p.r = sim::choose(5) * .5 - 1.;
  p.h = sim::choose(3) * .75;
  return p;
}
inline api::RoadPosition at(Network& n, const Spot& p) { return api::RoadPosition(n.lanes[p.seg][p.lane], api::LanePosition(p.s, p.r, p.h)); }
inline InertialPosition random_point(const NetSpec& n) {
  if (sim::flip(1, 4)) return InertialPosition(10. * sim::choose(2), 5., .5);  // one that is asked about again, of other networks too
  const SegSpec& s = n.segs[sim::choose(n.segs.size())];
  return InertialPosition(s.start.x + sim::choose(60) * .5 - 5., s.start.y + sim::choose(40) * .5 - 10., s.start.z + sim::choose(5) * .5 - .5);
}

// The route that users share is this plan's; phases follow the predecessors from one segment backwards.
struct RoutePlan { std::vector<int> segs; double tol = 1e-3; };
inline RoutePlan random_route(const NetSpec& n) {
  RoutePlan r;
  for (int s = sim::choose(n.segs.size()); s >= 0 && r.segs.size() < 4; s = n.segs[s].pred) r.segs.insert(r.segs.begin(), s);
  return r;
}
inline routing::Route make_route(const NetSpec& n, const RoutePlan& r, Network& net) {
  std::vector<routing::Phase> phases;
  for (size_t i = 0; i < r.segs.size(); ++i) {
    const auto& ls = net.lanes[r.segs[i]];
    std::vector<api::RoadPosition> a, b;
    std::vector<LaneSRange> ranges;
    for (SimLane* l : ls) {
      if (a.empty() || i > 0) a.emplace_back(l, api::LanePosition(0, 0, 0));
      if (b.empty() || i + 1 < r.segs.size()) b.emplace_back(l, api::LanePosition(l->length(), 0, 0));
      ranges.emplace_back(l->id(), SRange(0, l->length()));
    }
    phases.emplace_back(static_cast<int>(i), r.tol, a, b, ranges, net.rn.get());
  }
  return routing::Route(phases, net.rn.get());
}
inline std::unique_ptr<Instance> build_instance(const NetworkPlan& p, const RoutePlan& r) {
  auto n = std::make_unique<Instance>();
  auto b = build_network(p);
  static_cast<Network&>(*n) = std::move(*b);
  n->router = std::make_unique<maliput::DistanceRouter>(*n->rn, 1e-3);
  n->route = std::make_unique<routing::Route>(make_route(p.net, r, *n));
  return n;
}

// What questions to different networks may have in common.
struct Theme {
  uint32_t kind, which;
  std::string name;
  Spot spot;
  InertialPosition pt;
  double tol;
};
inline Theme random_theme() {
  return {sim::choose(64), sim::choose(4), names()[sim::choose(names().size())], Spot{0, 0, .5 * sim::choose(8), .5 * sim::choose(2), 0.},
          InertialPosition(2.5 * sim::choose(5), 2.5 * sim::choose(3), .5), sim::choose(3) * .75};
}

// Quiet; the question itself is not.
inline Query geo_query(const NetworkPlan& p, const RoutePlan& rp, const Theme* theme = nullptr) {
  const NetSpec& n = p.net;
  Spot a = theme ? theme->spot : random_spot(n), b = random_spot(n);
  InertialPosition pt = theme ? theme->pt : random_point(n);
  auto lane_what = [&](const char* w) { return std::string(w) + " " + n.lane_name(a.seg, a.lane) + " s=" + dbl(a.s) + " r=" + dbl(a.r) + " h=" + dbl(a.h); };
  auto pt_what = [&](const char* w) { return std::string(w) + " " + str(pt); };
  auto two_what = [&](const char* w) { return lane_what(w) + " and " + n.lane_name(b.seg, b.lane) + " s=" + dbl(b.s); };
  auto I = [](Network& x) -> Instance& { return static_cast<Instance&>(x); };
  switch (theme ? theme->kind % 31 : sim::choose(31)) {
    case 0:
      return {lane_what("inertial position of"), [=](Network& x) { auto y = at(x, a).ToInertialPosition(); sim::Quiet q; return str(y); }};
    case 1:
      return {lane_what("lane position, on") + " of " + str(pt), [=](Network& x) { auto y = x.lanes[a.seg][a.lane]->ToLanePosition(pt); sim::Quiet q; return str(y); }};
    case 2:
      return {lane_what("segment position, on") + " of " + str(pt), [=](Network& x) { auto y = x.lanes[a.seg][a.lane]->ToSegmentPosition(pt); sim::Quiet q; return str(y); }};
    case 3:
      return {lane_what("bounds and orientation of"), [=](Network& x) {
        const api::Lane* l = x.lanes[a.seg][a.lane];
        double s = std::min(a.s, l->length());
        auto lb = l->lane_bounds(s), sb = l->segment_bounds(s);
        auto hb = l->elevation_bounds(s, a.r);
        auto o = l->GetOrientation(api::LanePosition(s, a.r, a.h));
        auto d = l->EvalMotionDerivatives(api::LanePosition(s, a.r, a.h), {1., 2., 3.});
        auto m = o.Reverse();
        auto curv = o.matrix();
        bool c = l->Contains(api::LanePosition(s, a.r, a.h));
        sim::Quiet q;
        return dbl(l->length()) + " " + dbl(lb.min()) + " " + dbl(lb.max()) + " " + dbl(sb.min()) + " " + dbl(sb.max()) + " " + dbl(hb.min()) + " " + dbl(hb.max()) + " " + str(o) + str(d) + str(m) + dbl(curv[0][1]) + num(c);
      }};
    case 4:
      return {lane_what("neighbourhood of"), [=](Network& x) {
        const api::Lane* l = x.lanes[a.seg][a.lane];
        std::string s;
        const api::Lane *tl = l->to_left(), *tr = l->to_right();
        auto id = l->id();
        auto sid = l->segment()->id();
        auto jid = l->segment()->junction()->id();
        const api::RoadGeometry* g = l->segment()->junction()->road_geometry();
        auto gid = g->id();
        for (auto e : {api::LaneEnd::kStart, api::LaneEnd::kFinish}) {
          const api::BranchPoint* bp = l->GetBranchPoint(e);
          const api::LaneEndSet *c = l->GetConfluentBranches(e), *o = l->GetOngoingBranches(e), *as = bp->GetASide(), *bs = bp->GetBSide();
          auto d = l->GetDefaultBranch(e);
          auto bid = bp->id();
          sim::Quiet q;
          s += bid.string() + "|" + str(c) + "|" + str(o) + "|" + str(as) + "|" + str(bs) + "|" + opt(d) + (g == bp->road_geometry() ? "" : "?");
        }
        sim::Quiet q;
        return s + id.string() + num(l->index()) + (tl ? tl->id().string() : "-") + (tr ? tr->id().string() : "-") + sid.string() + jid.string() + gid.string();
      }};
    case 5: case 6:
      return {pt_what("road position of"), [=](Network& x) { auto y = x.rg()->ToRoadPosition(pt); sim::Quiet q; return str(y); }};
    case 7:
      return {pt_what("road position, with hint,") + " " + lane_what("at"), [=](Network& x) { auto y = x.rg()->ToRoadPosition(pt, at(x, a)); sim::Quiet q; return str(y); }};
    case 8: case 9: {
      double radius = sim::choose(5) * 2.;
      return {pt_what("road positions near") + " within " + dbl(radius), [=](Network& x) { auto y = x.rg()->FindRoadPositions(pt, radius); sim::Quiet q; return str(y); }};
    }
    case 10: {
      double radius = sim::choose(5) * 2.;
      return {pt_what("exhaustive search near") + " within " + dbl(radius), [=](Network& x) {
        auto y = maliput::geometry_base::BruteForceFindRoadPositionsStrategy(x.rg(), pt, radius);
        auto z = maliput::geometry_base::FilterRoadPositionResults(y, [](const api::RoadPositionResult& r) { backend_call(); return r.distance < 1.; });
        sim::Quiet q;
        return str(y) + "/" + str(z);
      }};
    }
    case 11:
      return {pt_what("exhaustive strategy for"), [=](Network& x) {
        maliput::geometry_base::BruteForceStrategy st(x.rg());
        auto y = st.ToRoadPosition(pt, std::nullopt);
        sim::Quiet q;
        return str(y);
      }};
    case 12: {
      double step = 2. + sim::choose(3);
      return {pt_what("new k-d tree for"), [=](Network& x) {
        maliput::geometry_base::KDTreeStrategy st(x.rg(), step);
        auto y = st.ToRoadPosition(pt, std::nullopt);
        auto z = st.FindRoadPositions(pt, 3.);
        sim::Quiet q;
        return str(y) + "/" + str(z);
      }};
    }
    case 13: {
      std::string ln = n.lane_name(a.seg, a.lane), sg = n.segs[a.seg].name, jn = "junction " + num(n.segs[b.seg].junction), bp = "branch point " + num(sim::choose(12));
      return {"identifiers " + ln + ", " + sg + ", " + jn + ", " + bp, [=](Network& x) {
        const auto& i = x.rg()->ById();
        const auto* l = i.GetLane(api::LaneId(ln));
        const auto* s = i.GetSegment(api::SegmentId(sg));
        const auto* j = i.GetJunction(api::JunctionId(jn));
        const auto* p = i.GetBranchPoint(api::BranchPointId(bp));
        const auto& all = i.GetLanes();
        const auto* no = i.GetLane(api::LaneId("no such lane"));
        sim::Quiet q;
        std::set<std::string> names;
        for (auto& e : all) names.insert(e.first.string() + (e.second->id() == e.first ? "" : "?"));
        std::string r = l->id().string() + s->id().string() + j->id().string() + (p ? p->id().string() : "-") + (no ? "?" : "");
        for (auto& e : names) r += "," + e;
        return r;
      }};
    }
    case 14:
      return {"whole hierarchy", [=](Network& x) {
        std::string r;
        const auto* g = x.rg();
        for (int i = 0; i < g->num_junctions(); ++i) {
          const auto* j = g->junction(i);
          for (int k = 0; k < j->num_segments(); ++k) {
            const auto* s = j->segment(k);
            for (int l = 0; l < s->num_lanes(); ++l) { const auto* la = s->lane(l); sim::Quiet q; r += j->id().string() + s->id().string() + la->id().string() + ","; }
          }
        }
        for (int i = 0; i < g->num_branch_points(); ++i) { const auto* bp = g->branch_point(i); sim::Quiet q; r += bp->id().string() + str(bp->GetASide()) + str(bp->GetBSide()) + ","; }
        auto t = g->inertial_to_backend_frame_translation();
        sim::Quiet q;
        return r + str(t) + dbl(g->linear_tolerance()) + dbl(g->angular_tolerance()) + dbl(g->scale_length());
      }};
    case 15:
      return {"invariants", [=](Network& x) {
        auto v = x.rg()->CheckInvariants();
        auto ix = api::CheckIdIndexing(x.rg());
        sim::Quiet q;
        std::string s;
        for (auto& e : v) s += diag(e);
        return s + (ix ? diag(*ix) : "");
      }};
    case 16: {
      double step = .5 + sim::choose(4) + .17 * sim::choose(3);
      return {lane_what("waypoints along"), [=](Network& x) {
        const api::Lane* l = x.lanes[a.seg][a.lane];
        std::vector<LaneSRange> v{LaneSRange(l->id(), SRange(std::min(a.s, l->length()) / 2., l->length()))};
        const auto* e = l->GetOngoingBranches(api::LaneEnd::kFinish);
        if (e && e->size() > 0) v.emplace_back(e->get(0).lane->id(), SRange(0., e->get(0).lane->length()));
        auto w = x.rg()->SampleAheadWaypoints(LaneSRoute(v), step);
        sim::Quiet q;
        std::string s;
        for (auto& y : w) s += str(y);
        return s;
      }};
    }
    case 17: {
      double tol = sim::choose(3) * .5, s1 = b.s;
      bool same = sim::flip(1, 2);
      return {two_what("ranges at"), [=](Network& x) {
        SimLane* l = x.lanes[a.seg][a.lane];
        SimLane* m = same ? l : x.lanes[b.seg][b.lane];
        LaneSRange ra(l->id(), SRange(0, a.s)), rb(m->id(), SRange(s1 / 2, s1));
        bool c = api::IsContiguous(ra, rb, x.rg());
        bool i = ra.Intersects(rb, tol), k = ra.Contains(rb, tol);
        auto z = ra.GetIntersection(rb, tol);
        bool y = LaneSRoute({ra}).Intersects(LaneSRoute({rb}), tol);
        bool in = api::IsIncluded(pt, {ra, rb}, x.rg());
        sim::Quiet q;
        return num(c) + num(i) + num(k) + opt(z) + num(y) + num(in);
      }};
    }
    case 18: case 19: {
      bool sw = sim::flip(1, 2);
      std::optional<double> pc, rc;
      if (sim::flip(1, 3)) pc = 1. + sim::choose(15);
      if (sim::flip(1, 3)) rc = 1. + sim::choose(30);
      return {two_what("routes between"), [=](Network& x) {
        routing::RoutingConstraints c;
        c.allow_lane_switch = sw;
        c.max_phase_cost = pc;
        c.max_route_cost = rc;
        auto v = I(x).router->ComputeRoutes(at(x, a), at(x, b), c);
        sim::Quiet q;
        std::string s = num(v.size()) + " ";
        for (auto& r : v) s += str(r) + "|";
        return s;
      }};
    }
    case 20:
      return {pt_what("position on the route of"), [=](Network& x) { auto y = I(x).route->FindRoutePosition(pt); sim::Quiet q; return str(y); }};
    case 21:
      return {lane_what("position on the route of"), [=](Network& x) { auto y = I(x).route->FindRoutePosition(at(x, a)); sim::Quiet q; return str(y); }};
    case 22:
      return {lane_what("lane route along the route from"), [=](Network& x) {
        auto y = I(x).route->ComputeLaneSRoute(at(x, a));
        auto v = I(x).route->ValidateEndToEndConnectivity();
        sim::Quiet q;
        std::string s = str(y);
        for (auto& e : v) s += diag(e);
        return s;
      }};
    case 23: {
      int i = sim::choose(rp.segs.size()), j = sim::choose(rp.segs.size());
      int k = sim::choose(n.segs[rp.segs[i]].lanes), l = sim::choose(n.segs[rp.segs[j]].lanes);
      return {"relation of ranges on the route " + num(i) + "." + num(k) + " " + num(j) + "." + num(l), [=](Network& x) {
        const auto& r = *I(x).route;
        auto y = r.ComputeLaneSRangeRelation(r.GetLaneSRange(i, k), r.GetLaneSRange(j, l));
        sim::Quiet q;
        return num(static_cast<int>(y));
      }};
    }
    case 24: {
      int i = sim::choose(rp.segs.size());
      return {pt_what("position on a phase of"), [=](Network& x) {
        const auto& ph = I(x).route->Get(i);
        auto y = ph.FindPhasePosition(pt);
        auto z = ph.FindPhasePosition(at(x, a));
        bool v = routing::ValidatePositionIsInLaneSRanges(at(x, b), ph.lane_s_ranges(), .5);
        sim::Quiet q;
        return str(y) + str(z) + num(v);
      }};
    }
    case 25: {
      double max = 5. + sim::choose(60);
      bool u = sim::flip(1, 2);
      return {two_what("lane sequences between") + " at most " + dbl(max), [=](Network& x) {
        const api::Lane *l = x.lanes[a.seg][a.lane], *m = x.lanes[b.seg][b.lane];
        auto v = u ? routing::FindLaneSequences(l, m, max, true) : routing::FindLaneSequences(l, m, max);
        auto es = routing::DetermineEdgeS(*l, *m);
        sim::Quiet q;
        std::string s = num(v.size()) + (es ? dbl(*es) : std::string("-"));
        for (auto& w : v) { for (auto* e : w) s += e->id().string() + ","; s += ";"; }
        return s;
      }};
    }
    case 26: {
      double max = 5. + sim::choose(60);
      return {two_what("lane routes between") + " at most " + dbl(max), [=](Network& x) {
        auto v = routing::DeriveLaneSRoutes(at(x, a), at(x, b), max);
        sim::Quiet q;
        std::string s = num(v.size());
        for (auto& r : v) s += str(r) + ";";
        return s;
      }};
    }
    case 27:
      return {two_what("graph") , [=](Network& x) {
        auto g = routing::graph::BuildGraph(x.rg());
        auto s0 = routing::graph::FindNode(g, *x.lanes[a.seg][a.lane], api::LaneEnd::kStart);
        auto s1 = routing::graph::FindNode(g, *x.lanes[b.seg][b.lane], api::LaneEnd::kFinish);
        std::string t;
        if (s0 && s1) {
          auto v = routing::graph::FindAllEdgeSequences(g, *s0, *s1);
          sim::Quiet q;
          for (auto& w : v) { for (auto& e : w) t += e.id.string() + ","; t += ";"; }
        }
        sim::Quiet q;
        return str(g) + t;
      }};
    case 29: {
      bool red = sim::flip(3, 4);
      return {std::string("graph drawing") + (red ? " with the route" : ""), [=](Network& x) {
        auto g = routing::graph::BuildGraph(x.rg());
        std::ostringstream os;
        if (red) maliput::utility::GenerateDotStream(g, *I(x).route, &os);
        else maliput::utility::GenerateDotStream(g, &os);
        whole(os);
        std::string t = os.str();
        sim::Quiet q;
        return hashed(t);
      }};
    }
    case 28:
      return {lane_what("containment of"), [=](Network& x) {
        bool c = x.rn->Contains(at(x, a)), d = x.rn->Contains(x.lanes[a.seg][a.lane]->id()), e = x.rn->Contains(api::LaneId("no such lane"));
        auto comps = maliput::utility::AnalyzeConfluentSegments(x.rg());
        sim::Quiet q;
        std::string s = num(c) + num(d) + num(e);
        for (auto& k : comps) { std::set<std::string> o; for (auto* z : k) o.insert(z->id().string()); for (auto& z : o) s += z + ","; s += ";"; }
        return s;
      }};
    default: {
      double t = sim::choose(9) * .25;
      return {two_what("comparisons and spirals of"), [=](Network& x) {
        auto f = maliput::math::ComputeFresnelCosineAndSine(t);
        double h = maliput::math::FresnelSpiralHeading(t, .2), hd = maliput::math::FresnelSpiralHeadingDot(t, .2);
        auto p1 = at(x, a).ToInertialPosition(), p2 = at(x, b).ToInertialPosition();
        auto c1 = api::IsInertialPositionClose(p1, p2, 1e-3);
        auto c2 = api::IsLanePositionClose(api::LanePosition(a.s, a.r, a.h), api::LanePosition(b.s, b.r, b.h), 1e-3);
        auto c3 = api::IsEqual("a", "b", static_cast<const api::Lane*>(x.lanes[a.seg][a.lane]), static_cast<const api::Lane*>(x.lanes[b.seg][b.lane]));
        std::ostringstream os;
        os << p1 << api::LanePosition(b.s, b.r, b.h) << api::LaneEnd::kStart << x.lanes[a.seg][a.lane]->GetOrientation(api::LanePosition(0., 0., 0.)) << x.lanes[a.seg][a.lane]->id();
        whole(os);
        sim::Quiet q;
        return dbl(f[0]) + dbl(f[1]) + dbl(h) + dbl(hd) + c1.message.value_or("") + c2.message.value_or("") + (c3.message ? "differ" : "same") + os.str();
      }};
    }
  }
}

}  // namespace w
