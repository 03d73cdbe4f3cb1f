// A small road geometry backend on maliput::geometry_base: straight and circular lanes on a plane that may be lifted.
#pragma once
#include <cmath>
#include <memory>
#include <string>
#include <vector>

#include "maliput/api/lane_data.h"
#include "maliput/geometry_base/branch_point.h"
#include "maliput/geometry_base/brute_force_strategy.h"
#include "maliput/geometry_base/junction.h"
#include "maliput/geometry_base/kd_tree_strategy.h"
#include "maliput/geometry_base/lane.h"
#include "maliput/geometry_base/road_geometry.h"
#include "maliput/geometry_base/segment.h"
#include "rt.h"
#include "w/backend.h"
#include "w/common.h"

namespace w {

namespace api = maliput::api;
namespace gb = maliput::geometry_base;
using maliput::math::Vector3;

struct Pose {
  double x = 0, y = 0, z = 0, heading = 0;
};

class SimLane : public gb::Lane {
 public:
  // The reference line starts at `start` and has constant curvature `k`; the lane's centerline is `offset` to its left.
  SimLane(const api::LaneId& id, const Pose& start, double k, double length, double offset, double width, double left, double right)
      : gb::Lane(id), p_(start), k_(k / (1. - k * offset)), length_(length * (1. - k * offset)), half_(width / 2), left_(left), right_(right) {
    p_.x -= offset * std::sin(start.heading);
    p_.y += offset * std::cos(start.heading);
  }

 private:
  Vector3 at(double s, double r, double h) const {
    double a = p_.heading;
    if (k_ == 0.) {
      return {p_.x + s * std::cos(a) - r * std::sin(a), p_.y + s * std::sin(a) + r * std::cos(a), p_.z + h};
    }
    double R = 1. / k_, b = a + k_ * s;
    double cx = p_.x - R * std::sin(a), cy = p_.y + R * std::cos(a);
    return {cx + (R - r) * std::sin(b), cy - (R - r) * std::cos(b), p_.z + h};
  }
  void project(const Vector3& q, double rmin, double rmax, api::LanePosition* lp, Vector3* nearest, double* distance) const {
    double s, r, a = p_.heading;
    if (k_ == 0.) {
      double dx = q.x() - p_.x, dy = q.y() - p_.y;
      s = dx * std::cos(a) + dy * std::sin(a);
      r = -dx * std::sin(a) + dy * std::cos(a);
    } else {
      double R = 1. / k_, cx = p_.x - R * std::sin(a), cy = p_.y + R * std::cos(a);
      double dx = q.x() - cx, dy = q.y() - cy, d = std::sqrt(dx * dx + dy * dy), sg = k_ > 0 ? 1. : -1.;
      r = R - sg * d;
      double b = std::atan2(sg * dx, -sg * dy);
      double t = sg * (b - a);
      while (t < -M_PI) t += 2 * M_PI;
      while (t > M_PI) t -= 2 * M_PI;
      s = t * std::abs(R);
    }
    s = std::min(std::max(s, 0.), length_);
    r = std::min(std::max(r, rmin), rmax);
    double h = std::min(std::max(q.z() - p_.z, 0.), 5.);
    *lp = api::LanePosition(s, r, h);
    *nearest = at(s, r, h);
    *distance = (q - *nearest).norm();
  }
  double do_length() const override { backend_call(); return length_; }
  api::RBounds do_lane_bounds(double) const override { backend_call(); return {-half_, half_}; }
  api::RBounds do_segment_bounds(double) const override { backend_call(); return {-right_, left_}; }
  api::HBounds do_elevation_bounds(double, double) const override { backend_call(); return {0., 5.}; }
  Vector3 DoToBackendPosition(const api::LanePosition& p) const override { backend_call(); return at(p.s(), p.r(), p.h()); }
  void DoToLanePositionBackend(const Vector3& q, api::LanePosition* lp, Vector3* n, double* d) const override { backend_call(); project(q, -half_, half_, lp, n, d); }
  void DoToSegmentPositionBackend(const Vector3& q, api::LanePosition* lp, Vector3* n, double* d) const override { backend_call(); project(q, -right_, left_, lp, n, d); }
  api::Rotation DoGetOrientation(const api::LanePosition& p) const override { backend_call(); return api::Rotation::FromRpy(0., 0., p_.heading + k_ * p.s()); }
  api::LanePosition DoEvalMotionDerivatives(const api::LanePosition& p, const api::IsoLaneVelocity& v) const override {
    backend_call();
    return api::LanePosition(v.sigma_v / (1. - k_ * p.r()), v.rho_v, v.eta_v);
  }
  Pose p_;
  double k_, length_, half_, left_, right_;
};
class SimSegment : public gb::Segment {
 public:
  explicit SimSegment(const api::SegmentId& id) : gb::Segment(id) {}
};
class SimJunction : public gb::Junction {
 public:
  explicit SimJunction(const api::JunctionId& id) : gb::Junction(id) {}
};
class SimBranchPoint : public gb::BranchPoint {
 public:
  explicit SimBranchPoint(const api::BranchPointId& id) : gb::BranchPoint(id) {}
};
class SimRoadGeometry : public gb::RoadGeometry {
 public:
  explicit SimRoadGeometry(const std::string& id, const Vector3& t = Vector3(0, 0, 0))
      : gb::RoadGeometry(api::RoadGeometryId(id), 1e-3, 1e-3, 1., t) {}
};

// ---- description of a network, and its construction ----
struct SegSpec {
  std::string name;
  Pose start;
  double k = 0, length = 10, width = 3.5;
  int lanes = 1, pred = -1, junction = 0;
};
struct NetSpec {
  std::vector<SegSpec> segs;
  int junctions = 0;
  double strategy_step = 0.;  // 0: exhaustive search
  Vector3 translation{0, 0, 0};
  std::string lane_name(int seg, int lane) const { return segs[seg].name + "_" + num(lane); }
};

inline Pose pose_after(const SegSpec& s) {
  Pose p = s.start;
  if (s.k == 0.) {
    p.x += s.length * std::cos(p.heading);
    p.y += s.length * std::sin(p.heading);
  } else {
    double R = 1. / s.k, b = p.heading + s.k * s.length;
    p.x += R * (std::sin(b) - std::sin(p.heading));
    p.y += -R * (std::cos(b) - std::cos(p.heading));
    p.heading = b;
  }
  return p;
}

inline NetSpec random_net(int max_segs) {  // quiet
  NetSpec n;
  int count = 1 + sim::choose(max_segs);
  if (sim::flip(1, 3)) n.translation = Vector3(5., -3., .25);
  n.strategy_step = sim::flip(1, 2) ? 2. + sim::choose(4) : 0.;
  for (int i = 0; i < count; ++i) {
    SegSpec s;
    s.name = (i % 3 == 1 ? "segment with a long name " : "s") + num(i);
    s.pred = i == 0 || sim::flip(1, 10) ? -1 : i - 1 - static_cast<int>(sim::choose(std::min(i, 3)));
    s.length = 4. + sim::choose(12);
    s.lanes = 1 + sim::choose(3);
    static const double ks[] = {0., 0., .02, -.03, .05};
    s.k = ks[sim::choose(5)];
    if (s.pred >= 0) s.start = pose_after(n.segs[s.pred]);
    else s.start = Pose{40. * i, 15. * i, sim::flip(1, 4) ? 6. : 0., .3 * sim::choose(5)};
    if (i > 0 && sim::flip(1, 3)) s.junction = n.segs[i - 1].junction;
    else s.junction = n.junctions++;
    n.segs.push_back(s);
  }
  return n;
}

struct Net {
  std::unique_ptr<SimRoadGeometry> rg;
  std::vector<std::vector<SimLane*>> lanes;  // by segment
};

// Live code: everything maliput does here is simulated.
inline std::unique_ptr<SimLane> make_lane(const SegSpec& s, const std::string& name, int l) {
  double total = s.lanes * s.width;
  double center = (l + .5) * s.width - total / 2;
  return std::make_unique<SimLane>(api::LaneId(name), s.start, s.k, s.length, center, s.width, total / 2 - center, total / 2 + center);
}
inline Net build_net(const NetSpec& spec) {
  Net net;
  net.rg = std::make_unique<SimRoadGeometry>("road geometry", spec.translation);
  std::vector<SimJunction*> js;
  for (int j = 0; j < spec.junctions; ++j) js.push_back(net.rg->AddJunction(std::make_unique<SimJunction>(api::JunctionId("junction " + num(j)))));
  net.lanes.resize(spec.segs.size());
  for (size_t i = 0; i < spec.segs.size(); ++i) {
    SimSegment* seg = js[spec.segs[i].junction]->AddSegment(std::make_unique<SimSegment>(api::SegmentId(spec.segs[i].name)));
    for (int l = 0; l < spec.segs[i].lanes; ++l) net.lanes[i].push_back(seg->AddLane(make_lane(spec.segs[i], spec.lane_name(i, l), l)));
  }
  int nbp = 0;
  auto add_bp = [&] { return net.rg->AddBranchPoint(std::make_unique<SimBranchPoint>(api::BranchPointId("branch point " + num(nbp++)))); };
  for (size_t i = 0; i < spec.segs.size(); ++i) {
    for (size_t l = 0; l < net.lanes[i].size(); ++l) {
      bool has_pred = spec.segs[i].pred >= 0 && l < net.lanes[spec.segs[i].pred].size();
      if (!has_pred) add_bp()->AddBBranch(net.lanes[i][l], api::LaneEnd::kStart);
      SimBranchPoint* bp = add_bp();
      bp->AddABranch(net.lanes[i][l], api::LaneEnd::kFinish);
      bool first = true;
      for (size_t c = 0; c < spec.segs.size(); ++c) {
        if (spec.segs[c].pred != static_cast<int>(i) || l >= net.lanes[c].size()) continue;
        bp->AddBBranch(net.lanes[c][l], api::LaneEnd::kStart);
        if (first) {
          bp->SetDefault({net.lanes[i][l], api::LaneEnd::kFinish}, {net.lanes[c][l], api::LaneEnd::kStart});
          bp->SetDefault({net.lanes[c][l], api::LaneEnd::kStart}, {net.lanes[i][l], api::LaneEnd::kFinish});
        }
        first = false;
      }
    }
  }
  if (spec.strategy_step > 0.) net.rg->InitializeStrategy<gb::KDTreeStrategy>(spec.strategy_step);
  return net;
}

// ---- digests of answers ----
inline std::string str(const Vector3& v) { return "(" + dbl(v.x()) + "," + dbl(v.y()) + "," + dbl(v.z()) + ")"; }
inline std::string str(const api::InertialPosition& p) { return str(p.xyz()); }
inline std::string str(const api::LanePosition& p) { return str(p.srh()); }
inline std::string str(const api::Rotation& r) {
  return dbl(r.quat().w()) + "," + dbl(r.quat().x()) + "," + dbl(r.quat().y()) + "," + dbl(r.quat().z());
}
inline std::string str(const api::LanePositionResult& r) { return str(r.lane_position) + str(r.nearest_position) + dbl(r.distance); }
inline std::string str(const api::RoadPositionResult& r) {
  return (r.road_position.lane ? r.road_position.lane->id().string() : std::string("no lane")) + str(r.road_position.pos) + str(r.nearest_position) + dbl(r.distance);
}
inline std::string str(const api::LaneEnd& e) { return (e.lane ? e.lane->id().string() : std::string("none")) + (e.end == api::LaneEnd::kStart ? "<" : ">"); }
inline std::string str(const api::LaneEndSet* s) {
  if (!s) return "null";
  std::string t;
  for (int i = 0; i < s->size(); ++i) t += str(s->get(i)) + ",";
  return t;
}

}  // namespace w
