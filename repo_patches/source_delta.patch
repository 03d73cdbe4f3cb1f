From 16a54fb75f67ac7eb45e0a6966bbf1344560a754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:47 +0000
Subject: [PATCH 01/24] fix: let ThreadPool finish, be destroyed and fail to
 construct when its threads were never started

Threads waited for Start() only, so that Finish() and the destructor of a pool
that was never started, and the unwinding of a constructor that could not
create all of its threads, waited for them forever.
---
 src/maliput/utility/thread_pool.cc | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/maliput/utility/thread_pool.cc b/src/maliput/utility/thread_pool.cc
index 0b4b333..3ac39ab 100644
--- a/src/maliput/utility/thread_pool.cc
+++ b/src/maliput/utility/thread_pool.cc
@@ -34,8 +34,15 @@ namespace utility {
 
 ThreadPool::ThreadPool(std::size_t n) {
   MALIPUT_THROW_UNLESS(n != 0);
-  for (std::size_t i = 0; i < n; ++i) {
-    futures_.push_back(std::async(std::launch::async, [this] { DoWork(); }));
+  futures_.reserve(n);
+  try {
+    for (std::size_t i = 0; i < n; ++i) {
+      futures_.push_back(std::async(std::launch::async, [this] { DoWork(); }));
+    }
+  } catch (...) {
+    // Releases the threads that could be created, which are waiting for the pool to be started.
+    Finish();
+    throw;
   }
 };
 
@@ -50,7 +57,11 @@ void ThreadPool::Start() {
 }
 
 void ThreadPool::Finish() {
-  is_finished_ = true;
+  {
+    std::unique_lock<std::mutex> l_s(start_mutex_);
+    is_finished_ = true;
+    start_.notify_all();
+  }
   {
     std::unique_lock<std::mutex> l_t(tasks_mutex_);
     available_.notify_all();
@@ -60,6 +71,8 @@ void ThreadPool::Finish() {
   }
   futures_.clear();
   is_running_ = false;
+  // Only a pool that was never started has tasks left: they won't be run.
+  cancel_pending();
 }
 
 void ThreadPool::cancel_pending() {
@@ -70,8 +83,9 @@ void ThreadPool::cancel_pending() {
 void ThreadPool::DoWork() {
   {
     std::unique_lock<std::mutex> l_s(start_mutex_);
+    start_.wait(l_s, [&] { return is_running_.load() || is_finished_.load(); });
     if (!is_running_) {
-      start_.wait(l_s, [&] { return is_running_.load(); });
+      return;
     }
   }
   while (true) {
-- 
2.43.0


From 70632666f88d072739064718d53bdba58549f91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:15 +0000
Subject: [PATCH 02/24] fix: keep ManualRulebook's rules and range index in
 step when a zone revisits a lane or an edit fails

---
 src/maliput/base/manual_rulebook.cc | 89 ++++++++++++++---------------
 1 file changed, 42 insertions(+), 47 deletions(-)

diff --git a/src/maliput/base/manual_rulebook.cc b/src/maliput/base/manual_rulebook.cc
index 8d53c49..0cb048a 100644
--- a/src/maliput/base/manual_rulebook.cc
+++ b/src/maliput/base/manual_rulebook.cc
@@ -122,15 +122,13 @@ class ManualRulebook::Impl {
   void AddRule(const api::rules::DiscreteValueRule& rule) {
     MALIPUT_THROW_UNLESS(range_value_rules_.find(rule.id()) == range_value_rules_.end());
 
-    MALIPUT_THROW_UNLESS(discrete_value_rules_.emplace(rule.id(), rule).second);
-    index_->AddRule(rule);
+    AddAnyRule(rule, &discrete_value_rules_);
   }
 
   void AddRule(const api::rules::RangeValueRule& rule) {
     MALIPUT_THROW_UNLESS(discrete_value_rules_.find(rule.id()) == discrete_value_rules_.end());
 
-    MALIPUT_THROW_UNLESS(range_value_rules_.emplace(rule.id(), rule).second);
-    index_->AddRule(rule);
+    AddAnyRule(rule, &range_value_rules_);
   }
 
   void RemoveRule(const api::rules::Rule::Id& id) {
@@ -216,50 +214,26 @@ class ManualRulebook::Impl {
 
 #pragma GCC diagnostic push
 #pragma GCC diagnostic ignored "-Wdeprecated-declarations"
-    void AddRule(const SpeedLimitRule& rule) { AddRange(IdVariant{rule.id()}, rule.zone()); }
+    void AddRule(const SpeedLimitRule& rule) { AddRanges(IdVariant{rule.id()}, {rule.zone()}); }
 
-    void RemoveRule(const SpeedLimitRule& rule) { RemoveRanges(IdVariant{rule.id()}, rule.zone().lane_id()); }
+    void RemoveRule(const SpeedLimitRule& rule) { RemoveRanges(IdVariant{rule.id()}, {rule.zone()}); }
 
-    void AddRule(const RightOfWayRule& rule) {
-      for (const LaneSRange& range : rule.zone().ranges()) {
-        AddRange(IdVariant{rule.id()}, range);
-      }
-    }
+    void AddRule(const RightOfWayRule& rule) { AddRanges(IdVariant{rule.id()}, rule.zone().ranges()); }
 
-    void RemoveRule(const RightOfWayRule& rule) {
-      for (const LaneSRange& range : rule.zone().ranges()) {
-        RemoveRanges(IdVariant{rule.id()}, range.lane_id());
-      }
-    }
+    void RemoveRule(const RightOfWayRule& rule) { RemoveRanges(IdVariant{rule.id()}, rule.zone().ranges()); }
 
-    void AddRule(const DirectionUsageRule& rule) { AddRange(IdVariant{rule.id()}, rule.zone()); }
+    void AddRule(const DirectionUsageRule& rule) { AddRanges(IdVariant{rule.id()}, {rule.zone()}); }
 
-    void RemoveRule(const DirectionUsageRule& rule) { RemoveRanges(IdVariant{rule.id()}, rule.zone().lane_id()); }
+    void RemoveRule(const DirectionUsageRule& rule) { RemoveRanges(IdVariant{rule.id()}, {rule.zone()}); }
 #pragma GCC diagnostic pop
 
-    void AddRule(const DiscreteValueRule& rule) {
-      for (const LaneSRange& range : rule.zone().ranges()) {
-        AddRange(IdVariant{rule.id()}, range);
-      }
-    }
+    void AddRule(const DiscreteValueRule& rule) { AddRanges(IdVariant{rule.id()}, rule.zone().ranges()); }
 
-    void RemoveRule(const DiscreteValueRule& rule) {
-      for (const LaneSRange& range : rule.zone().ranges()) {
-        RemoveRanges(IdVariant{rule.id()}, range.lane_id());
-      }
-    }
+    void RemoveRule(const DiscreteValueRule& rule) { RemoveRanges(IdVariant{rule.id()}, rule.zone().ranges()); }
 
-    void AddRule(const RangeValueRule& rule) {
-      for (const LaneSRange& range : rule.zone().ranges()) {
-        AddRange(IdVariant{rule.id()}, range);
-      }
-    }
+    void AddRule(const RangeValueRule& rule) { AddRanges(IdVariant{rule.id()}, rule.zone().ranges()); }
 
-    void RemoveRule(const RangeValueRule& rule) {
-      for (const LaneSRange& range : rule.zone().ranges()) {
-        RemoveRanges(IdVariant{rule.id()}, range.lane_id());
-      }
-    }
+    void RemoveRule(const RangeValueRule& rule) { RemoveRanges(IdVariant{rule.id()}, rule.zone().ranges()); }
 
     std::vector<IdVariant> FindRules(const LaneSRange& range, double tolerance) {
       std::vector<IdVariant> result;
@@ -275,14 +249,30 @@ class ManualRulebook::Impl {
     }
 
    private:
-    // Add a single (ID, LaneSRange) association.
-    void AddRange(const IdVariant& id, const LaneSRange& range) { map_[range.lane_id()].emplace(id, range.s_range()); }
-
-    // Removes all associations involving `id` and `lane_id`.
-    void RemoveRanges(const IdVariant& id, const LaneId& lane_id) {
-      map_.at(lane_id).erase(id);
-      if (map_[lane_id].empty()) {
-        map_.erase(lane_id);
+    // Adds the associations of `id` with every range in `ranges`, or none of them when it throws.
+    // `id` must not be in the index.
+    void AddRanges(const IdVariant& id, const std::vector<LaneSRange>& ranges) {
+      try {
+        for (const LaneSRange& range : ranges) {
+          map_[range.lane_id()].emplace(id, range.s_range());
+        }
+      } catch (...) {
+        RemoveRanges(id, ranges);
+        throw;
+      }
+    }
+
+    // Removes all associations involving `id` and the lanes of `ranges`, which may visit a lane more than once.
+    void RemoveRanges(const IdVariant& id, const std::vector<LaneSRange>& ranges) {
+      for (const LaneSRange& range : ranges) {
+        auto it = map_.find(range.lane_id());
+        if (it == map_.end()) {
+          continue;
+        }
+        it->second.erase(id);
+        if (it->second.empty()) {
+          map_.erase(it);
+        }
       }
     }
 
@@ -304,7 +294,12 @@ class ManualRulebook::Impl {
     // Throw if the id was already present.
     MALIPUT_THROW_UNLESS(map_result.second);
     // Add to index.
-    index_->AddRule(rule);
+    try {
+      index_->AddRule(rule);
+    } catch (...) {
+      map->erase(map_result.first);
+      throw;
+    }
   }
 
   template <class T>
-- 
2.43.0


From 40f695b7669b440fd113adcc6f25df42e6c43d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:51 +0000
Subject: [PATCH 03/24] fix: leave ManualPhaseRingBook unchanged when a phase
 ring is not accepted

---
 src/maliput/base/manual_phase_ring_book.cc | 34 ++++++++++++++++++----
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/maliput/base/manual_phase_ring_book.cc b/src/maliput/base/manual_phase_ring_book.cc
index cb20aae..83f5e82 100644
--- a/src/maliput/base/manual_phase_ring_book.cc
+++ b/src/maliput/base/manual_phase_ring_book.cc
@@ -51,27 +51,49 @@ class ManualPhaseRingBook::Impl {
   ~Impl() {}
 
   void AddPhaseRing(const PhaseRing& ring) {
-    auto result = ring_book_.emplace(ring.id(), ring);
-    if (!result.second) {
+    if (ring_book_.find(ring.id()) != ring_book_.end()) {
       throw std::logic_error("Attempted to add multiple PhaseRing instances with ID " + ring.id().string());
     }
     const Phase& phase = ring.phases().begin()->second;
 #pragma GCC diagnostic push
 #pragma GCC diagnostic ignored "-Wdeprecated-declarations"
     for (const auto& element : phase.rule_states()) {
-      auto r = right_of_way_rule_book_.emplace(element.first, ring.id());
+      if (right_of_way_rule_book_.find(element.first) != right_of_way_rule_book_.end()) {
 #pragma GCC diagnostic pop
-      if (!r.second) {
         throw std::logic_error("RightOfWayRule with ID " + element.first.string() +
                                " is part of more than one PhaseRing.");
       }
     }
     for (const auto& element : phase.discrete_value_rule_states()) {
-      auto r = rule_book_.emplace(element.first, ring.id());
-      if (!r.second) {
+      if (rule_book_.find(element.first) != rule_book_.end()) {
         throw std::logic_error("Rule with ID " + element.first.string() + " is part of more than one PhaseRing.");
       }
     }
+    // Either all the books know the ring, or none of them does.
+    try {
+      ring_book_.emplace(ring.id(), ring);
+#pragma GCC diagnostic push
+#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
+      for (const auto& element : phase.rule_states()) {
+        right_of_way_rule_book_.emplace(element.first, ring.id());
+      }
+#pragma GCC diagnostic pop
+      for (const auto& element : phase.discrete_value_rule_states()) {
+        rule_book_.emplace(element.first, ring.id());
+      }
+    } catch (...) {
+      ring_book_.erase(ring.id());
+#pragma GCC diagnostic push
+#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
+      for (const auto& element : phase.rule_states()) {
+        right_of_way_rule_book_.erase(element.first);
+      }
+#pragma GCC diagnostic pop
+      for (const auto& element : phase.discrete_value_rule_states()) {
+        rule_book_.erase(element.first);
+      }
+      throw;
+    }
   }
 
   void RemovePhaseRing(const PhaseRing::Id& ring_id) {
-- 
2.43.0


From e73c461a9d20c1bb6353ea760fcb7a109afa480a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:51 +0000
Subject: [PATCH 04/24] fix: reject a duplicate intersection without touching
 the moved-from pointer

---
 src/maliput/base/intersection_book.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/maliput/base/intersection_book.cc b/src/maliput/base/intersection_book.cc
index b8a19e9..b133f71 100644
--- a/src/maliput/base/intersection_book.cc
+++ b/src/maliput/base/intersection_book.cc
@@ -53,9 +53,10 @@ class IntersectionBook::Impl {
 
   void AddIntersection(std::unique_ptr<Intersection> intersection) {
     MALIPUT_THROW_UNLESS(intersection != nullptr);
-    auto result = book_.emplace(intersection->id(), std::move(intersection));
+    const Intersection::Id id = intersection->id();
+    auto result = book_.emplace(id, std::move(intersection));
     if (!result.second) {
-      throw std::logic_error("Attempted to add multiple Intersection instances with ID " + intersection->id().string());
+      throw std::logic_error("Attempted to add multiple Intersection instances with ID " + id.string());
     }
   }
 
-- 
2.43.0


From 3ab7f9a27b350c18b0f8c43e0e1395a31c56c166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:42 +0000
Subject: [PATCH 05/24] fix: keep a road geometry and its index unchanged when
 adding an element fails

---
 include/maliput/api/basic_id_index.h       |  8 +++++++
 include/maliput/geometry_base/junction.h   |  8 ++++++-
 src/maliput/api/basic_id_index.cc          | 24 +++++++++++++++++++
 src/maliput/geometry_base/branch_point.cc  | 17 ++++++++++---
 src/maliput/geometry_base/junction.cc      | 27 +++++++++++++++------
 src/maliput/geometry_base/road_geometry.cc | 28 ++++++++++++++++------
 src/maliput/geometry_base/segment.cc       | 12 +++++++---
 7 files changed, 103 insertions(+), 21 deletions(-)

diff --git a/include/maliput/api/basic_id_index.h b/include/maliput/api/basic_id_index.h
index 00a1d45..d97c11e 100644
--- a/include/maliput/api/basic_id_index.h
+++ b/include/maliput/api/basic_id_index.h
@@ -75,6 +75,14 @@ class BasicIdIndex : public RoadGeometry::IdIndex {
   /// @pre @p branch_point is not nullptr.
   void AddBranchPoint(const BranchPoint* branch_point);
 
+  /// Removes @p segment and all its lanes from the index. Those which are not
+  /// in the index are ignored.
+  void RemoveSegment(const Segment* segment);
+
+  /// Removes @p junction, all its segments and all their lanes from the index.
+  /// Those which are not in the index are ignored.
+  void RemoveJunction(const Junction* junction);
+
   /// Walks the object graph rooted at @p road_geometry and adds all
   /// components (Lane, Segment, Junction, BranchPoint) to the index.
   ///
diff --git a/include/maliput/geometry_base/junction.h b/include/maliput/geometry_base/junction.h
index 2a1b548..f7195fb 100644
--- a/include/maliput/geometry_base/junction.h
+++ b/include/maliput/geometry_base/junction.h
@@ -90,14 +90,19 @@ class Junction : public api::Junction {
   // @param lane_indexing_callback  function to be called on every Lane
   //                                which is attached to this Junction (via
   //                                a Segment), both now and in the future
+  // @param segment_unindexing_callback  function to be called on a Segment
+  //                                     when attaching it to this Junction
+  //                                     fails, to forget it and its Lanes
   //
   // @pre `road_geometry` is non-null.
   // @pre `segment_indexing_callback` is non-empty.
   // @pre `lane_indexing_callback` is non-empty.
+  // @pre `segment_unindexing_callback` is non-empty.
   // @pre Parent RoadGeometry and the callbacks have not already been set.
   void AttachToRoadGeometry(common::Passkey<RoadGeometry>, const api::RoadGeometry* road_geometry,
                             const std::function<void(const api::Segment*)>& segment_indexing_callback,
-                            const std::function<void(const api::Lane*)>& lane_indexing_callback);
+                            const std::function<void(const api::Lane*)>& lane_indexing_callback,
+                            const std::function<void(const api::Segment*)>& segment_unindexing_callback);
 
  private:
   // The non-template implementation of AddSegment<T>()
@@ -115,6 +120,7 @@ class Junction : public api::Junction {
   const api::RoadGeometry* road_geometry_{};
   std::function<void(const api::Segment*)> segment_indexing_callback_;
   std::function<void(const api::Lane*)> lane_indexing_callback_;
+  std::function<void(const api::Segment*)> segment_unindexing_callback_;
   std::vector<std::unique_ptr<Segment>> segments_;
 };
 
diff --git a/src/maliput/api/basic_id_index.cc b/src/maliput/api/basic_id_index.cc
index ea25b19..63fa3ca 100644
--- a/src/maliput/api/basic_id_index.cc
+++ b/src/maliput/api/basic_id_index.cc
@@ -29,6 +29,8 @@
 // OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 #include "maliput/api/basic_id_index.h"
 
+#include <iterator>
+
 #include "maliput/common/maliput_throw.h"
 
 namespace maliput {
@@ -48,6 +50,28 @@ void BasicIdIndex::AddBranchPoint(const BranchPoint* branch_point) {
   MALIPUT_THROW_UNLESS(branch_point_map_.emplace(branch_point->id(), branch_point).second);
 }
 
+namespace {
+// Erases the elements of `map` whose mapped value satisfies `predicate`. It neither copies identifiers nor throws.
+template <typename T, typename U, typename Predicate>
+void erase_if_value(std::unordered_map<U, T>* map, Predicate predicate) {
+  for (auto it = map->begin(); it != map->end();) {
+    it = predicate(it->second) ? map->erase(it) : std::next(it);
+  }
+}
+}  // namespace
+
+void BasicIdIndex::RemoveSegment(const Segment* segment) {
+  erase_if_value(&lane_map_, [segment](const Lane* lane) { return lane->segment() == segment; });
+  erase_if_value(&segment_map_, [segment](const Segment* s) { return s == segment; });
+}
+
+void BasicIdIndex::RemoveJunction(const Junction* junction) {
+  for (int i = 0; i < junction->num_segments(); ++i) {
+    RemoveSegment(junction->segment(i));
+  }
+  erase_if_value(&junction_map_, [junction](const Junction* j) { return j == junction; });
+}
+
 void BasicIdIndex::WalkAndAddAll(const RoadGeometry* road_geometry) {
   for (int ji = 0; ji < road_geometry->num_junctions(); ++ji) {
     const Junction* junction = road_geometry->junction(ji);
diff --git a/src/maliput/geometry_base/branch_point.cc b/src/maliput/geometry_base/branch_point.cc
index 26f12ef..f6912a0 100644
--- a/src/maliput/geometry_base/branch_point.cc
+++ b/src/maliput/geometry_base/branch_point.cc
@@ -54,10 +54,21 @@ void BranchPoint::AddBranch(Lane* lane, api::LaneEnd::Which end, LaneEndSet* sid
   const api::LaneEnd lane_end{lane, end};
   MALIPUT_THROW_UNLESS(confluent_branches_.count(lane_end) == 0);
   MALIPUT_THROW_UNLESS(ongoing_branches_.count(lane_end) == 0);
+  MALIPUT_THROW_UNLESS(lane->GetBranchPoint(end) == nullptr);
   LaneEndSet* const other_side = (side == &a_side_) ? &b_side_ : &a_side_;
-  side->Add(lane_end);
-  confluent_branches_[lane_end] = side;
-  ongoing_branches_[lane_end] = other_side;
+  // Either all the containers know the new branch, or none of them does.
+  const auto confluent_it = confluent_branches_.emplace(lane_end, side).first;
+  auto ongoing_it = ongoing_branches_.end();
+  try {
+    ongoing_it = ongoing_branches_.emplace(lane_end, other_side).first;
+    side->Add(lane_end);
+  } catch (...) {
+    confluent_branches_.erase(confluent_it);
+    if (ongoing_it != ongoing_branches_.end()) {
+      ongoing_branches_.erase(ongoing_it);
+    }
+    throw;
+  }
   switch (end) {
     case api::LaneEnd::kStart: {
       lane->SetStartBranchPoint({}, this);
diff --git a/src/maliput/geometry_base/junction.cc b/src/maliput/geometry_base/junction.cc
index cf570f5..450dd5d 100644
--- a/src/maliput/geometry_base/junction.cc
+++ b/src/maliput/geometry_base/junction.cc
@@ -36,11 +36,13 @@ namespace geometry_base {
 
 void Junction::AttachToRoadGeometry(common::Passkey<RoadGeometry>, const api::RoadGeometry* road_geometry,
                                     const std::function<void(const api::Segment*)>& segment_indexing_callback,
-                                    const std::function<void(const api::Lane*)>& lane_indexing_callback) {
+                                    const std::function<void(const api::Lane*)>& lane_indexing_callback,
+                                    const std::function<void(const api::Segment*)>& segment_unindexing_callback) {
   // Parameter checks
   MALIPUT_THROW_UNLESS(road_geometry != nullptr);
   MALIPUT_THROW_UNLESS(!!segment_indexing_callback);
   MALIPUT_THROW_UNLESS(!!lane_indexing_callback);
+  MALIPUT_THROW_UNLESS(!!segment_unindexing_callback);
   // Preconditions
   MALIPUT_THROW_UNLESS(road_geometry_ == nullptr);
   MALIPUT_THROW_UNLESS(!segment_indexing_callback_);
@@ -50,6 +52,7 @@ void Junction::AttachToRoadGeometry(common::Passkey<RoadGeometry>, const api::Ro
   // Store the indexing callbacks for future use.
   segment_indexing_callback_ = segment_indexing_callback;
   lane_indexing_callback_ = lane_indexing_callback;
+  segment_unindexing_callback_ = segment_unindexing_callback;
 
   // Index any Segments that had already been added to this Junction.
   for (auto& segment : segments_) {
@@ -64,12 +67,22 @@ void Junction::AddSegmentPrivate(std::unique_ptr<Segment> segment) {
   segments_.emplace_back(std::move(segment));
   Segment* const raw_segment = segments_.back().get();
 
-  raw_segment->AttachToJunction({}, this);
-  if (segment_indexing_callback_) {
-    segment_indexing_callback_(raw_segment);
-  }
-  if (lane_indexing_callback_) {
-    raw_segment->SetLaneIndexingCallback({}, lane_indexing_callback_);
+  try {
+    raw_segment->AttachToJunction({}, this);
+    if (segment_indexing_callback_) {
+      segment_indexing_callback_(raw_segment);
+    }
+    if (lane_indexing_callback_) {
+      raw_segment->SetLaneIndexingCallback({}, lane_indexing_callback_);
+    }
+  } catch (...) {
+    // The index rejected the segment or one of its lanes, hence neither the index nor this junction must keep any of
+    // them.
+    if (segment_unindexing_callback_) {
+      segment_unindexing_callback_(raw_segment);
+    }
+    segments_.pop_back();
+    throw;
   }
 }
 
diff --git a/src/maliput/geometry_base/road_geometry.cc b/src/maliput/geometry_base/road_geometry.cc
index 850ad9b..618ed5a 100644
--- a/src/maliput/geometry_base/road_geometry.cc
+++ b/src/maliput/geometry_base/road_geometry.cc
@@ -43,11 +43,19 @@ void RoadGeometry::AddJunctionPrivate(std::unique_ptr<Junction> junction) {
   MALIPUT_THROW_UNLESS(junction.get() != nullptr);
   junctions_.emplace_back(std::move(junction));
   Junction* const raw_junction = junctions_.back().get();
-  // clang-format off
-  raw_junction->AttachToRoadGeometry({}, this, [this](auto segment) { id_index_.AddSegment(segment); },
-                                     [this](auto lane) { id_index_.AddLane(lane); });
-  // clang-format on
-  id_index_.AddJunction(raw_junction);
+  try {
+    // clang-format off
+    raw_junction->AttachToRoadGeometry({}, this, [this](auto segment) { id_index_.AddSegment(segment); },
+                                       [this](auto lane) { id_index_.AddLane(lane); },
+                                       [this](auto segment) { id_index_.RemoveSegment(segment); });
+    // clang-format on
+    id_index_.AddJunction(raw_junction);
+  } catch (...) {
+    // Neither the index nor this road geometry must keep any part of a rejected junction.
+    id_index_.RemoveJunction(raw_junction);
+    junctions_.pop_back();
+    throw;
+  }
 }
 
 void RoadGeometry::AddBranchPointPrivate(std::unique_ptr<BranchPoint> branch_point) {
@@ -55,8 +63,14 @@ void RoadGeometry::AddBranchPointPrivate(std::unique_ptr<BranchPoint> branch_poi
   MALIPUT_THROW_UNLESS(branch_point.get() != nullptr);
   branch_points_.emplace_back(std::move(branch_point));
   BranchPoint* const raw_branch_point = branch_points_.back().get();
-  raw_branch_point->AttachToRoadGeometry({}, this);
-  id_index_.AddBranchPoint(raw_branch_point);
+  try {
+    raw_branch_point->AttachToRoadGeometry({}, this);
+    id_index_.AddBranchPoint(raw_branch_point);
+  } catch (...) {
+    // The index rejected the branch point, hence this road geometry must not keep it.
+    branch_points_.pop_back();
+    throw;
+  }
 }
 
 const api::Junction* RoadGeometry::do_junction(int index) const { return junctions_.at(index).get(); }
diff --git a/src/maliput/geometry_base/segment.cc b/src/maliput/geometry_base/segment.cc
index 4350eec..b0216ba 100644
--- a/src/maliput/geometry_base/segment.cc
+++ b/src/maliput/geometry_base/segment.cc
@@ -63,9 +63,15 @@ void Segment::AddLanePrivate(std::unique_ptr<Lane> lane) {
   lanes_.emplace_back(std::move(lane));
   Lane* const raw_lane = lanes_.back().get();
 
-  raw_lane->AttachToSegment({}, this, lanes_.size() - 1);
-  if (lane_indexing_callback_) {
-    lane_indexing_callback_(raw_lane);
+  try {
+    raw_lane->AttachToSegment({}, this, lanes_.size() - 1);
+    if (lane_indexing_callback_) {
+      lane_indexing_callback_(raw_lane);
+    }
+  } catch (...) {
+    // The index rejected the lane, hence this segment must not keep it.
+    lanes_.pop_back();
+    throw;
   }
 }
 
-- 
2.43.0


From 1a5d16cacf0b2ec9115c4f5689c5fc7423554a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:49 +0000
Subject: [PATCH 06/24] fix: replace a rule state in the manual state providers
 as a whole or not at all

---
 src/maliput/base/manual_discrete_value_rule_state_provider.cc | 4 +++-
 src/maliput/base/manual_range_value_rule_state_provider.cc    | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/maliput/base/manual_discrete_value_rule_state_provider.cc b/src/maliput/base/manual_discrete_value_rule_state_provider.cc
index 39bb04f..301646f 100644
--- a/src/maliput/base/manual_discrete_value_rule_state_provider.cc
+++ b/src/maliput/base/manual_discrete_value_rule_state_provider.cc
@@ -32,6 +32,7 @@
 #include <algorithm>
 #include <stdexcept>
 #include <string>
+#include <utility>
 
 #include "maliput/base/rule_filter.h"
 #include "maliput/common/logger.h"
@@ -69,7 +70,8 @@ void ManualDiscreteValueRuleStateProvider::SetState(
     state_result.next = {{*next_state, duration_until}};
   }
 
-  states_[id] = state_result;
+  // The new result replaces the old one as a whole, or not at all.
+  states_.insert_or_assign(id, std::move(state_result));
 }
 
 std::optional<api::rules::DiscreteValueRuleStateProvider::StateResult> ManualDiscreteValueRuleStateProvider::DoGetState(
diff --git a/src/maliput/base/manual_range_value_rule_state_provider.cc b/src/maliput/base/manual_range_value_rule_state_provider.cc
index 347148b..a6bbbcc 100644
--- a/src/maliput/base/manual_range_value_rule_state_provider.cc
+++ b/src/maliput/base/manual_range_value_rule_state_provider.cc
@@ -32,6 +32,7 @@
 #include <algorithm>
 #include <stdexcept>
 #include <string>
+#include <utility>
 
 #include "maliput/base/rule_filter.h"
 #include "maliput/common/logger.h"
@@ -92,7 +93,8 @@ void ManualRangeValueRuleStateProvider::SetState(const api::rules::Rule::Id& id,
     state_result.next = {{*next_state, duration_until}};
   }
 
-  states_[id] = state_result;
+  // The new result replaces the old one as a whole, or not at all.
+  states_.insert_or_assign(id, std::move(state_result));
 }
 
 std::optional<api::rules::RangeValueRuleStateProvider::StateResult> ManualRangeValueRuleStateProvider::DoGetState(
-- 
2.43.0


From 5b4269f8ec248748da8570586240d1a09f5b3db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:44 +0000
Subject: [PATCH 07/24] fix: compare the related rules and ids of rule states
 in both directions

---
 src/maliput/api/rules/rule.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/maliput/api/rules/rule.cc b/src/maliput/api/rules/rule.cc
index 8d3e6cd..d1756a1 100644
--- a/src/maliput/api/rules/rule.cc
+++ b/src/maliput/api/rules/rule.cc
@@ -50,10 +50,8 @@ bool CompareMapAttributes(const std::map<std::string, std::vector<T>>& map_a,
     if (it == map_b.end()) {
       return false;
     }
-    for (const auto& value_id : key_val.second) {
-      if (std::find(it->second.begin(), it->second.end(), value_id) == it->second.end()) {
-        return false;
-      }
+    if (!std::is_permutation(key_val.second.begin(), key_val.second.end(), it->second.begin(), it->second.end())) {
+      return false;
     }
   }
   return true;
-- 
2.43.0


From de04d4b9e4d7cc409f85faa83497693040a57bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:17 +0000
Subject: [PATCH 08/24] fix: refuse phase rings with bulb states in only some
 phases or with unknown next phases

---
 src/maliput/api/rules/phase_ring.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/maliput/api/rules/phase_ring.cc b/src/maliput/api/rules/phase_ring.cc
index daee203..55267bf 100644
--- a/src/maliput/api/rules/phase_ring.cc
+++ b/src/maliput/api/rules/phase_ring.cc
@@ -66,6 +66,9 @@ void VerifyAllPhasesHaveSameCoverage(const PhaseRing::Id& id, const std::vector<
                            ") has duplicated discrete value rule states");
     }
     // Require both set of bulb states to be defined or undefined together.
+    MALIPUT_VALIDATE(phase.bulb_states().has_value() == r.bulb_states().has_value(),
+                     "PhaseRing(" + id.string() + "). Phase(" + phase.id().string() + ") and Phase(" + r.id().string() +
+                         ") must both define bulb_states or both leave them undefined.");
     if (r.bulb_states() != std::nullopt) {
       MALIPUT_VALIDATE(phase.bulb_states()->size() == r.bulb_states()->size(),
                        "Phase(" + id.string() + "). Phase(" + phase.id().string() + ") and Phase(" + r.id().string() +
@@ -79,7 +82,7 @@ void VerifyAllPhasesHaveSameCoverage(const PhaseRing::Id& id, const std::vector<
 }
 
 /// Tests that `next_phases` defines the possible next phases of every
-/// phase in `phases` and nothing more.
+/// phase in `phases` and nothing more, and that all of them are in `phases`.
 void VerifyNextPhases(const PhaseRing::Id& id, const std::vector<Phase>& phases,
                       const std::unordered_map<Phase::Id, std::vector<PhaseRing::NextPhase>>& next_phases) {
   MALIPUT_VALIDATE(phases.size() == next_phases.size(),
@@ -88,6 +91,11 @@ void VerifyNextPhases(const PhaseRing::Id& id, const std::vector<Phase>& phases,
     MALIPUT_VALIDATE(
         next_phases.find(phase.id()) != next_phases.end(),
         "In PhaseRing(" + id.string() + "), the Phase(" + phase.id().string() + ") is not in next_phases.");
+    for (const auto& next_phase : next_phases.at(phase.id())) {
+      MALIPUT_VALIDATE(next_phases.find(next_phase.id) != next_phases.end(),
+                       "In PhaseRing(" + id.string() + "), the next phase Phase(" + next_phase.id.string() +
+                           ") of Phase(" + phase.id().string() + ") is not a phase of the ring.");
+    }
   }
 }
 
-- 
2.43.0


From 38f73c18688035811d942d8869aa803962a485d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:25 +0000
Subject: [PATCH 09/24] fix: report mesh, material and robot description files
 that could not be written

---
 include/maliput/utility/generate_obj.h  |  2 ++
 include/maliput/utility/generate_urdf.h |  2 ++
 src/maliput/utility/generate_obj.cc     | 11 +++++++++--
 src/maliput/utility/generate_urdf.cc    |  6 +++++-
 4 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/include/maliput/utility/generate_obj.h b/include/maliput/utility/generate_obj.h
index 93e9fc8..0f7ec31 100644
--- a/include/maliput/utility/generate_obj.h
+++ b/include/maliput/utility/generate_obj.h
@@ -233,6 +233,7 @@ std::map<std::string, std::pair<mesh::GeoMesh, Material>> BuildMeshes(const api:
 ///
 /// @throws maliput::common::assertion_error When @p road_geometry is nullptr.
 /// @throws maliput::common::assertion_error When @p road_geometry->linear_tolerance() is zero.
+/// @throws maliput::common::assertion_error When any of the files cannot be written.
 void GenerateObjFile(const api::RoadGeometry* road_geometry, const std::string& dirpath, const std::string& fileroot,
                      const ObjFeatures& features);
 
@@ -256,6 +257,7 @@ void GenerateObjFile(const api::RoadGeometry* road_geometry, const std::string&
 /// road surface described by the `road_network->road_geometry()`.
 ///
 /// @throws maliput::common::assertion_error When @p road_network is nullptr.
+/// @throws maliput::common::assertion_error When any of the files cannot be written.
 void GenerateObjFile(const api::RoadNetwork* road_network, const std::string& dirpath, const std::string& fileroot,
                      const ObjFeatures& features);
 
diff --git a/include/maliput/utility/generate_urdf.h b/include/maliput/utility/generate_urdf.h
index daf1083..3674952 100644
--- a/include/maliput/utility/generate_urdf.h
+++ b/include/maliput/utility/generate_urdf.h
@@ -55,6 +55,8 @@ namespace utility {
 ///
 /// The produced mesh covers the area within the lane-bounds of every
 /// api::Lane in the RoadGeometry.
+///
+/// @throws maliput::common::assertion_error When any of the files cannot be written.
 void GenerateUrdfFile(const api::RoadGeometry* road_geometry, const std::string& dirpath, const std::string& fileroot,
                       const ObjFeatures& features);
 
diff --git a/src/maliput/utility/generate_obj.cc b/src/maliput/utility/generate_obj.cc
index 54138a5..74a6b4d 100644
--- a/src/maliput/utility/generate_obj.cc
+++ b/src/maliput/utility/generate_obj.cc
@@ -46,6 +46,7 @@
 #include "maliput/api/segment.h"
 #include "maliput/common/logger.h"
 #include "maliput/common/maliput_abort.h"
+#include "maliput/common/maliput_throw.h"
 #include "maliput/common/profiler.h"
 #include "maliput/math/vector.h"
 #include "maliput/utility/mesh.h"
@@ -1097,7 +1098,8 @@ void GenerateObjFile(const api::RoadGeometry* rg, const std::string& dirpath, co
     // This yields:  `n > log10(sqrt(3) * 5) - log10(ε)`.
     MALIPUT_THROW_UNLESS(linear_tolerance > 0.);
 
-    std::ofstream os(dirpath + "/" + obj_filename, std::ios::binary);
+    const std::string obj_filepath = dirpath + "/" + obj_filename;
+    std::ofstream os(obj_filepath, std::ios::binary);
     os << "# GENERATED BY maliput::utility::GenerateObjFile()\n"
        << "#\n"
        << "# DON'T BE A HERO.  Do not edit by hand.\n"
@@ -1126,11 +1128,14 @@ void GenerateObjFile(const api::RoadGeometry* rg, const std::string& dirpath, co
 
     std::tie(vertex_index_offset, normal_index_offset) =
         sidewalk_mesh.EmitObj(os, kSidewalk, precision, features.origin, vertex_index_offset, normal_index_offset);
+    os.close();
+    MALIPUT_VALIDATE(os.good(), "File could not be written: " + obj_filepath);
   }
 
   // Create the MTL file referenced by the OBJ file.
   {
-    std::ofstream os(dirpath + "/" + mtl_filename, std::ios::binary);
+    const std::string mtl_filepath = dirpath + "/" + mtl_filename;
+    std::ofstream os(mtl_filepath, std::ios::binary);
     os << "# GENERATED BY maliput::utility::GenerateObjFile()\n"
        << "# DON'T BE A HERO.  Do not edit by hand.\n\n";
     for (const auto& matPair : meshes) {
@@ -1141,6 +1146,8 @@ void GenerateObjFile(const api::RoadGeometry* rg, const std::string& dirpath, co
       const Material& mat = matPair.second.second;
       os << FormatMaterial(mat, precision);
     }
+    os.close();
+    MALIPUT_VALIDATE(os.good(), "File could not be written: " + mtl_filepath);
   }
 }
 
diff --git a/src/maliput/utility/generate_urdf.cc b/src/maliput/utility/generate_urdf.cc
index 4520e3e..d5d08c7 100644
--- a/src/maliput/utility/generate_urdf.cc
+++ b/src/maliput/utility/generate_urdf.cc
@@ -31,6 +31,7 @@
 
 #include <fstream>
 
+#include "maliput/common/maliput_throw.h"
 #include "maliput/utility/generate_obj.h"
 
 namespace maliput {
@@ -43,7 +44,8 @@ void GenerateUrdfFile(const api::RoadGeometry* road_geometry, const std::string&
   const std::string obj_filename = fileroot + ".obj";
   const std::string urdf_filename = fileroot + ".urdf";
 
-  std::ofstream os(dirpath + "/" + urdf_filename, std::ios::binary);
+  const std::string urdf_filepath = dirpath + "/" + urdf_filename;
+  std::ofstream os(urdf_filepath, std::ios::binary);
   os << "<?xml version=\"1.0\" ?>\n"
      << "<robot name=\"" << road_geometry->id().string() << "\">\n"
      << "  <link name=\"world\"/>\n"
@@ -63,6 +65,8 @@ void GenerateUrdfFile(const api::RoadGeometry* road_geometry, const std::string&
      << "    </visual>\n"
      << "  </link>\n"
      << "</robot>\n";
+  os.close();
+  MALIPUT_VALIDATE(os.good(), "File could not be written: " + urdf_filepath);
 }
 
 }  // namespace utility
-- 
2.43.0


From 3f213aad95e7712c91fb772c7e2da5a35957e1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:04 +0000
Subject: [PATCH 10/24] fix: refuse YAML files that cannot be read up to their
 end

---
 include/maliput/base/yaml_conversion.h        | 11 ++++++++++
 src/maliput/base/intersection_book_loader.cc  |  3 ++-
 src/maliput/base/phase_ring_book_loader.cc    |  3 ++-
 .../base/phase_ring_book_loader_old_rules.cc  |  3 ++-
 src/maliput/base/road_rulebook_loader.cc      |  2 +-
 ...oad_rulebook_loader_using_rule_registry.cc |  2 +-
 src/maliput/base/rule_registry_loader.cc      |  2 +-
 src/maliput/base/traffic_light_book_loader.cc |  3 ++-
 src/maliput/base/yaml_conversion.cc           | 21 +++++++++++++++++++
 9 files changed, 43 insertions(+), 7 deletions(-)

diff --git a/include/maliput/base/yaml_conversion.h b/include/maliput/base/yaml_conversion.h
index 23215a2..2b15e2c 100644
--- a/include/maliput/base/yaml_conversion.h
+++ b/include/maliput/base/yaml_conversion.h
@@ -29,6 +29,8 @@
 // OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 #pragma once
 
+#include <string>
+
 #include <yaml-cpp/yaml.h>
 
 #include "maliput/api/regions.h"
@@ -121,4 +123,13 @@ std::string GetValueFromYamlNode(const YAML::Node& node);
 /// @throws maliput::common::assertion_error when the description is ill-defined.
 std::string GetDescriptionFromYamlNode(const YAML::Node& node);
 
+/// Loads the YAML document in @p filename.
+///
+/// @param filename The path to the YAML document.
+/// @return The root YAML::Node of the document.
+///
+/// @throws YAML::BadFile when the file can't be opened or can't be read up to its end.
+/// @throws YAML::ParserException when the contents of the file aren't a valid YAML document.
+YAML::Node LoadYamlFile(const std::string& filename);
+
 }  // namespace maliput
diff --git a/src/maliput/base/intersection_book_loader.cc b/src/maliput/base/intersection_book_loader.cc
index e2818e6..bed216b 100644
--- a/src/maliput/base/intersection_book_loader.cc
+++ b/src/maliput/base/intersection_book_loader.cc
@@ -42,6 +42,7 @@
 #include "maliput/api/rules/rule.h"
 #include "maliput/base/intersection.h"
 #include "maliput/base/intersection_book.h"
+#include "maliput/base/yaml_conversion.h"
 #include "maliput/common/maliput_throw.h"
 
 using maliput::api::LaneSRange;
@@ -155,7 +156,7 @@ std::unique_ptr<api::IntersectionBook> LoadIntersectionBookFromFile(const std::s
                                                                     const PhaseRingBook& phase_ring_book,
                                                                     const api::RoadGeometry* road_geometry,
                                                                     ManualPhaseProvider* phase_provider) {
-  return BuildFrom(YAML::LoadFile(filename), road_rulebook, phase_ring_book, road_geometry, phase_provider);
+  return BuildFrom(LoadYamlFile(filename), road_rulebook, phase_ring_book, road_geometry, phase_provider);
 }
 
 }  // namespace maliput
diff --git a/src/maliput/base/phase_ring_book_loader.cc b/src/maliput/base/phase_ring_book_loader.cc
index 65ff2f3..51635ea 100644
--- a/src/maliput/base/phase_ring_book_loader.cc
+++ b/src/maliput/base/phase_ring_book_loader.cc
@@ -43,6 +43,7 @@
 #include "maliput/api/rules/traffic_lights.h"
 #include "maliput/base/manual_phase_ring_book.h"
 #include "maliput/base/rule_registry.h"
+#include "maliput/base/yaml_conversion.h"
 #include "maliput/common/maliput_abort.h"
 #include "maliput/common/maliput_throw.h"
 
@@ -295,7 +296,7 @@ std::unique_ptr<api::rules::PhaseRingBook> LoadPhaseRingBook(const RoadRulebook*
 std::unique_ptr<api::rules::PhaseRingBook> LoadPhaseRingBookFromFile(const RoadRulebook* rulebook,
                                                                      const TrafficLightBook* traffic_light_book,
                                                                      const std::string& filename) {
-  return BuildFrom(rulebook, traffic_light_book, YAML::LoadFile(filename));
+  return BuildFrom(rulebook, traffic_light_book, LoadYamlFile(filename));
 }
 
 }  // namespace maliput
diff --git a/src/maliput/base/phase_ring_book_loader_old_rules.cc b/src/maliput/base/phase_ring_book_loader_old_rules.cc
index 33c0b68..3eebd47 100644
--- a/src/maliput/base/phase_ring_book_loader_old_rules.cc
+++ b/src/maliput/base/phase_ring_book_loader_old_rules.cc
@@ -46,6 +46,7 @@
 #include "maliput/api/rules/traffic_lights.h"
 #include "maliput/base/manual_phase_ring_book.h"
 #include "maliput/base/rule_registry.h"
+#include "maliput/base/yaml_conversion.h"
 #include "maliput/common/maliput_abort.h"
 #include "maliput/common/maliput_throw.h"
 
@@ -348,7 +349,7 @@ std::unique_ptr<api::rules::PhaseRingBook> LoadPhaseRingBookOldRules(const RoadR
 std::unique_ptr<api::rules::PhaseRingBook> LoadPhaseRingBookFromFileOldRules(const RoadRulebook* rulebook,
                                                                              const TrafficLightBook* traffic_light_book,
                                                                              const std::string& filename) {
-  return BuildFrom(rulebook, traffic_light_book, YAML::LoadFile(filename));
+  return BuildFrom(rulebook, traffic_light_book, LoadYamlFile(filename));
 }
 
 }  // namespace maliput
diff --git a/src/maliput/base/road_rulebook_loader.cc b/src/maliput/base/road_rulebook_loader.cc
index fde7abf..acd72db 100644
--- a/src/maliput/base/road_rulebook_loader.cc
+++ b/src/maliput/base/road_rulebook_loader.cc
@@ -427,7 +427,7 @@ std::unique_ptr<api::rules::RoadRulebook> LoadRoadRulebook(const api::RoadGeomet
 
 std::unique_ptr<api::rules::RoadRulebook> LoadRoadRulebookFromFile(const api::RoadGeometry* road_geometry,
                                                                    const std::string& filename) {
-  return BuildFrom(road_geometry, YAML::LoadFile(filename));
+  return BuildFrom(road_geometry, LoadYamlFile(filename));
 }
 
 }  // namespace maliput
diff --git a/src/maliput/base/road_rulebook_loader_using_rule_registry.cc b/src/maliput/base/road_rulebook_loader_using_rule_registry.cc
index cc5171c..6648a18 100644
--- a/src/maliput/base/road_rulebook_loader_using_rule_registry.cc
+++ b/src/maliput/base/road_rulebook_loader_using_rule_registry.cc
@@ -267,7 +267,7 @@ std::unique_ptr<api::rules::RoadRulebook> LoadRoadRulebook(const api::RoadGeomet
 std::unique_ptr<api::rules::RoadRulebook> LoadRoadRulebookFromFile(const api::RoadGeometry* road_geometry,
                                                                    const std::string& filename,
                                                                    const RuleRegistry& rule_registry) {
-  return BuildFrom(road_geometry, YAML::LoadFile(filename), rule_registry);
+  return BuildFrom(road_geometry, LoadYamlFile(filename), rule_registry);
 }
 
 }  // namespace maliput
diff --git a/src/maliput/base/rule_registry_loader.cc b/src/maliput/base/rule_registry_loader.cc
index 5fd1b2f..914e61b 100644
--- a/src/maliput/base/rule_registry_loader.cc
+++ b/src/maliput/base/rule_registry_loader.cc
@@ -178,7 +178,7 @@ std::unique_ptr<api::rules::RuleRegistry> LoadRuleRegistry(const std::string& in
 }
 
 std::unique_ptr<api::rules::RuleRegistry> LoadRuleRegistryFromFile(const std::string& filename) {
-  return BuildFrom(YAML::LoadFile(filename));
+  return BuildFrom(LoadYamlFile(filename));
 }
 
 }  // namespace maliput
diff --git a/src/maliput/base/traffic_light_book_loader.cc b/src/maliput/base/traffic_light_book_loader.cc
index 9ab3fc4..e71aa39 100644
--- a/src/maliput/base/traffic_light_book_loader.cc
+++ b/src/maliput/base/traffic_light_book_loader.cc
@@ -40,6 +40,7 @@
 #include "maliput/api/rules/traffic_light_book.h"
 #include "maliput/api/rules/traffic_lights.h"
 #include "maliput/base/traffic_light_book.h"
+#include "maliput/base/yaml_conversion.h"
 #include "maliput/common/maliput_throw.h"
 #include "maliput/math/quaternion.h"
 #include "maliput/math/vector.h"
@@ -350,7 +351,7 @@ std::unique_ptr<api::rules::TrafficLightBook> LoadTrafficLightBook(const std::st
 }
 
 std::unique_ptr<api::rules::TrafficLightBook> LoadTrafficLightBookFromFile(const std::string& filename) {
-  return BuildFrom(YAML::LoadFile(filename));
+  return BuildFrom(LoadYamlFile(filename));
 }
 
 }  // namespace maliput
diff --git a/src/maliput/base/yaml_conversion.cc b/src/maliput/base/yaml_conversion.cc
index 0850311..4e8a8bb 100644
--- a/src/maliput/base/yaml_conversion.cc
+++ b/src/maliput/base/yaml_conversion.cc
@@ -29,6 +29,9 @@
 // OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 #include "maliput/base/yaml_conversion.h"
 
+#include <fstream>
+#include <string>
+
 #include "maliput/api/rules/rule.h"
 
 namespace YAML {
@@ -130,4 +133,22 @@ std::string GetDescriptionFromYamlNode(const YAML::Node& node) {
   return node[RangeValueRuleConstants::kDescription].as<std::string>();
 }
 
+YAML::Node LoadYamlFile(const std::string& filename) {
+  std::ifstream file(filename);
+  if (!file) {
+    throw YAML::BadFile(filename);
+  }
+  std::string contents;
+  char buffer[4096];
+  do {
+    file.read(buffer, sizeof(buffer));
+    contents.append(buffer, static_cast<size_t>(file.gcount()));
+  } while (file);
+  // A file that can't be read up to its end must not be taken for a shorter one.
+  if (file.bad()) {
+    throw YAML::BadFile(filename);
+  }
+  return YAML::Load(contents);
+}
+
 }  // namespace maliput
-- 
2.43.0


From 3c1c7f1d4e545a62f0b2041d29066c4231cb11e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:13 +0000
Subject: [PATCH 11/24] fix: refuse phase rings with a rule without default
 state instead of aborting

---
 src/maliput/base/phase_ring_book_loader.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/maliput/base/phase_ring_book_loader.cc b/src/maliput/base/phase_ring_book_loader.cc
index 51635ea..5bfb656 100644
--- a/src/maliput/base/phase_ring_book_loader.cc
+++ b/src/maliput/base/phase_ring_book_loader.cc
@@ -44,7 +44,6 @@
 #include "maliput/base/manual_phase_ring_book.h"
 #include "maliput/base/rule_registry.h"
 #include "maliput/base/yaml_conversion.h"
-#include "maliput/common/maliput_abort.h"
 #include "maliput/common/maliput_throw.h"
 
 namespace YAML {
@@ -121,7 +120,7 @@ DiscreteValueRule::DiscreteValue GetDefaultState(const std::vector<DiscreteValue
       return *it;
     }
   }
-  MALIPUT_ABORT_MESSAGE("The rule has no states.");
+  MALIPUT_THROW_MESSAGE("The rule has no default state: none of its values is \"Stop\", \"StopThenGo\" or \"Go\".");
 }
 
 // Given a set of rules, determine default states for each rule and return them
-- 
2.43.0


From 7be580149e641790cd7f762f60d957dbbeb20d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:51 +0000
Subject: [PATCH 12/24] fix: log a plugin's addition before making it so that a
 failure leaves the manager unchanged

---
 src/maliput/plugin/maliput_plugin_manager.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/maliput/plugin/maliput_plugin_manager.cc b/src/maliput/plugin/maliput_plugin_manager.cc
index b1e9f40..9de3f25 100644
--- a/src/maliput/plugin/maliput_plugin_manager.cc
+++ b/src/maliput/plugin/maliput_plugin_manager.cc
@@ -79,9 +79,10 @@ void MaliputPluginManager::AddPlugin(const std::string& path_to_plugin) {
   std::unique_ptr<MaliputPlugin> maliput_plugin = std::make_unique<MaliputPlugin>(path_to_plugin);
   const auto id = maliput_plugin->GetId();
   const bool is_repeated{plugins_.find(MaliputPlugin::Id(id)) != plugins_.end()};
-  plugins_[MaliputPlugin::Id(id)] = std::move(maliput_plugin);
+  // The message precedes the change because it may fail.
   maliput::log()->info((is_repeated ? "A new version of Plugin Id: " + id + " was loaded."
                                     : "Plugin Id: " + id + " was correctly loaded."));
+  plugins_[MaliputPlugin::Id(id)] = std::move(maliput_plugin);
 }
 
 std::unordered_map<MaliputPlugin::Id, MaliputPluginType> MaliputPluginManager::ListPlugins() const {
-- 
2.43.0


From 68ab798e11a9b2f94158d6b5d4150cea5ce429aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:56 +0000
Subject: [PATCH 13/24] fix: report paths of an environment variable that
 cannot be extracted for want of memory

---
 src/maliput/utility/file_utils.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/maliput/utility/file_utils.cc b/src/maliput/utility/file_utils.cc
index 3426e7c..cea9350 100644
--- a/src/maliput/utility/file_utils.cc
+++ b/src/maliput/utility/file_utils.cc
@@ -70,6 +70,8 @@ std::vector<std::string> GetAllPathsFromEnvironment(const std::string& env_var)
     return {};
   }
   std::istringstream path_stream(env);
+  // Failing allocations are reported instead of being taken for the end of the list.
+  path_stream.exceptions(std::ios_base::badbit);
   const std::string delimeter{":"};
   std::vector<std::string> paths;
   std::string path;
-- 
2.43.0


From 362da79dd90cc359414516c23c21ef7fc90d4e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:22 +0000
Subject: [PATCH 14/24] fix: stop reading a file into a string when reading
 fails

---
 include/maliput/common/filesystem.h |  2 +-
 src/maliput/common/filesystem.cc    | 25 ++++++++++++++-----------
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/include/maliput/common/filesystem.h b/include/maliput/common/filesystem.h
index 9ba2967..1591a9e 100644
--- a/include/maliput/common/filesystem.h
+++ b/include/maliput/common/filesystem.h
@@ -108,7 +108,7 @@ public:
     /* Returns current working directory */
     static Path get_cwd();
     /* Reads the whole file into a string. Returns false if file could not be
-    opened. True otherwise */
+    opened or read up to its end, in which case the string is left as it was. True otherwise */
     static bool read_as_string(const Path &path, std::string &read_to);
     /* The same thing as mkdir -p <path> */
     static bool create_directory_recursive(const Path &path);
diff --git a/src/maliput/common/filesystem.cc b/src/maliput/common/filesystem.cc
index 8632bf2..913daf1 100644
--- a/src/maliput/common/filesystem.cc
+++ b/src/maliput/common/filesystem.cc
@@ -67,7 +67,7 @@
 #include <algorithm>
 #include <cstdio>
 #include <fstream>
-#include <sstream>
+#include <utility>
 
 extern "C" {
 #include <sys/stat.h>
@@ -170,17 +170,20 @@ Path Filesystem::get_cwd() {
 
 bool Filesystem::read_as_string(const Path &path, std::string &read_to) {
     std::ifstream is(path.get_path());
-    std::stringstream ss;
-    if (is.is_open()) {
-        while (true) {
-            char c = is.get();
-            if (is.eof()) { break; }
-            ss << c;
-        }
-        read_to = ss.str();
-        return true;
+    if (!is.is_open()) {
+        return false;
+    }
+    std::string contents;
+    char c{};
+    while (is.get(c)) {
+        contents.push_back(c);
+    }
+    // Anything but the end of the file is a failure, e.g. the path is a directory.
+    if (!is.eof()) {
+        return false;
     }
-    return false;
+    read_to = std::move(contents);
+    return true;
 }
 
 bool Filesystem::create_directory_recursive(const Path &path) {
-- 
2.43.0


From 703780966ab5c54c06719eece5fddd0c1414a8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:53 +0000
Subject: [PATCH 15/24] fix: create_directory_recursive accepts directories
 that exist or appear meanwhile, as mkdir -p does

---
 src/maliput/common/filesystem.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/maliput/common/filesystem.cc b/src/maliput/common/filesystem.cc
index 913daf1..062266a 100644
--- a/src/maliput/common/filesystem.cc
+++ b/src/maliput/common/filesystem.cc
@@ -187,23 +187,24 @@ bool Filesystem::read_as_string(const Path &path, std::string &read_to) {
 }
 
 bool Filesystem::create_directory_recursive(const Path &path) {
-    size_t pos = 1;
+    size_t pos = 0;
     std::string temp(path.get_path());
 
     if (temp == "") {
         return false;
     }
     while ((pos = temp.find('/', pos + 1)) != std::string::npos) {
-
-        if ((Path(temp.substr(0, pos))).exists()) {
+        const Path parent(temp.substr(0, pos));
+        if (parent.exists()) {
             continue;
         }
-        // if making a directory on the path fails we cannot continue
-        if (!create_directory(temp.substr(0, pos))) {
+        // if making a directory on the path fails we cannot continue, unless it was made by somebody else meanwhile
+        if (!create_directory(parent) && !parent.is_directory()) {
             return false;
         }
     }
-    return create_directory(Path(temp));
+    // as with mkdir -p, a directory that exists is fine
+    return create_directory(path) || path.is_directory();
 }
 
 std::string Filesystem::get_env_path(const std::string &env_var) {
-- 
2.43.0


From 5f5a58bbd026e31472a05fc518b6f5727dcbf552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:53 +0000
Subject: [PATCH 16/24] fix: classify a path that vanishes during the call
 without reading uninitialised attributes

---
 src/maliput/common/filesystem.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/maliput/common/filesystem.cc b/src/maliput/common/filesystem.cc
index 062266a..40b5591 100644
--- a/src/maliput/common/filesystem.cc
+++ b/src/maliput/common/filesystem.cc
@@ -108,7 +108,9 @@ bool Path::is_file() const noexcept{
         return false;
     }
     struct stat attributes;
-    stat(path.c_str(), &attributes);
+    if (stat(path.c_str(), &attributes) != 0) {
+        return false;
+    }
 
     return (attributes.st_mode & S_IFMT) == S_IFREG;
 }
@@ -118,7 +120,9 @@ bool Path::is_directory() const noexcept {
         return false;
     }
     struct stat attributes;
-    stat(path.c_str(), &attributes);
+    if (stat(path.c_str(), &attributes) != 0) {
+        return false;
+    }
     return (attributes.st_mode & S_IFMT) == S_IFDIR;
 }
 
-- 
2.43.0


From fd33724d035a1e7b1f48ac0ce2c8094450f60154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:52 +0000
Subject: [PATCH 17/24] fix: remove_file leaves a directory alone that takes
 the file's place meanwhile

---
 src/maliput/common/filesystem.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/maliput/common/filesystem.cc b/src/maliput/common/filesystem.cc
index 40b5591..940feeb 100644
--- a/src/maliput/common/filesystem.cc
+++ b/src/maliput/common/filesystem.cc
@@ -65,7 +65,6 @@
 #include "maliput/common/filesystem.h"
 
 #include <algorithm>
-#include <cstdio>
 #include <fstream>
 #include <utility>
 
@@ -162,7 +161,8 @@ bool Filesystem::remove_directory(const Path& path) {
 }
 
 bool Filesystem::remove_file(const Path& path) {
-    return path.is_file() && (std::remove((path.get_path()).c_str()) == 0);
+    // unlink() leaves a directory alone that has taken the file's place meanwhile.
+    return path.is_file() && (unlink(path.get_path().c_str()) == 0);
 }
 
 Path Filesystem::get_cwd() {
-- 
2.43.0


From 21fb32d78b61c6d4c2134484fc9293311ff88853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:14 +0000
Subject: [PATCH 18/24] fix: do not look at the last character of an empty path

---
 src/maliput/common/filesystem.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maliput/common/filesystem.cc b/src/maliput/common/filesystem.cc
index 940feeb..7807a2b 100644
--- a/src/maliput/common/filesystem.cc
+++ b/src/maliput/common/filesystem.cc
@@ -147,7 +147,7 @@ void Path::append(const std::string& path_) {
 }
 
 void Path::normalize() {
-    if (path.back() == '/' && path.length() > 1) {
+    if (path.length() > 1 && path.back() == '/') {
         path = path.substr(0, path.length() - 1);
     }
 }
-- 
2.43.0


From 64f09c120e60c77c2a3875d282f6cd71f7a7951d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:06 +0000
Subject: [PATCH 19/24] fix: start over after an integration that was left
 half-way by an exception

---
 .../systems/analysis/initial_value_problem.cc  | 18 ++++++++++++++++--
 .../systems/analysis/initial_value_problem.h   |  5 +++++
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/maliput/drake/systems/analysis/initial_value_problem.cc b/src/maliput/drake/systems/analysis/initial_value_problem.cc
index 617b990..3eb5b8b 100644
--- a/src/maliput/drake/systems/analysis/initial_value_problem.cc
+++ b/src/maliput/drake/systems/analysis/initial_value_problem.cc
@@ -128,6 +128,9 @@ VectorX<T> InitialValueProblem<T>::Solve(const T& tf, const OdeContext& values)
   // Potentially invalidates the cache.
   ResetCachedStateIfNecessary(tf, safe_values);
 
+  // Until the integration succeeds, the cached state must not be built upon.
+  cached_state_is_valid_ = false;
+
   // Initializes integrator if necessary.
   if (!integrator_->is_initialized()) {
     integrator_->Initialize();
@@ -135,6 +138,7 @@ VectorX<T> InitialValueProblem<T>::Solve(const T& tf, const OdeContext& values)
 
   // Integrates up to the requested time.
   integrator_->IntegrateWithMultipleStepsToTime(tf);
+  cached_state_is_valid_ = true;
 
   // Retrieves the state vector. This cast is safe because the
   // ContinuousState<T> of a LeafSystem<T> is flat i.e. it is just
@@ -146,6 +150,10 @@ VectorX<T> InitialValueProblem<T>::Solve(const T& tf, const OdeContext& values)
 
 template <typename T>
 void InitialValueProblem<T>::ResetCachedState(const OdeContext& values) const {
+  // Until the new initial conditions are all in place, the cached state
+  // must not be built upon.
+  cached_state_is_valid_ = false;
+
   // Sets context (initial) time.
   context_->SetTime(values.t0.value());
 
@@ -179,6 +187,7 @@ void InitialValueProblem<T>::ResetCachedState(const OdeContext& values) const {
   // Keeps track of the current initial conditions and parameters
   // for future cache invalidation.
   current_values_ = values;
+  cached_state_is_valid_ = true;
 }
 
 template <typename T>
@@ -186,8 +195,9 @@ void InitialValueProblem<T>::ResetCachedStateIfNecessary(const T& tf, const OdeC
   // Only resets cache if necessary, i.e. if either initial
   // conditions or parameters have changed or if the time
   // the IVP is to be solved for is in the past with respect
-  // to the integration context time.
-  if (values != current_values_ || tf < context_->get_time()) {
+  // to the integration context time or if the last integration
+  // was left half-way by an exception.
+  if (!cached_state_is_valid_ || values != current_values_ || tf < context_->get_time()) {
     ResetCachedState(values);
   }
 }
@@ -228,6 +238,9 @@ std::unique_ptr<DenseOutput<T>> InitialValueProblem<T>::DenseSolve(const T& tf,
   // DenseOutput.
   ResetCachedState(safe_values);
 
+  // Until the integration succeeds, the cached state must not be built upon.
+  cached_state_is_valid_ = false;
+
   // Re-initialize integrator after cache invalidation.
   integrator_->Initialize();
 
@@ -240,6 +253,7 @@ std::unique_ptr<DenseOutput<T>> InitialValueProblem<T>::DenseSolve(const T& tf,
   // Stops dense integration to prevent future updates to
   // the dense output just built and yields it to the caller.
   const std::unique_ptr<trajectories::PiecewisePolynomial<T>> traj = integrator_->StopDenseIntegration();
+  cached_state_is_valid_ = true;
 
   return std::make_unique<HermitianDenseOutput<T>>(*traj);
 }
diff --git a/src/maliput/drake/systems/analysis/initial_value_problem.h b/src/maliput/drake/systems/analysis/initial_value_problem.h
index 15a7cfa..4ef1f79 100644
--- a/src/maliput/drake/systems/analysis/initial_value_problem.h
+++ b/src/maliput/drake/systems/analysis/initial_value_problem.h
@@ -238,6 +238,11 @@ class InitialValueProblem {
   // IVP current specified values (for caching).
   mutable OdeContext current_values_;
 
+  // Whether the integration context holds a state that was reached
+  // from the current specified values, i.e. whether no reset or
+  // integration was left half-way by an exception.
+  mutable bool cached_state_is_valid_{true};
+
   // IVP ODE solver integration context.
   std::unique_ptr<Context<T>> context_;
   // IVP system representation used for ODE solving.
-- 
2.43.0


From a04484820254e2e330122e454a45b28e1c78ac23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:06 +0000
Subject: [PATCH 20/24] fix: do not write to the dummy cache entry that all
 contexts share

---
 src/maliput/drake/systems/framework/dependency_tracker.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/maliput/drake/systems/framework/dependency_tracker.cc b/src/maliput/drake/systems/framework/dependency_tracker.cc
index e09a6de..b789deb 100644
--- a/src/maliput/drake/systems/framework/dependency_tracker.cc
+++ b/src/maliput/drake/systems/framework/dependency_tracker.cc
@@ -52,8 +52,9 @@ void DependencyTracker::NotePrerequisiteChange(int64_t change_event, const Depen
     return;
   }
   last_change_event_ = change_event;
-  // Invalidate associated cache entry value if any.
-  cache_value_->mark_out_of_date();
+  // Invalidate associated cache entry value if any. The dummy entry that stands
+  // for none is shared by all contexts, hence never written.
+  if (has_associated_cache_entry_) cache_value_->mark_out_of_date();
   // Follow up with downstream subscribers.
   NotifySubscribers(change_event, depth);
 }
-- 
2.43.0


From 19d3a6c606ec3a0ec39920f49055a07ff776c458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:06 +0000
Subject: [PATCH 21/24] fix: stop an integration that shrinks its step forever
 where the integrand has no value

---
 src/maliput/drake/systems/analysis/integrator_base.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/maliput/drake/systems/analysis/integrator_base.cc b/src/maliput/drake/systems/analysis/integrator_base.cc
index 463afa2..73442d8 100644
--- a/src/maliput/drake/systems/analysis/integrator_base.cc
+++ b/src/maliput/drake/systems/analysis/integrator_base.cc
@@ -221,6 +221,8 @@ std::pair<bool, T> IntegratorBase<T>::CalcAdjustedStepSize(const T& err, const T
   // made in blocks of code that follow.
   if (isnan(err) || isinf(err)) {  // e.g., integrand returned NaN.
     new_step_size = kMinShrink * step_taken;
+    // Where there is no finite value however small the step, do not shrink it forever.
+    ValidateSmallerStepSize(step_taken, new_step_size);
     return std::make_pair(false, new_step_size);
   } else {
     if (err == 0) {  // A "perfect" step; can happen if no dofs for example.
-- 
2.43.0


From 46f59afb7c4f064cd665770b549e61b39fca7e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:06 +0000
Subject: [PATCH 22/24] fix: report texts that cannot be made for want of
 memory instead of returning a part of them

---
 src/maliput/math/matrix.cc             | 2 ++
 src/maliput/math/vector.cc             | 2 ++
 src/maliput/utility/generate_string.cc | 2 ++
 src/maliput/utility/string_format.cc   | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/src/maliput/math/matrix.cc b/src/maliput/math/matrix.cc
index 02cff84..06a5950 100644
--- a/src/maliput/math/matrix.cc
+++ b/src/maliput/math/matrix.cc
@@ -176,6 +176,8 @@ Matrix<N> Matrix<N>::inverse() const {
 template <std::size_t N>
 std::string Matrix<N>::to_str() const {
   std::stringstream ss;
+  // Running out of memory must not cut the text short.
+  ss.exceptions(std::ios_base::badbit);
   ss << (*this);
   return ss.str();
 }
diff --git a/src/maliput/math/vector.cc b/src/maliput/math/vector.cc
index d4d0f83..b7b5ef5 100644
--- a/src/maliput/math/vector.cc
+++ b/src/maliput/math/vector.cc
@@ -128,6 +128,8 @@ Derived VectorBase<N, Derived>::normalized() const {
 template <std::size_t N, typename Derived>
 std::string VectorBase<N, Derived>::to_str() const {
   std::stringstream ss;
+  // Running out of memory must not cut the text short.
+  ss.exceptions(std::ios_base::badbit);
   ss.precision(std::numeric_limits<double>::digits10);
   ss << "{";
   for (size_t i = 0; i < values_.size(); ++i) {
diff --git a/src/maliput/utility/generate_string.cc b/src/maliput/utility/generate_string.cc
index acbaf5c..0e9c0e9 100644
--- a/src/maliput/utility/generate_string.cc
+++ b/src/maliput/utility/generate_string.cc
@@ -72,6 +72,8 @@ std::string GetIndent(int indent) { return std::string(indent * kIndentSize, ' '
 std::string GenerateString(const api::RoadGeometry& road_geometry, const GenerateStringOptions& options) {
   const IndentLevels indent = ComputeIndentLevels(options);
   std::stringstream result;
+  // Running out of memory must not cut the text short.
+  result.exceptions(std::ios_base::badbit);
   if (options.include_road_geometry_id) {
     if (options.include_type_labels) {
       result << "geometry: ";
diff --git a/src/maliput/utility/string_format.cc b/src/maliput/utility/string_format.cc
index e0cb5cb..1b377f4 100644
--- a/src/maliput/utility/string_format.cc
+++ b/src/maliput/utility/string_format.cc
@@ -39,6 +39,8 @@ namespace utility {
 std::string to_str(double value, int precision) {
   MALIPUT_THROW_UNLESS(precision >= 0);
   std::ostringstream oss;
+  // Running out of memory must not cut the text short.
+  oss.exceptions(std::ios_base::badbit);
   oss << std::fixed << std::setprecision(precision) << value;
   return oss.str();
 }
-- 
2.43.0


From e73e46616eb6a42b4b98a8b0297d3af83f62d55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:17 +0000
Subject: [PATCH 23/24] fix: report log arguments that cannot be formatted for
 want of memory instead of logging a part of them

---
 include/maliput/common/logger.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/maliput/common/logger.h b/include/maliput/common/logger.h
index 4762822..c2da8e5 100644
--- a/include/maliput/common/logger.h
+++ b/include/maliput/common/logger.h
@@ -249,7 +249,13 @@ struct Serialize {
   template <typename T>
   std::string operator()(const T& t) {
     std::stringstream os;
-    os << t;
+    // Exceptions, e.g. for want of memory, must not cut the string short.
+    os.exceptions(std::ios_base::badbit);
+    try {
+      os << t;
+    } catch (const std::ios_base::failure&) {
+      // The serialization operator flagged a failure of its own: there is no more to get from `t`.
+    }
     return os.str();
   }
 };
-- 
2.43.0


From bb0d95cfd57dd1011cc63adeaf77f16b59ecf115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:50 +0000
Subject: [PATCH 24/24] fix: stop an integration of zero length where the
 integrand has no value

---
 src/maliput/drake/systems/analysis/integrator_base.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/maliput/drake/systems/analysis/integrator_base.cc b/src/maliput/drake/systems/analysis/integrator_base.cc
index 73442d8..464aeb5 100644
--- a/src/maliput/drake/systems/analysis/integrator_base.cc
+++ b/src/maliput/drake/systems/analysis/integrator_base.cc
@@ -222,6 +222,9 @@ std::pair<bool, T> IntegratorBase<T>::CalcAdjustedStepSize(const T& err, const T
   if (isnan(err) || isinf(err)) {  // e.g., integrand returned NaN.
     new_step_size = kMinShrink * step_taken;
     // Where there is no finite value however small the step, do not shrink it forever.
+    if (!(new_step_size < step_taken)) {
+      throw std::runtime_error("Integrator got no finite value from a step that cannot be shrunk any further.");
+    }
     ValidateSmallerStepSize(step_taken, new_step_size);
     return std::make_pair(false, new_step_size);
   } else {
-- 
2.43.0

