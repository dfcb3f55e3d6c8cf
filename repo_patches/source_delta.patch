From 38b8454154e564101f9c78a34ffa2a0721aee6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:38 +0000
Subject: [PATCH 01/38] fix: forget annotations on Caretaker reset

---
 src/utils/state_management.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utils/state_management.cpp b/src/utils/state_management.cpp
index 42208e4..4000534 100644
--- a/src/utils/state_management.cpp
+++ b/src/utils/state_management.cpp
@@ -33,6 +33,7 @@ void Caretaker::reset() noexcept {
 	user_history.erase(next(begin(user_history)), end(user_history));
 	user_history_browser.reset();
 	originators.clear();
+	annotations.clear();
 	garbage_collector();
 }
 
-- 
2.43.0


From 51bc390c3f3197743caa64cf56b7aecda5f28764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:38 +0000
Subject: [PATCH 02/38] fix: remembering a timepoint while browsing history
 overwrites the redoable part

Otherwise the browsing position stayed in the middle of the history, and next undo/redo
went to unrelated timepoints.
---
 src/utils/state_management.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/utils/state_management.cpp b/src/utils/state_management.cpp
index 4000534..80faa4c 100644
--- a/src/utils/state_management.cpp
+++ b/src/utils/state_management.cpp
@@ -206,6 +206,14 @@ void Caretaker::pin_current_timepoint() noexcept {
 
 //******************************************************************************
 void Caretaker::remember_current_timepoint() noexcept {
+	if(user_history_browser.has_value()) {
+		if(**user_history_browser == current_timepoint)
+			return;
+
+		// What comes next in history than the browsed timepoint is overwritten.
+		stop_browsing_user_history();
+	}
+
 	if(user_history.back() != current_timepoint)
 		user_history.emplace_back(current_timepoint);
 }
-- 
2.43.0


From 4751091dc38851528ffe31a3bba4b33fd5dd0e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:09 +0000
Subject: [PATCH 03/38] fix: give each processing step its own timepoint, even
 when it changes nothing

---
 src/app/openemsh.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/app/openemsh.cpp b/src/app/openemsh.cpp
index eedcea8..1d7a774 100644
--- a/src/app/openemsh.cpp
+++ b/src/app/openemsh.cpp
@@ -160,8 +160,13 @@ expected<void, string> OpenEMSH::write() const {
 void OpenEMSH::run(std::set<Step> const& steps) const {
 	auto const handle = [&]<InvocableR<void> F>(Step step, F const& func) {
 		if(steps.contains(step)) {
-			Caretaker::singleton().annotate_current_timepoint(make_unique<Annotation>(step));
+			auto& c = Caretaker::singleton();
+			auto const* const t = c.get_current_timepoint();
+			c.annotate_current_timepoint(make_unique<Annotation>(step));
 			func();
+			// Each step needs its own timepoint, even when it changes nothing.
+			if(c.get_current_timepoint() == t)
+				c.make_next_timepoint();
 		}
 	};
 
-- 
2.43.0


From b0228890f6f8c2e81046a8a0f9e1a691490f984a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:09 +0000
Subject: [PATCH 04/38] fix: do not skip the step an edition was made for when
 running the next step after going back

---
 src/app/openemsh.cpp | 27 ++++++++++++++-------------
 src/app/openemsh.hpp |  2 ++
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/app/openemsh.cpp b/src/app/openemsh.cpp
index 1d7a774..992f525 100644
--- a/src/app/openemsh.cpp
+++ b/src/app/openemsh.cpp
@@ -213,15 +213,8 @@ void OpenEMSH::run_all_steps() const {
 
 //******************************************************************************
 void OpenEMSH::run_next_step() const {
-	auto& c = Caretaker::singleton();
-	auto* t = c.find_first_ancestor_with_annotation();
-	if(auto const* a = c.get_annotation(t); a) {
-		if(optional<Step> step = next(static_cast<Annotation const*>(a)->before_step)
-		; step)
-			run({ step.value() });
-	} else {
-		run({ Step::ADJUST_EDGE_TO_MATERIAL });
-	}
+	if(optional<Step> step = get_next_step(); step)
+		run({ step.value() });
 }
 
 //******************************************************************************
@@ -247,12 +240,20 @@ void OpenEMSH::go_before_previous_step() const {
 
 //******************************************************************************
 bool OpenEMSH::can_run_a_next_step() const {
+	return get_next_step().has_value();
+}
+
+// The step that was run from the current timepoint, otherwise what follows the
+// step that led to it.
+//******************************************************************************
+optional<Step> OpenEMSH::get_next_step() const {
 	auto& c = Caretaker::singleton();
-	auto* t = c.find_first_ancestor_with_annotation();
-	if(auto const* a = c.get_annotation(t); a)
-		return next(static_cast<Annotation const*>(a)->before_step).has_value();
+	if(auto const* a = c.get_annotation(c.get_current_timepoint()); a)
+		return static_cast<Annotation const*>(a)->before_step;
+	else if(auto const* a = c.get_annotation(c.find_first_ancestor_with_annotation()); a)
+		return next(static_cast<Annotation const*>(a)->before_step);
 	else
-		return true;
+		return Step::ADJUST_EDGE_TO_MATERIAL;
 }
 
 //******************************************************************************
diff --git a/src/app/openemsh.hpp b/src/app/openemsh.hpp
index a754ce2..b0424e8 100644
--- a/src/app/openemsh.hpp
+++ b/src/app/openemsh.hpp
@@ -71,6 +71,8 @@ public:
 private:
 	Params params;
 	std::shared_ptr<domain::Board> board;
+
+	std::optional<Step> get_next_step() const;
 };
 
 //******************************************************************************
-- 
2.43.0


From 2b41d8a65836ab93f8d6a1d2b61304bb7d98a86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:46 +0000
Subject: [PATCH 05/38] fix: track Board, Angles and diagonal zones with the
 Caretaker

---
 src/domain/board.cpp            | 10 +++++++---
 src/domain/conflict_manager.cpp |  1 +
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/domain/board.cpp b/src/domain/board.cpp
index b018913..3908cbc 100644
--- a/src/domain/board.cpp
+++ b/src/domain/board.cpp
@@ -63,12 +63,14 @@ void sort_points_by_vector_orientation(vector<Point>& points, Point const& vecto
 
 //******************************************************************************
 shared_ptr<Board> Board::Builder::build(Params&& params) {
-	return make_shared<Board>(
+	auto board = make_shared<Board>(
 		std::move(polygons),
 		std::move(fixed_meshline_policy_creators),
 		std::move(material),
 		std::move(params),
 		Caretaker::singleton().get_history_root());
+	Caretaker::singleton().take_care_of(board);
+	return board;
 }
 
 //******************************************************************************
@@ -267,7 +269,8 @@ void Board::detect_diagonal_angles(Plane plane) {
 			if(polygon->edges[p]->axis == Segment::Axis::DIAGONAL
 			|| polygon->edges[i]->axis == Segment::Axis::DIAGONAL) {
 				++found;
-				state.angles[plane].emplace_back(make_shared<Angle>(*(polygon->points[p]), polygon->edges[p].get(), polygon->edges[i].get(), t));
+				auto const& angle = state.angles[plane].emplace_back(make_shared<Angle>(*(polygon->points[p]), polygon->edges[p].get(), polygon->edges[i].get(), t));
+				get_caretaker().take_care_of(angle);
 			}
 			p = i;
 		}
@@ -296,7 +299,8 @@ void Board::detect_diagonal_angles(Plane plane) {
 					if(rel == relation::SegmentSegment::CROSSING) {
 						if(optional<Point> p = intersection(*edge_a, *edge_b)) {
 							++found;
-							state.angles[plane].emplace_back(make_shared<Angle>(p.value(), edge_a.get(), edge_b.get(), t));
+							auto const& angle = state.angles[plane].emplace_back(make_shared<Angle>(p.value(), edge_a.get(), edge_b.get(), t));
+							get_caretaker().take_care_of(angle);
 						}
 					}
 				}
diff --git a/src/domain/conflict_manager.cpp b/src/domain/conflict_manager.cpp
index 3750d24..a6610bf 100644
--- a/src/domain/conflict_manager.cpp
+++ b/src/domain/conflict_manager.cpp
@@ -231,6 +231,7 @@ void ConflictManager::add_diagonal_or_circular_zone(Axis axis, vector<Angle*> co
 
 	auto const& conflict = state.all_diagonal_or_circular_zone[axis].emplace_back(
 		make_shared<ConflictDiagonalOrCircularZone>(axis, sorted_angles, global_params, t));
+	get_caretaker().take_care_of(conflict);
 
 	set_state(t, state);
 }
-- 
2.43.0


From fe37c5d62b94971ebf477bc325b7f2b899acd748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:13 +0000
Subject: [PATCH 06/38] fix: track fixed meshline policies with the Caretaker

---
 src/domain/meshline_policy_manager.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/domain/meshline_policy_manager.cpp b/src/domain/meshline_policy_manager.cpp
index d97b8b9..6a27248 100644
--- a/src/domain/meshline_policy_manager.cpp
+++ b/src/domain/meshline_policy_manager.cpp
@@ -60,13 +60,16 @@ MeshlinePolicy* MeshlinePolicyManager::add_meshline_policy(
 	|| (policy != MeshlinePolicy::Policy::THIRDS && normal != MeshlinePolicy::Normal::NONE))
 		return nullptr;
 
+	if(!t) // The policy must exist from the same timepoint than its registration.
+		t = next_timepoint();
+
 	auto state = get_current_state();
 
 	auto const& line_policy = state.line_policies[axis].emplace_back(make_shared<MeshlinePolicy>(
 		axis, policy, normal, global_params, coord, t, origins, is_enabled));
 	get_caretaker().take_care_of(line_policy);
 
-	set_given_or_next_state(state, t);
+	set_state(t, state);
 	return line_policy.get();
 }
 
-- 
2.43.0


From 0fdb7ced422786abc50203184965a51710877d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:34 +0000
Subject: [PATCH 07/38] fix: diagonal zones follow their own minimal angle and
 diagonal_lmin

---
 src/domain/conflicts/conflict_diagonal_or_circular_zone.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/domain/conflicts/conflict_diagonal_or_circular_zone.cpp b/src/domain/conflicts/conflict_diagonal_or_circular_zone.cpp
index 07a8902..c711073 100644
--- a/src/domain/conflicts/conflict_diagonal_or_circular_zone.cpp
+++ b/src/domain/conflicts/conflict_diagonal_or_circular_zone.cpp
@@ -20,7 +20,7 @@ using namespace std;
 ConflictDiagonalOrCircularZone::ConflictDiagonalOrCircularZone(Axis axis, vector<Angle*> const& angles, GlobalParams* global_params, Timepoint* t)
 : Originator(t, {
 	.dmax = global_params->get_current_state().diagonal_dmax,
-	.lmin = global_params->get_current_state().lmin,
+	.lmin = global_params->get_current_state().diagonal_lmin,
 	.minimal_angle = global_params->get_current_state().consecutive_diagonal_minimal_angle,
 	.angles = angles })
 , Conflict(Kind::DIAGONAL_OR_CIRCULAR_ZONE)
@@ -74,7 +74,7 @@ void ConflictDiagonalOrCircularZone::solve_angles() {
 		if(auto view_axis = transpose(angle->plane, axis)
 		; view_axis.has_value()) {
 			auto state_a = angle->get_current_state();
-			state_a.to_mesh[view_axis.value()] = angle->angle >= global_params->get_current_state().consecutive_diagonal_minimal_angle;
+			state_a.to_mesh[view_axis.value()] = angle->angle >= state.minimal_angle;
 			angle->set_state(t, state_a);
 		}
 	}
-- 
2.43.0


From 23cf021c8839a67d3d6fdea76188ff0c2d451a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:51 +0000
Subject: [PATCH 08/38] fix: register every diagonal zone an Interval belongs
 to

---
 src/domain/meshline_policy_manager.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/domain/meshline_policy_manager.cpp b/src/domain/meshline_policy_manager.cpp
index 6a27248..973d9b6 100644
--- a/src/domain/meshline_policy_manager.cpp
+++ b/src/domain/meshline_policy_manager.cpp
@@ -165,7 +165,7 @@ void MeshlinePolicyManager::detect_intervals(Axis const axis) {
 
 //******************************************************************************
 void MeshlinePolicyManager::detect_intervals_per_diagonal_zones(Axis const axis) {
-	auto [t, state] = make_next_state();
+	auto const& state = get_current_state();
 
 	auto [bar, found, i] = Progress::Bar::build(
 		conflict_manager->get_diagonal_or_circular_zones(axis).size() * state.intervals[axis].size(),
@@ -174,6 +174,7 @@ void MeshlinePolicyManager::detect_intervals_per_diagonal_zones(Axis const axis)
 	for(auto& conflict : conflict_manager->get_diagonal_or_circular_zones(axis)) {
 		Bounding1D const bounding = conflict->bounding();
 		vector<Interval*> intervals;
+		auto* const t = next_timepoint(); // An Interval can belong to several zones.
 		for(auto const& interval : state.intervals[axis]) {
 			++i;
 			if(does_overlap(bounding, interval->m)) {
-- 
2.43.0


From fb5750e6752ce9ffe8e3f113b69944d0e07b0a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:09 +0000
Subject: [PATCH 09/38] fix: dismiss an edge when and only when other polygons
 cover it entirely

---
 .../conflicts/conflict_edge_in_polygon.cpp    | 29 ++++++++++++++-----
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/domain/conflicts/conflict_edge_in_polygon.cpp b/src/domain/conflicts/conflict_edge_in_polygon.cpp
index 7ddfa0f..af0e98a 100644
--- a/src/domain/conflicts/conflict_edge_in_polygon.cpp
+++ b/src/domain/conflicts/conflict_edge_in_polygon.cpp
@@ -8,6 +8,7 @@
 #include "domain/geometrics/space.hpp"
 
 #include <algorithm>
+#include <utility>
 
 #include "utils/signum.hpp"
 #include "domain/geometrics/edge.hpp"
@@ -81,22 +82,34 @@ void ConflictEdgeInPolygon::auto_solve(MeshlinePolicyManager& /*line_policy_mana
 	auto [t, state] = make_next_state();
 
 	sort_overlaps_by_p0_by_vector_orientation(state.overlaps, edge->vec);
-	Range merged_range(get<RANGE>(state.overlaps.front()));
 
+	auto const position = [this](Point const& p) {
+		return edge->vec.x != Coord(0)
+		     ? distance(p.x, edge->p0().x)
+		     : distance(p.y, edge->p0().y);
+	};
+
+	// An edge of same normal does not dismiss this one.
+	vector<pair<Coord, Coord>> covered;
 	for(Overlap const& overlap : state.overlaps) {
 		if(!get<EDGE>(overlap).has_value()
 		|| get<EDGE>(overlap).value()->normal != edge->normal) {
-			if(optional<Range> r = merge(get<RANGE>(overlap), merged_range); r)
-				merged_range = r.value();
-			else
-				break;
-		} else {
-			break;
+			auto const [begin, end] = minmax({ position(get<RANGE>(overlap).p0()), position(get<RANGE>(overlap).p1()) });
+			covered.emplace_back(begin, end);
 		}
 	}
+	ranges::sort(covered, {}, [](auto const& range) { return range.first.value(); });
+
+	Coord const edge_length = position(edge->p1());
+	Coord covered_until(0);
+	for(auto const& [begin, end] : covered) {
+		if(begin > covered_until && begin != covered_until)
+			break;
+		covered_until = max(covered_until, end);
+	}
 
 	auto state_e = edge->get_current_state();
-	state_e.to_mesh = !(merged_range == *edge);
+	state_e.to_mesh = covered_until < edge_length && covered_until != edge_length;
 	state_e.conflict = this;
 	state.solution = edge;
 	state.is_solved = true;
-- 
2.43.0


From bb05acb9f29744f824e2b3338a51719d8fc85800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:36 +0000
Subject: [PATCH 10/38] fix: mesh intervals once the distances around all
 meshline policies are settled

---
 src/domain/meshline_policy_manager.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/domain/meshline_policy_manager.cpp b/src/domain/meshline_policy_manager.cpp
index 973d9b6..2ac3310 100644
--- a/src/domain/meshline_policy_manager.cpp
+++ b/src/domain/meshline_policy_manager.cpp
@@ -206,14 +206,29 @@ void MeshlinePolicyManager::mesh(Axis const axis) {
 			return a->h < b->h;
 		});
 
-	for(auto interval : dimension_view)
-		interval->auto_solve_d();
+	// Solving an Interval can reduce the d of a MeshlinePolicy that an already
+	// solved Interval relies on as well.
+	auto const snapshot = [&dimension_view] {
+		vector<Coord> ds;
+		for(auto const* interval : dimension_view) {
+			auto const& state_i = interval->get_current_state();
+			ds.emplace_back(state_i.dmax);
+			ds.emplace_back(state_i.before.meshline_policy->get_current_state().d);
+			ds.emplace_back(state_i.after.meshline_policy->get_current_state().d);
+		}
+		return ds;
+	};
+	for(bool is_stable = false; !is_stable;) {
+		auto const before = snapshot();
+		for(auto interval : dimension_view)
+			interval->auto_solve_d();
+		is_stable = before == snapshot();
+	}
 
 	size_t new_size = state.meshlines[axis].size();
 	vector<vector<shared_ptr<Meshline>>> interval_meshlines;
 
 	for(auto* interval : dimension_view) {
-		interval->auto_solve_d();
 		interval->auto_solve_smoothness();
 		interval_meshlines.emplace_back(interval->mesh());
 
-- 
2.43.0


From 317e0b4ad7b7fecb2d99912d63d39c8f4dbd4a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:06 +0000
Subject: [PATCH 11/38] fix: do not add a second line at the middle of an
 interval

When the lines of a half reach the middle exactly, the floating-point
accumulation in find_ls() may end up slightly below it and one more line was
appended, so the line kept before it duplicated the middle one.
---
 src/domain/mesh/interval.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/domain/mesh/interval.cpp b/src/domain/mesh/interval.cpp
index 70db3ab..85097c3 100644
--- a/src/domain/mesh/interval.cpp
+++ b/src/domain/mesh/interval.cpp
@@ -138,7 +138,7 @@ vector<Coord> find_ls(double d, double smoothness, double dmax, Coord s) {
 	double current_d = min(d, dmax);
 	double current_s = 0;
 	vector<Coord> ls;
-	while(current_s < s) {
+	while(current_s < s && current_s != s) {
 		if(current_d < dmax) {
 			current_d *= smoothness;
 			if(current_d > dmax)
-- 
2.43.0


From 02b8b58b666f54d5e586d4db977a453bc1ae1c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:56 +0000
Subject: [PATCH 12/38] fix: overlap and merge of descending diagonal segments

Both returned the other diagonal of the bounding box.
---
 src/domain/geometrics/segment.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/domain/geometrics/segment.cpp b/src/domain/geometrics/segment.cpp
index 534e0d2..d85a3bb 100644
--- a/src/domain/geometrics/segment.cpp
+++ b/src/domain/geometrics/segment.cpp
@@ -24,6 +24,16 @@ static bool are_parallel(Segment const& a, Segment const& b) noexcept {
 		|| (a_vec.y / a_vec.x == b_vec.y / b_vec.x);
 }
 
+/// Range from the bounds of a part of the line that holds segment.
+///*****************************************************************************
+static Range make_range(Segment const& segment, Coord const& xmin, Coord const& xmax, Coord const& ymin, Coord const& ymax) noexcept {
+	Point const vec(segment.p1() - segment.p0());
+	bool const is_descending = (vec.x > 0 && vec.y < 0) || (vec.x < 0 && vec.y > 0);
+	return is_descending
+	     ? Range(Point(xmin, ymax), Point(xmax, ymin))
+	     : Range(Point(xmin, ymin), Point(xmax, ymax));
+}
+
 //******************************************************************************
 Segment::Segment(Axis const axis) noexcept
 : axis(axis)
@@ -163,7 +173,7 @@ optional<Range> merge(Segment const& a, Segment const& b) {
 		else if(b_bnd[YMAX] >= a_bnd[YMIN] && b_bnd[YMAX] <= a_bnd[YMAX])
 			ymax = a_bnd[YMAX];
 
-		return Range(Point(xmin, ymin), Point(xmax, ymax));
+		return make_range(a, xmin, xmax, ymin, ymax);
 	}
 	return nullopt;
 }
@@ -210,7 +220,7 @@ optional<Range> overlap(Segment const& a, Segment const& b) {
 		else if(b_bnd[YMAX] >= a_bnd[YMIN] && b_bnd[YMAX] <= a_bnd[YMAX])
 			ymax = b_bnd[YMAX];
 
-		return Range(Point(xmin, ymin), Point(xmax, ymax));
+		return make_range(a, xmin, xmax, ymin, ymax);
 	}
 	return nullopt;
 }
-- 
2.43.0


From 80166c441029b0bfb503abeb9953afb293e9816d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:27 +0000
Subject: [PATCH 13/38] fix: same tolerance everywhere when looking for points
 on segments

---
 src/domain/geometrics/segment.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/domain/geometrics/segment.cpp b/src/domain/geometrics/segment.cpp
index d85a3bb..0ced14e 100644
--- a/src/domain/geometrics/segment.cpp
+++ b/src/domain/geometrics/segment.cpp
@@ -73,10 +73,14 @@ relation::SegmentSegment Segment::relation_to(Segment const& segment) const {
 
 //******************************************************************************
 relation::SegmentPoint Segment::relation_to(Point const& point) const {
+	// Same tolerance as for the rotation below.
+	auto const is_between = [](Coord const& a, Coord const& b, Coord const& c) {
+		return (a <= max(b, c) && a >= min(b, c)) || a == b || a == c;
+	};
 	vector<Point const*> v({ &p0(), &p1(), &point });
 	return detect_rotation(v) == Polygon::Rotation::COLINEAR
-		&& (point.x <= max(p0().x, p1().x) && point.x >= min(p0().x, p1().x)
-		&&  point.y <= max(p0().y, p1().y) && point.y >= min(p0().y, p1().y))
+		&& is_between(point.x, p0().x, p1().x)
+		&& is_between(point.y, p0().y, p1().y)
 		? relation::SegmentPoint::ON
 		: relation::SegmentPoint::OUT;
 }
@@ -126,12 +130,12 @@ optional<Point> intersection(Segment const& a, Segment const& b) {
 		auto div = double (a_vec.x * b_vec.y - a_vec.y * b_vec.x);
 
 		if(div != 0) {
-			auto m = double (a_vec.x * a.p0().y
+			Coord const m = double (a_vec.x * a.p0().y
 			       - a_vec.x * b.p0().y
 			       - a_vec.y * a.p0().x
 			       + a_vec.y * b.p0().x)
 			       / div;
-			if(m >= 0 && m <= 1) // When we are not sure edges are crossing.
+			if((m >= 0 && m <= 1) || m == 0 || m == 1) // When we are not sure edges are crossing.
 				return Point(b.p0() + m * b_vec);
 		}
 	}
-- 
2.43.0


From 88fb422211f4b3558f96407e6bc7d929a20a682f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:11 +0000
Subject: [PATCH 14/38] fix: project the whole section of cylinders on side
 planes

---
 src/infra/parsers/parser_from_csx.cpp | 36 +++++++++++++--------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/infra/parsers/parser_from_csx.cpp b/src/infra/parsers/parser_from_csx.cpp
index 8099fb2..8d2c0c6 100644
--- a/src/infra/parsers/parser_from_csx.cpp
+++ b/src/infra/parsers/parser_from_csx.cpp
@@ -482,45 +482,45 @@ void ParserFromCsx::Pimpl::parse_primitive_cylinder(pugi::xml_node const& node,
 		if(params.with_zx)
 			// TODO Z placement here is the bounding box
 			board.add_polygon_from_box(ZX, material, name, priority,
-				{ p1.y, p2.y },
-				{ p1.z - radius/2, p1.x },
-				{ p2.z + radius/2, p2.x });
+				{ p1.y - radius, p2.y + radius },
+				{ p1.z - radius, p1.x },
+				{ p2.z + radius, p2.x });
 		if(params.with_xy)
 			// TODO Z placement here is the bounding box
 			board.add_polygon_from_box(XY, material, name, priority,
-				{ p1.z, p2.z },
-				{ p1.x, p1.y - radius/2 },
-				{ p2.x, p2.y + radius/2 });
+				{ p1.z - radius, p2.z + radius },
+				{ p1.x, p1.y - radius },
+				{ p2.x, p2.y + radius });
 	} else if(p1.z == p2.z && p1.x == p2.x) {
 		if(params.with_zx)
 			board.add_polygon(ZX, material, name, priority, { p1.y, p2.y }, circle_to_points({ p1.z, p1.x }, radius));
 		if(params.with_xy)
 			// TODO Z placement here is the bounding box
 			board.add_polygon_from_box(XY, material, name, priority,
-				{ p1.z, p2.z },
-				{ p1.x - radius/2, p1.y },
-				{ p2.x + radius/2, p2.y });
+				{ p1.z - radius, p2.z + radius },
+				{ p1.x - radius, p1.y },
+				{ p2.x + radius, p2.y });
 		if(params.with_yz)
 			// TODO Z placement here is the bounding box
 			board.add_polygon_from_box(YZ, material, name, priority,
-				{ p1.x, p2.x },
-				{ p1.y, p1.z - radius/2 },
-				{ p2.y, p2.z + radius/2 });
+				{ p1.x - radius, p2.x + radius },
+				{ p1.y, p1.z - radius },
+				{ p2.y, p2.z + radius });
 	} else if(p1.x == p2.x && p1.y == p2.y) {
 		if(params.with_xy)
 			board.add_polygon(XY, material, name, priority, { p1.z, p2.z }, circle_to_points({ p1.x, p1.y }, radius));
 		if(params.with_yz)
 			// TODO Z placement here is the bounding box
 			board.add_polygon_from_box(YZ, material, name, priority,
-				{ p1.x, p2.x },
-				{ p1.y - radius/2, p1.z },
-				{ p2.y + radius/2, p2.z });
+				{ p1.x - radius, p2.x + radius },
+				{ p1.y - radius, p1.z },
+				{ p2.y + radius, p2.z });
 		if(params.with_zx)
 			// TODO Z placement here is the bounding box
 			board.add_polygon_from_box(ZX, material, name, priority,
-				{ p1.y, p2.y },
-				{ p1.z, p1.x - radius/2 },
-				{ p2.z, p2.x + radius/2 });
+				{ p1.y - radius, p2.y + radius },
+				{ p1.z, p1.x - radius },
+				{ p2.z, p2.x + radius });
 	} else {
 		warn_unsupported_primitive(format("{} (with diagonal axis)", node.name()), name);
 	}
-- 
2.43.0


From 9f5b60f00ef2208498ef1d5497c7105592d95841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:11 +0000
Subject: [PATCH 15/38] fix: placement of curves along their normal spans up to
 their highest vertex

---
 src/infra/parsers/parser_from_csx.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/infra/parsers/parser_from_csx.cpp b/src/infra/parsers/parser_from_csx.cpp
index 8d2c0c6..2f307b5 100644
--- a/src/infra/parsers/parser_from_csx.cpp
+++ b/src/infra/parsers/parser_from_csx.cpp
@@ -568,7 +568,7 @@ void ParserFromCsx::Pimpl::parse_primitive_curve(pugi::xml_node const& node, sha
 		// TODO Z placement here is the bounding box
 		Polygon::RangeZ z_placement {
 			ranges::min(vertices, [&](Point3D const& a, Point3D const& b) { return a.x < b.x; }).x,
-			ranges::max(vertices, [&](Point3D const& a, Point3D const& b) { return a.x > b.x; }).x
+			ranges::max(vertices, [&](Point3D const& a, Point3D const& b) { return a.x < b.x; }).x
 		};
 		vector<unique_ptr<Point const>> points;
 		for(auto const& vertex : vertices)
@@ -586,7 +586,7 @@ void ParserFromCsx::Pimpl::parse_primitive_curve(pugi::xml_node const& node, sha
 		// TODO Z placement here is the bounding box
 		Polygon::RangeZ z_placement {
 			ranges::min(vertices, [&](Point3D const& a, Point3D const& b) { return a.y < b.y; }).y,
-			ranges::max(vertices, [&](Point3D const& a, Point3D const& b) { return a.y > b.y; }).y
+			ranges::max(vertices, [&](Point3D const& a, Point3D const& b) { return a.y < b.y; }).y
 		};
 		vector<unique_ptr<Point const>> points;
 		for(auto const& vertex : vertices)
@@ -604,7 +604,7 @@ void ParserFromCsx::Pimpl::parse_primitive_curve(pugi::xml_node const& node, sha
 		// TODO Z placement here is the bounding box
 		Polygon::RangeZ z_placement {
 			ranges::min(vertices, [&](Point3D const& a, Point3D const& b) { return a.z < b.z; }).z,
-			ranges::max(vertices, [&](Point3D const& a, Point3D const& b) { return a.z > b.z; }).z
+			ranges::max(vertices, [&](Point3D const& a, Point3D const& b) { return a.z < b.z; }).z
 		};
 		vector<unique_ptr<Point const>> points;
 		for(auto const& vertex : vertices)
-- 
2.43.0


From ea8a1f6e73b8149490fe9d565cd37d4da59d80f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:11 +0000
Subject: [PATCH 16/38] fix: do not draw LinPoly and Polygon on disabled planes

---
 src/infra/parsers/parser_from_csx.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/infra/parsers/parser_from_csx.cpp b/src/infra/parsers/parser_from_csx.cpp
index 2f307b5..4cbe5e4 100644
--- a/src/infra/parsers/parser_from_csx.cpp
+++ b/src/infra/parsers/parser_from_csx.cpp
@@ -85,6 +85,8 @@ public:
 
 	Pimpl(ParserFromCsx::Params const& params);
 
+	bool is_enabled(Plane plane) const;
+
 	expected<void, string> parse_oemsh(pugi::xml_node const& node);
 	expected<void, string> parse_grid(pugi::xml_node const& node);
 
@@ -110,6 +112,16 @@ ParserFromCsx::Pimpl::Pimpl(ParserFromCsx::Params const& params)
 : params(params)
 {}
 
+//******************************************************************************
+bool ParserFromCsx::Pimpl::is_enabled(Plane const plane) const {
+	switch(plane) {
+	case YZ: return params.with_yz;
+	case ZX: return params.with_zx;
+	case XY: return params.with_xy;
+	default: ::unreachable();
+	}
+}
+
 //******************************************************************************
 void ParserFromCsx::Pimpl::warn_unsupported_property(string const& primitive_type, string const& primitive_name) {
 	warning_unsupported_properties_types.emplace(primitive_type);
@@ -356,7 +368,8 @@ void ParserFromCsx::Pimpl::parse_primitive_linpoly(pugi::xml_node const& node, s
 
 	Bounding2D bounding(detect_bounding(points));
 
-	board.add_polygon(plane.value(), material, name, priority, { elevation, elevation + length }, std::move(points));
+	if(is_enabled(plane.value()))
+		board.add_polygon(plane.value(), material, name, priority, { elevation, elevation + length }, std::move(points));
 	if(length == 0) {
 //		board.add_fixed_meshline_policy(normal.value(), elevation);
 //		switch(plane.value()) {
@@ -437,7 +450,8 @@ void ParserFromCsx::Pimpl::parse_primitive_polygon(pugi::xml_node const& node, s
 
 	Bounding2D bounding(detect_bounding(points));
 
-	board.add_polygon(plane.value(), material, name, priority, { elevation, elevation }, std::move(points));
+	if(is_enabled(plane.value()))
+		board.add_polygon(plane.value(), material, name, priority, { elevation, elevation }, std::move(points));
 	board.add_fixed_meshline_policy(normal.value(), elevation);
 }
 
-- 
2.43.0


From cf21a160b7c5fd3eceb5a5588498d9ee1ad69996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:39 +0000
Subject: [PATCH 17/38] fix: do not crash on polygons and curves without
 vertices

---
 src/infra/parsers/parser_from_csx.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/infra/parsers/parser_from_csx.cpp b/src/infra/parsers/parser_from_csx.cpp
index 4cbe5e4..c95aa87 100644
--- a/src/infra/parsers/parser_from_csx.cpp
+++ b/src/infra/parsers/parser_from_csx.cpp
@@ -365,6 +365,10 @@ void ParserFromCsx::Pimpl::parse_primitive_linpoly(pugi::xml_node const& node, s
 		points.push_back(make_unique<Point const>(
 			vertex.attribute("X1").as_double(),
 			vertex.attribute("X2").as_double()));
+	if(points.empty()) {
+		warn_unsupported_primitive(format("{} (without vertices)", node.name()), name);
+		return;
+	}
 
 	Bounding2D bounding(detect_bounding(points));
 
@@ -447,6 +451,10 @@ void ParserFromCsx::Pimpl::parse_primitive_polygon(pugi::xml_node const& node, s
 		points.push_back(make_unique<Point const>(
 			vertex.attribute("X1").as_double(),
 			vertex.attribute("X2").as_double()));
+	if(points.empty()) {
+		warn_unsupported_primitive(format("{} (without vertices)", node.name()), name);
+		return;
+	}
 
 	Bounding2D bounding(detect_bounding(points));
 
@@ -576,6 +584,10 @@ void ParserFromCsx::Pimpl::parse_primitive_curve(pugi::xml_node const& node, sha
 			vertex.attribute("Y").as_double(),
 			vertex.attribute("Z").as_double());
 	}
+	if(vertices.empty()) {
+		warn_unsupported_primitive(format("{} (without vertices)", node.name()), name);
+		return;
+	}
 
 	// TODO support onepoint polygon and open polygons (not to double points, edges & angles)
 	if(params.with_yz) {
-- 
2.43.0


From 667e56de70495625cb05ea46cb342c4177d4925d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:39 +0000
Subject: [PATCH 18/38] fix: read whole numbers, and only them, in lists of
 lines

---
 src/infra/parsers/parser_from_csx.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/infra/parsers/parser_from_csx.cpp b/src/infra/parsers/parser_from_csx.cpp
index c95aa87..7665d55 100644
--- a/src/infra/parsers/parser_from_csx.cpp
+++ b/src/infra/parsers/parser_from_csx.cpp
@@ -5,6 +5,7 @@
 ///*****************************************************************************
 
 #include <charconv>
+#include <cmath>
 #include <format>
 #include <limits>
 #include <map>
@@ -55,12 +56,22 @@ constexpr optional<Plane> to_plane(size_t const normdir) {
 
 //******************************************************************************
 expected<double, string> str_to_double(string_view const& str) {
+	auto const is_space = [](char const c){ return c == ' ' || c == '\t' || c == '\r' || c == '\n'; };
+	char const* begin = str.data();
+	char const* end = str.data() + str.size();
+	while(begin != end && is_space(*begin))
+		++begin;
+	while(begin != end && is_space(*(end - 1)))
+		--end;
+
 	double res;
-	auto [_, e] = std::from_chars(str.data(), str.data() + str.size(), res);
-	if(e == std::errc {})
-		return res;
-	else
+	auto [rest, e] = std::from_chars(begin, end, res);
+	if(e != std::errc {})
 		return unexpected(make_error_code(e).message());
+	else if(rest != end || !isfinite(res))
+		return unexpected(make_error_code(errc::invalid_argument).message());
+	else
+		return res;
 }
 
 //******************************************************************************
-- 
2.43.0


From d156e12ce1ac6381a18da09e4649835a58da9b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:16 +0000
Subject: [PATCH 19/38] fix: refuse primitives with infinite or undefined
 coordinates

---
 src/infra/parsers/parser_from_csx.cpp | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/infra/parsers/parser_from_csx.cpp b/src/infra/parsers/parser_from_csx.cpp
index 7665d55..1918911 100644
--- a/src/infra/parsers/parser_from_csx.cpp
+++ b/src/infra/parsers/parser_from_csx.cpp
@@ -4,6 +4,8 @@
 /// @author Thomas Lepoix <thomas.lepoix@protonmail.ch>
 ///*****************************************************************************
 
+#include <algorithm>
+#include <array>
 #include <charconv>
 #include <cmath>
 #include <format>
@@ -81,6 +83,23 @@ size_t parse_priority(pugi::xml_node const& node, shared_ptr<Material> const& ma
 	     : node.attribute("Priority").as_uint();
 }
 
+/// Check that everything that gives its shape to a primitive is finite.
+///*****************************************************************************
+expected<void, string> check_coords(pugi::xml_node const& node) {
+	static constexpr array names { "X", "Y", "Z", "X1", "X2", "Elevation", "Length", "Radius" };
+	auto const check = [](pugi::xml_node const& node) -> expected<void, string> {
+		for(auto const& attribute : node.attributes())
+			if(ranges::contains(names, string_view(attribute.name()))
+			&& !isfinite(attribute.as_double()))
+				return unexpected(format("Invalid {} value \"{}\" in {}", attribute.name(), attribute.value(), node.path()));
+		return {};
+	};
+	TRY(check(node));
+	for(auto const& child : node.children())
+		TRY(check(child));
+	return {};
+}
+
 //******************************************************************************
 class ParserFromCsx::Pimpl {
 public:
@@ -753,8 +772,11 @@ expected<void, string> ParserFromCsx::parse() {
 
 		pugi::xml_node primitives = node.child("Primitives");
 		for(auto const& node : primitives.children()) {
-			if(material && pimpl->parse_primitive(node, material))
-				++found;
+			if(material) {
+				TRY(check_coords(node));
+				if(pimpl->parse_primitive(node, material))
+					++found;
+			}
 			bar.tick(found, ++i);
 		}
 
-- 
2.43.0


From 86990229a61c7ddb600faffa6966be32100bde22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:27 +0000
Subject: [PATCH 20/38] fix: write lines with all their digits in CSX files

---
 src/infra/serializers/serializer_to_csx.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/infra/serializers/serializer_to_csx.cpp b/src/infra/serializers/serializer_to_csx.cpp
index aee005f..1a9c7bc 100644
--- a/src/infra/serializers/serializer_to_csx.cpp
+++ b/src/infra/serializers/serializer_to_csx.cpp
@@ -4,6 +4,8 @@
 /// @author Thomas Lepoix <thomas.lepoix@protonmail.ch>
 ///*****************************************************************************
 
+#include <format>
+
 #include <pugixml.hpp>
 
 #include "domain/mesh/meshline.hpp"
@@ -96,10 +98,10 @@ void SerializerToCsx::visit(Board& board) {
 		string out;
 		if(params.with_meshlines)
 			for(auto const& meshline : board.get_meshlines(axis))
-				out += to_string(meshline->coord.value()) + ",";
+				out += format("{},", meshline->coord.value());
 		if(params.with_meshline_policies)
 			for(auto const& meshline : board.get_meshline_policies_meshlines(axis))
-				out += to_string(meshline->coord.value()) + ",";
+				out += format("{},", meshline->coord.value());
 
 		if(!out.empty())
 			out.pop_back();
-- 
2.43.0


From 27ada6adaffe175b06e71540bd609972f7052f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:27 +0000
Subject: [PATCH 21/38] fix: report files that cannot be written

---
 src/app/openemsh.cpp                        | 3 +++
 src/infra/serializers/serializer_to_csx.cpp | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/app/openemsh.cpp b/src/app/openemsh.cpp
index 992f525..a4dc77f 100644
--- a/src/app/openemsh.cpp
+++ b/src/app/openemsh.cpp
@@ -146,6 +146,9 @@ expected<void, string> OpenEMSH::write() const {
 //		SerializerToPlantuml::run(*board, static_cast<SerializerToPlantuml::Params const&>(params));
 		ofstream out(params.output);
 		out << SerializerToPlantuml::run(*board);
+		out.close();
+		if(!out)
+			return unexpected("Cannot write file");
 	} break;
 	case Params::OutputFormat::PRETTYPRINT:
 		cerr << SerializerToPrettyprint::run(*board);
diff --git a/src/infra/serializers/serializer_to_csx.cpp b/src/infra/serializers/serializer_to_csx.cpp
index 1a9c7bc..825c986 100644
--- a/src/infra/serializers/serializer_to_csx.cpp
+++ b/src/infra/serializers/serializer_to_csx.cpp
@@ -129,5 +129,6 @@ void SerializerToCsx::visit(Board& board) {
 		doc.remove_child("OpenEMSH");
 	}
 
-	doc.save_file(output.native().c_str(), "  ");
+	if(!doc.save_file(output.native().c_str(), "  "))
+		error = "Cannot write file";
 }
-- 
2.43.0


From 9143f3765c6078cd0042ea0f4db1b3e012a10a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:27 +0000
Subject: [PATCH 22/38] fix: keep comments of the input file when writing CSX
 files

---
 src/infra/serializers/serializer_to_csx.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/infra/serializers/serializer_to_csx.cpp b/src/infra/serializers/serializer_to_csx.cpp
index 825c986..e16618b 100644
--- a/src/infra/serializers/serializer_to_csx.cpp
+++ b/src/infra/serializers/serializer_to_csx.cpp
@@ -77,7 +77,9 @@ pugi::xml_node find_or_append_child(pugi::xml_node& node, char const* child) {
 //******************************************************************************
 void SerializerToCsx::visit(Board& board) {
 	pugi::xml_document doc;
-	pugi::xml_parse_result const res = doc.load_file(input.native().c_str());
+	pugi::xml_parse_result const res = doc.load_file(
+		input.native().c_str(),
+		pugi::parse_default | pugi::parse_comments | pugi::parse_pi | pugi::parse_doctype);
 
 	if(res.status != pugi::status_ok) {
 		error = res.description();
-- 
2.43.0


From 1be40898a859d7be4e33a82f08d76d728fbcb6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:27 +0000
Subject: [PATCH 23/38] fix: do not overwrite a file with a PlantUML diagram
 without being asked to

---
 src/app/openemsh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/openemsh.cpp b/src/app/openemsh.cpp
index a4dc77f..6cefe42 100644
--- a/src/app/openemsh.cpp
+++ b/src/app/openemsh.cpp
@@ -129,7 +129,7 @@ expected<void, string> OpenEMSH::parse() {
 //******************************************************************************
 bool OpenEMSH::is_about_overwriting() const {
 	return !params.force
-	&& params.output_format == Params::OutputFormat::CSX
+	&& params.output_format != Params::OutputFormat::PRETTYPRINT
 	&& (filesystem::exists(params.output)
 		|| (params.input == params.output
 		&& board
-- 
2.43.0


From e2c3d1b724afc59f7484c765de981b17022ffeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:27 +0000
Subject: [PATCH 24/38] fix: save and read back parameters about diagonals

---
 src/infra/parsers/parser_from_csx.cpp       | 3 +++
 src/infra/serializers/serializer_to_csx.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/infra/parsers/parser_from_csx.cpp b/src/infra/parsers/parser_from_csx.cpp
index 1918911..2c6d668 100644
--- a/src/infra/parsers/parser_from_csx.cpp
+++ b/src/infra/parsers/parser_from_csx.cpp
@@ -171,6 +171,9 @@ expected<void, string> ParserFromCsx::Pimpl::parse_oemsh(pugi::xml_node const& n
 	if(auto a = global_params.attribute("Smoothness"); a) domain_params.smoothness = a.as_double();
 	if(auto a = global_params.attribute("dmax"); a) domain_params.dmax = a.as_double();
 	if(auto a = global_params.attribute("lmin"); a) domain_params.lmin = a.as_uint();
+	if(auto a = global_params.attribute("DiagonalMinimalAngle"); a) domain_params.consecutive_diagonal_minimal_angle = a.as_double();
+	if(auto a = global_params.attribute("DiagonalDmax"); a) domain_params.diagonal_dmax = a.as_double();
+	if(auto a = global_params.attribute("DiagonalLmin"); a) domain_params.diagonal_lmin = a.as_uint();
 
 	pugi::xml_node fixed_meshlines = node.child("FixedMeshlines");
 	size_t delta_unit = fixed_meshlines.attribute("DeltaUnit").as_uint(1);
diff --git a/src/infra/serializers/serializer_to_csx.cpp b/src/infra/serializers/serializer_to_csx.cpp
index e16618b..e961e2a 100644
--- a/src/infra/serializers/serializer_to_csx.cpp
+++ b/src/infra/serializers/serializer_to_csx.cpp
@@ -127,6 +127,9 @@ void SerializerToCsx::visit(Board& board) {
 		global_params.append_attribute("Smoothness").set_value(p.smoothness);
 		global_params.append_attribute("dmax").set_value(p.dmax);
 		global_params.append_attribute("lmin").set_value(p.lmin);
+		global_params.append_attribute("DiagonalMinimalAngle").set_value(p.consecutive_diagonal_minimal_angle);
+		global_params.append_attribute("DiagonalDmax").set_value(p.diagonal_dmax);
+		global_params.append_attribute("DiagonalLmin").set_value(p.diagonal_lmin);
 	} else {
 		doc.remove_child("OpenEMSH");
 	}
-- 
2.43.0


From f019691bc118e623c7705d0e11f34179a9ca88e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:28 +0000
Subject: [PATCH 25/38] fix: refuse parameters that can make the mesher run
 forever

---
 src/infra/parsers/parser_from_csx.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/infra/parsers/parser_from_csx.cpp b/src/infra/parsers/parser_from_csx.cpp
index 2c6d668..d1c07b0 100644
--- a/src/infra/parsers/parser_from_csx.cpp
+++ b/src/infra/parsers/parser_from_csx.cpp
@@ -100,6 +100,24 @@ expected<void, string> check_coords(pugi::xml_node const& node) {
 	return {};
 }
 
+/// Check that parameters are in the range the mesher can deal with.
+///*****************************************************************************
+expected<void, string> check_params(domain::Params const& params) {
+	auto const check = [](char const* name, double value, bool is_valid) -> expected<void, string> {
+		if(is_valid)
+			return {};
+		else
+			return unexpected(format("Invalid {} value \"{}\"", name, value));
+	};
+	TRY(check("proximity limit", params.proximity_limit, params.proximity_limit >= 0 && isfinite(params.proximity_limit)));
+	TRY(check("smoothness", params.smoothness, params.smoothness >= 1 && isfinite(params.smoothness)));
+	TRY(check("dmax", params.dmax, params.dmax > 0));
+	TRY(check("diagonal dmax", params.diagonal_dmax, params.diagonal_dmax > 0));
+	for(auto const& [_, coord] : params.input_fixed_meshlines)
+		TRY(check("fixed meshline", coord, isfinite(coord)));
+	return {};
+}
+
 //******************************************************************************
 class ParserFromCsx::Pimpl {
 public:
@@ -688,6 +706,7 @@ expected<shared_ptr<Board>, string> ParserFromCsx::run(std::filesystem::path con
 expected<shared_ptr<Board>, string> ParserFromCsx::run(std::filesystem::path const& input, Params params) {
 	ParserFromCsx parser(input, std::move(params));
 	TRY(parser.parse());
+	TRY(check_params(parser.domain_params));
 	return parser.output();
 }
 
@@ -696,6 +715,7 @@ expected<shared_ptr<Board>, string> ParserFromCsx::run(std::filesystem::path con
 	ParserFromCsx parser(input, std::move(params));
 	TRY(parser.parse());
 	override_domain_params(parser.domain_params);
+	TRY(check_params(parser.domain_params));
 	for(auto const& [axis, coord] : parser.domain_params.input_fixed_meshlines)
 		parser.pimpl->board.add_fixed_meshline_policy(axis, coord);
 	parser.domain_params.input_fixed_meshlines.clear();
-- 
2.43.0


From b0733b771852442938ab5ce2c920576cd385e240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:56 +0000
Subject: [PATCH 26/38] fix: see crossings between slanted edges and straight
 ones

---
 src/domain/geometrics/bounding.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/domain/geometrics/bounding.cpp b/src/domain/geometrics/bounding.cpp
index dd7dc6b..58ced3e 100644
--- a/src/domain/geometrics/bounding.cpp
+++ b/src/domain/geometrics/bounding.cpp
@@ -35,8 +35,8 @@ bool does_overlap(Bounding2D const& a, Bounding2D const& b) noexcept {
 /// Check if two bounding boxes overlap.
 ///*****************************************************************************
 bool does_overlap_strict(Bounding2D const& a, Bounding2D const& b) noexcept {
-	return min(a[XMAX], b[XMAX]) > max(a[XMIN], b[XMIN])
-	    && min(a[YMAX], b[YMAX]) > max(a[YMIN], b[YMIN]);
+	return a[XMAX] > b[XMIN] && b[XMAX] > a[XMIN]
+	    && a[YMAX] > b[YMIN] && b[YMAX] > a[YMIN];
 }
 
 //******************************************************************************
-- 
2.43.0


From 298ead951a2b28336ea82778545bd0816a11aaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:27 +0000
Subject: [PATCH 27/38] fix: edit entities as they are at the step processing
 restarts from

Edition dialogs wrote back the whole state an entity had when the dialog
was opened, including what later steps had found out.
---
 src/ui/qt/edit/edit_model_angle.cpp                      | 5 ++++-
 .../edit_model_conflict_diagonal_or_circular_zone.cpp    | 7 ++++++-
 .../edit_model_conflict_too_close_meshline_policies.cpp  | 5 ++++-
 src/ui/qt/edit/edit_model_edge.cpp                       | 6 +++++-
 src/ui/qt/edit/edit_model_interval.cpp                   | 9 ++++++++-
 src/ui/qt/edit/edit_model_meshline_policy.cpp            | 8 +++++++-
 6 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/src/ui/qt/edit/edit_model_angle.cpp b/src/ui/qt/edit/edit_model_angle.cpp
index 92feb1a..267a834 100644
--- a/src/ui/qt/edit/edit_model_angle.cpp
+++ b/src/ui/qt/edit/edit_model_angle.cpp
@@ -37,7 +37,10 @@ void EditModelAngle::commit() {
 
 	if(std::ranges::all_of(does_succeed, is_true)) {
 		emit edit_from(app::Step::DETECT_CONFLICT_EIP, [&]() {
-			angle->set_next_state(state);
+			// The rest may not be known yet at this step.
+			auto next_state = angle->get_current_state();
+			next_state.to_mesh = state.to_mesh;
+			angle->set_next_state(next_state);
 		});
 	}
 }
diff --git a/src/ui/qt/edit/edit_model_conflict_diagonal_or_circular_zone.cpp b/src/ui/qt/edit/edit_model_conflict_diagonal_or_circular_zone.cpp
index d717f13..506c03a 100644
--- a/src/ui/qt/edit/edit_model_conflict_diagonal_or_circular_zone.cpp
+++ b/src/ui/qt/edit/edit_model_conflict_diagonal_or_circular_zone.cpp
@@ -44,7 +44,12 @@ void EditModelConflictDiagonalOrCircularZone::commit() {
 		emit edit_from((state.minimal_angle != conflict->get_current_state().minimal_angle
 		               ? app::Step::SOLVE_DIAG_ZONES_ANGLES
 		               : app::Step::SOLVE_DIAG_ZONES_INTERVALS), [&]() {
-			conflict->set_next_state(state);
+			// The rest may not be known yet at this step.
+			auto next_state = conflict->get_current_state();
+			next_state.lmin = state.lmin;
+			next_state.dmax = state.dmax;
+			next_state.minimal_angle = state.minimal_angle;
+			conflict->set_next_state(next_state);
 		});
 	}
 }
diff --git a/src/ui/qt/edit/edit_model_conflict_too_close_meshline_policies.cpp b/src/ui/qt/edit/edit_model_conflict_too_close_meshline_policies.cpp
index e3149fb..1908202 100644
--- a/src/ui/qt/edit/edit_model_conflict_too_close_meshline_policies.cpp
+++ b/src/ui/qt/edit/edit_model_conflict_too_close_meshline_policies.cpp
@@ -35,7 +35,10 @@ void EditModelConflictTooCloseMeshlinePolicies::commit() {
 
 	if(std::ranges::all_of(does_succeed, is_true)) {
 		emit edit_from(app::Step::DETECT_AND_SOLVE_TCMLP, [&]() {
-			conflict->set_next_state(state);
+			// The rest may not be known yet at this step.
+			auto next_state = conflict->get_current_state();
+			next_state.is_enabled = state.is_enabled;
+			conflict->set_next_state(next_state);
 		});
 	}
 }
diff --git a/src/ui/qt/edit/edit_model_edge.cpp b/src/ui/qt/edit/edit_model_edge.cpp
index bf29a63..dd6142b 100644
--- a/src/ui/qt/edit/edit_model_edge.cpp
+++ b/src/ui/qt/edit/edit_model_edge.cpp
@@ -37,7 +37,11 @@ void EditModelEdge::commit() {
 
 	if(std::ranges::all_of(does_succeed, is_true)) {
 		emit edit_from(app::Step::DETECT_CONFLICT_EIP, [&]() {
-			edge->set_next_state(state);
+			// The rest may not be known yet at this step.
+			auto next_state = edge->get_current_state();
+			next_state.to_mesh = state.to_mesh;
+			next_state.to_reverse = state.to_reverse;
+			edge->set_next_state(next_state);
 		});
 	}
 }
diff --git a/src/ui/qt/edit/edit_model_interval.cpp b/src/ui/qt/edit/edit_model_interval.cpp
index 3115f59..35b99c4 100644
--- a/src/ui/qt/edit/edit_model_interval.cpp
+++ b/src/ui/qt/edit/edit_model_interval.cpp
@@ -52,7 +52,14 @@ void EditModelInterval::commit() {
 
 	if(std::ranges::all_of(does_succeed, is_true)) {
 		emit edit_from(app::Step::MESH, [&] {
-			interval->set_next_state(state);
+			// The rest may not be known yet at this step.
+			auto next_state = interval->get_current_state();
+			next_state.dmax = state.dmax;
+			next_state.before.lmin = state.before.lmin;
+			next_state.before.smoothness = state.before.smoothness;
+			next_state.after.lmin = state.after.lmin;
+			next_state.after.smoothness = state.after.smoothness;
+			interval->set_next_state(next_state);
 		});
 	}
 }
diff --git a/src/ui/qt/edit/edit_model_meshline_policy.cpp b/src/ui/qt/edit/edit_model_meshline_policy.cpp
index 4edc10c..c837524 100644
--- a/src/ui/qt/edit/edit_model_meshline_policy.cpp
+++ b/src/ui/qt/edit/edit_model_meshline_policy.cpp
@@ -81,7 +81,13 @@ void EditModelMeshlinePolicy::commit() {
 
 	if(std::ranges::all_of(does_succeed, is_true)) {
 		emit edit_from(app::Step::DETECT_INTERVALS, [&]() {
-			meshline_policy->set_next_state(state);
+			// The rest may not be known yet at this step.
+			auto next_state = meshline_policy->get_current_state();
+			next_state.policy = state.policy;
+			next_state.normal = state.normal;
+			next_state.is_enabled = state.is_enabled;
+			next_state.d = state.d;
+			meshline_policy->set_next_state(next_state);
 		});
 	}
 }
-- 
2.43.0


From 3a7ad8cf7bd0e0a1ecdf6a2796ea825daf28f0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:50 +0000
Subject: [PATCH 28/38] fix: keep fixed lines and grid presence while editing
 global parameters

The edition dialog started over from default parameters.
---
 src/ui/qt/edit/edit_model_global.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ui/qt/edit/edit_model_global.cpp b/src/ui/qt/edit/edit_model_global.cpp
index 52fa7f7..c51254c 100644
--- a/src/ui/qt/edit/edit_model_global.cpp
+++ b/src/ui/qt/edit/edit_model_global.cpp
@@ -24,7 +24,7 @@ EditModelGlobal::EditModelGlobal(domain::GlobalParams* global, QObject* parent)
 , global(global)
 {
 	auto const& params = global->get_current_state();
-	setRowCount(4);
+	setRowCount(7);
 
 	make_row(0, "Proximity limit", QString::number(params.proximity_limit),
 		"Distance below which two MeshlinePolicies will be merged.");
@@ -44,7 +44,7 @@ EditModelGlobal::EditModelGlobal(domain::GlobalParams* global, QObject* parent)
 
 //******************************************************************************
 void EditModelGlobal::commit() {
-	domain::Params params;
+	auto params = global->get_current_state();
 
 	std::array does_succeed = {
 		try_to_double(item(0, V)->text(), params.proximity_limit),
-- 
2.43.0


From 09f24e3d8a2b929d44555b9af55212a2329f44f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:50 +0000
Subject: [PATCH 29/38] fix: do not round what is not edited in edition dialogs

---
 src/ui/qt/edit/edit_model.cpp                          |  8 ++++++++
 src/ui/qt/edit/edit_model.hpp                          |  1 +
 .../edit_model_conflict_diagonal_or_circular_zone.cpp  |  4 ++--
 src/ui/qt/edit/edit_model_global.cpp                   | 10 +++++-----
 src/ui/qt/edit/edit_model_interval.cpp                 |  6 +++---
 src/ui/qt/edit/edit_model_meshline_policy.cpp          |  2 +-
 6 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/ui/qt/edit/edit_model.cpp b/src/ui/qt/edit/edit_model.cpp
index 5363dfd..10a7c7a 100644
--- a/src/ui/qt/edit/edit_model.cpp
+++ b/src/ui/qt/edit/edit_model.cpp
@@ -4,6 +4,8 @@
 /// @author Thomas Lepoix <thomas.lepoix@protonmail.ch>
 ///*****************************************************************************
 
+#include <QLocale>
+
 #include "edit_model_angle.hpp"
 #include "edit_model_conflict_diagonal_or_circular_zone.hpp"
 #include "edit_model_conflict_too_close_meshline_policies.hpp"
@@ -23,6 +25,12 @@
 
 namespace ui::qt {
 
+// What is not edited has to be read back as it was.
+//******************************************************************************
+QString EditModel::to_text(double value) {
+	return QString::number(value, 'g', QLocale::FloatingPointShortest);
+}
+
 //******************************************************************************
 bool EditModel::try_to_double(QString const& in, double& out) {
 	bool does_succeed = false;
diff --git a/src/ui/qt/edit/edit_model.hpp b/src/ui/qt/edit/edit_model.hpp
index 20b298c..fbfce2c 100644
--- a/src/ui/qt/edit/edit_model.hpp
+++ b/src/ui/qt/edit/edit_model.hpp
@@ -35,6 +35,7 @@ protected:
 	void make_row(int row, QString const& property, T const& old_value, T const& new_value, QString const& tool_tip);
 	void make_row(int row, QString const& property, auto const& value, QString const& tool_tip);
 	static bool is_true(bool const val) { return val; }
+	static QString to_text(double value);
 	static bool try_to_double(QString const& in, double& out);
 	static bool try_to_ulong(QString const& in, std::size_t& out);
 	static bool try_to_bool(Qt::CheckState const in, bool& out);
diff --git a/src/ui/qt/edit/edit_model_conflict_diagonal_or_circular_zone.cpp b/src/ui/qt/edit/edit_model_conflict_diagonal_or_circular_zone.cpp
index 506c03a..06942f0 100644
--- a/src/ui/qt/edit/edit_model_conflict_diagonal_or_circular_zone.cpp
+++ b/src/ui/qt/edit/edit_model_conflict_diagonal_or_circular_zone.cpp
@@ -24,9 +24,9 @@ EditModelConflictDiagonalOrCircularZone::EditModelConflictDiagonalOrCircularZone
 
 	make_row(0, "lmin", QString::number(state.lmin),
 		"Minimum line number per Interval half, at extremities of the diagonal zone.");
-	make_row(1, "dmax", QString::number(state.dmax),
+	make_row(1, "dmax", to_text(state.dmax),
 		"Maximum distance between two adjacent lines.");
-	make_row(2, "Minimal angle", QString::number(state.minimal_angle),
+	make_row(2, "Minimal angle", to_text(state.minimal_angle),
 		"Angle threshold, above which angles between diagonal edges will generate MeshlinePolicies.");
 }
 
diff --git a/src/ui/qt/edit/edit_model_global.cpp b/src/ui/qt/edit/edit_model_global.cpp
index c51254c..fc41fe6 100644
--- a/src/ui/qt/edit/edit_model_global.cpp
+++ b/src/ui/qt/edit/edit_model_global.cpp
@@ -26,17 +26,17 @@ EditModelGlobal::EditModelGlobal(domain::GlobalParams* global, QObject* parent)
 	auto const& params = global->get_current_state();
 	setRowCount(7);
 
-	make_row(0, "Proximity limit", QString::number(params.proximity_limit),
+	make_row(0, "Proximity limit", to_text(params.proximity_limit),
 		"Distance below which two MeshlinePolicies will be merged.");
-	make_row(1, "Smoothness", QString::number(params.smoothness),
+	make_row(1, "Smoothness", to_text(params.smoothness),
 		"Smoothness factor <b>]1;2]</b>. Meshing algorithm will decrease it, better to start high.");
 	make_row(2, "lmin", QString::number(params.lmin),
 		"Minimum line number per Interval half.");
-	make_row(3, "dmax", QString::number(params.dmax),
+	make_row(3, "dmax", to_text(params.dmax),
 		"Maximum distance between two adjacent lines.");
-	make_row(4, "Minimal angle", QString::number(params.consecutive_diagonal_minimal_angle),
+	make_row(4, "Minimal angle", to_text(params.consecutive_diagonal_minimal_angle),
 		"Angle threshold, above which angles between diagonal edges will generate MeshlinePolicies.");
-	make_row(5, "Diagonal dmax", QString::number(params.diagonal_dmax),
+	make_row(5, "Diagonal dmax", to_text(params.diagonal_dmax),
 		"Maximum distance between two adjacent lines in diagonal zones.");
 	make_row(6, "Diagonal lmin", QString::number(params.diagonal_lmin),
 		"Minimum line number per Interval half, at extremities of diagonal zones.");
diff --git a/src/ui/qt/edit/edit_model_interval.cpp b/src/ui/qt/edit/edit_model_interval.cpp
index 35b99c4..32818da 100644
--- a/src/ui/qt/edit/edit_model_interval.cpp
+++ b/src/ui/qt/edit/edit_model_interval.cpp
@@ -22,18 +22,18 @@ EditModelInterval::EditModelInterval(domain::Interval* interval, QObject* parent
 	auto const& state = interval->get_current_state();
 	setRowCount(5);
 
-	make_row(0, "dmax", QString::number(state.dmax),
+	make_row(0, "dmax", to_text(state.dmax),
 		"Maximum distance between two adjacent lines.");
 	make_row(1, "Before.lmin", QString::number(state.before.lmin),
 		"Minimum line number in the minimal interval half. "
 		"Note a line will always be placed at the interval center.");
-	make_row(2, "Before.Smoothness", QString::number(state.before.smoothness), QString("2"),
+	make_row(2, "Before.Smoothness", to_text(state.before.smoothness), QString("2"),
 		"Smoothness factor <b>]1;2]</b> around the minimal side. "
 		"Meshing algorithm will decrease it, better to start high.");
 	make_row(3, "After.lmin", QString::number(state.after.lmin),
 		"Minimum line number in the maximal interval half. "
 		"Note a line will always be placed at the interval center.");
-	make_row(4, "After.Smoothness", QString::number(state.after.smoothness), QString("2"),
+	make_row(4, "After.Smoothness", to_text(state.after.smoothness), QString("2"),
 		"Smoothness factor <b>]1;2]</b> around the maximal side. "
 		"Meshing algorithm will decrease it, better to start high.");
 }
diff --git a/src/ui/qt/edit/edit_model_meshline_policy.cpp b/src/ui/qt/edit/edit_model_meshline_policy.cpp
index c837524..6a48ee8 100644
--- a/src/ui/qt/edit/edit_model_meshline_policy.cpp
+++ b/src/ui/qt/edit/edit_model_meshline_policy.cpp
@@ -39,7 +39,7 @@ EditModelMeshlinePolicy::EditModelMeshlinePolicy(domain::MeshlinePolicy* meshlin
 		"Direction associated with Policy.");
 	make_row(2, "Enabled", state.is_enabled,
 		"Take into account in the meshing process.");
-	make_row(3, "d", QString::number(state.d),
+	make_row(3, "d", to_text(state.d),
 		"Desired distance between policy lines (HALFS|THIRDS) or "
 		"between policy line and adjacent lines (ONELINE).<br/>"
 		"Can be decreased by the meshing algorithm.");
-- 
2.43.0


From 15906d5641500efd2e4ac3a4c2b43a343c63ab0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:05 +0000
Subject: [PATCH 30/38] fix: refuse values in edition dialogs that the command
 line refuses

Some of them make the mesher run forever.
---
 src/ui/qt/edit/edit_model.cpp                            | 9 +++++++++
 src/ui/qt/edit/edit_model.hpp                            | 5 +++++
 .../edit_model_conflict_diagonal_or_circular_zone.cpp    | 2 +-
 src/ui/qt/edit/edit_model_global.cpp                     | 8 ++++----
 src/ui/qt/edit/edit_model_interval.cpp                   | 6 +++---
 src/ui/qt/edit/edit_model_meshline_policy.cpp            | 2 +-
 6 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/ui/qt/edit/edit_model.cpp b/src/ui/qt/edit/edit_model.cpp
index 10a7c7a..84bd289 100644
--- a/src/ui/qt/edit/edit_model.cpp
+++ b/src/ui/qt/edit/edit_model.cpp
@@ -40,6 +40,15 @@ bool EditModel::try_to_double(QString const& in, double& out) {
 	return does_succeed;
 }
 
+//******************************************************************************
+bool EditModel::try_to_double(QString const& in, double& out, bool (* is_valid)(double)) {
+	double result;
+	if(!try_to_double(in, result) || !is_valid(result))
+		return false;
+	out = result;
+	return true;
+}
+
 //******************************************************************************
 bool EditModel::try_to_ulong(QString const& in, std::size_t& out) {
 	bool does_succeed = false;
diff --git a/src/ui/qt/edit/edit_model.hpp b/src/ui/qt/edit/edit_model.hpp
index fbfce2c..fbcc76e 100644
--- a/src/ui/qt/edit/edit_model.hpp
+++ b/src/ui/qt/edit/edit_model.hpp
@@ -8,6 +8,7 @@
 
 #include <QStandardItemModel>
 
+#include <cmath>
 #include <functional>
 
 #include "app/steps.hpp"
@@ -37,6 +38,10 @@ protected:
 	static bool is_true(bool const val) { return val; }
 	static QString to_text(double value);
 	static bool try_to_double(QString const& in, double& out);
+	static bool try_to_double(QString const& in, double& out, bool (* is_valid)(double));
+	static bool is_positive(double val) { return val > 0; }
+	static bool is_positive_or_null(double val) { return val >= 0 && std::isfinite(val); }
+	static bool is_smoothness(double val) { return val >= 1 && std::isfinite(val); }
 	static bool try_to_ulong(QString const& in, std::size_t& out);
 	static bool try_to_bool(Qt::CheckState const in, bool& out);
 
diff --git a/src/ui/qt/edit/edit_model_conflict_diagonal_or_circular_zone.cpp b/src/ui/qt/edit/edit_model_conflict_diagonal_or_circular_zone.cpp
index 06942f0..c758294 100644
--- a/src/ui/qt/edit/edit_model_conflict_diagonal_or_circular_zone.cpp
+++ b/src/ui/qt/edit/edit_model_conflict_diagonal_or_circular_zone.cpp
@@ -36,7 +36,7 @@ void EditModelConflictDiagonalOrCircularZone::commit() {
 
 	std::array does_succeed = {
 		try_to_ulong(item(0, V)->text(), state.lmin),
-		try_to_double(item(1, V)->text(), state.dmax),
+		try_to_double(item(1, V)->text(), state.dmax, is_positive),
 		try_to_double(item(2, V)->text(), state.minimal_angle)
 	};
 
diff --git a/src/ui/qt/edit/edit_model_global.cpp b/src/ui/qt/edit/edit_model_global.cpp
index fc41fe6..7d8db45 100644
--- a/src/ui/qt/edit/edit_model_global.cpp
+++ b/src/ui/qt/edit/edit_model_global.cpp
@@ -47,12 +47,12 @@ void EditModelGlobal::commit() {
 	auto params = global->get_current_state();
 
 	std::array does_succeed = {
-		try_to_double(item(0, V)->text(), params.proximity_limit),
-		try_to_double(item(1, V)->text(), params.smoothness),
+		try_to_double(item(0, V)->text(), params.proximity_limit, is_positive_or_null),
+		try_to_double(item(1, V)->text(), params.smoothness, is_smoothness),
 		try_to_ulong(item(2, V)->text(), params.lmin),
-		try_to_double(item(3, V)->text(), params.dmax),
+		try_to_double(item(3, V)->text(), params.dmax, is_positive),
 		try_to_double(item(4, V)->text(), params.consecutive_diagonal_minimal_angle),
-		try_to_double(item(5, V)->text(), params.diagonal_dmax),
+		try_to_double(item(5, V)->text(), params.diagonal_dmax, is_positive),
 		try_to_ulong(item(6, V)->text(), params.diagonal_lmin)
 	};
 
diff --git a/src/ui/qt/edit/edit_model_interval.cpp b/src/ui/qt/edit/edit_model_interval.cpp
index 32818da..6cca425 100644
--- a/src/ui/qt/edit/edit_model_interval.cpp
+++ b/src/ui/qt/edit/edit_model_interval.cpp
@@ -43,11 +43,11 @@ void EditModelInterval::commit() {
 	auto state = interval->get_current_state();
 
 	std::array does_succeed = {
-		try_to_double(item(0, V)->text(), state.dmax),
+		try_to_double(item(0, V)->text(), state.dmax, is_positive),
 		try_to_ulong(item(1, V)->text(), state.before.lmin),
-		try_to_double(item(2, V)->text(), state.before.smoothness),
+		try_to_double(item(2, V)->text(), state.before.smoothness, is_smoothness),
 		try_to_ulong(item(3, V)->text(), state.after.lmin),
-		try_to_double(item(4, V)->text(), state.after.smoothness)
+		try_to_double(item(4, V)->text(), state.after.smoothness, is_smoothness)
 	};
 
 	if(std::ranges::all_of(does_succeed, is_true)) {
diff --git a/src/ui/qt/edit/edit_model_meshline_policy.cpp b/src/ui/qt/edit/edit_model_meshline_policy.cpp
index 6a48ee8..d36ac48 100644
--- a/src/ui/qt/edit/edit_model_meshline_policy.cpp
+++ b/src/ui/qt/edit/edit_model_meshline_policy.cpp
@@ -76,7 +76,7 @@ void EditModelMeshlinePolicy::commit() {
 	std::array does_succeed = {
 		are_policy_and_normal_compatible(),
 		try_to_bool(item(2, V)->checkState(), state.is_enabled),
-		try_to_double(item(3, V)->text(), state.d)
+		try_to_double(item(3, V)->text(), state.d, is_positive)
 	};
 
 	if(std::ranges::all_of(does_succeed, is_true)) {
-- 
2.43.0


From 3ac35475cde8e7e19f43371ddb61a769b11a4ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:13 +0000
Subject: [PATCH 31/38] fix: do not skip steps not reached yet when editing

Editing while gone back to an early step ran from the step the edition is
taken into account at, skipping the ones in between.
---
 src/app/openemsh.hpp      | 2 +-
 src/ui/qt/main_window.cpp | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/app/openemsh.hpp b/src/app/openemsh.hpp
index b0424e8..6f59ec2 100644
--- a/src/app/openemsh.hpp
+++ b/src/app/openemsh.hpp
@@ -68,11 +68,11 @@ public:
 	bool can_run_a_next_step() const;
 	bool can_go_before() const;
 	std::optional<Step> get_current_step() const;
+	std::optional<Step> get_next_step() const;
 private:
 	Params params;
 	std::shared_ptr<domain::Board> board;
 
-	std::optional<Step> get_next_step() const;
 };
 
 //******************************************************************************
diff --git a/src/ui/qt/main_window.cpp b/src/ui/qt/main_window.cpp
index 68fb4e0..7e60d19 100644
--- a/src/ui/qt/main_window.cpp
+++ b/src/ui/qt/main_window.cpp
@@ -13,6 +13,7 @@
 #include <QTemporaryFile>
 #include <QToolButton>
 
+#include <algorithm>
 #include <format>
 
 #include "domain/geometrics/space.hpp"
@@ -649,8 +650,10 @@ void MainWindow::run() {
 //******************************************************************************
 void MainWindow::handle_edition_from(app::Step from, std::function<void ()> const& edit) {
 	oemsh.go_before(from);
+	// It may not have been reached yet.
+	auto const next_step = oemsh.get_next_step().value_or(from);
 	edit();
-	run(from);
+	run(std::min(from, next_step));
 }
 
 //******************************************************************************
-- 
2.43.0


From c728af1e6304a621b2fc1a0028fa4c71042554f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:16 +0000
Subject: [PATCH 32/38] fix: display colinear edges conflicts where they are

Whatever the plane the first edge belongs to.
---
 .../structure_conflict_colinear_edges.cpp            | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/ui/qt/structure_view/structure_conflict_colinear_edges.cpp b/src/ui/qt/structure_view/structure_conflict_colinear_edges.cpp
index fda9918..5d72da0 100644
--- a/src/ui/qt/structure_view/structure_conflict_colinear_edges.cpp
+++ b/src/ui/qt/structure_view/structure_conflict_colinear_edges.cpp
@@ -22,15 +22,19 @@ static QLineF convert(domain::ViewAxis axis, domain::ConflictColinearEdges const
 	qreal side = qMax(scene_rect.width(), scene_rect.height());
 	scene_rect += QMarginsF(side, side, side, side) * 2;
 
+	// Edges can belong to another plane than the displayed one.
+	auto const* const edge = conflict->get_current_state().edges[0];
+	auto const c = coord(edge->p0(), domain::transpose(edge->plane, conflict->axis).value()).value();
+
 	switch(axis) {
 	case domain::ViewAxis::H:
 		return QLineF(
-			scene_rect.left(), conflict->get_current_state().edges[0]->p0().y.value(),
-			scene_rect.right(), conflict->get_current_state().edges[0]->p0().y.value());
+			scene_rect.left(), c,
+			scene_rect.right(), c);
 	case domain::ViewAxis::V:
 		return QLineF(
-			conflict->get_current_state().edges[0]->p0().x.value(), scene_rect.bottom(),
-			conflict->get_current_state().edges[0]->p0().x.value(), scene_rect.top());
+			c, scene_rect.bottom(),
+			c, scene_rect.top());
 	default:
 		unreachable();
 	}
-- 
2.43.0


From 1dddc09d887f6f5d719f0ad6e1a143786e703666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:42 +0000
Subject: [PATCH 33/38] fix: no interval between policies enabled at the same
 place

Meshing it never ended.
---
 src/domain/meshline_policy_manager.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/domain/meshline_policy_manager.cpp b/src/domain/meshline_policy_manager.cpp
index 2ac3310..b2e823f 100644
--- a/src/domain/meshline_policy_manager.cpp
+++ b/src/domain/meshline_policy_manager.cpp
@@ -151,6 +151,14 @@ void MeshlinePolicyManager::detect_intervals(Axis const axis) {
 			return a->coord < b->coord;
 		});
 
+	// There is nothing to mesh between policies enabled at the same place.
+	dimension.erase(
+		unique(begin(dimension), end(dimension),
+			[](MeshlinePolicy const* a, MeshlinePolicy const* b) {
+				return a->coord == b->coord;
+			}),
+		end(dimension));
+
 	for(size_t i = 1; i < dimension.size(); ++i) {
 		auto const& interval = state.intervals[axis].emplace_back(make_shared<Interval>(
 			dimension[i-1], dimension[i], axis, global_params, t));
@@ -236,8 +244,11 @@ void MeshlinePolicyManager::mesh(Axis const axis) {
 		bar.tick(++i);
 	}
 
+	vector<Coord> policy_coords;
 	for(auto const& line_policy : state.line_policies[axis]) {
-		if(auto meshline = line_policy->mesh(); meshline) {
+		if(auto meshline = line_policy->mesh()
+		; meshline && !ranges::contains(policy_coords, meshline->coord)) {
+			policy_coords.push_back(meshline->coord);
 			vector<shared_ptr<Meshline>> v;
 			v.push_back(make_shared<Meshline>(meshline.value()));
 			interval_meshlines.emplace_back(std::move(v));
-- 
2.43.0


From 5b970ebc267e713a215511746f0c73673dcc6f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:25 +0000
Subject: [PATCH 34/38] fix: display what buttons announce on states gone back
 to and on new documents

---
 src/ui/qt/main_window.cpp                      | 1 +
 src/ui/qt/processing_view/processing_scene.cpp | 5 +++++
 src/ui/qt/processing_view/processing_scene.hpp | 1 +
 src/ui/qt/processing_view/processing_view.cpp  | 7 ++++++-
 4 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/ui/qt/main_window.cpp b/src/ui/qt/main_window.cpp
index 7e60d19..a86207e 100644
--- a/src/ui/qt/main_window.cpp
+++ b/src/ui/qt/main_window.cpp
@@ -631,6 +631,7 @@ void MainWindow::make_current_state_view() {
 
 	update_navigation_buttons_visibility();
 	update_cell_number();
+	update_show_buttons_pressing();
 }
 
 //******************************************************************************
diff --git a/src/ui/qt/processing_view/processing_scene.cpp b/src/ui/qt/processing_view/processing_scene.cpp
index da1199b..442e768 100644
--- a/src/ui/qt/processing_view/processing_scene.cpp
+++ b/src/ui/qt/processing_view/processing_scene.cpp
@@ -360,6 +360,11 @@ void ProcessingScene::set_display_view_axes(domain::ViewAxisSpace<bool> const& a
 		display_structure_view();
 }
 
+//******************************************************************************
+domain::ViewAxisSpace<bool> const& ProcessingScene::get_display_view_axes() const {
+	return axes_displayed_on_structure_view;
+}
+
 //******************************************************************************
 void ProcessingScene::set_display_plane(domain::Plane plane) {
 	plane_displayed_on_structure_view = plane;
diff --git a/src/ui/qt/processing_view/processing_scene.hpp b/src/ui/qt/processing_view/processing_scene.hpp
index 8e3d1b2..c8c3eae 100644
--- a/src/ui/qt/processing_view/processing_scene.hpp
+++ b/src/ui/qt/processing_view/processing_scene.hpp
@@ -94,6 +94,7 @@ public:
 	DisplayMode get_display_mode() const;
 	void set_display_mode(DisplayMode mode);
 	void set_display_view_axes(domain::ViewAxisSpace<bool> const& axes);
+	domain::ViewAxisSpace<bool> const& get_display_view_axes() const;
 	void set_display_plane(domain::Plane plane);
 
 	void edit_selected_nodes(QPoint const& pos);
diff --git a/src/ui/qt/processing_view/processing_view.cpp b/src/ui/qt/processing_view/processing_view.cpp
index eb21e23..ce55183 100644
--- a/src/ui/qt/processing_view/processing_view.cpp
+++ b/src/ui/qt/processing_view/processing_view.cpp
@@ -44,6 +44,7 @@ void ProcessingView::clear() {
 	states.clear();
 	board = nullptr;
 	current_timepoint = nullptr;
+	axes_displayed_on_structure_view = { true, true };
 }
 
 //******************************************************************************
@@ -134,7 +135,11 @@ void ProcessingView::go_to_current_state() {
 	if(current_timepoint != t) {
 		if(states.contains(t)) {
 			current_timepoint = t;
-			setScene(states.at(t).scene);
+			auto* const scene = states.at(t).scene;
+			// It may have been left while displaying another plane.
+			scene->set_display_plane(plane_displayed_on_structure_view);
+			axes_displayed_on_structure_view = scene->get_display_view_axes();
+			setScene(scene);
 		} else {
 			make_current_state();
 		}
-- 
2.43.0


From fa12df960e386ab849a476a81097c7bf1eeb4b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:51 +0000
Subject: [PATCH 35/38] fix: do not take for saved a document whose saving was
 refused or failed

Title, current file and output were changed before the file was written, so
the next save went to (or claimed) a file that was never saved. The title was
not updated either when saving to the output file.
---
 src/ui/qt/main_window.cpp | 51 ++++++++++++++++++++++++---------------
 src/ui/qt/main_window.hpp |  4 ++-
 2 files changed, 34 insertions(+), 21 deletions(-)

diff --git a/src/ui/qt/main_window.cpp b/src/ui/qt/main_window.cpp
index a86207e..ca45b02 100644
--- a/src/ui/qt/main_window.cpp
+++ b/src/ui/qt/main_window.cpp
@@ -378,7 +378,10 @@ void MainWindow::on_a_file_open_triggered() {
 }
 
 //******************************************************************************
-void MainWindow::save_csx_file() {
+bool MainWindow::save_csx_file(std::filesystem::path const& file) {
+	auto const output_backup = oemsh.get_params().output;
+	auto const output_format_backup = oemsh.get_params().output_format;
+	oemsh.set_output(file);
 	oemsh.set_output_format(app::OpenEMSH::Params::OutputFormat::CSX);
 
 	if(oemsh.is_about_overwriting()) {
@@ -391,14 +394,20 @@ void MainWindow::save_csx_file() {
 				oemsh.get_params().output.generic_string())
 			});
 		if(res != Logger::UserAction::SAVE) {
-			return;
+			oemsh.set_output(output_backup);
+			oemsh.set_output_format(output_format_backup);
+			return false;
 		}
 	}
 
 	QGuiApplication::setOverrideCursor(Qt::WaitCursor);
-	if(auto res = oemsh.write()
-	; res.has_value()) {
+	auto res = oemsh.write();
+	QGuiApplication::restoreOverrideCursor();
+
+	if(res.has_value()) {
 		is_unsaved = false;
+		csx_file = QString::fromStdString(file.generic_string());
+		update_title();
 		log({
 			.level = Logger::Level::INFO,
 			.message = std::format(
@@ -406,24 +415,33 @@ void MainWindow::save_csx_file() {
 				csx_file.toStdString())
 			});
 	} else {
+		oemsh.set_output(output_backup);
+		oemsh.set_output_format(output_format_backup);
 		log({
 			.level = Logger::Level::ERROR,
 			.user_actions = { Logger::UserAction::OK },
 			.message = std::format(
 				"Failed to save file \"{}\" : {}",
-				csx_file.toStdString(),
+				file.generic_string(),
 				res.error())
 			});
 	}
 
-	QGuiApplication::restoreOverrideCursor();
+	return res.has_value();
 }
 
 //******************************************************************************
 void MainWindow::on_a_file_save_triggered() {
-	if(oemsh.get_params().output.empty()) {
-		oemsh.set_output(csx_file.toStdString());
-	} else if(csx_file != QString::fromStdString(oemsh.get_params().output.generic_string())) {
+	save_csx_file();
+}
+
+//******************************************************************************
+bool MainWindow::save_csx_file() {
+	auto const& output = oemsh.get_params().output;
+	if(output.empty())
+		return save_csx_file(csx_file.toStdString());
+
+	if(csx_file != QString::fromStdString(output.generic_string())) {
 		auto res = log({
 			.level = Logger::Level::QUESTION,
 			.user_actions = { Logger::UserAction::CANCEL, Logger::UserAction::SAVE },
@@ -432,15 +450,12 @@ void MainWindow::on_a_file_save_triggered() {
 				oemsh.get_params().output.generic_string(),
 				oemsh.get_params().input.generic_string())
 			});
-		if(res == Logger::UserAction::SAVE) {
-			csx_file = QString::fromStdString(oemsh.get_params().output.generic_string());
-		} else {
-			return;
-		}
+		if(res != Logger::UserAction::SAVE)
+			return false;
 	}
 
 	// TODO deduce format from csx_file suffix
-	save_csx_file();
+	return save_csx_file(std::filesystem::path(output));
 }
 
 //******************************************************************************
@@ -452,13 +467,9 @@ void MainWindow::on_a_file_save_as_triggered() {
 	dialog.setDefaultSuffix(".csx");
 	dialog.setDirectory(csx_file.isEmpty() ? QString(".") : QFileInfo(csx_file).path());
 	if(dialog.exec()) {
-		csx_file = dialog.selectedFiles().first();
-		update_title();
-
 		// TODO deduce from filter selected by user
 		// dialog.selectedNameFilter(); // TODO check actual suffix with that ?
-		oemsh.set_output(csx_file.toStdString());
-		save_csx_file();
+		save_csx_file(dialog.selectedFiles().first().toStdString());
 	}
 }
 
diff --git a/src/ui/qt/main_window.hpp b/src/ui/qt/main_window.hpp
index c3cf363..c7c29e2 100644
--- a/src/ui/qt/main_window.hpp
+++ b/src/ui/qt/main_window.hpp
@@ -6,6 +6,7 @@
 
 #pragma once
 
+#include <filesystem>
 #include <functional>
 #include <memory>
 
@@ -39,7 +40,8 @@ private:
 	void update_navigation_buttons_visibility();
 	void update_show_buttons_pressing();
 	void update_cell_number(bool reset = false);
-	void save_csx_file();
+	bool save_csx_file();
+	bool save_csx_file(std::filesystem::path const& file);
 
 	void go_to_current_state();
 	void make_current_state_view();
-- 
2.43.0


From 13d68a38d6d75f620fc1c3ebb27147c9134961d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:52 +0000
Subject: [PATCH 36/38] fix: do not close the window when saving before was
 refused or failed

---
 src/ui/qt/main_window.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ui/qt/main_window.cpp b/src/ui/qt/main_window.cpp
index ca45b02..c4cc5d5 100644
--- a/src/ui/qt/main_window.cpp
+++ b/src/ui/qt/main_window.cpp
@@ -767,7 +767,10 @@ void MainWindow::closeEvent(QCloseEvent* event) {
 			event->ignore();
 			return;
 		} else if(res == Logger::UserAction::SAVE) {
-			on_a_file_save_triggered();
+			if(!save_csx_file()) {
+				event->ignore();
+				return;
+			}
 		}
 	}
 	event->accept();
-- 
2.43.0


From e04d672179b328a1deb9f4bb4730fcf448dabdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:52 +0000
Subject: [PATCH 37/38] fix: nothing to fit or save once a file could not be
 opened

---
 src/ui/qt/main_window.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ui/qt/main_window.cpp b/src/ui/qt/main_window.cpp
index c4cc5d5..0f38883 100644
--- a/src/ui/qt/main_window.cpp
+++ b/src/ui/qt/main_window.cpp
@@ -137,6 +137,7 @@ bool MainWindow::parse_and_display() {
 	; !res.has_value()) {
 		QGuiApplication::restoreOverrideCursor();
 		update_board_dependant_buttons_visibility(false);
+		is_unsaved = false;
 		log({
 			.level = Logger::Level::ERROR,
 			.user_actions = { Logger::UserAction::OK },
@@ -678,6 +679,7 @@ void MainWindow::update_board_dependant_buttons_visibility(bool are_enabled) {
 	ui->a_undo->setEnabled(are_enabled);
 	ui->a_redo->setEnabled(are_enabled);
 	ui->a_appcsxcad->setEnabled(are_enabled);
+	ui->a_fit->setEnabled(are_enabled);
 	ui->tb_show_all_mesh->setEnabled(are_enabled);
 	ui->tb_show_horizontal_mesh->setEnabled(are_enabled);
 	ui->tb_show_vertical_mesh->setEnabled(are_enabled);
-- 
2.43.0


From 8b92374fd6c447966f5df7fa4a1cd836d11ea4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:04 +0000
Subject: [PATCH 38/38] fix: neither loop at the end of answers nor accept what
 is not offered

---
 src/ui/cli/logger.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ui/cli/logger.cpp b/src/ui/cli/logger.cpp
index d4ba9db..9e6f618 100644
--- a/src/ui/cli/logger.cpp
+++ b/src/ui/cli/logger.cpp
@@ -100,9 +100,12 @@ Logger::UserAction LoggerSink::log(Logger::LogEvent const& log) const {
 		do {
 			print(cerr, " {} ? ", to_string(log.user_actions));
 			string ln;
-			getline(cin, ln);
+			if(!getline(cin, ln)) {
+				println(cerr);
+				return Logger::UserAction::NOTHING;
+			}
 			res = from_string(ln);
-		} while(res == Logger::UserAction::NOTHING);
+		} while(!log.user_actions.contains(res));
 		return res;
 	} else {
 		if(!(log.level == Logger::Level::INFO && !verbose))
-- 
2.43.0

