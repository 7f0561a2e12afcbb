From 470672c516ff53ae32ec1aed7f34351e37944fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:19 +0000
Subject: [PATCH 1/8] fix: convex hull of a loop whose first vertices are
 collinear

The initial triangle of the hull could be degenerate, and then collinear
vertices stayed in the hull or true hull vertices were dropped.
---
 src/planar/algorithms/convex_hull.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/planar/algorithms/convex_hull.rs b/src/planar/algorithms/convex_hull.rs
index 9ca1bb0..845612b 100644
--- a/src/planar/algorithms/convex_hull.rs
+++ b/src/planar/algorithms/convex_hull.rs
@@ -26,8 +26,19 @@ pub(crate) fn find_convex_hull_of_simple_loop<C: Coordinate>(
 
     positions.next(); // Drop first point; it's also the last so we'll get to it.
     let a = positions.next().unwrap();
-    let b = positions.next().unwrap();
-    let c = positions.next().unwrap();
+    let mut b = positions.next().unwrap();
+    let mut c = positions.next().unwrap();
+    // The initial triple must be a proper triangle. In a simple loop, if a, b,
+    // and c are collinear then b is between a and c, so it can't be on the hull.
+    while _triple_location(a, b, c) == PositionLocation::On {
+        match positions.next() {
+            Some(pos) => {
+                b = c;
+                c = pos;
+            }
+            None => break,
+        }
+    }
     deque.push_front(c);
     match _triple_location(a, b, c) {
         PositionLocation::Right => {
-- 
2.43.0


From 7534ee629581c9821834bd76edc1d9fd43e8f58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:19 +0000
Subject: [PATCH 2/8] fix: don't panic when bulk-loading items without extent
 in one dimension

The scale of a dimension without extent is infinite, and infinity * 0 is NaN,
which has no u32: Flatbush::new panicked if all items had the same x or y, or
if an envelope was infinite, and so did the validation of such geometries.
---
 src/flatbush/hilbert.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/flatbush/hilbert.rs b/src/flatbush/hilbert.rs
index 9eea995..9c9b034 100644
--- a/src/flatbush/hilbert.rs
+++ b/src/flatbush/hilbert.rs
@@ -64,7 +64,12 @@ where
     pub fn hilbert(&self, position: Position<C>) -> u32 {
         let x = self.x_scale * (position.x - self.x_min);
         let y = self.y_scale * (position.y - self.y_min);
-        Self::hilbert_normalized(x.floor().to_u32().unwrap(), y.floor().to_u32().unwrap())
+        // The scaled coordinate is NaN if the rectangle has no extent (or an
+        // infinite one) in that dimension, which thus can't order positions.
+        Self::hilbert_normalized(
+            x.floor().to_u32().unwrap_or(0),
+            y.floor().to_u32().unwrap_or(0),
+        )
     }
 
     /**
-- 
2.43.0


From 3b5a84d51cc9ecd74992b80514e20167c041fd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:59 +0000
Subject: [PATCH 3/8] fix: segment intersections at an end position, or with a
 degenerate segment

The intersection was always calculated as self.start + da * t, which because
of rounding might not be the common end position, or the other segment's end
position that lies on self; validation compares those with ==, and rejected
valid geometries. Overlaps of collinear segments that only share an end were
likewise reported as tiny segments, or not at all. A degenerate self was
reported to intersect anything parallel, ie, everything.
---
 src/planar/primitives/segment.rs | 48 +++++++++++++++++++++++++++-----
 1 file changed, 41 insertions(+), 7 deletions(-)

diff --git a/src/planar/primitives/segment.rs b/src/planar/primitives/segment.rs
index 7d565bf..d5cb08e 100644
--- a/src/planar/primitives/segment.rs
+++ b/src/planar/primitives/segment.rs
@@ -90,7 +90,7 @@ impl<C: Coordinate> Segment<C> {
      */
     pub fn intersect_segment(&self, other: Segment<C>) -> SegmentIntersection<C> {
         // check intersection
-        if self == &other {
+        if self == &other && self.start != self.end {
             return SegmentIntersection::Segment(*self);
         }
 
@@ -109,18 +109,34 @@ impl<C: Coordinate> Segment<C> {
             } else {
                 // If the offset is also parallel, check for overlap.
                 let da_2 = Position::dot(da, da);
+                if da_2 == C::zero() {
+                    // self is a single position, so it's parallel to everything.
+                    return if other.contains(self.start) {
+                        SegmentIntersection::Position(self.start)
+                    } else {
+                        SegmentIntersection::None
+                    };
+                }
                 // Offset, in units of da.
                 let t0 = Position::dot(offset, da) / da_2;
                 // self.start to other.end, in units of da.
-                let t1 = t0 + Position::dot(da, db) / da_2;
-                let (t_min, t_max) = t0.min_max(t1);
+                let t1 = Position::dot(other.end - self.start, da) / da_2;
+                let (t_min, pos_min, t_max, pos_max) = if t0 <= t1 {
+                    (t0, other.start, t1, other.end)
+                } else {
+                    (t1, other.end, t0, other.start)
+                };
                 if t_min > C::one() || t_max < C::zero() {
                     // if min(t0, t1) > 1 or max(t0, t1) < 0, they don't intersect.
                     return SegmentIntersection::None;
                 } else {
-                    // Else, the intersect
-                    let start = self.start + da * t_min.max(C::zero());
-                    let end = self.start + da * t_max.min(C::one());
+                    // Else, they intersect from one end position to another.
+                    let start = if t_min > C::zero() {
+                        pos_min
+                    } else {
+                        self.start
+                    };
+                    let end = if t_max < C::one() { pos_max } else { self.end };
                     if start == end {
                         return SegmentIntersection::Position(start);
                     } else {
@@ -130,12 +146,30 @@ impl<C: Coordinate> Segment<C> {
             }
         } else {
             // The segments are not parallel, so they are disjoint or intersect at a point
+            if self.start == other.start || self.start == other.end {
+                return SegmentIntersection::Position(self.start);
+            }
+            if self.end == other.start || self.end == other.end {
+                return SegmentIntersection::Position(self.end);
+            }
             // Calculate where the infinite lines would intersect; if these are on the segments
             // then the segments intersect.
             let ta = Position::cross(offset, db) / da_x_db;
             let tb = offset_x_da / da_x_db;
             if C::zero() <= ta && ta <= C::one() && C::zero() <= tb && tb <= C::one() {
-                return SegmentIntersection::Position(self.start + da * ta);
+                // If they intersect at an end of either, return exactly that position;
+                // the calculated one might be different because of rounding.
+                return SegmentIntersection::Position(if ta == C::zero() {
+                    self.start
+                } else if ta == C::one() {
+                    self.end
+                } else if tb == C::zero() {
+                    other.start
+                } else if tb == C::one() {
+                    other.end
+                } else {
+                    self.start + da * ta
+                });
             }
         }
         SegmentIntersection::None
-- 
2.43.0


From 73f802a85f407dc37483682a3af7b75b1aa4704e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:59 +0000
Subject: [PATCH 4/8] fix: reject open linestrings whose last segment passes
 through the first position

The wraparound exception for loops also applied to linestrings that don't end
at their start.
---
 src/planar/validation/line_string.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/planar/validation/line_string.rs b/src/planar/validation/line_string.rs
index 1acfca7..878897c 100644
--- a/src/planar/validation/line_string.rs
+++ b/src/planar/validation/line_string.rs
@@ -58,8 +58,11 @@ impl<C: Coordinate> LineString<C> {
                 SegmentIntersection::Position(p) => {
                     // Point intersections are fine at the shared point between
                     // adjacent segments.  In loops this includes the wraparound.
-                    if ((high_id == low_id + 1) || (low_id == 0 && high_id == num_segments - 1))
-                        && (p == first_segment.end || p == first_segment.start)
+                    if (high_id == low_id + 1 && p == first_segment.end)
+                        || (low_id == 0
+                            && high_id == num_segments - 1
+                            && p == first_segment.start
+                            && p == second_segment.end)
                     {
                         continue;
                     } else {
-- 
2.43.0


From 407560a3de69eccc7d17cf7fdf50d33117748bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:19 +0000
Subject: [PATCH 5/8] fix: parse_wkt returns an error for a geometry collection
 instead of panicking

---
 src/serde/wkt.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/serde/wkt.rs b/src/serde/wkt.rs
index b26e4a1..3b7b161 100644
--- a/src/serde/wkt.rs
+++ b/src/serde/wkt.rs
@@ -6,12 +6,11 @@ use wkt;
 
 pub fn parse_wkt(wkt_str: &str) -> Result<Vec<Geometry<f64>>, &str> {
     let wkt_geoms = wkt::Wkt::from_str(wkt_str)?;
-    let geoms = wkt_geoms.items.into_iter().map(from_wkt_geometry).collect();
-    Ok(geoms)
+    wkt_geoms.items.into_iter().map(from_wkt_geometry).collect()
 }
 
-fn from_wkt_geometry(geom: wkt::Geometry) -> Geometry<f64> {
-    match geom {
+fn from_wkt_geometry(geom: wkt::Geometry) -> Result<Geometry<f64>, &'static str> {
+    let geometry = match geom {
         wkt::Geometry::Point(p) => match from_wkt_point(p) {
             None => Geometry::empty(),
             Some(point) => Geometry::from(point),
@@ -24,8 +23,9 @@ fn from_wkt_geometry(geom: wkt::Geometry) -> Geometry<f64> {
         wkt::Geometry::MultiPoint(mp) => Geometry::from(from_wkt_multi_point(mp)),
         wkt::Geometry::MultiLineString(mls) => Geometry::from(from_wkt_multi_linestring(mls)),
         wkt::Geometry::MultiPolygon(mpoly) => Geometry::from(from_wkt_multi_polygon(mpoly)),
-        _ => unimplemented!(),
-    }
+        wkt::Geometry::GeometryCollection(_) => return Err("GeometryCollection is not supported."),
+    };
+    Ok(geometry)
 }
 
 fn from_wkt_point(pt: wkt::types::Point) -> Option<Point<f64>> {
-- 
2.43.0


From 0892f18616c2f03465cf1aa732b50b39a6dc81a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:52 +0000
Subject: [PATCH 6/8] fix: relation of loops that cross or only touch at their
 vertices

The relation was decided by the vertices that don't touch the other loop, so
loops that cross at shared vertices were Separate (overlapping polygons in a
valid MultiPolygon), and loops whose vertices all touch the other were Inside
it (a hole outside of its shell was valid, adjacent polygons were invalid), or
made validation panic.
---
 src/planar/algorithms/loop_relation.rs | 44 ++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/src/planar/algorithms/loop_relation.rs b/src/planar/algorithms/loop_relation.rs
index caa0071..35e8963 100644
--- a/src/planar/algorithms/loop_relation.rs
+++ b/src/planar/algorithms/loop_relation.rs
@@ -59,6 +59,9 @@ pub fn find_loop_loop_relation<C: Coordinate>(
     let mut winding_numbers_1: HashMap<SafePosition<C>, i32> = HashMap::new();
     let mut winding_numbers_2: HashMap<SafePosition<C>, i32> = HashMap::new();
     let mut boundary_positions: HashSet<SafePosition<C>> = HashSet::new();
+    // The positions at which each segment touches the other loop, by segment id.
+    let mut touches_1: HashMap<usize, Vec<Position<C>>> = HashMap::new();
+    let mut touches_2: HashMap<usize, Vec<Position<C>>> = HashMap::new();
 
     while let Some((node1, node2)) = stack.pop() {
         if node1.level == 0 && node2.level == 0 {
@@ -75,6 +78,8 @@ pub fn find_loop_loop_relation<C: Coordinate>(
                     } else {
                         intersecting_position = Some(p);
                         boundary_positions.insert(p.to_hashable().unwrap());
+                        touches_1.entry(node1.sibling_index).or_default().push(p);
+                        touches_2.entry(node2.sibling_index).or_default().push(p);
                     }
                 }
                 SegmentIntersection::None => (),
@@ -105,6 +110,15 @@ pub fn find_loop_loop_relation<C: Coordinate>(
         }
     }
 
+    // The vertices don't tell whether the loops cross where they touch, nor how
+    // they relate if all vertices touch; the pieces of the touched segments do.
+    for (pos, wn) in _find_piece_winding_numbers(&segments_1, &touches_1, &segments_2) {
+        winding_numbers_1.insert(pos, wn);
+    }
+    for (pos, wn) in _find_piece_winding_numbers(&segments_2, &touches_2, &segments_1) {
+        winding_numbers_2.insert(pos, wn);
+    }
+
     let loop_1_relation = _get_loop_relation(&winding_numbers_1, &boundary_positions);
     if loop_1_relation == LoopRelation::Crosses {
         return LoopLoopRelation::Crosses;
@@ -154,6 +168,36 @@ fn _maybe_push_other_isxn<C: Coordinate>(
     }
 }
 
+/**
+ * Split each touched segment at its touches, and find the winding number (with
+ * respect to the other loop) of the midpoint of each piece. The other loop
+ * can't touch or cross the interior of a piece.
+ */
+fn _find_piece_winding_numbers<C: Coordinate>(
+    segments: &[Segment<C>],
+    touches: &HashMap<usize, Vec<Position<C>>>,
+    other_segments: &[Segment<C>],
+) -> Vec<(SafePosition<C>, i32)> {
+    let mut winding_numbers = Vec::new();
+    for (&segment_id, positions) in touches {
+        let seg = segments[segment_id];
+        let mut ends = positions.clone();
+        ends.push(seg.start);
+        ends.push(seg.end);
+        ends.sort_by_key(|p| p.to_hashable().unwrap()); // This sorts them along seg
+        ends.dedup();
+        for piece in ends.windows(2) {
+            let midpoint = (piece[0] + piece[1]) / (C::one() + C::one());
+            let wn = other_segments
+                .iter()
+                .map(|&other| Segment::find_winding_number(midpoint, other))
+                .sum();
+            winding_numbers.push((midpoint.to_hashable().unwrap(), wn));
+        }
+    }
+    winding_numbers
+}
+
 fn _get_loop_relation<C: Coordinate>(
     winding_numbers: &HashMap<SafePosition<C>, i32>,
     boundary_positions: &HashSet<SafePosition<C>>,
-- 
2.43.0


From 74f7039cec941708feb9549c74b547f4cb0e399d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:48 +0000
Subject: [PATCH 7/8] fix: a padding node of the spatial index has no children

---
 src/flatbush/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/flatbush/mod.rs b/src/flatbush/mod.rs
index 44192d3..ed6c1e7 100644
--- a/src/flatbush/mod.rs
+++ b/src/flatbush/mod.rs
@@ -331,7 +331,9 @@ where
     pub fn get_children(&self, node: FlatbushNode<C>) -> Vec<FlatbushNode<C>> {
         let child_level = node.level - 1;
         let start_index = self.level_indices[child_level] + node.sibling_index * self.degree;
-        let child_index_range = start_index..start_index + self.degree;
+        // A node that pads out its level has no children.
+        let end_index = (start_index + self.degree).min(self.level_indices[node.level]);
+        let child_index_range = start_index..end_index;
         child_index_range
             .map(move |tree_index| FlatbushNode {
                 level: child_level,
-- 
2.43.0


From 8c591743b992abc8a4367ad3350124b2e3a5144b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:37 +0000
Subject: [PATCH 8/8] fix: a crossing beside an endpoint of two linestrings was
 rounded to it and accepted

The position at which two segments cross is computed with rounding, so it
could become the endpoint of one of them next to it, even though the segments
cross properly.  Endpoints may only touch where both segments end.
---
 src/planar/validation/multi_line_string.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/planar/validation/multi_line_string.rs b/src/planar/validation/multi_line_string.rs
index 5a48ba2..99475e3 100644
--- a/src/planar/validation/multi_line_string.rs
+++ b/src/planar/validation/multi_line_string.rs
@@ -30,6 +30,12 @@ impl<C: Coordinate> MultiLineString<C> {
                         return intersection_err;
                     }
                     SegmentIntersection::Position(pos) => {
+                        // A crossing next to an endpoint might have been rounded to it.
+                        if ![seg1.start, seg1.end].contains(&pos)
+                            || ![seg2.start, seg2.end].contains(&pos)
+                        {
+                            return intersection_err;
+                        }
                         // Allow linestrings to intersect at their endpoints.
                         if let (Geometry::MultiPoint(mp1), Geometry::MultiPoint(mp2)) =
                             (linestring1.boundary(), linestring2.boundary())
-- 
2.43.0

