From 5635823e614cb456320bbfd168338cb7ddcbe454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:34 +0000
Subject: [PATCH 01/39] fix: contains_point_exclusive() rejected interior
 points located on a diagonal of the hull

---
 src/linestring_2d/convex_hull.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/linestring_2d/convex_hull.rs b/src/linestring_2d/convex_hull.rs
index 071a8c1..096b755 100644
--- a/src/linestring_2d/convex_hull.rs
+++ b/src/linestring_2d/convex_hull.rs
@@ -1365,7 +1365,8 @@ pub fn contains_point_exclusive<T: GenericVector2>(input: &Vec<T>, p: T) -> bool
     //println!("{:?}", slice );
     // Check the final slice (triangle)
     if retain_index_0 {
-        if !is_point_left(input[input_offset], slice[0], p) {
+        // this is a diagonal of the hull, not an edge. So a point on it can still be on the inside
+        if !is_point_left_allow_collinear(input[input_offset], slice[0], p) {
             //println!("return false 3.1 for slice: 0+{:?}", slice);
             return false;
         }
-- 
2.43.0


From 729de63a8fe0d596480ec668953652e59a57aed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 02/39] fix: the convex hull of exactly three points was not
 closed and could contain non-extreme points

---
 src/linestring_2d/convex_hull.rs | 60 --------------------------------
 1 file changed, 60 deletions(-)

diff --git a/src/linestring_2d/convex_hull.rs b/src/linestring_2d/convex_hull.rs
index 096b755..27688e0 100644
--- a/src/linestring_2d/convex_hull.rs
+++ b/src/linestring_2d/convex_hull.rs
@@ -277,13 +277,6 @@ pub fn gift_wrap<T: GenericVector2>(mut vertices: &[T]) -> Result<Vec<T>, Linest
     if vertices.len() <= 2 {
         return Ok(vertices.to_vec());
     }
-    if vertices.len() == 3 {
-        return if is_point_left(vertices[0], vertices[1], vertices[2]) {
-            Ok(vertices.to_vec())
-        } else {
-            Ok(vec![vertices[0], vertices[2], vertices[1]])
-        };
-    }
 
     let starting_point = find_lowest_x(vertices)?.0;
 
@@ -419,19 +412,6 @@ fn indexed_gift_wrap_no_loop<T: GenericVector2>(
     if indices.len() <= 2 {
         return Ok(indices.to_vec());
     }
-    if indices.len() == 3 {
-        return if is_point_left(
-            vertices[indices[0]],
-            vertices[indices[1]],
-            vertices[indices[2]],
-        ) {
-            // input_indices was already CCW
-            Ok(indices.to_vec())
-        } else {
-            // Convert from CW to CCW
-            Ok(vec![indices[0], indices[2], indices[1]])
-        };
-    }
     let starting_index = indexed_find_lowest_x(vertices, indices)?.0;
 
     let mut hull = Vec::with_capacity(indices.len() / 4);
@@ -535,13 +515,6 @@ pub fn graham_scan_wo_atan2<T: GenericVector2>(
     if input_points.len() <= 2 {
         return Ok(input_points.to_vec());
     }
-    if input_points.len() == 3 {
-        return if is_point_left(input_points[0], input_points[1], input_points[2]) {
-            Ok(input_points.to_vec())
-        } else {
-            Ok(vec![input_points[0], input_points[2], input_points[1]])
-        };
-    }
 
     let mut input_points = input_points.to_vec();
 
@@ -630,13 +603,6 @@ pub fn graham_scan<T: GenericVector2>(mut input_points: &[T]) -> Result<Vec<T>,
     if input_points.len() <= 2 {
         return Ok(input_points.to_vec());
     }
-    if input_points.len() == 3 {
-        return if is_point_left(input_points[0], input_points[1], input_points[2]) {
-            Ok(input_points.to_vec())
-        } else {
-            Ok(vec![input_points[0], input_points[2], input_points[1]])
-        };
-    }
 
     let (_, starting_point) = find_lowest_x(input_points)?;
     //let ref_dir = T::new(T::Scalar::ONE, T::Scalar::ZERO);
@@ -763,19 +729,6 @@ pub fn indexed_graham_scan_no_loop<T: GenericVector2>(
     if indices.len() <= 2 {
         return Ok(indices.to_vec());
     }
-    if indices.len() == 3 {
-        return if is_point_left(
-            vertices[indices[0]],
-            vertices[indices[1]],
-            vertices[indices[2]],
-        ) {
-            // input_indices was already CCW
-            Ok(indices.to_vec())
-        } else {
-            // Convert from CW to CCW
-            Ok(vec![indices[0], indices[2], indices[1]])
-        };
-    }
     let (start_index, start_point) = if let Some(start_index) = start_index {
         (start_index, vertices[start_index])
     } else {
@@ -1136,19 +1089,6 @@ pub fn convex_hull_par<T: GenericVector2>(
     if indices.len() <= 2 {
         return Ok(indices.to_vec());
     }
-    if indices.len() == 3 {
-        return if is_point_left(
-            vertices[indices[0]],
-            vertices[indices[1]],
-            vertices[indices[2]],
-        ) {
-            // input_indices was already CCW
-            Ok(indices.to_vec())
-        } else {
-            // Convert from CW to CCW
-            Ok(vec![indices[0], indices[2], indices[1]])
-        };
-    }
 
     // Create chunks of indices
     let chunks: Vec<_> = indices.chunks(per_thread_chunk_size).collect();
-- 
2.43.0


From f261fea80738cbca317dfc36d3e46f638b65bdf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 03/39] fix: indexed_graham_scan() lost hull vertices when the
 start point was present under several indices

---
 src/linestring_2d/convex_hull.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/linestring_2d/convex_hull.rs b/src/linestring_2d/convex_hull.rs
index 27688e0..11c6122 100644
--- a/src/linestring_2d/convex_hull.rs
+++ b/src/linestring_2d/convex_hull.rs
@@ -757,10 +757,10 @@ pub fn indexed_graham_scan_no_loop<T: GenericVector2>(
     hull.push(start_index);
 
     for i in sorted_indices.iter() {
-        if *i == start_index {
+        let p = vertices[*i];
+        if p == start_point {
             continue;
         }
-        let p = vertices[*i];
         while hull.len() > 1 {
             let last_in_hull = hull.len() - 1;
             let cross = cross_2d(
-- 
2.43.0


From 6b07861aef64161ae7aa400f566ddd8e751bfa28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 04/39] fix: the convex hull of a single point was empty

---
 src/linestring_2d/convex_hull.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/linestring_2d/convex_hull.rs b/src/linestring_2d/convex_hull.rs
index 11c6122..93de2fd 100644
--- a/src/linestring_2d/convex_hull.rs
+++ b/src/linestring_2d/convex_hull.rs
@@ -270,7 +270,7 @@ pub fn gift_wrap<T: GenericVector2>(mut vertices: &[T]) -> Result<Vec<T>, Linest
     if vertices.is_empty() {
         return Ok(Vec::with_capacity(0));
     }
-    if vertices[0] == vertices[vertices.len() - 1] {
+    if vertices.len() > 1 && vertices[0] == vertices[vertices.len() - 1] {
         // disregard the duplicated loop point if it exists
         vertices = &vertices[1..];
     }
@@ -508,7 +508,7 @@ pub fn graham_scan_wo_atan2<T: GenericVector2>(
     if input_points.is_empty() {
         return Ok(Vec::with_capacity(0));
     }
-    if !input_points.is_empty() && (input_points[0] == input_points[input_points.len() - 1]) {
+    if input_points.len() > 1 && (input_points[0] == input_points[input_points.len() - 1]) {
         // disregard the duplicated loop point if it exists
         input_points = &input_points[1..];
     }
@@ -596,7 +596,7 @@ pub fn graham_scan<T: GenericVector2>(mut input_points: &[T]) -> Result<Vec<T>,
     if input_points.is_empty() {
         return Ok(Vec::with_capacity(0));
     }
-    if !input_points.is_empty() && (input_points[0] == input_points[input_points.len() - 1]) {
+    if input_points.len() > 1 && (input_points[0] == input_points[input_points.len() - 1]) {
         // disregard the duplicated loop point if it exists
         input_points = &input_points[1..];
     }
-- 
2.43.0


From 41c23450a714beb5702baf8c2a138fd22b0fe586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 05/39] fix: gift wrapping did not stop at duplicates of the
 starting point

---
 src/linestring_2d/convex_hull.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/linestring_2d/convex_hull.rs b/src/linestring_2d/convex_hull.rs
index 93de2fd..6a82aa1 100644
--- a/src/linestring_2d/convex_hull.rs
+++ b/src/linestring_2d/convex_hull.rs
@@ -316,7 +316,7 @@ pub fn gift_wrap<T: GenericVector2>(mut vertices: &[T]) -> Result<Vec<T>, Linest
                     // if point_on_hull->end_point && point_on_hull->candidate are collinear and
                     // the distance to the collinear is greater we also update end_point
                     end_point = j;
-                } else if j != starting_point {
+                } else if j != starting_point && distance_sq_candidate < distance_sq_end_point {
                     // This is a collinear point that is closer to the current point, mark it as visited
                     //println!("coll marking {:?}:{} as visited", input_points[j], j);
                     let _ = visited.set(j, true);
@@ -325,7 +325,7 @@ pub fn gift_wrap<T: GenericVector2>(mut vertices: &[T]) -> Result<Vec<T>, Linest
         }
 
         point_on_hull = end_point;
-        if end_point == starting_point {
+        if vertices[end_point] == vertices[starting_point] {
             // complete the loop, `hull` now represents a closed loop of points.
             // Each edge can be iterated over by `hull.iter().window(2)`
             hull.push(vertices[end_point]);
@@ -452,7 +452,7 @@ fn indexed_gift_wrap_no_loop<T: GenericVector2>(
                     // if point_on_hull->end_point && point_on_hull->candidate are collinear and
                     // the distance to the collinear is greater we also update end_point
                     end_point = j;
-                } else if j != starting_index {
+                } else if j != starting_index && distance_sq_candidate < distance_sq_end_point {
                     // This is a collinear point that is closer to the current point, mark it as visited
                     let _ = visited.set(j, true);
                 }
@@ -460,7 +460,7 @@ fn indexed_gift_wrap_no_loop<T: GenericVector2>(
         }
 
         point_on_hull = end_point;
-        if end_point == starting_index {
+        if vertices[indices[end_point]] == vertices[indices[starting_index]] {
             break;
         }
     }
-- 
2.43.0


From 1633778f0a5f06faa6ab22ad6f51453c7f55ea4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 06/39] fix: graham_scan_wo_atan2() sorted with an inconsistent
 ordering of equal points

---
 src/linestring_2d/convex_hull.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/linestring_2d/convex_hull.rs b/src/linestring_2d/convex_hull.rs
index 6a82aa1..ba736bc 100644
--- a/src/linestring_2d/convex_hull.rs
+++ b/src/linestring_2d/convex_hull.rs
@@ -529,11 +529,7 @@ pub fn graham_scan_wo_atan2<T: GenericVector2>(
                 // Collinear, pick the furthest node
                 let dist_sb = starting_point.distance_sq(*b);
                 let dist_sc = starting_point.distance_sq(*c);
-                if dist_sb > dist_sc {
-                    Ordering::Greater
-                } else {
-                    Ordering::Less
-                }
+                dist_sb.partial_cmp(&dist_sc).unwrap_or(Ordering::Equal)
             }
             _ => panic!(),
         }
-- 
2.43.0


From 96934a06674dcf7ef4f26b795662eb3667101aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:57 +0000
Subject: [PATCH 07/39] fix: convex_hull_par() could lose hull vertices or
 never terminate when partial hulls were combined

---
 src/linestring_2d/convex_hull.rs | 28 +++-------------------------
 1 file changed, 3 insertions(+), 25 deletions(-)

diff --git a/src/linestring_2d/convex_hull.rs b/src/linestring_2d/convex_hull.rs
index ba736bc..1b24c09 100644
--- a/src/linestring_2d/convex_hull.rs
+++ b/src/linestring_2d/convex_hull.rs
@@ -818,8 +818,8 @@ struct VertexIndex {
 /// The algorithm is like gift-wrapping in that it keeps `point_on_hull` and `end_point` and iterates
 /// though a list of `j` candidates to try to find a better end-point.
 /// First it picks `end_point` to be from `ìndices_a`, then it iterates over `ìndices_b` trying to
-/// find a better `end_point`. If an end point is found in `ìndices_b` but another invalid one is
-/// found the inner loop ends.
+/// find a better `end_point`. All of the candidates must be examined: the best one can be located
+/// anywhere in the list, even after candidates that are worse than the first good one.
 fn combine_indexed_convex_hull<T: GenericVector2>(
     vertices: &[T],
     indices_a: Result<Vec<usize>, LinestringError>,
@@ -903,9 +903,6 @@ fn combine_indexed_convex_hull<T: GenericVector2>(
         );*/
 
         if point_on_hull.from_a {
-            // when we have found a good end_point from indices_b and we find a bad one, we can
-            // exit the loop
-            let mut found_a_legit_b_point = false;
             for (jj, j) in indices_b.iter().enumerate() {
                 let j = *j;
 
@@ -925,7 +922,6 @@ fn combine_indexed_convex_hull<T: GenericVector2>(
                     end_point.index_index = jj;
                     end_point.index = j;
                     end_point.from_a = false;
-                    found_a_legit_b_point = true;
                 } else if orient == Orientation::Collinear {
                     let distance_sq_candidate =
                         vertices[point_on_hull.index].distance_sq(vertices[j]);
@@ -938,23 +934,13 @@ fn combine_indexed_convex_hull<T: GenericVector2>(
                         end_point.index_index = jj;
                         end_point.index = j;
                         end_point.from_a = false;
-                        found_a_legit_b_point = true;
                     } else if j != starting_index.index {
                         // This is a collinear point that is closer to the current point, mark it as visited
                         //let _ = visited.insert(j);
                     }
-                } else {
-                    // we should have a test here to see if we can end the loop.
-                    // if we only knew that end_point was a legit point
-                    if found_a_legit_b_point {
-                        break;
-                    }
                 }
             }
         } else {
-            // when we have found a good end_point from indices_a and we find a bad one, we can
-            // exit the loop
-            let mut found_a_legit_a_point = false;
             for (jj, j) in indices_a.iter().enumerate() {
                 let j = *j;
 
@@ -974,7 +960,6 @@ fn combine_indexed_convex_hull<T: GenericVector2>(
                     end_point.index_index = jj;
                     end_point.index = j;
                     end_point.from_a = true;
-                    found_a_legit_a_point = true;
                 } else if orient == Orientation::Collinear {
                     let distance_sq_candidate =
                         vertices[point_on_hull.index].distance_sq(vertices[j]);
@@ -987,17 +972,10 @@ fn combine_indexed_convex_hull<T: GenericVector2>(
                         end_point.index_index = jj;
                         end_point.index = j;
                         end_point.from_a = true;
-                        found_a_legit_a_point = true;
                     } else if j != starting_index.index {
                         // This is a collinear point that is closer to the current point, mark it as visited
                         //let _ = visited.insert(j);
                     }
-                } else {
-                    // we should have a test here to see if we can end the loop.
-                    // if we only knew that end_point was a legit point
-                    if found_a_legit_a_point {
-                        break;
-                    }
                 }
             }
         }
@@ -1008,7 +986,7 @@ fn combine_indexed_convex_hull<T: GenericVector2>(
         println!();
          */
         point_on_hull = end_point.clone();
-        if end_point.index == starting_index.index {
+        if vertices[end_point.index] == vertices[starting_index.index] {
             break;
         }
     }
-- 
2.43.0


From f1bb8209ceae3ed42ea684c3b4137b3a9515e484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:04 +0000
Subject: [PATCH 08/39] fix: ray_edge_intersection() reported hits behind the
 origin for edges on the line of the ray

---
 src/linestring_2d.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/linestring_2d.rs b/src/linestring_2d.rs
index 65504a2..f1f0352 100644
--- a/src/linestring_2d.rs
+++ b/src/linestring_2d.rs
@@ -842,12 +842,14 @@ impl<T: GenericVector2> LineString2<T> for Vec<T> {
         if ulps_eq!(r_cross_s, T::Scalar::zero()) {
             let q_minus_p = p0.sub(origin);
             let q_minus_p_cross_r = q_minus_p.perp_dot(ray_dir);
-            ulps_eq!(q_minus_p_cross_r, T::Scalar::zero()).then(|| {
-                let r_dot_r = ray_dir.dot(ray_dir);
-                let t0 = q_minus_p.dot(ray_dir) / r_dot_r;
-                let t1: T::Scalar = t0 + s.dot(ray_dir) / r_dot_r;
-                t0.min(t1)
-            })
+            if !ulps_eq!(q_minus_p_cross_r, T::Scalar::zero()) {
+                return None;
+            }
+            let r_dot_r = ray_dir.dot(ray_dir);
+            let t0 = q_minus_p.dot(ray_dir) / r_dot_r;
+            let t1: T::Scalar = t0 + s.dot(ray_dir) / r_dot_r;
+            // the part of the edge that is behind the origin is not on the ray
+            (t0.max(t1) >= T::Scalar::ZERO).then(|| t0.min(t1).max(T::Scalar::ZERO))
         } else {
             let q_minus_p = p0.sub(origin);
             let t = q_minus_p.perp_dot(s) / r_cross_s;
-- 
2.43.0


From 0af16b82542f9e9891ed2f90730e43340eacf5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:02 +0000
Subject: [PATCH 09/39] fix: the sweep-line algorithms selected the wrong
 neighbour among lines meeting at one point

The neighbours of a sweep-line position were prioritised on dy/dx, but the lines should
be ordered on dx/dy, and the line leaning the most towards the position is the closest one.
---
 src/linestring_2d/indexed_intersection.rs | 19 ++++++-------------
 src/linestring_2d/intersection.rs         | 19 ++++++-------------
 2 files changed, 12 insertions(+), 26 deletions(-)

diff --git a/src/linestring_2d/indexed_intersection.rs b/src/linestring_2d/indexed_intersection.rs
index d6c41d2..c27bac7 100644
--- a/src/linestring_2d/indexed_intersection.rs
+++ b/src/linestring_2d/indexed_intersection.rs
@@ -369,13 +369,12 @@ impl SiteEvent {
 }
 
 /// Returns *one* point of intersection between the `sweepline` and `other`
-/// Second return value is the slope of the line
+/// Second return value is the negated, inverse, slope of the line
 fn sweepline_intersection<T: GenericVector2>(
     vertices: &[T],
     sweepline: T,
     other: (usize, usize),
 ) -> Option<(T::Scalar, T::Scalar)> {
-    // line equation: y=slope*x+d => d=y-slope*x => x = (y-d)/slope
     let other_start = vertices[other.0];
     let other_end = vertices[other.1];
 
@@ -384,19 +383,13 @@ fn sweepline_intersection<T: GenericVector2>(
     let x1 = other_start.x();
     let x2 = other_end.x();
     if ulps_eq!(&y1, &y2) {
-        // horizontal line: return to the point right of sweepline.x, if any
-        // Any point to the left are supposedly already handled.
-        return (sweepline.x() < x2).then_some((x2, T::Scalar::ZERO));
+        // an active horizontal line passes through the sweepline position
+        return None;
     }
 
-    if ulps_eq!(&x1, &x2) {
-        return Some((x1, T::Scalar::INFINITY));
-    }
-
-    let slope = (y2 - y1) / (x2 - x1);
-
-    let d = y1 - slope * x1;
-    Some(((sweepline.y() - d) / slope, slope))
+    // negated delta x / delta y: the lines leaning towards the pivot point have priority
+    let slope = (x2 - x1) / (y2 - y1);
+    Some((x1 + (sweepline.y() - y1) * slope, -slope))
 }
 
 /// Contains the data the sweep-line intersection algorithm needs to operate.
diff --git a/src/linestring_2d/intersection.rs b/src/linestring_2d/intersection.rs
index e1fa8c3..30cf43a 100644
--- a/src/linestring_2d/intersection.rs
+++ b/src/linestring_2d/intersection.rs
@@ -363,30 +363,23 @@ impl SiteEvent {
 }
 
 /// Returns *one* point of intersection between the `sweepline` and `other`
-/// Second return value is the slope of the line
+/// Second return value is the negated, inverse, slope of the line
 fn sweepline_intersection<T: GenericVector2>(
     sweepline: T,
     other: &linestring_2d::Line2<T>,
 ) -> Option<(T::Scalar, T::Scalar)> {
-    // line equation: y=slope*x+d => d=y-slope*x => x = (y-d)/slope
     let y1 = other.start.y();
     let y2 = other.end.y();
     let x1 = other.start.x();
     let x2 = other.end.x();
     if approx::ulps_eq!(&y1, &y2) {
-        // horizontal line: return to the point right of sweepline.x, if any
-        // Any point to the left are supposedly already handled.
-        return (sweepline.x() < x2).then_some((x2, T::Scalar::ZERO));
+        // an active horizontal line passes through the sweepline position
+        return None;
     }
 
-    if approx::ulps_eq!(&x1, &x2) {
-        return Some((x1, T::Scalar::INFINITY));
-    }
-
-    let slope = (y2 - y1) / (x2 - x1);
-
-    let d = y1 - slope * x1;
-    Some(((sweepline.y() - d) / slope, slope))
+    // negated delta x / delta y: the lines leaning towards the pivot point have priority
+    let slope = (x2 - x1) / (y2 - y1);
+    Some((x1 + (sweepline.y() - y1) * slope, -slope))
 }
 
 /// Contains the data the sweep-line intersection algorithm needs to operate.
-- 
2.43.0


From 4336931fbd8e4606ed9543084929dfc69f1f5276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:22 +0000
Subject: [PATCH 10/39] fix: the sweep-line algorithms missed lines passing
 through an unpredicted event point

A line that starts, ends or crosses at the interior of an active line was only reported if
the two lines happened to be neighbours and the intersection was predicted.
---
 src/linestring_2d/indexed_intersection.rs | 49 ++++++++++++++++++-----
 src/linestring_2d/intersection.rs         | 41 ++++++++++++++-----
 2 files changed, 70 insertions(+), 20 deletions(-)

diff --git a/src/linestring_2d/indexed_intersection.rs b/src/linestring_2d/indexed_intersection.rs
index c27bac7..5336fa9 100644
--- a/src/linestring_2d/indexed_intersection.rs
+++ b/src/linestring_2d/indexed_intersection.rs
@@ -368,6 +368,18 @@ impl SiteEvent {
     }
 }
 
+/// Returns true if `point` is positioned on the infinite extension of `line`
+#[inline(always)]
+fn is_on_line<T: GenericVector2>(line: Line2<T>, point: T) -> bool {
+    let direction = line.end - line.start;
+    let offset = point - line.start;
+    ulps_eq!(
+        &(direction.x() * offset.y()),
+        &(direction.y() * offset.x()),
+        epsilon = T::Scalar::ZERO
+    )
+}
+
 /// Returns *one* point of intersection between the `sweepline` and `other`
 /// Second return value is the negated, inverse, slope of the line
 fn sweepline_intersection<T: GenericVector2>(
@@ -703,7 +715,28 @@ impl<T: GenericVector2> IntersectionTester<T> {
 
         let removed_active_lines = event.drop.iter().flatten().count();
         let added_active_lines = event.add.iter().flatten().count();
-        let intersections_found = event.intersection.iter().flatten().count();
+        // remove 'drop' lines from the active lines
+        for line_index in event.drop.iter().flatten() {
+            let _ = active_lines.remove(line_index);
+        }
+
+        // active lines passing through this point also intersect here, even if it was not
+        // predicted. E.g. when another line starts at the interior of an active line.
+        let mut intersections: Vec<usize> = event.intersection.iter().flatten().copied().collect();
+        for l in active_lines.iter() {
+            if !intersections.contains(l)
+                && is_on_line(
+                    Line2::new(
+                        self.vertices[self.lines[*l].0],
+                        self.vertices[self.lines[*l].1],
+                    ),
+                    key.pos,
+                )
+            {
+                intersections.push(*l);
+            }
+        }
+        let intersections_found = intersections.len();
 
         // Handle points converging at this point:
         // If sum of number of items in 'add' + 'drop' > 1 they must intersect at this point
@@ -731,7 +764,7 @@ impl<T: GenericVector2> IntersectionTester<T> {
                         println!("self.sweepline_pos:{:?}", self.sweepline_pos);
                         panic!();
                     }),
-                    event.intersection.iter().flatten(),
+                    intersections.iter(),
                 );
             }
         } else if removed_active_lines + added_active_lines + intersections_found > 1 {
@@ -754,23 +787,18 @@ impl<T: GenericVector2> IntersectionTester<T> {
                 self.report_intersections_to_result(
                     result,
                     self.sweepline_pos_index.unwrap(),
-                    event.intersection.iter().flatten(),
+                    intersections.iter(),
                 );
             }
         }
 
-        // remove 'drop' lines from the active lines
-        for line_index in event.drop.iter().flatten() {
-            let _ = active_lines.remove(line_index);
-        }
-
         //
         // calculate the sweep-line status for this point (aka the 'leftright' struct)
         //
         neighbour_priority.clear();
 
         'active_lines: for line_index in active_lines.iter() {
-            for i in event.intersection.iter().flatten() {
+            for i in intersections.iter() {
                 // lines intersecting at this point can never be left/right candidates
                 if i == line_index {
                     continue 'active_lines;
@@ -814,7 +842,7 @@ impl<T: GenericVector2> IntersectionTester<T> {
             for l in event.add.iter().flatten() {
                 connected_priority.update_both(&self.vertices, *l, &self.lines);
             }
-            for l in event.intersection.iter().flatten() {
+            for l in intersections.iter() {
                 connected_priority.update_both(&self.vertices, *l, &self.lines);
             }
 
@@ -920,5 +948,6 @@ impl<T: GenericVector2> IntersectionTester<T> {
             value.push(*line);
         }
         value.sort_unstable();
+        value.dedup();
     }
 }
diff --git a/src/linestring_2d/intersection.rs b/src/linestring_2d/intersection.rs
index 30cf43a..f01aa8f 100644
--- a/src/linestring_2d/intersection.rs
+++ b/src/linestring_2d/intersection.rs
@@ -362,6 +362,18 @@ impl SiteEvent {
     }
 }
 
+/// Returns true if `point` is positioned on the infinite extension of `line`
+#[inline(always)]
+fn is_on_line<T: GenericVector2>(line: linestring_2d::Line2<T>, point: T) -> bool {
+    let direction = line.end - line.start;
+    let offset = point - line.start;
+    approx::ulps_eq!(
+        &(direction.x() * offset.y()),
+        &(direction.y() * offset.x()),
+        epsilon = T::Scalar::ZERO
+    )
+}
+
 /// Returns *one* point of intersection between the `sweepline` and `other`
 /// Second return value is the negated, inverse, slope of the line
 fn sweepline_intersection<T: GenericVector2>(
@@ -623,7 +635,20 @@ impl<T: GenericVector2> IntersectionData<T> {
 
         let removed_active_lines = event.drop.iter().flatten().count();
         let added_active_lines = event.add.iter().flatten().count();
-        let intersections_found = event.intersection.iter().flatten().count();
+        // remove 'drop' lines from the active lines
+        for line_index in event.drop.iter().flatten() {
+            let _ = active_lines.remove(line_index);
+        }
+
+        // active lines passing through this point also intersect here, even if it was not
+        // predicted. E.g. when another line starts at the interior of an active line.
+        let mut intersections: Vec<usize> = event.intersection.iter().flatten().copied().collect();
+        for l in active_lines.iter() {
+            if !intersections.contains(l) && is_on_line(self.lines[*l], key.pos) {
+                intersections.push(*l);
+            }
+        }
+        let intersections_found = intersections.len();
 
         // Handle points converging at this point:
         // If sum of number of items in 'add' + 'drop' > 1 they must intersect at this point
@@ -648,7 +673,7 @@ impl<T: GenericVector2> IntersectionData<T> {
                 self.report_intersections_to_result(
                     result,
                     self.sweepline_pos,
-                    event.intersection.iter().flatten(),
+                    intersections.iter(),
                 );
             }
         } else if removed_active_lines + added_active_lines + intersections_found > 1 {
@@ -671,23 +696,18 @@ impl<T: GenericVector2> IntersectionData<T> {
                 self.report_intersections_to_result(
                     result,
                     self.sweepline_pos,
-                    event.intersection.iter().flatten(),
+                    intersections.iter(),
                 );
             }
         }
 
-        // remove 'drop' lines from the active lines
-        for line_index in event.drop.iter().flatten() {
-            let _ = active_lines.remove(line_index);
-        }
-
         //
         // calculate the sweep-line status for this point (aka the 'leftright' struct)
         //
         neighbour_priority.clear();
 
         'active_lines: for line_index in active_lines.iter() {
-            for i in event.intersection.iter().flatten() {
+            for i in intersections.iter() {
                 // lines intersecting at this point can never be left/right candidates
                 if i == line_index {
                     continue 'active_lines;
@@ -729,7 +749,7 @@ impl<T: GenericVector2> IntersectionData<T> {
             for l in event.add.iter().flatten() {
                 connected_priority.update_both(*l, &self.lines);
             }
-            for l in event.intersection.iter().flatten() {
+            for l in intersections.iter() {
                 connected_priority.update_both(*l, &self.lines);
             }
 
@@ -823,5 +843,6 @@ impl<T: GenericVector2> IntersectionData<T> {
             value.push(*line);
         }
         value.sort_unstable();
+        value.dedup();
     }
 }
-- 
2.43.0


From e9cab9ccfa7ae1625939107d56b2990c45558806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:24 +0000
Subject: [PATCH 11/39] fix: the sweep-line algorithms discarded, or
 duplicated, intersections because of rounding

A predicted point was discarded when rounding placed it behind the sweep-line position, even
if it was on the same horizontal line. The same pair of lines could also give two different
points depending on which line that was on the left.
---
 src/linestring_2d/indexed_intersection.rs | 34 +++++++++++++----------
 src/linestring_2d/intersection.rs         | 29 ++++++++++---------
 2 files changed, 35 insertions(+), 28 deletions(-)

diff --git a/src/linestring_2d/indexed_intersection.rs b/src/linestring_2d/indexed_intersection.rs
index 5336fa9..cf6f3b3 100644
--- a/src/linestring_2d/indexed_intersection.rs
+++ b/src/linestring_2d/indexed_intersection.rs
@@ -889,7 +889,15 @@ impl<T: GenericVector2> IntersectionTester<T> {
                 let left_l_as_line = Line2::new(self.vertices[left_l.0], self.vertices[left_l.1]);
                 let right_l_as_line =
                     Line2::new(self.vertices[right_l.0], self.vertices[right_l.1]);
-                if let Some(intersection_p) = left_l_as_line.intersection_point(right_l_as_line) {
+                // A point on a horizontal line should get exactly the y coordinate of that line,
+                // it must not end up behind the sweep-line because of rounding.
+                let intersection_p =
+                    if ulps_eq!(&right_l_as_line.start.y(), &right_l_as_line.end.y()) {
+                        right_l_as_line.intersection_point(left_l_as_line)
+                    } else {
+                        left_l_as_line.intersection_point(right_l_as_line)
+                    };
+                if let Some(intersection_p) = intersection_p {
                     let intersection_p = intersection_p.single();
                     if !intersection_p.x().is_finite() || !intersection_p.y().is_finite() {
                         return Err(LinestringError::InvalidData(format!(
@@ -899,23 +907,19 @@ impl<T: GenericVector2> IntersectionTester<T> {
                         )));
                     }
                     // don't allow intersection 'behind' or 'at' current sweep-line position
-                    if intersection_p.y() >= self.sweepline_pos.y()
-                        && !(intersection_p.y() == self.sweepline_pos.y()
-                            && intersection_p.x() < self.sweepline_pos.x())
-                        && !intersection_p.is_ulps_eq(
-                            self.sweepline_pos,
-                            T::Scalar::default_epsilon(),
-                            T::Scalar::default_max_ulps(),
-                        )
-                    {
-                        let intersection_p_index = self.vertices.len();
+                    let intersection_p_key = SiteEventKey {
+                        pos: intersection_p,
+                        index: Some(self.vertices.len()),
+                    };
+                    let sweepline_key = SiteEventKey {
+                        pos: self.sweepline_pos,
+                        index: self.sweepline_pos_index,
+                    };
+                    if intersection_p_key > sweepline_key {
                         self.vertices.push(intersection_p);
                         self.add_intersection_event(
                             site_events,
-                            &SiteEventKey {
-                                pos: intersection_p,
-                                index: Some(intersection_p_index),
-                            },
+                            &intersection_p_key,
                             &[*left_i, *right_i],
                         )
                     }
diff --git a/src/linestring_2d/intersection.rs b/src/linestring_2d/intersection.rs
index f01aa8f..0fc2115 100644
--- a/src/linestring_2d/intersection.rs
+++ b/src/linestring_2d/intersection.rs
@@ -791,7 +791,19 @@ impl<T: GenericVector2> IntersectionData<T> {
                     continue;
                 }
 
-                if let Some(intersection_p) = left_l.intersection_point(right_l) {
+                // A point on a horizontal line should get exactly the y coordinate of that line,
+                // it must not end up behind the sweep-line because of rounding.
+                // Otherwise, the lines are intersected in index order: if this pair is found
+                // again, as (right, left), the result should be the same.
+                let left_is_horizontal = approx::ulps_eq!(&left_l.start.y(), &left_l.end.y());
+                let right_is_horizontal = approx::ulps_eq!(&right_l.start.y(), &right_l.end.y());
+                let swap = right_is_horizontal || (!left_is_horizontal && right_i < left_i);
+                let intersection_p = if swap {
+                    right_l.intersection_point(left_l)
+                } else {
+                    left_l.intersection_point(right_l)
+                };
+                if let Some(intersection_p) = intersection_p {
                     let intersection_p = intersection_p.single();
                     if !intersection_p.x().is_finite() || !intersection_p.y().is_finite() {
                         return Err(LinestringError::InvalidData(format!(
@@ -801,20 +813,11 @@ impl<T: GenericVector2> IntersectionData<T> {
                         )));
                     }
                     // don't allow intersection 'behind' or 'at' current sweep-line position
-                    if intersection_p.y() >= self.sweepline_pos.y()
-                        && !(intersection_p.y() == self.sweepline_pos.y()
-                            && intersection_p.x() < self.sweepline_pos.x())
-                        && !intersection_p.is_ulps_eq(
-                            self.sweepline_pos,
-                            T::Scalar::default_epsilon(),
-                            T::Scalar::default_max_ulps(),
-                        )
-                    {
+                    let intersection_p_key = SiteEventKey::new(intersection_p);
+                    if intersection_p_key > SiteEventKey::new(self.sweepline_pos) {
                         self.add_intersection_event(
                             site_events,
-                            &SiteEventKey {
-                                pos: intersection_p,
-                            },
+                            &intersection_p_key,
                             &[*left_i, *right_i],
                         )
                     }
-- 
2.43.0


From 3f79d671944d8a8c34e1f4b29ca0d329fa096b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:31 +0000
Subject: [PATCH 12/39] fix: intersection_point3() did not recognize the shape
 of consecutive lines

middle.y() - start.x() was used as the delta y, and parallel lines continuing in the same direction
were reported as overlapping. is_self_intersecting() returned the wrong value for short linestrings.
---
 src/linestring_2d.rs | 40 +++++++++-------------------------------
 1 file changed, 9 insertions(+), 31 deletions(-)

diff --git a/src/linestring_2d.rs b/src/linestring_2d.rs
index f1f0352..24b8ce4 100644
--- a/src/linestring_2d.rs
+++ b/src/linestring_2d.rs
@@ -328,39 +328,17 @@ impl<T: GenericVector2> Line2<T> {
         middle: T,
         end: T,
     ) -> Result<Option<Intersection<T>>, LinestringError> {
-        let middle_sub_start = T::new_2d(middle.x() - start.x(), middle.y() - start.x());
+        let middle_sub_start = T::new_2d(middle.x() - start.x(), middle.y() - start.y());
         let middle_sub_end = T::new_2d(middle.x() - end.x(), middle.y() - end.y());
-        let start_is_vertical = ulps_eq!(middle_sub_start.x(), T::Scalar::ZERO);
-        let end_is_vertical = ulps_eq!(middle_sub_end.x(), T::Scalar::ZERO);
 
-        if start_is_vertical && end_is_vertical {
-            // both lines are vertical
-            return if middle_sub_start.y().is_sign_negative()
-                && !middle_sub_end.y().is_sign_negative()
-            {
-                // opposite direction
-                Ok(None)
-            } else {
-                // pick the shortest vector for overlap point
-                if (middle_sub_start.x() * middle_sub_start.x()
-                    + middle_sub_start.y() * middle_sub_start.y())
-                    < (middle_sub_end.x() * middle_sub_end.x()
-                        + middle_sub_end.y() * middle_sub_end.y())
-                {
-                    Ok(Some(Intersection::Overlap(Line2 { start, end: middle })))
-                } else {
-                    Ok(Some(Intersection::Overlap(Line2 { start: middle, end })))
-                }
-            };
-        } else if start_is_vertical || end_is_vertical {
-            return Ok(None);
-        }
-
-        // both lines should now be non-vertical, we can compare their slope
-        let start_slope = middle_sub_start.x() / middle_sub_start.y();
-        let end_slope = middle_sub_end.x() / middle_sub_end.y();
-
-        if !ulps_eq!(&start_slope, &end_slope) {
+        let is_parallel = ulps_eq!(
+            &(middle_sub_start.x() * middle_sub_end.y()),
+            &(middle_sub_start.y() * middle_sub_end.x()),
+            epsilon = T::Scalar::ZERO
+        );
+        let is_same_direction = middle_sub_start.dot(middle_sub_end) > T::Scalar::ZERO;
+        if !(is_parallel && is_same_direction) {
+            // The lines only overlap if they are folded back on each other
             return Ok(None);
         }
 
-- 
2.43.0


From 0e601b8b788de161a0702d90ad6f51e63911bedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:58 +0000
Subject: [PATCH 13/39] fix: is_self_intersecting() ignored overlapping edges
 that share an end point

---
 src/linestring_2d.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/linestring_2d.rs b/src/linestring_2d.rs
index 24b8ce4..93349a0 100644
--- a/src/linestring_2d.rs
+++ b/src/linestring_2d.rs
@@ -709,8 +709,11 @@ impl<T: GenericVector2> LineString2<T> for Vec<T> {
                         if Line2::intersection_point3(l0.1.start, l0.1.end, l1.1.end)?.is_some() {
                             return Ok(true);
                         }
-                    } else if let Some(point) = l0.1.intersection_point(l1.1) {
-                        let point = point.single();
+                    } else if let Some(intersection) = l0.1.intersection_point(l1.1) {
+                        let point = match intersection {
+                            Intersection::Intersection(point) => point,
+                            Intersection::Overlap(_) => return Ok(true),
+                        };
                         if (point.is_ulps_eq(
                             l0.1.start,
                             T::Scalar::default_epsilon(),
-- 
2.43.0


From 1b7083f50df811150baac0a93a3de413f47f3e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:48 +0000
Subject: [PATCH 14/39] fix: is_self_intersecting() did not detect identical
 edges in longer linestrings

---
 src/linestring_2d.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/linestring_2d.rs b/src/linestring_2d.rs
index 93349a0..a95f2bb 100644
--- a/src/linestring_2d.rs
+++ b/src/linestring_2d.rs
@@ -745,7 +745,20 @@ impl<T: GenericVector2> LineString2<T> for Vec<T> {
                 .with_stop_at_first_intersection(true)?
                 .with_lines(self.window_iter())?
                 .compute()?;
-            Ok(result.len() > 0)
+            if result.len() > 0 {
+                return Ok(true);
+            }
+            // Identical edges only meet at their end points as far as the sweep-line algorithm is
+            // concerned, so they have to be detected here.
+            let as_array = |p: T| [p.x(), p.y()];
+            let mut edges: Vec<_> = self
+                .window_iter()
+                .map(|l| (as_array(l.start), as_array(l.end)))
+                .filter(|(a, b)| a != b)
+                .map(|(a, b)| if b < a { (b, a) } else { (a, b) })
+                .collect();
+            edges.sort_unstable_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
+            Ok(edges.windows(2).any(|e| e[0] == e[1]))
         }
     }
 
-- 
2.43.0


From cc74a8abad80d28d0080a39faca61ed60a27c868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:31 +0000
Subject: [PATCH 15/39] fix: indexed_simplify_rdp() tested the number of
 vertices instead of the number of indices

Short index lists panicked, or got a duplicated point, and lists referring to
one or two vertices were never simplified.
---
 src/linestring_2d/simplify.rs | 2 +-
 src/linestring_3d/simplify.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/linestring_2d/simplify.rs b/src/linestring_2d/simplify.rs
index 8414624..b8386dc 100644
--- a/src/linestring_2d/simplify.rs
+++ b/src/linestring_2d/simplify.rs
@@ -133,7 +133,7 @@ pub fn indexed_simplify_rdp<T: GenericVector2>(
     indices: &[usize],
     distance_predicate: T::Scalar,
 ) -> Vec<usize> {
-    if vertices.len() <= 2 {
+    if indices.len() <= 2 {
         return indices.to_vec();
     }
 
diff --git a/src/linestring_3d/simplify.rs b/src/linestring_3d/simplify.rs
index a3a6a93..687602a 100644
--- a/src/linestring_3d/simplify.rs
+++ b/src/linestring_3d/simplify.rs
@@ -237,7 +237,7 @@ pub fn indexed_simplify_rdp<T: GenericVector3>(
     indices: &[usize],
     distance_predicate: T::Scalar,
 ) -> Vec<usize> {
-    if vertices.len() <= 2 {
+    if indices.len() <= 2 {
         return indices.to_vec();
     }
 
-- 
2.43.0


From 3452dfbd8245fe8e660e1501dab7b57248c6f445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:56 +0000
Subject: [PATCH 16/39] fix: simplify_vw() opened connected linestrings

The closing point always had a triangle area of zero, so it was the first point to be deleted.
---
 src/linestring_2d/simplify.rs | 52 ++++++++++++-----------------------
 1 file changed, 18 insertions(+), 34 deletions(-)

diff --git a/src/linestring_2d/simplify.rs b/src/linestring_2d/simplify.rs
index b8386dc..cc4f5b1 100644
--- a/src/linestring_2d/simplify.rs
+++ b/src/linestring_2d/simplify.rs
@@ -244,24 +244,17 @@ pub(super) fn simplify_vw<T: GenericVector2>(line: &Vec<T>, points_to_delete: us
             let _ = link_tree.insert(j.0, (i.0, k.0, area));
         }
     }
-    if connected {
-        // add an extra point at the end, faking the loop
-        let i = line.len() - 2;
-        let j = line.len() - 1;
-        let k = line.len();
-        let area = Line2::triangle_area_squared_times_4(line[i], line[j], line[0]);
-        search_tree.push(PriorityDistance {
-            key: area,
-            index: j,
-        });
-        let _ = link_tree.insert(j, (i, k, area));
-    }
+    // The end points are never deleted: a connected line should remain connected
+    let minimum_remaining = if connected { 1 } else { 2 };
 
     let line_points_len = line.len();
 
     let mut deleted_nodes: usize = 0;
     loop {
-        if search_tree.is_empty() || link_tree.len() == 2 || deleted_nodes >= points_to_delete {
+        if search_tree.is_empty()
+            || link_tree.len() == minimum_remaining
+            || deleted_nodes >= points_to_delete
+        {
             break;
         }
 
@@ -346,25 +339,16 @@ pub(super) fn simplify_vw<T: GenericVector2>(line: &Vec<T>, points_to_delete: us
 
     // Todo: we *know* the order of the points, remove sorted_unstable()
     // we just don't know the first non-deleted point after start :/
-    if !connected {
-        [0_usize]
-            .iter()
-            .copied()
-            .chain(
-                link_tree
-                    .keys()
-                    .sorted_unstable()
-                    .copied()
-                    .chain([line.len() - 1].iter().copied()),
-            )
-            .map(|x| line[x])
-            .collect()
-    } else {
-        [0_usize]
-            .iter()
-            .copied()
-            .chain(link_tree.keys().sorted_unstable().copied())
-            .map(|x| line[x])
-            .collect()
-    }
+    [0_usize]
+        .iter()
+        .copied()
+        .chain(
+            link_tree
+                .keys()
+                .sorted_unstable()
+                .copied()
+                .chain([line.len() - 1].iter().copied()),
+        )
+        .map(|x| line[x])
+        .collect()
 }
-- 
2.43.0


From 9ea8b514a31a6a5f8f2c8b4889c3425260136112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:34 +0000
Subject: [PATCH 17/39] fix: discretize() dropped vertices in front of segments
 much shorter than the distance

---
 src/linestring_2d.rs | 5 ++++-
 src/linestring_3d.rs | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/linestring_2d.rs b/src/linestring_2d.rs
index a95f2bb..e84c9f6 100644
--- a/src/linestring_2d.rs
+++ b/src/linestring_2d.rs
@@ -1599,7 +1599,10 @@ impl<'a, T: GenericVector2> DiscreteLineSegmentIterator<'a, T> {
         let direction = end_point - start_point;
         let segment_length = direction.magnitude();
         if segment_length > T::Scalar::ZERO {
-            let num_substeps = (segment_length / self.distance).ceil();
+            // even the shortest, or a comparatively short, segment contributes its start point
+            let num_substeps = (segment_length / self.distance)
+                .ceil()
+                .max(T::Scalar::ONE);
             self.num_substeps = num_substeps.as_();
             self.step = direction / num_substeps;
         } else {
diff --git a/src/linestring_3d.rs b/src/linestring_3d.rs
index d4d2028..57049f0 100644
--- a/src/linestring_3d.rs
+++ b/src/linestring_3d.rs
@@ -728,7 +728,10 @@ impl<'a, T: GenericVector3> DiscreteLineSegmentIterator<'a, T> {
         let direction = end_point - start_point;
         let segment_length = direction.magnitude();
         if segment_length > T::Scalar::ZERO {
-            let num_substeps = (segment_length / self.distance).ceil();
+            // even the shortest, or a comparatively short, segment contributes its start point
+            let num_substeps = (segment_length / self.distance)
+                .ceil()
+                .max(T::Scalar::ONE);
             self.num_substeps = num_substeps.as_();
             self.step = direction / num_substeps;
         } else {
-- 
2.43.0


From 933ddc0d0232ff89a8bf44b7cf77b752bcd87422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:36 +0000
Subject: [PATCH 18/39] fix: discretization of a parabolic arc without extent
 did not terminate

---
 src/linestring_2d.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/linestring_2d.rs b/src/linestring_2d.rs
index e84c9f6..e333702 100644
--- a/src/linestring_2d.rs
+++ b/src/linestring_2d.rs
@@ -456,7 +456,10 @@ impl<T: GenericVector2> VoronoiParabolicArc<T> {
                 dist = dist * dist
                     / ((new_y - cur_y) * (new_y - cur_y) + (new_x - cur_x) * (new_x - cur_x));
             }
-            if dist <= max_dist_transformed {
+            // (nothing can be split when no new point is found between the two, e.g. for arcs
+            // without extent)
+            let can_split = (cur_x < mid_x && mid_x < new_x) || (new_x < mid_x && mid_x < cur_x);
+            if dist <= max_dist_transformed || !can_split {
                 // Distance between parabola and line segment is less than max_dist.
                 let _ = point_stack.pop();
                 let inter_x = (segm_vec_x * new_x - segm_vec_y * new_y) / sqr_segment_length
@@ -570,7 +573,10 @@ impl<T: GenericVector2> VoronoiParabolicArc<T> {
                 dist = dist * dist
                     / ((new_y - cur_y) * (new_y - cur_y) + (new_x - cur_x) * (new_x - cur_x));
             }
-            if dist <= max_dist_transformed {
+            // (nothing can be split when no new point is found between the two, e.g. for arcs
+            // without extent)
+            let can_split = (cur_x < mid_x && mid_x < new_x) || (new_x < mid_x && mid_x < cur_x);
+            if dist <= max_dist_transformed || !can_split {
                 // Distance between parabola and line segment is less than max_dist.
                 let _ = point_stack.pop();
                 let inter_x = (segm_vec_x * new_x - segm_vec_y * new_y) / sqr_segment_length
-- 
2.43.0


From 748f8650261249daa2e829bab0e33618938b0a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:37 +0000
Subject: [PATCH 19/39] fix: Aabb apply() left the limits exchanged when the
 operation reversed their order

---
 src/linestring_2d.rs | 5 +++--
 src/linestring_3d.rs | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/linestring_2d.rs b/src/linestring_2d.rs
index e333702..cc18fc6 100644
--- a/src/linestring_2d.rs
+++ b/src/linestring_2d.rs
@@ -1335,8 +1335,9 @@ impl<T: HasXY> Aabb2<T> {
     where
         F: Fn(T) -> T,
     {
-        if let Some(ref mut min_max) = self.min_max {
-            self.min_max = Some((f(min_max.0), f(min_max.1)))
+        if let Some((low, high)) = self.min_max {
+            // the operation may exchange the lower and the upper limits
+            *self = Self::with_points(&[f(low), f(high)]);
         }
     }
 }
diff --git a/src/linestring_3d.rs b/src/linestring_3d.rs
index 57049f0..cb20e56 100644
--- a/src/linestring_3d.rs
+++ b/src/linestring_3d.rs
@@ -286,8 +286,9 @@ impl<T: GenericVector3> Aabb3<T> {
 
     /// Apply an operation over each coordinate.
     pub fn apply<F: Fn(T) -> T>(&mut self, f: &F) {
-        if let Some(ref mut min_max) = self.min_max {
-            self.min_max = Some((f(min_max.0), f(min_max.1)))
+        if let Some((low, high)) = self.min_max {
+            // the operation may exchange the lower and the upper limits
+            *self = Self::with_points(&[f(low), f(high)]);
         }
     }
 
-- 
2.43.0


From 46cd25d6205f9ac17789fbe7811b5d14d1e532c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:39 +0000
Subject: [PATCH 20/39] fix: the size hint of WindowIterator was not exact, as
 required by ExactSizeIterator

---
 src/linestring_2d/impls.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/linestring_2d/impls.rs b/src/linestring_2d/impls.rs
index b451748..ea1dbb4 100644
--- a/src/linestring_2d/impls.rs
+++ b/src/linestring_2d/impls.rs
@@ -161,6 +161,11 @@ impl<'a, T: GenericVector2> Iterator for WindowIterator<'a, T> {
             end: window[1],
         })
     }
+
+    // required to be exact by ExactSizeIterator
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.0.size_hint()
+    }
 }
 
 impl<'a, T: GenericVector2> Iterator for ChunkIterator<'a, T> {
-- 
2.43.0


From d747e9053dc7fa5bb07cd095cb7e8da10bf1d117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:51 +0000
Subject: [PATCH 21/39] fix: approximate equality of Line2 depended on the
 direction for tolerances as large as the line

---
 src/linestring_2d.rs       |  4 +---
 src/linestring_2d/impls.rs | 26 ++++++++++----------------
 src/linestring_3d.rs       |  4 +---
 3 files changed, 12 insertions(+), 22 deletions(-)

diff --git a/src/linestring_2d.rs b/src/linestring_2d.rs
index cc18fc6..c753b92 100644
--- a/src/linestring_2d.rs
+++ b/src/linestring_2d.rs
@@ -1607,9 +1607,7 @@ impl<'a, T: GenericVector2> DiscreteLineSegmentIterator<'a, T> {
         let segment_length = direction.magnitude();
         if segment_length > T::Scalar::ZERO {
             // even the shortest, or a comparatively short, segment contributes its start point
-            let num_substeps = (segment_length / self.distance)
-                .ceil()
-                .max(T::Scalar::ONE);
+            let num_substeps = (segment_length / self.distance).ceil().max(T::Scalar::ONE);
             self.num_substeps = num_substeps.as_();
             self.step = direction / num_substeps;
         } else {
diff --git a/src/linestring_2d/impls.rs b/src/linestring_2d/impls.rs
index ea1dbb4..8744121 100644
--- a/src/linestring_2d/impls.rs
+++ b/src/linestring_2d/impls.rs
@@ -206,17 +206,14 @@ impl<T: GenericVector2> AbsDiffEq for Line2<T> {
     }
 
     fn abs_diff_eq(&self, other: &Self, epsilon: Self::Epsilon) -> bool {
-        if T::Scalar::abs_diff_eq(&self.start.x(), &other.start.x(), epsilon)
+        (T::Scalar::abs_diff_eq(&self.start.x(), &other.start.x(), epsilon)
             && T::Scalar::abs_diff_eq(&self.start.y(), &other.start.y(), epsilon)
-        {
-            T::Scalar::abs_diff_eq(&self.end.x(), &other.end.x(), epsilon)
-                && T::Scalar::abs_diff_eq(&self.end.y(), &other.end.y(), epsilon)
-        } else {
-            T::Scalar::abs_diff_eq(&self.start.x(), &other.end.x(), epsilon)
+            && T::Scalar::abs_diff_eq(&self.end.x(), &other.end.x(), epsilon)
+            && T::Scalar::abs_diff_eq(&self.end.y(), &other.end.y(), epsilon))
+            || (T::Scalar::abs_diff_eq(&self.start.x(), &other.end.x(), epsilon)
                 && T::Scalar::abs_diff_eq(&self.start.y(), &other.end.y(), epsilon)
                 && T::Scalar::abs_diff_eq(&self.end.x(), &other.start.x(), epsilon)
-                && T::Scalar::abs_diff_eq(&self.end.y(), &other.start.y(), epsilon)
-        }
+                && T::Scalar::abs_diff_eq(&self.end.y(), &other.start.y(), epsilon))
     }
 }
 
@@ -226,17 +223,14 @@ impl<T: GenericVector2> UlpsEq for Line2<T> {
     }
 
     fn ulps_eq(&self, other: &Self, epsilon: Self::Epsilon, max_ulps: u32) -> bool {
-        if T::Scalar::ulps_eq(&self.start.x(), &other.start.x(), epsilon, max_ulps)
+        (T::Scalar::ulps_eq(&self.start.x(), &other.start.x(), epsilon, max_ulps)
             && T::Scalar::ulps_eq(&self.start.y(), &other.start.y(), epsilon, max_ulps)
-        {
-            T::Scalar::ulps_eq(&self.end.x(), &other.end.x(), epsilon, max_ulps)
-                && T::Scalar::ulps_eq(&self.end.y(), &other.end.y(), epsilon, max_ulps)
-        } else {
-            T::Scalar::ulps_eq(&self.start.x(), &other.end.x(), epsilon, max_ulps)
+            && T::Scalar::ulps_eq(&self.end.x(), &other.end.x(), epsilon, max_ulps)
+            && T::Scalar::ulps_eq(&self.end.y(), &other.end.y(), epsilon, max_ulps))
+            || (T::Scalar::ulps_eq(&self.start.x(), &other.end.x(), epsilon, max_ulps)
                 && T::Scalar::ulps_eq(&self.start.y(), &other.end.y(), epsilon, max_ulps)
                 && T::Scalar::ulps_eq(&self.end.x(), &other.start.x(), epsilon, max_ulps)
-                && T::Scalar::ulps_eq(&self.end.y(), &other.start.y(), epsilon, max_ulps)
-        }
+                && T::Scalar::ulps_eq(&self.end.y(), &other.start.y(), epsilon, max_ulps))
     }
 }
 
diff --git a/src/linestring_3d.rs b/src/linestring_3d.rs
index cb20e56..57c1091 100644
--- a/src/linestring_3d.rs
+++ b/src/linestring_3d.rs
@@ -730,9 +730,7 @@ impl<'a, T: GenericVector3> DiscreteLineSegmentIterator<'a, T> {
         let segment_length = direction.magnitude();
         if segment_length > T::Scalar::ZERO {
             // even the shortest, or a comparatively short, segment contributes its start point
-            let num_substeps = (segment_length / self.distance)
-                .ceil()
-                .max(T::Scalar::ONE);
+            let num_substeps = (segment_length / self.distance).ceil().max(T::Scalar::ONE);
             self.num_substeps = num_substeps.as_();
             self.step = direction / num_substeps;
         } else {
-- 
2.43.0


From 4a317cfbeaf317dd4a63f21d5929c845a16320e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:13 +0000
Subject: [PATCH 22/39] fix: convex hull functions did not report infinite and
 most NaN vertex components

---
 src/linestring_2d/convex_hull.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/linestring_2d/convex_hull.rs b/src/linestring_2d/convex_hull.rs
index 1b24c09..39fa8d2 100644
--- a/src/linestring_2d/convex_hull.rs
+++ b/src/linestring_2d/convex_hull.rs
@@ -48,7 +48,11 @@ use crate::{linestring_2d::LineString2, LinestringError};
 use itertools::Itertools;
 use rayon::prelude::*;
 use std::cmp::Ordering;
-use vector_traits::{approx::ulps_eq, num_traits::real::Real, GenericScalar, GenericVector2};
+use vector_traits::{
+    approx::ulps_eq,
+    num_traits::{float::FloatCore, real::Real},
+    GenericScalar, GenericVector2,
+};
 
 #[derive(PartialEq, Clone, Copy)]
 pub enum Orientation {
@@ -69,6 +73,20 @@ impl Orientation {
     }
 }
 
+/// returns an error if any vertex component is NaN or infinite
+fn check_finite<'a, T: GenericVector2 + 'a>(
+    mut vertices: impl Iterator<Item = &'a T>,
+) -> Result<(), LinestringError> {
+    match vertices.find(|p| !FloatCore::is_finite(p.x()) || !FloatCore::is_finite(p.y())) {
+        Some(p) => Err(LinestringError::InvalidData(format!(
+            "The point ({},{}) is not finite",
+            p.x(),
+            p.y()
+        ))),
+        None => Ok(()),
+    }
+}
+
 /// finds the point with lowest x, if x is equal -> find the point with lowest y value
 fn find_lowest_x<T: GenericVector2>(vertices: &[T]) -> Result<(usize, T), LinestringError> {
     if vertices.is_empty() {
@@ -76,6 +94,7 @@ fn find_lowest_x<T: GenericVector2>(vertices: &[T]) -> Result<(usize, T), Linest
             "No points to compare".to_string(),
         ));
     }
+    check_finite(vertices.iter())?;
 
     let mut min_idx = 0;
     let mut min_val = vertices[0];
@@ -123,6 +142,7 @@ fn indexed_find_lowest_x<T: GenericVector2>(
             "No points to compare".to_string(),
         ));
     }
+    check_finite(indices.iter().map(|index| &vertices[*index]))?;
 
     let mut min_idx_idx = 0;
     let mut min_val = vertices[indices[min_idx_idx]];
-- 
2.43.0


From e2286684a5b60a06bc41c3be694b0c1015f9c187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:18 +0000
Subject: [PATCH 23/39] fix: lines added by a second call of with_lines() or
 with_edges() got the indices of the first ones

---
 src/linestring_2d/indexed_intersection.rs | 4 +++-
 src/linestring_2d/intersection.rs         | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/linestring_2d/indexed_intersection.rs b/src/linestring_2d/indexed_intersection.rs
index cf6f3b3..80fe40b 100644
--- a/src/linestring_2d/indexed_intersection.rs
+++ b/src/linestring_2d/indexed_intersection.rs
@@ -510,7 +510,7 @@ impl<T: GenericVector2> IntersectionTester<T> {
             LinestringError::InternalError("with_lines() could not take 'site_events'".to_string())
         })?;
 
-        for (index, aline) in input_iter.into_iter().enumerate() {
+        for aline in input_iter {
             let mut start_index = aline.0;
             let mut start = self.vertices[start_index];
             let mut end_index = aline.1;
@@ -540,6 +540,8 @@ impl<T: GenericVector2> IntersectionTester<T> {
                 std::mem::swap(&mut start, &mut end);
             };
 
+            // lines may already have been added by an earlier call
+            let index = self.lines.len();
             self.lines.push(*aline);
 
             let key_start = SiteEventKey {
diff --git a/src/linestring_2d/intersection.rs b/src/linestring_2d/intersection.rs
index 0fc2115..c24a496 100644
--- a/src/linestring_2d/intersection.rs
+++ b/src/linestring_2d/intersection.rs
@@ -460,7 +460,7 @@ impl<T: GenericVector2> IntersectionData<T> {
             LinestringError::InternalError("with_lines() could not take 'site_events'".to_string())
         })?;
 
-        for (index, mut aline) in input_iter.enumerate() {
+        for mut aline in input_iter {
             if !(aline.start.x().is_finite()
                 && aline.start.y().is_finite()
                 && aline.end.x().is_finite()
@@ -477,6 +477,8 @@ impl<T: GenericVector2> IntersectionData<T> {
                 std::mem::swap(&mut aline.start, &mut aline.end);
             };
 
+            // lines may already have been added by an earlier call
+            let index = self.lines.len();
             self.lines.push(aline);
 
             let key_start = SiteEventKey::new(aline.start);
-- 
2.43.0


From 6eababf65d8c072b07b1124872faa1ae479724df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:42 +0000
Subject: [PATCH 24/39] fix: results of the sweep-line algorithms depended on a
 random hash state

---
 src/linestring_2d/indexed_intersection.rs | 14 ++++++++++----
 src/linestring_2d/intersection.rs         | 12 ++++++++----
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/linestring_2d/indexed_intersection.rs b/src/linestring_2d/indexed_intersection.rs
index 80fe40b..371a03b 100644
--- a/src/linestring_2d/indexed_intersection.rs
+++ b/src/linestring_2d/indexed_intersection.rs
@@ -45,9 +45,14 @@ limitations under the License.
 mod tests;
 
 use crate::{linestring_2d::Line2, LinestringError};
-use ahash::AHashSet;
 use smallvec::{smallvec, SmallVec};
-use std::{cmp::Ordering, collections::BTreeMap, convert::identity, fmt, fmt::Debug};
+use std::{
+    cmp::Ordering,
+    collections::{BTreeMap, BTreeSet},
+    convert::identity,
+    fmt,
+    fmt::Debug,
+};
 use vector_traits::{approx::*, num_traits::float::FloatCore, GenericScalar, GenericVector2};
 
 #[derive(Clone, Copy)]
@@ -642,7 +647,8 @@ impl<T: GenericVector2> IntersectionTester<T> {
                 "compute() could not take ownership of 'site_events'".to_string(),
             )
         })?;
-        let mut active_lines = AHashSet::<usize>::with_capacity(site_events.len());
+        // ordered, so that the result does not depend on a random hash state
+        let mut active_lines = BTreeSet::<usize>::new();
         // A list of intersection points and the line segments involved in each intersection
         let mut result: BTreeMap<SiteEventKey<T>, Vec<usize>> = BTreeMap::default();
         // The 'best' lines surrounding the event point but not directly connected to the point.
@@ -706,7 +712,7 @@ impl<T: GenericVector2> IntersectionTester<T> {
         &mut self,
         key: &SiteEventKey<T>,
         event: &SiteEvent,
-        active_lines: &mut AHashSet<usize>,
+        active_lines: &mut BTreeSet<usize>,
         neighbour_priority: &mut MinMax<T>,
         connected_priority: &mut MinMaxSlope<T>,
         site_events: &mut BTreeMap<SiteEventKey<T>, SiteEvent>,
diff --git a/src/linestring_2d/intersection.rs b/src/linestring_2d/intersection.rs
index c24a496..3dcf3dc 100644
--- a/src/linestring_2d/intersection.rs
+++ b/src/linestring_2d/intersection.rs
@@ -42,8 +42,11 @@ limitations under the License.
 */
 
 use crate::{linestring_2d, LinestringError};
-use ahash::AHashSet;
-use std::{cmp::Ordering, collections::BTreeMap, convert::identity};
+use std::{
+    cmp::Ordering,
+    collections::{BTreeMap, BTreeSet},
+    convert::identity,
+};
 use vector_traits::{
     approx,
     approx::{AbsDiffEq, UlpsEq},
@@ -565,7 +568,8 @@ impl<T: GenericVector2> IntersectionData<T> {
     ) -> Result<impl ExactSizeIterator<Item = (T, Vec<usize>)>, LinestringError> {
         // make the borrow checker happy by breaking the link between self and all the
         // containers and their iterators.
-        let mut active_lines = AHashSet::<usize>::default();
+        // ordered, so that the result does not depend on a random hash state
+        let mut active_lines = BTreeSet::<usize>::new();
         let mut site_events = self.site_events.take().ok_or_else(|| {
             LinestringError::InternalError("compute() could not take 'site_events'".to_string())
         })?;
@@ -627,7 +631,7 @@ impl<T: GenericVector2> IntersectionData<T> {
         &mut self,
         key: &SiteEventKey<T>,
         event: &SiteEvent,
-        active_lines: &mut AHashSet<usize>,
+        active_lines: &mut BTreeSet<usize>,
         neighbour_priority: &mut MinMax<T>,
         connected_priority: &mut MinMaxSlope<T>,
         site_events: &mut BTreeMap<SiteEventKey<T>, SiteEvent>,
-- 
2.43.0


From 592330f50c354eba97482d25cc2c76a270ba7b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:15 +0000
Subject: [PATCH 25/39] fix: intersection_point() of nearly coincident lines
 could return an overlap outside one of the lines

---
 src/linestring_2d.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/linestring_2d.rs b/src/linestring_2d.rs
index c753b92..7a0ff4b 100644
--- a/src/linestring_2d.rs
+++ b/src/linestring_2d.rs
@@ -273,7 +273,8 @@ impl<T: GenericVector2> Line2<T> {
                 p = self.end;
                 r = -r;
             }
-            if Self::precedes(other.start, other.end) {
+            // (both lines must point in the same direction, whatever the rounding of x)
+            if s.dot(r) < T::Scalar::ZERO {
                 q = other.end;
                 s = -s;
             }
-- 
2.43.0


From 65f0e263fdae5ba8a649173af0420c82e8bba575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:48 +0000
Subject: [PATCH 26/39] fix: simplify_rdp() could overflow the stack

The recursion of the Ramer-Douglas-Peucker simplification was as deep as the
number of points for line strings like a damped zigzag: the remaining sections
are kept in a vector instead.
---
 src/linestring_2d/simplify.rs | 51 +++++++++++++++++++++++++----------
 src/linestring_3d/simplify.rs | 51 +++++++++++++++++++++++++----------
 2 files changed, 74 insertions(+), 28 deletions(-)

diff --git a/src/linestring_2d/simplify.rs b/src/linestring_2d/simplify.rs
index cc4f5b1..bf3dbf7 100644
--- a/src/linestring_2d/simplify.rs
+++ b/src/linestring_2d/simplify.rs
@@ -51,6 +51,20 @@ pub(super) fn simplify_rdp_recursive<T: GenericVector2>(
     rv: &mut Vec<T>,
     points: &[T],
     distance_predicate_sq: T::Scalar,
+) {
+    // The sections that remain to be simplified, the next one last.
+    // (real recursion can be as deep as the number of points, and overflow the stack)
+    let mut sections = vec![points];
+    while let Some(points) = sections.pop() {
+        simplify_rdp_section(rv, &mut sections, points, distance_predicate_sq);
+    }
+}
+
+fn simplify_rdp_section<'a, T: GenericVector2>(
+    rv: &mut Vec<T>,
+    sections: &mut Vec<&'a [T]>,
+    points: &'a [T],
+    distance_predicate_sq: T::Scalar,
 ) {
     if points.len() <= 2 {
         rv.push(*points.last().unwrap());
@@ -81,8 +95,8 @@ pub(super) fn simplify_rdp_recursive<T: GenericVector2>(
     if max_dist_sq <= distance_predicate_sq {
         rv.push(end_point);
     } else {
-        simplify_rdp_recursive(rv, &points[..index + 1], distance_predicate_sq);
-        simplify_rdp_recursive(rv, &points[index..], distance_predicate_sq);
+        sections.push(&points[index..]);
+        sections.push(&points[..index + 1]);
     }
 }
 
@@ -156,6 +170,25 @@ fn indexed_simplify_rdp_recursive<T: GenericVector2>(
     vertices: &[T],
     indices: &[usize],
     distance_predicate_sq: T::Scalar,
+) {
+    let mut sections = vec![indices];
+    while let Some(indices) = sections.pop() {
+        indexed_simplify_rdp_section(
+            simplified_indices,
+            &mut sections,
+            vertices,
+            indices,
+            distance_predicate_sq,
+        );
+    }
+}
+
+fn indexed_simplify_rdp_section<'a, T: GenericVector2>(
+    simplified_indices: &mut Vec<usize>,
+    sections: &mut Vec<&'a [usize]>,
+    vertices: &[T],
+    indices: &'a [usize],
+    distance_predicate_sq: T::Scalar,
 ) {
     //println!(">indices:{:?} len:{}", indices, indices.len());
     if indices.len() <= 2 {
@@ -192,18 +225,8 @@ fn indexed_simplify_rdp_recursive<T: GenericVector2>(
     if max_dist_sq <= distance_predicate_sq {
         simplified_indices.push(end_index);
     } else {
-        indexed_simplify_rdp_recursive(
-            simplified_indices,
-            vertices,
-            &indices[..=index_index],
-            distance_predicate_sq,
-        );
-        indexed_simplify_rdp_recursive(
-            simplified_indices,
-            vertices,
-            &indices[index_index..],
-            distance_predicate_sq,
-        );
+        sections.push(&indices[index_index..]);
+        sections.push(&indices[..=index_index]);
     }
     //println!("<");
 }
diff --git a/src/linestring_3d/simplify.rs b/src/linestring_3d/simplify.rs
index 687602a..7af58c5 100644
--- a/src/linestring_3d/simplify.rs
+++ b/src/linestring_3d/simplify.rs
@@ -21,6 +21,20 @@ fn simplify_rdp_recursive<T: GenericVector3>(
     rv: &mut Vec<T>,
     points: &[T],
     distance_predicate_sq: T::Scalar,
+) {
+    // The sections that remain to be simplified, the next one last.
+    // (real recursion can be as deep as the number of points, and overflow the stack)
+    let mut sections = vec![points];
+    while let Some(points) = sections.pop() {
+        simplify_rdp_section(rv, &mut sections, points, distance_predicate_sq);
+    }
+}
+
+fn simplify_rdp_section<'a, T: GenericVector3>(
+    rv: &mut Vec<T>,
+    sections: &mut Vec<&'a [T]>,
+    points: &'a [T],
+    distance_predicate_sq: T::Scalar,
 ) {
     if points.len() <= 2 {
         rv.push(*points.last().unwrap());
@@ -51,8 +65,8 @@ fn simplify_rdp_recursive<T: GenericVector3>(
     if max_dist_sq <= distance_predicate_sq {
         rv.push(end_point);
     } else {
-        simplify_rdp_recursive(rv, &points[..index + 1], distance_predicate_sq);
-        simplify_rdp_recursive(rv, &points[index..], distance_predicate_sq);
+        sections.push(&points[index..]);
+        sections.push(&points[..index + 1]);
     }
 }
 
@@ -261,6 +275,25 @@ fn indexed_simplify_rdp_recursive<T: GenericVector3>(
     vertices: &[T],
     indices: &[usize],
     distance_predicate_sq: T::Scalar,
+) {
+    let mut sections = vec![indices];
+    while let Some(indices) = sections.pop() {
+        indexed_simplify_rdp_section(
+            simplified_indices,
+            &mut sections,
+            vertices,
+            indices,
+            distance_predicate_sq,
+        );
+    }
+}
+
+fn indexed_simplify_rdp_section<'a, T: GenericVector3>(
+    simplified_indices: &mut Vec<usize>,
+    sections: &mut Vec<&'a [usize]>,
+    vertices: &[T],
+    indices: &'a [usize],
+    distance_predicate_sq: T::Scalar,
 ) {
     //println!(">indices:{:?} len:{}", indices, indices.len());
     if indices.len() <= 2 {
@@ -297,18 +330,8 @@ fn indexed_simplify_rdp_recursive<T: GenericVector3>(
     if max_dist_sq <= distance_predicate_sq {
         simplified_indices.push(end_index);
     } else {
-        indexed_simplify_rdp_recursive(
-            simplified_indices,
-            vertices,
-            &indices[..=index_index],
-            distance_predicate_sq,
-        );
-        indexed_simplify_rdp_recursive(
-            simplified_indices,
-            vertices,
-            &indices[index_index..],
-            distance_predicate_sq,
-        );
+        sections.push(&indices[index_index..]);
+        sections.push(&indices[..=index_index]);
     }
     //println!("<");
 }
-- 
2.43.0


From 4a8bed8bfcc7c29a1e40676ca51d0eb7e252bed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:01 +0000
Subject: [PATCH 27/39] fix: the sweep-line algorithms took a line of zero
 length for one through every later point

---
 src/linestring_2d/indexed_intersection.rs | 25 ++++++++++++++++++++---
 src/linestring_2d/intersection.rs         | 21 ++++++++++++++++---
 2 files changed, 40 insertions(+), 6 deletions(-)

diff --git a/src/linestring_2d/indexed_intersection.rs b/src/linestring_2d/indexed_intersection.rs
index 371a03b..250ff1c 100644
--- a/src/linestring_2d/indexed_intersection.rs
+++ b/src/linestring_2d/indexed_intersection.rs
@@ -582,6 +582,17 @@ impl<T: GenericVector2> IntersectionTester<T> {
         Ok(self)
     }
 
+    /// Returns true if the line starts and ends at the same position
+    #[inline(always)]
+    fn is_zero_length(&self, line_index: usize) -> bool {
+        let line = self.lines[line_index];
+        self.vertices[line.0].is_ulps_eq(
+            self.vertices[line.1],
+            T::Scalar::default_epsilon(),
+            T::Scalar::default_max_ulps(),
+        )
+    }
+
     ///
     /// Add a new intersection event to the event queue
     ///
@@ -722,7 +733,15 @@ impl<T: GenericVector2> IntersectionTester<T> {
         self.sweepline_pos_index = key.index;
 
         let removed_active_lines = event.drop.iter().flatten().count();
-        let added_active_lines = event.add.iter().flatten().count();
+        // zero length lines start and end at this point, they never become active
+        let added_lines: Vec<usize> = event
+            .add
+            .iter()
+            .flatten()
+            .copied()
+            .filter(|l| !self.is_zero_length(*l))
+            .collect();
+        let added_active_lines = added_lines.len();
         // remove 'drop' lines from the active lines
         for line_index in event.drop.iter().flatten() {
             let _ = active_lines.remove(line_index);
@@ -830,7 +849,7 @@ impl<T: GenericVector2> IntersectionTester<T> {
         }
 
         // add the newly found lines
-        for l in event.add.iter().flatten() {
+        for l in added_lines.iter() {
             let _ = active_lines.insert(*l);
         }
 
@@ -847,7 +866,7 @@ impl<T: GenericVector2> IntersectionTester<T> {
             }
         } else {
             connected_priority.clear();
-            for l in event.add.iter().flatten() {
+            for l in added_lines.iter() {
                 connected_priority.update_both(&self.vertices, *l, &self.lines);
             }
             for l in intersections.iter() {
diff --git a/src/linestring_2d/intersection.rs b/src/linestring_2d/intersection.rs
index 3dcf3dc..8781ea4 100644
--- a/src/linestring_2d/intersection.rs
+++ b/src/linestring_2d/intersection.rs
@@ -511,6 +511,13 @@ impl<T: GenericVector2> IntersectionData<T> {
         Ok(self)
     }
 
+    /// Returns true if the line starts and ends at the same position
+    #[inline(always)]
+    fn is_zero_length(&self, line_index: usize) -> bool {
+        let line = self.lines[line_index];
+        SiteEventKey::new(line.start) == SiteEventKey::new(line.end)
+    }
+
     #[inline]
     ///
     /// Add a new intersection event to the event queue
@@ -640,7 +647,15 @@ impl<T: GenericVector2> IntersectionData<T> {
         self.sweepline_pos = key.pos;
 
         let removed_active_lines = event.drop.iter().flatten().count();
-        let added_active_lines = event.add.iter().flatten().count();
+        // zero length lines start and end at this point, they never become active
+        let added_lines: Vec<usize> = event
+            .add
+            .iter()
+            .flatten()
+            .copied()
+            .filter(|l| !self.is_zero_length(*l))
+            .collect();
+        let added_active_lines = added_lines.len();
         // remove 'drop' lines from the active lines
         for line_index in event.drop.iter().flatten() {
             let _ = active_lines.remove(line_index);
@@ -735,7 +750,7 @@ impl<T: GenericVector2> IntersectionData<T> {
         }
 
         // add the newly found lines
-        for l in event.add.iter().flatten() {
+        for l in added_lines.iter() {
             let _ = active_lines.insert(*l);
         }
 
@@ -752,7 +767,7 @@ impl<T: GenericVector2> IntersectionData<T> {
             }
         } else {
             connected_priority.clear();
-            for l in event.add.iter().flatten() {
+            for l in added_lines.iter() {
                 connected_priority.update_both(*l, &self.lines);
             }
             for l in intersections.iter() {
-- 
2.43.0


From 8352527bd738541fea7c417d464b9f89f61ff4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:57 +0000
Subject: [PATCH 28/39] fix: convex_hull_par() picked one of several coincident
 vertices depending on the scheduling

---
 src/linestring_2d/convex_hull.rs | 38 +++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/src/linestring_2d/convex_hull.rs b/src/linestring_2d/convex_hull.rs
index 39fa8d2..26a75de 100644
--- a/src/linestring_2d/convex_hull.rs
+++ b/src/linestring_2d/convex_hull.rs
@@ -1020,6 +1020,30 @@ fn combine_indexed_convex_hull<T: GenericVector2>(
     Ok(hull)
 }
 
+/// Runs indexed_graham_scan in parallel on each chunk, and combines the partial hulls pair by pair.
+/// How they are paired must not depend on how the work is scheduled: the order decides which one
+/// of several vertices at the same position that ends up in the hull.
+fn indexed_hull_of_chunks<T: GenericVector2>(
+    vertices: &[T],
+    chunks: &[&[usize]],
+    start_index: usize,
+) -> Result<Vec<usize>, LinestringError> {
+    let (hull_a, hull_b) = if chunks.len() > 1 {
+        let (a, b) = chunks.split_at(chunks.len() / 2);
+        rayon::join(
+            || indexed_hull_of_chunks(vertices, a, start_index),
+            || indexed_hull_of_chunks(vertices, b, start_index),
+        )
+    } else {
+        (
+            Ok(vec![start_index]),
+            indexed_graham_scan_no_loop(vertices, chunks[0], None),
+        )
+    };
+    // Combine the partial convex hulls using indexed_convex_hull_combiner
+    combine_indexed_convex_hull(vertices, hull_a, hull_b)
+}
+
 /// Finds the convex hull using a parallel version of Graham's scan, similar to Chan's
 /// algorithm.
 /// [Graham's Scan](https://en.wikipedia.org/wiki/Graham_scan)
@@ -1102,19 +1126,7 @@ pub fn convex_hull_par<T: GenericVector2>(
     //println!("start_index:{}", start_index);
 
     // Run indexed_graham_scan in parallel on each chunk
-    let mut hull = chunks
-        .into_par_iter()
-        .map(|chunk| indexed_graham_scan_no_loop(vertices, chunk, None))
-        // Combine the partial convex hulls using indexed_convex_hull_combiner
-        .reduce(
-            || Ok(vec![start_index]),
-            |result, partial_hull| {
-                match result {
-                    Ok(indices) => combine_indexed_convex_hull(vertices, Ok(indices), partial_hull),
-                    Err(some_err) => Err(some_err), // Pass through error
-                }
-            },
-        )?;
+    let mut hull = indexed_hull_of_chunks(vertices, &chunks, start_index)?;
 
     // complete the loop, `hull` now represents a closed loop of points.
     // Each edge can be iterated over by `rv.points.iter().window(2)`
-- 
2.43.0


From 07f8f1e9a81a48d54cd6282468a515ce3d30951f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:10 +0000
Subject: [PATCH 29/39] fix: convex_hull_par() did not terminate for some
 almost collinear vertices

---
 src/linestring_2d/convex_hull.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/linestring_2d/convex_hull.rs b/src/linestring_2d/convex_hull.rs
index 26a75de..af4900c 100644
--- a/src/linestring_2d/convex_hull.rs
+++ b/src/linestring_2d/convex_hull.rs
@@ -875,6 +875,12 @@ fn combine_indexed_convex_hull<T: GenericVector2>(
             vertices[point_on_hull.index], point_on_hull
         );*/
 
+        if hull.len() > indices_a.len() + indices_b.len() {
+            // walking in circles: rounding errors made the orientation of almost collinear points
+            // inconsistent
+            let indices: Vec<usize> = indices_a.into_iter().chain(indices_b).collect();
+            return indexed_graham_scan_no_loop(vertices, &indices, Some(starting_index.index));
+        }
         hull.push(point_on_hull.index);
         if point_on_hull.index != starting_index.index {
             // don't mark the starting_point or we won't know where to stop
-- 
2.43.0


From 11ae0eb839d21da5b1f0036e3b503abe7400a7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:08 +0000
Subject: [PATCH 30/39] fix: Graham's scan returned a hull far from convex, or
 panicked, for some almost collinear points

---
 src/linestring_2d/convex_hull.rs | 192 ++++++++++---------------------
 1 file changed, 58 insertions(+), 134 deletions(-)

diff --git a/src/linestring_2d/convex_hull.rs b/src/linestring_2d/convex_hull.rs
index af4900c..e4357f4 100644
--- a/src/linestring_2d/convex_hull.rs
+++ b/src/linestring_2d/convex_hull.rs
@@ -45,14 +45,9 @@ mod impls;
 mod tests;
 
 use crate::{linestring_2d::LineString2, LinestringError};
-use itertools::Itertools;
 use rayon::prelude::*;
 use std::cmp::Ordering;
-use vector_traits::{
-    approx::ulps_eq,
-    num_traits::{float::FloatCore, real::Real},
-    GenericScalar, GenericVector2,
-};
+use vector_traits::{approx::ulps_eq, num_traits::float::FloatCore, GenericScalar, GenericVector2};
 
 #[derive(PartialEq, Clone, Copy)]
 pub enum Orientation {
@@ -536,50 +531,9 @@ pub fn graham_scan_wo_atan2<T: GenericVector2>(
         return Ok(input_points.to_vec());
     }
 
-    let mut input_points = input_points.to_vec();
+    check_finite(input_points.iter())?;
 
-    let starting_point = find_lowest_x(&input_points)?.1;
-
-    let comparator = |b: &T, c: &T| {
-        let ccr = cross_2d(starting_point, *b, *c);
-        match T::Scalar::ZERO.partial_cmp(&ccr) {
-            Some(Ordering::Greater) => Ordering::Greater, // CCR
-            Some(Ordering::Less) => Ordering::Less,       // CR
-            Some(Ordering::Equal) => {
-                // Collinear, pick the furthest node
-                let dist_sb = starting_point.distance_sq(*b);
-                let dist_sc = starting_point.distance_sq(*c);
-                dist_sb.partial_cmp(&dist_sc).unwrap_or(Ordering::Equal)
-            }
-            _ => panic!(),
-        }
-    };
-    // sort the input points so that the edges to the 'right' of starting_point goes first
-    input_points.sort_unstable_by(comparator);
-
-    let mut rv = Vec::with_capacity(input_points.len());
-    rv.push(starting_point);
-
-    for p in input_points.iter() {
-        while rv.len() > 1 {
-            let last = rv.len() - 1;
-            let cross = cross_2d(rv[last - 1], rv[last], *p);
-            if cross < T::Scalar::ZERO || ulps_eq!(cross, T::Scalar::ZERO) {
-                let _ = rv.pop();
-            } else {
-                break;
-            }
-        }
-        if rv.last().unwrap() != p {
-            rv.push(*p);
-        }
-    }
-
-    if !rv.is_connected() {
-        let first = rv.first().unwrap();
-        rv.push(*first)
-    };
-    Ok(rv)
+    Ok(scan_from_left_to_right(input_points.to_vec(), |p| *p))
 }
 
 /// finds the convex hull using Grahams scan
@@ -620,54 +574,57 @@ pub fn graham_scan<T: GenericVector2>(mut input_points: &[T]) -> Result<Vec<T>,
         return Ok(input_points.to_vec());
     }
 
-    let (_, starting_point) = find_lowest_x(input_points)?;
-    //let ref_dir = T::new(T::Scalar::ONE, T::Scalar::ZERO);
-    let mut input_points: Vec<(T, T::Scalar, T::Scalar)> = input_points
-        .iter()
-        .map(|&p| {
-            let diff = p - starting_point;
-            let angle = diff.y().atan2(diff.x());
-            let distance = starting_point.distance_sq(p);
-            (p, angle, distance)
-        })
-        .collect();
+    check_finite(input_points.iter())?;
+
+    // the result is a closed loop of points.
+    // Each edge can be iterated over by `rv.points.iter().window(2)`
+    Ok(scan_from_left_to_right(input_points.to_vec(), |p| *p))
+}
 
-    //println!("unsorted:{:?}", input_points);
-    input_points.sort_unstable_by(|a, b| {
-        a.1.partial_cmp(&b.1)
+/// Graham's scan with the points ordered by x and y, instead of by the angle to a starting point.
+/// First the lower side of the hull, from left to right, then the upper side back again:
+/// <https://en.wikipedia.org/wiki/Convex_hull_algorithms#Monotone_chain>
+/// Unlike the order of the angles this order isn't affected by rounding. Almost collinear points
+/// scanned in the wrong order could leave the hull far from convex.
+/// The list will be closed, i.e the first and last element will be the same.
+fn scan_from_left_to_right<T: GenericVector2, I: Copy>(
+    mut points: Vec<I>,
+    position: impl Fn(&I) -> T,
+) -> Vec<I> {
+    points.sort_by(|a, b| {
+        let (a, b) = (position(a), position(b));
+        a.x()
+            .partial_cmp(&b.x())
             .unwrap_or(Ordering::Equal)
-            .then_with(|| a.2.partial_cmp(&b.2).unwrap_or(Ordering::Equal))
+            .then_with(|| a.y().partial_cmp(&b.y()).unwrap_or(Ordering::Equal))
     });
-
-    //println!("starting_point:{:?}", starting_point);
-    //println!("sorted:{:?}", input_points);
-    let mut hull = Vec::<T>::with_capacity(input_points.len());
-    hull.push(starting_point);
-
-    for (p, _, _) in input_points.iter() {
-        if *p == starting_point {
-            continue;
-        }
-        while hull.len() > 1 {
-            let last = hull.len() - 1;
-            let cross = cross_2d(hull[last - 1], hull[last], *p);
-            if T::Scalar::ZERO > cross || ulps_eq!(cross, T::Scalar::ZERO) {
-                let _ = hull.pop();
-            } else {
-                break;
+    let mut hull = Vec::<I>::with_capacity(points.len());
+    for _side in 0..2 {
+        let first_of_side = hull.len().max(1);
+        for i in points.iter() {
+            let p = position(i);
+            if hull.last().map(&position) == Some(p) {
+                continue;
             }
+            while hull.len() > first_of_side {
+                let last = hull.len() - 1;
+                let cross = cross_2d(position(&hull[last - 1]), position(&hull[last]), p);
+                if T::Scalar::ZERO > cross || ulps_eq!(cross, T::Scalar::ZERO) {
+                    let _ = hull.pop();
+                } else {
+                    break;
+                }
+            }
+            hull.push(*i);
         }
-        //println!("pushing p:{:?}", p);
-        hull.push(*p);
+        points.reverse();
     }
-    //println!("result {:?}", rv);
-
-    // complete the loop, `hull` now represents a closed loop of points.
-    // Each edge can be iterated over by `rv.points.iter().window(2)`
     if hull.len() > 1 {
-        hull.push(*hull.first().unwrap());
+        // the starting point again, but maybe another one at the same position
+        let last = hull.len() - 1;
+        hull[last] = hull[0];
     }
-    Ok(hull)
+    hull
 }
 
 /// Finds the convex hull using [Graham's Scan](https://en.wikipedia.org/wiki/Graham_scan)
@@ -745,54 +702,21 @@ pub fn indexed_graham_scan_no_loop<T: GenericVector2>(
     if indices.len() <= 2 {
         return Ok(indices.to_vec());
     }
-    let (start_index, start_point) = if let Some(start_index) = start_index {
-        (start_index, vertices[start_index])
-    } else {
-        let (start_index_index, start_point) = indexed_find_lowest_x(vertices, indices)?;
-        (indices[start_index_index], start_point)
-    };
-    // sort all indices with regard to the angle to starting_point
-    let sorted_indices: Vec<usize> = indices
-        .iter()
-        .map(|i| {
-            let p = vertices[*i];
-            let diff = p - start_point;
-            let angle = diff.y().atan2(diff.x());
-            let distance = start_point.distance_sq(p);
-            (*i, angle, distance)
-        })
-        .sorted_unstable_by(|a, b| {
-            a.1.partial_cmp(&b.1)
-                .unwrap_or(Ordering::Equal)
-                .then_with(|| a.2.partial_cmp(&b.2).unwrap_or(Ordering::Equal))
-        })
-        .map(|a| a.0)
+    check_finite(indices.iter().map(|i| &vertices[*i]))?;
+    let indices: Vec<usize> = start_index
+        .into_iter()
+        .chain(indices.iter().copied())
         .collect();
-
-    let mut hull = Vec::<usize>::with_capacity(vertices.len());
-    hull.push(start_index);
-
-    for i in sorted_indices.iter() {
-        let p = vertices[*i];
-        if p == start_point {
-            continue;
-        }
-        while hull.len() > 1 {
-            let last_in_hull = hull.len() - 1;
-            let cross = cross_2d(
-                vertices[hull[last_in_hull - 1]],
-                vertices[hull[last_in_hull]],
-                p,
-            );
-            if T::Scalar::ZERO > cross || ulps_eq!(cross, T::Scalar::ZERO) {
-                let _ = hull.pop();
-            } else {
-                break;
-            }
+    let mut hull = scan_from_left_to_right(indices, |i| vertices[*i]);
+    if hull.len() > 1 {
+        // not a loop
+        let _ = hull.pop();
+    }
+    if let Some(start) = start_index {
+        if let Some(i) = hull.iter().position(|i| vertices[*i] == vertices[start]) {
+            hull.rotate_left(i);
         }
-        hull.push(*i);
     }
-
     Ok(hull)
 }
 
-- 
2.43.0


From 955d38d78ff423ca810ee06926250660c4b5b196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:21 +0000
Subject: [PATCH 31/39] fix: convex_hull_par() lost vertices of some almost
 collinear inputs when partial hulls were combined

---
 src/linestring_2d/convex_hull.rs       | 220 +------------------------
 src/linestring_2d/convex_hull/impls.rs |  55 -------
 2 files changed, 5 insertions(+), 270 deletions(-)
 delete mode 100644 src/linestring_2d/convex_hull/impls.rs

diff --git a/src/linestring_2d/convex_hull.rs b/src/linestring_2d/convex_hull.rs
index e4357f4..13d85a0 100644
--- a/src/linestring_2d/convex_hull.rs
+++ b/src/linestring_2d/convex_hull.rs
@@ -40,7 +40,6 @@ WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
 See the License for the specific language governing permissions and
 limitations under the License.
 */
-mod impls;
 #[cfg(test)]
 mod tests;
 
@@ -720,56 +719,13 @@ pub fn indexed_graham_scan_no_loop<T: GenericVector2>(
     Ok(hull)
 }
 
-/*
-/// Combines two convex hulls together as two point clouds using `indexed_gift_wrap_no_loop()`
-fn combine_indexed_convex_hull_lazy<T: GenericVector2>(
-    vertices: &[T],
-    indices_a: Result<Vec<usize>, LinestringError>,
-    indices_b: Result<Vec<usize>, LinestringError>,
-) -> Result<Vec<usize>, LinestringError> {
-    let mut indices_a = indices_a?;
-    let indices_b = indices_b?;
-
-    if indices_a.is_empty() {
-        return Ok(indices_b);
-    }
-    if indices_b.is_empty() {
-        return Ok(indices_a);
-    }
-
-    if indices_a.first().unwrap() == indices_b.first().unwrap() {
-        indices_a.extend(indices_b.iter().skip(1));
-    } else {
-        indices_a.extend(indices_b.iter());
-    }
-    indexed_graham_scan_no_loop(vertices, &indices_a, None)
-}*/
-
-/// a structure trying to keep track of from what list indices came from.
-#[derive(Clone)]
-struct VertexIndex {
-    /// `index_index` was from `indices_a` if true, else `indices_b`
-    from_a: bool,
-    /// the 'real' index into `vertices`
-    index: usize,
-    /// the index into `indices_a` or `indices_a`
-    index_index: usize,
-}
-
-/// Combines two convex hulls together using a modified gift wrapping algorithm.
-/// The algorithm goes like this.
-/// We keep track of from what list the start_point, point_on_hull and endpoint comes from.
-/// The algorithm is like gift-wrapping in that it keeps `point_on_hull` and `end_point` and iterates
-/// though a list of `j` candidates to try to find a better end-point.
-/// First it picks `end_point` to be from `ìndices_a`, then it iterates over `ìndices_b` trying to
-/// find a better `end_point`. All of the candidates must be examined: the best one can be located
-/// anywhere in the list, even after candidates that are worse than the first good one.
+/// Combines two convex hulls together as two point clouds using `indexed_graham_scan_no_loop()`
 fn combine_indexed_convex_hull<T: GenericVector2>(
     vertices: &[T],
     indices_a: Result<Vec<usize>, LinestringError>,
     indices_b: Result<Vec<usize>, LinestringError>,
 ) -> Result<Vec<usize>, LinestringError> {
-    let indices_a = indices_a?;
+    let mut indices_a = indices_a?;
     let indices_b = indices_b?;
 
     if indices_a.is_empty() {
@@ -779,175 +735,9 @@ fn combine_indexed_convex_hull<T: GenericVector2>(
         return Ok(indices_a);
     }
 
-    let starting_index = VertexIndex {
-        from_a: true,
-        index: indices_a[0],
-        index_index: 0,
-    };
-
-    let mut hull = Vec::with_capacity((indices_a.len() + indices_b.len()) / 4);
-    // To track visited points, it contain index, not index_index
-    //let mut visited = AHashSet::with_capacity(indices_a.len() + indices_b.len());
-    let mut point_on_hull = starting_index.clone();
-    /*println!(
-        "starting point {:?}:{:?}",
-        vertices[point_on_hull.index], point_on_hull
-    );*/
-    loop {
-        /*println!(
-            "loop: point_on_hull {:?}:{:?}",
-            vertices[point_on_hull.index], point_on_hull
-        );*/
-
-        if hull.len() > indices_a.len() + indices_b.len() {
-            // walking in circles: rounding errors made the orientation of almost collinear points
-            // inconsistent
-            let indices: Vec<usize> = indices_a.into_iter().chain(indices_b).collect();
-            return indexed_graham_scan_no_loop(vertices, &indices, Some(starting_index.index));
-        }
-        hull.push(point_on_hull.index);
-        if point_on_hull.index != starting_index.index {
-            // don't mark the starting_point or we won't know where to stop
-            //let _ = visited.insert(point_on_hull.index);
-        }
-        let mut end_point = {
-            if point_on_hull.from_a {
-                let index_index = (point_on_hull.index_index + 1) % indices_a.len();
-                let index = indices_a[index_index];
-                if index != point_on_hull.index {
-                    VertexIndex {
-                        from_a: true,
-                        index: indices_a[index_index],
-                        index_index,
-                    }
-                } else {
-                    // this is sus, this is just the first point from hull B
-                    VertexIndex {
-                        from_a: false,
-                        index: indices_b[0],
-                        index_index: 0,
-                    }
-                }
-            } else {
-                let index_index = (point_on_hull.index_index + 1) % indices_b.len();
-                let index = indices_b[index_index];
-                if index != point_on_hull.index {
-                    VertexIndex {
-                        from_a: false,
-                        index: indices_b[index_index],
-                        index_index,
-                    }
-                } else {
-                    // this is sus, this is just the first point from hull A
-                    VertexIndex {
-                        from_a: true,
-                        index: indices_a[0],
-                        index_index: 0,
-                    }
-                }
-            }
-        };
-        /*println!(
-            "loop: end_point  {:?}:{:?}",
-            vertices[end_point.index], end_point
-        );*/
-
-        if point_on_hull.from_a {
-            for (jj, j) in indices_b.iter().enumerate() {
-                let j = *j;
-
-                if j == point_on_hull.index || j == end_point.index
-                /*|| visited.contains(&j)*/
-                {
-                    continue;
-                }
-
-                let orient = point_orientation(
-                    vertices[point_on_hull.index],
-                    vertices[end_point.index],
-                    vertices[j],
-                );
-                if orient == Orientation::Right {
-                    // replace end_point with the candidate if candidate is to the right,
-                    end_point.index_index = jj;
-                    end_point.index = j;
-                    end_point.from_a = false;
-                } else if orient == Orientation::Collinear {
-                    let distance_sq_candidate =
-                        vertices[point_on_hull.index].distance_sq(vertices[j]);
-                    let distance_sq_end_point =
-                        vertices[point_on_hull.index].distance_sq(vertices[end_point.index]);
-
-                    if distance_sq_candidate > distance_sq_end_point {
-                        // if point_on_hull->end_point && point_on_hull->candidate are collinear and
-                        // the distance to the collinear is greater we also update end_point
-                        end_point.index_index = jj;
-                        end_point.index = j;
-                        end_point.from_a = false;
-                    } else if j != starting_index.index {
-                        // This is a collinear point that is closer to the current point, mark it as visited
-                        //let _ = visited.insert(j);
-                    }
-                }
-            }
-        } else {
-            for (jj, j) in indices_a.iter().enumerate() {
-                let j = *j;
-
-                if j == point_on_hull.index || j == end_point.index
-                /*|| visited.contains(&j)*/
-                {
-                    continue;
-                }
-
-                let orient = point_orientation(
-                    vertices[point_on_hull.index],
-                    vertices[end_point.index],
-                    vertices[j],
-                );
-                if orient == Orientation::Right {
-                    // replace end_point with the candidate if candidate is to the right,
-                    end_point.index_index = jj;
-                    end_point.index = j;
-                    end_point.from_a = true;
-                } else if orient == Orientation::Collinear {
-                    let distance_sq_candidate =
-                        vertices[point_on_hull.index].distance_sq(vertices[j]);
-                    let distance_sq_end_point =
-                        vertices[point_on_hull.index].distance_sq(vertices[end_point.index]);
-
-                    if distance_sq_candidate > distance_sq_end_point {
-                        // if point_on_hull->end_point && point_on_hull->candidate are collinear and
-                        // the distance to the collinear is greater we also update end_point
-                        end_point.index_index = jj;
-                        end_point.index = j;
-                        end_point.from_a = true;
-                    } else if j != starting_index.index {
-                        // This is a collinear point that is closer to the current point, mark it as visited
-                        //let _ = visited.insert(j);
-                    }
-                }
-            }
-        }
-        /*println!(
-            "end of loop: end_point  {:?}:{:?}",
-            vertices[end_point.index], end_point
-        );
-        println!();
-         */
-        point_on_hull = end_point.clone();
-        if vertices[end_point.index] == vertices[starting_index.index] {
-            break;
-        }
-    }
-    //println!("visited:{:?}", visited);
-    /*println!("indexed_gift_wrap:");
-    println!("starting_index {:?}", input_indices[starting_index]);
-    println!("input {:?}", input_vertices);
-    println!("input indices {:?}", input_indices);
-    println!("result {:?}", hull);*/
-
-    Ok(hull)
+    let start_index = indices_a[0];
+    indices_a.extend(indices_b);
+    indexed_graham_scan_no_loop(vertices, &indices_a, Some(start_index))
 }
 
 /// Runs indexed_graham_scan in parallel on each chunk, and combines the partial hulls pair by pair.
diff --git a/src/linestring_2d/convex_hull/impls.rs b/src/linestring_2d/convex_hull/impls.rs
deleted file mode 100644
index f235a1d..0000000
--- a/src/linestring_2d/convex_hull/impls.rs
+++ /dev/null
@@ -1,55 +0,0 @@
-// SPDX-License-Identifier: MIT OR Apache-2.0
-// Copyright (c) 2021,2023 lacklustr@protonmail.com https://github.com/eadf
-
-// This file is part of the linestring crate.
-
-/*
-Copyright (c) 2021,2023 lacklustr@protonmail.com https://github.com/eadf
-
-Permission is hereby granted, free of charge, to any person obtaining a copy
-of this software and associated documentation files (the "Software"), to deal
-in the Software without restriction, including without limitation the rights
-to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
-copies of the Software, and to permit persons to whom the Software is
-furnished to do so, subject to the following conditions:
-
-The above copyright notice and this permission notice shall be included in all
-copies or substantial portions of the Software.
-
-THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
-IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
-FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
-AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
-LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
-OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
-SOFTWARE.
-
-or
-
-Copyright 2021,2023 lacklustr@protonmail.com https://github.com/eadf
-
-Licensed under the Apache License, Version 2.0 (the "License");
-you may not use this file except in compliance with the License.
-You may obtain a copy of the License at
-
-    http://www.apache.org/licenses/LICENSE-2.0
-
-Unless required by applicable law or agreed to in writing, software
-distributed under the License is distributed on an "AS IS" BASIS,
-WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
-See the License for the specific language governing permissions and
-limitations under the License.
-*/
-//! A module containing boiler-plate implementations of standard traits such as Default, From etc etc
-
-use crate::linestring_2d::convex_hull::VertexIndex;
-use std::{fmt, fmt::Debug};
-
-impl Debug for VertexIndex {
-    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-        match self.from_a {
-            true => write!(f, "{}A{}", self.index, self.index_index),
-            false => write!(f, "{}B{}", self.index, self.index_index),
-        }
-    }
-}
-- 
2.43.0


From e94cadcc2b55c44b8ad341b187b3f7f2ef597b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:47 +0000
Subject: [PATCH 32/39] fix: gift wrapping lost vertices of, or wasn't convex
 for, some almost collinear points

---
 src/linestring_2d/convex_hull.rs | 172 +++++++++++--------------------
 1 file changed, 62 insertions(+), 110 deletions(-)

diff --git a/src/linestring_2d/convex_hull.rs b/src/linestring_2d/convex_hull.rs
index 13d85a0..c3a250c 100644
--- a/src/linestring_2d/convex_hull.rs
+++ b/src/linestring_2d/convex_hull.rs
@@ -251,8 +251,6 @@ pub fn cross_2d<T: GenericVector2>(a: T, b: T, c: T) -> T::Scalar {
 
 /// finds the convex hull using Gift wrapping algorithm
 /// <https://en.wikipedia.org/wiki/Gift_wrapping_algorithm>
-/// This implementation had a problem with never reaching the end condition under certain situations
-/// so i fixed it with a `visited` set.
 ///```
 /// # use linestring::linestring_2d;
 /// # use linestring::linestring_2d::convex_hull;
@@ -293,66 +291,75 @@ pub fn gift_wrap<T: GenericVector2>(mut vertices: &[T]) -> Result<Vec<T>, Linest
     }
 
     let starting_point = find_lowest_x(vertices)?.0;
+    let mut hull: Vec<T> = wrap_from_left_to_right(vertices.len(), starting_point, |i| vertices[i])
+        .into_iter()
+        .map(|i| vertices[i])
+        .collect();
+    // complete the loop, `hull` now represents a closed loop of points.
+    // Each edge can be iterated over by `hull.iter().window(2)`
+    hull.push(hull[0]);
+    Ok(hull)
+}
 
-    let mut hull = Vec::with_capacity(vertices.len() / 2);
-    // To track visited points
-    let mut visited: vob::Vob<u32> = vob::Vob::new_with_storage_type(vertices.len());
-    visited.resize(vertices.len(), false);
-
-    let mut point_on_hull = starting_point;
-    //println!("starting point {:?}:{}", input_points[starting_point], starting_point);
-    loop {
-        hull.push(vertices[point_on_hull]);
-        if point_on_hull != starting_point {
-            // don't mark the starting_point or we won't know where to stop
-            //println!("hull marking {:?}:{} as visited", input_points[point_on_hull], point_on_hull);
-            let _ = visited.set(point_on_hull, true);
-        }
-        let mut end_point = (point_on_hull + 1) % vertices.len();
-
-        for j in 0..vertices.len() {
-            if j == point_on_hull || j == end_point || visited[j] {
-                continue;
+/// Gift wrapping. First the lower side of the hull, from left to right, then the upper side back
+/// again, considering only the points ahead: almost collinear points behind can't, because of
+/// rounding, be told from points ahead by the orientation.
+/// Returns the position of the vertices of the hull, the list isn't closed.
+fn wrap_from_left_to_right<T: GenericVector2>(
+    len: usize,
+    starting_point: usize,
+    position: impl Fn(usize) -> T,
+) -> Vec<usize> {
+    let is_before = |a: T, b: T| a.x() < b.x() || (a.x() == b.x() && a.y() < b.y());
+    let mut hull = vec![starting_point];
+    let mut point_on_hull = position(starting_point);
+
+    for left_to_right in [true, false] {
+        loop {
+            let mut end_point: Option<(usize, T)> = None;
+            for (j, candidate) in (0..len).map(|j| (j, position(j))) {
+                let is_ahead = if left_to_right {
+                    is_before(point_on_hull, candidate)
+                } else {
+                    is_before(candidate, point_on_hull)
+                };
+                if !is_ahead {
+                    continue;
+                }
+                let is_better = end_point.map_or(true, |(_, end_point)| {
+                    match point_orientation(point_on_hull, end_point, candidate) {
+                        // replace end_point with the candidate if candidate is to the right,
+                        Orientation::Right => true,
+                        // or if it is further away
+                        Orientation::Collinear => {
+                            point_on_hull.distance_sq(candidate)
+                                > point_on_hull.distance_sq(end_point)
+                        }
+                        Orientation::Left => false,
+                    }
+                });
+                if is_better {
+                    end_point = Some((j, candidate));
+                }
             }
-
-            let orient =
-                point_orientation(vertices[point_on_hull], vertices[end_point], vertices[j]);
-            if orient == Orientation::Right {
-                // replace end_point with the candidate if candidate is to the right,
-                end_point = j;
-            } else if orient == Orientation::Collinear {
-                //println!("the points {:?}:{},{:?}:{},{:?}:{} were collinear", input_points[point_on_hull],point_on_hull, input_points[end_point], end_point, input_points[j],j );
-                let distance_sq_candidate = vertices[point_on_hull].distance_sq(vertices[j]);
-                let distance_sq_end_point =
-                    vertices[point_on_hull].distance_sq(vertices[end_point]);
-
-                if distance_sq_candidate > distance_sq_end_point {
-                    // if point_on_hull->end_point && point_on_hull->candidate are collinear and
-                    // the distance to the collinear is greater we also update end_point
-                    end_point = j;
-                } else if j != starting_point && distance_sq_candidate < distance_sq_end_point {
-                    // This is a collinear point that is closer to the current point, mark it as visited
-                    //println!("coll marking {:?}:{} as visited", input_points[j], j);
-                    let _ = visited.set(j, true);
+            match end_point {
+                Some((j, p)) => {
+                    hull.push(j);
+                    point_on_hull = p;
                 }
+                // at the right end, or back again
+                None => break,
             }
         }
-
-        point_on_hull = end_point;
-        if vertices[end_point] == vertices[starting_point] {
-            // complete the loop, `hull` now represents a closed loop of points.
-            // Each edge can be iterated over by `hull.iter().window(2)`
-            hull.push(vertices[end_point]);
-            break;
-        }
     }
-
-    Ok(hull)
+    if hull.len() > 1 {
+        // back at the position of the starting point
+        let _ = hull.pop();
+    }
+    hull
 }
 
 /// finds the convex hull using the [Gift wrapping algorithm](https://en.wikipedia.org/wiki/Gift_wrapping_algorithm)
-/// This implementation had a problem with never reaching the end condition under certain situations
-/// so i fixed it with a `visited` set.
 /// # Arguments
 ///
 /// * `vertices` - The input vertices.
@@ -428,63 +435,8 @@ fn indexed_gift_wrap_no_loop<T: GenericVector2>(
     }
     let starting_index = indexed_find_lowest_x(vertices, indices)?.0;
 
-    let mut hull = Vec::with_capacity(indices.len() / 4);
-    // To track visited points
-    let mut visited: vob::Vob<u32> = vob::Vob::new_with_storage_type(indices.len());
-    visited.resize(indices.len(), false);
-
-    let mut point_on_hull = starting_index;
-    //println!("starting point {:?}:{}", input_points[starting_point], starting_point);
-    loop {
-        hull.push(indices[point_on_hull]);
-        if point_on_hull != starting_index {
-            // don't mark the starting_point or we won't know where to stop
-            let _ = visited.set(point_on_hull, true);
-        }
-        let mut end_point = (point_on_hull + 1) % indices.len();
-
-        for j in 0..indices.len() {
-            if j == point_on_hull || j == end_point || visited[j] {
-                continue;
-            }
-
-            let orient = point_orientation(
-                vertices[indices[point_on_hull]],
-                vertices[indices[end_point]],
-                vertices[indices[j]],
-            );
-            if orient == Orientation::Right {
-                // replace end_point with the candidate if candidate is to the right,
-                end_point = j;
-            } else if orient == Orientation::Collinear {
-                let distance_sq_candidate =
-                    vertices[indices[point_on_hull]].distance_sq(vertices[indices[j]]);
-                let distance_sq_end_point =
-                    vertices[indices[point_on_hull]].distance_sq(vertices[indices[end_point]]);
-
-                if distance_sq_candidate > distance_sq_end_point {
-                    // if point_on_hull->end_point && point_on_hull->candidate are collinear and
-                    // the distance to the collinear is greater we also update end_point
-                    end_point = j;
-                } else if j != starting_index && distance_sq_candidate < distance_sq_end_point {
-                    // This is a collinear point that is closer to the current point, mark it as visited
-                    let _ = visited.set(j, true);
-                }
-            }
-        }
-
-        point_on_hull = end_point;
-        if vertices[indices[end_point]] == vertices[indices[starting_index]] {
-            break;
-        }
-    }
-    /*println!("indexed_gift_wrap:");
-    println!("starting_index {:?}", input_indices[starting_index]);
-    println!("input {:?}", input_vertices);
-    println!("input indices {:?}", input_indices);
-    println!("result {:?}", hull);*/
-
-    Ok(hull)
+    let hull = wrap_from_left_to_right(indices.len(), starting_index, |i| vertices[indices[i]]);
+    Ok(hull.into_iter().map(|i| indices[i]).collect())
 }
 
 /// finds the convex hull using Grahams scan
-- 
2.43.0


From 7964d82d531888176c4d5e2b0d2df4a58d309870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:16 +0000
Subject: [PATCH 33/39] fix: is_self_intersecting() counted shared end points
 as intersections when the computed point was rounded

---
 src/linestring_2d.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/linestring_2d.rs b/src/linestring_2d.rs
index 7a0ff4b..7759079 100644
--- a/src/linestring_2d.rs
+++ b/src/linestring_2d.rs
@@ -721,6 +721,14 @@ impl<T: GenericVector2> LineString2<T> for Vec<T> {
                             Intersection::Intersection(point) => point,
                             Intersection::Overlap(_) => return Ok(true),
                         };
+                        if l0.1.start == l1.1.start
+                            || l0.1.start == l1.1.end
+                            || l0.1.end == l1.1.start
+                            || l0.1.end == l1.1.end
+                        {
+                            // the lines only meet at their end points, even if rounding moved the point
+                            continue;
+                        }
                         if (point.is_ulps_eq(
                             l0.1.start,
                             T::Scalar::default_epsilon(),
-- 
2.43.0


From 101a022d71dd71b1540e29699e8c6e17dd50b74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:16 +0000
Subject: [PATCH 34/39] fix: indexed intersection missed crossings next to
 lines given from top to bottom (sweep-line positions differed by rounding)

---
 src/linestring_2d/indexed_intersection.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/linestring_2d/indexed_intersection.rs b/src/linestring_2d/indexed_intersection.rs
index 250ff1c..a3b6a0a 100644
--- a/src/linestring_2d/indexed_intersection.rs
+++ b/src/linestring_2d/indexed_intersection.rs
@@ -392,8 +392,13 @@ fn sweepline_intersection<T: GenericVector2>(
     sweepline: T,
     other: (usize, usize),
 ) -> Option<(T::Scalar, T::Scalar)> {
-    let other_start = vertices[other.0];
-    let other_end = vertices[other.1];
+    let mut other_start = vertices[other.0];
+    let mut other_end = vertices[other.1];
+    if other_start.y() > other_end.y() {
+        // interpolate from the lower end, where the sweep-line enters the line: lines starting at
+        // the same point must get the same x coordinate there, whatever their direction
+        std::mem::swap(&mut other_start, &mut other_end);
+    }
 
     let y1 = other_start.y();
     let y2 = other_end.y();
-- 
2.43.0


From 4a3ee3b366e388bab0965bb7ff152058f7bba988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:22 +0000
Subject: [PATCH 35/39] fix: contains_point_inclusive() was true for points far
 outside of hulls without area

---
 src/linestring_2d/convex_hull.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/linestring_2d/convex_hull.rs b/src/linestring_2d/convex_hull.rs
index c3a250c..6dba405 100644
--- a/src/linestring_2d/convex_hull.rs
+++ b/src/linestring_2d/convex_hull.rs
@@ -43,7 +43,10 @@ limitations under the License.
 #[cfg(test)]
 mod tests;
 
-use crate::{linestring_2d::LineString2, LinestringError};
+use crate::{
+    linestring_2d::{Aabb2, LineString2},
+    LinestringError,
+};
 use rayon::prelude::*;
 use std::cmp::Ordering;
 use vector_traits::{approx::ulps_eq, num_traits::float::FloatCore, GenericScalar, GenericVector2};
@@ -1058,6 +1061,11 @@ pub fn contains_point_inclusive<T: GenericVector2>(input: &Vec<T>, p: T) -> bool
     } else {
         (&input[..], 0)
     };
+    if slice.len() <= 2 {
+        // a hull without area only contains the points between its (at most two) vertices
+        return point_orientation(slice[0], slice[slice.len() - 1], p) == Orientation::Collinear
+            && Aabb2::with_points(slice).contains_point_inclusive(p);
+    }
     let mut retain_index_0 = false;
 
     while (slice.len() > 3) || (retain_index_0 && slice.len() > 2) {
-- 
2.43.0


From 3262ee3a8ba9164b0c4a104f360cb8dedb531987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:22 +0000
Subject: [PATCH 36/39] fix: contains_point_*() misjudged points by rounding
 near the diagonals and near almost collinear vertices

---
 src/linestring_2d/convex_hull.rs | 84 +++++++++-----------------------
 1 file changed, 23 insertions(+), 61 deletions(-)

diff --git a/src/linestring_2d/convex_hull.rs b/src/linestring_2d/convex_hull.rs
index 6dba405..93b1027 100644
--- a/src/linestring_2d/convex_hull.rs
+++ b/src/linestring_2d/convex_hull.rs
@@ -947,6 +947,15 @@ pub fn contains_point_exclusive<T: GenericVector2>(input: &Vec<T>, p: T) -> bool
     } else {
         (&input[..], 0)
     };
+    if slice.len() <= 2 {
+        // a hull without area has no inside
+        return false;
+    }
+    // p must be within the angle of the hull at the first vertex
+    if !is_point_left(slice[0], slice[1], p) || !is_point_left(slice[slice.len() - 1], slice[0], p)
+    {
+        return false;
+    }
     let mut retain_index_0 = false;
 
     while (slice.len() > 3) || (retain_index_0 && slice.len() > 2) {
@@ -984,37 +993,10 @@ pub fn contains_point_exclusive<T: GenericVector2>(input: &Vec<T>, p: T) -> bool
     }
 
     //println!("{:?}", slice );
-    // Check the final slice (triangle)
-    if retain_index_0 {
-        // this is a diagonal of the hull, not an edge. So a point on it can still be on the inside
-        if !is_point_left_allow_collinear(input[input_offset], slice[0], p) {
-            //println!("return false 3.1 for slice: 0+{:?}", slice);
-            return false;
-        }
-        for window in slice.windows(2) {
-            if !is_point_left(window[0], window[1], p) {
-                //println!("return false 3.2 for slice: 0+{:?}", slice);
-                return false;
-            }
-        }
-        if !is_point_left(slice[slice.len() - 1], input[input_offset], p) {
-            //println!("return false 3.3 slice:0+{:?}", slice);
-            return false;
-        }
-    } else {
-        for window in slice.windows(2) {
-            //println!("testing {:?} {:?}", window[0], window[1]);
-            if !is_point_left(window[0], window[1], p) {
-                //println!("return false 3");
-                return false;
-            }
-        }
-        if !is_point_left(slice[slice.len() - 1], slice[0], p) {
-            //println!("return false 4 slice:{:?}", slice);
-            return false;
-        }
-    }
-    true
+    // Check the final slice (triangle), its other edges are the diagonals or edges tested above
+    slice
+        .windows(2)
+        .all(|window| is_point_left(window[0], window[1], p))
 }
 
 /// Returns true if the 'a' convex hull contains the 'b' point (inclusive)
@@ -1066,6 +1048,12 @@ pub fn contains_point_inclusive<T: GenericVector2>(input: &Vec<T>, p: T) -> bool
         return point_orientation(slice[0], slice[slice.len() - 1], p) == Orientation::Collinear
             && Aabb2::with_points(slice).contains_point_inclusive(p);
     }
+    // p must be within the angle of the hull at the first vertex
+    if !is_point_left_allow_collinear(slice[0], slice[1], p)
+        || !is_point_left_allow_collinear(slice[slice.len() - 1], slice[0], p)
+    {
+        return false;
+    }
     let mut retain_index_0 = false;
 
     while (slice.len() > 3) || (retain_index_0 && slice.len() > 2) {
@@ -1103,34 +1091,8 @@ pub fn contains_point_inclusive<T: GenericVector2>(input: &Vec<T>, p: T) -> bool
     }
 
     //println!("{:?}", slice );
-    // Check the final slice (triangle)
-    if retain_index_0 {
-        if !is_point_left_allow_collinear(input[input_offset], slice[0], p) {
-            //println!("return false 3.1 for slice: 0+{:?}", slice);
-            return false;
-        }
-        for window in slice.windows(2) {
-            if !is_point_left_allow_collinear(window[0], window[1], p) {
-                //println!("return false 3.2 for slice: 0+{:?}", slice);
-                return false;
-            }
-        }
-        if !is_point_left_allow_collinear(slice[slice.len() - 1], input[input_offset], p) {
-            //println!("return false 3.3 slice:0+{:?}", slice);
-            return false;
-        }
-    } else {
-        for window in slice.windows(2) {
-            //println!("testing {:?} {:?}", window[0], window[1]);
-            if !is_point_left_allow_collinear(window[0], window[1], p) {
-                //println!("return false 3");
-                return false;
-            }
-        }
-        if !is_point_left_allow_collinear(slice[slice.len() - 1], slice[0], p) {
-            //println!("return false 4 slice:{:?}", slice);
-            return false;
-        }
-    }
-    true
+    // Check the final slice (triangle), its other edges are the diagonals or edges tested above
+    slice
+        .windows(2)
+        .all(|window| is_point_left_allow_collinear(window[0], window[1], p))
 }
-- 
2.43.0


From 17a0c88fc07ebb272f868fbc96153cd084c75c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:31 +0000
Subject: [PATCH 37/39] fix: discretize_2d()/discretize_3d() of parabolic arcs
 overflowed for f32 coordinates beyond 1e4 (split too often)

---
 src/linestring_2d.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/linestring_2d.rs b/src/linestring_2d.rs
index 7759079..2e08eaa 100644
--- a/src/linestring_2d.rs
+++ b/src/linestring_2d.rs
@@ -454,8 +454,10 @@ impl<T: GenericVector2> VoronoiParabolicArc<T> {
             let mut dist = (new_y - cur_y) * (mid_x - cur_x) - (new_x - cur_x) * (mid_y - cur_y);
             #[allow(clippy::suspicious_operation_groupings)]
             {
-                dist = dist * dist
-                    / ((new_y - cur_y) * (new_y - cur_y) + (new_x - cur_x) * (new_x - cur_x));
+                // (this order of operations keeps dist*dist from overflowing or underflowing)
+                dist = dist
+                    * (dist
+                        / ((new_y - cur_y) * (new_y - cur_y) + (new_x - cur_x) * (new_x - cur_x)));
             }
             // (nothing can be split when no new point is found between the two, e.g. for arcs
             // without extent)
@@ -571,8 +573,10 @@ impl<T: GenericVector2> VoronoiParabolicArc<T> {
             let mut dist = (new_y - cur_y) * (mid_x - cur_x) - (new_x - cur_x) * (mid_y - cur_y);
             #[allow(clippy::suspicious_operation_groupings)]
             {
-                dist = dist * dist
-                    / ((new_y - cur_y) * (new_y - cur_y) + (new_x - cur_x) * (new_x - cur_x));
+                // (this order of operations keeps dist*dist from overflowing or underflowing)
+                dist = dist
+                    * (dist
+                        / ((new_y - cur_y) * (new_y - cur_y) + (new_x - cur_x) * (new_x - cur_x)));
             }
             // (nothing can be split when no new point is found between the two, e.g. for arcs
             // without extent)
-- 
2.43.0


From 22fc64aa2eb8cd2707236364cee38711438dd262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:38 +0000
Subject: [PATCH 38/39] fix: the sweep-line missed crossings when lines meet in
 a point at the same y coordinate as a later event (their order was decided by
 rounding)

---
 src/linestring_2d/indexed_intersection.rs | 53 +++++++++++++++--------
 src/linestring_2d/intersection.rs         | 43 ++++++++++++------
 2 files changed, 64 insertions(+), 32 deletions(-)

diff --git a/src/linestring_2d/indexed_intersection.rs b/src/linestring_2d/indexed_intersection.rs
index a3b6a0a..864df5b 100644
--- a/src/linestring_2d/indexed_intersection.rs
+++ b/src/linestring_2d/indexed_intersection.rs
@@ -116,9 +116,10 @@ impl<T: GenericVector2> PartialEq for SiteEventKey<T> {
 /// value right of the point. Secondarily it prioritizes according to slope of the line, lines
 /// leaning towards pivot point have priority.
 struct MinMax<T: GenericVector2> {
-    best_left: Option<T::Scalar>,
+    // x coordinate and its rounding error
+    best_left: Option<(T::Scalar, T::Scalar)>,
     slope: MinMaxSlope<T>,
-    best_right: Option<T::Scalar>,
+    best_right: Option<(T::Scalar, T::Scalar)>,
 }
 
 impl<T: GenericVector2> MinMax<T>
@@ -138,6 +139,7 @@ where
         &mut self,
         pivot_x: T::Scalar,
         candidate_x: T::Scalar,
+        candidate_error: T::Scalar,
         candidate_slope: T::Scalar,
         candidate_index: usize,
     ) {
@@ -147,15 +149,20 @@ where
                 candidate_index, candidate_x, candidate_slope
             );*/
             // handle left side
-            if let Some(current_min) = self.best_left {
-                if ulps_eq!(&current_min, &candidate_x) {
+            if let Some((current_min, current_min_error)) = self.best_left {
+                if ulps_eq!(
+                    &current_min,
+                    &candidate_x,
+                    epsilon = current_min_error + candidate_error
+                ) {
+                    // the order of these lines can't be told from their x coordinates
                     self.slope
                         .update_left(false, candidate_slope, candidate_index);
                 } else if current_min < candidate_x {
                     // this candidate is better.
                     self.slope
                         .update_left(true, candidate_slope, candidate_index);
-                    self.best_left = Some(candidate_x);
+                    self.best_left = Some((candidate_x, candidate_error));
                 } else {
                     /*println!(
                         "Left2:rejecting {} candidate_x:{} current_x:{} candidate_slope:{}, current_slope:{}",
@@ -164,7 +171,7 @@ where
                 }
             } else {
                 // First sample
-                self.best_left = Some(candidate_x);
+                self.best_left = Some((candidate_x, candidate_error));
                 self.slope
                     .update_left(false, candidate_slope, candidate_index);
             }
@@ -174,15 +181,20 @@ where
                 candidate_index, candidate_x, candidate_slope
             );*/
             // handle right side
-            if let Some(current_max) = self.best_right {
-                if ulps_eq!(&current_max, &candidate_x) {
+            if let Some((current_max, current_max_error)) = self.best_right {
+                if ulps_eq!(
+                    &current_max,
+                    &candidate_x,
+                    epsilon = current_max_error + candidate_error
+                ) {
+                    // the order of these lines can't be told from their x coordinates
                     self.slope
                         .update_right(false, candidate_slope, candidate_index);
                 } else if current_max > candidate_x {
                     // this candidate is better.
                     self.slope
                         .update_right(true, candidate_slope, candidate_index);
-                    self.best_right = Some(candidate_x);
+                    self.best_right = Some((candidate_x, candidate_error));
                 } else {
                     /*println!(
                         "Right2:rejecting {} candidate_x:{} current_x:{} candidate_slope:{}, current_slope:{}",
@@ -191,7 +203,7 @@ where
                 }
             } else {
                 // First sample
-                self.best_right = Some(candidate_x);
+                self.best_right = Some((candidate_x, candidate_error));
                 self.slope
                     .update_right(false, candidate_slope, candidate_index);
             }
@@ -386,12 +398,13 @@ fn is_on_line<T: GenericVector2>(line: Line2<T>, point: T) -> bool {
 }
 
 /// Returns *one* point of intersection between the `sweepline` and `other`
-/// Second return value is the negated, inverse, slope of the line
+/// Second return value is the rounding error of that x coordinate
+/// Third return value is the negated, inverse, slope of the line
 fn sweepline_intersection<T: GenericVector2>(
     vertices: &[T],
     sweepline: T,
     other: (usize, usize),
-) -> Option<(T::Scalar, T::Scalar)> {
+) -> Option<(T::Scalar, T::Scalar, T::Scalar)> {
     let mut other_start = vertices[other.0];
     let mut other_end = vertices[other.1];
     if other_start.y() > other_end.y() {
@@ -411,7 +424,8 @@ fn sweepline_intersection<T: GenericVector2>(
 
     // negated delta x / delta y: the lines leaning towards the pivot point have priority
     let slope = (x2 - x1) / (y2 - y1);
-    Some((x1 + (sweepline.y() - y1) * slope, -slope))
+    let error = (x1.abs() + x2.abs()) * T::Scalar::default_epsilon() * T::Scalar::TWO;
+    Some((x1 + (sweepline.y() - y1) * slope, error, -slope))
 }
 
 /// Contains the data the sweep-line intersection algorithm needs to operate.
@@ -838,15 +852,18 @@ impl<T: GenericVector2> IntersectionTester<T> {
             }
 
             //print!("(sweepline_intersection id={:?}", line_index);
-            if let Some((intersection_x, intersection_slope)) = sweepline_intersection(
-                &self.vertices,
-                self.sweepline_pos,
-                *self.lines.get(*line_index).unwrap(),
-            ) {
+            if let Some((intersection_x, intersection_error, intersection_slope)) =
+                sweepline_intersection(
+                    &self.vertices,
+                    self.sweepline_pos,
+                    *self.lines.get(*line_index).unwrap(),
+                )
+            {
                 //println!(" @{}^{})", intersection_x, intersection_slope);
                 neighbour_priority.update(
                     self.sweepline_pos.x(),
                     intersection_x,
+                    intersection_error,
                     intersection_slope,
                     *line_index,
                 );
diff --git a/src/linestring_2d/intersection.rs b/src/linestring_2d/intersection.rs
index 8781ea4..70c4eda 100644
--- a/src/linestring_2d/intersection.rs
+++ b/src/linestring_2d/intersection.rs
@@ -111,9 +111,10 @@ impl<T: GenericVector2> PartialEq for SiteEventKey<T> {
 /// value right of the point. Secondarily it prioritizes according to slope of the line, lines
 /// leaning towards pivot point have priority.
 pub(crate) struct MinMax<T: GenericVector2> {
-    best_left: Option<T::Scalar>,
+    // x coordinate and its rounding error
+    best_left: Option<(T::Scalar, T::Scalar)>,
     slope: MinMaxSlope<T>,
-    best_right: Option<T::Scalar>,
+    best_right: Option<(T::Scalar, T::Scalar)>,
 }
 
 impl<T: GenericVector2> MinMax<T>
@@ -133,6 +134,7 @@ where
         &mut self,
         pivot_x: T::Scalar,
         candidate_x: T::Scalar,
+        candidate_error: T::Scalar,
         candidate_slope: T::Scalar,
         candidate_index: usize,
     ) {
@@ -142,15 +144,20 @@ where
                 candidate_index, candidate_x, candidate_slope
             );*/
             // handle left side
-            if let Some(current_min) = self.best_left {
-                if approx::ulps_eq!(&current_min, &candidate_x) {
+            if let Some((current_min, current_min_error)) = self.best_left {
+                if approx::ulps_eq!(
+                    &current_min,
+                    &candidate_x,
+                    epsilon = current_min_error + candidate_error
+                ) {
+                    // the order of these lines can't be told from their x coordinates
                     self.slope
                         .update_left(false, candidate_slope, candidate_index);
                 } else if current_min < candidate_x {
                     // this candidate is better.
                     self.slope
                         .update_left(true, candidate_slope, candidate_index);
-                    self.best_left = Some(candidate_x);
+                    self.best_left = Some((candidate_x, candidate_error));
                 } else {
                     /*println!(
                         "Left2:rejecting {} candidate_x:{} current_x:{} candidate_slope:{}, current_slope:{}",
@@ -159,7 +166,7 @@ where
                 }
             } else {
                 // First sample
-                self.best_left = Some(candidate_x);
+                self.best_left = Some((candidate_x, candidate_error));
                 self.slope
                     .update_left(false, candidate_slope, candidate_index);
             }
@@ -169,15 +176,20 @@ where
                 candidate_index, candidate_x, candidate_slope
             );*/
             // handle right side
-            if let Some(current_max) = self.best_right {
-                if approx::ulps_eq!(&current_max, &candidate_x) {
+            if let Some((current_max, current_max_error)) = self.best_right {
+                if approx::ulps_eq!(
+                    &current_max,
+                    &candidate_x,
+                    epsilon = current_max_error + candidate_error
+                ) {
+                    // the order of these lines can't be told from their x coordinates
                     self.slope
                         .update_right(false, candidate_slope, candidate_index);
                 } else if current_max > candidate_x {
                     // this candidate is better.
                     self.slope
                         .update_right(true, candidate_slope, candidate_index);
-                    self.best_right = Some(candidate_x);
+                    self.best_right = Some((candidate_x, candidate_error));
                 } else {
                     /*println!(
                         "Right2:rejecting {} candidate_x:{} current_x:{} candidate_slope:{}, current_slope:{}",
@@ -186,7 +198,7 @@ where
                 }
             } else {
                 // First sample
-                self.best_right = Some(candidate_x);
+                self.best_right = Some((candidate_x, candidate_error));
                 self.slope
                     .update_right(false, candidate_slope, candidate_index);
             }
@@ -378,11 +390,12 @@ fn is_on_line<T: GenericVector2>(line: linestring_2d::Line2<T>, point: T) -> boo
 }
 
 /// Returns *one* point of intersection between the `sweepline` and `other`
-/// Second return value is the negated, inverse, slope of the line
+/// Second return value is the rounding error of that x coordinate
+/// Third return value is the negated, inverse, slope of the line
 fn sweepline_intersection<T: GenericVector2>(
     sweepline: T,
     other: &linestring_2d::Line2<T>,
-) -> Option<(T::Scalar, T::Scalar)> {
+) -> Option<(T::Scalar, T::Scalar, T::Scalar)> {
     let y1 = other.start.y();
     let y2 = other.end.y();
     let x1 = other.start.x();
@@ -394,7 +407,8 @@ fn sweepline_intersection<T: GenericVector2>(
 
     // negated delta x / delta y: the lines leaning towards the pivot point have priority
     let slope = (x2 - x1) / (y2 - y1);
-    Some((x1 + (sweepline.y() - y1) * slope, -slope))
+    let error = (x1.abs() + x2.abs()) * T::Scalar::default_epsilon() * T::Scalar::TWO;
+    Some((x1 + (sweepline.y() - y1) * slope, error, -slope))
 }
 
 /// Contains the data the sweep-line intersection algorithm needs to operate.
@@ -736,13 +750,14 @@ impl<T: GenericVector2> IntersectionData<T> {
             }
 
             //print!("(sweepline_intersection id={:?}", line_index);
-            if let Some((intersection_x, intersection_slope)) =
+            if let Some((intersection_x, intersection_error, intersection_slope)) =
                 sweepline_intersection(self.sweepline_pos, self.lines.get(*line_index).unwrap())
             {
                 //println!(" @{}^{})", intersection_x, intersection_slope);
                 neighbour_priority.update(
                     self.sweepline_pos.x(),
                     intersection_x,
+                    intersection_error,
                     intersection_slope,
                     *line_index,
                 );
-- 
2.43.0


From d5337d259cf39af34f1da432857864957f43f53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:48 +0000
Subject: [PATCH 39/39] fix: the sweep-line returned InternalError when events
 are equal within a few ulps (a lookup of the first key failed)

---
 src/linestring_2d/indexed_intersection.rs | 26 +++--------------------
 src/linestring_2d/intersection.rs         | 26 +++--------------------
 2 files changed, 6 insertions(+), 46 deletions(-)

diff --git a/src/linestring_2d/indexed_intersection.rs b/src/linestring_2d/indexed_intersection.rs
index 864df5b..5e1b5d1 100644
--- a/src/linestring_2d/indexed_intersection.rs
+++ b/src/linestring_2d/indexed_intersection.rs
@@ -688,29 +688,9 @@ impl<T: GenericVector2> IntersectionTester<T> {
         let mut connected_priority = MinMaxSlope::new();
 
         loop {
-            if let Some((key, event)) = {
-                #[cfg(feature = "map_first_last")]
-                {
-                    site_events.pop_first()
-                }
-                #[cfg(not(feature = "map_first_last"))]
-                {
-                    // emulate pop_first
-                    if let Some((first_key, _)) = site_events.iter().next() {
-                        let first_key = *first_key;
-                        let v = site_events.remove(&first_key).ok_or_else(|| {
-                            LinestringError::InternalError(format!(
-                                "Found a key to pop but could not remove the value. {}:{}",
-                                file!(),
-                                line!()
-                            ))
-                        })?;
-                        Some((first_key, v))
-                    } else {
-                        None
-                    }
-                }
-            } {
+            // (by position, looking up the first key could fail: keys equal within a few ulps
+            // aren't always ordered transitively)
+            if let Some((key, event)) = site_events.pop_first() {
                 self.handle_event(
                     &key,
                     &event,
diff --git a/src/linestring_2d/intersection.rs b/src/linestring_2d/intersection.rs
index 70c4eda..8f73eb6 100644
--- a/src/linestring_2d/intersection.rs
+++ b/src/linestring_2d/intersection.rs
@@ -603,29 +603,9 @@ impl<T: GenericVector2> IntersectionData<T> {
         let mut connected_priority = MinMaxSlope::new();
 
         loop {
-            if let Some((key, event)) = {
-                #[cfg(feature = "map_first_last")]
-                {
-                    site_events.pop_first()
-                }
-                #[cfg(not(feature = "map_first_last"))]
-                {
-                    // emulate pop_first
-                    if let Some((first_key, _)) = site_events.iter().next() {
-                        let first_key = *first_key;
-                        let v = site_events.remove(&first_key).ok_or_else(|| {
-                            LinestringError::InternalError(format!(
-                                "Found a key to pop but could not remove the value. {}:{}",
-                                file!(),
-                                line!()
-                            ))
-                        })?;
-                        Some((first_key, v))
-                    } else {
-                        None
-                    }
-                }
-            } {
+            // (by position, looking up the first key could fail: keys equal within a few ulps
+            // aren't always ordered transitively)
+            if let Some((key, event)) = site_events.pop_first() {
                 self.handle_event(
                     &key,
                     &event,
-- 
2.43.0

