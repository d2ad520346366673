From 01926bc2a36b0ca2924f3a2357be9f70bade3936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:44 +0000
Subject: [PATCH 01/28] fix: don't skip negative heights when positioning
 output segments

---
 src/position.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/position.rs b/src/position.rs
index a8b6dd7..91529f4 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -260,7 +260,8 @@ pub(crate) fn compute_positions(
     // until they're needed (by copying in one go, we avoid excess subdivisions). That means
     // we need to separately keep track of how far down we've looked at each output. If
     // we weren't lazy, that would just be the last `y` coordinate in `out`.
-    let mut last_y = OutputSegVec::<f64>::with_size(orig_seg_map.len());
+    // (Negative infinity, because the default of zero would make us skip negative heights.)
+    let mut last_y = OutputSegVec::from_vec(vec![f64::NEG_INFINITY; orig_seg_map.len()]);
     let mut queue = BinaryHeap::<HeapEntry>::new();
     for idx in out.indices() {
         let p = endpoints[idx.first_half()];
-- 
2.43.0


From 4ad4d28df11862f80728bcfa5716cf724171d25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:00 +0000
Subject: [PATCH 02/28] fix: accuracy of solve_t_for_y shouldn't depend on the
 curve's scale

---
 src/curve/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/curve/mod.rs b/src/curve/mod.rs
index 4c8b2cb..10815ec 100644
--- a/src/curve/mod.rs
+++ b/src/curve/mod.rs
@@ -352,8 +352,9 @@ pub fn solve_t_for_y(c: CubicBez, y: f64) -> f64 {
     let c0 = c.p0.y - y;
     let cubic = Cubic::new([c0, c1, c2, c3]);
 
-    let eps = 1e-12 * cubic.max_abs_coefficient().max(1.0);
-    let roots = cubic.roots_between(0.0, 1.0, eps);
+    // This is the accuracy of the parameter `t`, and so it doesn't depend on the
+    // scale of the curve.
+    let roots = cubic.roots_between(0.0, 1.0, 1e-12);
     if !roots.is_empty() {
         return roots[0];
     }
-- 
2.43.0


From f75f2f788d112a3403415f6378ef954d98acdefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:00 +0000
Subject: [PATCH 03/28] fix: don't let approximating parabolas overshoot the
 curve

---
 src/position.rs | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/position.rs b/src/position.rs
index 91529f4..792b6fd 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -96,7 +96,7 @@ fn ordered_curves_all_close(
 
         let mut x_mid_max_so_far = f64::NEG_INFINITY;
         let mut x1_max_so_far = f64::NEG_INFINITY;
-        for (quad, out_idx) in approxes.iter().zip(output_order) {
+        for ((quad, x_bounds), out_idx) in approxes.iter().zip(output_order) {
             // These would be the control points, but since `approximate` recenters the y interval,
             // they're different...
             // let x_mid = quad.c0 + y_mid * quad.c1 + y0 * next_y0 * quad.c2;
@@ -106,6 +106,9 @@ fn ordered_curves_all_close(
                 + quad.c1 * (next_y0 - y_mid)
                 + quad.c2 * (next_y0 - y_mid) * (next_y0 - y_mid);
 
+            let x_mid = x_mid.max(x_bounds.0).min(x_bounds.1);
+            let x1 = x1.max(x_bounds.0).min(x_bounds.1);
+
             x_mid_max_so_far = x_mid_max_so_far.max(x_mid);
             x1_max_so_far = x1_max_so_far.max(x1);
 
@@ -143,14 +146,32 @@ fn horizontal_error_weight(c: CubicBez) -> f64 {
     weight
 }
 
-// Pushes approximating parabolas into `out`, and returns the final y position.
+// Returns horizontal bounds for approximations of `c` that don't overshoot it.
+//
+// Almost-horizontal curves are allowed to have big horizontal errors, and very
+// short intervals are allowed to have any errors. But they mustn't go past the ends.
+fn x_bounds(c: CubicBez, too_short: bool) -> (f64, f64) {
+    let dx = [c.p1.x - c.p0.x, c.p2.x - c.p1.x, c.p3.x - c.p2.x];
+    let monotone = dx.iter().all(|d| *d >= 0.0) || dx.iter().all(|d| *d <= 0.0);
+    if monotone || too_short {
+        (
+            c.p0.x.min(c.p1.x).min(c.p2.x).min(c.p3.x),
+            c.p0.x.max(c.p1.x).max(c.p2.x).max(c.p3.x),
+        )
+    } else {
+        (f64::NEG_INFINITY, f64::INFINITY)
+    }
+}
+
+// Pushes approximating parabolas into `out` (along with their horizontal bounds),
+// and returns the final y position.
 fn approximate(
     y0: f64,
     mut y1: f64,
     order: &[SegIdx],
     segs: &Segments,
     accuracy: f64,
-    out: &mut Vec<EstParab>,
+    out: &mut Vec<(EstParab, (f64, f64))>,
 ) -> f64 {
     let orig_len = out.len();
 
@@ -176,7 +197,7 @@ fn approximate(
                 continue 'retry;
             }
 
-            out.push(approx);
+            out.push((approx, x_bounds(cubic, too_short)));
         }
 
         return y1;
-- 
2.43.0


From 1f143df8441054a97b63f6a526131932e8f0b58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:00 +0000
Subject: [PATCH 04/28] fix: don't merge horizontal output segments of
 non-horizontal curves

---
 src/topology.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/topology.rs b/src/topology.rs
index f0d91f7..6f7e91a 100644
--- a/src/topology.rs
+++ b/src/topology.rs
@@ -1058,7 +1058,9 @@ impl<W: WindingNumber> Topology<W> {
         let orig_idx = self.orig_seg[seg.idx];
 
         // We're currently using y positions on the output segment to figure out
-        if self.segments[orig_idx].is_horizontal() {
+        // how far the merge can go, and that doesn't work if it's horizontal.
+        // (An output segment can be horizontal even if the original segment wasn't.)
+        if self.segments[orig_idx].is_horizontal() || self.is_horizontal(seg.idx) {
             return None;
         }
 
-- 
2.43.0


From 3d315153010c2e7498d9bb1966c891e2c6041295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:07 +0000
Subject: [PATCH 05/28] fix: only merge the part of an output segment that was
 copied

---
 src/topology.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/topology.rs b/src/topology.rs
index 6f7e91a..54a38b8 100644
--- a/src/topology.rs
+++ b/src/topology.rs
@@ -1080,7 +1080,17 @@ impl<W: WindingNumber> Topology<W> {
             seg.is_first_half() == self.segments.positively_oriented(orig_idx);
 
         let start_y = self.point(seg).y;
-        let end_y = self.point(seg.other_half()).y;
+        // Only the copied part of the output segment can be reconstructed from
+        // the input. If the rest of the output segment was perturbed, the copied
+        // part ends before the output segment does.
+        let copied_end = if seg.is_first_half() {
+            pos.path.elements().get(1)
+        } else {
+            pos.path.elements().iter().rev().nth(1)
+        };
+        let end_y = copied_end
+            .and_then(|el| el.end_point())
+            .map_or(self.point(seg.other_half()).y, |p| p.y);
         let split_from_pred = self.segments.split_from_predecessor[orig_idx];
         let can_merge = if has_orig_orientation {
             let seg_in_input_t = split_from_pred.0;
-- 
2.43.0


From 06b76c6dcb141f64c742a6bc5def9eb188312ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:03 +0000
Subject: [PATCH 06/28] fix: rescan from a segment that isn't exiting when
 removing from the sweep line

---
 src/sweep/sweep_line.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/sweep/sweep_line.rs b/src/sweep/sweep_line.rs
index ac7baa7..50e2945 100644
--- a/src/sweep/sweep_line.rs
+++ b/src/sweep/sweep_line.rs
@@ -526,9 +526,14 @@ impl<'segs> Sweeper<'segs> {
     }
 
     fn scan_for_removal(&mut self, pos: usize) {
-        if pos > 0 {
-            self.intersection_scan_right(pos - 1);
-            self.intersection_scan_left(pos - 1);
+        // The intersection scans don't do anything when started from a segment that's
+        // about to exit, so skip those.
+        let prev = (0..pos)
+            .rev()
+            .find(|&i| self.segments[self.line.seg(i)].end().y != self.y);
+        if let Some(prev) = prev {
+            self.intersection_scan_right(prev);
+            self.intersection_scan_left(prev);
         }
     }
 
-- 
2.43.0


From 10c382567a71707578ac662adc657b5f904f3d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:39 +0000
Subject: [PATCH 07/28] fix: don't let moved endpoints drag whole curves along

---
 src/position.rs | 82 +++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 65 insertions(+), 17 deletions(-)

diff --git a/src/position.rs b/src/position.rs
index 792b6fd..a6229a9 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -40,7 +40,18 @@ fn ordered_curves_all_close(
         return;
     }
 
-    if order.len() == 2 {
+    // Endpoints that were moved by a lot (because the curve is almost horizontal there)
+    // are joined to the rest of the curve within a short vertical distance. Otherwise, they'd
+    // drag along too much of the curve.
+    let displaced_start = order.iter().zip(output_order).any(|(&s, &o)| {
+        out[o].path.elements().len() == 1 && is_displaced(&segs[s], bez_end(&out[o].path), accuracy)
+    });
+    let displaced_end = order.iter().zip(output_order).any(|(&s, &o)| {
+        let endpoint = endpoints[o.second_half()];
+        endpoint.y == y1 && is_displaced(&segs[s], endpoint, accuracy)
+    });
+
+    if order.len() == 2 && !displaced_start && !displaced_end {
         let s0 = order[0];
         let s1 = order[1];
         let o0 = output_order[0];
@@ -75,22 +86,25 @@ fn ordered_curves_all_close(
     for (&seg_idx, &out_idx) in order.iter().zip(output_order) {
         let out = &mut out[out_idx];
         if bez_end_y(&out.path) < y0 {
-            out.copied_idx = Some(out.path.elements().len() - 1);
             let endpoint = endpoints[out_idx.second_half()];
-            if segs[seg_idx].is_line() {
-                out.path.line_to(endpoint)
-            } else {
-                let c = next_subsegment(&segs[seg_idx], &out.path, y0, endpoint);
-                out.path.curve_to(c.p1, c.p2, c.p3);
-            }
+            copy_from_input(&segs[seg_idx], out, y0, endpoint, accuracy);
         }
     }
 
+    let start_y = y0;
+
     let mut approxes = Vec::new();
 
     // The recentering helps, but there are still some issues with approximation when almost horizontal
     while y0 < y1 {
-        let next_y0 = approximate(y0, y1, order, segs, accuracy, &mut approxes);
+        let max_y = if displaced_start && y0 == start_y {
+            y1.min(y0 + accuracy)
+        } else if displaced_end && y0 < y1 - accuracy {
+            y1 - accuracy
+        } else {
+            y1
+        };
+        let next_y0 = approximate(y0, max_y, order, segs, accuracy, &mut approxes);
 
         let y_mid = (y0 + next_y0) / 2.0;
 
@@ -246,6 +260,46 @@ fn next_subsegment(seg: &Segment, out: &BezPath, y1: f64, endpoint: kurbo::Point
     c
 }
 
+// Has the endpoint `p` of a curve been moved away from the curve (horizontally) by more than `accuracy`?
+fn is_displaced(seg: &Segment, p: kurbo::Point, accuracy: f64) -> bool {
+    !seg.is_line() && (seg.at_y(p.y) - p.x).abs() > accuracy
+}
+
+// Extends `out` to height `y1`, by copying the input segment.
+fn copy_from_input(
+    seg: &Segment,
+    out: &mut PositionedOutputSeg,
+    mut y1: f64,
+    endpoint: kurbo::Point,
+    accuracy: f64,
+) {
+    if seg.is_line() {
+        out.copied_idx = Some(out.path.elements().len() - 1);
+        out.path.line_to(endpoint);
+        return;
+    }
+
+    // If the endpoints were moved by a lot, only copy the part of the curve between them
+    // and join it to the endpoints within a short vertical distance.
+    let start = bez_end(&out.path);
+    let can_shorten = start.y + 4.0 * accuracy < y1;
+    if can_shorten && is_displaced(seg, start, accuracy) {
+        let y = start.y + accuracy;
+        out.path.line_to((seg.at_y(y), y));
+    }
+    let displaced_end = can_shorten && endpoint.y == y1 && is_displaced(seg, endpoint, accuracy);
+    if displaced_end {
+        y1 -= accuracy;
+    }
+
+    out.copied_idx = Some(out.path.elements().len() - 1);
+    let c = next_subsegment(seg, &out.path, y1, endpoint);
+    out.path.curve_to(c.p1, c.p2, c.p3);
+    if displaced_end {
+        out.path.line_to(endpoint);
+    }
+}
+
 /// A positioned output segment, possibly perturbed from the original.
 ///
 /// We perturb output segments in order to strictly enforce ordering.
@@ -386,14 +440,8 @@ pub(crate) fn compute_positions(
         let out = &mut out[out_idx];
         let endpoint = endpoints[out_idx.second_half()];
         if bez_end_y(&out.path) < endpoint.y {
-            let seg_idx = orig_seg_map[out_idx];
-            out.copied_idx = Some(out.path.elements().len() - 1);
-            if segs[seg_idx].is_line() {
-                out.path.line_to(endpoint)
-            } else {
-                let c = next_subsegment(&segs[seg_idx], &out.path, endpoint.y, endpoint);
-                out.path.curve_to(c.p1, c.p2, c.p3);
-            }
+            let seg = &segs[orig_seg_map[out_idx]];
+            copy_from_input(seg, out, endpoint.y, endpoint, accuracy);
         } else {
             // The quadratic approximations don't respect the fixed endpoints, so tidy them
             // up. Since both the quadratic approximations and the endpoints satisfy
-- 
2.43.0


From 55e68582832149a5acf4657cc92d642c60bae760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:36 +0000
Subject: [PATCH 08/28] fix: notice all close neighbors when positioning output
 segments

---
 src/position.rs | 30 ++++++++++++++++--------------
 src/topology.rs |  8 +++++---
 2 files changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/position.rs b/src/position.rs
index a6229a9..c407770 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -366,17 +366,18 @@ pub(crate) fn compute_positions(
             let (_, cmp_end_y, cmp_order) = order.iter().find(|(_, end_y, _)| *end_y > y0).unwrap();
 
             if cmp_order == Order::Left {
-                let next_close_y = scan_order
-                    .close_west_neighbor_height_after(cur, y0, orig_seg_map, segs, cmp)
-                    .unwrap_or(f64::INFINITY);
-                y1 = y1.min(next_close_y.max(cmp_end_y));
                 break;
-            } else {
-                y1 = y1.min(cmp_end_y).min(endpoints[nbr.second_half()].y);
-                west_scan.push(nbr);
             }
+            y1 = y1.min(cmp_end_y).min(endpoints[nbr.second_half()].y);
+            west_scan.push(nbr);
             cur = nbr;
         }
+        // Stop when something else gets close (even if there's no neighbor there yet).
+        if let Some(next_close_y) =
+            scan_order.close_west_neighbor_height_after(cur, y0, orig_seg_map, segs, cmp)
+        {
+            y1 = y1.min(next_close_y);
+        }
 
         let mut east_scan = vec![];
         let mut cur = entry.idx;
@@ -385,17 +386,18 @@ pub(crate) fn compute_positions(
             let (_, cmp_end_y, cmp_order) = order.iter().find(|(_, end_y, _)| *end_y > y0).unwrap();
 
             if cmp_order == Order::Left {
-                let next_close_y = scan_order
-                    .close_east_neighbor_height_after(cur, y0, orig_seg_map, segs, cmp)
-                    .unwrap_or(f64::INFINITY);
-                y1 = y1.min(next_close_y.max(cmp_end_y));
                 break;
-            } else {
-                y1 = y1.min(cmp_end_y).min(endpoints[nbr.second_half()].y);
-                east_scan.push(nbr);
             }
+            y1 = y1.min(cmp_end_y).min(endpoints[nbr.second_half()].y);
+            east_scan.push(nbr);
             cur = nbr;
         }
+        // Stop when something else gets close (even if there's no neighbor there yet).
+        if let Some(next_close_y) =
+            scan_order.close_east_neighbor_height_after(cur, y0, orig_seg_map, segs, cmp)
+        {
+            y1 = y1.min(next_close_y);
+        }
 
         let mut neighbors = west_scan;
         neighbors.reverse();
diff --git a/src/topology.rs b/src/topology.rs
index 54a38b8..ed8c3e0 100644
--- a/src/topology.rs
+++ b/src/topology.rs
@@ -1682,20 +1682,22 @@ impl HalfScanLineOrder {
         segs: &Segments,
         cmp: &mut ComparisonCache,
     ) -> Option<f64> {
-        for (_, y1, other_seg) in self.iter(seg) {
+        for (y0, y1, other_seg) in self.iter(seg) {
             if y1 <= y {
                 continue;
             }
 
             if let Some(other_seg) = other_seg {
                 let order = cmp.compare_segments(segs, orig_seg[seg], orig_seg[other_seg]);
+                // The neighbor might already be close when it becomes our neighbor.
+                let start_y = y0.max(y);
                 let next_ish = order
                     .iter()
                     .take_while(|(order_y0, _, _)| *order_y0 < y1)
                     .filter(|(_, _, order)| *order == Order::Ish)
-                    .find(|(order_y0, _, _)| *order_y0 >= y);
+                    .find(|(_, order_y1, _)| *order_y1 > start_y);
                 if let Some((order_y0, _, _)) = next_ish {
-                    return Some(order_y0);
+                    return Some(order_y0.max(start_y));
                 }
             }
         }
-- 
2.43.0


From b6bef08a26734262c14afe67e9f4c93c6316233f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:49 +0000
Subject: [PATCH 09/28] fix: don't copy lines past the height that's being
 positioned

---
 src/position.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/position.rs b/src/position.rs
index c407770..cc8ddfc 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -275,7 +275,11 @@ fn copy_from_input(
 ) {
     if seg.is_line() {
         out.copied_idx = Some(out.path.elements().len() - 1);
-        out.path.line_to(endpoint);
+        if endpoint.y <= y1 {
+            out.path.line_to(endpoint);
+        } else {
+            out.path.line_to((seg.at_y(y1), y1));
+        }
         return;
     }
 
-- 
2.43.0


From bf008c42e4a9b421cd5e2c532615b6acd460c75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:17 +0000
Subject: [PATCH 10/28] fix: don't get stuck when several close curves want to
 swap at once

---
 src/curve/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/curve/mod.rs b/src/curve/mod.rs
index 10815ec..9ad24b3 100644
--- a/src/curve/mod.rs
+++ b/src/curve/mod.rs
@@ -167,7 +167,11 @@ impl CurveOrder {
         // It will get handled at the endpoint anyway.
         let (_, next_y1, next_order) = iter.next()?;
 
-        let cross_y = (y0 + y1) / 2.0;
+        // If we're already past the middle then there's no need to rush (and rushing would
+        // be bad: if three curves each want to swap with the next one right now, the sweep-line
+        // might never make any progress).
+        let mid_y = (y0 + y1) / 2.0;
+        let cross_y = if mid_y > y { mid_y } else { y1 };
         match next_order {
             Order::Right => Some(CurveInteraction::Cross(cross_y)),
             Order::Left => {
-- 
2.43.0


From 69a80bed2726434fb3e1d497855ed2185aaf2f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:24 +0000
Subject: [PATCH 11/28] fix: tighter bounds for approximating parabolas

---
 src/position.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/position.rs b/src/position.rs
index cc8ddfc..bbdc60a 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -9,7 +9,7 @@
 
 use std::collections::BinaryHeap;
 
-use kurbo::{BezPath, CubicBez};
+use kurbo::{BezPath, CubicBez, Shape as _};
 
 use crate::{
     curve::{
@@ -168,10 +168,10 @@ fn x_bounds(c: CubicBez, too_short: bool) -> (f64, f64) {
     let dx = [c.p1.x - c.p0.x, c.p2.x - c.p1.x, c.p3.x - c.p2.x];
     let monotone = dx.iter().all(|d| *d >= 0.0) || dx.iter().all(|d| *d <= 0.0);
     if monotone || too_short {
-        (
-            c.p0.x.min(c.p1.x).min(c.p2.x).min(c.p3.x),
-            c.p0.x.max(c.p1.x).max(c.p2.x).max(c.p3.x),
-        )
+        // Use the curve's extents and not just the control points', because the bounds
+        // will be used for control points of neighboring curves also.
+        let bbox = c.bounding_box();
+        (bbox.x0, bbox.x1)
     } else {
         (f64::NEG_INFINITY, f64::INFINITY)
     }
-- 
2.43.0


From 05d7dea095b018d19b32c3d808203fe2a0d245f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:24 +0000
Subject: [PATCH 12/28] fix: look past almost-horizontal segments when
 inserting in the sweep line

---
 src/order.rs            | 5 +++++
 src/sweep/sweep_line.rs | 7 ++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/order.rs b/src/order.rs
index d3f8b7c..ff04d0a 100644
--- a/src/order.rs
+++ b/src/order.rs
@@ -51,6 +51,11 @@ impl ComparisonCache {
         }
     }
 
+    /// How close can two curves be to be declared "ish"?
+    pub(crate) fn tolerance(&self) -> f64 {
+        self.tolerance
+    }
+
     /// Compares two segments, returning their order.
     ///
     /// TODO: this API will change to something with less cloning
diff --git a/src/sweep/sweep_line.rs b/src/sweep/sweep_line.rs
index 50e2945..24ce90d 100644
--- a/src/sweep/sweep_line.rs
+++ b/src/sweep/sweep_line.rs
@@ -1201,7 +1201,12 @@ impl SegmentOrder {
             match cmp.order_at(y) {
                 Order::Right => {
                     // The segment at i is definitely to the right of the new one.
-                    break;
+                    // But if it's almost horizontal, it might not have finished
+                    // crossing something that's to the left of us.
+                    let other = &segments[self.segs[i].seg];
+                    if other.lower(y, comparer.tolerance()) > seg_x {
+                        break;
+                    }
                 }
                 Order::Ish => {
                     // We could go either way, and we'll update our preference based on the
-- 
2.43.0


From d3d54433423ba9c1e1e1fad2e81a508ddb75a5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:40 +0000
Subject: [PATCH 13/28] fix: label touching contours correctly

When several contours touched at a point, the contour split out of the walk
was always labelled as the opposite kind of the one that the walk started
with. So two holes touching at a point made one of them an outer contour, and a
hole touching its parent at the parent's first point switched the roles of the
two.
---
 src/topology.rs | 45 +++++++++++++++++++++++++++++++++++++--------
 1 file changed, 37 insertions(+), 8 deletions(-)

diff --git a/src/topology.rs b/src/topology.rs
index ed8c3e0..8c45000 100644
--- a/src/topology.rs
+++ b/src/topology.rs
@@ -1212,6 +1212,21 @@ impl<W: WindingNumber> Topology<W> {
                     panic!("I'm {idx:?}, west is {west:?}. Y u no have contour?");
                 }
             };
+            // The walk that we're about to do follows the boundary of a single region of the
+            // output set. If that walk comes across several contours (because they touch at a
+            // point), at most one of them -- the one that we're starting with -- is an outer
+            // contour. The others are all holes in the same region.
+            let touching_contour = |start: &Contour| Contour {
+                path: BezPath::default(),
+                parent: if start.outer {
+                    Some(contour_idx)
+                } else {
+                    start.parent
+                },
+                outer: false,
+            };
+            // Have we already split out the contour that we started with?
+            let mut found_start_loop = false;
             // Reserve a space for the unfinished outer contour, as described above.
             ret.contours.push(contour);
 
@@ -1264,15 +1279,22 @@ impl<W: WindingNumber> Topology<W> {
                     // seg_idx should point to the end of a segment whose start is at p.
                     debug_assert_eq!(self.point_idx[segs[seg_idx].other_half()], p);
 
-                    let loop_contour_idx = ContourIdx(ret.contours.len());
+                    let loop_contour_idx = if seg_idx == 0 && !found_start_loop {
+                        // It's the contour that we started walking, and we've come back to
+                        // the beginning of it before walking the other contours that share
+                        // its starting point.
+                        found_start_loop = true;
+                        contour_idx
+                    } else {
+                        ret.contours
+                            .push(touching_contour(&ret.contours[contour_idx.0]));
+                        ContourIdx(ret.contours.len() - 1)
+                    };
                     for &seg in &segs[seg_idx..] {
                         seg_contour[seg.idx.0] = Some(loop_contour_idx);
                     }
-                    ret.contours.push(Contour {
-                        path: self.segs_to_path(&segs[seg_idx..], &positions),
-                        parent: Some(contour_idx),
-                        outer: !ret.contours[contour_idx.0].outer,
-                    });
+                    ret.contours[loop_contour_idx.0].path =
+                        self.segs_to_path(&segs[seg_idx..], &positions);
                     segs.truncate(seg_idx);
                     // In principle, we should also be unsetting `last_visit`
                     // for all points in the contour we just removed. I *think*
@@ -1285,10 +1307,17 @@ impl<W: WindingNumber> Topology<W> {
 
                 next = nbr.other_half();
             }
+            let last_contour_idx = if found_start_loop {
+                ret.contours
+                    .push(touching_contour(&ret.contours[contour_idx.0]));
+                ContourIdx(ret.contours.len() - 1)
+            } else {
+                contour_idx
+            };
             for &seg in &segs {
-                seg_contour[seg.idx.0] = Some(contour_idx);
+                seg_contour[seg.idx.0] = Some(last_contour_idx);
             }
-            ret.contours[contour_idx.0].path = self.segs_to_path(&segs, &positions);
+            ret.contours[last_contour_idx.0].path = self.segs_to_path(&segs, &positions);
         }
 
         ret
-- 
2.43.0


From 848824289a181f50446e717f8e84f9346c3a6b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:21 +0000
Subject: [PATCH 14/28] fix: only merge output segments that continue each
 other in the input

---
 src/topology.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/topology.rs b/src/topology.rs
index 8c45000..1457089 100644
--- a/src/topology.rs
+++ b/src/topology.rs
@@ -1116,13 +1116,36 @@ impl<W: WindingNumber> Topology<W> {
                 None
             }
         };
-        if self.is_simple_point(seg) {
+        if self.is_simple_point(seg) && self.continues_input_seg(seg, has_orig_orientation) {
             can_merge
         } else {
             None
         }
     }
 
+    /// Does the neighbor of `seg` (which should be the only one) continue the
+    /// input segment that `seg` came from?
+    ///
+    /// This isn't guaranteed just because `seg` starts in the middle of its
+    /// input segment: tiny pieces of an input segment can be dropped while
+    /// splitting it into monotonic pieces.
+    fn continues_input_seg(&self, seg: HalfOutputSegIdx, has_orig_orientation: bool) -> bool {
+        let orig_idx = self.orig_seg[seg.idx];
+        let (pred, succ) = if has_orig_orientation {
+            (self.segments.contour_prev(orig_idx), Some(orig_idx))
+        } else {
+            (Some(orig_idx), self.segments.contour_next(orig_idx))
+        };
+        let Some((pred, succ)) = pred.zip(succ) else {
+            return false;
+        };
+        let nbr = self.point_neighbors[seg].clockwise;
+        let nbr_idx = if has_orig_orientation { pred } else { succ };
+        self.orig_seg[nbr.idx] == nbr_idx
+            && self.segments.split_from_predecessor[pred].1
+                == self.segments.split_from_predecessor[succ].0
+    }
+
     fn input_seg_t(&self, out_seg: OutputSegIdx, t: f64) -> f64 {
         let orig_idx = self.orig_seg[out_seg];
         let split_from_pred = self.segments.split_from_predecessor[orig_idx];
-- 
2.43.0


From 837327faadaf19db7a3951ad7312d27152b71401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:37 +0000
Subject: [PATCH 15/28] fix: return an error for all inputs that aren't finite

---
 src/lib.rs | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 047f395..c1a3625 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -96,17 +96,14 @@ pub fn binary_op(
     fill_rule: FillRule,
     op: BinaryOp,
 ) -> Result<topology::Contours, Error> {
+    // The bounding box isn't reliable if the input isn't finite.
+    check_finite(set_a)?;
+    check_finite(set_b)?;
+
     // Find the extremal values, to figure out how much precision we can support.
     let bbox = set_a.bounding_box().union(set_b.bounding_box());
     let min = bbox.min_x().min(bbox.min_y());
     let max = bbox.max_x().max(bbox.max_y());
-    if min.is_infinite() || max.is_infinite() {
-        return Err(Error::Infinity);
-    }
-    // If there was any NaN in the input, it should have propagated to the min and max.
-    if min.is_nan() || max.is_nan() {
-        return Err(Error::NaN);
-    }
 
     // TODO: we did some analysis for error bounds in the case of polylines.
     // Think more about what makes sense for curves.
@@ -118,6 +115,26 @@ pub fn binary_op(
     binary_op_with_eps(set_a, set_b, fill_rule, op, eps)
 }
 
+/// Checks that all the points in a path have finite coordinates.
+fn check_finite(path: &kurbo::BezPath) -> Result<(), Error> {
+    let points = |el: &kurbo::PathEl| match *el {
+        kurbo::PathEl::MoveTo(p) | kurbo::PathEl::LineTo(p) => [p; 3],
+        kurbo::PathEl::QuadTo(p0, p1) => [p0, p1, p1],
+        kurbo::PathEl::CurveTo(p0, p1, p2) => [p0, p1, p2],
+        kurbo::PathEl::ClosePath => [kurbo::Point::ZERO; 3],
+    };
+
+    for p in path.elements().iter().flat_map(points) {
+        if p.is_nan() {
+            return Err(Error::NaN);
+        }
+        if !p.is_finite() {
+            return Err(Error::Infinity);
+        }
+    }
+    Ok(())
+}
+
 /// Computes a boolean operation between two sets, each of which is described as
 /// a collection of closed polylines.
 ///
@@ -130,6 +147,9 @@ pub fn binary_op_with_eps(
     op: BinaryOp,
     eps: f64,
 ) -> Result<topology::Contours, Error> {
+    check_finite(set_a)?;
+    check_finite(set_b)?;
+
     let top = Topology::from_paths_binary(set_a, set_b, eps)?;
     #[cfg(feature = "debug-svg")]
     {
-- 
2.43.0


From 41e5344aa4ab6967108227c8f8103ced8549359a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:53 +0000
Subject: [PATCH 16/28] fix: the ends of a non-closed path have no contour
 neighbors

---
 src/segments.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/segments.rs b/src/segments.rs
index 1fdb66b..20194d9 100644
--- a/src/segments.rs
+++ b/src/segments.rs
@@ -386,6 +386,9 @@ impl Segments {
                         start_point,
                         end_point,
                     });
+                } else {
+                    self.contour_prev[start_idx] = None;
+                    self.contour_next[end_idx] = None;
                 }
             }
         }
-- 
2.43.0


From 1b95825729d1d94902c3356ce739958511a74853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:14 +0000
Subject: [PATCH 17/28] fix: don't ask for more accuracy than floating point
 can give when comparing curves

---
 src/curve/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/curve/mod.rs b/src/curve/mod.rs
index 9ad24b3..3ead1f6 100644
--- a/src/curve/mod.rs
+++ b/src/curve/mod.rs
@@ -1051,6 +1051,13 @@ fn intersect_cubics_rec(
     let err = max_coeff * 1e-12;
     dep.dmax += err;
     dep.dmin -= err;
+
+    // The padding means that we can't ask for better accuracy than this (and if
+    // we did, we'd recurse until the pieces were tiny).
+    let max_x = [c0.p0, c0.p1, c0.p2, c0.p3, c1.p0, c1.p1, c1.p2, c1.p3]
+        .iter()
+        .fold(0.0f64, |acc, p| acc.max(p.x.abs()));
+    let max_err = accuracy.max(max_x * 1e-11);
     // dbg!(ep0);
     // dbg!(ep1);
     // dbg!(dep);
@@ -1125,7 +1132,7 @@ fn intersect_cubics_rec(
             //
             // TODO: investigate fuzz/artifacts/curve_order/crash-bee7187920a9fe9e38bbf40ce6ff8cd80774c7a7
             // more closely. It seems to recurse more than it should...
-            if y1 - y0 <= accuracy || dep.dmax - dep.dmin <= accuracy {
+            if y1 - y0 <= accuracy || dep.dmax - dep.dmin <= max_err {
                 out.push(new_y1, order);
             } else if new_y1 - new_y0 < 0.5 * (y1 - y0) {
                 intersect_cubics_rec(orig_c0, orig_c1, new_y0, new_y1, tolerance, accuracy, out);
-- 
2.43.0


From 227c6739b33798c9ea6415bbd1db26b2a1b039ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:48 +0000
Subject: [PATCH 18/28] fix: compare small curves as accurately as big ones

The approximating quadratics of small curves have large coefficients, which
made the error estimate larger than the requested accuracy, so that comparing
two close curves of size 0.01 with a tolerance of 1e-9 recursed practically
forever.
---
 src/curve/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/curve/mod.rs b/src/curve/mod.rs
index 3ead1f6..b7f86cc 100644
--- a/src/curve/mod.rs
+++ b/src/curve/mod.rs
@@ -1026,8 +1026,11 @@ fn intersect_cubics_rec(
     // If the y coordinates are very off-center, the quadratic coefficients become
     // large and cause instability. So we re-center and then compensate afterwards.
     let y_mid = (y0 + y1) / 2.0;
-    let y_unscale = (y1 - y0).max(1.0);
-    //let y_unscale = 1.0f64;
+    let max_x = [c0.p0, c0.p1, c0.p2, c0.p3, c1.p0, c1.p1, c1.p2, c1.p3]
+        .iter()
+        .fold(0.0f64, |acc, p| acc.max(p.x.abs()));
+    // The coefficients also become large if the curves are small, and so we scale those up.
+    let y_unscale = (y1 - y0).max(max_x.min(1.0));
     let y_scale = y_unscale.recip();
     c0.p0.y = (c0.p0.y - y_mid) * y_scale;
     c0.p1.y = (c0.p1.y - y_mid) * y_scale;
@@ -1054,9 +1057,6 @@ fn intersect_cubics_rec(
 
     // The padding means that we can't ask for better accuracy than this (and if
     // we did, we'd recurse until the pieces were tiny).
-    let max_x = [c0.p0, c0.p1, c0.p2, c0.p3, c1.p0, c1.p1, c1.p2, c1.p3]
-        .iter()
-        .fold(0.0f64, |acc, p| acc.max(p.x.abs()));
     let max_err = accuracy.max(max_x * 1e-11);
     // dbg!(ep0);
     // dbg!(ep1);
-- 
2.43.0


From 84345c2edc8e884a99bc411882c9fa48eb76c76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:00 +0000
Subject: [PATCH 19/28] fix: don't let rotation make curve comparison's
 tolerance smaller

Almost-horizontal curves are rotated by 45 degrees before being compared, which
stretches the horizontal distance of their almost-vertical pieces by sqrt(2), so
they got a strict order when they were only 0.71 * tolerance apart.
---
 src/curve/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/curve/mod.rs b/src/curve/mod.rs
index b7f86cc..924e7a0 100644
--- a/src/curve/mod.rs
+++ b/src/curve/mod.rs
@@ -948,6 +948,10 @@ fn with_rotation(
         return true;
     }
 
+    // Pieces of the curves that were vertical are at a 45 degree angle now, and so their
+    // horizontal distance has grown by a factor of sqrt(2).
+    let tolerance = tolerance * std::f64::consts::SQRT_2;
+
     let mut order_rot = CurveOrder::new(y0_rot);
     //dbg!(c0_rot, c1_rot, y0_rot, y1_rot);
     intersect_cubics_rec(
-- 
2.43.0


From e67c55e6d80afbf7225f51c970ad5811ce40601b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:05 +0000
Subject: [PATCH 20/28] fix: don't skip the next touch of curves that are close
 already

Starting from a height where the curves are close, next_touch_after skipped the
first touch after they separate.
---
 src/curve/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/curve/mod.rs b/src/curve/mod.rs
index 924e7a0..c08282d 100644
--- a/src/curve/mod.rs
+++ b/src/curve/mod.rs
@@ -165,7 +165,7 @@ impl CurveOrder {
 
         // If this interval is the last one, we'll say there's no touch.
         // It will get handled at the endpoint anyway.
-        let (_, next_y1, next_order) = iter.next()?;
+        let (_, _, next_order) = iter.next()?;
 
         // If we're already past the middle then there's no need to rush (and rushing would
         // be bad: if three curves each want to swap with the next one right now, the sweep-line
@@ -178,7 +178,9 @@ impl CurveOrder {
                 if y < y0 {
                     Some(CurveInteraction::Touch(cross_y))
                 } else {
-                    self.next_touch_after(next_y1)
+                    // They're already touching at `y`, so look for the next touch after
+                    // they separate.
+                    self.next_touch_after(y1)
                 }
             }
             Order::Ish => {
-- 
2.43.0


From bf0f48c16954bffc7a95b0de541551791a5248e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:11 +0000
Subject: [PATCH 21/28] fix: signs of linear and perfect-square quadratics

A decreasing linear function was reported with the opposite sign, and both
x^2 and the constant 1 were reported as zero everywhere.
---
 src/curve/mod.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/curve/mod.rs b/src/curve/mod.rs
index c08282d..65e3d7a 100644
--- a/src/curve/mod.rs
+++ b/src/curve/mod.rs
@@ -581,10 +581,10 @@ impl Quadratic {
             let root2 = -z / (2.0 * c2);
 
             // If z is zero, it means that c1 and disc are both (exactly!) zero,
-            // and so everything is zero.
+            // and so at least one of c2 and c0 is zero and the sign never changes.
             if z == 0.0 {
                 QuadraticSigns {
-                    initial_sign: 0.0,
+                    initial_sign: if c2 == 0.0 { c0 } else { c2 },
                     smaller_root: f64::NEG_INFINITY,
                     bigger_root: f64::NEG_INFINITY,
                 }
@@ -593,7 +593,14 @@ impl Quadratic {
                 // (although possibly infinite).
                 debug_assert!(!root1.is_nan() && !root2.is_nan());
 
-                let initial_sign = if root2.is_infinite() { c1 } else { c2 };
+                // If it's linear, it has the sign of c1 after root1 and the opposite sign before.
+                let initial_sign = if root2 == f64::INFINITY {
+                    -c1
+                } else if root2 == f64::NEG_INFINITY {
+                    c1
+                } else {
+                    c2
+                };
 
                 QuadraticSigns {
                     initial_sign,
-- 
2.43.0


From 1c3e8daa6e7ff37a2c8ba2bee31144ea49254b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:13 +0000
Subject: [PATCH 22/28] fix: keep lines in order when positioning them, without
 straying from the input

Lines that were positioned in several steps returned to the input line at
each step, although only the order of their endpoints is known. And endpoints
that were moved far away by almost-horizontal neighbors dragged the whole
line along.
---
 src/position.rs | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/position.rs b/src/position.rs
index bbdc60a..3895bba 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -274,11 +274,39 @@ fn copy_from_input(
     accuracy: f64,
 ) {
     if seg.is_line() {
+        // Nothing keeps this line apart from close-by lines, except for the order of the
+        // endpoints. So stay on the line between our endpoints, even if it isn't quite the
+        // original line. Only if the endpoints were moved by a lot (because of an
+        // almost-horizontal neighbor), we return to the original line within a short vertical
+        // distance.
+        let dir = seg.end().to_kurbo() - seg.start().to_kurbo();
+        let is_far = |p: kurbo::Point| {
+            (seg.at_y(p.y) - p.x).abs() * dir.y.abs() > 16.0 * accuracy * dir.hypot()
+        };
+        let start = bez_end(&out.path);
+        if start.y + 4.0 * accuracy < y1.min(endpoint.y) {
+            if is_far(start) {
+                let y = start.y + accuracy;
+                out.path.line_to((seg.at_y(y), y));
+            }
+            if is_far(endpoint) {
+                let y = y1.min(endpoint.y - accuracy);
+                out.copied_idx = Some(out.path.elements().len() - 1);
+                out.path.line_to((seg.at_y(y), y));
+                if endpoint.y <= y1 {
+                    out.path.line_to(endpoint);
+                }
+                return;
+            }
+        }
+
         out.copied_idx = Some(out.path.elements().len() - 1);
         if endpoint.y <= y1 {
             out.path.line_to(endpoint);
         } else {
-            out.path.line_to((seg.at_y(y1), y1));
+            let start = bez_end(&out.path);
+            let t = (y1 - start.y) / (endpoint.y - start.y);
+            out.path.line_to((start.lerp(endpoint, t).x, y1));
         }
         return;
     }
-- 
2.43.0


From 26c402107ace0415db5ac55b3d5434b3e36f95bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:13 +0000
Subject: [PATCH 23/28] fix: include close neighbors in contour-adjacent
 changed intervals

Otherwise the positions of a segment at one height could end up on the wrong
side of a close neighbor that wasn't repositioned.
---
 src/sweep/sweep_line.rs | 120 +++++++++++++++++++++-------------------
 1 file changed, 64 insertions(+), 56 deletions(-)

diff --git a/src/sweep/sweep_line.rs b/src/sweep/sweep_line.rs
index 24ce90d..f9a45b8 100644
--- a/src/sweep/sweep_line.rs
+++ b/src/sweep/sweep_line.rs
@@ -929,7 +929,8 @@ impl<'segs> Sweeper<'segs> {
     ///
     /// This method adds all the changed intervals that are needed to handle this case.
     fn compute_contour_adjacent_changed_intervals(&mut self) {
-        for &j in &self.segs_needing_positions {
+        for k in 0..self.segs_needing_positions.len() {
+            let j = self.segs_needing_positions[k];
             let seg_entry = self.line.segs[j];
 
             if seg_entry.old_seg.is_some() {
@@ -983,12 +984,66 @@ impl<'segs> Sweeper<'segs> {
             }
 
             if end_idx > start_idx {
-                self.changed_intervals.push(ChangedInterval {
-                    segs: start_idx..(end_idx + 1),
-                    horizontals: None,
-                });
+                let segs = self.add_close_segments(start_idx..(end_idx + 1));
+                self.changed_intervals
+                    .push(ChangedInterval::from_seg_interval(segs));
+            }
+        }
+    }
+
+    /// Extends a range of segments by all the neighbors that are close to it.
+    fn add_close_segments(&mut self, range: std::ops::Range<usize>) -> std::ops::Range<usize> {
+        let mut start_idx = range.start;
+        let mut end_idx = range.end;
+
+        for i in end_idx..self.line.segs.len() {
+            // Note that end_idx is mutated in the loop, so this points to the segment
+            // that we most recently added to the changed interval. Modulo some subtleties
+            // involving conservative/non-conservative comparisons, this will usually be
+            // `i - 1`.
+            let seg_idx = self.line.seg(end_idx - 1);
+            let next_seg_idx = self.line.seg(i);
+            let strong_cmp = self.compare_segments_conservatively(seg_idx, next_seg_idx);
+            if strong_cmp.order_at(self.y) == Order::Left {
+                break;
+            } else {
+                // TODO: re-enable this (and below) once our strong
+                // comparisons are implemented properly with minkowski sums
+                //debug_assert_eq!(strong_cmp.order_at(self.y), Order::Ish);
+                let cmp = self.compare_segments(seg_idx, next_seg_idx);
+                if cmp.order_at(self.y) != Order::Left {
+                    for j in end_idx..=i {
+                        self.line.segs[j].in_changed_interval = true;
+                        self.line.segs[j].set_old_idx_if_unset(j);
+                    }
+
+                    end_idx = i + 1;
+                }
+            }
+        }
+
+        for i in (0..start_idx).rev() {
+            let prev_seg_idx = self.line.seg(i);
+            // Note that start_idx is mutated in the loop, so this points to the segment
+            // that we most recently added to the changed interval.
+            let seg_idx = self.line.seg(start_idx);
+            let strong_cmp = self.compare_segments_conservatively(prev_seg_idx, seg_idx);
+            if strong_cmp.order_at(self.y) == Order::Left {
+                break;
+            } else {
+                //debug_assert_eq!(strong_cmp.order_at(self.y), Order::Ish);
+                let cmp = self.compare_segments(prev_seg_idx, seg_idx);
+                if cmp.order_at(self.y) != Order::Left {
+                    for j in i..start_idx {
+                        self.line.segs[j].in_changed_interval = true;
+                        self.line.segs[j].set_old_idx_if_unset(j);
+                    }
+                    start_idx = i;
+                }
             }
         }
+
+        start_idx..end_idx
     }
 
     /// Updates our internal `changed_intervals` state based on the segments marked
@@ -1001,7 +1056,8 @@ impl<'segs> Sweeper<'segs> {
         self.compute_horizontal_changed_intervals();
         self.compute_contour_adjacent_changed_intervals();
 
-        for &idx in &self.segs_needing_positions {
+        for k in 0..self.segs_needing_positions.len() {
+            let idx = self.segs_needing_positions[k];
             if self.line.segs[idx].in_changed_interval {
                 continue;
             }
@@ -1012,57 +1068,9 @@ impl<'segs> Sweeper<'segs> {
             self.line.segs[idx].set_old_idx_if_unset(idx);
 
             self.line.segs[idx].in_changed_interval = true;
-            let mut start_idx = idx;
-            let mut end_idx = idx + 1;
-
-            for i in (idx + 1)..self.line.segs.len() {
-                // Note that end_idx is mutated in the loop, so this points to the segment
-                // that we most recently added to the changed interval. Modulo some subtleties
-                // involving conservative/non-conservative comparisons, this will usually be
-                // `i - 1`.
-                let seg_idx = self.line.seg(end_idx - 1);
-                let next_seg_idx = self.line.seg(i);
-                let strong_cmp = self.compare_segments_conservatively(seg_idx, next_seg_idx);
-                if strong_cmp.order_at(self.y) == Order::Left {
-                    break;
-                } else {
-                    // TODO: re-enable this (and below) once our strong
-                    // comparisons are implemented properly with minkowski sums
-                    //debug_assert_eq!(strong_cmp.order_at(self.y), Order::Ish);
-                    let cmp = self.compare_segments(seg_idx, next_seg_idx);
-                    if cmp.order_at(self.y) != Order::Left {
-                        for j in end_idx..=i {
-                            self.line.segs[j].in_changed_interval = true;
-                            self.line.segs[j].set_old_idx_if_unset(j);
-                        }
-
-                        end_idx = i + 1;
-                    }
-                }
-            }
-
-            for i in (0..start_idx).rev() {
-                let prev_seg_idx = self.line.seg(i);
-                // Note that start_idx is mutated in the loop, so this points to the segment
-                // that we most recently added to the changed interval.
-                let seg_idx = self.line.seg(start_idx);
-                let strong_cmp = self.compare_segments_conservatively(prev_seg_idx, seg_idx);
-                if strong_cmp.order_at(self.y) == Order::Left {
-                    break;
-                } else {
-                    //debug_assert_eq!(strong_cmp.order_at(self.y), Order::Ish);
-                    let cmp = self.compare_segments(prev_seg_idx, seg_idx);
-                    if cmp.order_at(self.y) != Order::Left {
-                        for j in i..start_idx {
-                            self.line.segs[j].in_changed_interval = true;
-                            self.line.segs[j].set_old_idx_if_unset(j);
-                        }
-                        start_idx = i;
-                    }
-                }
-            }
+            let segs = self.add_close_segments(idx..(idx + 1));
             self.changed_intervals
-                .push(ChangedInterval::from_seg_interval(start_idx..end_idx));
+                .push(ChangedInterval::from_seg_interval(segs));
         }
         self.changed_intervals.sort_by_key(|r| r.segs.start);
 
-- 
2.43.0


From 433755835c44cef1da7fb6e00f551d3e4e556a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:05 +0000
Subject: [PATCH 24/28] fix: judge curves on an interval as short as the
 accuracy by their bounding boxes

---
 src/curve/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/curve/mod.rs b/src/curve/mod.rs
index 65e3d7a..7226fe0 100644
--- a/src/curve/mod.rs
+++ b/src/curve/mod.rs
@@ -1015,7 +1015,7 @@ fn intersect_cubics_rec(
         out.push(y1, Order::Ish);
         return;
     }
-    if y1 - y0 < accuracy {
+    if y1 - y0 <= accuracy {
         // For very short intervals there's some numerical instability in constructing the
         // approximating quadratics, so we just do a coarser comparison based on bounding
         // boxes.
-- 
2.43.0


From b72c22664672d42d5ee2e912101d716cde869498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:07 +0000
Subject: [PATCH 25/28] fix: pick an automatic tolerance that the curve
 comparisons support

---
 src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index c1a3625..80b5e8a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -108,7 +108,10 @@ pub fn binary_op(
     // TODO: we did some analysis for error bounds in the case of polylines.
     // Think more about what makes sense for curves.
     let m_2 = min.abs().max(max.abs());
-    let eps = m_2 * (f64::EPSILON * 64.0);
+    //
+    // The curve comparisons use approximations whose errors are relative to the coordinates, so
+    // we can't get close to the limits of `f64` accuracy (see `curve::intersect_cubics`).
+    let eps = m_2 * 1e-9;
     let eps = eps.max(1e-6);
 
     debug_assert!(eps.is_finite());
-- 
2.43.0


From f5b95efdd414467b64ff96aa65edfde9345b8d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:31 +0000
Subject: [PATCH 26/28] fix: don't lose accuracy when comparing rotated curves

Curves that became horizontal by rotating them were compared inaccurately, and
rounding errors could make the intervals of a comparison go backwards.
---
 src/curve/mod.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/curve/mod.rs b/src/curve/mod.rs
index 7226fe0..de95a5f 100644
--- a/src/curve/mod.rs
+++ b/src/curve/mod.rs
@@ -935,10 +935,14 @@ fn with_rotation(
     let c1_rot = transform * c1;
 
     // Check that they're still y-monotonic after rotation (false negatives are allowed).
-    if c0_rot.p1.y < c0_rot.p0.y || c0_rot.p2.y < c0_rot.p1.y || c0_rot.p3.y < c0_rot.p2.y {
-        return false;
-    }
-    if c1_rot.p1.y < c1_rot.p0.y || c1_rot.p2.y < c1_rot.p1.y || c1_rot.p3.y < c1_rot.p2.y {
+    // They mustn't have become almost horizontal either, because then we'd be just as
+    // inaccurate after rotation, but in parts of the curves that were fine before.
+    let increasing = |c: CubicBez| {
+        [c.p1 - c.p0, c.p2 - c.p1, c.p3 - c.p2]
+            .iter()
+            .all(|v| v.y >= 0.25 * v.x.abs())
+    };
+    if !increasing(c0_rot) || !increasing(c1_rot) {
         return false;
     }
 
@@ -974,10 +978,13 @@ fn with_rotation(
     );
 
     //dbg!(&order_rot);
+    let mut y = y0;
     for (_new_y0, new_y1, order) in order_rot.iter() {
         let x1 = (solve_x_for_y(c0_rot, new_y1) + solve_x_for_y(c1_rot, new_y1)) / 2.0;
         let p1 = transform.inverse() * kurbo::Point::new(x1, new_y1);
-        out.push(p1.y.clamp(y0, y1), order);
+        // Rounding errors mustn't make us go backwards.
+        y = p1.y.clamp(y, y1);
+        out.push(y, order);
     }
     //dbg!(&out);
     out.cmps.last_mut().unwrap().end = y1;
-- 
2.43.0


From cc8af43d545e1fa5ea4313eb9971f6b606fccde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:42 +0000
Subject: [PATCH 27/28] fix: don't lay out empty intervals when comparing
 curves

---
 src/curve/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/curve/mod.rs b/src/curve/mod.rs
index de95a5f..bac8780 100644
--- a/src/curve/mod.rs
+++ b/src/curve/mod.rs
@@ -1140,6 +1140,10 @@ fn intersect_cubics_rec(
         //     solve_x_for_y(orig_c0, new_y1),
         //     solve_x_for_y(orig_c1, new_y1)
         // );
+        if new_y0 >= new_y1 {
+            // Rounding made the interval empty.
+            continue;
+        }
         if order == Order::Ish {
             let mid = 0.5 * (new_y0 + new_y1);
 
-- 
2.43.0


From 816e14286ed06f65509998fcf8ea8d10fd77df3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:42 +0000
Subject: [PATCH 28/28] fix: don't move almost horizontal curves past their
 ends

Endpoints that were moved horizontally dragged along short curves, lines that are
close to curves, and curves that were close to several others in a row. And putting
curves in order could take them past the ends of all of them.
---
 src/position.rs | 37 ++++++++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/src/position.rs b/src/position.rs
index 3895bba..4f7f5a2 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -44,7 +44,8 @@ fn ordered_curves_all_close(
     // are joined to the rest of the curve within a short vertical distance. Otherwise, they'd
     // drag along too much of the curve.
     let displaced_start = order.iter().zip(output_order).any(|(&s, &o)| {
-        out[o].path.elements().len() == 1 && is_displaced(&segs[s], bez_end(&out[o].path), accuracy)
+        let start = bez_end(&out[o].path);
+        start.y == y0 && is_displaced(&segs[s], start, accuracy)
     });
     let displaced_end = order.iter().zip(output_order).any(|(&s, &o)| {
         let endpoint = endpoints[o.second_half()];
@@ -214,6 +215,31 @@ fn approximate(
             out.push((approx, x_bounds(cubic, too_short)));
         }
 
+        // Almost-horizontal curves might need to be moved by a lot to get them in the right
+        // order. Don't do that in a single piece, because control points that come from
+        // different curves could take it past the end of all of them.
+        let height = y1 - y0;
+        if height > accuracy && height < 64.0 * accuracy {
+            let half = height / 2.0;
+            let control_xs = |(quad, bounds): &(EstParab, (f64, f64))| {
+                [
+                    quad.c0 - quad.c1 * half + quad.c2 * half * half,
+                    quad.c0 - quad.c2 * half * half,
+                    quad.c0 + quad.c1 * half + quad.c2 * half * half,
+                ]
+                .map(|x| x.max(bounds.0).min(bounds.1))
+            };
+            let moved = out[orig_len..].windows(2).any(|w| {
+                std::iter::zip(control_xs(&w[0]), control_xs(&w[1]))
+                    .any(|(left, right)| left > right + 16.0 * accuracy)
+            });
+            if moved {
+                y1 = (y0 + y1) / 2.0;
+                out.truncate(orig_len);
+                continue 'retry;
+            }
+        }
+
         return y1;
     }
 }
@@ -262,7 +288,7 @@ fn next_subsegment(seg: &Segment, out: &BezPath, y1: f64, endpoint: kurbo::Point
 
 // Has the endpoint `p` of a curve been moved away from the curve (horizontally) by more than `accuracy`?
 fn is_displaced(seg: &Segment, p: kurbo::Point, accuracy: f64) -> bool {
-    !seg.is_line() && (seg.at_y(p.y) - p.x).abs() > accuracy
+    (seg.at_y(p.y) - p.x).abs() > accuracy
 }
 
 // Extends `out` to height `y1`, by copying the input segment.
@@ -314,14 +340,15 @@ fn copy_from_input(
     // If the endpoints were moved by a lot, only copy the part of the curve between them
     // and join it to the endpoints within a short vertical distance.
     let start = bez_end(&out.path);
-    let can_shorten = start.y + 4.0 * accuracy < y1;
+    let step = accuracy.min((y1 - start.y) / 4.0);
+    let can_shorten = start.y < start.y + step && start.y + step < y1 - step && y1 - step < y1;
     if can_shorten && is_displaced(seg, start, accuracy) {
-        let y = start.y + accuracy;
+        let y = start.y + step;
         out.path.line_to((seg.at_y(y), y));
     }
     let displaced_end = can_shorten && endpoint.y == y1 && is_displaced(seg, endpoint, accuracy);
     if displaced_end {
-        y1 -= accuracy;
+        y1 -= step;
     }
 
     out.copied_idx = Some(out.path.elements().len() - 1);
-- 
2.43.0

