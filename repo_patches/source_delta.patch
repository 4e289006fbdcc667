From 47e43c53db2cc1b046279311ad5294f8e78dad56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:58 +0000
Subject: [PATCH 1/6] fix: detect cross of linear geometry covering whole
 border of compound one

---
 orient/core/processing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/orient/core/processing.py b/orient/core/processing.py
index a112357..d6645fa 100644
--- a/orient/core/processing.py
+++ b/orient/core/processing.py
@@ -139,7 +139,9 @@ def process_linear_compound_queue(events_queue: CompoundEventsQueue,
                  if test_not_in_goal_interior
                  else Relation.ENCLOSED)
                 if test_is_subset_of_goal
-                else Relation.TOUCH)
+                else (Relation.TOUCH
+                      if test_not_in_goal_interior
+                      else Relation.CROSS))
     elif test_is_subset_of_goal:
         return (Relation.COMPONENT
                 if test_not_in_goal_interior
-- 
2.43.0


From 8cfb4bde784ce466664387b313f2fcd7b8acd34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:58 +0000
Subject: [PATCH 2/6] fix: detect cross of contours passing through common
 vertices

---
 orient/core/processing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orient/core/processing.py b/orient/core/processing.py
index d6645fa..bd44009 100644
--- a/orient/core/processing.py
+++ b/orient/core/processing.py
@@ -102,8 +102,8 @@ def process_closed_linear_queue(events_queue: CompoundEventsQueue,
                   if has_no_touch
                   else Relation.TOUCH)
                  if (has_no_cross
-                     and (test_boundary_not_in_goal_interior
-                          is goal_boundary_not_in_test_interior))
+                     and test_boundary_not_in_goal_interior
+                     and goal_boundary_not_in_test_interior)
                  else Relation.CROSS)
                 if has_no_overlap
                 else Relation.OVERLAP)
-- 
2.43.0


From 3855377db666d6dfd9474f1eb49556c326e8d51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:58 +0000
Subject: [PATCH 3/6] fix: do not treat crossing of an edge as crossing of
 compound geometry

---
 orient/core/processing.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/orient/core/processing.py b/orient/core/processing.py
index bd44009..baf22d1 100644
--- a/orient/core/processing.py
+++ b/orient/core/processing.py
@@ -116,15 +116,17 @@ def process_linear_compound_queue(events_queue: CompoundEventsQueue,
     test_not_in_goal_interior = has_no_touch = True
     test_is_subset_of_goal = goal_border_subset_of_test = True
     for event in events_queue.sweep(stop_x):
-        if event.relation is SegmentsRelation.CROSS:
-            return Relation.CROSS
-        elif has_no_touch and event.relation is not SegmentsRelation.DISJOINT:
+        if has_no_touch and event.relation is not SegmentsRelation.DISJOINT:
             has_no_touch = False
         if event.from_test:
             if test_is_subset_of_goal and event.outside:
                 test_is_subset_of_goal = False
             if test_not_in_goal_interior and event.inside:
                 test_not_in_goal_interior = False
+            if not (test_is_subset_of_goal or test_not_in_goal_interior):
+                # crossing of a single edge is not enough,
+                # since parts of compound object may touch each other there
+                return Relation.CROSS
         elif (goal_border_subset_of_test
               and event.relation is not SegmentsRelation.OVERLAP):
             goal_border_subset_of_test = False
-- 
2.43.0


From 9d01e3b73484ddc004bf4c2ba6310210c573b235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:13 +0000
Subject: [PATCH 4/6] fix: relate segment with region by sides of touched edges

Classification of segments passing through or ending at vertices of a region
border depended on edges indices and orientation of the border.
---
 orient/core/region.py | 234 +++++++++++++++---------------------------
 1 file changed, 82 insertions(+), 152 deletions(-)

diff --git a/orient/core/region.py b/orient/core/region.py
index c92ed39..e194362 100644
--- a/orient/core/region.py
+++ b/orient/core/region.py
@@ -15,7 +15,6 @@ from . import box
 from .contour import (
     equal as contours_equal,
     orientation as contour_orientation,
-    point_vertex_line_divides_angle,
     to_edges_endpoints as contour_to_edges_endpoints,
     to_oriented_edges_endpoints as contour_to_oriented_segments
 )
@@ -52,164 +51,95 @@ def _locate_point(region: Region,
     return None, (Location.INTERIOR if result else Location.EXTERIOR)
 
 
-def _relate_segment_to_contour(contour: Contour,
-                               segment: Segment,
-                               context: Context) -> Relation:
-    # similar to segment-in-contour check
-    # but cross has higher priority over overlap
-    # because cross with contour will be considered as cross with region
-    # whereas overlap with contour can't be an overlap with region
-    # and should be classified by further analysis
-    has_no_touch = has_no_overlap = True
-    last_touched_edge_index = last_touched_edge_start = None
+def relate_segment(region: Region,
+                   segment: Segment,
+                   context: Context) -> Relation:
     start, end = segment.start, segment.end
-    for index, edge in enumerate(context.contour_segments(contour)):
-        edge_start, edge_end = edge_endpoints = edge.start, edge.end
+    vertices = region.vertices
+    positively_oriented = (contour_orientation(region, context)
+                           is Orientation.COUNTERCLOCKWISE)
+    has_no_touch = has_no_inside = has_no_outside = True
+    for index, edge in enumerate(context.contour_segments(region)):
         relation_with_edge = relate_segments(edge, segment, context)
-        if (relation_with_edge is Relation.COMPONENT
-                or relation_with_edge is Relation.EQUAL):
+        if relation_with_edge is Relation.DISJOINT:
+            continue
+        elif (relation_with_edge is Relation.COMPONENT
+              or relation_with_edge is Relation.EQUAL):
             return Relation.COMPONENT
-        elif (relation_with_edge is Relation.OVERLAP
-              or relation_with_edge is Relation.COMPOSITE):
-            if has_no_overlap:
-                has_no_overlap = False
-        elif relation_with_edge is Relation.TOUCH:
-            if has_no_touch:
-                has_no_touch = False
-            elif (index - last_touched_edge_index == 1
-                  and start not in edge_endpoints and end not in edge_endpoints
-                  and (context.angle_orientation(start, end, edge_start)
-                       is Orientation.COLLINEAR)
-                  and point_vertex_line_divides_angle(start,
-                                                      last_touched_edge_start,
-                                                      edge_start, edge_end,
-                                                      context)):
-                return Relation.CROSS
-            last_touched_edge_index = index
-            last_touched_edge_start = edge_start
         elif relation_with_edge is Relation.CROSS:
+            return relation_with_edge
+        has_no_touch = False
+        edge_start, edge_end = edge.start, edge.end
+        if context.segment_contains_point(segment, edge_end):
+            next_edge_end = vertices[(index + 1) % len(vertices)]
+            previous_vertex, next_vertex = ((edge_start, next_edge_end)
+                                            if positively_oriented
+                                            else (next_edge_end, edge_start))
+            locations = [_locate_ray_in_angle(previous_vertex, edge_end,
+                                              next_vertex, point, context)
+                         for point in (start, end)
+                         if point != edge_end]
+        elif context.segment_contains_point(segment, edge_start):
+            # will be/has been processed as the end of the previous edge
+            continue
+        else:
+            # endpoint of the segment lies strictly inside of the edge
+            point = (end
+                     if context.segment_contains_point(edge, start)
+                     else start)
+            locations = [Location.INTERIOR
+                         if ((context.angle_orientation(edge_start, edge_end,
+                                                        point)
+                              is Orientation.COUNTERCLOCKWISE)
+                             is positively_oriented)
+                         else Location.EXTERIOR]
+        if Location.INTERIOR in locations:
+            has_no_inside = False
+        if Location.EXTERIOR in locations:
+            has_no_outside = False
+        if not has_no_inside and not has_no_outside:
             return Relation.CROSS
-    vertices = contour.vertices
-    if not has_no_touch and last_touched_edge_index == len(vertices) - 1:
-        first_edge_endpoints = first_edge_start, first_edge_end = (
-            vertices[-1], vertices[0]
-        )
-        if (relate_segments(context.segment_cls(first_edge_start,
-                                                first_edge_end), segment,
-                            context) is Relation.TOUCH
-                and start not in first_edge_endpoints
-                and end not in first_edge_endpoints
-                and (context.angle_orientation(start, end, first_edge_start)
-                     is Orientation.COLLINEAR)
-                and point_vertex_line_divides_angle(start, vertices[-2],
-                                                    first_edge_start,
-                                                    first_edge_end, context)):
-            return Relation.CROSS
-    return ((Relation.DISJOINT if has_no_touch else Relation.TOUCH)
-            if has_no_overlap
-            else Relation.OVERLAP)
-
-
-def relate_segment(region: Region,
-                   segment: Segment,
-                   context: Context) -> Relation:
-    relation_with_contour = _relate_segment_to_contour(region, segment,
-                                                       context)
-    if (relation_with_contour is Relation.CROSS
-            or relation_with_contour is Relation.COMPONENT):
-        return relation_with_contour
-    start, end = segment.start, segment.end
-    start_index, start_location = _locate_point(region, start, context)
-    if relation_with_contour is Relation.DISJOINT:
+    if has_no_touch:
         return (Relation.DISJOINT
-                if start_location is Location.EXTERIOR
+                if locate_point(region, start, context) is Location.EXTERIOR
                 else Relation.WITHIN)
-    elif start_location is Location.EXTERIOR:
-        return Relation.TOUCH
-    elif start_location is Location.INTERIOR:
-        return Relation.ENCLOSED
-    else:
-        end_index, end_location = _locate_point(region, end, context)
-        if end_location is Location.EXTERIOR:
-            return Relation.TOUCH
-        elif end_location is Location.INTERIOR:
-            return Relation.ENCLOSED
-        else:
-            angle_orientation = context.angle_orientation
-            border_orientation = contour_orientation(region, context)
-            positively_oriented = (border_orientation
-                                   is Orientation.COUNTERCLOCKWISE)
-            vertices = region.vertices
-            edge_start, edge_end = (vertices[start_index - 1],
-                                    vertices[start_index])
-            if start == edge_start:
-                prev_start = (vertices[start_index - 2]
-                              if positively_oriented
-                              else vertices[start_index])
-                if (angle_orientation(prev_start, edge_start, edge_end)
-                        is border_orientation):
-                    if (angle_orientation(edge_start, prev_start, end)
-                            is border_orientation
-                            or angle_orientation(edge_end, edge_start, end)
-                            is border_orientation):
-                        return Relation.TOUCH
-                elif (angle_orientation(edge_start, prev_start, end)
-                      is angle_orientation(edge_end, edge_start, end)
-                      is border_orientation):
-                    return Relation.TOUCH
-            elif start == edge_end:
-                next_end = (vertices[(start_index + 1) % len(vertices)]
-                            if positively_oriented
-                            else vertices[len(vertices) - start_index - 3])
-                if (angle_orientation(edge_start, edge_end, next_end)
-                        is border_orientation):
-                    if (angle_orientation(edge_end, edge_start, end)
-                            is border_orientation
-                            or angle_orientation(next_end, edge_end, end)
-                            is border_orientation):
-                        return Relation.TOUCH
-                    elif (angle_orientation(edge_end, edge_start, end)
-                          is angle_orientation(next_end, edge_end, end)
-                          is border_orientation):
-                        return Relation.TOUCH
-            elif (angle_orientation(edge_end, edge_start, end)
-                  is border_orientation):
-                return Relation.TOUCH
-            edge_start, edge_end = vertices[end_index - 1], vertices[end_index]
-            if end == edge_start:
-                prev_start = (vertices[end_index - 2]
-                              if positively_oriented
-                              else vertices[end_index])
-                if (angle_orientation(prev_start, edge_start, edge_end)
-                        is border_orientation):
-                    if (angle_orientation(edge_start, prev_start, start)
-                            is border_orientation
-                            or angle_orientation(edge_end, edge_start, start)
-                            is border_orientation):
-                        return Relation.TOUCH
-                elif (angle_orientation(edge_start, prev_start, start)
-                      is angle_orientation(edge_end, edge_start, start)
-                      is border_orientation):
-                    return Relation.TOUCH
-            elif end == edge_end:
-                next_end = (vertices[(end_index + 1) % len(vertices)]
-                            if positively_oriented
-                            else vertices[len(vertices) - end_index - 3])
-                if (angle_orientation(edge_start, edge_end, next_end)
-                        is border_orientation):
-                    if (angle_orientation(edge_end, edge_start, start)
-                            is border_orientation
-                            or angle_orientation(next_end, edge_end, start)
-                            is border_orientation):
-                        return Relation.TOUCH
-                elif (angle_orientation(edge_end, edge_start, start)
-                      is angle_orientation(next_end, edge_end, start)
-                      is border_orientation):
-                    return Relation.TOUCH
-            elif (angle_orientation(edge_end, edge_start, start)
-                  is border_orientation):
-                return Relation.TOUCH
-            return Relation.ENCLOSED
+    return ((Relation.COMPONENT
+             if has_no_outside
+             else Relation.TOUCH)
+            if has_no_inside
+            else Relation.ENCLOSED)
+
+
+def _locate_ray_in_angle(previous_vertex: Point,
+                         vertex: Point,
+                         next_vertex: Point,
+                         ray_point: Point,
+                         context: Context) -> Location:
+    """
+    Locates ray starting at the vertex of counterclockwise contour
+    in the neighbourhood of this vertex relative to the contour's region.
+    """
+    angle_orientation = context.angle_orientation
+    for edge_point in (previous_vertex, next_vertex):
+        if (angle_orientation(vertex, edge_point, ray_point)
+            is Orientation.COLLINEAR
+                and context.dot_product(vertex, edge_point, vertex,
+                                        ray_point) > 0):
+            return Location.BOUNDARY
+    is_left_to_previous_edge = (
+            angle_orientation(previous_vertex, vertex, ray_point)
+            is Orientation.COUNTERCLOCKWISE
+    )
+    is_left_to_next_edge = (
+            angle_orientation(vertex, next_vertex, ray_point)
+            is Orientation.COUNTERCLOCKWISE
+    )
+    return (Location.INTERIOR
+            if (is_left_to_previous_edge and is_left_to_next_edge
+                if (angle_orientation(previous_vertex, vertex, next_vertex)
+                    is Orientation.COUNTERCLOCKWISE)
+                else is_left_to_previous_edge or is_left_to_next_edge)
+            else Location.EXTERIOR)
 
 
 def relate_multisegment(region: Region,
-- 
2.43.0


From 0c44ac92edad6d8ce4cdffad585040d105196ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:15 +0000
Subject: [PATCH 5/6] fix: detect cross of multisegments by order of segments
 around common point

Comparing of test segments' positions relative to a single goal angle was missing
crosses when there are more than two goal segments at the point.
---
 orient/core/events_queue.py | 61 +++++++------------------------------
 1 file changed, 11 insertions(+), 50 deletions(-)

diff --git a/orient/core/events_queue.py b/orient/core/events_queue.py
index 7c4ba58..70ea701 100644
--- a/orient/core/events_queue.py
+++ b/orient/core/events_queue.py
@@ -22,7 +22,6 @@ from .event import (CompoundLeftEvent as CompoundEvent,
 from .hints import (Orienteer,
                     SegmentEndpoints)
 from .sweep_line import SweepLine
-from .utils import all_equal
 
 
 class EventsQueue:
@@ -227,27 +226,18 @@ class LinearEventsQueue(EventsQueue):
             # for crossing angles there should be at least two pairs
             # of segments from different origins
             return
-        from_test_events, from_goal_events = [], []
-        for event in same_start_events:
-            (from_test_events
-             if event.from_test
-             else from_goal_events).append(event)
-        start = same_start_events[0].start
-        point_event_cosine = self._to_signed_point_event_squared_cosine
-        base_event = min(from_goal_events,
-                         key=partial(point_event_cosine,
-                                     from_goal_events[0].end))
-        base_end = base_event.end
-        largest_angle_event = min(from_goal_events,
-                                  key=partial(point_event_cosine, base_end))
-        largest_angle_end = largest_angle_event.end
-        base_orientation = self.context.angle_orientation(
-                start, base_end, largest_angle_end
+        events = sorted(same_start_events,
+                        key=self.key)
+        # left events are sorted counterclockwise, right ones -- clockwise
+        counterclockwise_origins = (
+                [event.from_test for event in events if event.is_left]
+                + [event.from_test
+                   for event in reversed(events)
+                   if not event.is_left]
         )
-        if not all_equal(self._point_in_angle(test_event.end, start, base_end,
-                                              largest_angle_end,
-                                              base_orientation)
-                         for test_event in from_test_events):
+        if sum(counterclockwise_origins[index - 1]
+               is not counterclockwise_origins[index]
+               for index in range(len(counterclockwise_origins))) > 2:
             for event in same_start_events:
                 left_event = event if event.is_left else event.left
                 left_event.relation = max(left_event.relation,
@@ -300,35 +290,6 @@ class LinearEventsQueue(EventsQueue):
                 self._divide_segment(start_max, end_min.start)
                 self._divide_segment(start_min, start_max.start)
 
-    def _point_in_angle(self,
-                        point: Point,
-                        vertex: Point,
-                        first_ray_point: Point,
-                        second_ray_point: Point,
-                        angle_orientation: Orientation) -> bool:
-        first_half_orientation = self.context.angle_orientation(
-                vertex, first_ray_point, point
-        )
-        second_half_orientation = self.context.angle_orientation(
-                second_ray_point, vertex, point
-        )
-        return (second_half_orientation is angle_orientation
-                if first_half_orientation is Orientation.COLLINEAR
-                else (first_half_orientation is angle_orientation
-                      if second_half_orientation is Orientation.COLLINEAR
-                      else (first_half_orientation is second_half_orientation
-                            is (angle_orientation
-                                # if angle is degenerate
-                                or Orientation.COUNTERCLOCKWISE))))
-
-    def _to_signed_point_event_squared_cosine(self,
-                                              point: Point,
-                                              event: Event) -> Scalar:
-        dot_product = self.context.dot_product(event.start, point, event.start,
-                                               event.end)
-        return ((2 * (dot_product > 0) - 1) * (dot_product * dot_product)
-                / self.context.points_squared_distance(event.start, event.end))
-
 
 class EventsQueueKey:
     __slots__ = 'orienteer', 'event'
-- 
2.43.0


From 12b016e3f4b930ff92f4240412eb7d7729ee313f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:09 +0000
Subject: [PATCH 6/6] fix: relate segment with polygon having holes touching
 the border

Parts of the segment on the inner side of the border may lie on the border itself
or in the holes, so relations with border and holes can't be composed.
---
 orient/core/polygon.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/orient/core/polygon.py b/orient/core/polygon.py
index e20fa8d..74fc463 100644
--- a/orient/core/polygon.py
+++ b/orient/core/polygon.py
@@ -48,12 +48,28 @@ def relate_segment(polygon: Polygon,
                    context: Context) -> Relation:
     relation_without_holes = relate_segment_to_region(polygon.border, segment,
                                                       context)
-    if (polygon.holes and (relation_without_holes is Relation.WITHIN
-                           or relation_without_holes is Relation.ENCLOSED)):
+    if not polygon.holes:
+        return relation_without_holes
+    elif relation_without_holes is Relation.CROSS:
+        # parts of the segment inside of the border
+        # may lie in the holes touching the border
+        return relate_multisegment(polygon,
+                                   context.multisegment_cls([segment]),
+                                   context)
+    elif (relation_without_holes is Relation.WITHIN
+          or relation_without_holes is Relation.ENCLOSED):
         relation_with_holes = relate_segment_to_multiregion(polygon.holes,
                                                             segment, context)
         if relation_with_holes is Relation.DISJOINT:
             return relation_without_holes
+        elif (relation_without_holes is Relation.ENCLOSED
+              and (relation_with_holes is Relation.TOUCH
+                   or relation_with_holes is Relation.CROSS)):
+            # parts of the segment outside of the holes
+            # may lie on the border
+            return relate_multisegment(polygon,
+                                       context.multisegment_cls([segment]),
+                                       context)
         elif relation_with_holes is Relation.TOUCH:
             return Relation.ENCLOSED
         elif relation_with_holes is Relation.ENCLOSED:
-- 
2.43.0

