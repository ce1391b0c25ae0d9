From d338853f99d6b09094b479b7e7535be9ecc83197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:50 +0000
Subject: [PATCH 001/156] fix: syntax error in the graphic scene module

---
 Patro/GraphicEngine/GraphicScene/Scene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/GraphicScene/Scene.py b/Patro/GraphicEngine/GraphicScene/Scene.py
index 4e8416d..4426f29 100644
--- a/Patro/GraphicEngine/GraphicScene/Scene.py
+++ b/Patro/GraphicEngine/GraphicScene/Scene.py
@@ -400,7 +400,7 @@ class GraphicSceneScope:
 
         """
 
-        item = self.add_item(GraphicItem.PathItem, path.p0, path_style: GraphicPathStyle, user_data)
+        item = self.add_item(GraphicItem.PathItem, path.p0, path_style, user_data)
 
         # cf. add_as_path_segments
         for segment in path:
-- 
2.43.0


From a824a0777b017563cf93516c2f74832644a77d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:07 +0000
Subject: [PATCH 002/156] fix: import error in the graphic item mixins

---
 Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py b/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py
index 8aa8053..827956a 100644
--- a/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py
+++ b/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py
@@ -24,6 +24,8 @@
 
 # TODO: fix -> None type
 
+from __future__ import annotations
+
 ####################################################################################################
 
 __all__ = [
@@ -40,7 +42,7 @@ __all__ = [
 
 from typing import Any
 
-from Path.GeometryEngine.Vector import Vector2D
+from Patro.GeometryEngine.Vector import Vector2D
 from .GraphicStyle import GraphicPathStyle
 # from .Scene import GraphicScene
 
-- 
2.43.0


From 9eafd61257509aeeb7818abcc3680a5aef565845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:33 +0000
Subject: [PATCH 003/156] fix: orientation of a null vector raises as intended

---
 Patro/GeometryEngine/Vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Vector.py b/Patro/GeometryEngine/Vector.py
index cfea826..92ddb88 100644
--- a/Patro/GeometryEngine/Vector.py
+++ b/Patro/GeometryEngine/Vector.py
@@ -292,7 +292,7 @@ class Vector2DFloatBase(Vector2DBase):
         # theta | atan | atan + pi | atan | atan - pi |
         #
 
-        if not bool(self):
+        if not self._v.any():
             raise NameError("Null Vector")
         if self.x == 0:
             return math.copysign(90, self.y)
-- 
2.43.0


From 3cfe9e666424e5d647c63095ac1330faccfcd9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:02 +0000
Subject: [PATCH 004/156] fix: type check of a product of plane transformations

---
 Patro/GeometryEngine/Transformation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Transformation.py b/Patro/GeometryEngine/Transformation.py
index 83e4cdb..f2ae4b5 100644
--- a/Patro/GeometryEngine/Transformation.py
+++ b/Patro/GeometryEngine/Transformation.py
@@ -278,7 +278,7 @@ class Transformation2D(Transformation):
     ##############################################
 
     def _check_type(self):
-        return self._check_matrix_type(self.to_list())
+        return self.check_matrix_type(self.to_list())
 
     ##############################################
 
-- 
2.43.0


From f93ba37715f57ff07ba49a742d9ecc577df01285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:06 +0000
Subject: [PATCH 005/156] fix: classification of composed affine
 transformations

---
 Patro/GeometryEngine/Transformation.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Transformation.py b/Patro/GeometryEngine/Transformation.py
index f2ae4b5..88bcc26 100644
--- a/Patro/GeometryEngine/Transformation.py
+++ b/Patro/GeometryEngine/Transformation.py
@@ -41,6 +41,7 @@ from math import sin, cos, radians, degrees
 
 import numpy as np
 
+from Patro.Common.Math.Functions import epsilon_float
 from .Vector import Vector2D, HomogeneousVector2D
 
 ####################################################################################################
@@ -272,7 +273,11 @@ class Transformation2D(Transformation):
             elif m00 == m11:
                 return TransformationType.Scale
 
-        # Fixme: check for rotation
+        # orthonormal matrix of determinant 1
+        if (epsilon_float(m00, m11, 1e-12) and epsilon_float(m01, -m10, 1e-12)
+            and epsilon_float(m00**2 + m10**2, 1, 1e-12)):
+            return TransformationType.Rotation
+
         return TransformationType.Generic
 
     ##############################################
@@ -370,7 +375,13 @@ class AffineTransformation2D(AffineTransformation):
 
     def _check_type(self):
         matrix_type = Transformation2D.check_matrix_type(self.matrix_part.flat)
-        # Fixme: translation etc. !!!
+        # Scale and Rotation hold whatever the translation
+        if self.translation_part.any() and matrix_type not in (TransformationType.Scale, TransformationType.Rotation):
+            if matrix_type == TransformationType.Identity:
+                return TransformationType.Translation
+            else:
+                return TransformationType.Generic
+        return matrix_type
 
     ##############################################
 
-- 
2.43.0


From f9f016abd6b3d05b8f5c014d55e8ff67cc2da068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:10 +0000
Subject: [PATCH 006/156] fix: copy of an affine transformation

---
 Patro/GeometryEngine/Transformation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Transformation.py b/Patro/GeometryEngine/Transformation.py
index 88bcc26..f541ba3 100644
--- a/Patro/GeometryEngine/Transformation.py
+++ b/Patro/GeometryEngine/Transformation.py
@@ -119,7 +119,7 @@ class Transformation:
 
     @property
     def size(self):
-        return self._size
+        return self.__size__
 
     @property
     def array(self):
@@ -146,7 +146,7 @@ class Transformation:
     ##############################################
 
     def same_dimension(self, other):
-        return self.__size__ == other.dimension
+        return self.__size__ == other.size
 
     ##############################################
 
-- 
2.43.0


From a37493b186475f9dbb5561eb65f62970a3f0f4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:14 +0000
Subject: [PATCH 007/156] fix: uniform scaling as an affine transformation

---
 Patro/GeometryEngine/Transformation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Transformation.py b/Patro/GeometryEngine/Transformation.py
index f541ba3..abb8efc 100644
--- a/Patro/GeometryEngine/Transformation.py
+++ b/Patro/GeometryEngine/Transformation.py
@@ -396,10 +396,12 @@ class AffineTransformation2D(AffineTransformation):
     ##############################################
 
     @classmethod
-    def Scale(cls, x_scale, y_scale):
+    def Scale(cls, x_scale, y_scale=None):
 
         # Fixme: others, use *= ? (comment means ???)
 
+        if y_scale is None:
+            y_scale = x_scale
         transformation = cls.Identity()
         transformation.matrix_part[...] = Transformation2D.Scale(x_scale, y_scale).array
         transformation._type = Transformation2D.type_for_scale(x_scale, y_scale)
-- 
2.43.0


From fb32c3af3e3a67ddb18b9595dadc2968805c1154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:33 +0000
Subject: [PATCH 008/156] fix: distances along a line

---
 Patro/GeometryEngine/Line.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Line.py b/Patro/GeometryEngine/Line.py
index c499003..696c24d 100644
--- a/Patro/GeometryEngine/Line.py
+++ b/Patro/GeometryEngine/Line.py
@@ -60,7 +60,7 @@ class Line2D(Primitive2DMixin, Primitive):
     ##############################################
 
     def clone(self) -> 'Line2D':
-        return self.__class__(self.p, self.v)
+        return self.__class__(self.p.clone(), self.v.clone())
 
     ##############################################
 
@@ -95,13 +95,15 @@ class Line2D(Primitive2DMixin, Primitive):
     ##############################################
 
     def point_at_distance(self, distance: float, point: Vector2D=None) -> Vector2D:
+        if point is None:
+            point = self.p
         return point + self.vn * distance
 
     ##############################################
 
     def compute_distance_between_abscissae(self, s0: float, s1: float) -> float:
         """Compute distance between two abscissae"""
-        return abs(s1 - s0) * self.v.magnitude()
+        return abs(s1 - s0) * self.v.magnitude
 
     ##############################################
 
-- 
2.43.0


From 533fffd1ea31df86add3d2c65de91133717ddec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:37 +0000
Subject: [PATCH 009/156] fix: projected point on a line whose vector is not
 normalised

---
 Patro/GeometryEngine/Line.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Line.py b/Patro/GeometryEngine/Line.py
index 696c24d..a4ed819 100644
--- a/Patro/GeometryEngine/Line.py
+++ b/Patro/GeometryEngine/Line.py
@@ -208,7 +208,7 @@ class Line2D(Primitive2DMixin, Primitive):
 
         """
         delta = point - self.p
-        s = delta.projection_on(self.v)
+        s = delta.dot(self.v) / self.v.magnitude_square
         return s
 
     def projected_point(self, point: Vector2D) -> Vector2D:
-- 
2.43.0


From 4fa2fedfd9269c40b8633eeafdb0436b3c317144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:41 +0000
Subject: [PATCH 010/156] fix: intersection of a line with a bounding box

---
 Patro/GeometryEngine/Line.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Patro/GeometryEngine/Line.py b/Patro/GeometryEngine/Line.py
index a4ed819..43ae9dd 100644
--- a/Patro/GeometryEngine/Line.py
+++ b/Patro/GeometryEngine/Line.py
@@ -265,9 +265,9 @@ class Line2D(Primitive2DMixin, Primitive):
         """Return the bounding box build on the intersection of the input bounding box with the line
 
         """
-        left, bottom, right, top = interval.bounding_box()
-        vb = Vector2D(interval.size())
-        if abs(self.v.tan) > vb.tan:
+        left, bottom, right, top = interval.bounding_box
+        width, height = interval.size
+        if abs(self.v.y) * width > abs(self.v.x) * height:
             x_min, y_min = self.get_x_from_y(bottom), bottom
             x_max, y_max = self.get_x_from_y(top), top
         else:
-- 
2.43.0


From 2d28a07ee1e0898053b63ecf53e0d77b83c08f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:07 +0000
Subject: [PATCH 011/156] fix: containment of a point in a segment

---
 Patro/GeometryEngine/Segment.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/Patro/GeometryEngine/Segment.py b/Patro/GeometryEngine/Segment.py
index cd2c455..f2afaac 100644
--- a/Patro/GeometryEngine/Segment.py
+++ b/Patro/GeometryEngine/Segment.py
@@ -208,13 +208,6 @@ class Segment2D(Primitive2DMixin, Primitive2P):
 
     ##############################################
 
-    def contain_point(self, point):
-
-        # Fixme: purpose ???
-
-        line = self.to_line()
-        d, s = line.distance_and_abscissa_to_line(point)
-        # Fixme: check d / is collinear
-        # Fixme: p2 <- p1
-        #! print('>'*10, line, point, d, s)
-        return 0 <= s <= 1
+    def contain_point(self, point, epsilon=1e-6):
+        """Tests if a point lies on the segment, *epsilon* is the tolerance on the distance"""
+        return self.distance_to_point(point) <= epsilon
-- 
2.43.0


From e4d7a78b92f6953affac2f93eac18c50db761f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:11 +0000
Subject: [PATCH 012/156] fix: closed points of triangles and rectangles

---
 Patro/GeometryEngine/Primitive.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/Patro/GeometryEngine/Primitive.py b/Patro/GeometryEngine/Primitive.py
index 0ee1117..b424015 100644
--- a/Patro/GeometryEngine/Primitive.py
+++ b/Patro/GeometryEngine/Primitive.py
@@ -322,16 +322,14 @@ class ClosedPrimitiveMixin:
 
     @property
     def closed_points(self):
-        # Fixme: don't work for iterator
-        # return closed_iterator(self.points)
-        return closed_iterator(self._points)
+        # Note: points can be an iterator
+        return closed_iterator(tuple(self.points))
 
     ##############################################
 
     @property
     def closed_pairwise_points(self):
-        # return closed_pairwise(self.points)
-        return closed_pairwise(self._points)
+        return closed_pairwise(tuple(self.points))
 
     ##############################################
 
-- 
2.43.0


From df3c621943d502b4caca85dc4632c138bb7ca71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:16 +0000
Subject: [PATCH 013/156] fix: point array of polygons and polylines

---
 Patro/GeometryEngine/Primitive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Primitive.py b/Patro/GeometryEngine/Primitive.py
index b424015..b3fdf85 100644
--- a/Patro/GeometryEngine/Primitive.py
+++ b/Patro/GeometryEngine/Primitive.py
@@ -212,7 +212,7 @@ class PointPrimitive(Primitive):
         # if self._point_array is None:
         #     self._point_array = np.array(list(self.points)).transpose()
         # return self._point_array
-        return np.array(self.points).transpose()
+        return np.array(tuple(self.points)).transpose()
 
     ##############################################
 
-- 
2.43.0


From deba601751c382d08b11af745603dda3694c7ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:20 +0000
Subject: [PATCH 014/156] fix: points, path and polygon of fixed size
 primitives

---
 Patro/GeometryEngine/Primitive.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/Patro/GeometryEngine/Primitive.py b/Patro/GeometryEngine/Primitive.py
index b3fdf85..4124d24 100644
--- a/Patro/GeometryEngine/Primitive.py
+++ b/Patro/GeometryEngine/Primitive.py
@@ -358,7 +358,7 @@ class ReversiblePrimitiveMixin:
 
     @property
     def is_reversible(self):
-        True
+        return True
 
     ##############################################
 
@@ -426,7 +426,7 @@ class Primitive1P(PointPrimitive, Primitive1PMixin):
     ##############################################
 
     def _set_points(self, points):
-        self._p0 = points
+        self._p0, = points
 
 ####################################################################################################
 
@@ -479,6 +479,11 @@ class Primitive2P(Primitive1P, ReversiblePrimitiveMixin):
 
     ##############################################
 
+    def iter_from_second_point(self):
+        return iter((self._p1,))
+
+    ##############################################
+
     def _set_points(self, points):
         self._p0, self._p1 = points
 
@@ -534,7 +539,7 @@ class Primitive3P(Primitive2P):
 
     def iter_from_second_point(self):
         # Fixme: share code ???
-        return iter(self._p1, self._p2)
+        return iter((self._p1, self._p2))
 
     ##############################################
 
@@ -586,7 +591,7 @@ class Primitive4P(Primitive3P):
         return iter((self._p3, self._p2, self._p1, self._p0))
 
     def iter_from_second_point(self):
-        return iter(self._p1, self._p2, self._p3)
+        return iter((self._p1, self._p2, self._p3))
 
     ##############################################
 
@@ -683,7 +688,7 @@ class PolygonMixin:
 
     def to_polygon(self):
         from .Polygon import Polygon2D
-        return Polygon2D(self.points)
+        return Polygon2D(*self.points)
 
 ####################################################################################################
 
-- 
2.43.0


From cd075f948bffce0a74cde3d87e292751640f50ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:37 +0000
Subject: [PATCH 015/156] fix: reverse of a primitive

---
 Patro/GeometryEngine/Primitive.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Primitive.py b/Patro/GeometryEngine/Primitive.py
index 4124d24..b7536ab 100644
--- a/Patro/GeometryEngine/Primitive.py
+++ b/Patro/GeometryEngine/Primitive.py
@@ -430,7 +430,7 @@ class Primitive1P(PointPrimitive, Primitive1PMixin):
 
 ####################################################################################################
 
-class Primitive2P(Primitive1P, ReversiblePrimitiveMixin):
+class Primitive2P(ReversiblePrimitiveMixin, Primitive1P):
 
     """Base class for 2-points primitives."""
 
@@ -600,7 +600,7 @@ class Primitive4P(Primitive3P):
 
 ####################################################################################################
 
-class PrimitiveNP(PointPrimitive, ReversiblePrimitiveMixin):
+class PrimitiveNP(ReversiblePrimitiveMixin, PointPrimitive):
 
     """Base class for N-points primitives."""
 
-- 
2.43.0


From e11a3cc06396b0cbcb79ef2bbf6c7d03877e62a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:07 +0000
Subject: [PATCH 016/156] fix: stale cache of a transformed polygon or polyline

---
 Patro/GeometryEngine/Polygon.py  | 12 ++++++++++++
 Patro/GeometryEngine/Polyline.py |  6 ++++++
 2 files changed, 18 insertions(+)

diff --git a/Patro/GeometryEngine/Polygon.py b/Patro/GeometryEngine/Polygon.py
index 5bcdfab..a666875 100644
--- a/Patro/GeometryEngine/Polygon.py
+++ b/Patro/GeometryEngine/Polygon.py
@@ -113,6 +113,18 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
 
     ##############################################
 
+    def _set_points(self, points):
+        super()._set_points(points)
+        # reset the cache
+        self._edges = None
+        self._is_simple = None
+        self._is_convex = None
+        self._area = None
+        self._is_clockwise = None
+        self._major_axis = None
+
+    ##############################################
+
     @property
     def is_triangle(self):
         return self.number_of_points == 3
diff --git a/Patro/GeometryEngine/Polyline.py b/Patro/GeometryEngine/Polyline.py
index 2d7f110..2d93a7d 100644
--- a/Patro/GeometryEngine/Polyline.py
+++ b/Patro/GeometryEngine/Polyline.py
@@ -50,6 +50,12 @@ class Polyline2D(Primitive2DMixin, PrimitiveNP):
 
     ##############################################
 
+    def _set_points(self, points):
+        super()._set_points(points)
+        self._edges = None
+
+    ##############################################
+
     @property
     def edges(self):
 
-- 
2.43.0


From 9005b48af60c3bb4173215491359c6da83d992fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:10 +0000
Subject: [PATCH 017/156] fix: detection of simple polygons

---
 Patro/GeometryEngine/Polygon.py | 39 +++++++++++++++++----------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/Patro/GeometryEngine/Polygon.py b/Patro/GeometryEngine/Polygon.py
index a666875..f386f78 100644
--- a/Patro/GeometryEngine/Polygon.py
+++ b/Patro/GeometryEngine/Polygon.py
@@ -154,26 +154,27 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
 
     def _test_is_simple(self):
 
-        edges = self.edges # must be a list !!!
-        # intersections = []
+        def is_folded(edge1, edge2):
+            # edges are consecutive
+            return edge1.cross(edge2) == 0 and edge1.vector.dot(edge2.vector) < 0
+
+        # a duplicated vertex makes a null edge
+        edges = [edge for edge in self.edges if edge.p0 != edge.p1]
+        number_of_edges = len(edges)
         # Test for edge intersection
-        for edge1 in edges:
-            for edge2 in edges:
-                if edge1 is not edge2:
-                    # Fixme: recompute line for edge
-                    intersection, intersect = edge1.intersection(edge2)
-                    if intersect:
-                        common_vertex = edge1.share_vertex_with(edge2)
-                        if common_vertex is not None:
-                            if common_vertex == intersection:
-                                continue
-                            else:
-                                # degenerated case where a vertex lie on an edge
-                                return False
-                        else:
-                            # two edge intersect
-                            # intersections.append(intersection)
-                            return False
+        for i, edge1 in enumerate(edges):
+            for j in range(i+1, number_of_edges):
+                edge2 = edges[j]
+                is_next = j == i+1
+                is_prev = i == 0 and j == number_of_edges -1
+                if is_next or is_prev:
+                    # consecutive edges share a vertex
+                    if is_next and is_folded(edge1, edge2):
+                        return False
+                    if is_prev and is_folded(edge2, edge1):
+                        return False
+                elif edge1.intersect_with(edge2):
+                    return False
         return True
 
     ##############################################
-- 
2.43.0


From 26a43d307edcd3c6c1f5392120f91bcbab6b22a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:15 +0000
Subject: [PATCH 018/156] fix: convexity of a polygon having flat angles

---
 Patro/GeometryEngine/Polygon.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/Patro/GeometryEngine/Polygon.py b/Patro/GeometryEngine/Polygon.py
index f386f78..3bd1fb2 100644
--- a/Patro/GeometryEngine/Polygon.py
+++ b/Patro/GeometryEngine/Polygon.py
@@ -191,11 +191,16 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
         number_of_edges = len(edges)
         # a polygon is convex if all turns from one edge vector to the next have the same sense
         # sign = edges[-1].perp_dot(edges[0])
-        sign0 = sign(edges[-1].cross(edges[0]))
+        sign0 = None
         for i in range(number_of_edges):
             next_i = (i+1) % number_of_edges
-            if sign(edges[i].cross(edges[next_i])) != sign0:
-                return False
+            cross = edges[i].cross(edges[next_i])
+            # skip flat angles
+            if cross != 0:
+                if sign0 is None:
+                    sign0 = sign(cross)
+                elif sign(cross) != sign0:
+                    return False
         return True
 
     ##############################################
-- 
2.43.0


From 6ac864c71478a009a9d0995033968762723428f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:20 +0000
Subject: [PATCH 019/156] fix: barycentre of a polygon

---
 Patro/GeometryEngine/Polygon.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/Patro/GeometryEngine/Polygon.py b/Patro/GeometryEngine/Polygon.py
index 3bd1fb2..8f19903 100644
--- a/Patro/GeometryEngine/Polygon.py
+++ b/Patro/GeometryEngine/Polygon.py
@@ -257,6 +257,8 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
         if not self.is_simple:
             return None
 
+        self._area_sign = 0
+
         # area = self._points[-1].cross(self._points[0])
         # for i in range(self.number_of_points):
         #     area *= self._points[i].cross(self._points[i+1])
@@ -415,6 +417,8 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
     @property
     def barycenter(self):
         """Return polygon barycenter."""
+        if not self.is_simple:
+            return None
         self._check_area()
         return self._barycenter
 
@@ -424,9 +428,8 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
         """Recenter the polygon to the barycenter."""
         # if self._centred:
         #     return
-        barycenter = self._barycenter
-        for point in self._points:
-            point -= barycenter
+        barycenter = self.barycenter
+        self._set_points([point - barycenter for point in self._points])
         # self._centred = True
 
     ##############################################
-- 
2.43.0


From 1dd97783a4f4bc2fe7ffb8d4ddebda6a8235f2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:23 +0000
Subject: [PATCH 020/156] fix: point inside polygon

---
 Patro/GeometryEngine/Polygon.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Patro/GeometryEngine/Polygon.py b/Patro/GeometryEngine/Polygon.py
index 8f19903..e4e7efa 100644
--- a/Patro/GeometryEngine/Polygon.py
+++ b/Patro/GeometryEngine/Polygon.py
@@ -476,7 +476,7 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
         for edge in self.edges:
             if ((edge.p0.y <= y < edge.p1.y) or # upward crossing
                 (edge.p1.y <= y < edge.p0.y)):  # downward crossing
-                xi = edge.p0.x + (y - edge.p0.y) / edge.vector.slope
+                xi = edge.p0.x + (y - edge.p0.y) * edge.vector.inverse_tan
                 if x < xi:
                     crossing_number += 1
 
@@ -498,14 +498,15 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
         for edge in self.edges:
             if edge.p0.y <= y:
                 if edge.p1.y > y: # upward crossing
-                    if edge.is_left(point):
+                    if edge.left_of(point):
                         winding_number += 1
             else:
                 if edge.p1.y <= y: #  downward crossing
-                    if edge.is_right(point):
+                    if edge.right_of(point):
                         winding_number -= 1
 
-        return winding_number > 0
+        # negative if the polygon is clockwise
+        return winding_number != 0
 
     ##############################################
 
-- 
2.43.0


From 7c43122121d62146bd8850da6662243e55981fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:50 +0000
Subject: [PATCH 021/156] fix: convexity of a polygon having duplicated
 vertices

---
 Patro/GeometryEngine/Polygon.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Polygon.py b/Patro/GeometryEngine/Polygon.py
index e4e7efa..f502001 100644
--- a/Patro/GeometryEngine/Polygon.py
+++ b/Patro/GeometryEngine/Polygon.py
@@ -187,7 +187,8 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
         if not self.is_simple:
             return False
 
-        edges = self.edges # must be a list !!!
+        # a duplicated vertex makes a null edge
+        edges = [edge for edge in self.edges if edge.p0 != edge.p1]
         number_of_edges = len(edges)
         # a polygon is convex if all turns from one edge vector to the next have the same sense
         # sign = edges[-1].perp_dot(edges[0])
-- 
2.43.0


From 723a4d1bdb635c086bd75be4ee4ab9a266b8d4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:54 +0000
Subject: [PATCH 022/156] fix: convex hull of aligned or duplicated points

---
 Patro/GeometryEngine/Polygon.py | 36 +++++++++++++--------------------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/Patro/GeometryEngine/Polygon.py b/Patro/GeometryEngine/Polygon.py
index f502001..ba84663 100644
--- a/Patro/GeometryEngine/Polygon.py
+++ b/Patro/GeometryEngine/Polygon.py
@@ -34,7 +34,6 @@ __all__ = [
 ####################################################################################################
 
 from functools import cmp_to_key
-from operator import itemgetter # , attrgetter
 import math
 
 import numpy as np
@@ -719,29 +718,22 @@ def sort_point_for_graham_scan(points):
     data = []
     for point in sorted_points[1:]:
         direction = Vector2D(point - p0)
-        data.append((point, direction, direction.orientation, None))
-    data.sort(key=itemgetter(2))
+        # skip duplicates of p0
+        if direction.magnitude_square > 0:
+            data.append((point, direction))
+
+    # all the angles are in [0, 180[, sort by angle then by distance
+    def sort_by_angle(a, b):
+        cross = a[1].cross(b[1])
+        if cross != 0:
+            return -cross
+        return a[1].magnitude_square - b[1].magnitude_square
+
+    data.sort(key=cmp_to_key(sort_by_angle))
 
     # if several points have the same angle then only keep the farther
-    i = 1
-    while i < len(data):
-        prev = data[i-1]
-        current = data[i]
-        # same polar angle ?
-        if prev[2] == current[2]:
-            # cache magnitude_square
-            if prev[3] is None:
-                prev[3] = prev[1].magnitude_square
-            if current[3] is None:
-                current[3] = current[1].magnitude_square
-            # remove the nearest
-            if prev[3] < current[3]:
-                del data[i-1]
-            else:
-                del data[i]
-            # don't increment i
-            continue
-        i += 1
+    data = [current for i, current in enumerate(data)
+            if i +1 == len(data) or current[1].cross(data[i+1][1]) != 0]
 
     return [p0] + [x[0] for x in data]
 
-- 
2.43.0


From b48de004b5a7762508275cd268884d5386f09fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:58 +0000
Subject: [PATCH 023/156] fix: name and clone of a regular polygon

---
 Patro/GeometryEngine/Polygon.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Polygon.py b/Patro/GeometryEngine/Polygon.py
index ba84663..9ab05a4 100644
--- a/Patro/GeometryEngine/Polygon.py
+++ b/Patro/GeometryEngine/Polygon.py
@@ -641,6 +641,11 @@ class RegularPolygon(Polygon2D):
 
     ##############################################
 
+    def clone(self):
+        return self.__class__(self._center, self._radius, self._number_of_edges, self._angle)
+
+    ##############################################
+
     @property
     def center(self):
         return self._center
@@ -666,9 +671,9 @@ class RegularPolygon(Polygon2D):
     @classmethod
     def ngon_name(cls, number_of_edges):
         try:
-            return self.NGON_NAMES[number_of_edges]
+            return cls.NGON_NAMES[number_of_edges -1]
         except IndexError:
-            return self.LARGE_NGON_NAMES.get(number_of_edges, None)
+            return cls.LARGE_NGON_NAMES.get(number_of_edges, None)
 
     @property
     def str_name(self):
-- 
2.43.0


From 858cade4483fd8cd2896be989acdeb9440e581d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:03 +0000
Subject: [PATCH 024/156] fix: constructors, polygon and path of a rectangle

---
 Patro/GeometryEngine/Rectangle.py | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Rectangle.py b/Patro/GeometryEngine/Rectangle.py
index 7f8cbe8..29351df 100644
--- a/Patro/GeometryEngine/Rectangle.py
+++ b/Patro/GeometryEngine/Rectangle.py
@@ -30,6 +30,7 @@ __all__ = ['Rectangle2D']
 
 import math
 
+from Patro.Common.IterTools import closed_iterator, closed_pairwise
 from .Path import Path2D
 from .Primitive import Primitive2P, ClosedPrimitiveMixin, PathMixin, PolygonMixin, Primitive2DMixin
 from .Segment import Segment2D
@@ -52,11 +53,11 @@ class Rectangle2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PolygonMixi
     ##############################################
 
     @classmethod
-    def from_point_and_offset(self, p0, v):
+    def from_point_and_offset(cls, p0, v):
         return cls(p0, p0+v)
 
     @classmethod
-    def from_point_and_radius(self, p0, v):
+    def from_point_and_radius(cls, p0, v):
         return cls(p0-v, p0+v)
 
     ##############################################
@@ -75,6 +76,31 @@ class Rectangle2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PolygonMixi
     def p10(self):
         return self.__vector_cls__(self._p1.x, self._p0.y)
 
+    @property
+    def corners(self):
+        return (self._p0, self.p01, self._p1, self.p10)
+
+    ##############################################
+
+    @property
+    def closed_points(self):
+        return closed_iterator(self.corners)
+
+    @property
+    def closed_pairwise_points(self):
+        return closed_pairwise(self.corners)
+
+    def iter_from_second_point(self):
+        return iter(self.corners[1:])
+
+    ##############################################
+
+    def to_polygon(self):
+        from .Polygon import Polygon2D
+        return Polygon2D(*self.corners)
+
+    ##############################################
+
     @property
     def edges(self):
 
-- 
2.43.0


From efaa84895d35e6959bd56a536c65245c1eb3ec33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:07 +0000
Subject: [PATCH 025/156] fix: length and path of a polyline

---
 Patro/GeometryEngine/Polyline.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Polyline.py b/Patro/GeometryEngine/Polyline.py
index 2d93a7d..20f58b1 100644
--- a/Patro/GeometryEngine/Polyline.py
+++ b/Patro/GeometryEngine/Polyline.py
@@ -69,7 +69,7 @@ class Polyline2D(Primitive2DMixin, PrimitiveNP):
 
     @property
     def length(self):
-        return sum([edge.magnitude for edge in self.edges])
+        return sum([edge.length for edge in self.edges])
 
     ##############################################
 
@@ -88,6 +88,6 @@ class Polyline2D(Primitive2DMixin, PrimitiveNP):
 
         path = Path2D(self.start_point)
         for point in self.iter_from_second_point():
-            path.line_to(point)
+            path.line_to(point, absolute=True)
 
         return path
-- 
2.43.0


From ffd5781edfeb9604d05d41f09f7cd501e20a9ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:23 +0000
Subject: [PATCH 026/156] fix: perimeter and classification of a triangle

---
 Patro/GeometryEngine/Triangle.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/Patro/GeometryEngine/Triangle.py b/Patro/GeometryEngine/Triangle.py
index f27acdf..acadc22 100644
--- a/Patro/GeometryEngine/Triangle.py
+++ b/Patro/GeometryEngine/Triangle.py
@@ -151,19 +151,19 @@ class Triangle2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PolygonMixin
 
     def _cache_length(self):
 
-        if not hasattr(self._p10):
-            self._p10 = (self._p1 - self._p0).magnitude
-            self._p21 = (self._p2 - self._p1).magnitude
-            self._p02 = (self._p0 - self._p2).magnitude
+        # Note: points can change
+        self._p10 = (self._p1 - self._p0).magnitude
+        self._p21 = (self._p2 - self._p1).magnitude
+        self._p02 = (self._p0 - self._p2).magnitude
 
     ##############################################
 
     def _cache_angle(self):
 
-        if not hasattr(self._a10):
-            self._a10 = (self._p1 - self._p0).orientation
-            self._a21 = (self._p2 - self._p1).orientation
-            self._a02 = (self._p0 - self._p2).orientation
+        # interior angles at p0, p1 and p2
+        self._a10 = abs((self._p1 - self._p0).angle_with(self._p2 - self._p0))
+        self._a21 = abs((self._p2 - self._p1).angle_with(self._p0 - self._p1))
+        self._a02 = abs((self._p0 - self._p2).angle_with(self._p1 - self._p2))
 
     ##############################################
 
-- 
2.43.0


From d34b128f40fe32ac03f21ab8d0cdb58da9313d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:37 +0000
Subject: [PATCH 027/156] fix: bisectors of a triangle

---
 Patro/GeometryEngine/Triangle.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Patro/GeometryEngine/Triangle.py b/Patro/GeometryEngine/Triangle.py
index acadc22..84fa5a9 100644
--- a/Patro/GeometryEngine/Triangle.py
+++ b/Patro/GeometryEngine/Triangle.py
@@ -123,15 +123,15 @@ class Triangle2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PolygonMixin
 
     @property
     def bisector_vector0(self):
-        return (self._p1 - self._p0) + (self._p2 - self._p0)
+        return (self._p1 - self._p0).normalise() + (self._p2 - self._p0).normalise()
 
     @property
     def bisector_vector1(self):
-        return (self._p0 - self._p1) + (self._p2 - self._p1)
+        return (self._p0 - self._p1).normalise() + (self._p2 - self._p1).normalise()
 
     @property
     def bisector_vector2(self):
-        return (self._p1 - self._p2) + (self._p0 - self._p2)
+        return (self._p1 - self._p2).normalise() + (self._p0 - self._p2).normalise()
 
     ##############################################
 
-- 
2.43.0


From d6c412636a430be4622c32595ca471a065179384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:34 +0000
Subject: [PATCH 028/156] fix: perimeter and eccentricity of a circle

---
 Patro/GeometryEngine/Conic.py | 4 ++--
 Patro/GeometryEngine/Mixin.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index e237080..c9eb29e 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -168,11 +168,11 @@ class Circle2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
 
     @property
     def eccentricity(self):
-        return 1
+        return 0
 
     @property
     def perimeter(self):
-        if self._domain is not None:
+        if self._domain is None:
             return 2*pi * self._radius
         else:
             return self._radius * self._domain.length
diff --git a/Patro/GeometryEngine/Mixin.py b/Patro/GeometryEngine/Mixin.py
index c7abe2d..cbf3a3c 100644
--- a/Patro/GeometryEngine/Mixin.py
+++ b/Patro/GeometryEngine/Mixin.py
@@ -134,7 +134,7 @@ class AngularDomain:
             if self.is_counterclockwise:
                 return length
             else:
-                return 2*pi - length
+                return 2*pi + length
 
     ##############################################
 
-- 
2.43.0


From 4f34f8c13a4f6a366faed4393bf38e5d6dc278b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:32 +0000
Subject: [PATCH 029/156] fix: membership of an angle in an angular domain

---
 Patro/GeometryEngine/Mixin.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Patro/GeometryEngine/Mixin.py b/Patro/GeometryEngine/Mixin.py
index cbf3a3c..865e8d9 100644
--- a/Patro/GeometryEngine/Mixin.py
+++ b/Patro/GeometryEngine/Mixin.py
@@ -139,11 +139,11 @@ class AngularDomain:
     ##############################################
 
     def is_inside(self, angle):
-        if self.is_counterclockwise:
-            return self._start <= angle <= self._stop
+        if self.is_closed:
+            return True
         else:
-            # Fixme: check !!!
-            return not(self._stop < angle < self._start)
+            # counterclockwise from start to stop, angles are modulo 360
+            return (angle - self._start) % 360 <= (self._stop - self._start) % 360
 
 ####################################################################################################
 
@@ -166,7 +166,7 @@ class AngularDomainMixin:
 
     @property
     def is_closed(self):
-        return self._domain is None
+        return self._domain is None or self._domain.is_closed
 
     ##############################################
 
-- 
2.43.0


From 5dafd904c47b3919dbeb4db8814b4f3ff5699b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:35 +0000
Subject: [PATCH 030/156] fix: distance from the center of an arc

---
 Patro/GeometryEngine/Conic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index c9eb29e..cc0845f 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -244,6 +244,8 @@ class Circle2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
 
     def distance_to_point(self, point):
         if self._domain is not None:
+            if point == self._center:
+                return self._radius # the angle is undefined
             # Fixme: check !!!
             # try:
             angle = self.angle_for_point(point)
-- 
2.43.0


From 0320a9bafefe00579a7fe5eecee107d8ac1ce1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:39 +0000
Subject: [PATCH 031/156] fix: bounding box of a circular arc

---
 Patro/GeometryEngine/Conic.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index cc0845f..bc2d95e 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -223,8 +223,13 @@ class Circle2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
 
     @property
     def bounding_box(self):
-        # Fixme: wrong for arc
-        return self._center.bounding_box.enlarge(self._radius)
+        if self.is_closed:
+            return self._center.bounding_box.enlarge(self._radius)
+        else:
+            points = [self.start_point, self.stop_point]
+            points += [self.point_at_angle(angle) for angle in (0, 90, 180, 270)
+                       if self._domain.is_inside(angle)]
+            return bounding_box_from_points(points)
 
     ##############################################
 
-- 
2.43.0


From 2e392b9f85d39f27d3e427e0ff815bd372b0e953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:43 +0000
Subject: [PATCH 032/156] fix: intersections of a circle

---
 Patro/GeometryEngine/Conic.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index bc2d95e..8c86a80 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -300,7 +300,7 @@ class Circle2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         elif discriminant == 0: # tangent line
             x = (  D * dy ) / dr2
             y = (- D * dx ) / dr2
-            return Vector2D(x, y) + self.center
+            return (Vector2D(x, y) + self.center,)
         else: # intersection
             x_a =  D * dy
             y_a = -D * dx
@@ -321,7 +321,9 @@ class Circle2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         # Fixme: check domain !!!
 
         v = circle.center - self.center
-        d = sign(v.x) * v.magnitude
+        d = v.magnitude
+        if d == 0: # concentric
+            return None
 
         x = (d**2 - circle.radius**2 + self.radius**2) / (2*d)
         y2 = self.radius**2 - x**2
@@ -329,12 +331,13 @@ class Circle2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         if y2 < 0:
             return None
         else:
-            p = self.center + v.normalise() * x
+            v = v.normalise()
+            p = self.center + v * x
             if y2 == 0:
-                return p
+                return (p,)
             else:
-                n = v.normal() * sqrt(y2)
-                return p - n, p - n
+                n = v.normal * sqrt(y2)
+                return p - n, p + n
 
     ##############################################
 
@@ -742,6 +745,8 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         circle = Circle2D(self.__vector_cls__(0, 0), self._radius_x)
 
         points = circle.intersect_segment(segment_in_frame)
+        if points is None:
+            return None
         points = [self.__vector_cls__(point.x, point.y / y_scale) for point in points]
         points = [self.point_from_ellipse_frame(point) for point in points]
 
-- 
2.43.0


From eafb4e4e574049734dc85016a52c77b4855dfc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:55 +0000
Subject: [PATCH 033/156] fix: elliptical arc from its end points

---
 Patro/GeometryEngine/Conic.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index 8c86a80..0db49ef 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -380,8 +380,8 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
 
         """
 
-        # Ensure radii are non-zero
-        if radius_x == 0 or radius_y == 0:
+        # Ensure radii are non-zero and end points are distinct
+        if radius_x == 0 or radius_y == 0 or point1 == point2:
             return Segment2D(point1, point2)
 
         # Ensure radii are positive
@@ -402,7 +402,7 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         # Ensure radii are large enough
         radii_scale = point1_prime.x**2/radius_x2 + point1_prime.y**2/radius_y2
         if radii_scale > 1:
-            self._logger.warning('SVG Arc: radii must be scale')
+            cls._logger.warning('SVG Arc: radii must be scale')
             radii_scale = math.sqrt(radii_scale)
             radius_x = radii_scale * radius_x
             radius_y = radii_scale * radius_y
@@ -421,15 +421,15 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         # print(point1_prime.anti_normal)
         # print(ratio)
         # print(point1_prime.anti_normal.scale(ratio, 1/ratio))
-        sign *= -1 # Fixme: solve mirroring artefacts for y-axis pointing to the top
-        center_prime = sign * math.sqrt(num / den) * point1_prime.anti_normal.scale(ratio, 1/ratio)
+        # num is null, up to rounding, when the radii were scaled
+        center_prime = sign * math.sqrt(max(num, 0) / den) * point1_prime.anti_normal.scale(ratio, 1/ratio)
 
         center = Transformation2D.Rotation(angle) * center_prime + origin_prime
 
         vector1 =   (point1_prime - center_prime).divide(radius_x, radius_y)
         vector2 = - (point1_prime + center_prime).divide(radius_x, radius_y)
-        theta = cls.__vector_cls__(1, 0).angle_with(vector1)
-        delta_theta = vector1.angle_with(vector2)
+        theta = vector1.angle_with(cls.__vector_cls__(1, 0))
+        delta_theta = vector2.angle_with(vector1)
         # if theta < 0:
         #     theta = 180 + theta
         # if delta_theta < 0:
-- 
2.43.0


From 964a40b609fe9c62f8ecd8281d0309bd6f6b6f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:00 +0000
Subject: [PATCH 034/156] =?UTF-8?q?fix:=20clockwise=20elliptical=20arc=20a?=
 =?UTF-8?q?s=20B=C3=A9zier=20curves?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 Patro/GeometryEngine/Conic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index 0db49ef..b6daa55 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -778,7 +778,8 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         if self._domain is not None:
             # Fixme: is_over_closer
             start_angle = self._domain.start
-            angle_span = self._domain.span
+            # signed: an arc can be swept clockwise
+            angle_span = self._domain.stop - self._domain.start
         else:
             start_angle = 0
             angle_span = 360
-- 
2.43.0


From c54457965fe088360158484f6b7df831923d43ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:04 +0000
Subject: [PATCH 035/156] fix: axes, eccentricity and matrix of an ellipse

---
 Patro/GeometryEngine/Conic.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index b6daa55..c6d2f30 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -478,7 +478,7 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
     ##############################################
 
     def __repr__(self):
-        return '{0}({1._center}, {1._radius_x}, {1._radius_x}, {1._angle})'.format(self.__class__.__name__, self)
+        return '{0}({1._center}, {1._radius_x}, {1._radius_y}, {1._angle})'.format(self.__class__.__name__, self)
 
     ##############################################
 
@@ -509,12 +509,12 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
     @property
     def major_vector(self):
         # Fixme: x < y
-        return self.__vector_cls__.from_polar(self._angle, self._radius_x)
+        return self.__vector_cls__.from_polar(self._radius_x, self._angle)
 
     @property
     def minor_vector(self):
         # Fixme: x < y
-        return self.__vector_cls__.from_polar(self._angle + 90, self._radius_y)
+        return self.__vector_cls__.from_polar(self._radius_y, self._angle + 90)
 
     ##############################################
 
@@ -523,7 +523,8 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         # focal distance
         # c = sqrt(self._radius_x**2 - self._radius_y**2)
         # e = c / a
-        return sqrt(1 - (self._radius_y/self._radius_x)**2)
+        b, a = sorted((self._radius_x, self._radius_y))
+        return sqrt(1 - (b/a)**2)
 
     ##############################################
 
@@ -547,9 +548,9 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         xc2 = xc**2
         yc2 = yc**2
 
-        A = a2*s + b2*c2
+        A = a2*s2 + b2*c2
         B = 2*(b2 - a2)*c*s
-        C = a2*c2 * b2*s2
+        C = a2*c2 + b2*s2
         D = -2*A*xc - B*yc
         E = -B*xc - 2*C*yc
         F = A*xc2 + B*xc*yc + C*yc2 - a2*b2
-- 
2.43.0


From 8bfd00bc3212f7d9c06e65531a8c371a9a5cbbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:25 +0000
Subject: [PATCH 036/156] fix: distance and membership of a point to an ellipse

---
 Patro/GeometryEngine/Conic.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index c6d2f30..f8e768e 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -663,6 +663,10 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
 
         y0, y1 = point
         e0, e1 = self._radius_x, self._radius_y
+        swap = e0 < e1 # ensure e0 ≥ e1
+        if swap:
+            e0, e1 = e1, e0
+            y0, y1 = y1, y0
 
         if y1 > 0:
             if  y0 > 0:
@@ -698,6 +702,9 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
                 x1 = 0
                 distance = abs(y0 - e0)
 
+        if swap:
+            x0, x1 = x1, x0
+
         return distance, self.__vector_cls__(x0, x1)
 
     ##############################################
@@ -713,9 +720,9 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         if is_inside:
             # Fixme: right ???
             return (
-                (point_in_frame_abs - self._center).magnitude_square
+                point_in_frame_abs.magnitude_square
                 <=
-                (point_in_ellipse - self._center).magnitude_square
+                point_in_ellipse.magnitude_square
             )
         elif return_point:
             point_in_ellipse = self.__vector_cls__(
-- 
2.43.0


From d7f28ecc468942dba1552e362ef40936e6810c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:28 +0000
Subject: [PATCH 037/156] fix: bounding box of an ellipse

---
 Patro/GeometryEngine/Conic.py | 43 ++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 23 deletions(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index f8e768e..b93e5be 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -455,8 +455,6 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         self.angle = angle
         self.domain = domain
 
-        self._bounding_box = None
-
     ##############################################
 
     def clone(self):
@@ -473,7 +471,6 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         self._center = transformation * self._center
         self._radius_x = transformation * self._radius_x
         self._radius_y = transformation * self._radius_y
-        self._bounding_box = None
 
     ##############################################
 
@@ -584,26 +581,26 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
     @property
     def bounding_box(self):
 
-        if self._bounding_box is None:
-            radius_x, radius_y = self._radius_x, self._radius_y
-            if self._angle == 0:
-                bounding_box = self._center.bounding_box
-                bounding_box.x.enlarge(radius_x)
-                bounding_box.y.enlarge(radius_y)
-                self._bounding_box = bounding_box
-            else:
-                angle_x = self._angle
-                angle_y = angle_x + 90
-                Vector2D = self.__vector_cls__
-                points = [self._center + offset for offset in (
-                    Vector2D.from_polar(angle_x,  radius_x),
-                    Vector2D.from_polar(angle_x, -radius_x),
-                    Vector2D.from_polar(angle_y,  radius_y),
-                    Vector2D.from_polar(angle_y, -radius_y),
-                )]
-                self._bounding_box = bounding_box_from_points(points)
-
-        return self._bounding_box
+        radius_x, radius_y = self._radius_x, self._radius_y
+
+        if self._angle == 0 and self.is_closed:
+            bounding_box = self._center.bounding_box
+            bounding_box.x.enlarge(radius_x)
+            bounding_box.y.enlarge(radius_y)
+            return bounding_box
+
+        # angles where the tangent is vertical and horizontal, respectively
+        c, s = cos(radians(self._angle)), sin(radians(self._angle))
+        angle_x = math.degrees(math.atan2(-radius_y * s, radius_x * c))
+        angle_y = math.degrees(math.atan2( radius_y * c, radius_x * s))
+        angles = [angle_x, angle_x + 180, angle_y, angle_y + 180]
+        if not self.is_closed:
+            # the domain is signed
+            start, stop = sorted((self._domain.start, self._domain.stop))
+            domain = AngularDomain(start, stop)
+            angles = [angle for angle in angles if domain.is_inside(angle)]
+            angles += [start, stop]
+        return bounding_box_from_points([self.point_at_angle(angle) for angle in angles])
 
     ##############################################
 
-- 
2.43.0


From fe6edf6fb3eda59f99d1ee60f95baf5f5eb41c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:58 +0000
Subject: [PATCH 038/156] fix: distance to an ellipse of a point very close to
 an axis

---
 Patro/GeometryEngine/Conic.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index b93e5be..7244c04 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -614,12 +614,15 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
 
     def _distance_point_bisection(self, r0,  z0,  z1,  g):
 
+        # The unknown is s + 1, so as to keep the precision when z1 is tiny
+
         n0 = r0 * z0
-        s0 = z1 - 1
+        r1 = r0 - 1
+        s0 = z1
         if g < 0:
-            s1 = 0
+            s1 = 1
         else:
-            s1 = self._robust_length(n0 , z1) - 1
+            s1 = self._robust_length(n0 , z1)
 
         s = 0
         MAX_ITERATION = 1074 # for double
@@ -627,8 +630,8 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
             s = (s0 + s1) / 2
             if s == s0 or s == s1:
                 break
-            ratio0 = n0 / (s + r0)
-            ratio1 = z1 / (s + 1)
+            ratio0 = n0 / (s + r1)
+            ratio1 = z1 / s
             g = ratio0**2 + ratio1**2 -1
             if g > 0:
                 s0 = s
@@ -673,8 +676,8 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
                 if g != 0:
                     r0 = (e0 / e1)**2
                     sbar = self._distance_point_bisection(r0, z0, z1, g)
-                    x0 = r0 * y0 / (sbar + r0)
-                    x1 = y1 / (sbar + 1)
+                    x0 = r0 * y0 / (sbar + (r0 - 1))
+                    x1 = y1 / sbar
                     distance = math.sqrt((x0 - y0)**2 + (x1 - y1)**2)
                 else:
                     x0 = y0
-- 
2.43.0


From addb6e9cfdcc1e53759884b6340f30e2af0cfd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:12 +0000
Subject: [PATCH 039/156] =?UTF-8?q?fix:=20length=20of=20a=20quadratic=20B?=
 =?UTF-8?q?=C3=A9zier=20curve=20whose=20control=20points=20are=20collinear?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 Patro/GeometryEngine/Bezier.py | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/Patro/GeometryEngine/Bezier.py b/Patro/GeometryEngine/Bezier.py
index 10c636f..cfe508b 100644
--- a/Patro/GeometryEngine/Bezier.py
+++ b/Patro/GeometryEngine/Bezier.py
@@ -53,7 +53,7 @@ __all__ = [
 
 import logging
 
-from math import log, sqrt
+from math import asinh, hypot, sqrt
 
 import numpy as np
 
@@ -242,21 +242,26 @@ class QuadraticBezier2D(BezierMixin2D, Primitive3P):
 
         """
 
+        # B'(t) = 2 (A0 + A1*t)
         A0 = self._p1 - self._p0
         A1 = self._p0 - self._p1 * 2 + self._p2
-        if A1.magnitude_square != 0:
-            c = 4 * A1.dot(A1)
-            b = 8 * A0.dot(A1)
-            a = 4 * A0.dot(A0)
-            q = 4 * a * c - b * b
-            two_cb = 2 * c + b
-            sum_cba = c + b + a
-            m0 = 0.25 / c
-            m1 = q / (8 * c**1.5)
-            return (m0 * (two_cb * sqrt(sum_cba) - b * sqrt(a)) +
-                    m1 * (log(2 * sqrt(c * sum_cba) + two_cb) - log(2 * sqrt(c * a) + b)))
+        k = A1.magnitude
+        if k <= 1e-6 * A0.magnitude:
+            # B' is quasi constant
+            return (self._p2 - self._p0).magnitude
+        elif k == 0:
+            return 0
         else:
-            return 2 * A0.magnitude
+            # B' / 2 = (s, h) in the frame of A1, where s goes from s0 to s0 + k
+            s0 = A0.dot(A1) / k
+            h = abs(A0.cross(A1)) / k
+            def primitive(s):
+                # of sqrt(s**2 + h**2)
+                value = s * hypot(s, h)
+                if h > 0:
+                    value += h**2 * asinh(s / h)
+                return value / 2
+            return 2 / k * (primitive(s0 + k) - primitive(s0))
 
     ##############################################
 
-- 
2.43.0


From a6ff88f81c33d15b844cf2a70672acb5f7955b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:15 +0000
Subject: [PATCH 040/156] =?UTF-8?q?fix:=20tangents=20and=20normals=20at=20?=
 =?UTF-8?q?the=20ends=20of=20a=20B=C3=A9zier=20curve?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 Patro/GeometryEngine/Bezier.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/Patro/GeometryEngine/Bezier.py b/Patro/GeometryEngine/Bezier.py
index cfe508b..6e934f4 100644
--- a/Patro/GeometryEngine/Bezier.py
+++ b/Patro/GeometryEngine/Bezier.py
@@ -304,13 +304,13 @@ class QuadraticBezier2D(BezierMixin2D, Primitive3P):
 
     @property
     def normal0(self):
-        return self.tangent0.normal()
+        return self.tangent0.normal
 
     ##############################################
 
     @property
-    def tangent1(self):
-        return self.tangent1.normal()
+    def normal1(self):
+        return self.tangent1.normal
 
     ##############################################
 
@@ -535,6 +535,12 @@ class CubicBezier2D(BezierMixin2D, Primitive4P):
 
     ##############################################
 
+    @property
+    def tangent0(self):
+        return (self._p1 - self._p0).normalise()
+
+    ##############################################
+
     @property
     def tangent1(self):
         return (self._p3 - self._p2).normalise()
-- 
2.43.0


From c8f59e00ce76e8e43119882e228b015bd21ce8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:19 +0000
Subject: [PATCH 041/156] =?UTF-8?q?fix:=20intersections=20of=20a=20B=C3=A9?=
 =?UTF-8?q?zier=20curve=20with=20a=20line?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 Patro/Common/Math/Root.py      | 18 +++++++++---------
 Patro/GeometryEngine/Bezier.py | 14 +++++++-------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/Patro/Common/Math/Root.py b/Patro/Common/Math/Root.py
index 8aab8ec..cfe2813 100644
--- a/Patro/Common/Math/Root.py
+++ b/Patro/Common/Math/Root.py
@@ -50,22 +50,19 @@ def quadratic_root(a, b, c):
     if a == 0 and b == 0:
         return None
     if a == 0:
-        return - c / b
+        return (- c / b,)
 
     D = b**2 - 4*a*c
 
     if D < 0:
         return None # not real
 
-    b = -b
-    s = 1 / (2*a)
     if D > 0:
-        # Fixme: sign of b ???
-        r1 = (b - sqrt(D)) * s
-        r2 = (b + sqrt(D)) * s
-        return r1, r2
+        # b and its square root are added with the same sign, so as to prevent a cancellation
+        q = -(b + sign(b) * sqrt(D)) / 2
+        return tuple(sorted((q / a, c / q)))
     else:
-        return b * s
+        return (- b / (2*a),)
 
 ####################################################################################################
 
@@ -82,7 +79,10 @@ def x_symbol():
     return sympy.Symbol('x', real=True)
 
 def real_roots(expression, x):
-    return [i.n() for i in sympy.real_roots(expression, x)]
+    expression = sympy.sympify(expression)
+    if expression.is_number: # constant polynomial
+        return []
+    return [float(i.n()) for i in sympy.real_roots(expression, x)]
 
 ####################################################################################################
 
diff --git a/Patro/GeometryEngine/Bezier.py b/Patro/GeometryEngine/Bezier.py
index 6e934f4..4ce61df 100644
--- a/Patro/GeometryEngine/Bezier.py
+++ b/Patro/GeometryEngine/Bezier.py
@@ -61,7 +61,7 @@ from Patro.Common.Math.Root import quadratic_root, cubic_root, fifth_root
 from .Interpolation import interpolate_two_points
 from .Line import Line2D
 from .Primitive import Primitive3P, Primitive4P, PrimitiveNP, Primitive2DMixin
-from .Transformation import AffineTransformation
+from .Transformation import AffineTransformation2D
 from .Vector import Vector2D
 
 ####################################################################################################
@@ -174,9 +174,9 @@ class BezierMixin2D(Primitive2DMixin):
     ##############################################
 
     def _map_to_line(self, line):
-        transformation = AffineTransformation.Rotation(-line.v.orientation)
-        # Fixme: use __vector_cls__
-        transformation *= AffineTransformation.Translation(Vector2D(0, -line.p.y))
+        # translate then rotate
+        transformation = AffineTransformation2D.Translation(-line.p)
+        transformation *= AffineTransformation2D.Rotation(-line.v.orientation)
         # Fixme: better API ?
         return self.clone().transform(transformation)
 
@@ -187,9 +187,9 @@ class BezierMixin2D(Primitive2DMixin):
         the baseline of the fat-line, ti is equally spaced in [0, 1].
 
         """
-        ts = np.arange(0, 1, 1/(self.number_of_points-1))
+        ts = np.linspace(0, 1, self.number_of_points)
         distances = [line.distance_to_line(p) for p in self.points]
-        points = [Vector2D(t, d) for t, f in zip(ts, distances)]
+        points = [Vector2D(t, d) for t, d in zip(ts, distances)]
         return self.__class__(*points)
 
     ##############################################
@@ -362,7 +362,7 @@ class QuadraticBezier2D(BezierMixin2D, Primitive3P):
     ##############################################
 
     def fat_line(self):
-        line = Line2D.from_two_points(self._p0, self._p3)
+        line = Line2D.from_two_points(self._p0, self._p2)
         d1 = line.distance_to_line(self._p1)
         d_min = min(0, d1 / 2)
         d_max = max(0, d1 / 2)
-- 
2.43.0


From cfc896d1ce4254d55d3c37f216dc72fecfcee64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:46 +0000
Subject: [PATCH 042/156] =?UTF-8?q?fix:=20closest=20point=20of=20a=20B?=
 =?UTF-8?q?=C3=A9zier=20curve?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 Patro/GeometryEngine/Bezier.py | 47 ++++++++++------------------------
 1 file changed, 14 insertions(+), 33 deletions(-)

diff --git a/Patro/GeometryEngine/Bezier.py b/Patro/GeometryEngine/Bezier.py
index 4ce61df..5196df0 100644
--- a/Patro/GeometryEngine/Bezier.py
+++ b/Patro/GeometryEngine/Bezier.py
@@ -194,12 +194,19 @@ class BezierMixin2D(Primitive2DMixin):
 
     ##############################################
 
+    def _closest_point(self, point, roots):
+        """Return the closest point amongst the end points and the points of the curve given by the *roots*
+        where the distance is stationary."""
+        ts = [0, 1]
+        if roots is not None:
+            ts += [t for t in roots if 0 < t < 1]
+        points = [self.point_at_t(t) for t in ts]
+        return min(points, key=lambda p: (point - p).magnitude_square)
+
+    ##############################################
+
     def distance_to_point(self, point):
-        p = self.closest_point(point)
-        if p is not None:
-            return (point - p).magnitude
-        else:
-            return None
+        return (point - self.closest_point(point)).magnitude
 
 ####################################################################################################
 
@@ -388,14 +395,7 @@ class QuadraticBezier2D(BezierMixin2D, Primitive3P):
             2*A.magnitude_square + M.dot(B),
             M.dot(A),
         )
-        t = [root for root in roots if 0 <= root <= 1]
-        if not t:
-            return None
-        elif len(t) > 1:
-            self._logger.warning("Found more than one root {} for {} and point {}".format(t, self, point))
-            return None
-        else:
-            return self.point_at_t(t)
+        return self._closest_point(point, roots)
 
     ##############################################
 
@@ -884,23 +884,4 @@ class CubicBezier2D(BezierMixin2D, Primitive4P):
             2*point.dot(r) - 2*r.dot(v) - s.magnitude_square,
             point.dot(s) - s.dot(v),
         )
-        # Fixme: to func
-        t = [root for root in roots if 0 <= root <= 1]
-        if not t:
-            return None
-        elif len(t) > 1:
-            # Fixme:
-            # Found more than one root [0, 0.516373783749732]
-            # for CubicBezier2D(
-            #   Vector2D[1394.4334 1672.0004], Vector2D[1394.4334 1672.0004],
-            #   Vector2D[1585.0004 1624.9634], Vector2D[1585.0004 1622.0004])
-            # and point Vector2D[1495.11502887 1649.7386517 ]
-            # raise NameError("Found more than one root: {}".format(t))
-            self._logger.warning("Found more than one root {} for {} and point {}".format(t, self, point))
-            # self._logger.warning("is flat {}".format(self.is_flat_enough(.1)))
-            if len(t) == 2 and t[0] == 0:
-                return self.point_at_t(t[1])
-            else:
-                return None
-        else:
-            return self.point_at_t(t[0])
+        return self._closest_point(point, roots)
-- 
2.43.0


From d6786d0561009aad4ed76f27e39231792718124e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:12 +0000
Subject: [PATCH 043/156] =?UTF-8?q?fix:=20length=20of=20a=20degenerate=20B?=
 =?UTF-8?q?=C3=A9zier=20curve?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 Patro/GeometryEngine/Bezier.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Bezier.py b/Patro/GeometryEngine/Bezier.py
index 5196df0..3cf3c51 100644
--- a/Patro/GeometryEngine/Bezier.py
+++ b/Patro/GeometryEngine/Bezier.py
@@ -85,7 +85,12 @@ class BezierMixin2D(Primitive2DMixin):
         """Length of the curve obtained via line interpolation"""
 
         if dt is None:
-            dt = self.LineInterpolationPrecision / (self.end_point - self.start_point).magnitude
+            points = list(self.points)
+            # the end points can be equal
+            magnitude = sum([(p1 - p0).magnitude for p0, p1 in zip(points, points[1:])])
+            if magnitude == 0:
+                return 0
+            dt = self.LineInterpolationPrecision / magnitude
 
         length = 0
         t = 0
@@ -510,7 +515,10 @@ class CubicBezier2D(BezierMixin2D, Primitive4P):
 
     def _t_max(self):
         """Return the split point for adaptive quadratic approximation"""
-        return (_Div18Sqrt3 * self.InterpolationPrecision / self._d01())**_OneThird
+        d01 = self._d01()
+        if d01 == 0:
+            return 1 # the curve is quadratic
+        return (_Div18Sqrt3 * self.InterpolationPrecision / d01)**_OneThird
 
     ##############################################
 
-- 
2.43.0


From 80fabe814b67e716a499841b2704267ac37d34da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:16 +0000
Subject: [PATCH 044/156] =?UTF-8?q?fix:=20length=20of=20a=20B=C3=A9zier=20?=
 =?UTF-8?q?curve=20at=20a=20parameter=20and=20conversely?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 Patro/GeometryEngine/Bezier.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/Patro/GeometryEngine/Bezier.py b/Patro/GeometryEngine/Bezier.py
index 3cf3c51..7e3e1b3 100644
--- a/Patro/GeometryEngine/Bezier.py
+++ b/Patro/GeometryEngine/Bezier.py
@@ -107,14 +107,20 @@ class BezierMixin2D(Primitive2DMixin):
 
         """Compute the length of the curve at *t*."""
 
+        if t <= 0:
+            return 0
+
         if cache: # lookup cache
-            if not hasattr(self, '_length_cache'):
+            # the points can be changed
+            points = tuple([(p.x, p.y) for p in self.points])
+            if getattr(self, '_length_cache_points', None) != points:
+                self._length_cache_points = points
                 self._length_cache = {}
             length = self._length_cache.get(t, None)
             if length is not None:
                 return length
 
-        length = self.split_at_t(t).length
+        length = self.split_at_t(t)[0].length
 
         if cache: # save
             self._length_cache[t] = length
@@ -148,7 +154,7 @@ class BezierMixin2D(Primitive2DMixin):
             middle = (sup + inf) / 2
             length_at_middle = self.length_at_t(middle, cache=True) # Fixme: out of memory, use LRU ???
             # exit condition
-            if abs(length_at_middle - length) <= precision:
+            if abs(length_at_middle - length) <= precision or middle in (inf, sup):
                 return middle
             elif length_at_middle < length:
                 inf = middle
-- 
2.43.0


From 75de0e9a9cb370c9e8e9773841bc70f0129147e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:42 +0000
Subject: [PATCH 045/156] =?UTF-8?q?fix:=20out=20of=20range=20length=20on?=
 =?UTF-8?q?=20a=20B=C3=A9zier=20curve?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 Patro/GeometryEngine/Bezier.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Bezier.py b/Patro/GeometryEngine/Bezier.py
index 7e3e1b3..ab9cb9a 100644
--- a/Patro/GeometryEngine/Bezier.py
+++ b/Patro/GeometryEngine/Bezier.py
@@ -138,10 +138,10 @@ class BezierMixin2D(Primitive2DMixin):
         if length == 0:
             return 0
         curve_length = self.length # Fixme: cache ?
+        if length > curve_length + precision:
+            raise ValueError('Out of length')
         if (curve_length - length) <= precision:
             return 1
-        if length > curve_length:
-            raise ValueError('Out of length')
 
         # Search t for length using dichotomy
         # convergence rate :
-- 
2.43.0


From 2408e0c03161706e7c0f48f4e5adb02e0f4d5b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:11 +0000
Subject: [PATCH 046/156] =?UTF-8?q?fix:=20area=20of=20a=20cubic=20B=C3=A9z?=
 =?UTF-8?q?ier=20curve=20that=20does=20not=20start=20at=20the=20origin?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 Patro/GeometryEngine/Bezier.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Bezier.py b/Patro/GeometryEngine/Bezier.py
index ab9cb9a..b53dad8 100644
--- a/Patro/GeometryEngine/Bezier.py
+++ b/Patro/GeometryEngine/Bezier.py
@@ -873,7 +873,9 @@ class CubicBezier2D(BezierMixin2D, Primitive4P):
         x3, y3 = list(self._p3)
         return (3 * ((y3 - y0) * (x1 + x2) - (x3 - x0) * (y1 + y2)
                      + y1 * (x0 - x2) - x1 * (y0 - y2)
-                     + y3 * (x2 + x0 / 3) - x3 * (y2 + y0 / 3)) / 20)
+                     + y3 * (x2 + x0 / 3) - x3 * (y2 + y0 / 3)) / 20
+                # integral along the segment
+                - (x0 * y3 - x3 * y0) / 2)
 
     ##############################################
 
-- 
2.43.0


From c377ca4aa0ecb600b11b2b73a7d16e6b74571e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:05 +0000
Subject: [PATCH 047/156] fix: quadratic uniform spline basis and evaluation

---
 Patro/GeometryEngine/Bezier.py |  6 +++---
 Patro/GeometryEngine/Spline.py | 32 +++++++++++---------------------
 2 files changed, 14 insertions(+), 24 deletions(-)

diff --git a/Patro/GeometryEngine/Bezier.py b/Patro/GeometryEngine/Bezier.py
index b53dad8..550a786 100644
--- a/Patro/GeometryEngine/Bezier.py
+++ b/Patro/GeometryEngine/Bezier.py
@@ -232,9 +232,9 @@ class QuadraticBezier2D(BezierMixin2D, Primitive3P):
     ))
 
     INVERSE_BASIS = np.array((
-        (-2,  1, -2),
-        (-1, -3,  1),
-        (-1, -1, -2),
+        (1,   1, 1),
+        (0, 1/2, 1),
+        (0,   0, 1),
     ))
 
     _logger = _module_logger.getChild('QuadraticBezier2D')
diff --git a/Patro/GeometryEngine/Spline.py b/Patro/GeometryEngine/Spline.py
index c7aff79..a20ed02 100644
--- a/Patro/GeometryEngine/Spline.py
+++ b/Patro/GeometryEngine/Spline.py
@@ -53,12 +53,12 @@ class QuadraticUniformSpline2D(Primitive2DMixin, Primitive3P):
         (1, -2,  1),
         (1,  2, -2),
         (0,  0,  1),
-    ))
+    )) / 2
 
     INVERSE_BASIS = np.array((
-        (-2,  1, -2),
-        (-2, -3,  1),
-        (-1, -1, -2),
+        (   1,   1,   1),
+        (-1/2, 1/2, 3/2),
+        (   0,   0,   2),
     ))
 
     #######################################
@@ -83,18 +83,14 @@ class QuadraticUniformSpline2D(Primitive2DMixin, Primitive3P):
     def point_at_t(self, t):
 
         # Q(t) = (
-        #          P0 *  (1-t)**3                      +
-        #          P1 * (  3*t**3 - 6*t**2       + 4 ) +
-        #          P2 * ( -3*t**3 + 3*t**2 + 3*t + 1 ) +
-        #          P3 *      t**3
-        #        ) / 6
-        #
-        #     = P0*(1-t)**3/6 + P1*(3*t**3 - 6*t**2 + 4)/6 + P2*(-3*t**3 + 3*t**2 + 3*t + 1)/6 + P3*t**3/6
+        #          P0 * (1-t)**2              +
+        #          P1 * (-2*t**2 + 2*t + 1)   +
+        #          P2 *      t**2
+        #        ) / 2
 
-        return (self._p0/6 + self._p1*2/3 + self._p2/6 +
-                (-self._p0/2 + self._p2/2)*t +
-                (self._p0/2 - self._p1 + self._p2/2)*t**2 +
-                (-self._p0/6 + self._p1/2 - self._p2/2 + self._p3/6)*t**3)
+        return (self._p0/2 + self._p1/2 +
+                (-self._p0 + self._p1)*t +
+                (self._p0/2 - self._p1 + self._p2/2)*t**2)
 
 ####################################################################################################
 
@@ -136,12 +132,6 @@ class CubicUniformSpline2D(Primitive2DMixin, Primitive4P):
     def to_bezier(self):
         basis = np.dot(self.BASIS, CubicBezier2D.INVERSE_BASIS)
         points = np.dot(self.point_array, basis).transpose()
-        if self._start:
-            # list(self.points)[:2]
-            points[:2] = self._p0, self._p1
-        elif self._stop:
-            # list(self.points)[-2:]
-            points[-2:] = self._p2, self._p3
         return CubicBezier2D(*points)
 
     ##############################################
-- 
2.43.0


From e3c9bec1fed3f8b4f06829388380fe7a012b4697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:23 +0000
Subject: [PATCH 048/156] fix: clone and reverse a B-spline

---
 Patro/GeometryEngine/Spline.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/Patro/GeometryEngine/Spline.py b/Patro/GeometryEngine/Spline.py
index a20ed02..833c1f4 100644
--- a/Patro/GeometryEngine/Spline.py
+++ b/Patro/GeometryEngine/Spline.py
@@ -202,6 +202,30 @@ class BSpline2D(Primitive2DMixin, PrimitiveNP):
 
     ##############################################
 
+    ##############################################
+
+    def clone(self):
+        return self.__class__(
+            self._points, self._degree,
+            closed=self._closed,
+            knots=None if self._uniform else self._knots,
+        )
+
+    ##############################################
+
+    def reverse(self):
+        knots = None
+        if not self._uniform:
+            offset = self._knots[0] + self._knots[-1]
+            knots = [offset - knot for knot in reversed(self._knots)]
+        return self.__class__(
+            list(self.reversed_points), self._degree,
+            closed=self._closed,
+            knots=knots,
+        )
+
+    ##############################################
+
     @property
     def degree(self):
         return self._degree
-- 
2.43.0


From 52307cfc385636fbd53013f795426b254a8e291c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:42 +0000
Subject: [PATCH 049/156] fix: evaluation of B-splines at the end knot and with
 knots

---
 Patro/GeometryEngine/Spline.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/Patro/GeometryEngine/Spline.py b/Patro/GeometryEngine/Spline.py
index 833c1f4..7c8eadf 100644
--- a/Patro/GeometryEngine/Spline.py
+++ b/Patro/GeometryEngine/Spline.py
@@ -251,14 +251,15 @@ class BSpline2D(Primitive2DMixin, PrimitiveNP):
         if self._uniform:
             return 0
         else:
-            return self._knots[0]
+            return self._knots[self._degree]
 
     @property
     def end_knot(self):
         if self._uniform:
             return self.number_of_points - self._degree
         else:
-            return self._knots[-1]
+            # curve is defined on [t_degree, t_{number_of_points}]
+            return self._knots[self.number_of_points]
 
     @property
     def knot_iter(self):
@@ -284,11 +285,15 @@ class BSpline2D(Primitive2DMixin, PrimitiveNP):
         if not(self.start_knot <= t <= self.end_knot):
             raise ValueError('Invalid t {}'.format(t))
         if self._uniform:
-            return int(t) + self._degree # start padding
+            # the end knot belongs to the last span
+            return min(int(t), self.end_knot -1) + self._degree # start padding
         else:
-            for i, t_span in enumerate(self._knots):
-                if t < t_span:
-                    return i-1
+            # last non-empty span which starts before t
+            knots = self._knots
+            i = self.number_of_points -1
+            while i > self._degree and (t < knots[i] or knots[i] == knots[i+1]):
+                i -= 1
+            return i
 
     ##############################################
 
@@ -308,6 +313,9 @@ class BSpline2D(Primitive2DMixin, PrimitiveNP):
         """De Boor-Cox recursion formula"""
 
         if k == 0:
+            if t == self.end_knot:
+                # the end knot belongs to the last span
+                return 1 if i == self.span(t) else 0
             return 1 if self._knots[i] <= t < self._knots[i+1] else 0
 
         ki = self._knots[i]
@@ -367,7 +375,7 @@ class BSpline2D(Primitive2DMixin, PrimitiveNP):
         basis = np.array([self.basis_function(i, self._degree, t)
                           for i in range(self.number_of_points)])
         points = self.point_array
-        return self.__vector_cls__(np.dot(basis, points))
+        return self.__vector_cls__(np.dot(points, basis))
 
     ##############################################
 
-- 
2.43.0


From 5fff7854fb3fb91b12c81547a577d4696dd3fe71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:48 +0000
Subject: [PATCH 050/156] fix: Bezier conversion of splines of other degrees,
 points of a spline are not shared

---
 Patro/GeometryEngine/Spline.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Patro/GeometryEngine/Spline.py b/Patro/GeometryEngine/Spline.py
index 7c8eadf..0a935b5 100644
--- a/Patro/GeometryEngine/Spline.py
+++ b/Patro/GeometryEngine/Spline.py
@@ -364,7 +364,8 @@ class BSpline2D(Primitive2DMixin, PrimitiveNP):
                     point = points[j-1] * (1 - alpha) + points[j] * alpha
                 points[j] = point
 
-        return points[self._degree]
+        # knots give an unblended control point, don't share it
+        return points[self._degree].clone()
 
     ##############################################
 
@@ -384,10 +385,10 @@ class BSpline2D(Primitive2DMixin, PrimitiveNP):
         # Spline curve as a Bézier span at start and end
         if self._uniform:
             if t == 0:
-                return self.start_point
+                return self.start_point.clone()
             elif t == self.end_knot:
                 # else computation fail
-                return self.end_point
+                return self.end_point.clone()
 
         if naive:
             return self._naive_point_at_t(t)
@@ -463,12 +464,11 @@ class BSpline2D(Primitive2DMixin, PrimitiveNP):
 
         if self._degree == 2:
             cls = Bezier.QuadraticBezier2D
-        elif self._degree >= 3:
+        elif self._degree == 3:
             cls = Bezier.CubicBezier2D
         else:
-            not NotImplementedError
+            raise NotImplementedError
 
-        # Fixme: degree > 3
         spline = self.to_bezier_form()
 
         bezier_curves = []
-- 
2.43.0


From 6ef9da9f37dafbe5771c1952862b08d8dc235fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:54 +0000
Subject: [PATCH 051/156] fix: absolute horizontal and vertical moves keep the
 other coordinate

---
 Patro/GeometryEngine/Path.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index 1e206db..28107d5 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -1003,8 +1003,7 @@ class Path2D(Primitive1PMixin, Primitive2DMixin, PointPrimitive):
 
     def horizontal_to(self, length, radius=None, absolute=False):
         if absolute:
-            return self._add_part(PathSegment, self.__vector_cls__(length, 0), radius,
-                                  absolute=True)
+            return self.absolute_horizontal_to(length, radius)
         else:
             return self._add_part(HorizontalSegment, length, radius)
 
@@ -1012,8 +1011,7 @@ class Path2D(Primitive1PMixin, Primitive2DMixin, PointPrimitive):
 
     def vertical_to(self, length, radius=None, absolute=False):
         if absolute:
-            return self._add_part(PathSegment, self.__vector_cls__(0, length), radius,
-                                  absolute=True)
+            return self.absolute_vertical_to(length, radius)
         else:
             return self._add_part(VerticalSegment, length, radius)
 
-- 
2.43.0


From 5790687f31d87526298df4f74a54c9e6bca9f10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:34 +0000
Subject: [PATCH 052/156] fix: stringed Bezier path parts

---
 Patro/GeometryEngine/Path.py | 90 ++++++++++++++++++++++++++++++------
 1 file changed, 77 insertions(+), 13 deletions(-)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index 28107d5..27d7fd6 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -724,7 +724,7 @@ class CubicBezierSegment(PathPart, ThreePointMixin):
     ##############################################
 
     def clone(self, path):
-        return self.__class__(path, self._index, self._point1, self._point2, self._point3, absolute)
+        return self.__class__(path, self._index, self._point1, self._point2, self._point3, self._absolute)
 
     ##############################################
 
@@ -753,7 +753,13 @@ class CubicBezierSegment(PathPart, ThreePointMixin):
 
 ####################################################################################################
 
-class StringedQuadtraticBezierSegment(PathPart, TwoPointMixin):
+class StringedQuadtraticBezierSegment(OnePointMixin, PathPart):
+
+    """Quadratic curve to *point1*, the control point is the reflection of the previous one.
+
+    The control point is the start point if the previous part is not a quadratic curve.
+
+    """
 
     ##############################################
 
@@ -762,26 +768,54 @@ class StringedQuadtraticBezierSegment(PathPart, TwoPointMixin):
         PathPart.__init__(self, path, index)
         self._init_absolute(absolute)
 
-        self.point1 = point1
+        self.point = point1
 
     ##############################################
 
     def clone(self, path):
-        return self.__class__(path, self._index, self._point1, absolute)
+        return self.__class__(path, self._index, self._point, self._absolute)
+
+    ##############################################
+
+    def to_absolute(self):
+        self._point = self.stop_point
+        self._absolute = True
 
     ##############################################
 
+    @property
+    def point1(self):
+        start_point = self.start_point
+        prev_part = self.prev_part
+        if isinstance(prev_part, (QuadraticBezierSegment, StringedQuadtraticBezierSegment)):
+            return start_point * 2 - prev_part.point1
+        else:
+            return start_point
+
+    @property
+    def point2(self):
+        return self.stop_point
+
+    @property
+    def points(self):
+        return (self.start_point, self.point1, self.point2)
+
     @property
     def geometry(self):
         # Fixme: cache ???
-        # Fixme: !!!
-        return Segment2D(self.start_point, self._point2)
-        # return CubicBezier2D(self.start_point, self._point1, self._point2, self._point3)
+        return QuadraticBezier2D(*self.points)
 
 ####################################################################################################
 
 class StringedCubicBezierSegment(PathPart, TwoPointMixin):
 
+    """Cubic curve to *point2* whose second control point is *point1*, the first control point is the
+    reflection of the previous one.
+
+    The first control point is the start point if the previous part is not a cubic curve.
+
+    """
+
     ##############################################
 
     def __init__(self, path, index, point1, point2, absolute=False):
@@ -789,21 +823,51 @@ class StringedCubicBezierSegment(PathPart, TwoPointMixin):
         PathPart.__init__(self, path, index)
         self._init_absolute(absolute)
 
-        # self.point1 = point1
+        self._point1 = Vector2D(point1) # second control point
+        self._point2 = Vector2D(point2) # stop point
 
     ##############################################
 
     def clone(self, path):
-        return self.__class__(path, self._index, self._point1, self._point2, absolute)
+        return self.__class__(path, self._index, self._point1, self._point2, self._absolute)
 
     ##############################################
 
+    def to_absolute(self):
+        self._point1, self._point2 = self.point2, self.point3
+        self._absolute = True
+
+    ##############################################
+
+    @property
+    def stop_point(self):
+        return self.point3
+
+    @property
+    def point1(self):
+        start_point = self.start_point
+        prev_part = self.prev_part
+        if isinstance(prev_part, (CubicBezierSegment, StringedCubicBezierSegment)):
+            return start_point * 2 - prev_part.point2
+        else:
+            return start_point
+
+    @property
+    def point2(self):
+        return self.to_absolute_point(self._point1)
+
+    @property
+    def point3(self):
+        return self.to_absolute_point(self._point2)
+
+    @property
+    def points(self):
+        return (self.start_point, self.point1, self.point2, self.point3)
+
     @property
     def geometry(self):
         # Fixme: cache ???
-        # Fixme: !!!
-        return Segment2D(self.start_point, self._point2)
-        # return CubicBezier2D(self.start_point, self._point1, self._point2, self._point3)
+        return CubicBezier2D(*self.points)
 
 ####################################################################################################
 
@@ -1081,7 +1145,7 @@ class Path2D(Primitive1PMixin, Primitive2DMixin, PointPrimitive):
     ##############################################
 
     def stringed_quadratic_to(self, point, absolute=False):
-        return self._add_part(StringedQuadraticBezierSegment, point, absolute=absolute)
+        return self._add_part(StringedQuadtraticBezierSegment, point, absolute=absolute)
 
     ##############################################
 
-- 
2.43.0


From e4220aaabde2e146f905467d4dfd46c74d4e978e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:38 +0000
Subject: [PATCH 053/156] fix: bulge of a path part is computed from the
 current path

---
 Patro/GeometryEngine/Path.py | 70 +++++++++++-------------------------
 1 file changed, 21 insertions(+), 49 deletions(-)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index 27d7fd6..63c2179 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -236,32 +236,18 @@ class LinearSegment(PathPart):
 
         super().__init__(path, index)
 
-        self._bissector = None
-        self._direction = None
-
         self._start_bulge = False
         self._closing = bool(closing)
         self.radius = radius
         if self._radius is not None:
             if not isinstance(self.prev_part, LinearSegment):
                 raise ValueError('Previous path segment must be linear')
-            self._reset_cache()
-
-    ##############################################
-
-    def _reset_cache(self):
-
-        self._bulge_angle = None
-        self._bulge_center = None
-        self._start_bulge_point = None
-        self._stop_bulge_point = None
 
     ##############################################
 
     def close(self, radius):
         """Set the bulge radius at the closure"""
         self.radius = radius
-        self._reset_cache()
         self._start_bulge = True
 
     ##############################################
@@ -310,40 +296,34 @@ class LinearSegment(PathPart):
         if value is not None:
             value = abs(float(value))
             if value == 0:
-                radius = None
+                value = None
         self._radius = value
 
     ##############################################
 
     @property
     def direction(self):
-        if self._direction is None:
-            self._direction = (self.stop_point - self.start_point).normalise()
-        return self._direction
+        return (self.stop_point - self.start_point).normalise()
 
     @property
     def bissector(self):
         if self._radius is None:
             return None
         else:
-            if self._bissector is None:
-                # self._bissector = (self.prev_part.direction + self.direction).normalise().normal
-                self._bissector = (self.direction - self.prev_part.direction).normalise()
-            return self._bissector
+            # self._bissector = (self.prev_part.direction + self.direction).normalise().normal
+            return (self.direction - self.prev_part.direction).normalise()
 
     ##############################################
 
     @property
     def bulge_angle_rad(self):
-        if self._bulge_angle is None:
-            # Fixme: rad vs degree
-            angle = self.direction.angle_with(self.prev_part.direction)
-            if angle >= 0:
-                angle = 180 - angle
-            else:
-                angle = -(180 + angle)
-            self._bulge_angle = math.radians(angle)
-        return self._bulge_angle
+        # Fixme: rad vs degree
+        angle = self.direction.angle_with(self.prev_part.direction)
+        if angle >= 0:
+            angle = 180 - angle
+        else:
+            angle = -(180 + angle)
+        return math.radians(angle)
 
     @property
     def bulge_angle(self):
@@ -357,30 +337,24 @@ class LinearSegment(PathPart):
 
     @property
     def bulge_center(self):
-        if self._bulge_center is None:
-            offset = self.bissector * self._radius / math.sin(abs(self.half_bulge_angle))
-            self._bulge_center = self.start_point + offset
-            # Note: -offset create external loop
-        return self._bulge_center
+        offset = self.bissector * self._radius / math.sin(abs(self.half_bulge_angle))
+        # Note: -offset create external loop
+        return self.start_point + offset
 
     ##############################################
 
     @property
     def bulge_start_point(self):
-        if self._start_bulge_point is None:
-            angle = self.half_bulge_angle
-            offset = self.prev_part.direction * self._radius / math.tan(angle)
-            self._start_bulge_point = self.start_point - sign(angle) *offset
-            # Note: -offset create internal loop
-        return self._start_bulge_point
+        angle = self.half_bulge_angle
+        offset = self.prev_part.direction * self._radius / math.tan(angle)
+        # Note: -offset create internal loop
+        return self.start_point - sign(angle) *offset
 
     @property
     def bulge_stop_point(self):
-        if self._stop_bulge_point is None:
-            angle = self.half_bulge_angle
-            offset = self.direction * self._radius / math.tan(self.half_bulge_angle)
-            self._stop_bulge_point = self.start_point + sign(angle) * offset
-        return self._stop_bulge_point
+        angle = self.half_bulge_angle
+        offset = self.direction * self._radius / math.tan(self.half_bulge_angle)
+        return self.start_point + sign(angle) * offset
 
     ##############################################
 
@@ -1023,8 +997,6 @@ class Path2D(Primitive1PMixin, Primitive2DMixin, PointPrimitive):
 
         for part in self._parts:
             # print(part)
-            if isinstance(part, PathSegment):
-                part._reset_cache()
             if isinstance(part, DirectionalSegmentMixin):
                 # Since a rotation will change the direction
                 # DirectionalSegment must be casted to PathSegment
-- 
2.43.0


From e0f4671a28046957fb3ef699606955ab95d52c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:13 +0000
Subject: [PATCH 054/156] fix: bounding box and geometry of a path with rounded
 corners

---
 Patro/GeometryEngine/Path.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index 63c2179..e24d6f2 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -440,7 +440,7 @@ class DirectionalSegmentMixin(LinearSegment):
     @property
     def geometry(self):
         # Fixme: cache ???
-        return Segment2D(self.start_point, self.stop_point)
+        return Segment2D(*self.points)
 
 ####################################################################################################
 
@@ -1028,6 +1028,8 @@ class Path2D(Primitive1PMixin, Primitive2DMixin, PointPrimitive):
                 bounding_box = interval
             else:
                 bounding_box |= interval
+            if isinstance(item, LinearSegment) and item.radius is not None:
+                bounding_box |= item.bulge_geometry.bounding_box
         return bounding_box
 
     ##############################################
-- 
2.43.0


From 7686c6eef3c0f234b827b1c8bed0a1288caf7353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:29 +0000
Subject: [PATCH 055/156] fix: bulge of aligned sides is null

---
 Patro/GeometryEngine/Path.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index e24d6f2..7263311 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -310,8 +310,11 @@ class LinearSegment(PathPart):
         if self._radius is None:
             return None
         else:
-            # self._bissector = (self.prev_part.direction + self.direction).normalise().normal
-            return (self.direction - self.prev_part.direction).normalise()
+            # normal of the mean direction, on the inner side of the corner
+            direction = self.direction
+            prev_direction = self.prev_part.direction
+            side = sign(prev_direction.cross(direction))
+            return (prev_direction + direction).normalise().normal * side
 
     ##############################################
 
@@ -362,11 +365,13 @@ class LinearSegment(PathPart):
     def bulge_geometry(self):
         # Fixme: check start and stop are within segment
         arc = Circle2D(self.bulge_center, self._radius)
-        start_angle, stop_angle = [arc.angle_for_point(point)
-                                   for point in (self.bulge_start_point, self.bulge_stop_point)]
         if self.bulge_angle < 0:
-            start_angle, stop_angle = stop_angle, start_angle
-        arc.domain = AngularDomain(start_angle, stop_angle)
+            start_point = self.bulge_stop_point
+        else:
+            start_point = self.bulge_start_point
+        start_angle = arc.angle_for_point(start_point)
+        # bulge is null for aligned sides
+        arc.domain = AngularDomain(start_angle, start_angle + max(180 - abs(self.bulge_angle), 0))
         # self._dump_bulge(arc)
         return arc
 
-- 
2.43.0


From d818b57f6cd4e6cb3581335af594614b682a8741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:01 +0000
Subject: [PATCH 056/156] fix: clone of a path

---
 Patro/GeometryEngine/Path.py | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index 7263311..2015eaf 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -252,6 +252,17 @@ class LinearSegment(PathPart):
 
     ##############################################
 
+    def _linear_part(self, part_cls, path, *args, **kwargs):
+        """Make a part with the same radius"""
+        # the radius at the closure don't have a previous part yet
+        radius = None if self._start_bulge else self._radius
+        obj = part_cls(path, self._index, *args, radius=radius, **kwargs)
+        if self._start_bulge:
+            obj.close(self._radius)
+        return obj
+
+    ##############################################
+
     @property
     def prev_part(self):
         if self._start_bulge:
@@ -398,16 +409,10 @@ class PathSegment(OnePointMixin, LinearSegment):
 
     def clone(self, path):
 
-        # Fixme: check
-        if obj._start_bulge:
-            radius = None
-        else:
-            radius = self._radius
-        obj = self.__class__(path, self._index, self._point, radius, self._absolute, self._closing)
-        if obj._start_bulge:
-            self.close(self._radius)
-
-        return obj
+        return self._linear_part(
+            self.__class__, path, self._point,
+            absolute=self._absolute, closing=self._closing,
+        )
 
     ##############################################
 
@@ -490,7 +495,7 @@ class AbsoluteHorizontalSegment(AbsoluteHVSegment):
     ##############################################
 
     def clone(self, path):
-        return self.__class__(path, self._index, self._x, self._radius)
+        return self._linear_part(self.__class__, path, self._x)
 
     ##############################################
 
@@ -528,7 +533,7 @@ class AbsoluteVerticalSegment(AbsoluteHVSegment):
     ##############################################
 
     def clone(self, path):
-        return self.__class__(path, self._index, self._y, self._radius)
+        return self._linear_part(self.__class__, path, self._y)
 
     ##############################################
 
@@ -566,7 +571,7 @@ class DirectionalSegment(DirectionalSegmentMixin):
     ##############################################
 
     def clone(self, path):
-        return self.__class__(path, self._index, self._length, self._radius)
+        return self._linear_part(self.__class__, path, self._length)
 
     ##############################################
 
@@ -942,6 +947,7 @@ class Path2D(Primitive1PMixin, Primitive2DMixin, PointPrimitive):
         parts = obj._parts
         for part in self._parts:
             parts.append(part.clone(obj))
+        obj._is_closed = self._is_closed
 
         return obj
 
-- 
2.43.0


From 3219e9deded89e01433a7946ea09d94d19ebc100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:21 +0000
Subject: [PATCH 057/156] fix: transformation of the arcs of a path

---
 Patro/GeometryEngine/Path.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index 2015eaf..0ff4fb9 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -38,6 +38,8 @@ __all__ = [
 import logging
 import math
 
+import numpy as np
+
 from Patro.Common.Math.Functions import sign
 from .Primitive import Primitive, Primitive1PMixin, Primitive2DMixin, PointPrimitive
 from .Bezier import QuadraticBezier2D, CubicBezier2D
@@ -899,6 +901,27 @@ class ArcSegment(OnePointMixin, PathPart):
 
     ##############################################
 
+    def apply_transformation(self, transformation):
+
+        OnePointMixin.apply_transformation(self, transformation)
+
+        # Images of the semi-axes are conjugate semi-diameters of the transformed ellipse
+        origin = transformation * Vector2D(0, 0)
+        axes = (
+            Vector2D.from_polar(abs(self._radius_x), self._angle),
+            Vector2D.from_polar(abs(self._radius_y), self._angle + 90),
+        )
+        vector1, vector2 = [transformation * axis - origin for axis in axes]
+        matrix = np.array((vector1.v, vector2.v)).transpose()
+        rotation, radii, _ = np.linalg.svd(matrix)
+        self._radius_x, self._radius_y = [float(radius) for radius in radii]
+        self._angle = math.degrees(math.atan2(rotation[1,0], rotation[0,0]))
+        # orientation is reversed by a reflection
+        if vector1.cross(vector2) < 0:
+            self._sweep = not self._sweep
+
+    ##############################################
+
     @property
     def points(self):
         return self.start_point, self.stop_point
-- 
2.43.0


From 433380587ce632716bdd072d7eb7dbc8b8f0a1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:36 +0000
Subject: [PATCH 058/156] fix: repr of a path

---
 Patro/GeometryEngine/Path.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index 0ff4fb9..91be677 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -976,6 +976,9 @@ class Path2D(Primitive1PMixin, Primitive2DMixin, PointPrimitive):
 
     ##############################################
 
+    def __repr__(self):
+        return '{0}({1._p0}, {1._parts})'.format(self.__class__.__name__, self)
+
     def __len__(self):
         return len(self._parts)
 
-- 
2.43.0


From 1b94810acf380d266811a84869d667d129d7b174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:03 +0000
Subject: [PATCH 059/156] fix: paths can have more relative parts than the
 recursion limit

---
 Patro/GeometryEngine/Path.py | 52 ++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 26 deletions(-)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index 91be677..bdbbf05 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -106,16 +106,20 @@ class PathPart:
     @property
     def start_point(self):
         # Fixme: cache ???
-        prev_part = self.prev_part
-        if prev_part is not None:
-            return prev_part.stop_point
-        else:
-            return self._path.p0
+        # Note: a path can have more parts than the recursion limit
+        point = self._path.p0
+        for part in self._path.parts_before(self._index):
+            point = part._stop_point_from(point)
+        return point
 
     ##############################################
 
     @property
     def stop_point(self):
+        return self._stop_point_from(self.start_point)
+
+    def _stop_point_from(self, start_point):
+        """Return the stop point for the given start point"""
         raise NotImplementedError
 
     ##############################################
@@ -155,9 +159,8 @@ class OnePointMixin:
 
     ##############################################
 
-    @property
-    def stop_point(self):
-        return self.to_absolute_point(self._point)
+    def _stop_point_from(self, start_point):
+        return self._point if self._absolute else self._point + start_point
 
     ##############################################
 
@@ -511,9 +514,8 @@ class AbsoluteHorizontalSegment(AbsoluteHVSegment):
 
     ##############################################
 
-    @property
-    def stop_point(self):
-        return Vector2D(self._x, self.start_point.y)
+    def _stop_point_from(self, start_point):
+        return Vector2D(self._x, start_point.y)
 
 ####################################################################################################
 
@@ -549,9 +551,8 @@ class AbsoluteVerticalSegment(AbsoluteHVSegment):
 
     ##############################################
 
-    @property
-    def stop_point(self):
-        return Vector2D(self.start_point.x, self._y)
+    def _stop_point_from(self, start_point):
+        return Vector2D(start_point.x, self._y)
 
 ####################################################################################################
 
@@ -592,10 +593,9 @@ class DirectionalSegment(DirectionalSegmentMixin):
         # Fixme: cache ???
         return Vector2D.from_polar(self._length, self.__angle__)
 
-    @property
-    def stop_point(self):
+    def _stop_point_from(self, start_point):
         # Fixme: cache ???
-        return self.start_point + self.offset
+        return start_point + self.offset
 
     ##############################################
 
@@ -677,9 +677,8 @@ class QuadraticBezierSegment(PathPart, TwoPointMixin):
 
     ##############################################
 
-    @property
-    def stop_point(self):
-        return self.point2
+    def _stop_point_from(self, start_point):
+        return self._point2 if self._absolute else self._point2 + start_point
 
     @property
     def points(self):
@@ -722,9 +721,8 @@ class CubicBezierSegment(PathPart, ThreePointMixin):
 
     ##############################################
 
-    @property
-    def stop_point(self):
-        return self.point3
+    def _stop_point_from(self, start_point):
+        return self._point3 if self._absolute else self._point3 + start_point
 
     @property
     def points(self):
@@ -825,9 +823,8 @@ class StringedCubicBezierSegment(PathPart, TwoPointMixin):
 
     ##############################################
 
-    @property
-    def stop_point(self):
-        return self.point3
+    def _stop_point_from(self, start_point):
+        return self._point2 if self._absolute else self._point2 + start_point
 
     @property
     def point1(self):
@@ -985,6 +982,9 @@ class Path2D(Primitive1PMixin, Primitive2DMixin, PointPrimitive):
     def __iter__(self):
         return iter(self._parts)
 
+    def parts_before(self, index):
+        return self._parts[:index]
+
     def __getitem__(self, index):
         # try:
         #     return self._parts[slice_]
-- 
2.43.0


From 6fadcd94ed1b38f59aa4e176a88a37aa866824c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:26 +0000
Subject: [PATCH 060/156] fix: closed form of the roots of a cubic

---
 Patro/Common/Math/Root.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/Patro/Common/Math/Root.py b/Patro/Common/Math/Root.py
index cfe2813..5b15bcf 100644
--- a/Patro/Common/Math/Root.py
+++ b/Patro/Common/Math/Root.py
@@ -138,17 +138,12 @@ def cubic_root_normalised(a, b, c):
 
     q = (a**2 - 3*b) / 9
     q3 = q**3
-    m2sqrtQ = -2 * sqrt(q)
     r = (2*a**3 - 9*a*b + 27*c) / 54
     r2 = r**2
-    d = - sign(r)*((abs(r) + sqrt(r2-q3))**1/3) # Fixme: sqrt ??
-
-    if d == 0:
-        e = 0
-    else:
-        e = q/d
 
     if r2 < q3:
+        # three real roots
+        m2sqrtQ = -2 * sqrt(q)
         t = acos(r/sqrt(q3))
         return [
             m2sqrtQ * cos(t/3)          - a/3,
@@ -156,7 +151,16 @@ def cubic_root_normalised(a, b, c):
             m2sqrtQ * cos((t - 2*pi)/3) - a/3,
         ]
     else:
-        return [d + e - a/3]
+        d = - sign(r)*((abs(r) + sqrt(r2-q3))**(1/3))
+        if d == 0:
+            e = 0
+        else:
+            e = q/d
+        roots = [d + e - a/3]
+        if r2 == q3 and d != 0:
+            # and a double root
+            roots.append(-d - a/3)
+        return roots
 
 ####################################################################################################
 
-- 
2.43.0


From c66714c824dcffc3e6176be6e71ddcd7c24a766c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:30 +0000
Subject: [PATCH 061/156] fix: iterators on an empty sequence

---
 Patro/Common/IterTools.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Patro/Common/IterTools.py b/Patro/Common/IterTools.py
index 0992f6b..0d7e32b 100644
--- a/Patro/Common/IterTools.py
+++ b/Patro/Common/IterTools.py
@@ -43,6 +43,8 @@ def closed_iterator(iterable):
     """
 
     number_of_items = len(iterable)
+    if not number_of_items:
+        return
     for i in range(number_of_items +1):
         yield iterable[i%number_of_items]
 
@@ -56,6 +58,8 @@ def pairwise(iterable):
 
     """
 
+    if not len(iterable):
+        return
     prev = iterable[0]
     for x in iterable[1:]:
         yield prev, x
-- 
2.43.0


From 9cd4adacdc4246c18548bbf12fb0238490694f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:33 +0000
Subject: [PATCH 062/156] fix: ancestors of a graph node

---
 Patro/Common/Graph/DirectedAcyclicGraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/Common/Graph/DirectedAcyclicGraph.py b/Patro/Common/Graph/DirectedAcyclicGraph.py
index f0944b4..d9bb62e 100644
--- a/Patro/Common/Graph/DirectedAcyclicGraph.py
+++ b/Patro/Common/Graph/DirectedAcyclicGraph.py
@@ -59,7 +59,7 @@ class DirectedAcyclicGraphNode:
 
     @property
     def ancestor(self):
-        return self._ancestor
+        return self._ancestors
 
     @property
     def descendants(self):
-- 
2.43.0


From e2eee5e2fb555261eb2e8beff375d2a5b9515419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:36 +0000
Subject: [PATCH 063/156] fix: text of an XML element

---
 Patro/Common/Xml/Objectivity.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Patro/Common/Xml/Objectivity.py b/Patro/Common/Xml/Objectivity.py
index 7b557c9..fa75265 100644
--- a/Patro/Common/Xml/Objectivity.py
+++ b/Patro/Common/Xml/Objectivity.py
@@ -351,15 +351,16 @@ class TextXmlObjectAdaptator(XmlObjectAdaptator):
 
     def __init__(self, *args, **kwargs):
 
-        super().__init__(*args, **kwargs)
         self.text = kwargs.get('text', '')
+        super().__init__(*args, **kwargs)
 
     ##############################################
 
     def _init_from_xml(self, xml_element):
 
         super()._init_from_xml(xml_element)
-        self.text = str(xml_element.text)
+        text = xml_element.text
+        self.text = '' if text is None else str(text)
 
     ##############################################
 
-- 
2.43.0


From dc20b670135772e53cac29557cc5d5a3cff3fb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:41 +0000
Subject: [PATCH 064/156] fix: separators of a list of floats

---
 Patro/Common/Xml/Objectivity.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/Patro/Common/Xml/Objectivity.py b/Patro/Common/Xml/Objectivity.py
index fa75265..483a480 100644
--- a/Patro/Common/Xml/Objectivity.py
+++ b/Patro/Common/Xml/Objectivity.py
@@ -179,13 +179,7 @@ class FloatListAttribute(Attribute):
         elif isinstance(value, (tuple, list)): # Python value
             return value
         else:
-            if ' ' in value:
-                separator = ' '
-            elif ',' in value:
-                separator = ','
-            else:
-                return [float(value)]
-            return [float(x) for x in value.split(separator)]
+            return [float(x) for x in value.replace(',', ' ').split()]
 
     ##############################################
 
-- 
2.43.0


From 3a66de0adf340c010ef729eacd40c4bad8c24545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:44 +0000
Subject: [PATCH 065/156] fix: XML objects built from Python values

---
 Patro/Common/Xml/Objectivity.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Patro/Common/Xml/Objectivity.py b/Patro/Common/Xml/Objectivity.py
index 483a480..59d0bc8 100644
--- a/Patro/Common/Xml/Objectivity.py
+++ b/Patro/Common/Xml/Objectivity.py
@@ -132,7 +132,9 @@ class BoolAttribute(Attribute):
 
     @classmethod
     def from_xml(cls, value):
-        if value == "true" or value == "1":
+        if isinstance(value, bool): # Python value
+            return value
+        elif value == "true" or value == "1":
             return True
         elif value == "false" or value == "0":
             return False
@@ -252,7 +254,7 @@ class XmlObjectAdaptator(metaclass=XmlObjectAdaptatorMetaClass):
 
         if args:
             self._init_from_xml(args[0])
-        elif kwargs:
+        else:
             self._init_from_kwargs(kwargs)
 
     ##############################################
-- 
2.43.0


From 4651a95750ffa13c3f2ce3d25fd85d4efdeb6fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:48 +0000
Subject: [PATCH 066/156] fix: inheritance of XML attributes

---
 Patro/Common/Xml/Objectivity.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/Patro/Common/Xml/Objectivity.py b/Patro/Common/Xml/Objectivity.py
index 59d0bc8..1b8ae37 100644
--- a/Patro/Common/Xml/Objectivity.py
+++ b/Patro/Common/Xml/Objectivity.py
@@ -214,9 +214,10 @@ class XmlObjectAdaptatorMetaClass(type):
         # cls._logger.info(str((cls, class_name, super_classes, class_attribute_dict)))
         type.__init__(cls, class_name, super_classes, class_attribute_dict)
 
+        cls._declared_attributes = tuple(class_attribute_dict.get('__attributes__', ()))
+
         # Collect attributes from super-classes and update
-        super_attributes = cls.register_from_super_class(super_classes)
-        cls.__attributes__ = super_attributes + list(cls.__attributes__)
+        cls.__attributes__ = cls.collect_attributes()
 
         # Define a property for each attribute
         for attribute in cls.__attributes__:
@@ -225,19 +226,19 @@ class XmlObjectAdaptatorMetaClass(type):
 
     ##############################################
 
-    def register_from_super_class(cls, super_classes):
+    def collect_attributes(cls):
 
-        """Collect attributes from super-classes"""
+        """Collect the attributes of the class and its super-classes, an attribute overrides the one of the
+        same name in a super-class
 
-        # Fixme: use set ???
+        """
 
-        super_attributes = []
-        for super_class in super_classes:
-            # __mro__ = [cls, ..., object]
-            super_attributes += cls.register_from_super_class(super_class.__mro__[1:-1]) # super_class.__subclasses__()
-            if hasattr(super_class, '__attributes__'):
-                super_attributes += list(super_class.__attributes__)
-        return super_attributes
+        attributes = {}
+        for super_class in reversed(cls.__mro__):
+            class_dict = super_class.__dict__
+            for attribute in class_dict.get('_declared_attributes', class_dict.get('__attributes__', ())):
+                attributes[attribute.py_attribute] = attribute
+        return list(attributes.values())
 
 ####################################################################################################
 
-- 
2.43.0


From a3f3205dddb4489b59b8ed07a65a51ef64d0a251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:10 +0000
Subject: [PATCH 067/156] fix: conversions between inch and point

---
 Patro/GraphicEngine/GraphicScene/TypographyUnit.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Patro/GraphicEngine/GraphicScene/TypographyUnit.py b/Patro/GraphicEngine/GraphicScene/TypographyUnit.py
index 5219859..16ca11c 100644
--- a/Patro/GraphicEngine/GraphicScene/TypographyUnit.py
+++ b/Patro/GraphicEngine/GraphicScene/TypographyUnit.py
@@ -37,14 +37,14 @@ __all__ = [
 class TypographyUnit:
 
     INCH_2_MM        = 25.4    # 1 inch = 25.4 mm
-    POINT_2_INCH     = 72      # 1 inch = 72 point   PostScript, CSS pt and TeX bp
-    TEX_POINT_2_INCH = 72.27   # TeX pt
+    INCH_2_POINT     = 72      # 1 inch = 72 point   PostScript, CSS pt and TeX bp
+    INCH_2_TEX_POINT = 72.27   # TeX pt
     PICA_2_POINT     = 12      # 1 pica = 12 point
 
-    POINT_2_MM    = INCH_2_MM / POINT_2_INCH
+    POINT_2_MM    = INCH_2_MM / INCH_2_POINT
 
     MM_2_INCH     = 1 / INCH_2_MM
-    INCH_2_POINT  = 1 / POINT_2_INCH
+    POINT_2_INCH  = 1 / INCH_2_POINT
     MM_2_POINT    = 1 / POINT_2_MM
 
     ##############################################
@@ -55,7 +55,7 @@ class TypographyUnit:
     ##############################################
 
     def __float__(self) -> float:
-        return self._value
+        return float(self._value)
 
 ####################################################################################################
 
@@ -65,7 +65,7 @@ class MmUnit(TypographyUnit):
         return self
 
     def to_inch(self) -> 'InchUnit':
-        return InchUnit(self._value * self.MM_2_POINT)
+        return InchUnit(self._value * self.MM_2_INCH)
 
     def to_point(self) -> 'PointUnit':
         return PointUnit(self._value * self.MM_2_POINT)
-- 
2.43.0


From 266edaaa7194d9e654c9246be7d9c27072c20268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:12 +0000
Subject: [PATCH 068/156] fix: conversions of yarn counts

---
 Patro/TextileTechnology/Yarn.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Patro/TextileTechnology/Yarn.py b/Patro/TextileTechnology/Yarn.py
index b77e202..2e32f37 100644
--- a/Patro/TextileTechnology/Yarn.py
+++ b/Patro/TextileTechnology/Yarn.py
@@ -30,13 +30,13 @@ def tex2den(x):
     return x*9
 
 def den2tex(x):
-    return x*10/9
+    return x/9
 
 def tex2nm(x):
     return 1000/x
 
 def nm2tex(x):
-    return 1000*x
+    return 1000/x
 
 ####################################################################################################
 
@@ -66,7 +66,7 @@ class Yarn:
         self._fiber = str(fiber) # composition ?
         self._color = color # Fixme: multicolor ? data type ?
         self._tex = float(tex) # g/km
-        self._twist_type = TwistType(twist_type)
+        self._twist_type = TwistType(twist_type) if twist_type is not None else None
 
     ##############################################
 
-- 
2.43.0


From a2f68bbbc10e7ea839f918c7258455a9a28e9c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:12 +0000
Subject: [PATCH 069/156] fix: colour from a colour

---
 Patro/GraphicStyle/Color/ColorDataBase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicStyle/Color/ColorDataBase.py b/Patro/GraphicStyle/Color/ColorDataBase.py
index 3f95601..68561d1 100644
--- a/Patro/GraphicStyle/Color/ColorDataBase.py
+++ b/Patro/GraphicStyle/Color/ColorDataBase.py
@@ -63,7 +63,7 @@ class Color:
         number_of_args = len(args)
         if number_of_args == 1:
             color = args[0]
-            if isinstance(str, Color):
+            if isinstance(color, Color):
                 self._red = color.red_float
                 self._green = color.green_float
                 self._blue = color.blue_float
-- 
2.43.0


From f370b05a6a3a627de59d0681752edc67071c561d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:14 +0000
Subject: [PATCH 070/156] fix: rounding of colour components

---
 Patro/GraphicStyle/Color/ColorDataBase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicStyle/Color/ColorDataBase.py b/Patro/GraphicStyle/Color/ColorDataBase.py
index 68561d1..e74678d 100644
--- a/Patro/GraphicStyle/Color/ColorDataBase.py
+++ b/Patro/GraphicStyle/Color/ColorDataBase.py
@@ -116,7 +116,7 @@ class Color:
 
     @staticmethod
     def _to_int(x: float) -> int:
-        return int(x*255)
+        return round(x*255)
 
     @staticmethod
     def _to_float(x: int) -> float:
-- 
2.43.0


From 6b880ed7eb4c56db94c441c5d75fe31509952738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:16 +0000
Subject: [PATCH 071/156] fix: colours from integer light or value

---
 Patro/GraphicStyle/Color/ColorDataBase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicStyle/Color/ColorDataBase.py b/Patro/GraphicStyle/Color/ColorDataBase.py
index e74678d..6e50c7e 100644
--- a/Patro/GraphicStyle/Color/ColorDataBase.py
+++ b/Patro/GraphicStyle/Color/ColorDataBase.py
@@ -89,7 +89,7 @@ class Color:
                 red, green, blue = colorsys.hsv_to_rgb(hue, saturation, value)
             else:
                 raise ValueError('Missing color parameter')
-            self._red, self._green, self._blue = [self._check_value(x) for x in (red, green, blue)]
+            self._red, self._green, self._blue = [self._check_value(float(x)) for x in (red, green, blue)]
 
         # self._name = kwargs.get('name', None)
         if 'name' in kwargs:
-- 
2.43.0


From 5c41074117f160a941cac2ccc6602afec7a60d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:18 +0000
Subject: [PATCH 072/156] fix: hexadecimal notation of colours

---
 Patro/GraphicStyle/Color/ColorDataBase.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Patro/GraphicStyle/Color/ColorDataBase.py b/Patro/GraphicStyle/Color/ColorDataBase.py
index 6e50c7e..eedd2f3 100644
--- a/Patro/GraphicStyle/Color/ColorDataBase.py
+++ b/Patro/GraphicStyle/Color/ColorDataBase.py
@@ -29,6 +29,7 @@ __all__ = ['Color', 'ColorDataBase']
 ####################################################################################################
 
 import colorsys
+import re
 from typing import Iterator
 
 ####################################################################################################
@@ -53,6 +54,7 @@ class Color:
     """
 
     __STR_FORMAT__ = '#' + '{:02x}'*3
+    __STR_REGEXP__ = re.compile('#([0-9a-fA-F]{3}|[0-9a-fA-F]{6})')
 
     ##############################################
 
@@ -69,9 +71,11 @@ class Color:
                 self._blue = color.blue_float
             else:
                 rgb = str(color)
-                if not rgb.startswith('#'):
+                if not self.__STR_REGEXP__.fullmatch(rgb):
                     raise ValueError(f'Invalid color {rgb}')
                 rgb = rgb[1:]
+                if len(rgb) == 3:   # '#rgb'
+                    rgb = ''.join(2*x for x in rgb)
                 red, green, blue = rgb[:2], rgb[2:4], rgb[-2:]
                 self._red, self._green, self._blue = [self._to_float(int(x, 16))
                                                       for x in (red, green, blue)]
-- 
2.43.0


From b96dadd298b53fe77720cbf9dd691c47318cdee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:20 +0000
Subject: [PATCH 073/156] fix: unknown colour attribute

---
 Patro/GraphicStyle/Color/ColorDataBase.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Patro/GraphicStyle/Color/ColorDataBase.py b/Patro/GraphicStyle/Color/ColorDataBase.py
index eedd2f3..aa06174 100644
--- a/Patro/GraphicStyle/Color/ColorDataBase.py
+++ b/Patro/GraphicStyle/Color/ColorDataBase.py
@@ -243,7 +243,10 @@ class ColorDataBase:
         return self._colors[str(name)]
 
     def __getattr__(self, name: str) -> Color:
-        return self._colors[name]
+        try:
+            return self.__dict__['_colors'][name]
+        except KeyError:
+            raise AttributeError(f'Undefined color {name}')
 
     ##############################################
 
-- 
2.43.0


From 311e8d258edc9f06c77b7fc24d2041b72075699c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:22 +0000
Subject: [PATCH 074/156] fix: clone of a graphic style

---
 Patro/GraphicEngine/GraphicScene/GraphicStyle.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/GraphicScene/GraphicStyle.py b/Patro/GraphicEngine/GraphicScene/GraphicStyle.py
index c06a0a8..de1d1d4 100644
--- a/Patro/GraphicEngine/GraphicScene/GraphicStyle.py
+++ b/Patro/GraphicEngine/GraphicScene/GraphicStyle.py
@@ -86,7 +86,11 @@ class GraphicPathStyle:
             'stroke_style',
             'line_width',
             'stroke_color',
+            'stroke_alpha',
             'fill_color',
+            'fill_alpha',
+            'cap_style',
+            'join_style',
         )
 
     ##############################################
@@ -203,7 +207,7 @@ class GraphicBezierStyle(GraphicPathStyle):
     ##############################################
 
     def _dict_keys(self) -> list:
-        return (
+        return super()._dict_keys() + (
             'show_control',
             'control_color',
         )
-- 
2.43.0


From 1aea075c64ae817669654b21dd4e3f6f2e9ea513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:45 +0000
Subject: [PATCH 075/156] fix: value returned by an atomic increment

---
 Patro/Common/AtomicCounter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/Common/AtomicCounter.py b/Patro/Common/AtomicCounter.py
index 98afe7b..247e44d 100644
--- a/Patro/Common/AtomicCounter.py
+++ b/Patro/Common/AtomicCounter.py
@@ -52,7 +52,7 @@ class AtomicCounter:
         """
         with self._lock:
             self._value += value
-        return self._value
+            return self._value
 
     ##############################################
 
-- 
2.43.0


From 2b134328e16024822aac873bac7da425ecedd37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:47 +0000
Subject: [PATCH 076/156] fix: monostate with constructor arguments

---
 Patro/Common/Singleton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/Common/Singleton.py b/Patro/Common/Singleton.py
index 9fa4ef1..c7cc10a 100644
--- a/Patro/Common/Singleton.py
+++ b/Patro/Common/Singleton.py
@@ -111,6 +111,6 @@ class monostate:
 
     def __new__(cls, *args, **kwargs):
         # print('monostate __new__:', cls, args, kwargs, sep='\n... ')
-        obj = super(monostate, cls).__new__(cls, *args, **kwargs)
+        obj = super(monostate, cls).__new__(cls)
         obj.__dict__ = cls._shared_state
         return obj
-- 
2.43.0


From 5740a9b5fc9dbad81abbb9764ee1c391e77ee538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:14 +0000
Subject: [PATCH 077/156] fix: rows and columns of the tiles

---
 Patro/GraphicEngine/Painter/Painter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/Painter/Painter.py b/Patro/GraphicEngine/Painter/Painter.py
index 66b6d34..98caab0 100644
--- a/Patro/GraphicEngine/Painter/Painter.py
+++ b/Patro/GraphicEngine/Painter/Painter.py
@@ -66,7 +66,7 @@ class Tiler:
 
         for r in range(number_of_rows):
             for c in range(number_of_columns):
-                local_min_point = min_point + area_vector * Vector2D(r, c)
+                local_min_point = min_point + area_vector * Vector2D(c, r)
                 local_max_point = local_min_point + area_vector
                 interval = Interval2D((local_min_point.x, local_max_point.x), (local_min_point.y, local_max_point.y))
                 yield (interval, r, c)
-- 
2.43.0


From 2a67a7100eead4c75c35db245c868939bd15560b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:15 +0000
Subject: [PATCH 078/156] fix: tiler changes the given bounding box

---
 Patro/GraphicEngine/Painter/Painter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/Painter/Painter.py b/Patro/GraphicEngine/Painter/Painter.py
index 98caab0..1a12d45 100644
--- a/Patro/GraphicEngine/Painter/Painter.py
+++ b/Patro/GraphicEngine/Painter/Painter.py
@@ -42,7 +42,7 @@ class Tiler:
 
     def __init__(self, bounding_box, paper, margin=1):
         # print('Tiler', bounding_box)
-        self._bounding_box = bounding_box.enlarge(margin)
+        self._bounding_box = bounding_box.copy().enlarge(margin)
         self._paper = paper
 
     ##############################################
-- 
2.43.0


From 253179c21053f4d181de7b8d13852d54d5b18af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:38 +0000
Subject: [PATCH 079/156] fix: encoding name of the measurement files

---
 Patro/Measurement/Measurement.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/Measurement/Measurement.py b/Patro/Measurement/Measurement.py
index c279842..87391ca 100644
--- a/Patro/Measurement/Measurement.py
+++ b/Patro/Measurement/Measurement.py
@@ -234,14 +234,14 @@ class MeasurementSet:
             if measurement.full_name or measurement.description:
                 data += [measurement.full_name, measurement.description]
             measurements[measurement.name] = data
-        with open(yaml_path, 'w', encoding='uft8') as fh:
+        with open(yaml_path, 'w', encoding='utf8') as fh:
             yaml_string = yaml.dump(measurements, default_flow_style=False, width=160)
             fh.write(yaml_string)
 
     ##############################################
 
     def load_yaml(self, yaml_path: str | Path) -> None:
-        with open(yaml_path, 'r', encoding='uft8') as fh:
+        with open(yaml_path, 'r', encoding='utf8') as fh:
             measurements = yaml.load(fh.read(), Loader=yaml.SafeLoader)
             for name, data in measurements.items():
                 if len(data) > 1:
-- 
2.43.0


From ee3d151cc14dd5b4acc381dfad0807f218d41e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:39 +0000
Subject: [PATCH 080/156] fix: precision of the measurement values

---
 Patro/Measurement/Measurement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/Measurement/Measurement.py b/Patro/Measurement/Measurement.py
index 87391ca..b9c5205 100644
--- a/Patro/Measurement/Measurement.py
+++ b/Patro/Measurement/Measurement.py
@@ -117,7 +117,7 @@ class Measurement:
     @property
     def value(self) -> float:
         if self._value is None:
-            self._value = float(self.evaluated_expression.evalf(3))   # ensure a float or raise
+            self._value = float(self.evaluated_expression.evalf())   # ensure a float or raise
         return self._value
 
     def __float__(self) -> float:
-- 
2.43.0


From 602d330657af047283dd8d2249f6774763c42add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:41 +0000
Subject: [PATCH 081/156] fix: measurements referring to other formulas

---
 Patro/Measurement/Measurement.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/Patro/Measurement/Measurement.py b/Patro/Measurement/Measurement.py
index b9c5205..bac40e5 100644
--- a/Patro/Measurement/Measurement.py
+++ b/Patro/Measurement/Measurement.py
@@ -111,7 +111,11 @@ class Measurement:
             # https://docs.sympy.org/latest/modules/core.html?highlight=subs#sympy.core.basic.Basic.subs
             # variable order doesn't matter, sympy do the job
             # self._evaluated_expression = self._expression.subs(self._measurements._expressions)
-            self._evaluated_expression = self._measurements.subs(self)
+            expression = self._measurements.subs(self)
+            if expression.free_symbols:
+                # some measurements are not yet defined
+                return expression
+            self._evaluated_expression = expression
         return self._evaluated_expression
 
     @property
@@ -207,7 +211,14 @@ class MeasurementSet:
     ##############################################
 
     def subs(self, measurement: Measurement) -> sympy.core.expr.Expr:
-        return measurement.expression.subs(self._expressions)
+        # a measurement can refer to measurements which themselves refer to other ones
+        expression = measurement.expression
+        for _ in range(len(self._expressions) + 1):
+            substituted_expression = expression.subs(self._expressions)
+            if substituted_expression == expression:
+                break
+            expression = substituted_expression
+        return expression
 
     ##############################################
 
-- 
2.43.0


From d102b35f6c2713f6147b9b1e9732e84a31991a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:18 +0000
Subject: [PATCH 082/156] fix: measurement names known by sympy

---
 Patro/Measurement/Measurement.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/Patro/Measurement/Measurement.py b/Patro/Measurement/Measurement.py
index bac40e5..bb4d275 100644
--- a/Patro/Measurement/Measurement.py
+++ b/Patro/Measurement/Measurement.py
@@ -60,7 +60,7 @@ class Measurement:
             self._value = float(value)
         else:
             # https://docs.sympy.org/latest/modules/core.html#id1
-            self._expression = sympy.sympify(str(value))
+            self._expression = sympy.sympify(str(value), locals=measurements.symbols)
             self._evaluated_expression = None
             self._value = None
 
@@ -148,7 +148,8 @@ class MeasurementSet:
         self._pattern_making_system = pattern_making_system   # Fixme: purpose ???
         self._personal = PersonalData() if personal_data is None else personal_data
         self._measurements = {}   # name -> Measurement
-        self._expressions = {}   # name -> expression  for sympy substitution
+        self._expressions = {}   # symbol -> expression  for sympy substitution
+        self._symbols = {}   # name -> symbol  else sympy interprets names like E, N or beta
 
     ##############################################
 
@@ -197,6 +198,13 @@ class MeasurementSet:
 
     # Note: __setattr__ is called for by setattr
 
+    @property
+    def symbols(self) -> dict[str, sympy.Symbol]:
+        return self._symbols
+
+    def _add_symbol(self, name: str) -> sympy.Symbol:
+        return self._symbols.setdefault(name, sympy.Symbol(name))
+
     ##############################################
 
     def add(self, *args: list, **kwargs: dict) -> Measurement:
@@ -205,7 +213,7 @@ class MeasurementSet:
         if measurement.name in self._measurements:
             raise NameError(f"Measurement {measurement.name} is already registered")
         self._measurements[measurement.name] = measurement
-        self._expressions[measurement.name] = measurement.expression
+        self._expressions[self._add_symbol(measurement.name)] = measurement.expression
         return measurement
 
     ##############################################
@@ -254,6 +262,9 @@ class MeasurementSet:
     def load_yaml(self, yaml_path: str | Path) -> None:
         with open(yaml_path, 'r', encoding='utf8') as fh:
             measurements = yaml.load(fh.read(), Loader=yaml.SafeLoader)
+            # a formula can refer to a measurement defined later
+            for name in measurements:
+                self._add_symbol(name)
             for name, data in measurements.items():
                 if len(data) > 1:
                     value, full_name, description = data
-- 
2.43.0


From 3e156aefa140c3872717f1d980f954c5822e5e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:19 +0000
Subject: [PATCH 083/156] fix: import of the Valentina measurements

---
 Patro/Measurement/ValentinaMeasurement.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/Measurement/ValentinaMeasurement.py b/Patro/Measurement/ValentinaMeasurement.py
index acf406f..4557f3c 100644
--- a/Patro/Measurement/ValentinaMeasurement.py
+++ b/Patro/Measurement/ValentinaMeasurement.py
@@ -22,7 +22,7 @@
 
 import logging
 
-from .Measurement import Measurement, Measurements
+from .Measurement import Measurement, MeasurementSet
 from .ValentinaStandardMeasurement import ValentinaStandardMeasurement
 
 ####################################################################################################
@@ -81,7 +81,7 @@ class ValentinaMeasurement(Measurement):
 
 ####################################################################################################
 
-class ValentinaMeasurements(Measurements):
+class ValentinaMeasurements(MeasurementSet):
 
     """Class to store a set of Valentina measurements"""
 
-- 
2.43.0


From 78439d635aa647ffacea92ce99561d0f5e4544f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:20 +0000
Subject: [PATCH 084/156] fix: custom Valentina measurements

---
 Patro/Measurement/ValentinaMeasurement.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/Patro/Measurement/ValentinaMeasurement.py b/Patro/Measurement/ValentinaMeasurement.py
index 4557f3c..a3ff6a3 100644
--- a/Patro/Measurement/ValentinaMeasurement.py
+++ b/Patro/Measurement/ValentinaMeasurement.py
@@ -65,7 +65,8 @@ class ValentinaMeasurement(Measurement):
         #     name = name[1:]
         #     if name in _valentina_standard_measurement:
         #         name = self.CUSTOM_PREFIX + name
-        value = self.replace_custom_prefix(value)
+        if isinstance(value, str):
+            value = self.replace_custom_prefix(value)
         super().__init__(measurements, name, value, full_name, description)
 
     ##############################################
@@ -91,8 +92,6 @@ class ValentinaMeasurements(MeasurementSet):
 
     ##############################################
 
-    def add(self, *args: list, **kgwars: dict) -> None:
-        # Fixme: name ?
-        measurement = super().add(*args, **kgwars)
-        if measurement.is_custom():
-            self._measurements[measurement.valentina_name] = measurement
+    def __getitem__(self, name: str) -> ValentinaMeasurement:
+        # a custom measurement can also be accessed by its Valentina name
+        return super().__getitem__(self.__measurement_cls__.replace_custom_prefix(name))
-- 
2.43.0


From 1dddf3f68d55e6fed38dcf8e6c83fe432b0a8dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:39 +0000
Subject: [PATCH 085/156] fix: units and email of a measurement file

---
 Patro/FileFormat/Valentina/Measurement.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Patro/FileFormat/Valentina/Measurement.py b/Patro/FileFormat/Valentina/Measurement.py
index 3a26a19..f86f195 100644
--- a/Patro/FileFormat/Valentina/Measurement.py
+++ b/Patro/FileFormat/Valentina/Measurement.py
@@ -91,8 +91,8 @@ class VitFileInternal(XmlFileMixin):
         version = self.get_xpath_element(tree, 'version').text
         # self.read_only = self.get_xpath_element(tree, 'read-only').text
         # self.notes = self.get_xpath_element(tree, 'notes').text
-        self.unit = self.get_xpath_element(tree, 'unit').text
-        self.pattern_making_system = self.get_xpath_element(tree, 'pm_system').text
+        measurements.unit = self.get_xpath_element(tree, 'unit').text
+        measurements.pattern_making_system = self.get_xpath_element(tree, 'pm_system').text
 
         personal = measurements.personal
         personal_element = self.get_xpath_element(tree, 'personal')
@@ -102,10 +102,10 @@ class VitFileInternal(XmlFileMixin):
         # personal.first_name = self.get_xpath_element(personal_element, 'given-name').text
         personal.birth_date = self.get_xpath_element(personal_element, 'birth-date').text
         personal.gender = Gender[self.get_xpath_element(personal_element, 'gender').text.upper()]
-        personal.email = self.get_xpath_element(personal_element, 'email').text
+        personal.email = self.get_xpath_element(personal_element, 'email').text or ''
 
         elements = self.get_xpath_element(tree, 'body-measurements')
-        for element in elements:
+        for element in elements.iterchildren('*'):   # skip comments
              if element.tag == XmlMeasurement.__tag__:
                  xml_measurement = XmlMeasurement(element)
                  measurements.add(**xml_measurement.to_dict())
-- 
2.43.0


From d84d333b3ad0b6ecba83b868292e11a2c1d1646b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:40 +0000
Subject: [PATCH 086/156] fix: personal data of older measurement files

---
 Patro/FileFormat/Valentina/Measurement.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Patro/FileFormat/Valentina/Measurement.py b/Patro/FileFormat/Valentina/Measurement.py
index f86f195..b917998 100644
--- a/Patro/FileFormat/Valentina/Measurement.py
+++ b/Patro/FileFormat/Valentina/Measurement.py
@@ -97,9 +97,10 @@ class VitFileInternal(XmlFileMixin):
         personal = measurements.personal
         personal_element = self.get_xpath_element(tree, 'personal')
         # replace last_name first_name
-        personal.customer = self.get_xpath_element(personal_element, 'customer').text
-        # personal.last_name = self.get_xpath_element(personal_element, 'family-name').text
-        # personal.first_name = self.get_xpath_element(personal_element, 'given-name').text
+        personal.customer = self.get_text_element(personal_element, 'customer') or ''
+        # older format
+        personal.last_name = self.get_text_element(personal_element, 'family-name') or ''
+        personal.first_name = self.get_text_element(personal_element, 'given-name') or ''
         personal.birth_date = self.get_xpath_element(personal_element, 'birth-date').text
         personal.gender = Gender[self.get_xpath_element(personal_element, 'gender').text.upper()]
         personal.email = self.get_xpath_element(personal_element, 'email').text or ''
-- 
2.43.0


From 4f2aa3fc5d091c2871fc80e17275da051f42217e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:37 +0000
Subject: [PATCH 087/156] fix: identifiers of the expressions

---
 Patro/Pattern/Calculator.py | 88 +++++++++++++------------------------
 1 file changed, 31 insertions(+), 57 deletions(-)

diff --git a/Patro/Pattern/Calculator.py b/Patro/Pattern/Calculator.py
index c451853..8d6f917 100644
--- a/Patro/Pattern/Calculator.py
+++ b/Patro/Pattern/Calculator.py
@@ -22,6 +22,7 @@
 
 import ast
 import logging
+import re
 
 import astunparse
 # import astor
@@ -198,6 +199,19 @@ class Expression:
 
     _logger = _module_logger.getChild('Expression')
 
+    # an identifier is not the exponent of a number
+    __IDENTIFIER_RE__ = re.compile(r'(?<![\w.@])@?[^\W\d]\w*')
+
+    __POINT_FUNCTIONS__ = (
+        'Angle1Spl',
+        'Angle2Spl',
+        'AngleLine',
+        'C1LengthSpl',
+        'C2LengthSpl',
+        'Line',
+        'Spl',
+    )
+
     ##############################################
 
     def __init__(self, expression, calculator=None):
@@ -238,22 +252,24 @@ class Expression:
 
     ##############################################
 
-    def _find_identifier(self, prefix, start=0):
+    def _pythonise_identifier(self, match):
 
-        """Find an identifier in a Python expression"""
+        """Translate an identifier of the expression to Python"""
 
-        expression = self._expression
-        start = expression.find(prefix, start)
-        if start is -1:
-            return None, None
-        index = start + 1
-        while index < len(expression):
-            c = expression[index]
-            if 'a' <= c <= 'z' or 'A' <= c <= 'Z' or '0' <= c <= '9' or c in '_':
-                index += 1
-            else:
-                break
-        return expression[start:index], index + 1
+        name = match.group()
+
+        # Python don't accept identifier starting with @
+        # Replace @foo by __custom__foo
+        # https://docs.python.org/3.5/reference/lexical_analysis.html#identifiers
+        if name.startswith('@'):
+            return self._calculator.measurements[name].name
+
+        # Replace special function like Line_A1_A2 to __calculator__._function_Line('A1', 'A2')
+        function, *args = name.split('_')
+        if (args and function in self.__POINT_FUNCTIONS__) or name == 'CurrentLength':
+            return '__calculator__._function_' + function + '(' + ', '.join(["'{}'".format(x) for x in args]) + ')'
+
+        return name
 
     ##############################################
 
@@ -262,49 +278,7 @@ class Expression:
         expression = self._expression
         self._logger.debug("expression '{}'".format(expression))
 
-        # Python don't accept identifier starting with @
-        # Replace @foo by __custom__foo
-        # https://docs.python.org/3.5/reference/lexical_analysis.html#identifiers
-        if '@' in expression:
-            custom_measurements = []
-            start = 0
-            while True:
-                name, start = self._find_identifier('@', start)
-                if name is None:
-                    break
-                else:
-                    custom_measurements.append(name)
-            for measurement in custom_measurements:
-                py_name = self._calculator.measurements[measurement].name
-                expression = self.expression.replace(measurement, py_name)
-
-        # Replace special function like Line_A1_A2 to __calculator__._function_Line('A1', 'A2')
-        functions = []
-        for function in (
-                'Angle1Spl_',
-                'Angle2Spl_',
-                'AngleLine_',
-                'CurrentLength',
-                'C1LengthSpl_',
-                'C2LengthSpl_',
-                'Line_',
-                'Spl_',
-        ):
-            start = 0
-            while True:
-                name, start = self._find_identifier(function, start)
-                if name is None:
-                    break
-                else:
-                    functions.append(name)
-        # self._logger.debug('Functions ' + str(functions))
-        for function_call in functions:
-            parts = function_call.split('_')
-            function = parts[0]
-            args = parts[1:]
-            pythonised_function = '__calculator__._function_' + function + '(' + ', '.join(["'{}'".format(x) for x in args]) + ')'
-            # self._logger.debug('Function {} {} -> {}'.format(function, args, pythonised_function))
-            expression = expression.replace(function_call, pythonised_function)
+        expression = self.__IDENTIFIER_RE__.sub(self._pythonise_identifier, expression)
 
         self._logger.debug("Pythonised expression '{}'".format(expression))
 
-- 
2.43.0


From f444b1f190b7d768c8ed2bd608dff904aaff3a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:39 +0000
Subject: [PATCH 088/156] fix: dependencies of the expressions

---
 Patro/Pattern/Calculator.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/Patro/Pattern/Calculator.py b/Patro/Pattern/Calculator.py
index 8d6f917..9c05de9 100644
--- a/Patro/Pattern/Calculator.py
+++ b/Patro/Pattern/Calculator.py
@@ -43,7 +43,7 @@ class NodeVisitor(ast.NodeVisitor):
 
     def __init__(self, calculator):
 
-        super(NodeVisitor).__init__()
+        super().__init__()
         self._calculator = calculator
         self._dependencies = []
 
@@ -67,12 +67,11 @@ class NodeVisitor(ast.NodeVisitor):
         #   https://greentreesnakes.readthedocs.io/en/latest/index.html
 
         function = node.func
-        if isinstance(function, ast.Attribute) and function.value.id == '__calculator__':
-            dag = self._calculator.dag
-            if function.attr == '_function_Line': # catched _function_Line.__calculator__
-                for arg in node.args:
-                    dependence = self._calculator._name_to_point(arg.s)
-                    self._dependencies.append(dependence)
+        if (isinstance(function, ast.Attribute) and isinstance(function.value, ast.Name)
+                and function.value.id == '__calculator__'): # catched __calculator__._function_Line
+            for arg in node.args:
+                dependence = self._calculator._name_to_point(arg.value)
+                self._dependencies.append(dependence)
 
         self.generic_visit(node)
 
-- 
2.43.0


From 367af40f82064acbf9538a8f2d8f7a005af534fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:49 +0000
Subject: [PATCH 089/156] fix: identifiers of the operations

---
 Patro/Pattern/Pattern.py         | 22 ++++++++++++++++++++++
 Patro/Pattern/SketchOperation.py | 12 ++++++++++--
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/Patro/Pattern/Pattern.py b/Patro/Pattern/Pattern.py
index fb7763d..6c60863 100644
--- a/Patro/Pattern/Pattern.py
+++ b/Patro/Pattern/Pattern.py
@@ -48,6 +48,7 @@ class Pattern:
         self._unit = unit
 
         self._scopes = [] # not a dict so as to don't manage renaming
+        self._operation_ids = set()
 
     ##############################################
 
@@ -61,6 +62,19 @@ class Pattern:
 
     ##############################################
 
+    def register_operation_id(self, id):
+        """Register the id of an operation, it must be unique over the pattern"""
+        if id in self._operation_ids:
+            raise ValueError('id {} is already attributed'.format(id))
+        self._operation_ids.add(id)
+
+    def new_operation_id(self):
+        id = max(self._operation_ids, default=0) + 1
+        self.register_operation_id(id)
+        return id
+
+    ##############################################
+
     @property
     def scopes(self):
         return iter(self._scopes)
@@ -124,6 +138,14 @@ class PatternScope(ObjectNameMixin):
     def unit(self):
         return self._pattern._unit
 
+    def register_operation_id(self, id):
+        self._pattern.register_operation_id(id)
+
+    def new_operation_id(self):
+        return self._pattern.new_operation_id()
+
+    ##############################################
+
     @property
     def sketch(self):
         return self._sketch
diff --git a/Patro/Pattern/SketchOperation.py b/Patro/Pattern/SketchOperation.py
index a13e051..8a27a5d 100644
--- a/Patro/Pattern/SketchOperation.py
+++ b/Patro/Pattern/SketchOperation.py
@@ -29,7 +29,7 @@ A sketch operation must be build from the corresponding method of the Pattern cl
 
 import logging
 
-from Patro.Common.Object import ObjectGlobalIdMixin
+from Patro.Common.Object import ObjectCkeckedIdMixin
 from Patro.GeometryEngine.Bezier import CubicBezier2D
 from Patro.GeometryEngine.Conic import Circle2D
 from Patro.GeometryEngine.Line import Line2D
@@ -65,7 +65,7 @@ def quote(x):
 ####################################################################################################
 
 # metaclass = SketchOperationMetaClass
-class SketchOperation(ObjectGlobalIdMixin):
+class SketchOperation(ObjectCkeckedIdMixin):
 
     """Baseclass for sketch operation"""
 
@@ -90,6 +90,14 @@ class SketchOperation(ObjectGlobalIdMixin):
 
     ##############################################
 
+    def new_id(self):
+        return self._sketch.pattern.new_operation_id()
+
+    def check_id(self, id):
+        self._sketch.pattern.register_operation_id(id)
+
+    ##############################################
+
     @property
     def sketch(self):
         return self._sketch
-- 
2.43.0


From 1da49addf8890f80fb3bb46ca13a6a33415277fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:51 +0000
Subject: [PATCH 090/156] fix: debug output of PointOfContact

---
 Patro/Pattern/SketchOperation.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/Patro/Pattern/SketchOperation.py b/Patro/Pattern/SketchOperation.py
index 8a27a5d..614ae48 100644
--- a/Patro/Pattern/SketchOperation.py
+++ b/Patro/Pattern/SketchOperation.py
@@ -642,8 +642,6 @@ class PointOfContact(Point, FirstSecondPointMixin, CenterRadiusMixin):
     ##############################################
 
     def eval_internal(self):
-        print('>'*50)
-        print(self)
         segment = Segment2D(self._first_point.vector, self._second_point.vector)
         circle = Circle2D(self._center.vector, self._radius.value)
         points = circle.intersect_segment(segment)
@@ -659,7 +657,6 @@ class PointOfContact(Point, FirstSecondPointMixin, CenterRadiusMixin):
             point0 = points[0]
             segment.contain_point(points[0])
             segment.contain_point(points[1])
-            print('>'*50)
             if segment.contain_point(point0):
                 self._vector = point0
             else:
-- 
2.43.0


From cd747975c6fa5472d2b388659ed9cac93a59d92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:04 +0000
Subject: [PATCH 091/156] fix: Python code of the operations

---
 Patro/Pattern/SketchOperation.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/Patro/Pattern/SketchOperation.py b/Patro/Pattern/SketchOperation.py
index 614ae48..abe5303 100644
--- a/Patro/Pattern/SketchOperation.py
+++ b/Patro/Pattern/SketchOperation.py
@@ -35,7 +35,7 @@ from Patro.GeometryEngine.Conic import Circle2D
 from Patro.GeometryEngine.Line import Line2D
 from Patro.GeometryEngine.Segment import Segment2D
 from Patro.GeometryEngine.Vector import Vector2D
-from Patro.GraphicStyle import StrokeStyle, Colors
+from Patro.GraphicStyle import Color, Colors, StrokeStyle
 from .Calculator import Expression
 
 # Rename id buitin
@@ -48,7 +48,7 @@ _module_logger = logging.getLogger(__name__)
 ####################################################################################################
 
 def quote(x):
-    return "'{}'".format(x)
+    return repr(str(x))
 
 ####################################################################################################
 
@@ -178,11 +178,15 @@ class SketchOperation(ObjectCkeckedIdMixin):
                     value_str = quote(value)
             elif isinstance(value, Vector2D):
                 value_str = 'Vector2D({0.x}, {0.y})'.format(value)
+            elif isinstance(value, StrokeStyle):
+                value_str = str(value)
+            elif isinstance(value, Color):
+                value_str = 'Color({})'.format(quote(value))
             else:
-                value_str = ''
+                raise NotImplementedError('Python code for {!r}'.format(value))
             values.append(value_str)
-        kwargs = ', '.join(['sketch'] + [key + '=' + value for key, value in zip(args, values)])
-        return self.__class__.__name__ + '(' + kwargs + ')'
+        kwargs = ', '.join([key + '=' + value for key, value in zip(args, values)])
+        return 'sketch.' + self.__class__.__name__ + '(' + kwargs + ')'
 
     ##############################################
 
-- 
2.43.0


From 8b85f37567de3970158a2ea5583f5be7c5cbeb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:10 +0000
Subject: [PATCH 092/156] fix: drawing of operations without line style

---
 Patro/Pattern/Sketch.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Patro/Pattern/Sketch.py b/Patro/Pattern/Sketch.py
index c0a6d3d..854ee43 100644
--- a/Patro/Pattern/Sketch.py
+++ b/Patro/Pattern/Sketch.py
@@ -156,11 +156,11 @@ class Sketch:
 
         """Generate a :class:`GraphicPathStyle` instance for a operation"""
 
-        return GraphicPathStyle(
-            stroke_style=operation.line_style,
-            stroke_color=operation.line_color,
-            **kwargs
-        )
+        if operation.line_style is not None:
+            kwargs['stroke_style'] = operation.line_style
+        if operation.line_color is not None:
+            kwargs['stroke_color'] = operation.line_color
+        return GraphicPathStyle(**kwargs)
 
     ##############################################
 
-- 
2.43.0


From 36c256260e1881cf886d629200ef0eeeb2f35777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:35 +0000
Subject: [PATCH 093/156] fix: line style and colour of the Valentina
 calculations

---
 Patro/FileFormat/Valentina/VitFormat.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/Patro/FileFormat/Valentina/VitFormat.py b/Patro/FileFormat/Valentina/VitFormat.py
index 111c852..11ba8cc 100644
--- a/Patro/FileFormat/Valentina/VitFormat.py
+++ b/Patro/FileFormat/Valentina/VitFormat.py
@@ -114,21 +114,24 @@ class StrokeStyleAttribute(Attribute):
         'none': StrokeStyle.NoPen,
     }
 
-    # Fixme: from_xml to_xml ???
     __TO_STROKE_STYLE__ = {value:name for name, value in __STROKE_STYLE__.items()}
-    __STROKE_STYLE__.update(__TO_STROKE_STYLE__)
 
     ##############################################
 
     @classmethod
     def from_xml(cls, value):
-        return cls.__STROKE_STYLE__[value]
+        if value is None or isinstance(value, StrokeStyle): # Python value
+            return value
+        elif value == 'solid':
+            return StrokeStyle.SolidLine
+        else:
+            return cls.__STROKE_STYLE__[value]
 
     ##############################################
 
-    # @classmethod
-    # def to_xml(cls, value):
-    #     return cls.__TO_STROKE_STYLE__[value]
+    @classmethod
+    def to_xml(cls, value):
+        return cls.__TO_STROKE_STYLE__[value]
 
 ####################################################################################################
 
@@ -642,7 +645,8 @@ class SimpleInteractiveSpline(SplineMixin, XmlObjectAdaptator):
         StringAttribute('length2'),
         StringAttribute('angle1'),
         StringAttribute('angle2'),
-        StringAttribute('line_color', 'color'),
+        ColorAttribute('line_color', 'color'),
+        StrokeStyleAttribute('line_style', 'penStyle', default=StrokeStyle.SolidLine),
     )
     __operation__ = SketchOperation.SimpleInteractiveSpline
 
-- 
2.43.0


From 04f4a65b24f8ac08de0a062de3938daf4db91cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:36 +0000
Subject: [PATCH 094/156] fix: unsupported calculations of a pattern file

---
 Patro/FileFormat/Valentina/Pattern.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Patro/FileFormat/Valentina/Pattern.py b/Patro/FileFormat/Valentina/Pattern.py
index 1cd2fef..370a0c0 100644
--- a/Patro/FileFormat/Valentina/Pattern.py
+++ b/Patro/FileFormat/Valentina/Pattern.py
@@ -144,9 +144,9 @@ class CalculationDispatcher(Dispatcher):
 
     def from_xml(self, element):
 
-        tag_cls = self.__TAGS__[element.tag]
+        tag_cls = self.__TAGS__.get(element.tag)
         if hasattr(tag_cls, '__TYPES__'):
-            cls = tag_cls.__TYPES__[element.attrib['type']]
+            cls = tag_cls.__TYPES__.get(element.attrib['type'])
         else:
             cls = tag_cls
         if cls is not None:
@@ -306,7 +306,7 @@ class ValFileReaderInternal(XmlFileMixin):
         scope = self.pattern.add_scope(piece_name)
 
         sketch = scope.sketch
-        for element in self.get_xpath_element(piece, 'calculation'):
+        for element in self.get_xpath_element(piece, 'calculation').iterchildren('*'):
             try:
                 xml_calculation = _calculation_dispatcher.from_xml(element)
                 operation = xml_calculation.to_operation(sketch)
-- 
2.43.0


From 7cc6746f431274ff0c8cf02ca43b47a85523ce95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:38 +0000
Subject: [PATCH 095/156] fix: optional label position of the points

---
 Patro/FileFormat/Valentina/VitFormat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/FileFormat/Valentina/VitFormat.py b/Patro/FileFormat/Valentina/VitFormat.py
index 11ba8cc..965b85d 100644
--- a/Patro/FileFormat/Valentina/VitFormat.py
+++ b/Patro/FileFormat/Valentina/VitFormat.py
@@ -277,8 +277,8 @@ VALENTINA_ATTRIBUTES = (
 class MxMyMixin:
 
     __attributes__ = (
-        FloatAttribute('mx'),
-        FloatAttribute('my'),
+        FloatAttribute('mx', default=0),
+        FloatAttribute('my', default=0),
     )
 
 ####################################################################################################
-- 
2.43.0


From babb34199490f1df0a565b6b29a111c3de039cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:05 +0000
Subject: [PATCH 096/156] fix: grammar of the SVG path data

---
 Patro/FileFormat/Svg/SvgFormat.py | 61 ++++++++++++++++++++++---------
 1 file changed, 44 insertions(+), 17 deletions(-)

diff --git a/Patro/FileFormat/Svg/SvgFormat.py b/Patro/FileFormat/Svg/SvgFormat.py
index c8882bf..49b6bee 100644
--- a/Patro/FileFormat/Svg/SvgFormat.py
+++ b/Patro/FileFormat/Svg/SvgFormat.py
@@ -67,6 +67,7 @@ __all__ = [
 ####################################################################################################
 
 import logging
+import re
 
 from Patro.Common.Xml.Objectivity import (
     # BoolAttribute,
@@ -944,36 +945,58 @@ class PathDataAttribute(StringAttribute):
         'c':6,
         's':4,
         'q':4,
-        't':3,
+        't':2,
         'a':7,
         'z':0,
         }
 
     COMMANDS = ''.join(NUMBER_OF_ARGS.keys())
 
+    # Separators are optional between tokens
+    __SEPARATOR_RE__ = re.compile(r'[\s,]*')
+    __COMMAND_RE__ = re.compile(r'[a-zA-Z]')
+    __NUMBER_RE__ = re.compile(r'[+-]?(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?')
+    __FLAG_RE__ = re.compile(r'[01]')
+
     _logger = _module_logger.getChild('PathDataAttribute')
 
     ##############################################
 
+    @classmethod
+    def _tokenize(cls, svg_path):
+
+        """Split path data into command letters and numbers"""
+
+        parts = []
+        command = None
+        number_of_args = 0
+        position = cls.__SEPARATOR_RE__.match(svg_path).end()
+        while position < len(svg_path):
+            match = cls.__COMMAND_RE__.match(svg_path, position)
+            if match:
+                command = match.group()
+                number_of_args = 0
+                parts.append(command)
+            else:
+                # an arc flag is a single digit
+                is_flag = command in ('a', 'A') and number_of_args % 7 in (3, 4)
+                match = (cls.__FLAG_RE__ if is_flag else cls.__NUMBER_RE__).match(svg_path, position)
+                if match is None or command is None:
+                    raise ValueError('Invalid path data at {} in\n{}'.format(position, svg_path))
+                number_of_args += 1
+                parts.append(float(match.group()))
+            position = cls.__SEPARATOR_RE__.match(svg_path, match.end()).end()
+
+        return parts
+
+    ##############################################
+
     @classmethod
     def from_xml(cls, svg_path):
 
         # cls._logger.info('SVG path:\n'+ svg_path)
 
-        # Replace comma separator by space
-        cleaned_svg_path = svg_path.replace(',', ' ')
-        # Add space after letter
-        data_path = ''
-        for c in cleaned_svg_path:
-            data_path += c
-            if c.isalpha:
-                data_path += ' '
-        # Convert float values
-        parts = []
-        for part in split_space_list(cleaned_svg_path):
-            if not(len(part) == 1 and part.isalpha()):
-                part = float(part)
-            parts.append(part)
+        parts = cls._tokenize(svg_path)
 
         commands = []
         command = None # last command
@@ -991,6 +1014,10 @@ class PathDataAttribute(StringAttribute):
             # else repeated instruction
             next_i = i + number_of_args
             args = parts[i:next_i]
+            if len(args) != number_of_args or any(isinstance(arg, str) for arg in args):
+                raise ValueError("Missing arguments for path instruction: '{}' in\n{}".format(command, svg_path))
+            if not number_of_args and next_i < len(parts) and not isinstance(parts[next_i], str):
+                raise ValueError("Path instruction without argument: '{}' in\n{}".format(command, svg_path))
             commands.append((command, args))
             i = next_i
             # for implicit line to
@@ -1057,11 +1084,11 @@ class PathDataAttribute(StringAttribute):
                 elif command_lower == 'c':
                     path.cubic_to(*cls.as_vector(args), absolute=absolute)
                 elif command_lower == 's':
-                    path.stringed_quadratic_to(*cls.as_vector(args), absolute=absolute)
+                    path.stringed_cubic_to(*cls.as_vector(args), absolute=absolute)
                 elif command_lower == 'q':
                     path.quadratic_to(*cls.as_vector(args), absolute=absolute)
                 elif command_lower == 't':
-                    path.stringed_cubic_to(*cls.as_vector(args), absolute=absolute)
+                    path.stringed_quadratic_to(*cls.as_vector(args), absolute=absolute)
                 elif command_lower == 'a':
                     radius_x, radius_y, angle, large_arc, sweep, x, y = args
                     point = Vector2D(x, y)
-- 
2.43.0


From 954c5558fe10c4ce17f27f6f1e0263fea0b572a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:22 +0000
Subject: [PATCH 097/156] fix: SVG transform lists

---
 Patro/FileFormat/Svg/SvgFormat.py | 35 ++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/Patro/FileFormat/Svg/SvgFormat.py b/Patro/FileFormat/Svg/SvgFormat.py
index 49b6bee..6d4a997 100644
--- a/Patro/FileFormat/Svg/SvgFormat.py
+++ b/Patro/FileFormat/Svg/SvgFormat.py
@@ -67,6 +67,7 @@ __all__ = [
 ####################################################################################################
 
 import logging
+import math
 import re
 
 from Patro.Common.Xml.Objectivity import (
@@ -437,6 +438,10 @@ class TransformAttribute(StringAttribute):
 
     ##############################################
 
+    __TRANSFORM_RE__ = re.compile(r'[\s,]*(\w+)\s*\(([^()]*)\)')
+
+    ##############################################
+
     @classmethod
     def from_xml(cls, value):
 
@@ -445,15 +450,16 @@ class TransformAttribute(StringAttribute):
             return value
         else:
             transforms = []
-            for transform in split_space_list(value):
-                pos0 = value.find('(')
-                pos1 = value.find(')')
-                if pos0 == -1 or pos1 != len(value) -1:
-                    raise ValueError
-                transform_type = value[:pos0]
-                values = [float(x) for x in value[pos0+1:-1].split(',')]
+            value = value.rstrip()
+            position = 0
+            while position < len(value):
+                match = cls.__TRANSFORM_RE__.match(value, position)
+                if match is None:
+                    raise ValueError('Invalid transform {}'.format(value))
+                transform_type, values = match.groups()
+                values = [float(x) for x in values.replace(',', ' ').split()]
                 transforms.append((transform_type, values))
-                # Fixme:
+                position = match.end()
 
             # return transforms
             return cls.to_python(transforms, concat=True)
@@ -462,9 +468,9 @@ class TransformAttribute(StringAttribute):
 
     @classmethod
     def to_xml(cls, value):
-        # Fixme: wrong if value is AffineTransformation2D !!!
-        # Fixme: to func
-        return 'matrix({})'.format(' '.join([str(x) for x in value.to_list()]))
+        # matrix(a b c d e f)
+        array = value.to_list()
+        return 'matrix({})'.format(' '.join([str(array[i]) for i in (0, 3, 1, 4, 2, 5)]))
 
     ##############################################
 
@@ -492,14 +498,15 @@ class TransformAttribute(StringAttribute):
                 transform = AffineTransformation2D.RotationAt(vector, angle)
             elif name == 'skewX':
                 angle = values[0]
-                raise NotImplementedError
+                transform = AffineTransformation2D([1, math.tan(math.radians(angle)), 0, 0, 1, 0, 0, 0, 1])
             elif name == 'skewY':
                 angle = values[0]
-                raise NotImplementedError
+                transform = AffineTransformation2D([1, 0, 0, math.tan(math.radians(angle)), 1, 0, 0, 0, 1])
             else:
                 raise NotImplementedError
             if concat:
-                global_transform = transform * global_transform
+                # the last transform is applied first
+                global_transform = global_transform * transform
             else:
                 py_transforms.append(transform)
 
-- 
2.43.0


From 724cf25bca8b576d3337e3389688f6548a9414e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:44 +0000
Subject: [PATCH 098/156] fix: SVG lengths

---
 Patro/FileFormat/Svg/SvgFormat.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/Patro/FileFormat/Svg/SvgFormat.py b/Patro/FileFormat/Svg/SvgFormat.py
index 6d4a997..782d38a 100644
--- a/Patro/FileFormat/Svg/SvgFormat.py
+++ b/Patro/FileFormat/Svg/SvgFormat.py
@@ -248,6 +248,11 @@ class PercentValue:
     def __float__(self):
         return self._value
 
+    ##############################################
+
+    def __str__(self):
+        return '{}%'.format(self._value * 100)
+
 ####################################################################################################
 
 class UnitValue:
@@ -265,9 +270,15 @@ class UnitValue:
 
     ##############################################
 
-    def __str__(self):
+    @property
+    def unit(self):
         return self._unit
 
+    ##############################################
+
+    def __str__(self):
+        return '{}{}'.format(self._value, self._unit)
+
 ####################################################################################################
 
 class PercentLengthAttribute(InheritAttribute):
@@ -277,25 +288,22 @@ class PercentLengthAttribute(InheritAttribute):
     @classmethod
     def _from_xml(cls, value):
         # length ::= number ("em" | "ex" | "px" | "in" | "cm" | "mm" | "pt" | "pc" | "%")?
+        if isinstance(value, (PercentValue, UnitValue)):
+            # Python value
+            return value
+        value = str(value).strip()
         if value.endswith('%'):
             return PercentValue(value[:-1])
         elif value[-1].isalpha():
-            return UnitValue(value[:-2], value[-2])
+            return UnitValue(value[:-2], value[-2:])
         else:
             return float(value)
 
     ##############################################
 
     @classmethod
-    def _to_xml(cls, value):
-
-        # Fixme: ok ???
-        if isinstance(value, PercentValue):
-            return '{}%'.format(float(value))
-        elif isinstance(value, UnitValue):
-            return '{}{}'.format(float(value), value.unit)
-        else:
-            return str(value)
+    def to_xml(cls, value):
+        return str(value)
 
 ####################################################################################################
 
-- 
2.43.0


From ff48eae1e78a046020df5295c951727166b3b1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:14 +0000
Subject: [PATCH 099/156] fix: state of the SVG elements

---
 Patro/FileFormat/Svg/SvgFile.py   | 41 ++++++++++++++++++-------------
 Patro/FileFormat/Svg/SvgFormat.py | 29 +++++++++++++++++++---
 2 files changed, 50 insertions(+), 20 deletions(-)

diff --git a/Patro/FileFormat/Svg/SvgFile.py b/Patro/FileFormat/Svg/SvgFile.py
index bea1f95..f058316 100644
--- a/Patro/FileFormat/Svg/SvgFile.py
+++ b/Patro/FileFormat/Svg/SvgFile.py
@@ -55,6 +55,13 @@ class RenderState:
     STATES = [name for name in SvgFormat.PresentationAttributes.__dict__.keys()
               if not name.startswith('_')]
 
+    # Attribute of the items when it differs from the state
+    ITEM_ATTRIBUTES = {
+        'stroke_linecap': 'stroke_line_cap',
+        'stroke_linejoin': 'stroke_line_join',
+        'stroke_miterlimit': 'stroke_miter_limit',
+    }
+
     ##############################################
 
     @classmethod
@@ -66,14 +73,11 @@ class RenderState:
             if value == 'none':
                 return None
             else:
-                try:
-                    float_value = float(value)
-                    if '.' in value:
-                        return float_value
-                    else:
-                        return int(float_value)
-                except ValueError:
-                    pass
+                for number_type in (int, float):
+                    try:
+                        return number_type(value)
+                    except ValueError:
+                        pass
 
         return value
 
@@ -113,13 +117,13 @@ class RenderState:
     def merge(self, item):
 
         for state in self.STATES:
-            if hasattr(item, state):
-                value = getattr(item, state)
+            value = getattr(item, self.ITEM_ATTRIBUTES.get(state, state), None)
+            # else the state is inherited
+            if value is not None and value != 'inherit':
                 if state == 'transform':
-                    if value is not None:
-                        # Transform matrix is composed from top to item
-                        # thus left to right
-                        self.transform = self.transform * value
+                    # Transform matrix is composed from top to item
+                    # thus left to right
+                    self.transform = self.transform * value
                 elif state == 'style':
                     pass
                 else:
@@ -129,11 +133,13 @@ class RenderState:
         style = getattr(item, 'style', None)
         if style is not None:
             for pair in style.split(';'):
-                state, value = [x.strip() for x in pair.split(':')]
+                if not pair.strip():
+                    continue
+                state, value = [x.strip() for x in pair.split(':', 1)]
                 state = state.replace('-', '_')
                 if state == 'transform':
                     self.transform = self.transform * value
-                else:
+                elif value != 'inherit':
                     setattr(self, state, self.to_python(value))
 
         return self
@@ -263,7 +269,7 @@ class SvgDispatcher:
 
     def on_root(self, root):
 
-        for element in root:
+        for element in root.iterchildren('*'): # skip comments
             tag = self.element_tag(element)
             if tag == 'g':
                 self.on_group(element)
@@ -282,6 +288,7 @@ class SvgDispatcher:
         # self._logger.info('State:\n' + str(self.state))
 
         self.on_root(element)
+        self._state_stack.pop()
 
     ##############################################
 
diff --git a/Patro/FileFormat/Svg/SvgFormat.py b/Patro/FileFormat/Svg/SvgFormat.py
index 782d38a..32fb503 100644
--- a/Patro/FileFormat/Svg/SvgFormat.py
+++ b/Patro/FileFormat/Svg/SvgFormat.py
@@ -316,6 +316,29 @@ class ColorMixin:
 
 ####################################################################################################
 
+class DashArrayAttribute(FloatListAttribute):
+
+    ##############################################
+
+    @classmethod
+    def from_xml(cls, value):
+        # 'none' differs from an unset attribute
+        if value in ('none', 'inherit'):
+            return value
+        else:
+            return super().from_xml(value)
+
+    ##############################################
+
+    @classmethod
+    def to_xml(cls, value):
+        if isinstance(value, str):
+            return value
+        else:
+            return super().to_xml(value)
+
+####################################################################################################
+
 class StrokeMixin:
 
     __attributes__ = (
@@ -323,7 +346,7 @@ class StrokeMixin:
         StringAttribute('stroke_line_join', 'stroke-linejoin'),
         NumberAttribute('stroke_miter_limit', 'stroke-miterlimit'),
         PercentLengthAttribute('stroke_width', 'stroke-width'),
-        FloatListAttribute('stroke_dasharray', 'stroke-dasharray') # stroke-dasharray="20,10,5,5,5,10"
+        DashArrayAttribute('stroke_dasharray', 'stroke-dasharray') # stroke-dasharray="20,10,5,5,5,10"
     )
 
     LINE_CAP_STYLE = (
@@ -754,7 +777,7 @@ class Desc(XmlObjectAdaptator):
 
 ####################################################################################################
 
-class Ellipse(CenterMixin, PathMixin, StyleMixin, XmlObjectAdaptator):
+class Ellipse(CenterMixin, PathMixin, SvgElementMixin, XmlObjectAdaptator):
 
     """Defines an ellipse"""
 
@@ -1163,7 +1186,7 @@ class Polygon(Polyline, XmlObjectAdaptator):
 
     """Defines any shape that consists of only straight lines"""
 
-    __tag__ = 'polyline'
+    __tag__ = 'polygon'
 
     # fill-rule="part of the FillStroke presentation attributes"
 
-- 
2.43.0


From 0c81621219dd3e066f14c0fd9d695f8daff928bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:29 +0000
Subject: [PATCH 100/156] fix: writing of SVG paths, size of the view box and
 corners of rectangles

---
 Patro/FileFormat/Svg/SvgFile.py   |  7 +++-
 Patro/FileFormat/Svg/SvgFormat.py | 62 ++++++++++++++++++++++++++++---
 Patro/GeometryEngine/Path.py      | 22 +++++++++++
 3 files changed, 84 insertions(+), 7 deletions(-)

diff --git a/Patro/FileFormat/Svg/SvgFile.py b/Patro/FileFormat/Svg/SvgFile.py
index f058316..5746c06 100644
--- a/Patro/FileFormat/Svg/SvgFile.py
+++ b/Patro/FileFormat/Svg/SvgFile.py
@@ -364,8 +364,11 @@ class SvgFileInternal(XmlFileMixin, SvgFileMixin):
     ##############################################
 
     def on_svg_root(self, svg_root):
-        x_inf, y_inf, x_sup, y_sup = svg_root.view_box
-        self._view_box = Interval2D((x_inf, x_sup), (y_inf, y_sup))
+        if svg_root.view_box is not None:
+            x_inf, y_inf, width, height = svg_root.view_box
+            self._view_box = Interval2D((x_inf, x_inf + width), (y_inf, y_inf + height))
+        else:
+            self._view_box = None
         self._width = svg_root.width
         self._height = svg_root.height
 
diff --git a/Patro/FileFormat/Svg/SvgFormat.py b/Patro/FileFormat/Svg/SvgFormat.py
index 32fb503..ff06e3b 100644
--- a/Patro/FileFormat/Svg/SvgFormat.py
+++ b/Patro/FileFormat/Svg/SvgFormat.py
@@ -80,7 +80,7 @@ from Patro.Common.Xml.Objectivity import (
 )
 
 # Fixme: should we mix SVG format and ... ???
-from Patro.GeometryEngine.Path import Path2D
+from Patro.GeometryEngine.Path import ArcSegment, LinearSegment, Path2D
 from Patro.GeometryEngine.Transformation import AffineTransformation2D
 from Patro.GeometryEngine.Vector import Vector2D
 
@@ -1034,6 +1034,10 @@ class PathDataAttribute(StringAttribute):
 
         # cls._logger.info('SVG path:\n'+ svg_path)
 
+        if isinstance(svg_path, Path2D):
+            # Python value
+            return svg_path
+
         parts = cls._tokenize(svg_path)
 
         commands = []
@@ -1073,6 +1077,9 @@ class PathDataAttribute(StringAttribute):
     @classmethod
     def to_xml(cls, value):
 
+        if isinstance(value, Path2D):
+            value = cls.to_commands(value)
+
         path_data = ''
         for command in value:
             if path_data:
@@ -1082,6 +1089,48 @@ class PathDataAttribute(StringAttribute):
 
     ##############################################
 
+    @classmethod
+    def to_commands(cls, path):
+
+        """Convert a path to a list of absolute commands"""
+
+        def arc(part, point):
+            # circular arc at the rounded corner before a part
+            sweep = int(part.prev_part.direction.cross(part.direction) > 0)
+            return ('A', (part.radius, part.radius, 0, 0, sweep, point.x, point.y))
+
+        def command(letter, *points):
+            return (letter, [x for point in points for x in (point.x, point.y)])
+
+        parts = list(path)
+        start_point = parts[0].points[0] if parts else path.p0
+        commands = [command('M', start_point)]
+        round_closure = path.is_closed and isinstance(parts[0], LinearSegment) and parts[0].radius is not None
+        # Z draws the closing part, unless the closure is rounded
+        closing_part = parts[-1] if path.is_closed and not round_closure else None
+        for i, part in enumerate(parts):
+            points = part.points
+            if isinstance(part, LinearSegment):
+                if i > 0 and part.radius is not None:
+                    commands.append(arc(part, points[0]))
+                if part is not closing_part:
+                    commands.append(command('L', points[1]))
+            elif isinstance(part, ArcSegment):
+                commands.append(('A', (part.radius_x, part.radius_y, part.angle,
+                                       int(part.large_arc), int(part.sweep),
+                                       points[1].x, points[1].y)))
+            else:
+                letter = 'Q' if len(points) == 3 else 'C'
+                commands.append(command(letter, *points[1:]))
+        if path.is_closed:
+            if round_closure:
+                commands.append(arc(parts[0], start_point))
+            commands.append(('Z', ()))
+
+        return commands
+
+    ##############################################
+
     @classmethod
     def as_vector(cls, args):
 
@@ -1231,12 +1280,15 @@ class Rect(PositionMixin, RadiusMixin, SizeMixin, PathMixin, SvgElementMixin, Xm
         # Fixme: which one ???
         radius_x = self.rx
         radius_y = self.ry
-        if radius_y == 0:
+        # a radius defaults to the other one
+        radius = radius_x if radius_y is None else radius_y
+        if radius is not None:
+            radius = min(radius, width/2, height/2)
+        if not radius:
             radius = None
-        else:
-            radius = radius_y
 
-        point = Vector2D(self.x, self.y)
+        # position defaults to the origin
+        point = Vector2D(self.x or 0, self.y or 0)
         path = Path2D(point)
         path.horizontal_to(width)
         path.vertical_to(height, radius=radius)
diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index bdbbf05..073e0b6 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -873,6 +873,28 @@ class ArcSegment(OnePointMixin, PathPart):
 
     ##############################################
 
+    @property
+    def radius_x(self):
+        return self._radius_x
+
+    @property
+    def radius_y(self):
+        return self._radius_y
+
+    @property
+    def angle(self):
+        return self._angle
+
+    @property
+    def large_arc(self):
+        return self._large_arc
+
+    @property
+    def sweep(self):
+        return self._sweep
+
+    ##############################################
+
     def clone(self, path):
         return self.__class__(
             path,
-- 
2.43.0


From 0e944b260290bfddd0bf953df78e84bf87d8eb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:17 +0000
Subject: [PATCH 101/156] fix: removal of the items of a scene

---
 Patro/GraphicEngine/GraphicScene/Scene.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Patro/GraphicEngine/GraphicScene/Scene.py b/Patro/GraphicEngine/GraphicScene/Scene.py
index 4426f29..fab872b 100644
--- a/Patro/GraphicEngine/GraphicScene/Scene.py
+++ b/Patro/GraphicEngine/GraphicScene/Scene.py
@@ -202,13 +202,15 @@ class GraphicSceneScope:
     ##############################################
 
     def remove_item(self, item: GraphicItem) -> None:
-        self.update_rtree(item, insert=False)
+        self.update_rtree_item(item, insert=False)
 
         items = self.item_for_user_data(item.user_data)
         if items:
             items.remove(item)
+            if not items:
+                del self._user_data_map[id(item.user_data)]
 
-        del self._items[item]
+        del self._items[id(item)]
 
     ##############################################
 
-- 
2.43.0


From 8639b8fe93308638a5b140ca74213297a5fdf2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:33 +0000
Subject: [PATCH 102/156] fix: positions and dirty flag of the graphic items

---
 Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py b/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py
index 827956a..c4a7feb 100644
--- a/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py
+++ b/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py
@@ -136,10 +136,8 @@ class GraphicItem:
 
     @dirty.setter
     def dirty(self, value: bool) -> None:
-        if bool(value):
-            self._dirty = True
-        else:
-            self._dirty = True
+        self._dirty = bool(value)
+        if self._dirty:
             self._geometry = None
             self._bounding_box = None
 
@@ -214,8 +212,8 @@ class PositionMixin:
     #     self._position = value
 
     @property
-    def positions(self) -> str | Vector2D:
-        return self._position
+    def positions(self) -> tuple[str | Vector2D]:
+        return (self._position,)
 
     @property
     def casted_position(self) -> Vector2D:
-- 
2.43.0


From 0d78698bd31c70204c8b04be7ea130b0a4668e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:35 +0000
Subject: [PATCH 103/156] =?UTF-8?q?fix:=20cubic=20positions=20of=20a=20qua?=
 =?UTF-8?q?dratic=20B=C3=A9zier=20item?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 Patro/GraphicEngine/GraphicScene/GraphicItem.py |  8 ++++----
 Patro/GraphicEngine/GraphicScene/Scene.py       | 15 ++++++++++-----
 Patro/GraphicEngine/Painter/QtPainter.py        |  2 +-
 3 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/Patro/GraphicEngine/GraphicScene/GraphicItem.py b/Patro/GraphicEngine/GraphicScene/GraphicItem.py
index c63fbdd..402157c 100644
--- a/Patro/GraphicEngine/GraphicScene/GraphicItem.py
+++ b/Patro/GraphicEngine/GraphicScene/GraphicItem.py
@@ -391,10 +391,10 @@ class QuadraticBezierItem(ThreePositionMixin, PathStyleItemMixin):
 
     @property
     def cubic_positions(self) -> None:
-        if not(hasattr(self, '_cubic_points')):
-            cubic = self.geometry.to_cubic()
-            self._cubic_points = list(cubic.points)
-        return self._cubic_points
+        # Positions are not transformed, see casted_positions
+        resolve = self._scene.resolve_position
+        cubic = QuadraticBezier2D(*[resolve(position) for position in self.positions]).to_cubic()
+        return list(cubic.points)
 
 ####################################################################################################
 
diff --git a/Patro/GraphicEngine/GraphicScene/Scene.py b/Patro/GraphicEngine/GraphicScene/Scene.py
index fab872b..38016e8 100644
--- a/Patro/GraphicEngine/GraphicScene/Scene.py
+++ b/Patro/GraphicEngine/GraphicScene/Scene.py
@@ -168,17 +168,22 @@ class GraphicSceneScope:
 
     ##############################################
 
+    def resolve_position(self, position: str | Vector2D) -> Vector2D:
+        """Resolve a coordinate name string to its :class:`Patro.GeometryEngine.Vector.Vector2D`."""
+        if isinstance(position, str):
+            return self._coordinates[position].position
+        else:
+            return position
+
+    ##############################################
+
     def cast_position(self, position: str | Vector2D) -> Vector2D:
         """Cast coordinate and apply scope transformation, *position* can be a coordinate name string of a
         :class:`Patro.GeometryEngine.Vector.Vector2D`.
 
         """
         # Fixme: cache ?
-        if isinstance(position, str):
-            vector = self._coordinates[position].position
-        elif isinstance(position, Vector2D):
-            vector = position
-        return self._transformation * vector
+        return self._transformation * self.resolve_position(position)
 
     ##############################################
 
diff --git a/Patro/GraphicEngine/Painter/QtPainter.py b/Patro/GraphicEngine/Painter/QtPainter.py
index 48d5e61..989c75f 100644
--- a/Patro/GraphicEngine/Painter/QtPainter.py
+++ b/Patro/GraphicEngine/Painter/QtPainter.py
@@ -447,7 +447,7 @@ class QtPainter(Painter):
                     method = path.cubicTo
                 else:
                     raise NotImplementedError
-                positions = self.cast_position(segment.positions)
+                positions = [self.cast_position(position) for position in segment.positions]
                 method(*positions)
 
         # if item.it_closed:
-- 
2.43.0


From 6c85478d593279e42cb0810dffdff51ec7628d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:51 +0000
Subject: [PATCH 104/156] fix: distance to rectangles, polygons and paths

---
 Patro/GeometryEngine/Path.py      | 11 +++++++++++
 Patro/GeometryEngine/Polygon.py   |  6 ++++++
 Patro/GeometryEngine/Rectangle.py |  3 ++-
 3 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index 073e0b6..1cd5800 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -1093,6 +1093,17 @@ class Path2D(Primitive1PMixin, Primitive2DMixin, PointPrimitive):
 
     ##############################################
 
+    def distance_to_point(self, point):
+        """Return the distance to the outline"""
+        distances = []
+        for item in self._parts:
+            distances.append(item.geometry.distance_to_point(point))
+            if isinstance(item, LinearSegment) and item.radius is not None:
+                distances.append(item.bulge_geometry.distance_to_point(point))
+        return min(distances)
+
+    ##############################################
+
     def move_to(self, point):
         self.p0 = point
 
diff --git a/Patro/GeometryEngine/Polygon.py b/Patro/GeometryEngine/Polygon.py
index 9ab05a4..77e6748 100644
--- a/Patro/GeometryEngine/Polygon.py
+++ b/Patro/GeometryEngine/Polygon.py
@@ -151,6 +151,12 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
 
     ##############################################
 
+    def distance_to_point(self, point):
+        """Return the distance to the outline"""
+        return min([edge.distance_to_point(point) for edge in self.edges])
+
+    ##############################################
+
     def _test_is_simple(self):
 
         def is_folded(edge1, edge2):
diff --git a/Patro/GeometryEngine/Rectangle.py b/Patro/GeometryEngine/Rectangle.py
index 29351df..d88c253 100644
--- a/Patro/GeometryEngine/Rectangle.py
+++ b/Patro/GeometryEngine/Rectangle.py
@@ -147,4 +147,5 @@ class Rectangle2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PolygonMixi
     ##############################################
 
     def distance_to_point(self, point):
-        raise NotImplementedError
+        """Return the distance to the outline"""
+        return min([edge.distance_to_point(point) for edge in self.edges])
-- 
2.43.0


From 2da3824bfe64bf2fa0b601764d2d2cb12ddbcc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:52 +0000
Subject: [PATCH 105/156] fix: query of a scene by an interval

---
 Patro/GraphicEngine/GraphicScene/Scene.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Patro/GraphicEngine/GraphicScene/Scene.py b/Patro/GraphicEngine/GraphicScene/Scene.py
index 38016e8..41538b2 100644
--- a/Patro/GraphicEngine/GraphicScene/Scene.py
+++ b/Patro/GraphicEngine/GraphicScene/Scene.py
@@ -37,6 +37,8 @@ from typing import Any, Iterator
 
 import rtree
 
+from IntervalArithmetic import Interval2D
+
 from Patro.GeometryEngine import (
     Bezier,
     Conic,
@@ -249,14 +251,12 @@ class GraphicSceneScope:
 
     ##############################################
 
-    def item_in_bounding_box(self, bounding_box) -> None:
-        # Fixme: Interval2D ok ?
+    def item_in_bounding_box(self, bounding_box) -> list[GraphicItem]:
+        if isinstance(bounding_box, Interval2D):
+            bounding_box = bounding_box.bounding_box
         # print('item_in_bounding_box', bounding_box)
         item_ids = self._rtree.intersection(bounding_box)
-        if item_ids:
-            return [self._items[item_id] for item_id in item_ids]
-        else:
-            return None
+        return [self._items[item_id] for item_id in item_ids]
 
     ##############################################
 
-- 
2.43.0


From 45294623412970a88a1094b626f142618323f074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:28 +0000
Subject: [PATCH 106/156] fix: domain of the elliptical arcs of a scene

---
 Patro/GraphicEngine/GraphicScene/GraphicItem.py | 6 +++++-
 Patro/GraphicEngine/GraphicScene/Scene.py       | 3 +++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/GraphicScene/GraphicItem.py b/Patro/GraphicEngine/GraphicScene/GraphicItem.py
index 402157c..5f577bb 100644
--- a/Patro/GraphicEngine/GraphicScene/GraphicItem.py
+++ b/Patro/GraphicEngine/GraphicScene/GraphicItem.py
@@ -200,7 +200,11 @@ class EllipseItem(PositionMixin, StartStopAngleMixin, PathStyleItemMixin):
 
     def get_geometry(self) -> Ellipse2D:
         position = self.casted_position
-        return Ellipse2D(position, self._radius_x, self._radius_y, self._angle)
+        if self.is_closed:
+            domain = None
+        else:
+            domain = AngularDomain(self._start_angle, self._stop_angle)
+        return Ellipse2D(position, self._radius_x, self._radius_y, self._angle, domain)
 
 ####################################################################################################
 
diff --git a/Patro/GraphicEngine/GraphicScene/Scene.py b/Patro/GraphicEngine/GraphicScene/Scene.py
index 41538b2..32293e6 100644
--- a/Patro/GraphicEngine/GraphicScene/Scene.py
+++ b/Patro/GraphicEngine/GraphicScene/Scene.py
@@ -315,6 +315,9 @@ class GraphicSceneScope:
         elif isinstance(item, Conic.Ellipse2D):
             ctor = self.ellipse
             args = [item.radius_x, item.radius_y, item.angle]
+            if item.domain:
+                kwargs['start_angle'] = item.domain.start
+                kwargs['stop_angle'] = item.domain.stop
 
         # Line
         elif isinstance(item, Line.Line2D):
-- 
2.43.0


From 55a8e6386545174305795275c46576606efa310a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:30 +0000
Subject: [PATCH 107/156] fix: items of a path

---
 Patro/GraphicEngine/GraphicScene/Scene.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/Patro/GraphicEngine/GraphicScene/Scene.py b/Patro/GraphicEngine/GraphicScene/Scene.py
index 32293e6..361c27a 100644
--- a/Patro/GraphicEngine/GraphicScene/Scene.py
+++ b/Patro/GraphicEngine/GraphicScene/Scene.py
@@ -326,7 +326,7 @@ class GraphicSceneScope:
 
         # Path
         elif isinstance(item, Path.Path2D):
-            self.add_path(item, path_style, as_segments=True)
+            return self.add_path(item, path_style, as_segments=True)
 
         # Polygon
         elif isinstance(item, Polygon.Polygon2D):
@@ -440,7 +440,7 @@ class GraphicSceneScope:
                              path,
                              path_style: GraphicPathStyle,
                              user_data: Any = None,
-                             ) -> None:
+                             ) -> list[GraphicItem]:
         """Add a path as one item for each segments.
 
         .. warning: path cannot be filled.
@@ -478,6 +478,10 @@ class GraphicSceneScope:
             # add_segment(Segment.Segment2D(*segment.points))
             ellipse = segment.geometry
             # print(ellipse, ellipse.domain)
+            if isinstance(ellipse, Segment.Segment2D):
+                # a radius is null
+                add_segment(segment)
+                return
             arc_item = self.ellipse(
                 ellipse.center,
                 ellipse.radius_x,
@@ -515,9 +519,11 @@ class GraphicSceneScope:
             elif isinstance(segment, Path.ArcSegment):
                 add_ellipse(segment)
             elif isinstance(segment, Path.StringedQuadtraticBezierSegment):
-                pass
+                add_quadratic(segment)
             elif isinstance(segment, Path.StringedCubicBezierSegment):
-                pass
+                add_cubic(segment)
+
+        return items
 
     ##############################################
 
-- 
2.43.0


From 0fa054d5e6d35d0e239b208ff052043216af13fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:31 +0000
Subject: [PATCH 108/156] fix: geometry of a path item

---
 Patro/GraphicEngine/GraphicScene/GraphicItem.py | 15 +++++++++++++--
 Patro/GraphicEngine/GraphicScene/Scene.py       | 13 +++++--------
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/Patro/GraphicEngine/GraphicScene/GraphicItem.py b/Patro/GraphicEngine/GraphicScene/GraphicItem.py
index 5f577bb..a83b729 100644
--- a/Patro/GraphicEngine/GraphicScene/GraphicItem.py
+++ b/Patro/GraphicEngine/GraphicScene/GraphicItem.py
@@ -437,8 +437,19 @@ class PathItem(PositionMixin, PathStyleItemMixin):
     ##############################################
 
     def get_geometry(self) -> Path2D:
-        position = self.casted_position
-        return Path2D(position) # Fixme: !!!
+        cast = self._scene.cast_position
+        path = Path2D(self.casted_position)
+        for segment in self._segments:
+            positions = [cast(position) for position in segment.positions]
+            if isinstance(segment, LinearSegment):
+                path.line_to(*positions, absolute=True)
+            elif isinstance(segment, QuadraticSegment):
+                path.quadratic_to(*positions, absolute=True)
+            else:
+                path.cubic_to(*positions, absolute=True)
+        if self._closed:
+            path.close()
+        return path
 
     ##############################################
 
diff --git a/Patro/GraphicEngine/GraphicScene/Scene.py b/Patro/GraphicEngine/GraphicScene/Scene.py
index 361c27a..4491ad3 100644
--- a/Patro/GraphicEngine/GraphicScene/Scene.py
+++ b/Patro/GraphicEngine/GraphicScene/Scene.py
@@ -418,16 +418,13 @@ class GraphicSceneScope:
                 # if segment.radius is not None:
                 #     add_bulge(segment)
                 item.line_to(segment.stop_point)
-            elif isinstance(segment, Path.QuadraticBezierSegment):
-                item.quadratic_to(segment.point1, segment.point2)
-            elif isinstance(segment, Path.CubicBezierSegment):
-                item.cubic_to(segment.point1, segment.point2, segment.point3)
+            elif isinstance(segment, (Path.QuadraticBezierSegment, Path.StringedQuadtraticBezierSegment)):
+                # points are absolute
+                item.quadratic_to(*segment.points[1:])
+            elif isinstance(segment, (Path.CubicBezierSegment, Path.StringedCubicBezierSegment)):
+                item.cubic_to(*segment.points[1:])
             elif isinstance(segment, Path.ArcSegment):
                 pass
-            elif isinstance(segment, Path.StringedQuadtraticBezierSegment):
-                pass
-            elif isinstance(segment, Path.StringedCubicBezierSegment):
-                pass
 
         if path.is_closed:
             item.close()
-- 
2.43.0


From f10e36bdcd13a016447339dcfd4d58276c252538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:33 +0000
Subject: [PATCH 109/156] =?UTF-8?q?fix:=20B=C3=A9zier=20paths=20and=20spli?=
 =?UTF-8?q?nes=20of=20a=20scene?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 Patro/GraphicEngine/GraphicScene/Scene.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Patro/GraphicEngine/GraphicScene/Scene.py b/Patro/GraphicEngine/GraphicScene/Scene.py
index 4491ad3..c6da28a 100644
--- a/Patro/GraphicEngine/GraphicScene/Scene.py
+++ b/Patro/GraphicEngine/GraphicScene/Scene.py
@@ -378,10 +378,10 @@ class GraphicSceneScope:
     ##############################################
 
     def add_spline(self, spline, path_style: GraphicPathStyle) -> list:
-        return [
-            self.cubic_bezier(*bezier.points, path_style, user_data=spline)
-            for bezier in spline.to_bezier()
-        ]
+        items = []
+        for bezier in spline.to_bezier():
+            items += self.bezier_path(bezier.points, spline.degree, path_style, user_data=spline)
+        return items
 
     ##############################################
 
@@ -552,7 +552,7 @@ class GraphicSceneScope:
             raise ValueError(f'Wrong number of points for Bezier {degree} curve: {number_of_points}')
 
         items = []
-        for i in range(number_of_points // degree):
+        for i in range(n // degree):
             j = degree * i
             k = j + degree
             item = method(*points[j:k+1], *args, **kwargs)
-- 
2.43.0


From 2a300d1f77fd67f91b197a01a3d821d7ded59eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:06 +0000
Subject: [PATCH 110/156] fix: items left out of the index when their geometry
 is read first

---
 Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py | 1 -
 Patro/GraphicEngine/GraphicScene/Scene.py            | 1 +
 2 files changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py b/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py
index c4a7feb..206675f 100644
--- a/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py
+++ b/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py
@@ -153,7 +153,6 @@ class GraphicItem:
     def geometry(self) -> None:
         if self._geometry is None:
             self._geometry = self.get_geometry()
-            self._dirty = False
         return self._geometry
 
     ##############################################
diff --git a/Patro/GraphicEngine/GraphicScene/Scene.py b/Patro/GraphicEngine/GraphicScene/Scene.py
index c6da28a..c4cf4a4 100644
--- a/Patro/GraphicEngine/GraphicScene/Scene.py
+++ b/Patro/GraphicEngine/GraphicScene/Scene.py
@@ -245,6 +245,7 @@ class GraphicSceneScope:
             # print(item, bounding_box)
             self._rtree.insert(item_id, bounding_box)
             self._item_bounding_box_cache[item_id] = bounding_box
+            item.dirty = False
             # except AttributeError:
             #     print('bounding_box not implemented for', item)
             #     pass # Fixme:
-- 
2.43.0


From a37697cf1487f71a52d9bffaab9e4d87cb763d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:28 +0000
Subject: [PATCH 111/156] fix: centre and radius of negative bulges

---
 Patro/FileFormat/Dxf/Polyline.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Patro/FileFormat/Dxf/Polyline.py b/Patro/FileFormat/Dxf/Polyline.py
index 0e6a928..e7bf371 100644
--- a/Patro/FileFormat/Dxf/Polyline.py
+++ b/Patro/FileFormat/Dxf/Polyline.py
@@ -20,7 +20,6 @@
 
 ####################################################################################################
 
-from Patro.Common.Math.Functions import sign
 from Patro.GeometryEngine.Conic import Circle2D, AngularDomain
 from Patro.GeometryEngine.Segment import Segment2D
 from Patro.GeometryEngine.Vector import Vector2D
@@ -189,7 +188,7 @@ class Polyline:
     ##############################################
 
     def __str__(self):
-        return ' '.join(['{:5.2f}'.format(vertex) for vertex in self])
+        return ' '.join([str(vertex) for vertex in self])
 
     ##############################################
 
@@ -212,8 +211,9 @@ class Polyline:
                 normal = direction.normal
                 # offset = vertex1.bulge_radius - vertex1.sagitta
                 offset = vertex1.sagitta_dual
-                center = segment_center + normal * sign(vertex1.bulge) * offset
-                arc = Circle2D(center, vertex1.bulge_radius)
+                # offset is negative if the center is at right
+                center = segment_center + normal * offset
+                arc = Circle2D(center, abs(vertex1.bulge_radius))
                 start_angle, stop_angle = [arc.angle_for_point(vertex.point) for vertex in (vertex1, vertex2)]
                 if start_angle < 0:
                     start_angle += 360
-- 
2.43.0


From 99b2cf2cd79b2c8ecfc0f3d400fde3ea5ebcb214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:30 +0000
Subject: [PATCH 112/156] fix: domain of the DXF ellipses

---
 Patro/FileFormat/Dxf/Importer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Patro/FileFormat/Dxf/Importer.py b/Patro/FileFormat/Dxf/Importer.py
index 53d192a..5d35918 100644
--- a/Patro/FileFormat/Dxf/Importer.py
+++ b/Patro/FileFormat/Dxf/Importer.py
@@ -128,11 +128,16 @@ class DxfImporter:
         major_axis = self._to_vector(item_dxf.major_axis)
         minor_axis = major_axis * item_dxf.ratio
         domain = AngularDomain(item_dxf.start_param, item_dxf.end_param, degrees=False)
+        if domain.is_clockwise:
+            # ellipses are counterclockwise
+            domain.stop += 360
         radius_x, radius_y = major_axis.magnitude, minor_axis.magnitude
         angle = major_axis.orientation
         if angle == 90:
             radius_x, radius_y = radius_y, radius_x
             angle = 0
+            # angles are relative to the other axis
+            domain = AngularDomain(domain.start + 90, domain.stop + 90)
         # Fixme: ...
         ellipse = Ellipse2D(
             center,
-- 
2.43.0


From a3b0c75c35f8fa017f57a802a91b651ff502a873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:32 +0000
Subject: [PATCH 113/156] fix: import of DXF splines

---
 Patro/FileFormat/Dxf/Importer.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/Patro/FileFormat/Dxf/Importer.py b/Patro/FileFormat/Dxf/Importer.py
index 5d35918..372d5a8 100644
--- a/Patro/FileFormat/Dxf/Importer.py
+++ b/Patro/FileFormat/Dxf/Importer.py
@@ -28,6 +28,8 @@ __all__ = ['DxfImporter']
 
 ####################################################################################################
 
+import numpy as np
+
 import ezdxf # Python packahe to read/write DXF
 
 from Patro.GeometryEngine.Conic import Circle2D, Ellipse2D, AngularDomain
@@ -161,8 +163,14 @@ class DxfImporter:
 
     def _on_spline(self, item):
 
-        with item.edit_data() as data:
-            points = self._to_vectors(data.control_points)
-        item_dxf = item.dxf
-        spline = BSpline2D(points, item_dxf.degree, item.closed)
+        curve = item.construction_tool() # also compute the control points of a spline defined by fit points
+        points = self._to_vectors(curve.control_points)
+        knots = [float(knot) for knot in curve.knots()]
+        # knots are defined up to an affine transformation
+        number_of_spans = len(points) - curve.degree
+        start, span = knots[0], (knots[-1] - knots[0]) / number_of_spans
+        uniform_knots = BSpline2D.uniform_knots(curve.degree, len(points))
+        if np.allclose([(knot - start) / span for knot in knots], uniform_knots, rtol=0, atol=1e-9):
+            knots = None
+        spline = BSpline2D(points, curve.degree, item.closed, knots)
         self._add(spline)
-- 
2.43.0


From f8481c12e0c8808c38bd66de35620834de7164ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:34 +0000
Subject: [PATCH 114/156] fix: mirrored DXF entities

---
 Patro/FileFormat/Dxf/Importer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Patro/FileFormat/Dxf/Importer.py b/Patro/FileFormat/Dxf/Importer.py
index 372d5a8..6512812 100644
--- a/Patro/FileFormat/Dxf/Importer.py
+++ b/Patro/FileFormat/Dxf/Importer.py
@@ -31,6 +31,7 @@ __all__ = ['DxfImporter']
 import numpy as np
 
 import ezdxf # Python packahe to read/write DXF
+from ezdxf.upright import upright
 
 from Patro.GeometryEngine.Conic import Circle2D, Ellipse2D, AngularDomain
 from Patro.GeometryEngine.Segment import Segment2D
@@ -87,6 +88,7 @@ class DxfImporter:
     def _read(self):
 
         for item in self._model_space:
+            upright(item) # the plane of a mirrored entity can be upside down
             dxf_type = item.dxftype()
             if dxf_type == 'LINE':
                 self._on_line(item)
-- 
2.43.0


From 18204b6615276e18d0f7016dc448d2faef7d136c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:12 +0000
Subject: [PATCH 115/156] fix: points of DXF entities

---
 Patro/FileFormat/Dxf/Importer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/FileFormat/Dxf/Importer.py b/Patro/FileFormat/Dxf/Importer.py
index 6512812..340d1d8 100644
--- a/Patro/FileFormat/Dxf/Importer.py
+++ b/Patro/FileFormat/Dxf/Importer.py
@@ -72,7 +72,7 @@ class DxfImporter:
 
     @staticmethod
     def _to_vector(point):
-        return Vector2D(point[:2])
+        return Vector2D(point[0], point[1])
 
     @classmethod
     def _to_vectors(cls, points):
-- 
2.43.0


From eb0131bde03f854919c87d633a77c88ba670576d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:23 +0000
Subject: [PATCH 116/156] fix: positions of a TeX figure

---
 Patro/GraphicEngine/Painter/TexPainter.py | 3 ++-
 Patro/GraphicEngine/TeX/Document.py       | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/TexPainter.py b/Patro/GraphicEngine/Painter/TexPainter.py
index d6b4b84..bf82d00 100644
--- a/Patro/GraphicEngine/Painter/TexPainter.py
+++ b/Patro/GraphicEngine/Painter/TexPainter.py
@@ -72,7 +72,7 @@ class TexPainter(Painter):
 
     def __init__(self, path, scene, paper):
         super().__init__(scene)
-        self._document = Document(path, 'article', '12pt')
+        self._document = Document(str(path), 'article', '12pt')
         self._paper = paper
         self._preambule.append(Document._format(_preambule, self))
 
@@ -100,6 +100,7 @@ class TexPainter(Painter):
         if isinstance(position, str):
             return '(' + position + ')'
         elif isinstance(position, Vector2D):
+            position = self.cast_position(position)
             return '({0.x:.2f},{0.y:.2f})'.format(position)
 
     ##############################################
diff --git a/Patro/GraphicEngine/TeX/Document.py b/Patro/GraphicEngine/TeX/Document.py
index acc8516..0fea10a 100644
--- a/Patro/GraphicEngine/TeX/Document.py
+++ b/Patro/GraphicEngine/TeX/Document.py
@@ -60,7 +60,7 @@ class Document:
 
     @property
     def output_directory(self):
-        return os.path.dirname(self._tex_filename())
+        return os.path.dirname(self.tex_filename)
 
     @property
     def pdf_filename(self):
-- 
2.43.0


From d5c848f69ef4cd33df84c5370df311d1fc2aee24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:24 +0000
Subject: [PATCH 117/156] fix: stroke style of TeX figures

---
 Patro/GraphicEngine/TeX/Tikz.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/Patro/GraphicEngine/TeX/Tikz.py b/Patro/GraphicEngine/TeX/Tikz.py
index af8a16a..1340082 100644
--- a/Patro/GraphicEngine/TeX/Tikz.py
+++ b/Patro/GraphicEngine/TeX/Tikz.py
@@ -32,8 +32,9 @@ class TikzFigure(Environment):
     __STROKE_STYLE__ = {
         StrokeStyle.DashLine: 'dash pattern=on 5mm off 5mm',
         StrokeStyle.DashDotLine: 'dash pattern=on 5mm off 4mm on 2mm off 4mm', # 'loosely dashdotted',
+        StrokeStyle.DashDotDotLine: 'dash pattern=on 5mm off 4mm on 2mm off 4mm on 2mm off 4mm',
         StrokeStyle.DotLine: 'dash pattern=on 2mm off 2mm', # 'dotted',
-        StrokeStyle.NoPen: None,
+        StrokeStyle.NoPen: 'draw=none',
         StrokeStyle.SolidLine: 'solid',
     }
 
@@ -41,14 +42,16 @@ class TikzFigure(Environment):
     def format_path_style(path_syle):
 
         stroke_style = TikzFigure.__STROKE_STYLE__[path_syle.stroke_style]
-        stroke_color = path_syle.stroke_color.name
+        stroke_color = path_syle.stroke_color
 
         styles = []
         styles.append('line width={}'.format(path_syle.line_width))
-        if stroke_style is not None:
-            styles.append(stroke_style)
         if stroke_color is not None:
-            styles.append(stroke_color)
+            # most of the colors are not defined in TeX
+            styles.append('color={{rgb,255:red,{0.red};green,{0.green};blue,{0.blue}}}'.format(stroke_color))
+            styles.append(stroke_style)
+        else:
+            styles.append('draw=none')
         return ', '.join(styles)
 
     ##############################################
-- 
2.43.0


From d7e226a6c47396137d9c2caf82ba9f1e13a88eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:26 +0000
Subject: [PATCH 118/156] fix: items of a SVG drawing

---
 Patro/GraphicEngine/Painter/SvgPainter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/SvgPainter.py b/Patro/GraphicEngine/Painter/SvgPainter.py
index 8eeb761..899fe6a 100644
--- a/Patro/GraphicEngine/Painter/SvgPainter.py
+++ b/Patro/GraphicEngine/Painter/SvgPainter.py
@@ -107,14 +107,14 @@ class SvgPainter(Painter):
     def paint_TextItem(self, item):
         x, y = list(self.cast_position(item.position))
         # Fixme: anchor position
-        text = SvgFormat.Text(x=x, y=y, text=item.text, fill='black')
+        text = SvgFormat.Text(x=x, y=y, text=item.text, fill='black', _class='normal')
         self._append(text)
 
     ##############################################
 
     def paint_CircleItem(self, item):
         x, y = self.cast_position(item.position)
-        circle = SvgFormat.Text(cx=x, cy=y, r=2, fill='black', _class='normal')
+        circle = SvgFormat.Circle(cx=x, cy=y, r=2, fill='black')
         self._append(circle)
 
     ##############################################
@@ -139,5 +139,5 @@ class SvgPainter(Painter):
             fill='none',
             **self._graphic_style(item),
         )
-        #!# self._append(path)
+        self._append(path)
 
-- 
2.43.0


From 7136cd04a87f2605067b7ba607c4646b56956974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:27 +0000
Subject: [PATCH 119/156] fix: stroke style of SVG drawings

---
 Patro/GraphicEngine/Painter/SvgPainter.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/SvgPainter.py b/Patro/GraphicEngine/Painter/SvgPainter.py
index 899fe6a..b19a538 100644
--- a/Patro/GraphicEngine/Painter/SvgPainter.py
+++ b/Patro/GraphicEngine/Painter/SvgPainter.py
@@ -52,8 +52,8 @@ class SvgPainter(Painter):
         StrokeStyle.SolidLine: None,
         StrokeStyle.DashLine: [6, 3], # Fixme:
         StrokeStyle.DotLine: [1, 2], # Fixme:
-        StrokeStyle.DashDotLine: [6, 3], # Fixme:
-        StrokeStyle.DashDotDotLine: [6, 3], # Fixme:
+        StrokeStyle.DashDotLine: [6, 3, 1, 3], # Fixme:
+        StrokeStyle.DashDotDotLine: [6, 3, 1, 3, 1, 3], # Fixme:
     }
 
     ##############################################
@@ -92,7 +92,10 @@ class SvgPainter(Painter):
     def _graphic_style(self, item):
 
         path_syle = item.path_style
-        color = path_syle.stroke_color.name
+        if path_syle.stroke_color is None or path_syle.stroke_style == StrokeStyle.NoPen:
+            color = 'none'
+        else:
+            color = str(path_syle.stroke_color) # SVG has its own color names
         line_style = self.__STROKE_STYLE__[path_syle.stroke_style]
         line_width = str(path_syle.line_width_as_float)
 
-- 
2.43.0


From e4b652a9978f7a3fac494d91f4860f6276a7af6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:29 +0000
Subject: [PATCH 120/156] fix: driver and origin of PDF drawings

---
 Patro/GraphicEngine/Painter/PdfPainter.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/PdfPainter.py b/Patro/GraphicEngine/Painter/PdfPainter.py
index 9c5ed7e..7df61cf 100644
--- a/Patro/GraphicEngine/Painter/PdfPainter.py
+++ b/Patro/GraphicEngine/Painter/PdfPainter.py
@@ -100,7 +100,7 @@ class ReportlabPainter(PdfPainterBase):
 
         bounding_box = scene.bounding_box
         # print(bounding_box, bounding_box.x.length, bounding_box.y.length)
-        self._canvas.translate(-bounding_box.x.inf*cm, -bounding_box.y.inf*cm)
+        self._canvas.translate(-bounding_box.x.inf*cm*.7, -bounding_box.y.inf*cm*.7) # cf. cast_position
         self._canvas.translate(1*cm, 1*cm) # Fixme: margin
 
         self._canvas.setFont('Times-Roman', 20)
@@ -161,6 +161,5 @@ _driver_to_cls = {
 
 def PdfPainter(*args, **kwargs):
     """Wrapper to driver classes"""
-    driver = kwargs.get('driver', 'reportlab')
-    del kwargs['driver']
+    driver = kwargs.pop('driver', 'reportlab')
     return _driver_to_cls[driver](*args, **kwargs)
-- 
2.43.0


From fb546502d7d1a32971ec7d85f970d8d58a6a129a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:30 +0000
Subject: [PATCH 121/156] fix: texts of DXF drawings

---
 Patro/GraphicEngine/Painter/DxfPainter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/Painter/DxfPainter.py b/Patro/GraphicEngine/Painter/DxfPainter.py
index d988ce8..24cb6f7 100644
--- a/Patro/GraphicEngine/Painter/DxfPainter.py
+++ b/Patro/GraphicEngine/Painter/DxfPainter.py
@@ -32,6 +32,7 @@ from .Painter import Painter
 
 try:
     import ezdxf
+    from ezdxf.enums import TextEntityAlignment
 except ImportError:
     ezdxf = None
 
@@ -124,7 +125,7 @@ class EzdxfPainter(DxfPainterBase):
         position = self.cast_position(item.position)
         # Fixme: anchor position
         # https://ezdxf.readthedocs.io/en/latest/tutorials/text.html
-        self._model_space.add_text(item.text).set_pos(list(position), align='CENTER')
+        self._model_space.add_text(item.text).set_placement(list(position), align=TextEntityAlignment.CENTER)
 
     ##############################################
 
-- 
2.43.0


From 1f2668238c58ccf4df9afadddbb643cf972704f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:32 +0000
Subject: [PATCH 122/156] fix: stroke style of DXF drawings

---
 Patro/GraphicEngine/Painter/DxfPainter.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/DxfPainter.py b/Patro/GraphicEngine/Painter/DxfPainter.py
index 24cb6f7..5169e4f 100644
--- a/Patro/GraphicEngine/Painter/DxfPainter.py
+++ b/Patro/GraphicEngine/Painter/DxfPainter.py
@@ -66,16 +66,15 @@ class EzdxfPainter(DxfPainterBase):
     # AC1032 AutoCAD R2018
 
     __STROKE_STYLE__ = {
-        StrokeStyle.NoPen: 'PHANTOM', # Fixme: ???
+        StrokeStyle.NoPen: 'PHANTOM', # Fixme: ??? entity is invisible
         StrokeStyle.SolidLine: 'CONTINUOUS',
-        StrokeStyle.DashLine: 'DASH', # Fixme:
+        StrokeStyle.DashLine: 'DASHED',
         StrokeStyle.DotLine: 'DOTTED',
         StrokeStyle.DashDotLine: 'DASHDOT',
-        StrokeStyle.DashDotDotLine: 'DASHDOTDOT', # Fixme:
+        StrokeStyle.DashDotDotLine: 'DIVIDE',
     }
 
     __COLOR__ = {
-        None : None,
         'black': 0,
     }
 
@@ -86,7 +85,7 @@ class EzdxfPainter(DxfPainterBase):
         super().__init__(path, scene, paper)
 
         self._dxf_version = dxf_version
-        self._drawing = ezdxf.new(dxf_version)
+        self._drawing = ezdxf.new(dxf_version, setup=['linetypes'])
         self._model_space= self._drawing.modelspace() # add new entities to the model space
         # self._model_space.page_setup(
         #     size=(self._paper.width, self._paper.height),
@@ -113,11 +112,19 @@ class EzdxfPainter(DxfPainterBase):
         path_style = item.path_style
         if path_style.stroke_color is None:
             return {'linetype': 'PHANTOM', 'color': 2} # Fixme:
-        color = self.__COLOR__[path_style.stroke_color.name] # see also true_color color_name (AutoCAD R2004)
+        stroke_color = path_style.stroke_color
         line_type = self.__STROKE_STYLE__[path_style.stroke_style]
         # https://ezdxf.readthedocs.io/en/latest/graphic_base_class.html#GraphicEntity.dxf.lineweight
         # line_weight = float(path_syle.line_width.replace('pt', '')) / 3 # Fixme: pt ???
-        return {'linetype': line_type, 'color': color} # 'lineweight':line_weight
+        style = {'linetype': line_type} # 'lineweight':line_weight
+        if stroke_color.name in self.__COLOR__:
+            style['color'] = self.__COLOR__[stroke_color.name]
+        else:
+            # true_color requires AutoCAD R2004
+            style['true_color'] = ezdxf.rgb2int((stroke_color.red, stroke_color.green, stroke_color.blue))
+        if path_style.stroke_style == StrokeStyle.NoPen:
+            style['invisible'] = 1
+        return style
 
     ##############################################
 
-- 
2.43.0


From 47ebdcab256d9d5645a047649c9c3b6030e71ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:34 +0000
Subject: [PATCH 123/156] fix: stroke style of Matplotlib drawings

---
 Patro/GraphicEngine/Painter/MplPainter.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/MplPainter.py b/Patro/GraphicEngine/Painter/MplPainter.py
index 4b18830..22460c0 100644
--- a/Patro/GraphicEngine/Painter/MplPainter.py
+++ b/Patro/GraphicEngine/Painter/MplPainter.py
@@ -39,12 +39,12 @@ _module_logger = logging.getLogger(__name__)
 class MplPainter(Painter):
 
     __STROKE_STYLE__ = {
-        StrokeStyle.NoPen: None,
+        StrokeStyle.NoPen: 'none',
         StrokeStyle.SolidLine: 'solid', # '-'
-        StrokeStyle.DashLine: '', # Fixme:
+        StrokeStyle.DashLine: 'dashed', # '--'
         StrokeStyle.DotLine: 'dotted', # ':'
-        StrokeStyle.DashDotLine: 'dashdot', # '--'
-        StrokeStyle.DashDotDotLine: '', # Fixme:
+        StrokeStyle.DashDotLine: 'dashdot', # '-.'
+        StrokeStyle.DashDotDotLine: (0, (6, 2, 1, 2, 1, 2)),
     }
 
     ##############################################
@@ -83,7 +83,7 @@ class MplPainter(Painter):
     def _add_path(self, item, vertices, codes):
         path = Path(vertices, codes)
         path_syle = item.path_style
-        color = path_syle.stroke_color.name
+        color = 'none' if path_syle.stroke_color is None else str(path_syle.stroke_color)
         line_style = self.__STROKE_STYLE__[path_syle.stroke_style]
         line_width = path_syle.line_width_as_float
         patch = patches.PathPatch(path, edgecolor=color, facecolor='none', linewidth=line_width, linestyle=line_style)
-- 
2.43.0


From f6999e3a82621ed3febb35a9bfe09d94aeb2c1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:46 +0000
Subject: [PATCH 124/156] fix: line type of dotted lines in DXF drawings

---
 Patro/GraphicEngine/Painter/DxfPainter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/Painter/DxfPainter.py b/Patro/GraphicEngine/Painter/DxfPainter.py
index 5169e4f..6619580 100644
--- a/Patro/GraphicEngine/Painter/DxfPainter.py
+++ b/Patro/GraphicEngine/Painter/DxfPainter.py
@@ -69,7 +69,7 @@ class EzdxfPainter(DxfPainterBase):
         StrokeStyle.NoPen: 'PHANTOM', # Fixme: ??? entity is invisible
         StrokeStyle.SolidLine: 'CONTINUOUS',
         StrokeStyle.DashLine: 'DASHED',
-        StrokeStyle.DotLine: 'DOTTED',
+        StrokeStyle.DotLine: 'DOT',
         StrokeStyle.DashDotLine: 'DASHDOT',
         StrokeStyle.DashDotDotLine: 'DIVIDE',
     }
-- 
2.43.0


From 6f8e37219ffe519058598b2daa55e5c515cd691e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:11 +0000
Subject: [PATCH 125/156] fix: origin of SVG drawings

---
 Patro/GraphicEngine/Painter/SvgPainter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/SvgPainter.py b/Patro/GraphicEngine/Painter/SvgPainter.py
index b19a538..8c4293c 100644
--- a/Patro/GraphicEngine/Painter/SvgPainter.py
+++ b/Patro/GraphicEngine/Painter/SvgPainter.py
@@ -66,8 +66,8 @@ class SvgPainter(Painter):
         self._paper = paper
 
         bounding_box = scene.bounding_box
-        self._transformation = AffineTransformation2D.Scale(10, -10)
-        self._transformation *= AffineTransformation2D.Translation(-Vector2D(bounding_box.x.inf, bounding_box.y.sup))
+        self._transformation = AffineTransformation2D.Translation(-Vector2D(bounding_box.x.inf, bounding_box.y.sup))
+        self._transformation *= AffineTransformation2D.Scale(10, -10)
 
         self._tree = []
         self._append(SvgFormat.Style(text='''
-- 
2.43.0


From 611df8cd5370a38a5ddb7b68530a4cde4f4192dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:02 +0000
Subject: [PATCH 126/156] fix: pen of the filled and invisible items in Qt
 painter

---
 Patro/GraphicEngine/Painter/QtPainter.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/QtPainter.py b/Patro/GraphicEngine/Painter/QtPainter.py
index 989c75f..84107f0 100644
--- a/Patro/GraphicEngine/Painter/QtPainter.py
+++ b/Patro/GraphicEngine/Painter/QtPainter.py
@@ -222,17 +222,18 @@ class QtPainter(Painter):
 
         fill_color = path_syle.fill_color
         if fill_color is not None:
-            color = QColor(str(fill_color))
-            color.setAlphaF(path_syle.fill_alpha)
-            self._painter.setBrush(color)
+            brush_color = QColor(str(fill_color))
+            brush_color.setAlphaF(path_syle.fill_alpha)
+            self._painter.setBrush(brush_color)
             # return None
         else:
             self._painter.setBrush(Qt.NoBrush)
 
         # print(item, color, line_style)
-        if color is None or line_style is StrokeStyle.NoPen:
+        if color is None or line_style == Qt.NoPen:
             # invisible item
             pen = QPen(Qt.NoPen)
+            self._painter.setPen(pen)
             # print('Warning Pen:', item, item.user_data, color, line_style)
             return None
         else:
-- 
2.43.0


From 31e4d84595a168e31ee71093a1bc97a80bf41692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:04 +0000
Subject: [PATCH 127/156] fix: SVG export of Qt painter

---
 Patro/GraphicEngine/Painter/QtPainter.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/QtPainter.py b/Patro/GraphicEngine/Painter/QtPainter.py
index 84107f0..a54269a 100644
--- a/Patro/GraphicEngine/Painter/QtPainter.py
+++ b/Patro/GraphicEngine/Painter/QtPainter.py
@@ -142,8 +142,10 @@ class QtPainter(Painter):
         self._scale = scale
 
         bounding_box = self._scene.bounding_box
-        size = QSize(*[x*self._scale for x in bounding_box.size])
-        view_box = QRectF(*[x*self._scale for x in bounding_box.rect])
+        width, height = [x*self._scale for x in bounding_box.size]
+        size = QSize(math.ceil(width), math.ceil(height))
+        # y axis is downward, cf. scene_to_viewport
+        view_box = QRectF(bounding_box.x.inf*self._scale, -bounding_box.y.sup*self._scale, width, height)
         generator.setSize(size)
         generator.setViewBox(view_box)
 
@@ -178,7 +180,8 @@ class QtPainter(Painter):
         return None
 
     def scene_to_viewport(self, position):
-        return QPointF(position.x * self._scale, position.y * self._scale)
+        # y axis is upward in the scene and downward in the viewport
+        return QPointF(position.x * self._scale, -position.y * self._scale)
 
         # Note: painter.scale apply to text as well
 
-- 
2.43.0


From 4f3229a4c8d32465c41ae749648a991917137ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:05 +0000
Subject: [PATCH 128/156] fix: angle of the ellipses in Qt painter

---
 Patro/GraphicEngine/Painter/QtPainter.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/QtPainter.py b/Patro/GraphicEngine/Painter/QtPainter.py
index a54269a..b77dd88 100644
--- a/Patro/GraphicEngine/Painter/QtPainter.py
+++ b/Patro/GraphicEngine/Painter/QtPainter.py
@@ -345,8 +345,11 @@ class QtPainter(Painter):
 
         pen = self._set_pen(item)
 
-        # Fixme: angle !!!
-        self._paint_arc(item, center, radius_x, radius_y)
+        self._painter.save()
+        self._painter.translate(center)
+        self._painter.rotate(-item.angle) # y axis is downward
+        self._paint_arc(item, QPointF(0, 0), radius_x, radius_y)
+        self._painter.restore()
 
     ##############################################
 
-- 
2.43.0


From 8e80d814f0584ff4c1b4329af0dfb579f962c571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:07 +0000
Subject: [PATCH 129/156] fix: quadratic and closed paths in Qt painter

---
 Patro/GraphicEngine/Painter/QtPainter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/QtPainter.py b/Patro/GraphicEngine/Painter/QtPainter.py
index b77dd88..d660285 100644
--- a/Patro/GraphicEngine/Painter/QtPainter.py
+++ b/Patro/GraphicEngine/Painter/QtPainter.py
@@ -449,7 +449,7 @@ class QtPainter(Painter):
                 path.lineTo(position)
             else:
                 if isinstance(segment, QuadraticSegment):
-                    method = path.quadraticTo
+                    method = path.quadTo
                 elif isinstance(segment, CubicSegment):
                     method = path.cubicTo
                 else:
@@ -457,8 +457,8 @@ class QtPainter(Painter):
                 positions = [self.cast_position(position) for position in segment.positions]
                 method(*positions)
 
-        # if item.it_closed:
-        #     path.closeSubpath()
+        if item.is_closed:
+            path.closeSubpath()
 
         self._painter.drawPath(path)
 
-- 
2.43.0


From bfc742b47727ff8d46560e911444517243b7e386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:08 +0000
Subject: [PATCH 130/156] fix: images in Qt painter

---
 Patro/GraphicEngine/Painter/QtPainter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/Painter/QtPainter.py b/Patro/GraphicEngine/Painter/QtPainter.py
index d660285..b487b1e 100644
--- a/Patro/GraphicEngine/Painter/QtPainter.py
+++ b/Patro/GraphicEngine/Painter/QtPainter.py
@@ -400,7 +400,8 @@ class QtPainter(Painter):
     def paint_ImageItem(self, item):
 
         vertices = self.cast_item_positions(item)
-        rec = QRectF(vertices[0], vertices[1])
+        # y axis is downward
+        rec = QRectF(vertices[0], vertices[1]).normalized()
 
         image = item.image
         height, width, bytes_per_line = image.shape
-- 
2.43.0


From 41b7c28eef73ca16add5e9064eebe6134278ad10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:10 +0000
Subject: [PATCH 131/156] fix: pen of the texts in Qt painter

---
 Patro/GraphicEngine/Painter/QtPainter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Patro/GraphicEngine/Painter/QtPainter.py b/Patro/GraphicEngine/Painter/QtPainter.py
index b487b1e..ee6719a 100644
--- a/Patro/GraphicEngine/Painter/QtPainter.py
+++ b/Patro/GraphicEngine/Painter/QtPainter.py
@@ -476,6 +476,7 @@ class QtPainter(Painter):
         # height = font_metrics.height()
         # width = font_metrics.width(item.text)
 
+        self._painter.setPen(QColor('black'))
         self._painter.setFont(qfont)
         self._painter.drawText(position, item.text)
 
-- 
2.43.0


From d0276a8d626b134c314a797ed7dc6db3686bc7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:03 +0000
Subject: [PATCH 132/156] fix: viewport fitted to a scene without size

---
 Patro/GraphicEngine/Painter/QtPainter.py | 31 ++++++++++++++++++------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/QtPainter.py b/Patro/GraphicEngine/Painter/QtPainter.py
index ee6719a..8ca6793 100644
--- a/Patro/GraphicEngine/Painter/QtPainter.py
+++ b/Patro/GraphicEngine/Painter/QtPainter.py
@@ -534,7 +534,11 @@ class ViewportArea:
         # self._height = geometry.height()
         self._viewport_size = self._to_np_array(geometry.width(), geometry.height())
         if self:
-            self._update_viewport_area()
+            if self._center is None:
+                # the scene was set before the viewport had a size
+                self.fit_scene()
+            else:
+                self._update_viewport_area()
 
     ##############################################
 
@@ -544,9 +548,12 @@ class ViewportArea:
 
     @scene.setter
     def scene(self, value):
-        if not isinstance(value, GraphicScene):
+        if not (value is None or isinstance(value, GraphicScene)):
             raise ValueError
         self._scene = value
+        if value is None:
+            self._center = None
+            self._area = None
 
     @property
     def scene_area(self):
@@ -610,9 +617,14 @@ class ViewportArea:
         # scale [px/mm]
         # Add 2% to scene for margin
         margin_scale = 1 + 2 / 100
-        axis_scale = self._viewport_size / (self._to_np_array(self.scene_area.size) * margin_scale)
+        size = self._to_np_array(self.scene_area.size) * margin_scale
+        with np.errstate(divide='ignore'):
+            axis_scale = self._viewport_size / size
         axis = axis_scale.argmin()
         scale = axis_scale[axis]
+        if not np.isfinite(scale):
+            # scene is a point
+            scale = self._scale
 
         return scale, axis
 
@@ -627,10 +639,15 @@ class ViewportArea:
 
     def fit_scene(self):
 
-        # Fixme: AttributeError: 'NoneType' object has no attribute 'center'
-        if self:
-            center = self._to_np_array(self.scene_area.center)
-            scale, axis = self._compute_scale_to_fit_scene()
+        # Scale is undefined as long as the viewport is empty
+        if self and self._viewport_size is not None and self._viewport_size.all():
+            if self.scene_area is not None:
+                center = self._to_np_array(self.scene_area.center)
+                scale, axis = self._compute_scale_to_fit_scene()
+            else:
+                # bounding box of the scene is undefined
+                center = self._to_np_array(0, 0)
+                scale = self._scale
             self.zoom_at(center, scale)
 
     ##############################################
-- 
2.43.0


From 9903b904048e55a583d4eeac57e71a9f135c1546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:57 +0000
Subject: [PATCH 133/156] fix: crash of the SVG export of Qt painter

---
 Patro/GraphicEngine/Painter/QtPainter.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/QtPainter.py b/Patro/GraphicEngine/Painter/QtPainter.py
index 8ca6793..5a7770b 100644
--- a/Patro/GraphicEngine/Painter/QtPainter.py
+++ b/Patro/GraphicEngine/Painter/QtPainter.py
@@ -151,8 +151,11 @@ class QtPainter(Painter):
 
         painter = QPainter()
         painter.begin(generator)
-        self.paint(painter)
-        painter.end()
+        try:
+            self.paint(painter)
+        finally:
+            # else Qt aborts when the generator is destroyed
+            painter.end()
 
         self._scale = None
 
-- 
2.43.0


From 433ef6b3b553d50d08c4adcd9c84744ba07be6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:51 +0000
Subject: [PATCH 134/156] fix: grid of a transformed scene in Qt painter

---
 Patro/GraphicEngine/Painter/QtPainter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/QtPainter.py b/Patro/GraphicEngine/Painter/QtPainter.py
index 5a7770b..a794a8e 100644
--- a/Patro/GraphicEngine/Painter/QtPainter.py
+++ b/Patro/GraphicEngine/Painter/QtPainter.py
@@ -299,8 +299,9 @@ class QtPainter(Painter):
                 else:
                     p0 = Vector2D(yinf, x)
                     p1 = Vector2D(ysup, x)
-                p0 = self.cast_position(p0)
-                p1 = self.cast_position(p1)
+                # the grid is not transformed
+                p0 = self.scene_to_viewport(p0)
+                p1 = self.scene_to_viewport(p1)
                 self._painter.drawLine(p0, p1)
 
     ##############################################
-- 
2.43.0


From 73146b72bbd7167320b2dd16ce77843388d0c6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:45 +0000
Subject: [PATCH 135/156] fix: arrow heads with one side

---
 Patro/GeometryEngine/Shape/ArrowHead.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Shape/ArrowHead.py b/Patro/GeometryEngine/Shape/ArrowHead.py
index 56b2783..0955a0f 100644
--- a/Patro/GeometryEngine/Shape/ArrowHead.py
+++ b/Patro/GeometryEngine/Shape/ArrowHead.py
@@ -98,8 +98,8 @@ class TriangularHeadMixin(ArrowHead):
         self._right_side = bool(right_side)
 
         # Fixme: check length width ???
-        if not(self._left_side and self._right_side):
-            return ValueError('Any side')
+        if not(self._left_side or self._right_side):
+            raise ValueError('Any side')
 
         self._back_tip_point = None
 
-- 
2.43.0


From db75ce8cbc80a43152e521e17eb8dccf79698dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:47 +0000
Subject: [PATCH 136/156] fix: arrow heads with an axial offset

---
 Patro/GeometryEngine/Shape/ArrowHead.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Shape/ArrowHead.py b/Patro/GeometryEngine/Shape/ArrowHead.py
index 0955a0f..0c875f9 100644
--- a/Patro/GeometryEngine/Shape/ArrowHead.py
+++ b/Patro/GeometryEngine/Shape/ArrowHead.py
@@ -160,7 +160,7 @@ class TriangularHeadMixin(ArrowHead):
 
     @property
     def offseted_back_tip_point(self):
-        return self.back_tip_point - self._direction * self._self._axial_offset
+        return self.back_tip_point - self._direction * self._axial_offset
 
     @property
     def left_point(self):
-- 
2.43.0


From dcf4d287b58188b075a5df944c71ff8baca99e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:49 +0000
Subject: [PATCH 137/156] fix: right side of curvy arrow heads

---
 Patro/GeometryEngine/Shape/ArrowHead.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Shape/ArrowHead.py b/Patro/GeometryEngine/Shape/ArrowHead.py
index 0c875f9..286f846 100644
--- a/Patro/GeometryEngine/Shape/ArrowHead.py
+++ b/Patro/GeometryEngine/Shape/ArrowHead.py
@@ -270,7 +270,7 @@ class TriangularCurvyHead(TriangularHeadMixin, Path2D):
     def right_curved_point(self):
         if self._right_side:
             direction = self.right_point - self.tip_point
-            return (self.right_point + self.tip_point) / 2 - direction.normal * self._curve_depth
+            return (self.right_point + self.tip_point) / 2 + direction.normal * self._curve_depth
         else:
             return None
 
-- 
2.43.0


From b76096b0c6f175f8927eef37cbf18dd2d76a40ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:26 +0000
Subject: [PATCH 138/156] fix: read the fiber database under the names used by
 its data file

---
 Patro/TextileTechnology/Fiber.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/Patro/TextileTechnology/Fiber.py b/Patro/TextileTechnology/Fiber.py
index df32aec..2a7ff84 100644
--- a/Patro/TextileTechnology/Fiber.py
+++ b/Patro/TextileTechnology/Fiber.py
@@ -47,8 +47,8 @@ class Fiber:
 
         self._name = str(name)
         self._fiber_type = FiberType(fiber_type)
-        self._source_type = str(source_type)
-        self._source = str(source)
+        self._source_type = FiberType(source_type) if source_type is not None else None
+        self._source = str(source) if source is not None else None
 
     ##############################################
 
@@ -80,12 +80,13 @@ class FiberDatabase(Database):
 
         data = super().load(yaml_path)
 
-        natural_fibers = data['Natural Fibers']
-        for name, item in natural_fibers['Plant Fibers'].items():
+        natural_fibers = data['Natural Fibres']
+        for name, item in natural_fibers['Plant Fibres'].items():
             self.add(Fiber(name, FiberType.Natural, FiberType.Plant, item['source']))
-        for name, item in natural_fibers['Animal Fibers'].items():
+        for name, item in natural_fibers['Animal Fibres'].items():
             self.add(Fiber(name, FiberType.Natural, FiberType.Animal, item['source']))
 
-        synthetic_fibers = data['Synthetic Fibers']
+        synthetic_fibers = data['Synthetic Fibres']
         for name, item in synthetic_fibers.items():
-            self.add(Fiber(name, FiberType.Synthetic, None, None))
+            source = item.get('source', None) if item is not None else None
+            self.add(Fiber(name, FiberType.Synthetic, None, source))
-- 
2.43.0


From 98e90f89107918abc46305386688c4b78a018b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:27 +0000
Subject: [PATCH 139/156] fix: register the stitch types read from the stitch
 database

---
 Patro/TextileTechnology/StitchType.py | 30 +++++++++++++++++++--------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/Patro/TextileTechnology/StitchType.py b/Patro/TextileTechnology/StitchType.py
index 3a961cd..a054ab2 100644
--- a/Patro/TextileTechnology/StitchType.py
+++ b/Patro/TextileTechnology/StitchType.py
@@ -46,14 +46,21 @@ class StitchType:
         self._number = int(number) # cf. ISO 4915:1991
         self._name = str(name)
 
-        self._number_of_needles = int(number_of_needles)
-        self._number_of_threads = int(number_of_threads)
-        self._number_of_loops = int(number_of_loops) # looper
+        # None when the number is unknown
+        self._number_of_needles = self._to_int(number_of_needles)
+        self._number_of_threads = self._to_int(number_of_threads)
+        self._number_of_loops = self._to_int(number_of_loops) # looper
 
         # a 3D model and SVG projection, with a color per thread
 
     ##############################################
 
+    @staticmethod
+    def _to_int(value):
+        return int(value) if value is not None else None
+
+    ##############################################
+
     @property
     def number(self):
         return self._number
@@ -82,21 +89,26 @@ class StitchDatabase(Database):
 
     ##############################################
 
+    def add(self, obj):
+        # a name is not unique, e.g. 104 and 306 are both a Blindstitch
+        if obj.number not in self._items:
+            self._items[obj.number] = obj
+
+    ##############################################
+
     def load(self, yaml_path=None):
 
         data = super().load(yaml_path)
 
-        self._introduction = data['introduction']
-        classes =  data['classes']
+        self._introduction = data['Introduction']
+        classes =  data['Classes']
 
         for classe_name, stitch_classe in classes.items():
-            name = stitch_classe['name']
-            description = stitch_classe['description']
             for stitch_number, stitch_data in stitch_classe['stitches'].items():
                 if stitch_data is not None:
                     name = stitch_data['name']
                     number_of_needles = stitch_data.get('number_of_needles', None)
                     number_of_threads = stitch_data.get('number_of_threads', None)
                     number_of_loops = stitch_data.get('number_of_loops', None)
-                    composition = stitch_data.get('composition', None)
-                    astm = stitch_data.get('astm', None)
+                    # Fixme: composition, astm
+                    self.add(StitchType(stitch_number, name, number_of_needles, number_of_threads, number_of_loops))
-- 
2.43.0


From 94566b36ff5e747e593ab817a64fed52b41295c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:29 +0000
Subject: [PATCH 140/156] fix: format the name of a seam

---
 Patro/TextileTechnology/Seam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/TextileTechnology/Seam.py b/Patro/TextileTechnology/Seam.py
index 76585aa..dbcdb62 100644
--- a/Patro/TextileTechnology/Seam.py
+++ b/Patro/TextileTechnology/Seam.py
@@ -52,4 +52,4 @@ class AstmSeam:
 
     @property
     def name(self):
-        return '{self._class}{self._type}-{self._number_of_rows}'.format(self)
+        return '{0._class}{0._type}-{0._number_of_rows}'.format(self)
-- 
2.43.0


From e9c3dfa8273d082faa325956dff8603ac0d249e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:30 +0000
Subject: [PATCH 141/156] fix: accept the shrinkage of a fabric

---
 Patro/TextileTechnology/Fabric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/TextileTechnology/Fabric.py b/Patro/TextileTechnology/Fabric.py
index 9f6926a..4fab543 100644
--- a/Patro/TextileTechnology/Fabric.py
+++ b/Patro/TextileTechnology/Fabric.py
@@ -100,7 +100,7 @@ class Fabric:
         self._shear = float(kwargs['shear'])
         self._fiction = float(kwargs['friction'])
         self._weight = float(kwargs['weight'])
-        self._shrinkage = FloatPair(kwargs.get('shrinkage', (0, 0)))
+        self._shrinkage = FloatPair(*kwargs.get('shrinkage', (0, 0)))
         self._pressure = float(kwargs['pressure'])
 
         # texture attributes
-- 
2.43.0


From d91994b99b57b2c6a0fe4e2c1053b4f1e79749f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:42 +0000
Subject: [PATCH 142/156] fix: return the size of a needle

---
 Patro/TextileTechnology/SewingMachine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/TextileTechnology/SewingMachine.py b/Patro/TextileTechnology/SewingMachine.py
index 0f1ff8d..ea4d51b 100644
--- a/Patro/TextileTechnology/SewingMachine.py
+++ b/Patro/TextileTechnology/SewingMachine.py
@@ -138,7 +138,7 @@ class Needle:
 
     @property
     def size(self):
-        return self._size
+        return self._nm_size
 
     @property
     def multiplicity(self):
-- 
2.43.0


From 7bd15a8568edeb5999ed318605b3e850ef360614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:53 +0000
Subject: [PATCH 143/156] fix: make the attributes of a sewing machine optional

---
 Patro/TextileTechnology/SewingMachine.py | 29 ++++++++++++++----------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/Patro/TextileTechnology/SewingMachine.py b/Patro/TextileTechnology/SewingMachine.py
index ea4d51b..c2f916a 100644
--- a/Patro/TextileTechnology/SewingMachine.py
+++ b/Patro/TextileTechnology/SewingMachine.py
@@ -50,26 +50,31 @@ class SewingMachine:
 
     def __init__(self, **kwargs):
 
-        self._name = str(kwargs.get('name', None))
-        self._description = str(kwargs.get('description', None))
+        # attributes are optional
+        def get(name, cls):
+            value = kwargs.get(name, None)
+            return cls(value) if value is not None else None
 
-        self._stitche_types = list(kwargs.get('sitche_types', None)) # StitchType
-        self._number_of_needles = int(kwargs.get('number_of_needles', None))
-        self._number_of_loopers = int(kwargs.get('number_of_loopers', None))
+        self._name = get('name', str)
+        self._description = get('description', str)
 
-        self._max_sewing_speed = float(kwargs.get('max_sewing_speed', None)) # [stitch/min]
+        self._stitche_types = get('stitch_types', list) # StitchType
+        self._number_of_needles = get('number_of_needles', int)
+        self._number_of_loopers = get('number_of_loopers', int)
 
-        self._stitch_length = kwargs.get('sitch_length', None) # Fixme: range [mm]
-        self._stitch_width = kwargs.get('sitch_width', None) # Fixme: range [mm]
+        self._max_sewing_speed = get('max_sewing_speed', float) # [stitch/min]
 
-        self._feed_system = str(kwargs.get('feed_system', None))
+        self._stitch_length = kwargs.get('stitch_length', None) # Fixme: range [mm]
+        self._stitch_width = kwargs.get('stitch_width', None) # Fixme: range [mm]
+
+        self._feed_system = get('feed_system', str)
         # Gathering 1:x , Stretching 1:y
         self._differential_feed_ratio = kwargs.get('differential_feed_ratio', None)
 
-        self._needle_gauge = float(kwargs.get('needle_gauge', None)) # [mm]
-        self._needle_system = str(kwargs.get('needle_system', None))
+        self._needle_gauge = get('needle_gauge', float) # [mm]
+        self._needle_system = get('needle_system', str)
 
-        self._overedging_width = float(kwargs.get('overedging_width', None)) # [mm]
+        self._overedging_width = get('overedging_width', float) # [mm]
 
     ##############################################
 
-- 
2.43.0


From 02fa2afb06f455eaa6adb1611319af813229cdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:11 +0000
Subject: [PATCH 144/156] fix: quote correctly an entry of the French
 dictionary

---
 Patro/TextileTechnology/data/french-dictionary.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/TextileTechnology/data/french-dictionary.yaml b/Patro/TextileTechnology/data/french-dictionary.yaml
index caf775d..023e1ee 100644
--- a/Patro/TextileTechnology/data/french-dictionary.yaml
+++ b/Patro/TextileTechnology/data/french-dictionary.yaml
@@ -52,7 +52,7 @@ B:
 C:
   calico: calicot
   casing: coulisse
-  catch stitch: 'point d'ourlet'
+  catch stitch: point d'ourlet
   center back: milieu dos
   center front: milieu devant
   chain stitch: point de chaînette
-- 
2.43.0


From 5b0b4e8107fc9ed1dd47d8e6c92663deba5eb794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:02 +0000
Subject: [PATCH 145/156] fix: copy the domain of a cloned arc

---
 Patro/GeometryEngine/Conic.py | 5 +++--
 Patro/GeometryEngine/Mixin.py | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index 7244c04..1284edd 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -135,7 +135,8 @@ class Circle2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
     ##############################################
 
     def clone(self):
-        return self.__class__(self._center, self._radius, self._domain)
+        domain = self._domain.clone() if self._domain is not None else None
+        return self.__class__(self._center, self._radius, domain)
 
     ##############################################
 
@@ -462,7 +463,7 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
             self._center,
             self._radius_x, self._radius_y,
             self._angle,
-            self._domain,
+            self._domain.clone() if self._domain is not None else None,
         )
 
     ##############################################
diff --git a/Patro/GeometryEngine/Mixin.py b/Patro/GeometryEngine/Mixin.py
index 865e8d9..c49a9a7 100644
--- a/Patro/GeometryEngine/Mixin.py
+++ b/Patro/GeometryEngine/Mixin.py
@@ -57,7 +57,7 @@ class AngularDomain:
 
     ##############################################
 
-    def __clone__(self):
+    def clone(self):
         return self.__class__(self._start, self._stop)
 
     ##############################################
-- 
2.43.0


From fa7c05e887ce1e3aa3d0cab63f87bb5043273185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:04 +0000
Subject: [PATCH 146/156] fix: transform the angle and the domain of conics

---
 Patro/GeometryEngine/Conic.py | 38 +++++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index 1284edd..65a07bf 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -141,10 +141,20 @@ class Circle2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
     ##############################################
 
     def apply_transformation(self, transformation):
-        self._center = transformation * self._center
         # Fixme: shear -> ellipse
+        (a, b), (c, d) = transformation.array[:2,:2]
+        scale = math.hypot(a, c)
+        orientation = -1 if a*d - b*c < 0 else 1
+        if max(abs(a - orientation*d), abs(b + orientation*c)) > 1e-9*scale:
+            raise ValueError('Transformation is sheared')
+        self._center = transformation * self._center
         if self._radius is not None:
-            self._radius = transformation * self._radius
+            self._radius *= scale
+        if self._domain is not None:
+            angle = math.degrees(math.atan2(c, a))
+            angles = [angle + orientation*x for x in (self._domain.start, self._domain.stop)]
+            # the domain is counterclockwise
+            self._domain = AngularDomain(*angles[::orientation])
 
     ##############################################
 
@@ -469,9 +479,29 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
     ##############################################
 
     def apply_transformation(self, transformation):
+        # The image of the unit circle by M = U S Vt, where U is a rotation, is an ellipse of angle U and radii S
+        angle = radians(self._angle)
+        rotation = np.array(((cos(angle), -sin(angle)), (sin(angle), cos(angle))))
+        matrix = np.matmul(transformation.array[:2,:2], rotation) * (self._radius_x, self._radius_y)
+        U, S, Vt = np.linalg.svd(matrix)
+        if abs(Vt[0,0]) < abs(Vt[1,0]):
+            # keep the order of the axes
+            U, S, Vt = U[:,::-1], S[::-1], Vt[::-1]
+        signs = np.array((1, 1))
+        if Vt[0,0] < 0:
+            signs[0] = -1
+        if np.linalg.det(U)*signs[0] < 0:
+            signs[1] = -1
+        U = U * signs
+        Vt = Vt * signs[:,np.newaxis]
+
         self._center = transformation * self._center
-        self._radius_x = transformation * self._radius_x
-        self._radius_y = transformation * self._radius_y
+        self._radius_x, self._radius_y = [float(x) for x in S]
+        self._angle = math.degrees(math.atan2(U[1,0], U[0,0]))
+        if self._domain is not None:
+            offset = math.degrees(math.atan2(Vt[1,0], Vt[0,0]))
+            orientation = -1 if np.linalg.det(Vt) < 0 else 1
+            self._domain = AngularDomain(*[offset + orientation*x for x in (self._domain.start, self._domain.stop)])
 
     ##############################################
 
-- 
2.43.0


From 2823a8eeafcd044e02dce1766910fa34873097d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:52 +0000
Subject: [PATCH 147/156] fix: search a file in one directory given as a string

---
 Patro/Common/Path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/Common/Path.py b/Patro/Common/Path.py
index 0ddcf5b..d14ce92 100644
--- a/Patro/Common/Path.py
+++ b/Patro/Common/Path.py
@@ -39,7 +39,7 @@ def parent_directory_of(file_name, step=1):
 ####################################################################################################
 
 def find(file_name, directories):
-    if isinstance(directories, bytes):
+    if isinstance(directories, (str, bytes, os.PathLike)):
         directories = (directories,)
     for directory in directories:
         for directory_path, sub_directories, file_names in os.walk(directory):
-- 
2.43.0


From db5bed91df99a0c9297bd0f556f6cc5d9592a51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:54 +0000
Subject: [PATCH 148/156] fix: convert to a string an object without name

---
 Patro/Common/Object.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/Common/Object.py b/Patro/Common/Object.py
index 0502548..1d348d6 100644
--- a/Patro/Common/Object.py
+++ b/Patro/Common/Object.py
@@ -56,7 +56,7 @@ class ObjectNameMixin:
     ##############################################
 
     def __str__(self):
-        return self._name
+        return str(self._name)
 
 ####################################################################################################
 
-- 
2.43.0


From 7d1087172ee8a54cf172e1ce98486891eef881cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:56 +0000
Subject: [PATCH 149/156] fix: tell an oblique triangle by the absence of a
 right angle

---
 Patro/GeometryEngine/Triangle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Triangle.py b/Patro/GeometryEngine/Triangle.py
index 84fa5a9..c5e9c57 100644
--- a/Patro/GeometryEngine/Triangle.py
+++ b/Patro/GeometryEngine/Triangle.py
@@ -247,7 +247,7 @@ class Triangle2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PolygonMixin
 
     @property
     def is_oblique(self):
-        return not self.is_equilateral
+        return self.is_obtuse or self.is_acute
 
     ##############################################
 
-- 
2.43.0


From fccde6789f3f4a48f203152423da0b4a65710a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:22 +0000
Subject: [PATCH 150/156] fix: transform the centre, radius and angle of
 regular polygons

---
 Patro/GeometryEngine/Polygon.py | 36 ++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Polygon.py b/Patro/GeometryEngine/Polygon.py
index 77e6748..25232e3 100644
--- a/Patro/GeometryEngine/Polygon.py
+++ b/Patro/GeometryEngine/Polygon.py
@@ -648,7 +648,41 @@ class RegularPolygon(Polygon2D):
     ##############################################
 
     def clone(self):
-        return self.__class__(self._center, self._radius, self._number_of_edges, self._angle)
+        obj = self.__class__(self._center, self._radius, self._number_of_edges, self._angle)
+        # a reflection reverses the vertices
+        obj._set_points([point.clone() for point in self._points])
+        return obj
+
+    ##############################################
+
+    def reverse(self):
+        obj = self.clone()
+        obj._set_points([point.clone() for point in self.reversed_points])
+        obj._update_angle()
+        return obj
+
+    ##############################################
+
+    def apply_transformation(self, transformation):
+        circumcircle = self.circumcircle
+        circumcircle.apply_transformation(transformation) # raise ValueError if the transformation is sheared
+        super().apply_transformation(transformation)
+        self._center = circumcircle.center
+        self._radius = circumcircle.radius
+        self._update_angle()
+
+    ##############################################
+
+    def recenter(self):
+        super().recenter()
+        self._center = Vector2D(0, 0)
+
+    ##############################################
+
+    def _update_angle(self):
+        """Set the angle from the first vertex"""
+        if self._radius != 0:
+            self._angle = ((self._points[0] - self._center) / self._radius).orientation
 
     ##############################################
 
-- 
2.43.0


From 0fa7ad0bc27d5fb81dd5377b8feff122daac7177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:52 +0000
Subject: [PATCH 151/156] fix: keep the names of three letters of TeX documents

---
 Patro/GraphicEngine/TeX/Document.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/TeX/Document.py b/Patro/GraphicEngine/TeX/Document.py
index 0fea10a..6b43902 100644
--- a/Patro/GraphicEngine/TeX/Document.py
+++ b/Patro/GraphicEngine/TeX/Document.py
@@ -42,7 +42,7 @@ class Document:
 
         # Fixme: Path, vs path
 
-        if (len(filename) - filename.rfind('.tex')) == 4:
+        if filename.endswith('.tex'):
             filename = filename[:-4]
 
         self._filename = filename
-- 
2.43.0


From 081386a72d9dc65ca06abc6c447db12799b6041b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:53 +0000
Subject: [PATCH 152/156] fix: keep the weight of homogeneous coordinates

---
 Patro/GeometryEngine/Transformation.py |  2 +-
 Patro/GeometryEngine/Vector.py         | 16 +++++++++++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/Patro/GeometryEngine/Transformation.py b/Patro/GeometryEngine/Transformation.py
index abb8efc..e941823 100644
--- a/Patro/GeometryEngine/Transformation.py
+++ b/Patro/GeometryEngine/Transformation.py
@@ -425,7 +425,7 @@ class AffineTransformation2D(AffineTransformation):
 
         if isinstance(obj, HomogeneousVector2D):
             array = np.matmul(self._m, obj.v)
-            return obj.__class__(array)
+            return obj.__class__(array[:2], array[2])
         elif isinstance(obj, Vector2D):
             array = np.matmul(self._m, HomogeneousVector2D(obj).v)
             # return HomogeneousVector2D(array).to_vector()
diff --git a/Patro/GeometryEngine/Vector.py b/Patro/GeometryEngine/Vector.py
index 92ddb88..a1dbe42 100644
--- a/Patro/GeometryEngine/Vector.py
+++ b/Patro/GeometryEngine/Vector.py
@@ -616,11 +616,17 @@ class HomogeneousVector2D(Vector2D):
 
     ##############################################
 
-    def __init__(self, vector) -> None:
+    def __init__(self, vector, w: float=1) -> None:
         # self._v = np.ones((3), dtype=self.__data_type__)
         # self._v[:2] = vector.v[:2]
         self._v = np.array(vector[:2])   # to keep compatibility
-        self._w = 1
+        self._w = w
+
+    ##############################################
+
+    def clone(self) -> 'HomogeneousVector2D':
+        """ Return a copy of self """
+        return self.__class__(self._v, self._w)
 
     ##############################################
 
@@ -643,4 +649,8 @@ class HomogeneousVector2D(Vector2D):
     ##############################################
 
     def to_vector(self) -> 'Vector2D':
-        return Vector2D(self._v)
+        """Return the vector of these coordinates, a null weight is for a direction"""
+        if self._w in (0, 1):
+            return Vector2D(self._v)
+        else:
+            return Vector2D(self._v / self._w)
-- 
2.43.0


From 8085196a37e07492c41c55d52e824174e32fb2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:31 +0000
Subject: [PATCH 153/156] fix: outline of a rectangle with two corner radii

---
 Patro/FileFormat/Svg/SvgFormat.py | 40 +++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/Patro/FileFormat/Svg/SvgFormat.py b/Patro/FileFormat/Svg/SvgFormat.py
index ff06e3b..bfedbfc 100644
--- a/Patro/FileFormat/Svg/SvgFormat.py
+++ b/Patro/FileFormat/Svg/SvgFormat.py
@@ -1277,23 +1277,37 @@ class Rect(PositionMixin, RadiusMixin, SizeMixin, PathMixin, SvgElementMixin, Xm
         width = float(self.width)
         height = float(self.height)
 
-        # Fixme: which one ???
-        radius_x = self.rx
-        radius_y = self.ry
         # a radius defaults to the other one
-        radius = radius_x if radius_y is None else radius_y
-        if radius is not None:
-            radius = min(radius, width/2, height/2)
-        if not radius:
-            radius = None
+        radius_x = self.ry if self.rx is None else self.rx
+        radius_y = self.rx if self.ry is None else self.ry
+        if radius_x and radius_y:
+            radius_x = min(radius_x, width/2)
+            radius_y = min(radius_y, height/2)
+        else:
+            radius_x = radius_y = None
 
         # position defaults to the origin
-        point = Vector2D(self.x or 0, self.y or 0)
-        path = Path2D(point)
+        x, y = self.x or 0, self.y or 0
+
+        if radius_x != radius_y:
+            # elliptical corners
+            path = Path2D(Vector2D(x + radius_x, y))
+            for dx, dy, side in (
+                    (radius_x, radius_y, (width - 2*radius_x, 0)),
+                    (-radius_x, radius_y, (0, height - 2*radius_y)),
+                    (-radius_x, -radius_y, (2*radius_x - width, 0)),
+                    (radius_x, -radius_y, (0, 2*radius_y - height)),
+            ):
+                path.line_to(Vector2D(side))
+                path.arc_to(Vector2D(dx, dy), radius_x, radius_y, 0, False, True)
+            path.close()
+            return path
+
+        path = Path2D(Vector2D(x, y))
         path.horizontal_to(width)
-        path.vertical_to(height, radius=radius)
-        path.horizontal_to(-width, radius=radius)
-        path.close(radius=radius, close_radius=radius)
+        path.vertical_to(height, radius=radius_x)
+        path.horizontal_to(-width, radius=radius_x)
+        path.close(radius=radius_x, close_radius=radius_x)
 
         return path
 
-- 
2.43.0


From 76bcdc61f33868c4b54c5b805ea1a5ebe75891a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:55 +0000
Subject: [PATCH 154/156] fix: draw arcs and rounded corners of paths added as
 one item

---
 Patro/GraphicEngine/GraphicScene/Scene.py | 38 ++++++++++++++++++++---
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/Patro/GraphicEngine/GraphicScene/Scene.py b/Patro/GraphicEngine/GraphicScene/Scene.py
index c4cf4a4..e5b2358 100644
--- a/Patro/GraphicEngine/GraphicScene/Scene.py
+++ b/Patro/GraphicEngine/GraphicScene/Scene.py
@@ -411,21 +411,49 @@ class GraphicSceneScope:
 
         """
 
-        item = self.add_item(GraphicItem.PathItem, path.p0, path_style, user_data)
+        # the path starts at its first corner when it is rounded
+        start_point = path.p0
+        start_segment = path.start_segment if len(path) else None
+        if isinstance(start_segment, Path.LinearSegment) and start_segment.radius is not None:
+            start_point = start_segment.bulge_start_point
+        item = self.add_item(GraphicItem.PathItem, start_point, path_style, user_data)
+
+        def add_arc(ellipse, stop_point) -> None:
+            # Qt only supports cubic
+            if ellipse.domain.is_null:
+                item.line_to(stop_point)
+                return
+            *curves, last_curve = ellipse.to_bezier()
+            for curve in curves:
+                item.cubic_to(*curve.points[1:])
+            item.cubic_to(*last_curve.points[1:3], stop_point)
+
+        def add_bulge(segment) -> None:
+            arc = segment.bulge_geometry
+            start, stop = arc.domain.start, arc.domain.stop
+            if segment.bulge_angle < 0:
+                start, stop = stop, start
+            domain = Conic.AngularDomain(start, stop)
+            add_arc(Conic.Ellipse2D(arc.center, arc.radius, arc.radius, domain=domain), segment.bulge_stop_point)
 
         # cf. add_as_path_segments
         for segment in path:
             if isinstance(segment, Path.LinearSegment):
-                # if segment.radius is not None:
-                #     add_bulge(segment)
-                item.line_to(segment.stop_point)
+                if segment.radius is not None:
+                    add_bulge(segment)
+                item.line_to(segment.points[-1])
             elif isinstance(segment, (Path.QuadraticBezierSegment, Path.StringedQuadtraticBezierSegment)):
                 # points are absolute
                 item.quadratic_to(*segment.points[1:])
             elif isinstance(segment, (Path.CubicBezierSegment, Path.StringedCubicBezierSegment)):
                 item.cubic_to(*segment.points[1:])
             elif isinstance(segment, Path.ArcSegment):
-                pass
+                ellipse = segment.geometry
+                if isinstance(ellipse, Segment.Segment2D):
+                    # a radius is null
+                    item.line_to(segment.stop_point)
+                else:
+                    add_arc(ellipse, segment.stop_point)
 
         if path.is_closed:
             item.close()
-- 
2.43.0


From ee0e29544984432b90a51a7936d449915edc6c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:00:43 +0000
Subject: [PATCH 155/156] fix: test parallelism and orthogonality whatever the
 magnitude of the vectors

---
 Patro/GeometryEngine/Vector.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Vector.py b/Patro/GeometryEngine/Vector.py
index a1dbe42..8286254 100644
--- a/Patro/GeometryEngine/Vector.py
+++ b/Patro/GeometryEngine/Vector.py
@@ -409,11 +409,17 @@ class Vector2DFloatBase(Vector2DBase):
 
     ##############################################
 
+    def _is_null_product(self, product: float, other: 'Vector2DFloatBase') -> bool:
+        """Test if a product with other is null, up to a tolerance on the sine or cosine of the angle"""
+        return abs(product) <= 1e-9 * self.magnitude * other.magnitude
+
+    ##############################################
+
     def is_parallel(self, other: 'Vector2DFloatBase', return_cross: bool=False) -> bool:
         """Self is parallel with other"""
 
         cross = self.cross(other)
-        test = round(cross, 7) == 0
+        test = self._is_null_product(cross, other)
         if return_cross:
             return test, cross
         else:
@@ -423,7 +429,7 @@ class Vector2DFloatBase(Vector2DBase):
 
     def is_orthogonal(self, other: 'Vector2DFloatBase') -> bool:
         """Self is orthogonal with other"""
-        return round(self.dot(other), 7) == 0
+        return self._is_null_product(self.dot(other), other)
 
     ##############################################
 
-- 
2.43.0


From f1170d284849194adf1744b488b838cd990dad88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:22:35 +0000
Subject: [PATCH 156/156] fix: find the repeated roots of polynomials with
 small float coefficients

---
 Patro/Common/Math/Root.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Patro/Common/Math/Root.py b/Patro/Common/Math/Root.py
index 5b15bcf..921ee66 100644
--- a/Patro/Common/Math/Root.py
+++ b/Patro/Common/Math/Root.py
@@ -82,7 +82,9 @@ def real_roots(expression, x):
     expression = sympy.sympify(expression)
     if expression.is_number: # constant polynomial
         return []
-    return [float(i.n()) for i in sympy.real_roots(expression, x)]
+    # floats are exact rationals, a rounding would split or remove repeated roots
+    coefficients = [sympy.Rational(c) for c in sympy.Poly(expression, x).all_coeffs()]
+    return [float(i.n()) for i in sympy.real_roots(sympy.Poly(coefficients, x), x)]
 
 ####################################################################################################
 
-- 
2.43.0

