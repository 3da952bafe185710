From f3a110b434fc8cc903bd92b9a26d85de6cf54760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:04 +0000
Subject: [PATCH 001/177] fix: graphic scene and Valentina measurement modules
 cannot be imported

---
 Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py | 10 +++++-----
 Patro/GraphicEngine/GraphicScene/Scene.py            |  2 +-
 Patro/Measurement/ValentinaMeasurement.py            |  4 ++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py b/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py
index 8aa8053..4bdf175 100644
--- a/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py
+++ b/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py
@@ -40,7 +40,7 @@ __all__ = [
 
 from typing import Any
 
-from Path.GeometryEngine.Vector import Vector2D
+from Patro.GeometryEngine.Vector import Vector2D
 from .GraphicStyle import GraphicPathStyle
 # from .Scene import GraphicScene
 
@@ -59,7 +59,7 @@ class GraphicItem:
 
     ##############################################
 
-    def __init__(self, scene: GraphicScene, user_data: Any) -> None:
+    def __init__(self, scene: 'GraphicScene', user_data: Any) -> None:
         self._scene = scene
         self._user_data = user_data
 
@@ -75,7 +75,7 @@ class GraphicItem:
     ##############################################
 
     @property
-    def scene(self) -> GraphicScene:
+    def scene(self) -> 'GraphicScene':
         return self._scene
 
     @property
@@ -177,7 +177,7 @@ class PathStyleItemMixin(GraphicItem):
 
     ##############################################
 
-    def __init__(self, scene: GraphicScene, path_style: GraphicPathStyle, user_data: Any) -> None:
+    def __init__(self, scene: 'GraphicScene', path_style: GraphicPathStyle, user_data: Any) -> None:
         GraphicItem.__init__(self, scene, user_data)
         self._path_style = path_style
 
@@ -270,7 +270,7 @@ class ThreePositionMixin(TwoPositionMixin):
         return self._position3
 
     @property
-    def positions(self) -> list(Vector2D, Vector2D, Vector2D):
+    def positions(self) -> tuple[Vector2D, Vector2D, Vector2D]:
         return (self._position1, self._position2, self._position3)
 
 ####################################################################################################
diff --git a/Patro/GraphicEngine/GraphicScene/Scene.py b/Patro/GraphicEngine/GraphicScene/Scene.py
index 4e8416d..4426f29 100644
--- a/Patro/GraphicEngine/GraphicScene/Scene.py
+++ b/Patro/GraphicEngine/GraphicScene/Scene.py
@@ -400,7 +400,7 @@ class GraphicSceneScope:
 
         """
 
-        item = self.add_item(GraphicItem.PathItem, path.p0, path_style: GraphicPathStyle, user_data)
+        item = self.add_item(GraphicItem.PathItem, path.p0, path_style, user_data)
 
         # cf. add_as_path_segments
         for segment in path:
diff --git a/Patro/Measurement/ValentinaMeasurement.py b/Patro/Measurement/ValentinaMeasurement.py
index acf406f..4557f3c 100644
--- a/Patro/Measurement/ValentinaMeasurement.py
+++ b/Patro/Measurement/ValentinaMeasurement.py
@@ -22,7 +22,7 @@
 
 import logging
 
-from .Measurement import Measurement, Measurements
+from .Measurement import Measurement, MeasurementSet
 from .ValentinaStandardMeasurement import ValentinaStandardMeasurement
 
 ####################################################################################################
@@ -81,7 +81,7 @@ class ValentinaMeasurement(Measurement):
 
 ####################################################################################################
 
-class ValentinaMeasurements(Measurements):
+class ValentinaMeasurements(MeasurementSet):
 
     """Class to store a set of Valentina measurements"""
 
-- 
2.43.0


From daf89cae4f384afa7c113f25f5a9cb2f3cd5967c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:54 +0000
Subject: [PATCH 002/177] fix: the null vector is not false, so its orientation
 is 90 instead of an error

---
 Patro/GeometryEngine/Vector.py | 2 +-
 Patro/Pattern/Sketch.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Vector.py b/Patro/GeometryEngine/Vector.py
index cfea826..4ae22e4 100644
--- a/Patro/GeometryEngine/Vector.py
+++ b/Patro/GeometryEngine/Vector.py
@@ -146,7 +146,7 @@ class Vector2DBase(Primitive, Primitive2DMixin):
 
     ##############################################
 
-    def __nonzero__(self) -> bool:
+    def __bool__(self) -> bool:
         return bool(self._v.any())
 
     ##############################################
diff --git a/Patro/Pattern/Sketch.py b/Patro/Pattern/Sketch.py
index c0a6d3d..a79fa0e 100644
--- a/Patro/Pattern/Sketch.py
+++ b/Patro/Pattern/Sketch.py
@@ -199,7 +199,7 @@ class Sketch:
                                   style.label_line_style,
                                   user_data=operation,
                     )
-                    scene.text(label_position, operation.name, style.font, user_data=operation)
+                scene.text(label_position, operation.name, style.font, user_data=operation)
 
                 if isinstance(operation, SketchOperation.LinePropertiesMixin):
                     path_style = self._operation_to_path_style(
-- 
2.43.0


From c17f9cdf05dfc6886adac7f396058994431459f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:09 +0000
Subject: [PATCH 003/177] fix: the kind of composed and generic transformations
 is wrong or missing

---
 Patro/GeometryEngine/Transformation.py | 31 ++++++++++++++++++++------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/Patro/GeometryEngine/Transformation.py b/Patro/GeometryEngine/Transformation.py
index 83e4cdb..8287e5d 100644
--- a/Patro/GeometryEngine/Transformation.py
+++ b/Patro/GeometryEngine/Transformation.py
@@ -101,7 +101,7 @@ class Transformation:
             else:
                 raise IncompatibleArrayDimension
         else:
-            array = np.array((self.__size__, self.__size__))
+            array = np.empty((self.__size__, self.__size__))
             array[...] = obj
 
         self._m = np.array(array)
@@ -118,7 +118,7 @@ class Transformation:
 
     @property
     def size(self):
-        return self._size
+        return self.__size__
 
     @property
     def array(self):
@@ -145,7 +145,7 @@ class Transformation:
     ##############################################
 
     def same_dimension(self, other):
-        return self.__size__ == other.dimension
+        return self.__size__ == other.size
 
     ##############################################
 
@@ -272,13 +272,19 @@ class Transformation2D(Transformation):
             elif m00 == m11:
                 return TransformationType.Scale
 
-        # Fixme: check for rotation
+        # a rotation matrix is ((c, -s), (s, c)) with c**2 + s**2 = 1
+        epsilon = 1e-12
+        if (abs(m00 - m11) <= epsilon and
+            abs(m01 + m10) <= epsilon and
+            abs(m00**2 + m10**2 - 1) <= epsilon):
+            return TransformationType.Rotation
+
         return TransformationType.Generic
 
     ##############################################
 
     def _check_type(self):
-        return self._check_matrix_type(self.to_list())
+        return self.check_matrix_type(self.to_list())
 
     ##############################################
 
@@ -370,7 +376,15 @@ class AffineTransformation2D(AffineTransformation):
 
     def _check_type(self):
         matrix_type = Transformation2D.check_matrix_type(self.matrix_part.flat)
-        # Fixme: translation etc. !!!
+        if not self.translation_part.any():
+            return matrix_type
+        elif matrix_type == TransformationType.Identity:
+            return TransformationType.Translation
+        elif matrix_type in (TransformationType.Rotation, TransformationType.Scale):
+            return matrix_type
+        else:
+            # a parity with a translation is not an involution
+            return TransformationType.Generic
 
     ##############################################
 
@@ -385,7 +399,10 @@ class AffineTransformation2D(AffineTransformation):
     ##############################################
 
     @classmethod
-    def Scale(cls, x_scale, y_scale):
+    def Scale(cls, x_scale, y_scale=None):
+
+        if y_scale is None:
+            y_scale = x_scale
 
         # Fixme: others, use *= ? (comment means ???)
 
-- 
2.43.0


From cfe0246a4eee44a88a4c0d60029dabeb8b3c2abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:32 +0000
Subject: [PATCH 004/177] fix: reversing a primitive returns it unchanged,
 iterating from the second point and the point array raise

---
 Patro/GeometryEngine/Primitive.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/Patro/GeometryEngine/Primitive.py b/Patro/GeometryEngine/Primitive.py
index 0ee1117..095b6a9 100644
--- a/Patro/GeometryEngine/Primitive.py
+++ b/Patro/GeometryEngine/Primitive.py
@@ -212,7 +212,7 @@ class PointPrimitive(Primitive):
         # if self._point_array is None:
         #     self._point_array = np.array(list(self.points)).transpose()
         # return self._point_array
-        return np.array(self.points).transpose()
+        return np.array(list(self.points)).transpose()
 
     ##############################################
 
@@ -360,7 +360,7 @@ class ReversiblePrimitiveMixin:
 
     @property
     def is_reversible(self):
-        True
+        return True
 
     ##############################################
 
@@ -432,7 +432,7 @@ class Primitive1P(PointPrimitive, Primitive1PMixin):
 
 ####################################################################################################
 
-class Primitive2P(Primitive1P, ReversiblePrimitiveMixin):
+class Primitive2P(ReversiblePrimitiveMixin, Primitive1P):
 
     """Base class for 2-points primitives."""
 
@@ -479,6 +479,10 @@ class Primitive2P(Primitive1P, ReversiblePrimitiveMixin):
     def reversed_points(self):
         return iter((self._p1, self._p0))
 
+    def iter_from_second_point(self):
+        # Fixme: share code ???
+        return iter((self._p1,))
+
     ##############################################
 
     def _set_points(self, points):
@@ -536,7 +540,7 @@ class Primitive3P(Primitive2P):
 
     def iter_from_second_point(self):
         # Fixme: share code ???
-        return iter(self._p1, self._p2)
+        return iter((self._p1, self._p2))
 
     ##############################################
 
@@ -588,7 +592,7 @@ class Primitive4P(Primitive3P):
         return iter((self._p3, self._p2, self._p1, self._p0))
 
     def iter_from_second_point(self):
-        return iter(self._p1, self._p2, self._p3)
+        return iter((self._p1, self._p2, self._p3))
 
     ##############################################
 
@@ -597,7 +601,7 @@ class Primitive4P(Primitive3P):
 
 ####################################################################################################
 
-class PrimitiveNP(PointPrimitive, ReversiblePrimitiveMixin):
+class PrimitiveNP(ReversiblePrimitiveMixin, PointPrimitive):
 
     """Base class for N-points primitives."""
 
-- 
2.43.0


From 379eaec70ce9bfa2c74306896bf7659bed952a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:32 +0000
Subject: [PATCH 005/177] fix: projection on a line and point on a segment mix
 lengths and abscissae

---
 Patro/GeometryEngine/Line.py    |  7 +++++--
 Patro/GeometryEngine/Segment.py | 13 ++++++++-----
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/Patro/GeometryEngine/Line.py b/Patro/GeometryEngine/Line.py
index c499003..404563a 100644
--- a/Patro/GeometryEngine/Line.py
+++ b/Patro/GeometryEngine/Line.py
@@ -95,13 +95,15 @@ class Line2D(Primitive2DMixin, Primitive):
     ##############################################
 
     def point_at_distance(self, distance: float, point: Vector2D=None) -> Vector2D:
+        if point is None:
+            point = self.p
         return point + self.vn * distance
 
     ##############################################
 
     def compute_distance_between_abscissae(self, s0: float, s1: float) -> float:
         """Compute distance between two abscissae"""
-        return abs(s1 - s0) * self.v.magnitude()
+        return abs(s1 - s0) * self.v.magnitude
 
     ##############################################
 
@@ -206,7 +208,8 @@ class Line2D(Primitive2DMixin, Primitive):
 
         """
         delta = point - self.p
-        s = delta.projection_on(self.v)
+        # abscissa is expressed in unit of v, cf. interpolate
+        s = delta.projection_on(self.v) / self.v.magnitude
         return s
 
     def projected_point(self, point: Vector2D) -> Vector2D:
diff --git a/Patro/GeometryEngine/Segment.py b/Patro/GeometryEngine/Segment.py
index cd2c455..b17f0a5 100644
--- a/Patro/GeometryEngine/Segment.py
+++ b/Patro/GeometryEngine/Segment.py
@@ -210,11 +210,14 @@ class Segment2D(Primitive2DMixin, Primitive2P):
 
     def contain_point(self, point):
 
-        # Fixme: purpose ???
+        """Tests if a point is on the segment."""
+
+        epsilon = 1e-7
 
         line = self.to_line()
+
+        if line.v.magnitude_square == 0:
+            return (self._p0 - point).magnitude <= epsilon
+
         d, s = line.distance_and_abscissa_to_line(point)
-        # Fixme: check d / is collinear
-        # Fixme: p2 <- p1
-        #! print('>'*10, line, point, d, s)
-        return 0 <= s <= 1
+        return abs(d) <= epsilon and -epsilon <= s <= self.length + epsilon
-- 
2.43.0


From 546cb99e70d1e00c2e8023ceac3eb4d6b6f611aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:32 +0000
Subject: [PATCH 006/177] fix: triangle lengths, angles and bisectors raise or
 are wrong

---
 Patro/GeometryEngine/Triangle.py | 33 +++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/Patro/GeometryEngine/Triangle.py b/Patro/GeometryEngine/Triangle.py
index f27acdf..34aae00 100644
--- a/Patro/GeometryEngine/Triangle.py
+++ b/Patro/GeometryEngine/Triangle.py
@@ -121,17 +121,21 @@ class Triangle2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PolygonMixin
 
     ##############################################
 
+    def _bisector_vector(self, p, q, r):
+        # both sides must have the same weight
+        return self.__vector_cls__((q - p).to_normalised() + (r - p).to_normalised())
+
     @property
     def bisector_vector0(self):
-        return (self._p1 - self._p0) + (self._p2 - self._p0)
+        return self._bisector_vector(self._p0, self._p1, self._p2)
 
     @property
     def bisector_vector1(self):
-        return (self._p0 - self._p1) + (self._p2 - self._p1)
+        return self._bisector_vector(self._p1, self._p0, self._p2)
 
     @property
     def bisector_vector2(self):
-        return (self._p1 - self._p2) + (self._p0 - self._p2)
+        return self._bisector_vector(self._p2, self._p1, self._p0)
 
     ##############################################
 
@@ -151,19 +155,22 @@ class Triangle2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PolygonMixin
 
     def _cache_length(self):
 
-        if not hasattr(self._p10):
-            self._p10 = (self._p1 - self._p0).magnitude
-            self._p21 = (self._p2 - self._p1).magnitude
-            self._p02 = (self._p0 - self._p2).magnitude
+        # Note: points can be changed, thus lengths are always computed
+        self._p10 = (self._p1 - self._p0).magnitude
+        self._p21 = (self._p2 - self._p1).magnitude
+        self._p02 = (self._p0 - self._p2).magnitude
 
     ##############################################
 
     def _cache_angle(self):
 
-        if not hasattr(self._a10):
-            self._a10 = (self._p1 - self._p0).orientation
-            self._a21 = (self._p2 - self._p1).orientation
-            self._a02 = (self._p0 - self._p2).orientation
+        # interior angles at p0, p1 and p2
+        v10 = self._p1 - self._p0
+        v21 = self._p2 - self._p1
+        v02 = self._p0 - self._p2
+        self._a0 = abs(v10.angle_with(-v02))
+        self._a1 = abs(v21.angle_with(-v10))
+        self._a2 = abs(v02.angle_with(-v21))
 
     ##############################################
 
@@ -233,7 +240,7 @@ class Triangle2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PolygonMixin
     def is_obtuse(self):
         self._cache_angle()
         # one angle > 90
-        return max(self._a10, self._a21, self._a02) > 90
+        return max(self._a0, self._a1, self._a2) > 90
 
     ##############################################
 
@@ -241,7 +248,7 @@ class Triangle2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PolygonMixin
     def is_acute(self):
         self._cache_angle()
         # all angle < 90
-        return max(self._a10, self._a21, self._a02) < 90
+        return max(self._a0, self._a1, self._a2) < 90
 
     ##############################################
 
-- 
2.43.0


From 1a612715da1905892a11ec56b717d0cc6d232c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:32 +0000
Subject: [PATCH 007/177] fix: rectangle constructors raise and its outline
 loses two corners

---
 Patro/GeometryEngine/Rectangle.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Rectangle.py b/Patro/GeometryEngine/Rectangle.py
index 7f8cbe8..72585cb 100644
--- a/Patro/GeometryEngine/Rectangle.py
+++ b/Patro/GeometryEngine/Rectangle.py
@@ -52,11 +52,11 @@ class Rectangle2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PolygonMixi
     ##############################################
 
     @classmethod
-    def from_point_and_offset(self, p0, v):
+    def from_point_and_offset(cls, p0, v):
         return cls(p0, p0+v)
 
     @classmethod
-    def from_point_and_radius(self, p0, v):
+    def from_point_and_radius(cls, p0, v):
         return cls(p0-v, p0+v)
 
     ##############################################
@@ -75,6 +75,13 @@ class Rectangle2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PolygonMixi
     def p10(self):
         return self.__vector_cls__(self._p1.x, self._p0.y)
 
+    def iter_from_second_point(self):
+        return iter((self.p01, self._p1, self.p10))
+
+    def to_polygon(self):
+        from .Polygon import Polygon2D
+        return Polygon2D(self._p0, self.p01, self._p1, self.p10)
+
     @property
     def edges(self):
 
-- 
2.43.0


From 9474f775b2be226cd3df877d22e2ea46dc456907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:32 +0000
Subject: [PATCH 008/177] fix: polyline length raises and its path is built
 with relative points

---
 Patro/GeometryEngine/Polyline.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Polyline.py b/Patro/GeometryEngine/Polyline.py
index 2d7f110..2549bc8 100644
--- a/Patro/GeometryEngine/Polyline.py
+++ b/Patro/GeometryEngine/Polyline.py
@@ -63,7 +63,7 @@ class Polyline2D(Primitive2DMixin, PrimitiveNP):
 
     @property
     def length(self):
-        return sum([edge.magnitude for edge in self.edges])
+        return sum([edge.length for edge in self.edges])
 
     ##############################################
 
@@ -82,6 +82,6 @@ class Polyline2D(Primitive2DMixin, PrimitiveNP):
 
         path = Path2D(self.start_point)
         for point in self.iter_from_second_point():
-            path.line_to(point)
+            path.line_to(point, absolute=True)
 
         return path
-- 
2.43.0


From 28eb00f7bfd63cd92a7e1ae6dfe0c0a1568fb38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:55 +0000
Subject: [PATCH 009/177] fix: closed points of triangles and rectangles, and
 triangle to polygon raise

---
 Patro/GeometryEngine/Primitive.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Patro/GeometryEngine/Primitive.py b/Patro/GeometryEngine/Primitive.py
index 095b6a9..d67b862 100644
--- a/Patro/GeometryEngine/Primitive.py
+++ b/Patro/GeometryEngine/Primitive.py
@@ -324,14 +324,14 @@ class ClosedPrimitiveMixin:
     def closed_points(self):
         # Fixme: don't work for iterator
         # return closed_iterator(self.points)
-        return closed_iterator(self._points)
+        return closed_iterator(tuple(self.points))
 
     ##############################################
 
     @property
     def closed_pairwise_points(self):
         # return closed_pairwise(self.points)
-        return closed_pairwise(self._points)
+        return closed_pairwise(tuple(self.points))
 
     ##############################################
 
@@ -689,7 +689,7 @@ class PolygonMixin:
 
     def to_polygon(self):
         from .Polygon import Polygon2D
-        return Polygon2D(self.points)
+        return Polygon2D(*self.points)
 
 ####################################################################################################
 
-- 
2.43.0


From 8c9579db7450f8ceb95a023704993dc1ef77d977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:55 +0000
Subject: [PATCH 010/177] fix: polygons and polylines answer from their
 previous points after a transformation, recenter raises

---
 Patro/GeometryEngine/Polygon.py   | 19 ++++++++++++++-----
 Patro/GeometryEngine/Polyline.py  |  5 +++++
 Patro/GeometryEngine/Primitive.py |  7 +++++++
 3 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/Patro/GeometryEngine/Polygon.py b/Patro/GeometryEngine/Polygon.py
index 5bcdfab..67fba02 100644
--- a/Patro/GeometryEngine/Polygon.py
+++ b/Patro/GeometryEngine/Polygon.py
@@ -97,12 +97,21 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
 
         PrimitiveNP.__init__(self, points)
 
+        self._reset_cache()
+        self._is_convex = is_convex
+        self._is_clockwise = is_clockwise
+
+    ##############################################
+
+    def _reset_cache(self):
+
         self._edges = None
         self._is_simple = None
-        self._is_convex = is_convex
+        self._is_convex = None
 
         self._area = None
-        self._is_clockwise = is_clockwise
+        self._barycenter = None
+        self._is_clockwise = None
         # self._cross = None
         # self._barycenter = None
 
@@ -406,9 +415,9 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
         """Recenter the polygon to the barycenter."""
         # if self._centred:
         #     return
-        barycenter = self._barycenter
-        for point in self._points:
-            point -= barycenter
+        barycenter = self.barycenter
+        if barycenter is not None:
+            self._set_points([point - barycenter for point in self._points])
         # self._centred = True
 
     ##############################################
diff --git a/Patro/GeometryEngine/Polyline.py b/Patro/GeometryEngine/Polyline.py
index 2549bc8..c2938c4 100644
--- a/Patro/GeometryEngine/Polyline.py
+++ b/Patro/GeometryEngine/Polyline.py
@@ -46,6 +46,11 @@ class Polyline2D(Primitive2DMixin, PrimitiveNP):
             raise ValueError('Polyline require at least 2 vertexes')
 
         PrimitiveNP.__init__(self, points)
+        self._reset_cache()
+
+    ##############################################
+
+    def _reset_cache(self):
         self._edges = None
 
     ##############################################
diff --git a/Patro/GeometryEngine/Primitive.py b/Patro/GeometryEngine/Primitive.py
index d67b862..d138fc0 100644
--- a/Patro/GeometryEngine/Primitive.py
+++ b/Patro/GeometryEngine/Primitive.py
@@ -656,6 +656,13 @@ class PrimitiveNP(ReversiblePrimitiveMixin, PointPrimitive):
     def _set_points(self, points):
         self._points = points
         self._point_array = None
+        self._reset_cache()
+
+    ##############################################
+
+    def _reset_cache(self):
+        # Note: called when the points changed
+        pass
 
     ##############################################
 
-- 
2.43.0


From f9b18f00f976fbb23204b83d8698cbfefc3ca929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:55 +0000
Subject: [PATCH 011/177] fix: simple and convex tests fail on rounding,
 overlapping edges and collinear vertices

---
 Patro/GeometryEngine/Polygon.py | 47 ++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/Patro/GeometryEngine/Polygon.py b/Patro/GeometryEngine/Polygon.py
index 67fba02..04b8c5d 100644
--- a/Patro/GeometryEngine/Polygon.py
+++ b/Patro/GeometryEngine/Polygon.py
@@ -152,25 +152,21 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
     def _test_is_simple(self):
 
         edges = self.edges # must be a list !!!
-        # intersections = []
+        last_i = len(edges) -1
         # Test for edge intersection
-        for edge1 in edges:
-            for edge2 in edges:
-                if edge1 is not edge2:
-                    # Fixme: recompute line for edge
-                    intersection, intersect = edge1.intersection(edge2)
-                    if intersect:
-                        common_vertex = edge1.share_vertex_with(edge2)
-                        if common_vertex is not None:
-                            if common_vertex == intersection:
-                                continue
-                            else:
-                                # degenerated case where a vertex lie on an edge
-                                return False
-                        else:
-                            # two edge intersect
-                            # intersections.append(intersection)
-                            return False
+        for i, edge1 in enumerate(edges):
+            if edge1.p0 == edge1.p1:
+                return False
+            for j in range(i+1, len(edges)):
+                edge2 = edges[j]
+                if j == i+1 or (i == 0 and j == last_i):
+                    # consecutive edges must only share their common vertex
+                    prev_vector, next_vector = edge1.vector, edge2.vector
+                    if prev_vector.cross(next_vector) == 0 and prev_vector.dot(next_vector) < 0:
+                        return False
+                elif edge1.intersect_with(edge2):
+                    # two edges intersect or a vertex lies on an edge
+                    return False
         return True
 
     ##############################################
@@ -187,10 +183,16 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
         number_of_edges = len(edges)
         # a polygon is convex if all turns from one edge vector to the next have the same sense
         # sign = edges[-1].perp_dot(edges[0])
-        sign0 = sign(edges[-1].cross(edges[0]))
+        sign0 = 0
         for i in range(number_of_edges):
             next_i = (i+1) % number_of_edges
-            if sign(edges[i].cross(edges[next_i])) != sign0:
+            cross = edges[i].cross(edges[next_i])
+            if cross == 0:
+                # collinear edges
+                continue
+            if sign0 == 0:
+                sign0 = sign(cross)
+            elif sign(cross) != sign0:
                 return False
         return True
 
@@ -399,7 +401,10 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
 
     @property
     def is_counterclockwise(self):
-        return not self.is_clockwise
+        is_clockwise = self.is_clockwise
+        if is_clockwise is None:
+            return None
+        return not is_clockwise
 
     ##############################################
 
-- 
2.43.0


From e22b95922c12bea89d75c193665dda2390f58a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:09 +0000
Subject: [PATCH 012/177] fix: testing if a point is inside a polygon raises

---
 Patro/GeometryEngine/Polygon.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/Patro/GeometryEngine/Polygon.py b/Patro/GeometryEngine/Polygon.py
index 04b8c5d..fb57592 100644
--- a/Patro/GeometryEngine/Polygon.py
+++ b/Patro/GeometryEngine/Polygon.py
@@ -469,7 +469,8 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
         for edge in self.edges:
             if ((edge.p0.y <= y < edge.p1.y) or # upward crossing
                 (edge.p1.y <= y < edge.p0.y)):  # downward crossing
-                xi = edge.p0.x + (y - edge.p0.y) / edge.vector.slope
+                vector = edge.vector
+                xi = edge.p0.x + (y - edge.p0.y) * vector.x / vector.y
                 if x < xi:
                     crossing_number += 1
 
@@ -491,14 +492,15 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
         for edge in self.edges:
             if edge.p0.y <= y:
                 if edge.p1.y > y: # upward crossing
-                    if edge.is_left(point):
+                    if edge.left_of(point):
                         winding_number += 1
             else:
                 if edge.p1.y <= y: #  downward crossing
-                    if edge.is_right(point):
+                    if edge.right_of(point):
                         winding_number -= 1
 
-        return winding_number > 0
+        # negative if the polygon is clockwise
+        return winding_number != 0
 
     ##############################################
 
-- 
2.43.0


From 3b030db49c09c544e1d3d5a4fa3cff44e4b95386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:09 +0000
Subject: [PATCH 013/177] fix: convex hull raises on aligned and duplicated
 points and keeps vertices in the middle of an edge

---
 Patro/GeometryEngine/Polygon.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/Patro/GeometryEngine/Polygon.py b/Patro/GeometryEngine/Polygon.py
index fb57592..c8ac2c5 100644
--- a/Patro/GeometryEngine/Polygon.py
+++ b/Patro/GeometryEngine/Polygon.py
@@ -221,10 +221,8 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
 
     def convex_hull(self):
 
-        if self._is_convex:
-            return self
-        else:
-            return convex_hull(self._points)
+        # Note: a convex polygon could be clockwise or have collinear vertexes
+        return convex_hull(self._points)
 
     ##############################################
 
@@ -712,7 +710,10 @@ def sort_point_for_graham_scan(points):
     data = []
     for point in sorted_points[1:]:
         direction = Vector2D(point - p0)
-        data.append((point, direction, direction.orientation, None))
+        if not direction:
+            # duplicate of P0
+            continue
+        data.append([point, direction, direction.orientation, None])
     data.sort(key=itemgetter(2))
 
     # if several points have the same angle then only keep the farther
@@ -778,8 +779,8 @@ def convex_hull(points, as_polygon=True):
     _convex_hull = []
     sorted_points = sort_point_for_graham_scan(points)
     for point in sorted_points:
-        # pop the last point from the stack if we turn clockwise to reach this point
-        while len(_convex_hull) > 1 and is_three_point_cw(_convex_hull[-2], _convex_hull[-1], point):
+        # pop the last point from the stack if we don't turn counter-clockwise to reach this point
+        while len(_convex_hull) > 1 and not is_three_point_ccw(_convex_hull[-2], _convex_hull[-1], point):
             _convex_hull.pop()
         _convex_hull.append(point)
 
-- 
2.43.0


From 199d4fca351520d47b49ab98aa461665888bed92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:09 +0000
Subject: [PATCH 014/177] fix: regular polygon name, clone and reverse raise

---
 Patro/GeometryEngine/Polygon.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Polygon.py b/Patro/GeometryEngine/Polygon.py
index c8ac2c5..ea50876 100644
--- a/Patro/GeometryEngine/Polygon.py
+++ b/Patro/GeometryEngine/Polygon.py
@@ -633,6 +633,15 @@ class RegularPolygon(Polygon2D):
 
     ##############################################
 
+    def clone(self):
+        # the constructor doesn't take points
+        return Polygon2D(*self.points)
+
+    def reverse(self):
+        return Polygon2D(*self.reversed_points)
+
+    ##############################################
+
     @property
     def center(self):
         return self._center
@@ -658,9 +667,9 @@ class RegularPolygon(Polygon2D):
     @classmethod
     def ngon_name(cls, number_of_edges):
         try:
-            return self.NGON_NAMES[number_of_edges]
+            return cls.NGON_NAMES[number_of_edges -1]
         except IndexError:
-            return self.LARGE_NGON_NAMES.get(number_of_edges, None)
+            return cls.LARGE_NGON_NAMES.get(number_of_edges, None)
 
     @property
     def str_name(self):
-- 
2.43.0


From 108b8a0d4254740969d201b3e4a023ac03f6ded2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:07 +0000
Subject: [PATCH 015/177] fix: root finders return inconsistent types, raise on
 constants, and a broken copy shadows cubic_root_normalised

---
 Patro/Common/Math/Root.py | 48 +++++++++------------------------------
 1 file changed, 11 insertions(+), 37 deletions(-)

diff --git a/Patro/Common/Math/Root.py b/Patro/Common/Math/Root.py
index 8aab8ec..2a65b75 100644
--- a/Patro/Common/Math/Root.py
+++ b/Patro/Common/Math/Root.py
@@ -32,30 +32,30 @@ __all__ = [
 
 ####################################################################################################
 
-from math import acos, cos, pi, sqrt
+from math import sqrt
 
 try:
     import sympy
 except ImportError:
     sympy = None
 
-from .Functions import sign
-
 ####################################################################################################
 
 def quadratic_root(a, b, c):
 
     # https://en.wikipedia.org/wiki/Quadratic_equation
 
+    # Return the tuple of the real roots
+
     if a == 0 and b == 0:
-        return None
+        return ()
     if a == 0:
-        return - c / b
+        return (- c / b,)
 
     D = b**2 - 4*a*c
 
     if D < 0:
-        return None # not real
+        return () # not real
 
     b = -b
     s = 1 / (2*a)
@@ -65,7 +65,7 @@ def quadratic_root(a, b, c):
         r2 = (b + sqrt(D)) * s
         return r1, r2
     else:
-        return b * s
+        return (b * s,)
 
 ####################################################################################################
 
@@ -82,7 +82,10 @@ def x_symbol():
     return sympy.Symbol('x', real=True)
 
 def real_roots(expression, x):
-    return [i.n() for i in sympy.real_roots(expression, x)]
+    if not expression.has(x):
+        # constant polynomial
+        return []
+    return [float(i.n()) for i in sympy.real_roots(expression, x)]
 
 ####################################################################################################
 
@@ -131,35 +134,6 @@ def fifth_root(*args):
 
 ####################################################################################################
 
-def cubic_root_normalised(a, b, c):
-
-    # Reference: ???
-    # converted from haskell http://hackage.haskell.org/package/cubicbezier-0.6.0.5
-
-    q = (a**2 - 3*b) / 9
-    q3 = q**3
-    m2sqrtQ = -2 * sqrt(q)
-    r = (2*a**3 - 9*a*b + 27*c) / 54
-    r2 = r**2
-    d = - sign(r)*((abs(r) + sqrt(r2-q3))**1/3) # Fixme: sqrt ??
-
-    if d == 0:
-        e = 0
-    else:
-        e = q/d
-
-    if r2 < q3:
-        t = acos(r/sqrt(q3))
-        return [
-            m2sqrtQ * cos(t/3)          - a/3,
-            m2sqrtQ * cos((t + 2*pi)/3) - a/3,
-            m2sqrtQ * cos((t - 2*pi)/3) - a/3,
-        ]
-    else:
-        return [d + e - a/3]
-
-####################################################################################################
-
 def _cubic_root(a, b, c, d):
 
     # https://en.wikipedia.org/wiki/Cubic_function
-- 
2.43.0


From 980d0dbd296d5a3f3c65c1ab4c19f9025a500aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:07 +0000
Subject: [PATCH 016/177] fix: length of straight Bezier curves, length at t
 and t at length raise

---
 Patro/GeometryEngine/Bezier.py | 52 ++++++++++++++++++++++++----------
 1 file changed, 37 insertions(+), 15 deletions(-)

diff --git a/Patro/GeometryEngine/Bezier.py b/Patro/GeometryEngine/Bezier.py
index 10c636f..9972d2d 100644
--- a/Patro/GeometryEngine/Bezier.py
+++ b/Patro/GeometryEngine/Bezier.py
@@ -53,7 +53,7 @@ __all__ = [
 
 import logging
 
-from math import log, sqrt
+from math import asinh, sqrt
 
 import numpy as np
 
@@ -85,7 +85,13 @@ class BezierMixin2D(Primitive2DMixin):
         """Length of the curve obtained via line interpolation"""
 
         if dt is None:
-            dt = self.LineInterpolationPrecision / (self.end_point - self.start_point).magnitude
+            length = (self.end_point - self.start_point).magnitude
+            if length == 0: # closed curve
+                points = list(self.points)
+                length = sum([(p1 - p0).magnitude for p0, p1 in zip(points[:-1], points[1:])])
+                if length == 0:
+                    return 0
+            dt = self.LineInterpolationPrecision / length
 
         length = 0
         t = 0
@@ -102,14 +108,22 @@ class BezierMixin2D(Primitive2DMixin):
 
         """Compute the length of the curve at *t*."""
 
+        if t <= 0:
+            return 0
+        elif t >= 1:
+            return self.length
+
         if cache: # lookup cache
-            if not hasattr(self, '_length_cache'):
+            # Note: points can be changed
+            points = [(p.x, p.y) for p in self.points]
+            if getattr(self, '_length_cache_points', None) != points:
+                self._length_cache_points = points
                 self._length_cache = {}
             length = self._length_cache.get(t, None)
             if length is not None:
                 return length
 
-        length = self.split_at_t(t).length
+        length = self.split_at_t(t)[0].length
 
         if cache: # save
             self._length_cache[t] = length
@@ -127,10 +141,10 @@ class BezierMixin2D(Primitive2DMixin):
         if length == 0:
             return 0
         curve_length = self.length # Fixme: cache ?
+        if length > curve_length + precision:
+            raise ValueError('Out of length')
         if (curve_length - length) <= precision:
             return 1
-        if length > curve_length:
-            raise ValueError('Out of length')
 
         # Search t for length using dichotomy
         # convergence rate :
@@ -143,7 +157,7 @@ class BezierMixin2D(Primitive2DMixin):
             middle = (sup + inf) / 2
             length_at_middle = self.length_at_t(middle, cache=True) # Fixme: out of memory, use LRU ???
             # exit condition
-            if abs(length_at_middle - length) <= precision:
+            if abs(length_at_middle - length) <= precision or middle in (inf, sup):
                 return middle
             elif length_at_middle < length:
                 inf = middle
@@ -244,19 +258,24 @@ class QuadraticBezier2D(BezierMixin2D, Primitive3P):
 
         A0 = self._p1 - self._p0
         A1 = self._p0 - self._p1 * 2 + self._p2
-        if A1.magnitude_square != 0:
-            c = 4 * A1.dot(A1)
-            b = 8 * A0.dot(A1)
-            a = 4 * A0.dot(A0)
+        c = 4 * A1.dot(A1)
+        b = 8 * A0.dot(A1)
+        a = 4 * A0.dot(A0)
+        if c > 1e-8 * a:
             q = 4 * a * c - b * b
             two_cb = 2 * c + b
             sum_cba = c + b + a
             m0 = 0.25 / c
             m1 = q / (8 * c**1.5)
-            return (m0 * (two_cb * sqrt(sum_cba) - b * sqrt(a)) +
-                    m1 * (log(2 * sqrt(c * sum_cba) + two_cb) - log(2 * sqrt(c * a) + b)))
+            # sum_cba is null or negative by rounding for a cusp at the end
+            length = m0 * (two_cb * sqrt(max(sum_cba, 0)) - b * sqrt(a))
+            if q > 0: # else the points are aligned
+                sqrt_q = sqrt(q)
+                length += m1 * (asinh(two_cb / sqrt_q) - asinh(b / sqrt_q))
+            return length
         else:
-            return 2 * A0.magnitude
+            # nearly uniform motion on a line, use Simpson's rule for numerical stability
+            return (sqrt(a) + 4 * sqrt(a + b/2 + c/4) + sqrt(a + b + c)) / 6
 
     ##############################################
 
@@ -505,7 +524,10 @@ class CubicBezier2D(BezierMixin2D, Primitive4P):
 
     def _t_max(self):
         """Return the split point for adaptive quadratic approximation"""
-        return (_Div18Sqrt3 * self.InterpolationPrecision / self._d01())**_OneThird
+        d01 = self._d01()
+        if d01 == 0: # the curve is a quadratic curve
+            return 1
+        return (_Div18Sqrt3 * self.InterpolationPrecision / d01)**_OneThird
 
     ##############################################
 
-- 
2.43.0


From 61d8e637de928882e2d1b470577c07bf63f5fa6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:07 +0000
Subject: [PATCH 017/177] fix: tangents, normals and fat line of quadratic
 Bezier curves raise

---
 Patro/GeometryEngine/Bezier.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Patro/GeometryEngine/Bezier.py b/Patro/GeometryEngine/Bezier.py
index 9972d2d..b33b09f 100644
--- a/Patro/GeometryEngine/Bezier.py
+++ b/Patro/GeometryEngine/Bezier.py
@@ -201,9 +201,9 @@ class BezierMixin2D(Primitive2DMixin):
         the baseline of the fat-line, ti is equally spaced in [0, 1].
 
         """
-        ts = np.arange(0, 1, 1/(self.number_of_points-1))
+        ts = np.linspace(0, 1, self.number_of_points)
         distances = [line.distance_to_line(p) for p in self.points]
-        points = [Vector2D(t, d) for t, f in zip(ts, distances)]
+        points = [Vector2D(t, d) for t, d in zip(ts, distances)]
         return self.__class__(*points)
 
     ##############################################
@@ -318,13 +318,13 @@ class QuadraticBezier2D(BezierMixin2D, Primitive3P):
 
     @property
     def normal0(self):
-        return self.tangent0.normal()
+        return self.tangent0.normal
 
     ##############################################
 
     @property
-    def tangent1(self):
-        return self.tangent1.normal()
+    def normal1(self):
+        return self.tangent1.normal
 
     ##############################################
 
@@ -376,7 +376,7 @@ class QuadraticBezier2D(BezierMixin2D, Primitive3P):
     ##############################################
 
     def fat_line(self):
-        line = Line2D.from_two_points(self._p0, self._p3)
+        line = Line2D.from_two_points(self._p0, self._p2)
         d1 = line.distance_to_line(self._p1)
         d_min = min(0, d1 / 2)
         d_max = max(0, d1 / 2)
-- 
2.43.0


From ff0db64e007de3a421592d3f5dec95a9e10dd9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:07 +0000
Subject: [PATCH 018/177] fix: intersection of a Bezier curve with a line
 raises

---
 Patro/GeometryEngine/Bezier.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/Patro/GeometryEngine/Bezier.py b/Patro/GeometryEngine/Bezier.py
index b33b09f..c06c745 100644
--- a/Patro/GeometryEngine/Bezier.py
+++ b/Patro/GeometryEngine/Bezier.py
@@ -61,7 +61,6 @@ from Patro.Common.Math.Root import quadratic_root, cubic_root, fifth_root
 from .Interpolation import interpolate_two_points
 from .Line import Line2D
 from .Primitive import Primitive3P, Primitive4P, PrimitiveNP, Primitive2DMixin
-from .Transformation import AffineTransformation
 from .Vector import Vector2D
 
 ####################################################################################################
@@ -188,11 +187,10 @@ class BezierMixin2D(Primitive2DMixin):
     ##############################################
 
     def _map_to_line(self, line):
-        transformation = AffineTransformation.Rotation(-line.v.orientation)
-        # Fixme: use __vector_cls__
-        transformation *= AffineTransformation.Translation(Vector2D(0, -line.p.y))
-        # Fixme: better API ?
-        return self.clone().transform(transformation)
+        # Map to the frame of the line, up to a scale factor:
+        #   x is the projection on the line and y the distance to the line
+        vectors = [p - line.p for p in self.points]
+        return self.__class__(*[Vector2D(line.v.dot(v), line.v.cross(v)) for v in vectors])
 
     ##############################################
 
-- 
2.43.0


From cd0e99206efeb7248f1c9fbabb3c699e92d50027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:07 +0000
Subject: [PATCH 019/177] fix: closest point of a Bezier curve raises or is
 missing at the ends and when there are several extrema

---
 Patro/GeometryEngine/Bezier.py | 38 +++++++++-------------------------
 1 file changed, 10 insertions(+), 28 deletions(-)

diff --git a/Patro/GeometryEngine/Bezier.py b/Patro/GeometryEngine/Bezier.py
index c06c745..d8bc2a9 100644
--- a/Patro/GeometryEngine/Bezier.py
+++ b/Patro/GeometryEngine/Bezier.py
@@ -206,6 +206,14 @@ class BezierMixin2D(Primitive2DMixin):
 
     ##############################################
 
+    def _closest_point_from_roots(self, point, roots):
+        # the distance is minimal for a root or at an end
+        ts = [0] + [root for root in roots if 0 < root < 1] + [1]
+        points = [self.point_at_t(t) for t in ts]
+        return min(points, key=lambda p: (p - point).magnitude_square)
+
+    ##############################################
+
     def distance_to_point(self, point):
         p = self.closest_point(point)
         if p is not None:
@@ -400,14 +408,7 @@ class QuadraticBezier2D(BezierMixin2D, Primitive3P):
             2*A.magnitude_square + M.dot(B),
             M.dot(A),
         )
-        t = [root for root in roots if 0 <= root <= 1]
-        if not t:
-            return None
-        elif len(t) > 1:
-            self._logger.warning("Found more than one root {} for {} and point {}".format(t, self, point))
-            return None
-        else:
-            return self.point_at_t(t)
+        return self._closest_point_from_roots(point, roots)
 
     ##############################################
 
@@ -893,23 +894,4 @@ class CubicBezier2D(BezierMixin2D, Primitive4P):
             2*point.dot(r) - 2*r.dot(v) - s.magnitude_square,
             point.dot(s) - s.dot(v),
         )
-        # Fixme: to func
-        t = [root for root in roots if 0 <= root <= 1]
-        if not t:
-            return None
-        elif len(t) > 1:
-            # Fixme:
-            # Found more than one root [0, 0.516373783749732]
-            # for CubicBezier2D(
-            #   Vector2D[1394.4334 1672.0004], Vector2D[1394.4334 1672.0004],
-            #   Vector2D[1585.0004 1624.9634], Vector2D[1585.0004 1622.0004])
-            # and point Vector2D[1495.11502887 1649.7386517 ]
-            # raise NameError("Found more than one root: {}".format(t))
-            self._logger.warning("Found more than one root {} for {} and point {}".format(t, self, point))
-            # self._logger.warning("is flat {}".format(self.is_flat_enough(.1)))
-            if len(t) == 2 and t[0] == 0:
-                return self.point_at_t(t[1])
-            else:
-                return None
-        else:
-            return self.point_at_t(t[0])
+        return self._closest_point_from_roots(point, roots)
-- 
2.43.0


From d98114061ecc2ca595f353267e49324e540f99fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:07 +0000
Subject: [PATCH 020/177] fix: uniform splines: quadratic basis and evaluation
 are wrong, conversion to Bezier raises

---
 Patro/GeometryEngine/Bezier.py |  6 +++---
 Patro/GeometryEngine/Spline.py | 32 +++++++++++---------------------
 2 files changed, 14 insertions(+), 24 deletions(-)

diff --git a/Patro/GeometryEngine/Bezier.py b/Patro/GeometryEngine/Bezier.py
index d8bc2a9..f1eb9a5 100644
--- a/Patro/GeometryEngine/Bezier.py
+++ b/Patro/GeometryEngine/Bezier.py
@@ -234,9 +234,9 @@ class QuadraticBezier2D(BezierMixin2D, Primitive3P):
     ))
 
     INVERSE_BASIS = np.array((
-        (-2,  1, -2),
-        (-1, -3,  1),
-        (-1, -1, -2),
+        (1,   1, 1),
+        (0, 1/2, 1),
+        (0,   0, 1),
     ))
 
     _logger = _module_logger.getChild('QuadraticBezier2D')
diff --git a/Patro/GeometryEngine/Spline.py b/Patro/GeometryEngine/Spline.py
index c7aff79..6e6fbe7 100644
--- a/Patro/GeometryEngine/Spline.py
+++ b/Patro/GeometryEngine/Spline.py
@@ -53,12 +53,12 @@ class QuadraticUniformSpline2D(Primitive2DMixin, Primitive3P):
         (1, -2,  1),
         (1,  2, -2),
         (0,  0,  1),
-    ))
+    )) / 2
 
     INVERSE_BASIS = np.array((
-        (-2,  1, -2),
-        (-2, -3,  1),
-        (-1, -1, -2),
+        (   1,   1, 1),
+        (-1/2, 1/2, 3/2),
+        (   0,   0, 2),
     ))
 
     #######################################
@@ -83,18 +83,14 @@ class QuadraticUniformSpline2D(Primitive2DMixin, Primitive3P):
     def point_at_t(self, t):
 
         # Q(t) = (
-        #          P0 *  (1-t)**3                      +
-        #          P1 * (  3*t**3 - 6*t**2       + 4 ) +
-        #          P2 * ( -3*t**3 + 3*t**2 + 3*t + 1 ) +
-        #          P3 *      t**3
-        #        ) / 6
-        #
-        #     = P0*(1-t)**3/6 + P1*(3*t**3 - 6*t**2 + 4)/6 + P2*(-3*t**3 + 3*t**2 + 3*t + 1)/6 + P3*t**3/6
+        #          P0 * (1-t)**2              +
+        #          P1 * ( -2*t**2 + 2*t + 1 ) +
+        #          P2 *      t**2
+        #        ) / 2
 
-        return (self._p0/6 + self._p1*2/3 + self._p2/6 +
-                (-self._p0/2 + self._p2/2)*t +
-                (self._p0/2 - self._p1 + self._p2/2)*t**2 +
-                (-self._p0/6 + self._p1/2 - self._p2/2 + self._p3/6)*t**3)
+        return (self._p0/2 + self._p1/2 +
+                (self._p1 - self._p0)*t +
+                (self._p0/2 - self._p1 + self._p2/2)*t**2)
 
 ####################################################################################################
 
@@ -136,12 +132,6 @@ class CubicUniformSpline2D(Primitive2DMixin, Primitive4P):
     def to_bezier(self):
         basis = np.dot(self.BASIS, CubicBezier2D.INVERSE_BASIS)
         points = np.dot(self.point_array, basis).transpose()
-        if self._start:
-            # list(self.points)[:2]
-            points[:2] = self._p0, self._p1
-        elif self._stop:
-            # list(self.points)[-2:]
-            points[-2:] = self._p2, self._p3
         return CubicBezier2D(*points)
 
     ##############################################
-- 
2.43.0


From a9ef253fa65b9333102c6c35b07f96baf4d0b434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:08 +0000
Subject: [PATCH 021/177] fix: spline evaluation at the last knot and naive
 evaluation raise

---
 Patro/GeometryEngine/Spline.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Spline.py b/Patro/GeometryEngine/Spline.py
index 6e6fbe7..2da7ec1 100644
--- a/Patro/GeometryEngine/Spline.py
+++ b/Patro/GeometryEngine/Spline.py
@@ -259,6 +259,9 @@ class BSpline2D(Primitive2DMixin, PrimitiveNP):
     def span(self, t):
         if not(self.start_knot <= t <= self.end_knot):
             raise ValueError('Invalid t {}'.format(t))
+        if t == self.end_knot:
+            # last non empty span
+            return max(i for i, t_span in enumerate(self._knots) if t_span < t)
         if self._uniform:
             return int(t) + self._degree # start padding
         else:
@@ -284,6 +287,9 @@ class BSpline2D(Primitive2DMixin, PrimitiveNP):
         """De Boor-Cox recursion formula"""
 
         if k == 0:
+            if t == self.end_knot:
+                # the last span is closed
+                return 1 if i == self.span(t) else 0
             return 1 if self._knots[i] <= t < self._knots[i+1] else 0
 
         ki = self._knots[i]
@@ -343,7 +349,7 @@ class BSpline2D(Primitive2DMixin, PrimitiveNP):
         basis = np.array([self.basis_function(i, self._degree, t)
                           for i in range(self.number_of_points)])
         points = self.point_array
-        return self.__vector_cls__(np.dot(basis, points))
+        return self.__vector_cls__(np.dot(points, basis))
 
     ##############################################
 
-- 
2.43.0


From c38df906f38b535abd95e378e030a7575cf52864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:08 +0000
Subject: [PATCH 022/177] fix: spline clone and reverse raise, conversion of
 other degrees raises an unrelated error

---
 Patro/GeometryEngine/Spline.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/Patro/GeometryEngine/Spline.py b/Patro/GeometryEngine/Spline.py
index 2da7ec1..17096c9 100644
--- a/Patro/GeometryEngine/Spline.py
+++ b/Patro/GeometryEngine/Spline.py
@@ -202,6 +202,17 @@ class BSpline2D(Primitive2DMixin, PrimitiveNP):
 
     ##############################################
 
+    def clone(self):
+        return self.__class__(list(self.points), self._degree, self._closed, None if self._uniform else self._knots)
+
+    def reverse(self):
+        knots = None
+        if not self._uniform:
+            knots = [self._knots[0] + self._knots[-1] - t for t in reversed(self._knots)]
+        return self.__class__(list(self.reversed_points), self._degree, self._closed, knots)
+
+    ##############################################
+
     @property
     def degree(self):
         return self._degree
@@ -437,12 +448,12 @@ class BSpline2D(Primitive2DMixin, PrimitiveNP):
 
         if self._degree == 2:
             cls = Bezier.QuadraticBezier2D
-        elif self._degree >= 3:
+        elif self._degree == 3:
             cls = Bezier.CubicBezier2D
         else:
-            not NotImplementedError
+            # Fixme: degree > 3
+            raise NotImplementedError
 
-        # Fixme: degree > 3
         spline = self.to_bezier_form()
 
         bezier_curves = []
-- 
2.43.0


From 17ae37f19293058927dd8282cdad955ac06b56c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:09 +0000
Subject: [PATCH 023/177] fix: area of a cubic Bezier curve depends on the
 origin

---
 Patro/GeometryEngine/Bezier.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Bezier.py b/Patro/GeometryEngine/Bezier.py
index f1eb9a5..8df2a15 100644
--- a/Patro/GeometryEngine/Bezier.py
+++ b/Patro/GeometryEngine/Bezier.py
@@ -869,7 +869,9 @@ class CubicBezier2D(BezierMixin2D, Primitive4P):
         x3, y3 = list(self._p3)
         return (3 * ((y3 - y0) * (x1 + x2) - (x3 - x0) * (y1 + y2)
                      + y1 * (x0 - x2) - x1 * (y0 - y2)
-                     + y3 * (x2 + x0 / 3) - x3 * (y2 + y0 / 3)) / 20)
+                     + y3 * (x2 + x0 / 3) - x3 * (y2 + y0 / 3)) / 20
+                # remove the triangle made by the origin, the start and stop points
+                - (x0 * y3 - x3 * y0) / 2)
 
     ##############################################
 
-- 
2.43.0


From 7b653f93d409d0af495b7a5fff2ec852386611f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:42 +0000
Subject: [PATCH 024/177] fix: length of a clockwise angular domain, and angle
 test modulo a turn

---
 Patro/GeometryEngine/Mixin.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/Patro/GeometryEngine/Mixin.py b/Patro/GeometryEngine/Mixin.py
index c7abe2d..149804e 100644
--- a/Patro/GeometryEngine/Mixin.py
+++ b/Patro/GeometryEngine/Mixin.py
@@ -57,7 +57,7 @@ class AngularDomain:
 
     ##############################################
 
-    def __clone__(self):
+    def clone(self):
         return self.__class__(self._start, self._stop)
 
     ##############################################
@@ -134,16 +134,18 @@ class AngularDomain:
             if self.is_counterclockwise:
                 return length
             else:
-                return 2*pi - length
+                # length is negative
+                return 2*pi + length
 
     ##############################################
 
     def is_inside(self, angle):
-        if self.is_counterclockwise:
-            return self._start <= angle <= self._stop
-        else:
-            # Fixme: check !!!
-            return not(self._stop < angle < self._start)
+        if self.is_closed:
+            return True
+        span = self._stop - self._start
+        if self.is_clockwise:
+            span += 360
+        return (angle - self._start) % 360 <= span
 
 ####################################################################################################
 
-- 
2.43.0


From dd7596991a5e3de30d49e4d1eb88637759032584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:42 +0000
Subject: [PATCH 025/177] fix: clone of an arc shares its angular domain

---
 Patro/GeometryEngine/Conic.py | 4 ++--
 Patro/GeometryEngine/Mixin.py | 5 +++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index e237080..788d337 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -135,7 +135,7 @@ class Circle2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
     ##############################################
 
     def clone(self):
-        return self.__class__(self._center, self._radius, self._domain)
+        return self.__class__(self._center, self._radius, self._clone_domain())
 
     ##############################################
 
@@ -454,7 +454,7 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
             self._center,
             self._radius_x, self._radius_y,
             self._angle,
-            self._domain,
+            self._clone_domain(),
         )
 
     ##############################################
diff --git a/Patro/GeometryEngine/Mixin.py b/Patro/GeometryEngine/Mixin.py
index 149804e..b7937de 100644
--- a/Patro/GeometryEngine/Mixin.py
+++ b/Patro/GeometryEngine/Mixin.py
@@ -166,6 +166,11 @@ class AngularDomainMixin:
 
     ##############################################
 
+    def _clone_domain(self):
+        return self._domain.clone() if self._domain is not None else None
+
+    ##############################################
+
     @property
     def is_closed(self):
         return self._domain is None
-- 
2.43.0


From 50d515b7c8bf1962865a7161b0616d39ff7d2e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:42 +0000
Subject: [PATCH 026/177] fix: circle eccentricity, perimeter, bounding box of
 an arc and distance from its centre

---
 Patro/GeometryEngine/Conic.py | 13 +++++++++----
 Patro/GeometryEngine/Mixin.py | 10 ++++++++++
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index 788d337..814ba1d 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -168,11 +168,11 @@ class Circle2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
 
     @property
     def eccentricity(self):
-        return 1
+        return 0
 
     @property
     def perimeter(self):
-        if self._domain is not None:
+        if self._domain is None:
             return 2*pi * self._radius
         else:
             return self._radius * self._domain.length
@@ -223,8 +223,10 @@ class Circle2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
 
     @property
     def bounding_box(self):
-        # Fixme: wrong for arc
-        return self._center.bounding_box.enlarge(self._radius)
+        if self._domain is None:
+            return self._center.bounding_box.enlarge(self._radius)
+        else:
+            return self._arc_bounding_box((0, 90, 180, 270))
 
     ##############################################
 
@@ -244,6 +246,9 @@ class Circle2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
 
     def distance_to_point(self, point):
         if self._domain is not None:
+            if not self.point_in_circle_frame(point):
+                # angle is undefined at the center
+                return self._circle_distance_to_point(point)
             # Fixme: check !!!
             # try:
             angle = self.angle_for_point(point)
diff --git a/Patro/GeometryEngine/Mixin.py b/Patro/GeometryEngine/Mixin.py
index b7937de..a0c3616 100644
--- a/Patro/GeometryEngine/Mixin.py
+++ b/Patro/GeometryEngine/Mixin.py
@@ -38,6 +38,8 @@ __all__ = [
 import math
 from math import radians, pi # , degrees
 
+from .BoundingBox import bounding_box_from_points
+
 ####################################################################################################
 
 class AngularDomain:
@@ -187,6 +189,14 @@ class AngularDomainMixin:
 
     ##############################################
 
+    def _arc_bounding_box(self, angles):
+        # *angles* are the positions of the extrema
+        points = [self.start_point, self.stop_point]
+        points += [self.point_at_angle(angle) for angle in angles if self._domain.is_inside(angle)]
+        return bounding_box_from_points(points)
+
+    ##############################################
+
     @property
     def start_point(self):
         return self.start_stop_point(start=True)
-- 
2.43.0


From 25a5b389004411e0898f4bd9cb51d43ccd0c8a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:35 +0000
Subject: [PATCH 027/177] fix: circle intersections with a segment or a circle
 have inconsistent types, are wrong or raise

---
 Patro/GeometryEngine/Conic.py    | 57 ++++++++++++++++++++++++--------
 Patro/Pattern/SketchOperation.py |  7 +---
 2 files changed, 44 insertions(+), 20 deletions(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index 814ba1d..6e0a798 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -270,18 +270,22 @@ class Circle2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
 
     ##############################################
 
-    def intersect_segment(self, segment):
+    def intersect_line(self, line):
+
+        """Compute the intersection of a circle and a line.
 
-        """Compute the intersection of a circle and a segment."""
+        Return the tuple of the intersection points.
+
+        """
 
         # Fixme: check domain !!!
 
-        dx = segment.vector.x
-        dy = segment.vector.y
+        dx = line.v.x
+        dy = line.v.y
         dr2 = dx**2 + dy**2
 
-        p0 = segment.p0 - self.center
-        p1 = segment.p1 - self.center
+        p0 = line.p - self.center
+        p1 = p0 + line.v
         D = p0.cross(p1) # Fixme: fixed typo _product ??
 
         # from sympy import *
@@ -294,11 +298,11 @@ class Circle2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         Vector2D = self.__vector_cls__
         discriminant = self.radius**2 * dr2 - D**2
         if discriminant < 0:
-            return None
+            return ()
         elif discriminant == 0: # tangent line
             x = (  D * dy ) / dr2
             y = (- D * dx ) / dr2
-            return Vector2D(x, y) + self.center
+            return (Vector2D(x, y) + self.center,)
         else: # intersection
             x_a =  D * dy
             y_a = -D * dx
@@ -314,25 +318,50 @@ class Circle2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
 
     ##############################################
 
+    def intersect_segment(self, segment):
+
+        """Compute the intersection of a circle and a segment.
+
+        Return the tuple of the intersection points.
+
+        """
+
+        if segment.p0 == segment.p1:
+            points = (segment.p0,) if self.signed_distance_to_point(segment.p0) == 0 else ()
+        else:
+            points = self.intersect_line(segment.to_line())
+        return tuple([p for p in points if segment.contain_point(p)])
+
+    ##############################################
+
     def intersect_circle(self, circle):
 
+        """Compute the intersection of two circles.
+
+        Return the tuple of the intersection points.
+
+        """
+
         # Fixme: check domain !!!
 
         v = circle.center - self.center
-        d = sign(v.x) * v.magnitude
+        d = v.magnitude
+        if d == 0: # concentric circles
+            return ()
 
         x = (d**2 - circle.radius**2 + self.radius**2) / (2*d)
         y2 = self.radius**2 - x**2
 
         if y2 < 0:
-            return None
+            return ()
         else:
-            p = self.center + v.normalise() * x
+            v.normalise()
+            p = self.center + v * x
             if y2 == 0:
-                return p
+                return (p,)
             else:
-                n = v.normal() * sqrt(y2)
-                return p - n, p - n
+                n = v.normal * sqrt(y2)
+                return (p - n, p + n)
 
     ##############################################
 
diff --git a/Patro/Pattern/SketchOperation.py b/Patro/Pattern/SketchOperation.py
index a13e051..fc5d572 100644
--- a/Patro/Pattern/SketchOperation.py
+++ b/Patro/Pattern/SketchOperation.py
@@ -634,11 +634,9 @@ class PointOfContact(Point, FirstSecondPointMixin, CenterRadiusMixin):
     ##############################################
 
     def eval_internal(self):
-        print('>'*50)
-        print(self)
         segment = Segment2D(self._first_point.vector, self._second_point.vector)
         circle = Circle2D(self._center.vector, self._radius.value)
-        points = circle.intersect_segment(segment)
+        points = circle.intersect_line(segment.to_line())
          # Fixme: multi-points ???
         if not points:
             self._logger.warning('line-circle intersection is null')
@@ -649,9 +647,6 @@ class PointOfContact(Point, FirstSecondPointMixin, CenterRadiusMixin):
             self._logger.warning('More than one points for line-circle intersection')
             # point must lie in the segment
             point0 = points[0]
-            segment.contain_point(points[0])
-            segment.contain_point(points[1])
-            print('>'*50)
             if segment.contain_point(point0):
                 self._vector = point0
             else:
-- 
2.43.0


From f6d947faf786075b719012266b7b0b189a9f065f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:35 +0000
Subject: [PATCH 028/177] fix: SVG arc: scaling of radii raises, large arc flag
 is inverted

---
 Patro/GeometryEngine/Conic.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index 6e0a798..7e4acb8 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -426,7 +426,7 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         # Ensure radii are large enough
         radii_scale = point1_prime.x**2/radius_x2 + point1_prime.y**2/radius_y2
         if radii_scale > 1:
-            self._logger.warning('SVG Arc: radii must be scale')
+            cls._logger.warning('SVG Arc: radii must be scale')
             radii_scale = math.sqrt(radii_scale)
             radius_x = radii_scale * radius_x
             radius_y = radii_scale * radius_y
@@ -445,8 +445,7 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         # print(point1_prime.anti_normal)
         # print(ratio)
         # print(point1_prime.anti_normal.scale(ratio, 1/ratio))
-        sign *= -1 # Fixme: solve mirroring artefacts for y-axis pointing to the top
-        center_prime = sign * math.sqrt(num / den) * point1_prime.anti_normal.scale(ratio, 1/ratio)
+        center_prime = sign * math.sqrt(max(num, 0) / den) * point1_prime.anti_normal.scale(ratio, 1/ratio)
 
         center = Transformation2D.Rotation(angle) * center_prime + origin_prime
 
-- 
2.43.0


From 514d656f04c584662c42f7b3ee3a3cbecf4f8939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:35 +0000
Subject: [PATCH 029/177] fix: Bezier approximation of a clockwise ellipse arc
 follows another arc

---
 Patro/GeometryEngine/Conic.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index 7e4acb8..9d2f6fd 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -799,11 +799,15 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         if self._domain is not None:
             # Fixme: is_over_closer
             start_angle = self._domain.start
-            angle_span = self._domain.span
+            # negative if the arc is clockwise
+            angle_span = self._domain.stop - self._domain.start
         else:
             start_angle = 0
             angle_span = 360
 
+        if angle_span == 0:
+            return []
+
         # make one segment by quarter
         number_of_segments = math.ceil(abs(angle_span / 90.001))
         angle_step = angle_span / number_of_segments
-- 
2.43.0


From 70b8f87ef20bbd00e1fc1a5fda99ce3059c7fbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:35 +0000
Subject: [PATCH 030/177] fix: ellipse vectors, eccentricity, matrix and
 bounding box are wrong

---
 Patro/GeometryEngine/Conic.py | 50 +++++++++++++++--------------------
 1 file changed, 21 insertions(+), 29 deletions(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index 9d2f6fd..2b2511a 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -43,7 +43,6 @@ import numpy as np
 
 from Patro.Common.Math.Functions import sign # , epsilon_float
 from .Bezier import CubicBezier2D
-from .BoundingBox import bounding_box_from_points
 from .Line import Line2D
 from .Mixin import AngularDomainMixin, CenterMixin, AngularDomain
 from .Primitive import Primitive, Primitive2DMixin
@@ -478,8 +477,6 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         self.angle = angle
         self.domain = domain
 
-        self._bounding_box = None
-
     ##############################################
 
     def clone(self):
@@ -496,7 +493,6 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         self._center = transformation * self._center
         self._radius_x = transformation * self._radius_x
         self._radius_y = transformation * self._radius_y
-        self._bounding_box = None
 
     ##############################################
 
@@ -532,12 +528,12 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
     @property
     def major_vector(self):
         # Fixme: x < y
-        return self.__vector_cls__.from_polar(self._angle, self._radius_x)
+        return self.__vector_cls__.from_polar(self._radius_x, self._angle)
 
     @property
     def minor_vector(self):
         # Fixme: x < y
-        return self.__vector_cls__.from_polar(self._angle + 90, self._radius_y)
+        return self.__vector_cls__.from_polar(self._radius_y, self._angle + 90)
 
     ##############################################
 
@@ -546,7 +542,9 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         # focal distance
         # c = sqrt(self._radius_x**2 - self._radius_y**2)
         # e = c / a
-        return sqrt(1 - (self._radius_y/self._radius_x)**2)
+        a = max(self._radius_x, self._radius_y)
+        b = min(self._radius_x, self._radius_y)
+        return sqrt(1 - (b/a)**2)
 
     ##############################################
 
@@ -570,9 +568,9 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         xc2 = xc**2
         yc2 = yc**2
 
-        A = a2*s + b2*c2
+        A = a2*s2 + b2*c2
         B = 2*(b2 - a2)*c*s
-        C = a2*c2 * b2*s2
+        C = a2*c2 + b2*s2
         D = -2*A*xc - B*yc
         E = -B*xc - 2*C*yc
         F = A*xc2 + B*xc*yc + C*yc2 - a2*b2
@@ -606,26 +604,20 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
     @property
     def bounding_box(self):
 
-        if self._bounding_box is None:
-            radius_x, radius_y = self._radius_x, self._radius_y
-            if self._angle == 0:
-                bounding_box = self._center.bounding_box
-                bounding_box.x.enlarge(radius_x)
-                bounding_box.y.enlarge(radius_y)
-                self._bounding_box = bounding_box
-            else:
-                angle_x = self._angle
-                angle_y = angle_x + 90
-                Vector2D = self.__vector_cls__
-                points = [self._center + offset for offset in (
-                    Vector2D.from_polar(angle_x,  radius_x),
-                    Vector2D.from_polar(angle_x, -radius_x),
-                    Vector2D.from_polar(angle_y,  radius_y),
-                    Vector2D.from_polar(angle_y, -radius_y),
-                )]
-                self._bounding_box = bounding_box_from_points(points)
-
-        return self._bounding_box
+        angle = radians(self._angle)
+        c = cos(angle)
+        s = sin(angle)
+
+        if self._domain is not None:
+            # parameters of the extrema
+            angle_x = math.degrees(math.atan2(-self._radius_y*s, self._radius_x*c))
+            angle_y = math.degrees(math.atan2( self._radius_y*c, self._radius_x*s))
+            return self._arc_bounding_box((angle_x, angle_x + 180, angle_y, angle_y + 180))
+
+        bounding_box = self._center.bounding_box
+        bounding_box.x.enlarge(math.hypot(self._radius_x*c, self._radius_y*s))
+        bounding_box.y.enlarge(math.hypot(self._radius_x*s, self._radius_y*c))
+        return bounding_box
 
     ##############################################
 
-- 
2.43.0


From 3e01bd5c5def20c46713a705ef5e639e2f3dfbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:35 +0000
Subject: [PATCH 031/177] fix: point inside an ellipse, and distance to an
 ellipse whose second radius is the greatest

---
 Patro/GeometryEngine/Conic.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index 2b2511a..819b51b 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -677,6 +677,10 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
 
         y0, y1 = point
         e0, e1 = self._radius_x, self._radius_y
+        swap = e0 < e1
+        if swap:
+            y0, y1 = y1, y0
+            e0, e1 = e1, e0
 
         if y1 > 0:
             if  y0 > 0:
@@ -712,6 +716,8 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
                 x1 = 0
                 distance = abs(y0 - e0)
 
+        if swap:
+            x0, x1 = x1, x0
         return distance, self.__vector_cls__(x0, x1)
 
     ##############################################
@@ -725,12 +731,7 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         distance, point_in_ellipse = self._eberly_distance(point_in_frame_abs)
 
         if is_inside:
-            # Fixme: right ???
-            return (
-                (point_in_frame_abs - self._center).magnitude_square
-                <=
-                (point_in_ellipse - self._center).magnitude_square
-            )
+            return (point_in_frame.x / self._radius_x)**2 + (point_in_frame.y / self._radius_y)**2 <= 1
         elif return_point:
             point_in_ellipse = self.__vector_cls__(
                 sign(point_in_frame.x)*(point_in_ellipse.x),
-- 
2.43.0


From 702f7fd5ae8c3f0b778f437d00d127945e25a289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:55 +0000
Subject: [PATCH 032/177] fix: SVG arc angles have the opposite sign

---
 Patro/GeometryEngine/Conic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index 819b51b..655024b 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -450,8 +450,9 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
 
         vector1 =   (point1_prime - center_prime).divide(radius_x, radius_y)
         vector2 = - (point1_prime + center_prime).divide(radius_x, radius_y)
-        theta = cls.__vector_cls__(1, 0).angle_with(vector1)
-        delta_theta = vector1.angle_with(vector2)
+        # angle_with turns from its argument to self
+        theta = vector1.angle_with(cls.__vector_cls__(1, 0))
+        delta_theta = vector2.angle_with(vector1)
         # if theta < 0:
         #     theta = 180 + theta
         # if delta_theta < 0:
-- 
2.43.0


From a7b7a54c95e913c084ed21a1acd35a3281fbcf39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:55 +0000
Subject: [PATCH 033/177] fix: distance to an ellipse is wrong or infinite when
 the point is very close to its major axis

---
 Patro/GeometryEngine/Conic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index 655024b..5de1dcb 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -683,7 +683,8 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
             y0, y1 = y1, y0
             e0, e1 = e1, e0
 
-        if y1 > 0:
+        # else the bisection has not enough digits to locate a point near the first axis
+        if y1 > 1e-9 * e1:
             if  y0 > 0:
                 z0 = y0 / e0
                 z1 = y1 / e1
-- 
2.43.0


From 2d1888001be8b025d98046ed41cd4f1bc6125617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:52 +0000
Subject: [PATCH 034/177] fix: a null bulge radius is not the absence of a
 bulge

---
 Patro/GeometryEngine/Path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index 1e206db..6686902 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -310,7 +310,7 @@ class LinearSegment(PathPart):
         if value is not None:
             value = abs(float(value))
             if value == 0:
-                radius = None
+                value = None
         self._radius = value
 
     ##############################################
-- 
2.43.0


From a30c400ddc67b35e724a65d6d94f7e9073c04324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:52 +0000
Subject: [PATCH 035/177] fix: a path cannot be cloned, and its clone is never
 closed

---
 Patro/GeometryEngine/Path.py | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index 6686902..42c8e65 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -266,6 +266,18 @@ class LinearSegment(PathPart):
 
     ##############################################
 
+    @property
+    def _clone_radius(self):
+        # the previous segment of the start bulge is not yet cloned
+        return None if self._start_bulge else self._radius
+
+    def _clone_bulge(self, obj):
+        if self._start_bulge:
+            obj.close(self._radius)
+        return obj
+
+    ##############################################
+
     @property
     def prev_part(self):
         if self._start_bulge:
@@ -419,16 +431,8 @@ class PathSegment(OnePointMixin, LinearSegment):
 
     def clone(self, path):
 
-        # Fixme: check
-        if obj._start_bulge:
-            radius = None
-        else:
-            radius = self._radius
-        obj = self.__class__(path, self._index, self._point, radius, self._absolute, self._closing)
-        if obj._start_bulge:
-            self.close(self._radius)
-
-        return obj
+        return self._clone_bulge(
+            self.__class__(path, self._index, self._point, self._clone_radius, self._absolute, self._closing))
 
     ##############################################
 
@@ -511,7 +515,7 @@ class AbsoluteHorizontalSegment(AbsoluteHVSegment):
     ##############################################
 
     def clone(self, path):
-        return self.__class__(path, self._index, self._x, self._radius)
+        return self._clone_bulge(self.__class__(path, self._index, self._x, self._clone_radius))
 
     ##############################################
 
@@ -549,7 +553,7 @@ class AbsoluteVerticalSegment(AbsoluteHVSegment):
     ##############################################
 
     def clone(self, path):
-        return self.__class__(path, self._index, self._y, self._radius)
+        return self._clone_bulge(self.__class__(path, self._index, self._y, self._clone_radius))
 
     ##############################################
 
@@ -587,7 +591,7 @@ class DirectionalSegment(DirectionalSegmentMixin):
     ##############################################
 
     def clone(self, path):
-        return self.__class__(path, self._index, self._length, self._radius)
+        return self._clone_bulge(self.__class__(path, self._index, self._length, self._clone_radius))
 
     ##############################################
 
@@ -724,7 +728,7 @@ class CubicBezierSegment(PathPart, ThreePointMixin):
     ##############################################
 
     def clone(self, path):
-        return self.__class__(path, self._index, self._point1, self._point2, self._point3, absolute)
+        return self.__class__(path, self._index, self._point1, self._point2, self._point3, self._absolute)
 
     ##############################################
 
@@ -899,6 +903,7 @@ class Path2D(Primitive1PMixin, Primitive2DMixin, PointPrimitive):
         parts = obj._parts
         for part in self._parts:
             parts.append(part.clone(obj))
+        obj._is_closed = self._is_closed
 
         return obj
 
-- 
2.43.0


From 602f2bcdf2499f1526b16881d4dbb112c3845091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:52 +0000
Subject: [PATCH 036/177] fix: absolute horizontal_to and vertical_to reset the
 other coordinate of the path to zero

---
 Patro/GeometryEngine/Path.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index 42c8e65..30ddb6d 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -1008,8 +1008,7 @@ class Path2D(Primitive1PMixin, Primitive2DMixin, PointPrimitive):
 
     def horizontal_to(self, length, radius=None, absolute=False):
         if absolute:
-            return self._add_part(PathSegment, self.__vector_cls__(length, 0), radius,
-                                  absolute=True)
+            return self.absolute_horizontal_to(length, radius)
         else:
             return self._add_part(HorizontalSegment, length, radius)
 
@@ -1017,8 +1016,7 @@ class Path2D(Primitive1PMixin, Primitive2DMixin, PointPrimitive):
 
     def vertical_to(self, length, radius=None, absolute=False):
         if absolute:
-            return self._add_part(PathSegment, self.__vector_cls__(0, length), radius,
-                                  absolute=True)
+            return self.absolute_vertical_to(length, radius)
         else:
             return self._add_part(VerticalSegment, length, radius)
 
-- 
2.43.0


From b1813634e29aea0fde8d327b982b3fc535789d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:52 +0000
Subject: [PATCH 037/177] fix: bulges of a path are stale after its points are
 moved, directions after a transformation

---
 Patro/GeometryEngine/Path.py | 67 ++++++++++--------------------------
 1 file changed, 19 insertions(+), 48 deletions(-)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index 30ddb6d..bf71f7c 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -236,32 +236,18 @@ class LinearSegment(PathPart):
 
         super().__init__(path, index)
 
-        self._bissector = None
-        self._direction = None
-
         self._start_bulge = False
         self._closing = bool(closing)
         self.radius = radius
         if self._radius is not None:
             if not isinstance(self.prev_part, LinearSegment):
                 raise ValueError('Previous path segment must be linear')
-            self._reset_cache()
-
-    ##############################################
-
-    def _reset_cache(self):
-
-        self._bulge_angle = None
-        self._bulge_center = None
-        self._start_bulge_point = None
-        self._stop_bulge_point = None
 
     ##############################################
 
     def close(self, radius):
         """Set the bulge radius at the closure"""
         self.radius = radius
-        self._reset_cache()
         self._start_bulge = True
 
     ##############################################
@@ -329,33 +315,26 @@ class LinearSegment(PathPart):
 
     @property
     def direction(self):
-        if self._direction is None:
-            self._direction = (self.stop_point - self.start_point).normalise()
-        return self._direction
+        return (self.stop_point - self.start_point).normalise()
 
     @property
     def bissector(self):
         if self._radius is None:
             return None
         else:
-            if self._bissector is None:
-                # self._bissector = (self.prev_part.direction + self.direction).normalise().normal
-                self._bissector = (self.direction - self.prev_part.direction).normalise()
-            return self._bissector
+            return (self.direction - self.prev_part.direction).normalise()
 
     ##############################################
 
     @property
     def bulge_angle_rad(self):
-        if self._bulge_angle is None:
-            # Fixme: rad vs degree
-            angle = self.direction.angle_with(self.prev_part.direction)
-            if angle >= 0:
-                angle = 180 - angle
-            else:
-                angle = -(180 + angle)
-            self._bulge_angle = math.radians(angle)
-        return self._bulge_angle
+        # Fixme: rad vs degree
+        angle = self.direction.angle_with(self.prev_part.direction)
+        if angle >= 0:
+            angle = 180 - angle
+        else:
+            angle = -(180 + angle)
+        return math.radians(angle)
 
     @property
     def bulge_angle(self):
@@ -369,30 +348,24 @@ class LinearSegment(PathPart):
 
     @property
     def bulge_center(self):
-        if self._bulge_center is None:
-            offset = self.bissector * self._radius / math.sin(abs(self.half_bulge_angle))
-            self._bulge_center = self.start_point + offset
-            # Note: -offset create external loop
-        return self._bulge_center
+        offset = self.bissector * self._radius / math.sin(abs(self.half_bulge_angle))
+        # Note: -offset create external loop
+        return self.start_point + offset
 
     ##############################################
 
     @property
     def bulge_start_point(self):
-        if self._start_bulge_point is None:
-            angle = self.half_bulge_angle
-            offset = self.prev_part.direction * self._radius / math.tan(angle)
-            self._start_bulge_point = self.start_point - sign(angle) *offset
-            # Note: -offset create internal loop
-        return self._start_bulge_point
+        angle = self.half_bulge_angle
+        offset = self.prev_part.direction * self._radius / math.tan(angle)
+        # Note: -offset create internal loop
+        return self.start_point - sign(angle) * offset
 
     @property
     def bulge_stop_point(self):
-        if self._stop_bulge_point is None:
-            angle = self.half_bulge_angle
-            offset = self.direction * self._radius / math.tan(self.half_bulge_angle)
-            self._stop_bulge_point = self.start_point + sign(angle) * offset
-        return self._stop_bulge_point
+        angle = self.half_bulge_angle
+        offset = self.direction * self._radius / math.tan(angle)
+        return self.start_point + sign(angle) * offset
 
     ##############################################
 
@@ -964,8 +937,6 @@ class Path2D(Primitive1PMixin, Primitive2DMixin, PointPrimitive):
 
         for part in self._parts:
             # print(part)
-            if isinstance(part, PathSegment):
-                part._reset_cache()
             if isinstance(part, DirectionalSegmentMixin):
                 # Since a rotation will change the direction
                 # DirectionalSegment must be casted to PathSegment
-- 
2.43.0


From 6566a97e5feb260623a3af0de25ef6618041ab33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:52 +0000
Subject: [PATCH 038/177] fix: a directional segment overlaps the bulges at its
 ends

---
 Patro/GeometryEngine/Path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index bf71f7c..157e69f 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -443,7 +443,7 @@ class DirectionalSegmentMixin(LinearSegment):
     @property
     def geometry(self):
         # Fixme: cache ???
-        return Segment2D(self.start_point, self.stop_point)
+        return Segment2D(*self.points)
 
 ####################################################################################################
 
-- 
2.43.0


From b0d7405c8a27c8823adecc37522b76a0815f9e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:20 +0000
Subject: [PATCH 039/177] fix: SVG arc between two identical points raises
 ZeroDivisionError

---
 Patro/GeometryEngine/Conic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index 5de1dcb..f11b955 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -404,7 +404,7 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         """
 
         # Ensure radii are non-zero
-        if radius_x == 0 or radius_y == 0:
+        if radius_x == 0 or radius_y == 0 or point1 == point2:
             return Segment2D(point1, point2)
 
         # Ensure radii are positive
-- 
2.43.0


From ee953a5d55dc47f90b419edf85f325a112b7035c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:20 +0000
Subject: [PATCH 040/177] fix: radii, angle and sweep flag of a path arc are
 not transformed

---
 Patro/GeometryEngine/Path.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index 157e69f..d7e32cb 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -38,6 +38,8 @@ __all__ = [
 import logging
 import math
 
+import numpy as np
+
 from Patro.Common.Math.Functions import sign
 from .Primitive import Primitive, Primitive1PMixin, Primitive2DMixin, PointPrimitive
 from .Bezier import QuadraticBezier2D, CubicBezier2D
@@ -828,6 +830,21 @@ class ArcSegment(OnePointMixin, PathPart):
 
     ##############################################
 
+    def apply_transformation(self, transformation):
+        super().apply_transformation(transformation)
+        # the columns are the transformed half axes
+        matrix = transformation.array[:2,:2] @ np.transpose([
+            Vector2D.from_polar(self._radius_x, self._angle).v,
+            Vector2D.from_polar(self._radius_y, self._angle + 90).v,
+        ])
+        axes, radii, _ = np.linalg.svd(matrix)
+        self._radius_x, self._radius_y = [float(radius) for radius in radii]
+        self._angle = Vector2D(axes[:,0]).orientation
+        if np.linalg.det(transformation.array[:2,:2]) < 0:
+            self._sweep = not self._sweep
+
+    ##############################################
+
     @property
     def points(self):
         return self.start_point, self.stop_point
-- 
2.43.0


From 154ebe00aa1d9356b8cad3bb3c43e69af6c81a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:20 +0000
Subject: [PATCH 041/177] fix: bounding box of a clockwise path arc is the one
 of the complementary arc

---
 Patro/GeometryEngine/Path.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index d7e32cb..e25a1ae 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -860,6 +860,16 @@ class ArcSegment(OnePointMixin, PathPart):
             self._large_arc, self._sweep,
         )
 
+    ##############################################
+
+    @property
+    def bounding_box(self):
+        geometry = self.geometry
+        if isinstance(geometry, Ellipse2D) and geometry.domain.is_clockwise:
+            # a domain is counterclockwise
+            geometry.domain = AngularDomain(geometry.domain.stop, geometry.domain.start)
+        return geometry.bounding_box
+
 ####################################################################################################
 
 class Path2D(Primitive1PMixin, Primitive2DMixin, PointPrimitive):
@@ -980,7 +990,7 @@ class Path2D(Primitive1PMixin, Primitive2DMixin, PointPrimitive):
         # Fixme: cache
         bounding_box = None
         for item in self._parts:
-            interval = item.geometry.bounding_box
+            interval = item.bounding_box
             if bounding_box is None:
                 bounding_box = interval
             else:
-- 
2.43.0


From 118a9e54a2f13490a36dc805b6d13ca0d3eb49e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:20 +0000
Subject: [PATCH 042/177] fix: stringed Bezier segments of a path raise
 NameError or have no geometry

---
 Patro/GeometryEngine/Path.py              | 71 +++++++++++++++++++----
 Patro/GraphicEngine/GraphicScene/Scene.py |  4 +-
 2 files changed, 61 insertions(+), 14 deletions(-)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index e25a1ae..227c00a 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -732,30 +732,50 @@ class CubicBezierSegment(PathPart, ThreePointMixin):
 
 ####################################################################################################
 
-class StringedQuadtraticBezierSegment(PathPart, TwoPointMixin):
+class StringedQuadraticBezierSegment(OnePointMixin, PathPart):
 
     ##############################################
 
-    def __init__(self, path, index, point1, absolute=False):
+    def __init__(self, path, index, point, absolute=False):
 
         PathPart.__init__(self, path, index)
         self._init_absolute(absolute)
 
-        self.point1 = point1
+        self.point = point
 
     ##############################################
 
     def clone(self, path):
-        return self.__class__(path, self._index, self._point1, absolute)
+        return self.__class__(path, self._index, self._point, self._absolute)
+
+    ##############################################
+
+    def to_absolute(self):
+        self._point = self.stop_point
+        self._absolute = True
+
+    ##############################################
+
+    @property
+    def point1(self):
+        # reflection of the previous control point
+        start_point = self.start_point
+        prev_part = self.prev_part
+        if isinstance(prev_part, (QuadraticBezierSegment, StringedQuadraticBezierSegment)):
+            return start_point * 2 - prev_part.point1
+        else:
+            return start_point
+
+    @property
+    def points(self):
+        return (self.start_point, self.point1, self.stop_point)
 
     ##############################################
 
     @property
     def geometry(self):
         # Fixme: cache ???
-        # Fixme: !!!
-        return Segment2D(self.start_point, self._point2)
-        # return CubicBezier2D(self.start_point, self._point1, self._point2, self._point3)
+        return QuadraticBezier2D(*self.points)
 
 ####################################################################################################
 
@@ -765,24 +785,51 @@ class StringedCubicBezierSegment(PathPart, TwoPointMixin):
 
     def __init__(self, path, index, point1, point2, absolute=False):
 
+        # point1 is the second control point
+
         PathPart.__init__(self, path, index)
         self._init_absolute(absolute)
 
-        # self.point1 = point1
+        self.point1 = point1
+        self.point2 = point2
 
     ##############################################
 
     def clone(self, path):
-        return self.__class__(path, self._index, self._point1, self._point2, absolute)
+        return self.__class__(path, self._index, self._point1, self._point2, self._absolute)
+
+    ##############################################
+
+    def to_absolute(self):
+        self._point1 = self.point1
+        self._point2 = self.point2
+        self._absolute = True
+
+    ##############################################
+
+    @property
+    def stop_point(self):
+        return self.point2
+
+    @property
+    def points(self):
+        # reflection of the previous control point
+        start_point = self.start_point
+        prev_part = self.prev_part
+        if isinstance(prev_part, CubicBezierSegment):
+            control_point = start_point * 2 - prev_part.point2
+        elif isinstance(prev_part, StringedCubicBezierSegment):
+            control_point = start_point * 2 - prev_part.point1
+        else:
+            control_point = start_point
+        return (start_point, control_point, self.point1, self.point2)
 
     ##############################################
 
     @property
     def geometry(self):
         # Fixme: cache ???
-        # Fixme: !!!
-        return Segment2D(self.start_point, self._point2)
-        # return CubicBezier2D(self.start_point, self._point1, self._point2, self._point3)
+        return CubicBezier2D(*self.points)
 
 ####################################################################################################
 
diff --git a/Patro/GraphicEngine/GraphicScene/Scene.py b/Patro/GraphicEngine/GraphicScene/Scene.py
index 4426f29..161ed82 100644
--- a/Patro/GraphicEngine/GraphicScene/Scene.py
+++ b/Patro/GraphicEngine/GraphicScene/Scene.py
@@ -414,7 +414,7 @@ class GraphicSceneScope:
                 item.cubic_to(segment.point1, segment.point2, segment.point3)
             elif isinstance(segment, Path.ArcSegment):
                 pass
-            elif isinstance(segment, Path.StringedQuadtraticBezierSegment):
+            elif isinstance(segment, Path.StringedQuadraticBezierSegment):
                 pass
             elif isinstance(segment, Path.StringedCubicBezierSegment):
                 pass
@@ -504,7 +504,7 @@ class GraphicSceneScope:
                 add_cubic(segment)
             elif isinstance(segment, Path.ArcSegment):
                 add_ellipse(segment)
-            elif isinstance(segment, Path.StringedQuadtraticBezierSegment):
+            elif isinstance(segment, Path.StringedQuadraticBezierSegment):
                 pass
             elif isinstance(segment, Path.StringedCubicBezierSegment):
                 pass
-- 
2.43.0


From 99504aa1076da4e2fbcdd874535428cebfbc9005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:59 +0000
Subject: [PATCH 043/177] fix: arrow heads with an axial offset or only one
 side raise

---
 Patro/GeometryEngine/Shape/ArrowHead.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Patro/GeometryEngine/Shape/ArrowHead.py b/Patro/GeometryEngine/Shape/ArrowHead.py
index 56b2783..0c875f9 100644
--- a/Patro/GeometryEngine/Shape/ArrowHead.py
+++ b/Patro/GeometryEngine/Shape/ArrowHead.py
@@ -98,8 +98,8 @@ class TriangularHeadMixin(ArrowHead):
         self._right_side = bool(right_side)
 
         # Fixme: check length width ???
-        if not(self._left_side and self._right_side):
-            return ValueError('Any side')
+        if not(self._left_side or self._right_side):
+            raise ValueError('Any side')
 
         self._back_tip_point = None
 
@@ -160,7 +160,7 @@ class TriangularHeadMixin(ArrowHead):
 
     @property
     def offseted_back_tip_point(self):
-        return self.back_tip_point - self._direction * self._self._axial_offset
+        return self.back_tip_point - self._direction * self._axial_offset
 
     @property
     def left_point(self):
-- 
2.43.0


From 056fb6a6d8124a6c5076e5ccc4f655d0db00c82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:59 +0000
Subject: [PATCH 044/177] fix: the sides of a curvy arrow head are not
 symmetric

---
 Patro/GeometryEngine/Shape/ArrowHead.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Shape/ArrowHead.py b/Patro/GeometryEngine/Shape/ArrowHead.py
index 0c875f9..286f846 100644
--- a/Patro/GeometryEngine/Shape/ArrowHead.py
+++ b/Patro/GeometryEngine/Shape/ArrowHead.py
@@ -270,7 +270,7 @@ class TriangularCurvyHead(TriangularHeadMixin, Path2D):
     def right_curved_point(self):
         if self._right_side:
             direction = self.right_point - self.tip_point
-            return (self.right_point + self.tip_point) / 2 - direction.normal * self._curve_depth
+            return (self.right_point + self.tip_point) / 2 + direction.normal * self._curve_depth
         else:
             return None
 
-- 
2.43.0


From 7bea4311e5cfecf4a89212f4317d5257cc5dac44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:00 +0000
Subject: [PATCH 045/177] fix: a path arc with a null radius is transformed to
 an arc

---
 Patro/GeometryEngine/Path.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index 227c00a..9e21475 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -879,6 +879,8 @@ class ArcSegment(OnePointMixin, PathPart):
 
     def apply_transformation(self, transformation):
         super().apply_transformation(transformation)
+        if not (self._radius_x and self._radius_y):
+            return # segment
         # the columns are the transformed half axes
         matrix = transformation.array[:2,:2] @ np.transpose([
             Vector2D.from_polar(self._radius_x, self._angle).v,
-- 
2.43.0


From 38613fa4b2db85b3de48b0bd5cc063a403aedb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:00 +0000
Subject: [PATCH 046/177] fix: pairwise and closed iterators raise on an empty
 sequence or an iterator

---
 Patro/Common/IterTools.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/Patro/Common/IterTools.py b/Patro/Common/IterTools.py
index 0992f6b..94eeb0f 100644
--- a/Patro/Common/IterTools.py
+++ b/Patro/Common/IterTools.py
@@ -42,9 +42,9 @@ def closed_iterator(iterable):
 
     """
 
-    number_of_items = len(iterable)
-    for i in range(number_of_items +1):
-        yield iterable[i%number_of_items]
+    items = tuple(iterable)
+    yield from items
+    yield from items[:1]
 
 ####################################################################################################
 
@@ -56,10 +56,11 @@ def pairwise(iterable):
 
     """
 
-    prev = iterable[0]
-    for x in iterable[1:]:
-        yield prev, x
-        prev = x
+    iterator = iter(iterable)
+    for prev in iterator:
+        for x in iterator:
+            yield prev, x
+            prev = x
 
 ####################################################################################################
 
@@ -71,9 +72,10 @@ def closed_pairwise(iterable):
 
     """
 
-    number_of_items = len(iterable)
+    items = tuple(iterable)
+    number_of_items = len(items)
     for i in range(number_of_items):
-        yield iterable[i], iterable[(i+1)%number_of_items]
+        yield items[i], items[(i+1)%number_of_items]
 
 ####################################################################################################
 
-- 
2.43.0


From 50ca6d27a4f0ae6f0fe899517f7de15cae3f6a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:00 +0000
Subject: [PATCH 047/177] fix: atomic counter returns a value another thread
 may have incremented

---
 Patro/Common/AtomicCounter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/Common/AtomicCounter.py b/Patro/Common/AtomicCounter.py
index 98afe7b..247e44d 100644
--- a/Patro/Common/AtomicCounter.py
+++ b/Patro/Common/AtomicCounter.py
@@ -52,7 +52,7 @@ class AtomicCounter:
         """
         with self._lock:
             self._value += value
-        return self._value
+            return self._value
 
     ##############################################
 
-- 
2.43.0


From c9ad333ac1800f82976b42864e2172663f16b66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:00 +0000
Subject: [PATCH 048/177] fix: DAG node ancestors property raises
 AttributeError

---
 Patro/Common/Graph/DirectedAcyclicGraph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/Common/Graph/DirectedAcyclicGraph.py b/Patro/Common/Graph/DirectedAcyclicGraph.py
index f0944b4..4819e5f 100644
--- a/Patro/Common/Graph/DirectedAcyclicGraph.py
+++ b/Patro/Common/Graph/DirectedAcyclicGraph.py
@@ -58,8 +58,8 @@ class DirectedAcyclicGraphNode:
         return self._data
 
     @property
-    def ancestor(self):
-        return self._ancestor
+    def ancestors(self):
+        return self._ancestors
 
     @property
     def descendants(self):
-- 
2.43.0


From 8aea8cfe046ad8c74a7581dce3d29fc83023b3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:00 +0000
Subject: [PATCH 049/177] fix: ensure_date returns a datetime for a datetime

---
 Patro/Common/Datetime.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Patro/Common/Datetime.py b/Patro/Common/Datetime.py
index 9efa740..17b72d9 100644
--- a/Patro/Common/Datetime.py
+++ b/Patro/Common/Datetime.py
@@ -27,7 +27,9 @@ from datetime import datetime, date
 ####################################################################################################
 
 def ensure_date(x: date | str) -> date:
-    if isinstance(x, date):
+    if isinstance(x, datetime):
+        return x.date()
+    elif isinstance(x, date):
         return x
     else:
         # "1970-01-01"
-- 
2.43.0


From 17bc2b9c47cab1ef2e2caf05931071a42378e799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:00 +0000
Subject: [PATCH 050/177] fix: find walks on the characters of a directory name

---
 Patro/Common/Path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/Common/Path.py b/Patro/Common/Path.py
index 0ddcf5b..e3fd99a 100644
--- a/Patro/Common/Path.py
+++ b/Patro/Common/Path.py
@@ -39,7 +39,7 @@ def parent_directory_of(file_name, step=1):
 ####################################################################################################
 
 def find(file_name, directories):
-    if isinstance(directories, bytes):
+    if isinstance(directories, (str, bytes)):
         directories = (directories,)
     for directory in directories:
         for directory_path, sub_directories, file_names in os.walk(directory):
-- 
2.43.0


From ac139fcda9278adfc1c939944e6cd92334b5039f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:49 +0000
Subject: [PATCH 051/177] fix: topological sort of a deep graph raises
 RecursionError

---
 Patro/Common/Graph/DirectedAcyclicGraph.py | 29 +++++++++++++++-------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/Patro/Common/Graph/DirectedAcyclicGraph.py b/Patro/Common/Graph/DirectedAcyclicGraph.py
index 4819e5f..dadf5d0 100644
--- a/Patro/Common/Graph/DirectedAcyclicGraph.py
+++ b/Patro/Common/Graph/DirectedAcyclicGraph.py
@@ -162,15 +162,26 @@ class DirectedAcyclicGraph:
         temporary_marked_nodes = set()
 
         def visit(node):
-            if node in temporary_marked_nodes:
-                raise NameError('Not a DAG')
-            if node not in marked_nodes:
-                temporary_marked_nodes.add(node)
-                for descendant in node._descendants:
-                    visit(descendant)
-                marked_nodes.add(node)
-                temporary_marked_nodes.remove(node)
-                sorted_list.append(node)
+            # not recursive, the depth of the graph is not bounded
+            stack = []
+
+            def enter(node):
+                if node in temporary_marked_nodes:
+                    raise NameError('Not a DAG')
+                if node not in marked_nodes:
+                    temporary_marked_nodes.add(node)
+                    stack.append((node, iter(node._descendants)))
+
+            enter(node)
+            while stack:
+                node, descendants = stack[-1]
+                try:
+                    enter(next(descendants))
+                except StopIteration:
+                    stack.pop()
+                    marked_nodes.add(node)
+                    temporary_marked_nodes.remove(node)
+                    sorted_list.append(node)
 
         while unmarked_nodes:
             node = unmarked_nodes.pop()
-- 
2.43.0


From 8c66838b68a2ca2ad143f9705972d82afe3cadf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:01 +0000
Subject: [PATCH 052/177] fix: a boolean attribute cannot be given as a Python
 boolean

---
 Patro/Common/Xml/Objectivity.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Patro/Common/Xml/Objectivity.py b/Patro/Common/Xml/Objectivity.py
index 7b557c9..877e42d 100644
--- a/Patro/Common/Xml/Objectivity.py
+++ b/Patro/Common/Xml/Objectivity.py
@@ -132,7 +132,9 @@ class BoolAttribute(Attribute):
 
     @classmethod
     def from_xml(cls, value):
-        if value == "true" or value == "1":
+        if isinstance(value, bool): # Python value
+            return value
+        elif value == "true" or value == "1":
             return True
         elif value == "false" or value == "0":
             return False
-- 
2.43.0


From 01a67e54c8329f9677f70e119cd867544ec37d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:01 +0000
Subject: [PATCH 053/177] fix: a list of floats separated by commas and spaces
 cannot be read

---
 Patro/Common/Xml/Objectivity.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/Patro/Common/Xml/Objectivity.py b/Patro/Common/Xml/Objectivity.py
index 877e42d..c1d8202 100644
--- a/Patro/Common/Xml/Objectivity.py
+++ b/Patro/Common/Xml/Objectivity.py
@@ -181,13 +181,7 @@ class FloatListAttribute(Attribute):
         elif isinstance(value, (tuple, list)): # Python value
             return value
         else:
-            if ' ' in value:
-                separator = ' '
-            elif ',' in value:
-                separator = ','
-            else:
-                return [float(value)]
-            return [float(x) for x in value.split(separator)]
+            return [float(x) for x in value.replace(',', ' ').split()]
 
     ##############################################
 
-- 
2.43.0


From b8f1ee4800436bcbf3402670f271cefde923d22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:01 +0000
Subject: [PATCH 054/177] fix: an XML object attribute given as None is an
 error or the text None

---
 Patro/Common/Xml/Objectivity.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Patro/Common/Xml/Objectivity.py b/Patro/Common/Xml/Objectivity.py
index c1d8202..90db950 100644
--- a/Patro/Common/Xml/Objectivity.py
+++ b/Patro/Common/Xml/Objectivity.py
@@ -284,7 +284,9 @@ class XmlObjectAdaptator(metaclass=XmlObjectAdaptatorMetaClass):
             # Fixme: duplicated code
             if py_attribute in kwargs:
                 # Fixme: see VitFormat.py StrokeStyleAttribute !!!
-                value = attribute.from_xml(kwargs[py_attribute])
+                value = kwargs[py_attribute]
+                if value is not None:
+                    value = attribute.from_xml(value)
             else:
                 value = attribute.default
             attribute.set_attribute(self, value)
-- 
2.43.0


From f244165aa52c4c298cca661dd61b9212b2ae9b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:01 +0000
Subject: [PATCH 055/177] fix: an XML object made without argument has no
 attribute

---
 Patro/Common/Xml/Objectivity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/Common/Xml/Objectivity.py b/Patro/Common/Xml/Objectivity.py
index 90db950..d4bf5a5 100644
--- a/Patro/Common/Xml/Objectivity.py
+++ b/Patro/Common/Xml/Objectivity.py
@@ -254,7 +254,7 @@ class XmlObjectAdaptator(metaclass=XmlObjectAdaptatorMetaClass):
 
         if args:
             self._init_from_xml(args[0])
-        elif kwargs:
+        else:
             self._init_from_kwargs(kwargs)
 
     ##############################################
-- 
2.43.0


From cea5f7b291d1dda8db0b3df40d37cff8038971ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:01 +0000
Subject: [PATCH 056/177] fix: text of an XML element is lost when it is read

---
 Patro/Common/Xml/Objectivity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/Common/Xml/Objectivity.py b/Patro/Common/Xml/Objectivity.py
index d4bf5a5..a841ec0 100644
--- a/Patro/Common/Xml/Objectivity.py
+++ b/Patro/Common/Xml/Objectivity.py
@@ -349,15 +349,15 @@ class TextXmlObjectAdaptator(XmlObjectAdaptator):
 
     def __init__(self, *args, **kwargs):
 
-        super().__init__(*args, **kwargs)
         self.text = kwargs.get('text', '')
+        super().__init__(*args, **kwargs)
 
     ##############################################
 
     def _init_from_xml(self, xml_element):
 
         super()._init_from_xml(xml_element)
-        self.text = str(xml_element.text)
+        self.text = xml_element.text or ''
 
     ##############################################
 
-- 
2.43.0


From c34d99998af2f666fecf26f0a869a7eaae05d27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:26 +0000
Subject: [PATCH 057/177] fix: save and load the measurements with a valid
 encoding name

---
 Patro/Measurement/Measurement.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/Measurement/Measurement.py b/Patro/Measurement/Measurement.py
index c279842..87391ca 100644
--- a/Patro/Measurement/Measurement.py
+++ b/Patro/Measurement/Measurement.py
@@ -234,14 +234,14 @@ class MeasurementSet:
             if measurement.full_name or measurement.description:
                 data += [measurement.full_name, measurement.description]
             measurements[measurement.name] = data
-        with open(yaml_path, 'w', encoding='uft8') as fh:
+        with open(yaml_path, 'w', encoding='utf8') as fh:
             yaml_string = yaml.dump(measurements, default_flow_style=False, width=160)
             fh.write(yaml_string)
 
     ##############################################
 
     def load_yaml(self, yaml_path: str | Path) -> None:
-        with open(yaml_path, 'r', encoding='uft8') as fh:
+        with open(yaml_path, 'r', encoding='utf8') as fh:
             measurements = yaml.load(fh.read(), Loader=yaml.SafeLoader)
             for name, data in measurements.items():
                 if len(data) > 1:
-- 
2.43.0


From fa364b4bec66788d91b0afd9135ac0832802a033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:26 +0000
Subject: [PATCH 058/177] fix: save a numerical measurement as a number

---
 Patro/Measurement/Measurement.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/Measurement/Measurement.py b/Patro/Measurement/Measurement.py
index 87391ca..b08f3e9 100644
--- a/Patro/Measurement/Measurement.py
+++ b/Patro/Measurement/Measurement.py
@@ -224,9 +224,9 @@ class MeasurementSet:
         # for measurement in self:
         for measurement in self.sorted_iter():
             expression = measurement.expression
-            if isinstance(expression, sympy.Integer):
+            if isinstance(expression, (int, sympy.Integer)):
                 expression = int(expression)
-            elif isinstance(expression, sympy.Float):
+            elif isinstance(expression, (float, sympy.Float)):
                 expression = float(expression)
             else:
                 expression = str(expression)
-- 
2.43.0


From 9064681964306f2e64c99cdd0adaa8118cf1694d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:26 +0000
Subject: [PATCH 059/177] fix: an unknown measurement attribute raises
 AttributeError

---
 Patro/Measurement/Measurement.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Patro/Measurement/Measurement.py b/Patro/Measurement/Measurement.py
index b08f3e9..46dde72 100644
--- a/Patro/Measurement/Measurement.py
+++ b/Patro/Measurement/Measurement.py
@@ -189,7 +189,11 @@ class MeasurementSet:
         return self._measurements[name]
 
     def __getattr__(self, name: str) -> Measurement:
-        return self._measurements[name]
+        # Note: _measurements itself is missing while an instance is copied or unpickled
+        try:
+            return self.__dict__['_measurements'][name]
+        except KeyError:
+            raise AttributeError(f"Measurement {name} is not registered")
 
     # Note: __setattr__ is called for by setattr
 
-- 
2.43.0


From 67770faae166638348da6ff47bf5112b3bc1636e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:26 +0000
Subject: [PATCH 060/177] fix: evaluate the measurements in full precision

---
 Patro/Measurement/Measurement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/Measurement/Measurement.py b/Patro/Measurement/Measurement.py
index 46dde72..3fd046c 100644
--- a/Patro/Measurement/Measurement.py
+++ b/Patro/Measurement/Measurement.py
@@ -117,7 +117,7 @@ class Measurement:
     @property
     def value(self) -> float:
         if self._value is None:
-            self._value = float(self.evaluated_expression.evalf(3))   # ensure a float or raise
+            self._value = float(self.evaluated_expression)   # ensure a float or raise
         return self._value
 
     def __float__(self) -> float:
-- 
2.43.0


From 1113f501c83d93a2c32c60cfa36088cb862e34ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:55 +0000
Subject: [PATCH 061/177] fix: resolve the measurement references in any order
 and depth

---
 Patro/Measurement/Measurement.py | 34 ++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/Patro/Measurement/Measurement.py b/Patro/Measurement/Measurement.py
index 3fd046c..6c574e4 100644
--- a/Patro/Measurement/Measurement.py
+++ b/Patro/Measurement/Measurement.py
@@ -111,7 +111,11 @@ class Measurement:
             # https://docs.sympy.org/latest/modules/core.html?highlight=subs#sympy.core.basic.Basic.subs
             # variable order doesn't matter, sympy do the job
             # self._evaluated_expression = self._expression.subs(self._measurements._expressions)
-            self._evaluated_expression = self._measurements.subs(self)
+            expression = self._measurements.subs(self)
+            if expression.free_symbols:
+                # some measurements are not yet registered
+                return expression
+            self._evaluated_expression = expression
         return self._evaluated_expression
 
     @property
@@ -211,7 +215,33 @@ class MeasurementSet:
     ##############################################
 
     def subs(self, measurement: Measurement) -> sympy.core.expr.Expr:
-        return measurement.expression.subs(self._expressions)
+
+        """Return the measurement's expression where each measurement name is replaced by its own
+        resolved expression, whatever the order and the depth of the references. A name which is not
+        (yet) registered is left as is.
+
+        """
+
+        # Note: sympy's subs applies the substitutions one after the other in its own order, thus a
+        # chain of references is not always resolved.
+        resolved = {}   # name -> expression
+        in_progress = set()
+        stack = [(measurement.name, sympy.sympify(measurement.expression))]
+        while stack:
+            name, expression = stack[-1]
+            symbols = [symbol for symbol in expression.free_symbols if symbol.name in self._expressions]
+            missing = [symbol.name for symbol in symbols if symbol.name not in resolved]
+            if missing:
+                in_progress.add(name)
+                for missing_name in missing:
+                    if missing_name in in_progress:
+                        raise ValueError(f"Circular definition of measurement {missing_name}")
+                    stack.append((missing_name, sympy.sympify(self._expressions[missing_name])))
+            else:
+                stack.pop()
+                in_progress.discard(name)
+                resolved[name] = expression.xreplace({symbol: resolved[symbol.name] for symbol in symbols})
+        return resolved[measurement.name]
 
     ##############################################
 
-- 
2.43.0


From 1e6e13125e6c3090a25df497a46c8e1f89004e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:55 +0000
Subject: [PATCH 062/177] fix: a measurement name can be a name defined by
 Sympy

---
 Patro/Measurement/Measurement.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/Patro/Measurement/Measurement.py b/Patro/Measurement/Measurement.py
index 6c574e4..1842f02 100644
--- a/Patro/Measurement/Measurement.py
+++ b/Patro/Measurement/Measurement.py
@@ -23,6 +23,7 @@ __all__ = ['MeasurementSet', 'Measurement']
 ####################################################################################################
 
 import logging
+import re
 from pathlib import Path
 from typing import Optional, Iterator
 
@@ -60,12 +61,20 @@ class Measurement:
             self._value = float(value)
         else:
             # https://docs.sympy.org/latest/modules/core.html#id1
-            self._expression = sympy.sympify(str(value))
+            self._expression = self._parse(str(value))
             self._evaluated_expression = None
             self._value = None
 
     ##############################################
 
+    @staticmethod
+    def _parse(expression: str) -> sympy.core.expr.Expr:
+        # an identifier is a measurement even if Sympy defines it, e.g. N, S or beta
+        names = re.findall(r'(?<!\w)(?!pi\b)[^\W\d]\w*\b(?!\s*\()', expression)
+        return sympy.sympify(expression, locals={name: sympy.Symbol(name) for name in names})
+
+    ##############################################
+
     @staticmethod
     def _validate_name(name: str) -> str:
         name = str(name)
-- 
2.43.0


From 4158ef9787966c917efe87ee8bf894c705ae4ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:16 +0000
Subject: [PATCH 063/177] fix: accept a numerical Valentina measurement

---
 Patro/Measurement/ValentinaMeasurement.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Patro/Measurement/ValentinaMeasurement.py b/Patro/Measurement/ValentinaMeasurement.py
index 4557f3c..4ea60ca 100644
--- a/Patro/Measurement/ValentinaMeasurement.py
+++ b/Patro/Measurement/ValentinaMeasurement.py
@@ -65,7 +65,8 @@ class ValentinaMeasurement(Measurement):
         #     name = name[1:]
         #     if name in _valentina_standard_measurement:
         #         name = self.CUSTOM_PREFIX + name
-        value = self.replace_custom_prefix(value)
+        if isinstance(value, str):
+            value = self.replace_custom_prefix(value)
         super().__init__(measurements, name, value, full_name, description)
 
     ##############################################
-- 
2.43.0


From c645553e03c04a43c394970f91a05119e1fe779a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:16 +0000
Subject: [PATCH 064/177] fix: a custom Valentina measurement is registered
 once

---
 Patro/Measurement/ValentinaMeasurement.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/Patro/Measurement/ValentinaMeasurement.py b/Patro/Measurement/ValentinaMeasurement.py
index 4ea60ca..9c32f6e 100644
--- a/Patro/Measurement/ValentinaMeasurement.py
+++ b/Patro/Measurement/ValentinaMeasurement.py
@@ -92,8 +92,6 @@ class ValentinaMeasurements(MeasurementSet):
 
     ##############################################
 
-    def add(self, *args: list, **kgwars: dict) -> None:
-        # Fixme: name ?
-        measurement = super().add(*args, **kgwars)
-        if measurement.is_custom():
-            self._measurements[measurement.valentina_name] = measurement
+    def __getitem__(self, name: str) -> ValentinaMeasurement:
+        # a custom measurement can be looked up by its name or its Valentina name
+        return super().__getitem__(ValentinaMeasurement.replace_custom_prefix(name))
-- 
2.43.0


From 8e861cab593b81e56788f5cb84dc77649092ae13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:19 +0000
Subject: [PATCH 065/177] fix: rewrite the custom measurements and functions of
 a formula as whole identifiers

---
 Patro/Pattern/Calculator.py | 86 +++++++++++++------------------------
 1 file changed, 29 insertions(+), 57 deletions(-)

diff --git a/Patro/Pattern/Calculator.py b/Patro/Pattern/Calculator.py
index c451853..6d011cf 100644
--- a/Patro/Pattern/Calculator.py
+++ b/Patro/Pattern/Calculator.py
@@ -22,6 +22,7 @@
 
 import ast
 import logging
+import re
 
 import astunparse
 # import astor
@@ -198,6 +199,17 @@ class Expression:
 
     _logger = _module_logger.getChild('Expression')
 
+    _FUNCTIONS = (
+        'Angle1Spl',
+        'Angle2Spl',
+        'AngleLine',
+        'CurrentLength',
+        'C1LengthSpl',
+        'C2LengthSpl',
+        'Line',
+        'Spl',
+    )
+
     ##############################################
 
     def __init__(self, expression, calculator=None):
@@ -238,22 +250,23 @@ class Expression:
 
     ##############################################
 
-    def _find_identifier(self, prefix, start=0):
+    def _pythonise_identifier(self, match):
 
-        """Find an identifier in a Python expression"""
+        """Return the Python code for an identifier of the expression"""
 
-        expression = self._expression
-        start = expression.find(prefix, start)
-        if start is -1:
-            return None, None
-        index = start + 1
-        while index < len(expression):
-            c = expression[index]
-            if 'a' <= c <= 'z' or 'A' <= c <= 'Z' or '0' <= c <= '9' or c in '_':
-                index += 1
-            else:
-                break
-        return expression[start:index], index + 1
+        name = match.group(0)
+
+        # Python don't accept identifier starting with @
+        # https://docs.python.org/3.5/reference/lexical_analysis.html#identifiers
+        if name.startswith('@'):
+            return self._calculator.measurements[name].name
+
+        # Replace special function like Line_A1_A2 to __calculator__._function_Line('A1', 'A2')
+        function, *args = name.split('_')
+        if function in self._FUNCTIONS and name not in self._calculator.cache:
+            return '__calculator__._function_' + function + '(' + ', '.join(["'{}'".format(x) for x in args]) + ')'
+
+        return name
 
     ##############################################
 
@@ -262,49 +275,8 @@ class Expression:
         expression = self._expression
         self._logger.debug("expression '{}'".format(expression))
 
-        # Python don't accept identifier starting with @
-        # Replace @foo by __custom__foo
-        # https://docs.python.org/3.5/reference/lexical_analysis.html#identifiers
-        if '@' in expression:
-            custom_measurements = []
-            start = 0
-            while True:
-                name, start = self._find_identifier('@', start)
-                if name is None:
-                    break
-                else:
-                    custom_measurements.append(name)
-            for measurement in custom_measurements:
-                py_name = self._calculator.measurements[measurement].name
-                expression = self.expression.replace(measurement, py_name)
-
-        # Replace special function like Line_A1_A2 to __calculator__._function_Line('A1', 'A2')
-        functions = []
-        for function in (
-                'Angle1Spl_',
-                'Angle2Spl_',
-                'AngleLine_',
-                'CurrentLength',
-                'C1LengthSpl_',
-                'C2LengthSpl_',
-                'Line_',
-                'Spl_',
-        ):
-            start = 0
-            while True:
-                name, start = self._find_identifier(function, start)
-                if name is None:
-                    break
-                else:
-                    functions.append(name)
-        # self._logger.debug('Functions ' + str(functions))
-        for function_call in functions:
-            parts = function_call.split('_')
-            function = parts[0]
-            args = parts[1:]
-            pythonised_function = '__calculator__._function_' + function + '(' + ', '.join(["'{}'".format(x) for x in args]) + ')'
-            # self._logger.debug('Function {} {} -> {}'.format(function, args, pythonised_function))
-            expression = expression.replace(function_call, pythonised_function)
+        # an identifier, or a number which must be skipped
+        expression = re.sub(r'\d[\w.]*|@?[^\W\d]\w*', self._pythonise_identifier, expression)
 
         self._logger.debug("Pythonised expression '{}'".format(expression))
 
-- 
2.43.0


From a86ee5d1178364a6d611d28ef32b5c3cb6ee14ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:19 +0000
Subject: [PATCH 066/177] fix: register the dependencies of all the functions
 of a formula

---
 Patro/Pattern/Calculator.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Patro/Pattern/Calculator.py b/Patro/Pattern/Calculator.py
index 6d011cf..42b5ae4 100644
--- a/Patro/Pattern/Calculator.py
+++ b/Patro/Pattern/Calculator.py
@@ -67,12 +67,12 @@ class NodeVisitor(ast.NodeVisitor):
         #   https://greentreesnakes.readthedocs.io/en/latest/index.html
 
         function = node.func
-        if isinstance(function, ast.Attribute) and function.value.id == '__calculator__':
+        if isinstance(function, ast.Attribute) and getattr(function.value, 'id', None) == '__calculator__':
             dag = self._calculator.dag
-            if function.attr == '_function_Line': # catched _function_Line.__calculator__
-                for arg in node.args:
-                    dependence = self._calculator._name_to_point(arg.s)
-                    self._dependencies.append(dependence)
+            # catched __calculator__._function_Line, and the other functions of points
+            for arg in node.args:
+                dependence = self._calculator._name_to_point(arg.value)
+                self._dependencies.append(dependence)
 
         self.generic_visit(node)
 
-- 
2.43.0


From f21bc650b7119e7a9842ec8025779abd6f94e622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:00 +0000
Subject: [PATCH 067/177] fix: attribute the operation ids per pattern instead
 of per process

---
 Patro/Pattern/Pattern.py         | 32 ++++++++++++++++++++++++++++++++
 Patro/Pattern/Sketch.py          |  1 +
 Patro/Pattern/SketchOperation.py | 18 ++++++++++++------
 3 files changed, 45 insertions(+), 6 deletions(-)

diff --git a/Patro/Pattern/Pattern.py b/Patro/Pattern/Pattern.py
index fb7763d..7711e45 100644
--- a/Patro/Pattern/Pattern.py
+++ b/Patro/Pattern/Pattern.py
@@ -49,6 +49,10 @@ class Pattern:
 
         self._scopes = [] # not a dict so as to don't manage renaming
 
+        # An operation id is unique over the scopes of the pattern
+        self._operation_ids = set()
+        self._last_operation_id = -1
+
     ##############################################
 
     @property
@@ -61,6 +65,23 @@ class Pattern:
 
     ##############################################
 
+    def has_operation_id(self, id):
+        return id in self._operation_ids
+
+    ##############################################
+
+    def new_operation_id(self):
+        """Return an id which is greater than the ids attributed so far."""
+        return self._last_operation_id + 1
+
+    ##############################################
+
+    def register_operation_id(self, id):
+        self._operation_ids.add(id)
+        self._last_operation_id = max(self._last_operation_id, id)
+
+    ##############################################
+
     @property
     def scopes(self):
         return iter(self._scopes)
@@ -127,3 +148,14 @@ class PatternScope(ObjectNameMixin):
     @property
     def sketch(self):
         return self._sketch
+
+    ##############################################
+
+    def has_operation_id(self, id):
+        return self._pattern.has_operation_id(id)
+
+    def new_operation_id(self):
+        return self._pattern.new_operation_id()
+
+    def register_operation_id(self, id):
+        self._pattern.register_operation_id(id)
diff --git a/Patro/Pattern/Sketch.py b/Patro/Pattern/Sketch.py
index a79fa0e..89e80b1 100644
--- a/Patro/Pattern/Sketch.py
+++ b/Patro/Pattern/Sketch.py
@@ -87,6 +87,7 @@ class Sketch:
     def _add_operation(self, operation):
 
         # Works as a post init
+        self._pattern.register_operation_id(operation.id)
         self._operations.append(operation)
         # Fixme: operation id, only for valentina ?
         self._operation_dict[operation.id] = operation
diff --git a/Patro/Pattern/SketchOperation.py b/Patro/Pattern/SketchOperation.py
index fc5d572..15d1526 100644
--- a/Patro/Pattern/SketchOperation.py
+++ b/Patro/Pattern/SketchOperation.py
@@ -29,7 +29,7 @@ A sketch operation must be build from the corresponding method of the Pattern cl
 
 import logging
 
-from Patro.Common.Object import ObjectGlobalIdMixin
+from Patro.Common.Object import ObjectCkeckedIdMixin
 from Patro.GeometryEngine.Bezier import CubicBezier2D
 from Patro.GeometryEngine.Conic import Circle2D
 from Patro.GeometryEngine.Line import Line2D
@@ -65,7 +65,7 @@ def quote(x):
 ####################################################################################################
 
 # metaclass = SketchOperationMetaClass
-class SketchOperation(ObjectGlobalIdMixin):
+class SketchOperation(ObjectCkeckedIdMixin):
 
     """Baseclass for sketch operation"""
 
@@ -80,16 +80,22 @@ class SketchOperation(ObjectGlobalIdMixin):
         # Valentina set an incremental integer id for each calculation (entity)
         # id is used to identify operation, see _get_operation
         # A calculation which generate a point has also a name
-        try:
-            super().__init__(id)
-        except ValueError:
-            raise NameError("id {} is already attributed".format(id))
+        super().__init__(id)
 
         self._dag_node = self._dag.add_node(pyid(self), data=self)
         self._dependencies = set()
 
     ##############################################
 
+    def new_id(self):
+        return self._sketch.pattern.new_operation_id()
+
+    def check_id(self, id):
+        if self._sketch.pattern.has_operation_id(id):
+            raise NameError("id {} is already attributed".format(id))
+
+    ##############################################
+
     @property
     def sketch(self):
         return self._sketch
-- 
2.43.0


From 78ec2609bdfd36d6d10e76e9f884a5aa0a852709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:00 +0000
Subject: [PATCH 068/177] fix: the regenerated code of an operation sets the
 line style and colour

---
 Patro/Pattern/SketchOperation.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Patro/Pattern/SketchOperation.py b/Patro/Pattern/SketchOperation.py
index 15d1526..7438f79 100644
--- a/Patro/Pattern/SketchOperation.py
+++ b/Patro/Pattern/SketchOperation.py
@@ -35,7 +35,7 @@ from Patro.GeometryEngine.Conic import Circle2D
 from Patro.GeometryEngine.Line import Line2D
 from Patro.GeometryEngine.Segment import Segment2D
 from Patro.GeometryEngine.Vector import Vector2D
-from Patro.GraphicStyle import StrokeStyle, Colors
+from Patro.GraphicStyle import StrokeStyle, Color, Colors
 from .Calculator import Expression
 
 # Rename id buitin
@@ -48,7 +48,7 @@ _module_logger = logging.getLogger(__name__)
 ####################################################################################################
 
 def quote(x):
-    return "'{}'".format(x)
+    return repr(str(x))
 
 ####################################################################################################
 
@@ -176,6 +176,10 @@ class SketchOperation(ObjectCkeckedIdMixin):
                     value_str = quote(value)
             elif isinstance(value, Vector2D):
                 value_str = 'Vector2D({0.x}, {0.y})'.format(value)
+            elif isinstance(value, StrokeStyle):
+                value_str = str(value)
+            elif isinstance(value, Color):
+                value_str = 'Color({})'.format(quote(value))
             else:
                 value_str = ''
             values.append(value_str)
-- 
2.43.0


From bea8ced4b7a03a2e13a77ce0e322f28c1189e661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:05 +0000
Subject: [PATCH 069/177] fix: set the unit and the pattern making system of
 the measurements read from a vit file

---
 Patro/FileFormat/Valentina/Measurement.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Patro/FileFormat/Valentina/Measurement.py b/Patro/FileFormat/Valentina/Measurement.py
index 3a26a19..38fda6d 100644
--- a/Patro/FileFormat/Valentina/Measurement.py
+++ b/Patro/FileFormat/Valentina/Measurement.py
@@ -88,11 +88,11 @@ class VitFileInternal(XmlFileMixin):
 
         measurements = self.measurements
 
-        version = self.get_xpath_element(tree, 'version').text
+        version = self.get_text_element(tree, 'version')
         # self.read_only = self.get_xpath_element(tree, 'read-only').text
         # self.notes = self.get_xpath_element(tree, 'notes').text
-        self.unit = self.get_xpath_element(tree, 'unit').text
-        self.pattern_making_system = self.get_xpath_element(tree, 'pm_system').text
+        measurements.unit = self.get_text_element(tree, 'unit')
+        measurements.pattern_making_system = self.get_text_element(tree, 'pm_system')
 
         personal = measurements.personal
         personal_element = self.get_xpath_element(tree, 'personal')
-- 
2.43.0


From cb0ee4d5afee89f8b8e57ea0b8f89b8786301055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:05 +0000
Subject: [PATCH 070/177] fix: the personal data of a vit file are optional,
 and can be a customer or a family and given name

---
 Patro/FileFormat/Valentina/Measurement.py | 15 ++++++++-------
 Patro/Measurement/PersonalData.py         | 12 ++++++++++++
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/Patro/FileFormat/Valentina/Measurement.py b/Patro/FileFormat/Valentina/Measurement.py
index 38fda6d..2d141a3 100644
--- a/Patro/FileFormat/Valentina/Measurement.py
+++ b/Patro/FileFormat/Valentina/Measurement.py
@@ -96,13 +96,14 @@ class VitFileInternal(XmlFileMixin):
 
         personal = measurements.personal
         personal_element = self.get_xpath_element(tree, 'personal')
-        # replace last_name first_name
-        personal.customer = self.get_xpath_element(personal_element, 'customer').text
-        # personal.last_name = self.get_xpath_element(personal_element, 'family-name').text
-        # personal.first_name = self.get_xpath_element(personal_element, 'given-name').text
-        personal.birth_date = self.get_xpath_element(personal_element, 'birth-date').text
-        personal.gender = Gender[self.get_xpath_element(personal_element, 'gender').text.upper()]
-        personal.email = self.get_xpath_element(personal_element, 'email').text
+        if personal_element is not None:
+            # customer replaces last_name first_name
+            personal.customer = self.get_text_element(personal_element, 'customer') or ''
+            personal.last_name = self.get_text_element(personal_element, 'family-name') or ''
+            personal.first_name = self.get_text_element(personal_element, 'given-name') or ''
+            personal.birth_date = self.get_text_element(personal_element, 'birth-date') or None
+            personal.gender = Gender[(self.get_text_element(personal_element, 'gender') or 'unknown').upper()]
+            personal.email = self.get_text_element(personal_element, 'email') or ''
 
         elements = self.get_xpath_element(tree, 'body-measurements')
         for element in elements:
diff --git a/Patro/Measurement/PersonalData.py b/Patro/Measurement/PersonalData.py
index d0bf81c..0546a02 100644
--- a/Patro/Measurement/PersonalData.py
+++ b/Patro/Measurement/PersonalData.py
@@ -44,6 +44,7 @@ class PersonalData:
 
     def __init__(self, **kwargs: dict) -> None:
 
+        self._customer = None
         self._first_name = None
         self._last_name = None
         self._birth_date = None   # to get age
@@ -53,6 +54,7 @@ class PersonalData:
         self._comment = None   # any useful information to adapt garment to the person
 
         for key, default in (
+                ('customer', ''),   # Valentina full name
                 ('first_name', ''),   # Fixme: str_or_none ?
                 ('last_name', ''),
                 ('birth_date', None),
@@ -65,6 +67,16 @@ class PersonalData:
 
     ##############################################
 
+    @property
+    def customer(self) -> str:
+        return self._customer
+
+    @customer.setter
+    def customer(self, value: str) -> None:
+        self._customer = str(value)
+
+    ##############################################
+
     @property
     def first_name(self) -> str:
         return self._first_name
-- 
2.43.0


From 6e5396952722eddd7b770493c710eb1f06ad4601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:05 +0000
Subject: [PATCH 071/177] fix: skip the comments in the measurements of a vit
 file

---
 Patro/FileFormat/Valentina/Measurement.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Patro/FileFormat/Valentina/Measurement.py b/Patro/FileFormat/Valentina/Measurement.py
index 2d141a3..697a3a5 100644
--- a/Patro/FileFormat/Valentina/Measurement.py
+++ b/Patro/FileFormat/Valentina/Measurement.py
@@ -107,7 +107,9 @@ class VitFileInternal(XmlFileMixin):
 
         elements = self.get_xpath_element(tree, 'body-measurements')
         for element in elements:
-             if element.tag == XmlMeasurement.__tag__:
+             if not isinstance(element.tag, str):
+                 continue # comment
+             elif element.tag == XmlMeasurement.__tag__:
                  xml_measurement = XmlMeasurement(element)
                  measurements.add(**xml_measurement.to_dict())
              else:
-- 
2.43.0


From 0bdfbedc853d9ab1e3df4cf6e85c046093ff6940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:19 +0000
Subject: [PATCH 072/177] fix: a stroke style attribute given by its Valentina
 name is written as it is read

---
 Patro/FileFormat/Valentina/VitFormat.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/Patro/FileFormat/Valentina/VitFormat.py b/Patro/FileFormat/Valentina/VitFormat.py
index 111c852..8b17173 100644
--- a/Patro/FileFormat/Valentina/VitFormat.py
+++ b/Patro/FileFormat/Valentina/VitFormat.py
@@ -114,21 +114,22 @@ class StrokeStyleAttribute(Attribute):
         'none': StrokeStyle.NoPen,
     }
 
-    # Fixme: from_xml to_xml ???
     __TO_STROKE_STYLE__ = {value:name for name, value in __STROKE_STYLE__.items()}
-    __STROKE_STYLE__.update(__TO_STROKE_STYLE__)
 
     ##############################################
 
     @classmethod
     def from_xml(cls, value):
-        return cls.__STROKE_STYLE__[value]
+        if isinstance(value, StrokeStyle): # Python value
+            return value
+        else:
+            return cls.__STROKE_STYLE__[value]
 
     ##############################################
 
-    # @classmethod
-    # def to_xml(cls, value):
-    #     return cls.__TO_STROKE_STYLE__[value]
+    @classmethod
+    def to_xml(cls, value):
+        return cls.__TO_STROKE_STYLE__[value]
 
 ####################################################################################################
 
-- 
2.43.0


From d58bd77fdfe3ce663f0d70d550831e6f09648c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:19 +0000
Subject: [PATCH 073/177] fix: write a Valentina colour by its name

---
 Patro/FileFormat/Valentina/VitFormat.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/Patro/FileFormat/Valentina/VitFormat.py b/Patro/FileFormat/Valentina/VitFormat.py
index 8b17173..20f7533 100644
--- a/Patro/FileFormat/Valentina/VitFormat.py
+++ b/Patro/FileFormat/Valentina/VitFormat.py
@@ -101,6 +101,15 @@ class ColorAttribute(Attribute):
     def from_xml(cls, value):
         return Colors.ensure_color(value)
 
+    ##############################################
+
+    @classmethod
+    def to_xml(cls, value):
+        if value.name in cls.__COLORS__:
+            return value.name
+        else:
+            return str(value)
+
 ####################################################################################################
 
 class StrokeStyleAttribute(Attribute):
-- 
2.43.0


From 6eebaee333b6096a6ed6bf9559162632a7bb02cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:19 +0000
Subject: [PATCH 074/177] fix: read and write the colour and the pen style of a
 spline

---
 Patro/FileFormat/Valentina/VitFormat.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Patro/FileFormat/Valentina/VitFormat.py b/Patro/FileFormat/Valentina/VitFormat.py
index 20f7533..16fc37b 100644
--- a/Patro/FileFormat/Valentina/VitFormat.py
+++ b/Patro/FileFormat/Valentina/VitFormat.py
@@ -652,7 +652,8 @@ class SimpleInteractiveSpline(SplineMixin, XmlObjectAdaptator):
         StringAttribute('length2'),
         StringAttribute('angle1'),
         StringAttribute('angle2'),
-        StringAttribute('line_color', 'color'),
+        ColorAttribute('line_color', 'color'),
+        StrokeStyleAttribute('line_style', 'penStyle', default=StrokeStyle.SolidLine),
     )
     __operation__ = SketchOperation.SimpleInteractiveSpline
 
-- 
2.43.0


From 2d8a4186bdb187560d42834bdc6534c7a084f91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:19 +0000
Subject: [PATCH 075/177] fix: the sizes and rotations of a Valentina detail
 are real numbers

---
 Patro/FileFormat/Valentina/VitFormat.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Patro/FileFormat/Valentina/VitFormat.py b/Patro/FileFormat/Valentina/VitFormat.py
index 16fc37b..d595f0a 100644
--- a/Patro/FileFormat/Valentina/VitFormat.py
+++ b/Patro/FileFormat/Valentina/VitFormat.py
@@ -796,7 +796,7 @@ class Detail(MxMyMixin, XmlObjectAdaptator):
         IntAttribute('id'),
         IntAttribute('version'),
         BoolAttribute('forbidFlipping'),
-        IntAttribute('width'),
+        FloatAttribute('width'),
         BoolAttribute('united'),
         StringAttribute('name'),
         BoolAttribute('inLayout'),
@@ -828,7 +828,7 @@ class VisibleRotationMixin:
 
     __attributes__ = (
         BoolAttribute('visible'),
-        IntAttribute('rotation'),
+        FloatAttribute('rotation'),
     )
 
 ####################################################################################################
@@ -836,8 +836,8 @@ class VisibleRotationMixin:
 class HeightWidthMixin:
 
     __attributes__ = (
-        IntAttribute('height'),
-        IntAttribute('width'),
+        FloatAttribute('height'),
+        FloatAttribute('width'),
     )
 
 ####################################################################################################
@@ -874,7 +874,7 @@ class DetailGrainline(MxMyMixin, VisibleRotationMixin, XmlObjectAdaptator):
 
     __attributes__ = (
         IntAttribute('arrows'),
-        IntAttribute('length'),
+        FloatAttribute('length'),
     )
 
 ####################################################################################################
-- 
2.43.0


From 1863d72ab0c1b74ae5b3e05e3afe0c85259beeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:19 +0000
Subject: [PATCH 076/177] fix: skip the comments and the unknown elements of a
 Valentina pattern

---
 Patro/FileFormat/Valentina/Pattern.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/Patro/FileFormat/Valentina/Pattern.py b/Patro/FileFormat/Valentina/Pattern.py
index 1cd2fef..0e51d57 100644
--- a/Patro/FileFormat/Valentina/Pattern.py
+++ b/Patro/FileFormat/Valentina/Pattern.py
@@ -87,7 +87,7 @@ class Dispatcher:
 
     def from_xml(self, element):
 
-        tag_cls = self.__TAGS__[element.tag]
+        tag_cls = self.__TAGS__.get(element.tag, None)
         if tag_cls is not None:
             return tag_cls(element)
         else:
@@ -144,9 +144,9 @@ class CalculationDispatcher(Dispatcher):
 
     def from_xml(self, element):
 
-        tag_cls = self.__TAGS__[element.tag]
+        tag_cls = self.__TAGS__.get(element.tag, None)
         if hasattr(tag_cls, '__TYPES__'):
-            cls = tag_cls.__TYPES__[element.attrib['type']]
+            cls = tag_cls.__TYPES__.get(element.attrib['type'], None)
         else:
             cls = tag_cls
         if cls is not None:
@@ -317,9 +317,12 @@ class ValFileReaderInternal(XmlFileMixin):
 
         modeling = Modeling()
         for element in self.get_xpath_element(piece, 'modeling'):
-            xml_modeling_item = _modeling_dispatcher.from_xml(element)
-            modeling.add(xml_modeling_item)
-            self._logger.info('Modeling {}'.format(xml_modeling_item))
+            try:
+                xml_modeling_item = _modeling_dispatcher.from_xml(element)
+                modeling.add(xml_modeling_item)
+                self._logger.info('Modeling {}'.format(xml_modeling_item))
+            except NotImplementedError:
+                self._logger.warning('Not implemented modeling\n' +  str(etree.tostring(element)))
 
         # details = []
         for detail_element in self.get_xpath_element(piece, 'details'):
@@ -338,9 +341,12 @@ class ValFileReaderInternal(XmlFileMixin):
                     xml_node = DetailNode(node)
                     xml_detail.append_node(xml_node)
             else:
-                xml_modeling_item = _detail_dispatcher.from_xml(element)
-                # Fixme: xml_detail. = xml_modeling_item
-                print(xml_modeling_item)
+                try:
+                    xml_modeling_item = _detail_dispatcher.from_xml(element)
+                    # Fixme: xml_detail. = xml_modeling_item
+                    print(xml_modeling_item)
+                except NotImplementedError:
+                    self._logger.warning('Not implemented detail\n' +  str(etree.tostring(element)))
 
         for node, modeling_item in xml_detail.iter_on_nodes():
             # print(node.object_id, '->', modeling_item, '->', modeling_item.object_id)
-- 
2.43.0


From d31d8c6339466a89bd4e5ed671d499fb59cc1930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:25 +0000
Subject: [PATCH 077/177] fix: write a Valentina colour by its name only when
 it has its value

---
 Patro/FileFormat/Valentina/VitFormat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/FileFormat/Valentina/VitFormat.py b/Patro/FileFormat/Valentina/VitFormat.py
index d595f0a..069927c 100644
--- a/Patro/FileFormat/Valentina/VitFormat.py
+++ b/Patro/FileFormat/Valentina/VitFormat.py
@@ -105,7 +105,7 @@ class ColorAttribute(Attribute):
 
     @classmethod
     def to_xml(cls, value):
-        if value.name in cls.__COLORS__:
+        if value.name in cls.__COLORS__ and value == Colors[value.name]:
             return value.name
         else:
             return str(value)
-- 
2.43.0


From d4b1ec031621feb486dfd4b347272ca6f6280ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:18 +0000
Subject: [PATCH 078/177] fix: a closed path stays closed when its start point
 is moved

---
 Patro/GeometryEngine/Path.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index 9e21475..929456d 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -937,11 +937,20 @@ class Path2D(Primitive1PMixin, Primitive2DMixin, PointPrimitive):
 
     def __init__(self, start_point):
 
-        Primitive1PMixin.__init__(self, start_point)
-
         self._parts = [] # Fixme: segment ???
         self._is_closed = False
 
+        Primitive1PMixin.__init__(self, start_point)
+
+    ##############################################
+
+    @Primitive1PMixin.p0.setter
+    def p0(self, value):
+        Primitive1PMixin.p0.fset(self, value)
+        if self._is_closed:
+            # the closing segment ends at the start point
+            self.stop_segment.point = self._p0
+
     ##############################################
 
     def clone(self):
-- 
2.43.0


From 501bc618d0170882426a8fade19d64645da50386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:45 +0000
Subject: [PATCH 079/177] fix: SVG transform lists are parsed, composed and
 written as specified

---
 Patro/FileFormat/Svg/SvgFormat.py | 81 ++++++++++++++++++++++---------
 1 file changed, 57 insertions(+), 24 deletions(-)

diff --git a/Patro/FileFormat/Svg/SvgFormat.py b/Patro/FileFormat/Svg/SvgFormat.py
index c8882bf..8ae5799 100644
--- a/Patro/FileFormat/Svg/SvgFormat.py
+++ b/Patro/FileFormat/Svg/SvgFormat.py
@@ -67,6 +67,8 @@ __all__ = [
 ####################################################################################################
 
 import logging
+import math
+import re
 
 from Patro.Common.Xml.Objectivity import (
     # BoolAttribute,
@@ -88,8 +90,33 @@ _module_logger = logging.getLogger(__name__)
 
 ####################################################################################################
 
-def split_space_list(value):
-    return [x for x in value.split(' ') if x]
+NUMBER_REGEXP = re.compile(r'[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?')
+FLAG_REGEXP = re.compile(r'[01]')
+WSP_REGEXP = re.compile(r'\s*')
+COMMA_WSP_REGEXP = re.compile(r'\s*,?\s*')
+
+def parse_numbers(data, position=0, regexps=(NUMBER_REGEXP,)):
+    """Parse numbers, separated by an optional comma and spaces, starting at the given position.
+    *regexps* is the pattern of each number of a group, which can be repeated.
+
+    Return the list of groups and the position after the last one and the spaces that follow.
+
+    """
+    groups = []
+    separator = WSP_REGEXP
+    while True:
+        group = []
+        for regexp in regexps:
+            start = separator.match(data, position).end()
+            match = regexp.match(data, start)
+            if match is None:
+                if group or data.find(',', position, start) != -1:
+                    raise ValueError("A number is expected at {} in '{}'".format(start, data))
+                return groups, start
+            group.append(float(match.group()))
+            position = match.end()
+            separator = COMMA_WSP_REGEXP
+        groups.append(group)
 
 ####################################################################################################
 #
@@ -425,14 +452,19 @@ class SizeMixin:
 
 class TransformAttribute(StringAttribute):
 
-    TRANSFORM = (
-        'matrix',
-        'rotate',
-        'scale',
-        'skewX',
-        'skewY',
-        'translate'
-    )
+    # allowed number of arguments
+    TRANSFORM = {
+        'matrix': (6,),
+        'rotate': (1, 3),
+        'scale': (1, 2),
+        'skewX': (1,),
+        'skewY': (1,),
+        'translate': (1, 2),
+    }
+
+    TRANSFORM_REGEXP = re.compile(r'({})\s*\(([^()]*)\)'.format('|'.join(TRANSFORM)))
+    TRANSFORM_LIST_REGEXP = re.compile(
+        r'\s*(?:{0}(?:[\s,]*{0})*)?\s*'.format(r'(?:{})\s*\([^()]*\)'.format('|'.join(TRANSFORM))))
 
     ##############################################
 
@@ -443,16 +475,15 @@ class TransformAttribute(StringAttribute):
             # Python value
             return value
         else:
+            if not cls.TRANSFORM_LIST_REGEXP.fullmatch(value):
+                raise ValueError("Invalid transform list: '{}'".format(value))
             transforms = []
-            for transform in split_space_list(value):
-                pos0 = value.find('(')
-                pos1 = value.find(')')
-                if pos0 == -1 or pos1 != len(value) -1:
-                    raise ValueError
-                transform_type = value[:pos0]
-                values = [float(x) for x in value[pos0+1:-1].split(',')]
+            for transform_type, args in cls.TRANSFORM_REGEXP.findall(value):
+                groups, position = parse_numbers(args)
+                values = [group[0] for group in groups]
+                if position != len(args) or len(values) not in cls.TRANSFORM[transform_type]:
+                    raise ValueError("Invalid transform arguments: '{}'".format(value))
                 transforms.append((transform_type, values))
-                # Fixme:
 
             # return transforms
             return cls.to_python(transforms, concat=True)
@@ -461,9 +492,10 @@ class TransformAttribute(StringAttribute):
 
     @classmethod
     def to_xml(cls, value):
-        # Fixme: wrong if value is AffineTransformation2D !!!
         # Fixme: to func
-        return 'matrix({})'.format(' '.join([str(x) for x in value.to_list()]))
+        array = value.array
+        # a b c d e f is column-major
+        return 'matrix({})'.format(' '.join([str(float(x)) for x in array[:2].transpose().flat]))
 
     ##############################################
 
@@ -491,14 +523,15 @@ class TransformAttribute(StringAttribute):
                 transform = AffineTransformation2D.RotationAt(vector, angle)
             elif name == 'skewX':
                 angle = values[0]
-                raise NotImplementedError
+                transform = AffineTransformation2D((1, math.tan(math.radians(angle)), 0, 0, 1, 0, 0, 0, 1))
             elif name == 'skewY':
                 angle = values[0]
-                raise NotImplementedError
+                transform = AffineTransformation2D((1, 0, 0, math.tan(math.radians(angle)), 1, 0, 0, 0, 1))
             else:
                 raise NotImplementedError
             if concat:
-                global_transform = transform * global_transform
+                # the last one is applied first
+                global_transform = global_transform * transform
             else:
                 py_transforms.append(transform)
 
@@ -970,7 +1003,7 @@ class PathDataAttribute(StringAttribute):
                 data_path += ' '
         # Convert float values
         parts = []
-        for part in split_space_list(cleaned_svg_path):
+        for part in cleaned_svg_path.split():
             if not(len(part) == 1 and part.isalpha()):
                 part = float(part)
             parts.append(part)
-- 
2.43.0


From 25c5bb32a9d450011ff13ab2fc45f1771c4a57ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:45 +0000
Subject: [PATCH 080/177] fix: SVG path data are parsed whatever the separators

---
 Patro/FileFormat/Svg/SvgFormat.py | 65 +++++++++++++------------------
 1 file changed, 27 insertions(+), 38 deletions(-)

diff --git a/Patro/FileFormat/Svg/SvgFormat.py b/Patro/FileFormat/Svg/SvgFormat.py
index 8ae5799..7186af6 100644
--- a/Patro/FileFormat/Svg/SvgFormat.py
+++ b/Patro/FileFormat/Svg/SvgFormat.py
@@ -977,7 +977,7 @@ class PathDataAttribute(StringAttribute):
         'c':6,
         's':4,
         'q':4,
-        't':3,
+        't':2,
         'a':7,
         'z':0,
         }
@@ -993,44 +993,33 @@ class PathDataAttribute(StringAttribute):
 
         # cls._logger.info('SVG path:\n'+ svg_path)
 
-        # Replace comma separator by space
-        cleaned_svg_path = svg_path.replace(',', ' ')
-        # Add space after letter
-        data_path = ''
-        for c in cleaned_svg_path:
-            data_path += c
-            if c.isalpha:
-                data_path += ' '
-        # Convert float values
-        parts = []
-        for part in cleaned_svg_path.split():
-            if not(len(part) == 1 and part.isalpha()):
-                part = float(part)
-            parts.append(part)
-
         commands = []
-        command = None # last command
-        number_of_args = None
-        i = 0
-        while i < len(parts):
-            part = parts[i]
-            if isinstance(part, str):
-                command = part
-                command_lower = command.lower()
-                if command_lower not in cls.COMMANDS:
-                    raise ValueError("Invalid path instruction: '{}' in\n{}".format(command, svg_path))
-                number_of_args = cls.NUMBER_OF_ARGS[command_lower]
-                i += 1 # move to first arg
-            # else repeated instruction
-            next_i = i + number_of_args
-            args = parts[i:next_i]
-            commands.append((command, args))
-            i = next_i
-            # for implicit line to
-            if command == 'm':
-                command = 'l'
-            elif command == 'M':
-                command = 'L'
+        position = WSP_REGEXP.match(svg_path).end()
+        while position < len(svg_path):
+            command = svg_path[position]
+            command_lower = command.lower()
+            if command_lower not in cls.NUMBER_OF_ARGS:
+                raise ValueError("Invalid path instruction: '{}' in\n{}".format(command, svg_path))
+            position += 1 # move to first arg
+            number_of_args = cls.NUMBER_OF_ARGS[command_lower]
+            if number_of_args == 0:
+                commands.append((command, []))
+                position = WSP_REGEXP.match(svg_path, position).end()
+                continue
+            regexps = [NUMBER_REGEXP] * number_of_args
+            if command_lower == 'a':
+                regexps[3] = regexps[4] = FLAG_REGEXP
+            # an instruction can be repeated
+            groups, position = parse_numbers(svg_path, position, regexps)
+            if not groups:
+                raise ValueError("Missing arguments for '{}' in\n{}".format(command, svg_path))
+            for args in groups:
+                commands.append((command, args))
+                # for implicit line to
+                if command == 'm':
+                    command = 'l'
+                elif command == 'M':
+                    command = 'L'
 
         # return commands
         # Fixme: do later ???
-- 
2.43.0


From 8f5d9c7b8497ab93aaf0962ed98d17c8b41c3f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:19 +0000
Subject: [PATCH 081/177] fix: SVG smooth cubic and quadratic commands were
 swapped

---
 Patro/FileFormat/Svg/SvgFormat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/FileFormat/Svg/SvgFormat.py b/Patro/FileFormat/Svg/SvgFormat.py
index 7186af6..194eb8c 100644
--- a/Patro/FileFormat/Svg/SvgFormat.py
+++ b/Patro/FileFormat/Svg/SvgFormat.py
@@ -1079,11 +1079,11 @@ class PathDataAttribute(StringAttribute):
                 elif command_lower == 'c':
                     path.cubic_to(*cls.as_vector(args), absolute=absolute)
                 elif command_lower == 's':
-                    path.stringed_quadratic_to(*cls.as_vector(args), absolute=absolute)
+                    path.stringed_cubic_to(*cls.as_vector(args), absolute=absolute)
                 elif command_lower == 'q':
                     path.quadratic_to(*cls.as_vector(args), absolute=absolute)
                 elif command_lower == 't':
-                    path.stringed_cubic_to(*cls.as_vector(args), absolute=absolute)
+                    path.stringed_quadratic_to(*cls.as_vector(args), absolute=absolute)
                 elif command_lower == 'a':
                     radius_x, radius_y, angle, large_arc, sweep, x, y = args
                     point = Vector2D(x, y)
-- 
2.43.0


From 3934238055d705eb643f3bab90e20394d8cb40a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:50 +0000
Subject: [PATCH 082/177] fix: a path can be printed and written as SVG path
 data

---
 Patro/FileFormat/Svg/SvgFormat.py | 56 ++++++++++++++++++++++++++++++-
 Patro/GeometryEngine/Path.py      | 18 ++++++++++
 2 files changed, 73 insertions(+), 1 deletion(-)

diff --git a/Patro/FileFormat/Svg/SvgFormat.py b/Patro/FileFormat/Svg/SvgFormat.py
index 194eb8c..60ffa2d 100644
--- a/Patro/FileFormat/Svg/SvgFormat.py
+++ b/Patro/FileFormat/Svg/SvgFormat.py
@@ -80,7 +80,15 @@ from Patro.Common.Xml.Objectivity import (
 )
 
 # Fixme: should we mix SVG format and ... ???
-from Patro.GeometryEngine.Path import Path2D
+from Patro.GeometryEngine.Path import (
+    ArcSegment,
+    CubicBezierSegment,
+    LinearSegment,
+    Path2D,
+    QuadraticBezierSegment,
+    StringedCubicBezierSegment,
+    StringedQuadraticBezierSegment,
+)
 from Patro.GeometryEngine.Transformation import AffineTransformation2D
 from Patro.GeometryEngine.Vector import Vector2D
 
@@ -1030,6 +1038,9 @@ class PathDataAttribute(StringAttribute):
     @classmethod
     def to_xml(cls, value):
 
+        if isinstance(value, Path2D):
+            value = cls.from_geometry(value)
+
         path_data = ''
         for command in value:
             if path_data:
@@ -1039,6 +1050,49 @@ class PathDataAttribute(StringAttribute):
 
     ##############################################
 
+    @classmethod
+    def from_geometry(cls, path):
+
+        """Return the absolute commands of a path, it is the reciprocal of :meth:`to_geometry`."""
+
+        commands = []
+
+        def append(command, *points):
+            commands.append((command, [float(x) for point in points for x in (point.x, point.y)]))
+
+        def append_bulge(part):
+            radius = part.radius
+            commands.append(('A', [radius, radius, 0, 0, int(part.bulge_angle > 0)]))
+            stop_point = part.bulge_stop_point
+            commands[-1][1].extend((float(stop_point.x), float(stop_point.y)))
+
+        parts = list(path)
+        start_bulge = bool(parts) and getattr(parts[0], 'radius', None) is not None
+        append('M', parts[0].points[0] if start_bulge else path.p0)
+        for part in parts:
+            closing = path.is_closed and part is path.stop_segment
+            if isinstance(part, LinearSegment):
+                if part.radius is not None and part is not parts[0]:
+                    append_bulge(part)
+                if start_bulge or not closing:
+                    append('L', part.points[1])
+            elif isinstance(part, (QuadraticBezierSegment, StringedQuadraticBezierSegment)):
+                append('Q', *part.points[1:])
+            elif isinstance(part, (CubicBezierSegment, StringedCubicBezierSegment)):
+                append('C', *part.points[1:])
+            elif isinstance(part, ArcSegment):
+                commands.append(('A', part.svg_arguments))
+            else:
+                raise NotImplementedError
+            if closing:
+                if start_bulge:
+                    append_bulge(parts[0])
+                commands.append(('Z', []))
+
+        return commands
+
+    ##############################################
+
     @classmethod
     def as_vector(cls, args):
 
diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index 929456d..7c43f18 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -900,6 +900,19 @@ class ArcSegment(OnePointMixin, PathPart):
 
     ##############################################
 
+    @property
+    def svg_arguments(self):
+        """Arguments of the absolute SVG arc command"""
+        point = self.stop_point
+        return [
+            self._radius_x, self._radius_y,
+            self._angle,
+            int(self._large_arc), int(self._sweep),
+            float(point.x), float(point.y),
+        ]
+
+    ##############################################
+
     @property
     def geometry(self):
         return Ellipse2D.svg_arc(
@@ -967,6 +980,11 @@ class Path2D(Primitive1PMixin, Primitive2DMixin, PointPrimitive):
 
     ##############################################
 
+    def __repr__(self):
+        return '{0}({1._p0}, {1._parts})'.format(self.__class__.__name__, self)
+
+    ##############################################
+
     def __len__(self):
         return len(self._parts)
 
-- 
2.43.0


From a9c20c6a0fdb43f9081f05ba9740102f5e544dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:50 +0000
Subject: [PATCH 083/177] fix: SVG polygon tag, identifier and transformation
 of an ellipse

---
 Patro/FileFormat/Svg/SvgFormat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/FileFormat/Svg/SvgFormat.py b/Patro/FileFormat/Svg/SvgFormat.py
index 60ffa2d..136771b 100644
--- a/Patro/FileFormat/Svg/SvgFormat.py
+++ b/Patro/FileFormat/Svg/SvgFormat.py
@@ -779,7 +779,7 @@ class Desc(XmlObjectAdaptator):
 
 ####################################################################################################
 
-class Ellipse(CenterMixin, PathMixin, StyleMixin, XmlObjectAdaptator):
+class Ellipse(CenterMixin, PathMixin, SvgElementMixin, XmlObjectAdaptator):
 
     """Defines an ellipse"""
 
@@ -1197,7 +1197,7 @@ class Polygon(Polyline, XmlObjectAdaptator):
 
     """Defines any shape that consists of only straight lines"""
 
-    __tag__ = 'polyline'
+    __tag__ = 'polygon'
 
     # fill-rule="part of the FillStroke presentation attributes"
 
-- 
2.43.0


From 2f03756021a6528f86fa2fab2d0307583d35c8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:50 +0000
Subject: [PATCH 084/177] fix: SVG lengths with a unit or a percentage are
 written as read

---
 Patro/FileFormat/Svg/SvgFormat.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/Patro/FileFormat/Svg/SvgFormat.py b/Patro/FileFormat/Svg/SvgFormat.py
index 136771b..591d00e 100644
--- a/Patro/FileFormat/Svg/SvgFormat.py
+++ b/Patro/FileFormat/Svg/SvgFormat.py
@@ -298,9 +298,15 @@ class UnitValue:
 
     ##############################################
 
-    def __str__(self):
+    @property
+    def unit(self):
         return self._unit
 
+    ##############################################
+
+    def __str__(self):
+        return '{}{}'.format(self._value, self._unit)
+
 ####################################################################################################
 
 class PercentLengthAttribute(InheritAttribute):
@@ -313,18 +319,18 @@ class PercentLengthAttribute(InheritAttribute):
         if value.endswith('%'):
             return PercentValue(value[:-1])
         elif value[-1].isalpha():
-            return UnitValue(value[:-2], value[-2])
+            return UnitValue(value[:-2], value[-2:])
         else:
             return float(value)
 
     ##############################################
 
     @classmethod
-    def _to_xml(cls, value):
+    def to_xml(cls, value):
 
         # Fixme: ok ???
         if isinstance(value, PercentValue):
-            return '{}%'.format(float(value))
+            return '{}%'.format(float(value) * 100)
         elif isinstance(value, UnitValue):
             return '{}{}'.format(float(value), value.unit)
         else:
-- 
2.43.0


From 3a043d223d2b5381c50054b2e46cdeb6b3f910b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:50 +0000
Subject: [PATCH 085/177] fix: SVG rectangle default position and corner radius

---
 Patro/FileFormat/Svg/SvgFormat.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Patro/FileFormat/Svg/SvgFormat.py b/Patro/FileFormat/Svg/SvgFormat.py
index 591d00e..e66983b 100644
--- a/Patro/FileFormat/Svg/SvgFormat.py
+++ b/Patro/FileFormat/Svg/SvgFormat.py
@@ -1248,12 +1248,13 @@ class Rect(PositionMixin, RadiusMixin, SizeMixin, PathMixin, SvgElementMixin, Xm
         # Fixme: which one ???
         radius_x = self.rx
         radius_y = self.ry
-        if radius_y == 0:
+        # a missing radius is equal to the other one
+        radius = radius_x if radius_y is None else radius_y
+        if not radius or radius_x == 0:
             radius = None
-        else:
-            radius = radius_y
 
-        point = Vector2D(self.x, self.y)
+        # position is zero by default
+        point = Vector2D(self.x or 0, self.y or 0)
         path = Path2D(point)
         path.horizontal_to(width)
         path.vertical_to(height, radius=radius)
-- 
2.43.0


From 3610e3db4332b498199c0d326437b60346aae2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:50 +0000
Subject: [PATCH 086/177] fix: state of a SVG group leaked on the next elements

---
 Patro/FileFormat/Svg/SvgFile.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Patro/FileFormat/Svg/SvgFile.py b/Patro/FileFormat/Svg/SvgFile.py
index bea1f95..9cd4928 100644
--- a/Patro/FileFormat/Svg/SvgFile.py
+++ b/Patro/FileFormat/Svg/SvgFile.py
@@ -283,6 +283,9 @@ class SvgDispatcher:
 
         self.on_root(element)
 
+        # a group only applies to its content
+        self._state_stack.pop()
+
     ##############################################
 
     def on_graphic_item(self, element):
-- 
2.43.0


From 2095ea01e285d25c6ff2cbd3efd8a175958cd81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:50 +0000
Subject: [PATCH 087/177] fix: SVG comments, missing view box and view box size

---
 Patro/FileFormat/Svg/SvgFile.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/Patro/FileFormat/Svg/SvgFile.py b/Patro/FileFormat/Svg/SvgFile.py
index 9cd4928..13f366a 100644
--- a/Patro/FileFormat/Svg/SvgFile.py
+++ b/Patro/FileFormat/Svg/SvgFile.py
@@ -264,6 +264,8 @@ class SvgDispatcher:
     def on_root(self, root):
 
         for element in root:
+            if not isinstance(element.tag, str):
+                continue # comment
             tag = self.element_tag(element)
             if tag == 'g':
                 self.on_group(element)
@@ -360,8 +362,12 @@ class SvgFileInternal(XmlFileMixin, SvgFileMixin):
     ##############################################
 
     def on_svg_root(self, svg_root):
-        x_inf, y_inf, x_sup, y_sup = svg_root.view_box
-        self._view_box = Interval2D((x_inf, x_sup), (y_inf, y_sup))
+        if svg_root.view_box is not None:
+            # "min-x min-y width height"
+            x_inf, y_inf, width, height = svg_root.view_box
+            self._view_box = Interval2D((x_inf, x_inf + width), (y_inf, y_inf + height))
+        else:
+            self._view_box = None
         self._width = svg_root.width
         self._height = svg_root.height
 
-- 
2.43.0


From 925b21fd2acad6e84b6fd4dbf8c52e6e895209af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:44 +0000
Subject: [PATCH 088/177] fix: a SVG number in scientific notation was
 truncated to an integer

---
 Patro/FileFormat/Svg/SvgFile.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/Patro/FileFormat/Svg/SvgFile.py b/Patro/FileFormat/Svg/SvgFile.py
index 13f366a..b8e0b1a 100644
--- a/Patro/FileFormat/Svg/SvgFile.py
+++ b/Patro/FileFormat/Svg/SvgFile.py
@@ -66,14 +66,11 @@ class RenderState:
             if value == 'none':
                 return None
             else:
-                try:
-                    float_value = float(value)
-                    if '.' in value:
-                        return float_value
-                    else:
-                        return int(float_value)
-                except ValueError:
-                    pass
+                for cls_ in (int, float):
+                    try:
+                        return cls_(value)
+                    except ValueError:
+                        pass
 
         return value
 
-- 
2.43.0


From f9551ab582427f17eb2597cf1aeb2e6623812d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:44 +0000
Subject: [PATCH 089/177] fix: a SVG element inherits the attributes it does
 not have, and style declarations

---
 Patro/FileFormat/Svg/SvgFile.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/Patro/FileFormat/Svg/SvgFile.py b/Patro/FileFormat/Svg/SvgFile.py
index b8e0b1a..9aa9c48 100644
--- a/Patro/FileFormat/Svg/SvgFile.py
+++ b/Patro/FileFormat/Svg/SvgFile.py
@@ -119,18 +119,22 @@ class RenderState:
                         self.transform = self.transform * value
                 elif state == 'style':
                     pass
-                else:
+                elif value is not None and value != 'inherit':
+                    # else keep the inherited value
                     setattr(self, state, self.to_python(value))
 
         # Merge style
         style = getattr(item, 'style', None)
         if style is not None:
             for pair in style.split(';'):
-                state, value = [x.strip() for x in pair.split(':')]
+                # the last declaration can be followed by a semicolon, and a value can contain a colon
+                state, colon, value = [x.strip() for x in pair.partition(':')]
+                if not colon:
+                    continue
                 state = state.replace('-', '_')
                 if state == 'transform':
-                    self.transform = self.transform * value
-                else:
+                    self.transform = self.transform * SvgFormat.TransformAttribute.from_xml(value)
+                elif value != 'inherit':
                     setattr(self, state, self.to_python(value))
 
         return self
-- 
2.43.0


From 4e00ab810e88975fc6469d3a48517ae7fa3a6898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:44 +0000
Subject: [PATCH 090/177] fix: SVG cap, join and miter limit attributes are
 merged in the state

---
 Patro/FileFormat/Svg/SvgFormat.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Patro/FileFormat/Svg/SvgFormat.py b/Patro/FileFormat/Svg/SvgFormat.py
index e66983b..4aa6a48 100644
--- a/Patro/FileFormat/Svg/SvgFormat.py
+++ b/Patro/FileFormat/Svg/SvgFormat.py
@@ -350,9 +350,9 @@ class ColorMixin:
 class StrokeMixin:
 
     __attributes__ = (
-        StringAttribute('stroke_line_cap', 'stroke-linecap'),
-        StringAttribute('stroke_line_join', 'stroke-linejoin'),
-        NumberAttribute('stroke_miter_limit', 'stroke-miterlimit'),
+        StringAttribute('stroke_linecap', 'stroke-linecap'),
+        StringAttribute('stroke_linejoin', 'stroke-linejoin'),
+        NumberAttribute('stroke_miterlimit', 'stroke-miterlimit'),
         PercentLengthAttribute('stroke_width', 'stroke-width'),
         FloatListAttribute('stroke_dasharray', 'stroke-dasharray') # stroke-dasharray="20,10,5,5,5,10"
     )
-- 
2.43.0


From be5f6080a8968ca30dff850dd2f8b56d80002423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:30 +0000
Subject: [PATCH 091/177] fix: positions of a graphic item with only one
 position

---
 Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py b/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py
index 4bdf175..c5979e2 100644
--- a/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py
+++ b/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py
@@ -212,8 +212,8 @@ class PositionMixin:
     #     self._position = value
 
     @property
-    def positions(self) -> str | Vector2D:
-        return self._position
+    def positions(self) -> tuple[str | Vector2D]:
+        return (self._position,)
 
     @property
     def casted_position(self) -> Vector2D:
-- 
2.43.0


From 257e0d72bd1a9e2657b51ec233fc5cc6996c8882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:30 +0000
Subject: [PATCH 092/177] fix: graphic items were missing in the rtree when
 their geometry was already known

---
 Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py | 7 ++-----
 Patro/GraphicEngine/GraphicScene/Scene.py            | 1 +
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py b/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py
index c5979e2..e8f8ff5 100644
--- a/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py
+++ b/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py
@@ -134,10 +134,8 @@ class GraphicItem:
 
     @dirty.setter
     def dirty(self, value: bool) -> None:
-        if bool(value):
-            self._dirty = True
-        else:
-            self._dirty = True
+        self._dirty = bool(value)
+        if self._dirty:
             self._geometry = None
             self._bounding_box = None
 
@@ -153,7 +151,6 @@ class GraphicItem:
     def geometry(self) -> None:
         if self._geometry is None:
             self._geometry = self.get_geometry()
-            self._dirty = False
         return self._geometry
 
     ##############################################
diff --git a/Patro/GraphicEngine/GraphicScene/Scene.py b/Patro/GraphicEngine/GraphicScene/Scene.py
index 161ed82..110cce8 100644
--- a/Patro/GraphicEngine/GraphicScene/Scene.py
+++ b/Patro/GraphicEngine/GraphicScene/Scene.py
@@ -222,6 +222,7 @@ class GraphicSceneScope:
         for item in self._items.values():
             if item.dirty:
                 self.update_rtree_item(item)
+                item.dirty = False
 
     ##############################################
 
-- 
2.43.0


From 843b5f7dfa2e6123ea7fc6008ca9105ec405b2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:30 +0000
Subject: [PATCH 093/177] fix: remove an item of a graphic scene

---
 Patro/GraphicEngine/GraphicScene/Scene.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/GraphicEngine/GraphicScene/Scene.py b/Patro/GraphicEngine/GraphicScene/Scene.py
index 110cce8..645a4e7 100644
--- a/Patro/GraphicEngine/GraphicScene/Scene.py
+++ b/Patro/GraphicEngine/GraphicScene/Scene.py
@@ -202,13 +202,13 @@ class GraphicSceneScope:
     ##############################################
 
     def remove_item(self, item: GraphicItem) -> None:
-        self.update_rtree(item, insert=False)
+        self.update_rtree_item(item, insert=False)
 
         items = self.item_for_user_data(item.user_data)
         if items:
             items.remove(item)
 
-        del self._items[item]
+        del self._items[id(item)]
 
     ##############################################
 
-- 
2.43.0


From 459c1bd8eed7b580d89aaaf3a196cbcf41b6d561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:30 +0000
Subject: [PATCH 094/177] fix: angular domain of an ellipse in a graphic scene

---
 Patro/GraphicEngine/GraphicScene/GraphicItem.py | 3 ++-
 Patro/GraphicEngine/GraphicScene/Scene.py       | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/GraphicScene/GraphicItem.py b/Patro/GraphicEngine/GraphicScene/GraphicItem.py
index c63fbdd..34dd91c 100644
--- a/Patro/GraphicEngine/GraphicScene/GraphicItem.py
+++ b/Patro/GraphicEngine/GraphicScene/GraphicItem.py
@@ -200,7 +200,8 @@ class EllipseItem(PositionMixin, StartStopAngleMixin, PathStyleItemMixin):
 
     def get_geometry(self) -> Ellipse2D:
         position = self.casted_position
-        return Ellipse2D(position, self._radius_x, self._radius_y, self._angle)
+        domain = AngularDomain(self._start_angle, self._stop_angle)
+        return Ellipse2D(position, self._radius_x, self._radius_y, self._angle, domain=domain)
 
 ####################################################################################################
 
diff --git a/Patro/GraphicEngine/GraphicScene/Scene.py b/Patro/GraphicEngine/GraphicScene/Scene.py
index 645a4e7..c5d66e0 100644
--- a/Patro/GraphicEngine/GraphicScene/Scene.py
+++ b/Patro/GraphicEngine/GraphicScene/Scene.py
@@ -309,6 +309,9 @@ class GraphicSceneScope:
         elif isinstance(item, Conic.Ellipse2D):
             ctor = self.ellipse
             args = [item.radius_x, item.radius_y, item.angle]
+            if item.domain:
+                kwargs['start_angle'] = item.domain.start
+                kwargs['stop_angle'] = item.domain.stop
 
         # Line
         elif isinstance(item, Line.Line2D):
-- 
2.43.0


From e3bac8809bbb4eb1137bc4be7f7959247fa6cb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:30 +0000
Subject: [PATCH 095/177] fix: number of segments of a Bezier path of degree 1

---
 Patro/GraphicEngine/GraphicScene/Scene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/GraphicScene/Scene.py b/Patro/GraphicEngine/GraphicScene/Scene.py
index c5d66e0..857f62c 100644
--- a/Patro/GraphicEngine/GraphicScene/Scene.py
+++ b/Patro/GraphicEngine/GraphicScene/Scene.py
@@ -543,7 +543,7 @@ class GraphicSceneScope:
             raise ValueError(f'Wrong number of points for Bezier {degree} curve: {number_of_points}')
 
         items = []
-        for i in range(number_of_points // degree):
+        for i in range(n // degree):
             j = degree * i
             k = j + degree
             item = method(*points[j:k+1], *args, **kwargs)
-- 
2.43.0


From d7d7f36651df26b52951eb36f9d5b060977d8680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:11 +0000
Subject: [PATCH 096/177] fix: smooth curves of a path were dropped in a
 graphic scene

---
 Patro/GraphicEngine/GraphicScene/Scene.py | 24 +++++++++--------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/Patro/GraphicEngine/GraphicScene/Scene.py b/Patro/GraphicEngine/GraphicScene/Scene.py
index 857f62c..f46c3ab 100644
--- a/Patro/GraphicEngine/GraphicScene/Scene.py
+++ b/Patro/GraphicEngine/GraphicScene/Scene.py
@@ -320,7 +320,7 @@ class GraphicSceneScope:
 
         # Path
         elif isinstance(item, Path.Path2D):
-            self.add_path(item, path_style, as_segments=True)
+            return self.add_path(item, path_style, as_segments=True)
 
         # Polygon
         elif isinstance(item, Polygon.Polygon2D):
@@ -412,16 +412,12 @@ class GraphicSceneScope:
                 # if segment.radius is not None:
                 #     add_bulge(segment)
                 item.line_to(segment.stop_point)
-            elif isinstance(segment, Path.QuadraticBezierSegment):
-                item.quadratic_to(segment.point1, segment.point2)
-            elif isinstance(segment, Path.CubicBezierSegment):
-                item.cubic_to(segment.point1, segment.point2, segment.point3)
+            elif isinstance(segment, (Path.QuadraticBezierSegment, Path.StringedQuadraticBezierSegment)):
+                item.quadratic_to(*segment.points[1:])
+            elif isinstance(segment, (Path.CubicBezierSegment, Path.StringedCubicBezierSegment)):
+                item.cubic_to(*segment.points[1:])
             elif isinstance(segment, Path.ArcSegment):
                 pass
-            elif isinstance(segment, Path.StringedQuadraticBezierSegment):
-                pass
-            elif isinstance(segment, Path.StringedCubicBezierSegment):
-                pass
 
         if path.is_closed:
             item.close()
@@ -502,16 +498,14 @@ class GraphicSceneScope:
                 #     add_bulge(start_segment)
                 #     add_segment(start_segment)
                 add_segment(segment)
-            elif isinstance(segment, Path.QuadraticBezierSegment):
+            elif isinstance(segment, (Path.QuadraticBezierSegment, Path.StringedQuadraticBezierSegment)):
                 add_quadratic(segment)
-            elif isinstance(segment, Path.CubicBezierSegment):
+            elif isinstance(segment, (Path.CubicBezierSegment, Path.StringedCubicBezierSegment)):
                 add_cubic(segment)
             elif isinstance(segment, Path.ArcSegment):
                 add_ellipse(segment)
-            elif isinstance(segment, Path.StringedQuadraticBezierSegment):
-                pass
-            elif isinstance(segment, Path.StringedCubicBezierSegment):
-                pass
+
+        return items
 
     ##############################################
 
-- 
2.43.0


From e71ecc5fdb76a5558e6a246cce6958ad72aafedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:21 +0000
Subject: [PATCH 097/177] fix: flat and clockwise arcs of a path in a graphic
 scene

---
 Patro/GraphicEngine/GraphicScene/Scene.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/Patro/GraphicEngine/GraphicScene/Scene.py b/Patro/GraphicEngine/GraphicScene/Scene.py
index f46c3ab..b82dd6a 100644
--- a/Patro/GraphicEngine/GraphicScene/Scene.py
+++ b/Patro/GraphicEngine/GraphicScene/Scene.py
@@ -467,15 +467,22 @@ class GraphicSceneScope:
         def add_ellipse(segment) -> None:
             # add_segment(Segment.Segment2D(*segment.points))
             ellipse = segment.geometry
+            if isinstance(ellipse, Segment.Segment2D):
+                add_segment(segment)
+                return
             # print(ellipse, ellipse.domain)
+            start_angle, stop_angle = ellipse.domain.start, ellipse.domain.stop
+            if ellipse.domain.is_clockwise:
+                # the angles of an item are counterclockwise
+                start_angle, stop_angle = stop_angle, start_angle
             arc_item = self.ellipse(
                 ellipse.center,
                 ellipse.radius_x,
                 ellipse.radius_y,
                 ellipse.angle,
                 path_style,
-                start_angle=ellipse.domain.start,
-                stop_angle=ellipse.domain.stop,
+                start_angle=start_angle,
+                stop_angle=stop_angle,
                 user_data=user_data, # segment
             )
             items.append(arc_item)
-- 
2.43.0


From bc7e27adf3ae88e7c49526dc89d32f6ff1cf83a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:22 +0000
Subject: [PATCH 098/177] fix: geometry of a path item

---
 Patro/GraphicEngine/GraphicScene/GraphicItem.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/GraphicScene/GraphicItem.py b/Patro/GraphicEngine/GraphicScene/GraphicItem.py
index 34dd91c..9bd5c8a 100644
--- a/Patro/GraphicEngine/GraphicScene/GraphicItem.py
+++ b/Patro/GraphicEngine/GraphicScene/GraphicItem.py
@@ -435,7 +435,20 @@ class PathItem(PositionMixin, PathStyleItemMixin):
 
     def get_geometry(self) -> Path2D:
         position = self.casted_position
-        return Path2D(position) # Fixme: !!!
+        path = Path2D(position)
+        cast = self._scene.cast_position
+        for segment in self._segments:
+            points = [cast(position) for position in segment.positions]
+            if isinstance(segment, LinearSegment):
+                path.line_to(*points, absolute=True)
+            elif isinstance(segment, QuadraticSegment):
+                path.quadratic_to(*points, absolute=True)
+            else:
+                path.cubic_to(*points, absolute=True)
+            position = points[-1]
+        if self._closed and position != path.p0:
+            path.close()
+        return path
 
     ##############################################
 
-- 
2.43.0


From ca7a634d04d26bf6a562a6f0d9cba16ad7c01c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:30 +0000
Subject: [PATCH 099/177] fix: a polygon in a graphic scene cannot be picked

---
 Patro/GeometryEngine/Polygon.py                      | 6 ++++++
 Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py | 5 ++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Polygon.py b/Patro/GeometryEngine/Polygon.py
index ea50876..c1b05d4 100644
--- a/Patro/GeometryEngine/Polygon.py
+++ b/Patro/GeometryEngine/Polygon.py
@@ -142,6 +142,12 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
         # return iter(self._edges)
         return self._edges
 
+    def distance_to_point(self, point):
+        """Return the distance of a point to the border of the polygon."""
+        return min([edge.distance_to_point(point) for edge in self.edges])
+
+    ##############################################
+
     @property
     def number_of_edges(self):
         # return len(self.edges)
diff --git a/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py b/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py
index e8f8ff5..dabce4e 100644
--- a/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py
+++ b/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py
@@ -166,7 +166,10 @@ class GraphicItem:
     ##############################################
 
     def distance_to_point(self, point: Vector2D) -> None:
-        return self.geometry.distance_to_point(point)
+        geometry = self.geometry
+        if not hasattr(geometry, 'distance_to_point'):
+            raise NotImplementedError
+        return geometry.distance_to_point(point)
 
 ####################################################################################################
 
-- 
2.43.0


From 73835161282f02613dd4f8aed82e02a65f74b07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:29 +0000
Subject: [PATCH 100/177] fix: the tiler enlarged the bounding box of the scene

---
 Patro/GraphicEngine/Painter/Painter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/Painter/Painter.py b/Patro/GraphicEngine/Painter/Painter.py
index 66b6d34..da22de0 100644
--- a/Patro/GraphicEngine/Painter/Painter.py
+++ b/Patro/GraphicEngine/Painter/Painter.py
@@ -42,7 +42,8 @@ class Tiler:
 
     def __init__(self, bounding_box, paper, margin=1):
         # print('Tiler', bounding_box)
-        self._bounding_box = bounding_box.enlarge(margin)
+        # enlarge works in place and the bounding box is those of the scene
+        self._bounding_box = bounding_box.clone().enlarge(margin)
         self._paper = paper
 
     ##############################################
-- 
2.43.0


From 13344febff7110b124bfdf4b182dc9e4202598df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:29 +0000
Subject: [PATCH 101/177] fix: row and column were swapped in the position of a
 tile

---
 Patro/GraphicEngine/Painter/Painter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/Painter/Painter.py b/Patro/GraphicEngine/Painter/Painter.py
index da22de0..c1729c4 100644
--- a/Patro/GraphicEngine/Painter/Painter.py
+++ b/Patro/GraphicEngine/Painter/Painter.py
@@ -67,7 +67,8 @@ class Tiler:
 
         for r in range(number_of_rows):
             for c in range(number_of_columns):
-                local_min_point = min_point + area_vector * Vector2D(r, c)
+                # x goes with the column and y with the row
+                local_min_point = min_point + area_vector * Vector2D(c, r)
                 local_max_point = local_min_point + area_vector
                 interval = Interval2D((local_min_point.x, local_max_point.x), (local_min_point.y, local_max_point.y))
                 yield (interval, r, c)
-- 
2.43.0


From 7ab7fe8e157c763c34381b82e8a15419b68dc959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:29 +0000
Subject: [PATCH 102/177] fix: conversions of typography units

---
 Patro/GraphicEngine/GraphicScene/TypographyUnit.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Patro/GraphicEngine/GraphicScene/TypographyUnit.py b/Patro/GraphicEngine/GraphicScene/TypographyUnit.py
index 5219859..16ca11c 100644
--- a/Patro/GraphicEngine/GraphicScene/TypographyUnit.py
+++ b/Patro/GraphicEngine/GraphicScene/TypographyUnit.py
@@ -37,14 +37,14 @@ __all__ = [
 class TypographyUnit:
 
     INCH_2_MM        = 25.4    # 1 inch = 25.4 mm
-    POINT_2_INCH     = 72      # 1 inch = 72 point   PostScript, CSS pt and TeX bp
-    TEX_POINT_2_INCH = 72.27   # TeX pt
+    INCH_2_POINT     = 72      # 1 inch = 72 point   PostScript, CSS pt and TeX bp
+    INCH_2_TEX_POINT = 72.27   # TeX pt
     PICA_2_POINT     = 12      # 1 pica = 12 point
 
-    POINT_2_MM    = INCH_2_MM / POINT_2_INCH
+    POINT_2_MM    = INCH_2_MM / INCH_2_POINT
 
     MM_2_INCH     = 1 / INCH_2_MM
-    INCH_2_POINT  = 1 / POINT_2_INCH
+    POINT_2_INCH  = 1 / INCH_2_POINT
     MM_2_POINT    = 1 / POINT_2_MM
 
     ##############################################
@@ -55,7 +55,7 @@ class TypographyUnit:
     ##############################################
 
     def __float__(self) -> float:
-        return self._value
+        return float(self._value)
 
 ####################################################################################################
 
@@ -65,7 +65,7 @@ class MmUnit(TypographyUnit):
         return self
 
     def to_inch(self) -> 'InchUnit':
-        return InchUnit(self._value * self.MM_2_POINT)
+        return InchUnit(self._value * self.MM_2_INCH)
 
     def to_point(self) -> 'PointUnit':
         return PointUnit(self._value * self.MM_2_POINT)
-- 
2.43.0


From 38c0761ea59ef0438ac014e49b2c0f813a072e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:24 +0000
Subject: [PATCH 103/177] fix: SVG painter translated the drawing after the
 scaling

---
 Patro/GraphicEngine/Painter/SvgPainter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/SvgPainter.py b/Patro/GraphicEngine/Painter/SvgPainter.py
index 8eeb761..8084b82 100644
--- a/Patro/GraphicEngine/Painter/SvgPainter.py
+++ b/Patro/GraphicEngine/Painter/SvgPainter.py
@@ -66,8 +66,8 @@ class SvgPainter(Painter):
         self._paper = paper
 
         bounding_box = scene.bounding_box
-        self._transformation = AffineTransformation2D.Scale(10, -10)
-        self._transformation *= AffineTransformation2D.Translation(-Vector2D(bounding_box.x.inf, bounding_box.y.sup))
+        self._transformation = AffineTransformation2D.Translation(-Vector2D(bounding_box.x.inf, bounding_box.y.sup))
+        self._transformation *= AffineTransformation2D.Scale(10, -10)
 
         self._tree = []
         self._append(SvgFormat.Style(text='''
-- 
2.43.0


From 64de0de1867eb1c86467bc8eb30542b2c2a6879b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:24 +0000
Subject: [PATCH 104/177] fix: SVG painter wrote circles as empty texts

---
 Patro/GraphicEngine/Painter/SvgPainter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/Painter/SvgPainter.py b/Patro/GraphicEngine/Painter/SvgPainter.py
index 8084b82..2f36fc2 100644
--- a/Patro/GraphicEngine/Painter/SvgPainter.py
+++ b/Patro/GraphicEngine/Painter/SvgPainter.py
@@ -114,7 +114,7 @@ class SvgPainter(Painter):
 
     def paint_CircleItem(self, item):
         x, y = self.cast_position(item.position)
-        circle = SvgFormat.Text(cx=x, cy=y, r=2, fill='black', _class='normal')
+        circle = SvgFormat.Circle(cx=x, cy=y, r=2, fill='black', _class='normal')
         self._append(circle)
 
     ##############################################
-- 
2.43.0


From 5eaf9a30d6167033273b6fc604f5641fc726da63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:24 +0000
Subject: [PATCH 105/177] fix: SVG painter dropped Bezier curves

---
 Patro/GraphicEngine/Painter/SvgPainter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/Painter/SvgPainter.py b/Patro/GraphicEngine/Painter/SvgPainter.py
index 2f36fc2..d8b8b46 100644
--- a/Patro/GraphicEngine/Painter/SvgPainter.py
+++ b/Patro/GraphicEngine/Painter/SvgPainter.py
@@ -139,5 +139,5 @@ class SvgPainter(Painter):
             fill='none',
             **self._graphic_style(item),
         )
-        #!# self._append(path)
+        self._append(path)
 
-- 
2.43.0


From 9116d728618a1281c7913914728185ba6e477db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:13 +0000
Subject: [PATCH 106/177] fix: SVG painter drew invisible lines

---
 Patro/GraphicEngine/Painter/SvgPainter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Patro/GraphicEngine/Painter/SvgPainter.py b/Patro/GraphicEngine/Painter/SvgPainter.py
index d8b8b46..2740ea1 100644
--- a/Patro/GraphicEngine/Painter/SvgPainter.py
+++ b/Patro/GraphicEngine/Painter/SvgPainter.py
@@ -92,6 +92,8 @@ class SvgPainter(Painter):
     def _graphic_style(self, item):
 
         path_syle = item.path_style
+        if path_syle.stroke_color is None or path_syle.stroke_style is StrokeStyle.NoPen:
+            return dict(stroke='none')
         color = path_syle.stroke_color.name
         line_style = self.__STROKE_STYLE__[path_syle.stroke_style]
         line_width = str(path_syle.line_width_as_float)
-- 
2.43.0


From 4bda428c83edd0f8df14fbbda629a8e6215fc5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:13 +0000
Subject: [PATCH 107/177] fix: SVG painter lost the colors which have no SVG
 name

---
 Patro/GraphicEngine/Painter/SvgPainter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/Painter/SvgPainter.py b/Patro/GraphicEngine/Painter/SvgPainter.py
index 2740ea1..bb08ff2 100644
--- a/Patro/GraphicEngine/Painter/SvgPainter.py
+++ b/Patro/GraphicEngine/Painter/SvgPainter.py
@@ -94,7 +94,7 @@ class SvgPainter(Painter):
         path_syle = item.path_style
         if path_syle.stroke_color is None or path_syle.stroke_style is StrokeStyle.NoPen:
             return dict(stroke='none')
-        color = path_syle.stroke_color.name
+        color = str(path_syle.stroke_color)   # a color can have no name, or a name SVG don't know
         line_style = self.__STROKE_STYLE__[path_syle.stroke_style]
         line_width = str(path_syle.line_width_as_float)
 
-- 
2.43.0


From 1e1df2aaed497b6810db6c1b5588f5e44d1be950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:13 +0000
Subject: [PATCH 108/177] fix: Matplotlib painter did not draw dashed lines and
 drew invisible lines

---
 Patro/GraphicEngine/Painter/MplPainter.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/MplPainter.py b/Patro/GraphicEngine/Painter/MplPainter.py
index 4b18830..f8e7c19 100644
--- a/Patro/GraphicEngine/Painter/MplPainter.py
+++ b/Patro/GraphicEngine/Painter/MplPainter.py
@@ -39,12 +39,12 @@ _module_logger = logging.getLogger(__name__)
 class MplPainter(Painter):
 
     __STROKE_STYLE__ = {
-        StrokeStyle.NoPen: None,
+        StrokeStyle.NoPen: 'None',
         StrokeStyle.SolidLine: 'solid', # '-'
-        StrokeStyle.DashLine: '', # Fixme:
+        StrokeStyle.DashLine: 'dashed', # '--'
         StrokeStyle.DotLine: 'dotted', # ':'
-        StrokeStyle.DashDotLine: 'dashdot', # '--'
-        StrokeStyle.DashDotDotLine: '', # Fixme:
+        StrokeStyle.DashDotLine: 'dashdot', # '-.'
+        StrokeStyle.DashDotDotLine: (0, (6, 2, 1, 2, 1, 2)),
     }
 
     ##############################################
-- 
2.43.0


From 488d0c352078a9760481a2352e085abb99ab624e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:13 +0000
Subject: [PATCH 109/177] fix: Matplotlib painter lost the colors without name

---
 Patro/GraphicEngine/Painter/MplPainter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/Painter/MplPainter.py b/Patro/GraphicEngine/Painter/MplPainter.py
index f8e7c19..e003124 100644
--- a/Patro/GraphicEngine/Painter/MplPainter.py
+++ b/Patro/GraphicEngine/Painter/MplPainter.py
@@ -83,7 +83,7 @@ class MplPainter(Painter):
     def _add_path(self, item, vertices, codes):
         path = Path(vertices, codes)
         path_syle = item.path_style
-        color = path_syle.stroke_color.name
+        color = 'none' if path_syle.stroke_color is None else str(path_syle.stroke_color)
         line_style = self.__STROKE_STYLE__[path_syle.stroke_style]
         line_width = path_syle.line_width_as_float
         patch = patches.PathPatch(path, edgecolor=color, facecolor='none', linewidth=line_width, linestyle=line_style)
-- 
2.43.0


From 23a7b026b898c5529cb09d74bd2005b4fd02144d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:13 +0000
Subject: [PATCH 110/177] fix: TikZ dash dot dot line style

---
 Patro/GraphicEngine/TeX/Tikz.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Patro/GraphicEngine/TeX/Tikz.py b/Patro/GraphicEngine/TeX/Tikz.py
index af8a16a..3a8256d 100644
--- a/Patro/GraphicEngine/TeX/Tikz.py
+++ b/Patro/GraphicEngine/TeX/Tikz.py
@@ -32,6 +32,7 @@ class TikzFigure(Environment):
     __STROKE_STYLE__ = {
         StrokeStyle.DashLine: 'dash pattern=on 5mm off 5mm',
         StrokeStyle.DashDotLine: 'dash pattern=on 5mm off 4mm on 2mm off 4mm', # 'loosely dashdotted',
+        StrokeStyle.DashDotDotLine: 'dash pattern=on 5mm off 4mm on 2mm off 4mm on 2mm off 4mm',
         StrokeStyle.DotLine: 'dash pattern=on 2mm off 2mm', # 'dotted',
         StrokeStyle.NoPen: None,
         StrokeStyle.SolidLine: 'solid',
-- 
2.43.0


From e9a8ac8044131d325a0b5cdc278a708fc24e2059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:13 +0000
Subject: [PATCH 111/177] fix: TikZ figures drew invisible lines

---
 Patro/GraphicEngine/TeX/Tikz.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/Patro/GraphicEngine/TeX/Tikz.py b/Patro/GraphicEngine/TeX/Tikz.py
index 3a8256d..a7d53a8 100644
--- a/Patro/GraphicEngine/TeX/Tikz.py
+++ b/Patro/GraphicEngine/TeX/Tikz.py
@@ -34,7 +34,7 @@ class TikzFigure(Environment):
         StrokeStyle.DashDotLine: 'dash pattern=on 5mm off 4mm on 2mm off 4mm', # 'loosely dashdotted',
         StrokeStyle.DashDotDotLine: 'dash pattern=on 5mm off 4mm on 2mm off 4mm on 2mm off 4mm',
         StrokeStyle.DotLine: 'dash pattern=on 2mm off 2mm', # 'dotted',
-        StrokeStyle.NoPen: None,
+        StrokeStyle.NoPen: 'draw=none',
         StrokeStyle.SolidLine: 'solid',
     }
 
@@ -42,14 +42,20 @@ class TikzFigure(Environment):
     def format_path_style(path_syle):
 
         stroke_style = TikzFigure.__STROKE_STYLE__[path_syle.stroke_style]
-        stroke_color = path_syle.stroke_color.name
+        color = path_syle.stroke_color
+        if color is None:
+            stroke_style = TikzFigure.__STROKE_STYLE__[StrokeStyle.NoPen]
+            stroke_color = None
+        else:
+            stroke_color = color.name
 
         styles = []
         styles.append('line width={}'.format(path_syle.line_width))
-        if stroke_style is not None:
-            styles.append(stroke_style)
+        # draw=none must come after the color, which sets the draw color
         if stroke_color is not None:
             styles.append(stroke_color)
+        if stroke_style is not None:
+            styles.append(stroke_style)
         return ', '.join(styles)
 
     ##############################################
-- 
2.43.0


From 4e7fc6c15e316b34b4bca61aad1cbfbbb7fd4a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:13 +0000
Subject: [PATCH 112/177] fix: TeX filename of three characters

---
 Patro/GraphicEngine/TeX/Document.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/TeX/Document.py b/Patro/GraphicEngine/TeX/Document.py
index acc8516..1b4982e 100644
--- a/Patro/GraphicEngine/TeX/Document.py
+++ b/Patro/GraphicEngine/TeX/Document.py
@@ -42,7 +42,7 @@ class Document:
 
         # Fixme: Path, vs path
 
-        if (len(filename) - filename.rfind('.tex')) == 4:
+        if filename.endswith('.tex'):
             filename = filename[:-4]
 
         self._filename = filename
-- 
2.43.0


From 8ce46e89b15145a002c92477f4df7b5234342168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:13 +0000
Subject: [PATCH 113/177] fix: output directory of a TeX document

---
 Patro/GraphicEngine/TeX/Document.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/TeX/Document.py b/Patro/GraphicEngine/TeX/Document.py
index 1b4982e..6b43902 100644
--- a/Patro/GraphicEngine/TeX/Document.py
+++ b/Patro/GraphicEngine/TeX/Document.py
@@ -60,7 +60,7 @@ class Document:
 
     @property
     def output_directory(self):
-        return os.path.dirname(self._tex_filename())
+        return os.path.dirname(self.tex_filename)
 
     @property
     def pdf_filename(self):
-- 
2.43.0


From 82e614e482a0bce3f1b497cc22a1c0090c787847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:13 +0000
Subject: [PATCH 114/177] fix: TeX painter ignored the scene transformation

---
 Patro/GraphicEngine/Painter/TexPainter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/Painter/TexPainter.py b/Patro/GraphicEngine/Painter/TexPainter.py
index d6b4b84..ad7a422 100644
--- a/Patro/GraphicEngine/Painter/TexPainter.py
+++ b/Patro/GraphicEngine/Painter/TexPainter.py
@@ -100,7 +100,7 @@ class TexPainter(Painter):
         if isinstance(position, str):
             return '(' + position + ')'
         elif isinstance(position, Vector2D):
-            return '({0.x:.2f},{0.y:.2f})'.format(position)
+            return '({0.x:.2f},{0.y:.2f})'.format(self.cast_position(position))
 
     ##############################################
 
-- 
2.43.0


From 85dbb726f71cb0c5458f1be4c7b626456e382aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:13 +0000
Subject: [PATCH 115/177] fix: default driver of the PDF painter

---
 Patro/GraphicEngine/Painter/PdfPainter.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/PdfPainter.py b/Patro/GraphicEngine/Painter/PdfPainter.py
index 9c5ed7e..12ebc0e 100644
--- a/Patro/GraphicEngine/Painter/PdfPainter.py
+++ b/Patro/GraphicEngine/Painter/PdfPainter.py
@@ -161,6 +161,5 @@ _driver_to_cls = {
 
 def PdfPainter(*args, **kwargs):
     """Wrapper to driver classes"""
-    driver = kwargs.get('driver', 'reportlab')
-    del kwargs['driver']
+    driver = kwargs.pop('driver', 'reportlab')
     return _driver_to_cls[driver](*args, **kwargs)
-- 
2.43.0


From 336ff7752974108929ea4f91b01c80565abdae9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:13 +0000
Subject: [PATCH 116/177] fix: PDF painter translated the drawing with another
 scale than its positions

---
 Patro/GraphicEngine/Painter/PdfPainter.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/PdfPainter.py b/Patro/GraphicEngine/Painter/PdfPainter.py
index 12ebc0e..8ad318a 100644
--- a/Patro/GraphicEngine/Painter/PdfPainter.py
+++ b/Patro/GraphicEngine/Painter/PdfPainter.py
@@ -77,6 +77,8 @@ class ReportlabPainter(PdfPainterBase):
         StrokeStyle.DashDotDotLine: (), # Fixme: ???
     }
 
+    SCALE = .7 # Fixme:
+
     ##############################################
 
     def __init__(self, path, scene, paper):
@@ -100,7 +102,8 @@ class ReportlabPainter(PdfPainterBase):
 
         bounding_box = scene.bounding_box
         # print(bounding_box, bounding_box.x.length, bounding_box.y.length)
-        self._canvas.translate(-bounding_box.x.inf*cm, -bounding_box.y.inf*cm)
+        # same scale as cast_position
+        self._canvas.translate(-bounding_box.x.inf*cm*self.SCALE, -bounding_box.y.inf*cm*self.SCALE)
         self._canvas.translate(1*cm, 1*cm) # Fixme: margin
 
         self._canvas.setFont('Times-Roman', 20)
@@ -112,7 +115,7 @@ class ReportlabPainter(PdfPainterBase):
     ##############################################
 
     def cast_position(self, position):
-        return super().cast_position(position) * cm * .7 # Fixme:
+        return super().cast_position(position) * cm * self.SCALE
 
     ##############################################
 
-- 
2.43.0


From b247ec9a572b13cd46ba6112c16da94a7d0a0585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:35 +0000
Subject: [PATCH 117/177] fix: DXF painter used a text method removed from
 ezdxf

---
 Patro/GraphicEngine/Painter/DxfPainter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/Painter/DxfPainter.py b/Patro/GraphicEngine/Painter/DxfPainter.py
index d988ce8..97ebfc7 100644
--- a/Patro/GraphicEngine/Painter/DxfPainter.py
+++ b/Patro/GraphicEngine/Painter/DxfPainter.py
@@ -32,6 +32,7 @@ from .Painter import Painter
 
 try:
     import ezdxf
+    import ezdxf.enums
 except ImportError:
     ezdxf = None
 
@@ -124,7 +125,8 @@ class EzdxfPainter(DxfPainterBase):
         position = self.cast_position(item.position)
         # Fixme: anchor position
         # https://ezdxf.readthedocs.io/en/latest/tutorials/text.html
-        self._model_space.add_text(item.text).set_pos(list(position), align='CENTER')
+        text = self._model_space.add_text(item.text)
+        text.set_placement(list(position), align=ezdxf.enums.TextEntityAlignment.CENTER)
 
     ##############################################
 
-- 
2.43.0


From 173439f95cbc94c1f558368ae593da7e280a22ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:35 +0000
Subject: [PATCH 118/177] fix: DXF painter used undefined line types

---
 Patro/GraphicEngine/Painter/DxfPainter.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/DxfPainter.py b/Patro/GraphicEngine/Painter/DxfPainter.py
index 97ebfc7..7448399 100644
--- a/Patro/GraphicEngine/Painter/DxfPainter.py
+++ b/Patro/GraphicEngine/Painter/DxfPainter.py
@@ -68,10 +68,10 @@ class EzdxfPainter(DxfPainterBase):
     __STROKE_STYLE__ = {
         StrokeStyle.NoPen: 'PHANTOM', # Fixme: ???
         StrokeStyle.SolidLine: 'CONTINUOUS',
-        StrokeStyle.DashLine: 'DASH', # Fixme:
-        StrokeStyle.DotLine: 'DOTTED',
+        StrokeStyle.DashLine: 'DASHED',
+        StrokeStyle.DotLine: 'DOT',
         StrokeStyle.DashDotLine: 'DASHDOT',
-        StrokeStyle.DashDotDotLine: 'DASHDOTDOT', # Fixme:
+        StrokeStyle.DashDotDotLine: 'DIVIDE',
     }
 
     __COLOR__ = {
@@ -86,7 +86,7 @@ class EzdxfPainter(DxfPainterBase):
         super().__init__(path, scene, paper)
 
         self._dxf_version = dxf_version
-        self._drawing = ezdxf.new(dxf_version)
+        self._drawing = ezdxf.new(dxf_version, setup=['linetypes'])
         self._model_space= self._drawing.modelspace() # add new entities to the model space
         # self._model_space.page_setup(
         #     size=(self._paper.width, self._paper.height),
-- 
2.43.0


From 4aa58ccedb1ac1c7905e67c6ffa547682a296e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:35 +0000
Subject: [PATCH 119/177] fix: DXF painter accepted only black

---
 Patro/GraphicEngine/Painter/DxfPainter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/Painter/DxfPainter.py b/Patro/GraphicEngine/Painter/DxfPainter.py
index 7448399..2dd1417 100644
--- a/Patro/GraphicEngine/Painter/DxfPainter.py
+++ b/Patro/GraphicEngine/Painter/DxfPainter.py
@@ -113,8 +113,12 @@ class EzdxfPainter(DxfPainterBase):
         path_style = item.path_style
         if path_style.stroke_color is None:
             return {'linetype': 'PHANTOM', 'color': 2} # Fixme:
-        color = self.__COLOR__[path_style.stroke_color.name] # see also true_color color_name (AutoCAD R2004)
         line_type = self.__STROKE_STYLE__[path_style.stroke_style]
+        color = path_style.stroke_color
+        if color.name not in self.__COLOR__ or color.name is None:
+            # true color requires AutoCAD R2004
+            return {'linetype': line_type, 'true_color': ezdxf.rgb2int((color.red, color.green, color.blue))}
+        color = self.__COLOR__[color.name] # see also true_color color_name (AutoCAD R2004)
         # https://ezdxf.readthedocs.io/en/latest/graphic_base_class.html#GraphicEntity.dxf.lineweight
         # line_weight = float(path_syle.line_width.replace('pt', '')) / 3 # Fixme: pt ???
         return {'linetype': line_type, 'color': color} # 'lineweight':line_weight
-- 
2.43.0


From 2319991a07389d9791d6da93e15751a687505fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:13 +0000
Subject: [PATCH 120/177] fix: Qt painter stroked the filled items with their
 fill color

---
 Patro/GraphicEngine/Painter/QtPainter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/QtPainter.py b/Patro/GraphicEngine/Painter/QtPainter.py
index 48d5e61..93c522d 100644
--- a/Patro/GraphicEngine/Painter/QtPainter.py
+++ b/Patro/GraphicEngine/Painter/QtPainter.py
@@ -222,9 +222,9 @@ class QtPainter(Painter):
 
         fill_color = path_syle.fill_color
         if fill_color is not None:
-            color = QColor(str(fill_color))
-            color.setAlphaF(path_syle.fill_alpha)
-            self._painter.setBrush(color)
+            brush_color = QColor(str(fill_color))
+            brush_color.setAlphaF(path_syle.fill_alpha)
+            self._painter.setBrush(brush_color)
             # return None
         else:
             self._painter.setBrush(Qt.NoBrush)
-- 
2.43.0


From 018b2db268451139b74a36103b663dc8b0fe8520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:13 +0000
Subject: [PATCH 121/177] fix: Qt painter stroked an invisible item with the
 pen of the previous one

---
 Patro/GraphicEngine/Painter/QtPainter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Patro/GraphicEngine/Painter/QtPainter.py b/Patro/GraphicEngine/Painter/QtPainter.py
index 93c522d..7255ef2 100644
--- a/Patro/GraphicEngine/Painter/QtPainter.py
+++ b/Patro/GraphicEngine/Painter/QtPainter.py
@@ -233,6 +233,7 @@ class QtPainter(Painter):
         if color is None or line_style is StrokeStyle.NoPen:
             # invisible item
             pen = QPen(Qt.NoPen)
+            self._painter.setPen(pen)
             # print('Warning Pen:', item, item.user_data, color, line_style)
             return None
         else:
-- 
2.43.0


From 8c219709858d946ceb54068993e2173de5c262cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:13 +0000
Subject: [PATCH 122/177] fix: Bezier segments of a path in the Qt painter

---
 Patro/GraphicEngine/Painter/QtPainter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/QtPainter.py b/Patro/GraphicEngine/Painter/QtPainter.py
index 7255ef2..dc93666 100644
--- a/Patro/GraphicEngine/Painter/QtPainter.py
+++ b/Patro/GraphicEngine/Painter/QtPainter.py
@@ -443,12 +443,12 @@ class QtPainter(Painter):
                 path.lineTo(position)
             else:
                 if isinstance(segment, QuadraticSegment):
-                    method = path.quadraticTo
+                    method = path.quadTo
                 elif isinstance(segment, CubicSegment):
                     method = path.cubicTo
                 else:
                     raise NotImplementedError
-                positions = self.cast_position(segment.positions)
+                positions = [self.cast_position(position) for position in segment.positions]
                 method(*positions)
 
         # if item.it_closed:
-- 
2.43.0


From 973aeb9292b6a8ba433da59a46f101e27cfb1639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:13 +0000
Subject: [PATCH 123/177] fix: Qt painter did not close the closed paths

---
 Patro/GraphicEngine/Painter/QtPainter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/QtPainter.py b/Patro/GraphicEngine/Painter/QtPainter.py
index dc93666..1f4d585 100644
--- a/Patro/GraphicEngine/Painter/QtPainter.py
+++ b/Patro/GraphicEngine/Painter/QtPainter.py
@@ -451,8 +451,8 @@ class QtPainter(Painter):
                 positions = [self.cast_position(position) for position in segment.positions]
                 method(*positions)
 
-        # if item.it_closed:
-        #     path.closeSubpath()
+        if item.is_closed:
+            path.closeSubpath()
 
         self._painter.drawPath(path)
 
-- 
2.43.0


From 5eb8479da2c622d50ea427ca063f839c428a3e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:13 +0000
Subject: [PATCH 124/177] fix: Qt painter applied the scene transformation
 twice to a quadratic Bezier curve

---
 Patro/GraphicEngine/Painter/QtPainter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/Painter/QtPainter.py b/Patro/GraphicEngine/Painter/QtPainter.py
index 1f4d585..01e9c59 100644
--- a/Patro/GraphicEngine/Painter/QtPainter.py
+++ b/Patro/GraphicEngine/Painter/QtPainter.py
@@ -380,7 +380,8 @@ class QtPainter(Painter):
 
     def paint_QuadraticBezierItem(self, item):
 
-        vertices = [self.cast_position(position) for position in item.cubic_positions]
+        # these positions are yet casted
+        vertices = [self.scene_to_viewport(position) for position in item.cubic_positions]
         self._paint_cubic(item, vertices)
 
     ##############################################
-- 
2.43.0


From 6675fbd83509453cc7aba587903109730f9ff9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:13 +0000
Subject: [PATCH 125/177] fix: stale cubic positions of a quadratic Bezier item

---
 Patro/GraphicEngine/GraphicScene/GraphicItem.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/Patro/GraphicEngine/GraphicScene/GraphicItem.py b/Patro/GraphicEngine/GraphicScene/GraphicItem.py
index 9bd5c8a..85b7ede 100644
--- a/Patro/GraphicEngine/GraphicScene/GraphicItem.py
+++ b/Patro/GraphicEngine/GraphicScene/GraphicItem.py
@@ -392,10 +392,9 @@ class QuadraticBezierItem(ThreePositionMixin, PathStyleItemMixin):
 
     @property
     def cubic_positions(self) -> None:
-        if not(hasattr(self, '_cubic_points')):
-            cubic = self.geometry.to_cubic()
-            self._cubic_points = list(cubic.points)
-        return self._cubic_points
+        # don't cache, geometry can be reset
+        cubic = self.geometry.to_cubic()
+        return list(cubic.points)
 
 ####################################################################################################
 
-- 
2.43.0


From ccc548ec9ed22210d7a35a431bb46f911c1d6a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:13 +0000
Subject: [PATCH 126/177] fix: Qt painter ignored the angle of an ellipse

---
 Patro/GraphicEngine/Painter/QtPainter.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/QtPainter.py b/Patro/GraphicEngine/Painter/QtPainter.py
index 01e9c59..53d60d4 100644
--- a/Patro/GraphicEngine/Painter/QtPainter.py
+++ b/Patro/GraphicEngine/Painter/QtPainter.py
@@ -342,8 +342,15 @@ class QtPainter(Painter):
 
         pen = self._set_pen(item)
 
-        # Fixme: angle !!!
-        self._paint_arc(item, center, radius_x, radius_y)
+        if item.angle:
+            # Qt angle is clockwise on the screen
+            self._painter.save()
+            self._painter.translate(center)
+            self._painter.rotate(-item.angle)
+            self._paint_arc(item, QPointF(0, 0), radius_x, radius_y)
+            self._painter.restore()
+        else:
+            self._paint_arc(item, center, radius_x, radius_y)
 
     ##############################################
 
-- 
2.43.0


From b3e2385e2ccec095f47daab20b8c514bb6362aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:59 +0000
Subject: [PATCH 127/177] fix: viewer failed when its scene is set before its
 geometry

---
 Patro/GraphicEngine/Painter/QtPainter.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/QtPainter.py b/Patro/GraphicEngine/Painter/QtPainter.py
index 53d60d4..e15911b 100644
--- a/Patro/GraphicEngine/Painter/QtPainter.py
+++ b/Patro/GraphicEngine/Painter/QtPainter.py
@@ -534,7 +534,11 @@ class ViewportArea:
         # self._height = geometry.height()
         self._viewport_size = self._to_np_array(geometry.width(), geometry.height())
         if self:
-            self._update_viewport_area()
+            if self._center is None:
+                # the scene was set before
+                self.fit_scene()
+            else:
+                self._update_viewport_area()
 
     ##############################################
 
@@ -628,7 +632,7 @@ class ViewportArea:
     def fit_scene(self):
 
         # Fixme: AttributeError: 'NoneType' object has no attribute 'center'
-        if self:
+        if self and self._viewport_size is not None:
             center = self._to_np_array(self.scene_area.center)
             scale, axis = self._compute_scale_to_fit_scene()
             self.zoom_at(center, scale)
-- 
2.43.0


From 573f5875fb0897ad555601dbaad1b9aa5a3d3ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:03 +0000
Subject: [PATCH 128/177] fix: PDF painter drew invisible lines

---
 Patro/GraphicEngine/Painter/PdfPainter.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/Patro/GraphicEngine/Painter/PdfPainter.py b/Patro/GraphicEngine/Painter/PdfPainter.py
index 8ad318a..5f33d21 100644
--- a/Patro/GraphicEngine/Painter/PdfPainter.py
+++ b/Patro/GraphicEngine/Painter/PdfPainter.py
@@ -119,6 +119,13 @@ class ReportlabPainter(PdfPainterBase):
 
     ##############################################
 
+    @staticmethod
+    def _is_invisible(item):
+        path_style = item.path_style
+        return path_style.stroke_color is None or path_style.stroke_style is StrokeStyle.NoPen
+
+    ##############################################
+
     def _set_graphic_style(self, item):
         path_syle = item.path_style
         color = path_syle.stroke_color.name
@@ -147,12 +154,16 @@ class ReportlabPainter(PdfPainterBase):
     ##############################################
 
     def paint_SegmentItem(self, item):
+        if self._is_invisible(item):
+            return
         # self._set_graphic_style(item)
         self._canvas.line(*self.cast_item_coordinates(item, flat=True))
 
     ##############################################
 
     def paint_CubicBezierItem(self, item):
+        if self._is_invisible(item):
+            return
         # self._set_graphic_style(item)
         self._canvas.bezier(*self.cast_item_coordinates(item, flat=True))
 
-- 
2.43.0


From b355c34ca53be99335002fb4dced7b3e97ab74c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:00 +0000
Subject: [PATCH 129/177] fix: a colour made from another colour keeps its
 float components

---
 Patro/GraphicStyle/Color/ColorDataBase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicStyle/Color/ColorDataBase.py b/Patro/GraphicStyle/Color/ColorDataBase.py
index 3f95601..68561d1 100644
--- a/Patro/GraphicStyle/Color/ColorDataBase.py
+++ b/Patro/GraphicStyle/Color/ColorDataBase.py
@@ -63,7 +63,7 @@ class Color:
         number_of_args = len(args)
         if number_of_args == 1:
             color = args[0]
-            if isinstance(str, Color):
+            if isinstance(color, Color):
                 self._red = color.red_float
                 self._green = color.green_float
                 self._blue = color.blue_float
-- 
2.43.0


From c734fc6672cecc8eff6954d8110a2ec474c4b45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:00 +0000
Subject: [PATCH 130/177] fix: colour components are rounded to the nearest
 integer

---
 Patro/GraphicStyle/Color/ColorDataBase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicStyle/Color/ColorDataBase.py b/Patro/GraphicStyle/Color/ColorDataBase.py
index 68561d1..e74678d 100644
--- a/Patro/GraphicStyle/Color/ColorDataBase.py
+++ b/Patro/GraphicStyle/Color/ColorDataBase.py
@@ -116,7 +116,7 @@ class Color:
 
     @staticmethod
     def _to_int(x: float) -> int:
-        return int(x*255)
+        return round(x*255)
 
     @staticmethod
     def _to_float(x: int) -> float:
-- 
2.43.0


From 62724866513ed4f84aafce3678d7fccc339c1cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:00 +0000
Subject: [PATCH 131/177] fix: colour strings which are not #rrggbb are refused

---
 Patro/GraphicStyle/Color/ColorDataBase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicStyle/Color/ColorDataBase.py b/Patro/GraphicStyle/Color/ColorDataBase.py
index e74678d..ac06fc4 100644
--- a/Patro/GraphicStyle/Color/ColorDataBase.py
+++ b/Patro/GraphicStyle/Color/ColorDataBase.py
@@ -69,7 +69,7 @@ class Color:
                 self._blue = color.blue_float
             else:
                 rgb = str(color)
-                if not rgb.startswith('#'):
+                if not rgb.startswith('#') or len(rgb) != 7:
                     raise ValueError(f'Invalid color {rgb}')
                 rgb = rgb[1:]
                 red, green, blue = rgb[:2], rgb[2:4], rgb[-2:]
-- 
2.43.0


From 636d2445f9cc04605f3e52e04de3e09ed48c086a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:00 +0000
Subject: [PATCH 132/177] fix: an unknown colour name is an attribute error

---
 Patro/GraphicStyle/Color/ColorDataBase.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Patro/GraphicStyle/Color/ColorDataBase.py b/Patro/GraphicStyle/Color/ColorDataBase.py
index ac06fc4..e17fb49 100644
--- a/Patro/GraphicStyle/Color/ColorDataBase.py
+++ b/Patro/GraphicStyle/Color/ColorDataBase.py
@@ -239,7 +239,10 @@ class ColorDataBase:
         return self._colors[str(name)]
 
     def __getattr__(self, name: str) -> Color:
-        return self._colors[name]
+        try:
+            return self.__dict__['_colors'][name]
+        except KeyError:
+            raise AttributeError(name)
 
     ##############################################
 
-- 
2.43.0


From 4f7a2f7777714ae502f2d859dc5b4de7638a6a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:00 +0000
Subject: [PATCH 133/177] fix: a cloned style keeps its transparencies, cap and
 join

---
 Patro/GraphicEngine/GraphicScene/GraphicStyle.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Patro/GraphicEngine/GraphicScene/GraphicStyle.py b/Patro/GraphicEngine/GraphicScene/GraphicStyle.py
index c06a0a8..4154239 100644
--- a/Patro/GraphicEngine/GraphicScene/GraphicStyle.py
+++ b/Patro/GraphicEngine/GraphicScene/GraphicStyle.py
@@ -86,7 +86,11 @@ class GraphicPathStyle:
             'stroke_style',
             'line_width',
             'stroke_color',
+            'stroke_alpha',
             'fill_color',
+            'fill_alpha',
+            'cap_style',
+            'join_style',
         )
 
     ##############################################
-- 
2.43.0


From 57735a436409764869fdbb53bba7cc0156b357c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:00 +0000
Subject: [PATCH 134/177] fix: a cloned Bezier style keeps its path style

---
 Patro/GraphicEngine/GraphicScene/GraphicStyle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/GraphicScene/GraphicStyle.py b/Patro/GraphicEngine/GraphicScene/GraphicStyle.py
index 4154239..de1d1d4 100644
--- a/Patro/GraphicEngine/GraphicScene/GraphicStyle.py
+++ b/Patro/GraphicEngine/GraphicScene/GraphicStyle.py
@@ -207,7 +207,7 @@ class GraphicBezierStyle(GraphicPathStyle):
     ##############################################
 
     def _dict_keys(self) -> list:
-        return (
+        return super()._dict_keys() + (
             'show_control',
             'control_color',
         )
-- 
2.43.0


From 7ca8744c86c8efa540c36c59eb26e43d8bb702ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:29 +0000
Subject: [PATCH 135/177] fix: a grey given by hue and integer light was nearly
 black

---
 Patro/GraphicStyle/Color/ColorDataBase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicStyle/Color/ColorDataBase.py b/Patro/GraphicStyle/Color/ColorDataBase.py
index e17fb49..b4af410 100644
--- a/Patro/GraphicStyle/Color/ColorDataBase.py
+++ b/Patro/GraphicStyle/Color/ColorDataBase.py
@@ -89,7 +89,7 @@ class Color:
                 red, green, blue = colorsys.hsv_to_rgb(hue, saturation, value)
             else:
                 raise ValueError('Missing color parameter')
-            self._red, self._green, self._blue = [self._check_value(x) for x in (red, green, blue)]
+            self._red, self._green, self._blue = [self._check_value(float(x)) for x in (red, green, blue)]
 
         # self._name = kwargs.get('name', None)
         if 'name' in kwargs:
-- 
2.43.0


From 24efd44932bea798bc8e18a7b6a2712ea40cf882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:51 +0000
Subject: [PATCH 136/177] fix: colour strings with other characters than
 hexadecimal digits are refused

---
 Patro/GraphicStyle/Color/ColorDataBase.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Patro/GraphicStyle/Color/ColorDataBase.py b/Patro/GraphicStyle/Color/ColorDataBase.py
index b4af410..7000c40 100644
--- a/Patro/GraphicStyle/Color/ColorDataBase.py
+++ b/Patro/GraphicStyle/Color/ColorDataBase.py
@@ -29,6 +29,7 @@ __all__ = ['Color', 'ColorDataBase']
 ####################################################################################################
 
 import colorsys
+import re
 from typing import Iterator
 
 ####################################################################################################
@@ -69,7 +70,7 @@ class Color:
                 self._blue = color.blue_float
             else:
                 rgb = str(color)
-                if not rgb.startswith('#') or len(rgb) != 7:
+                if not re.fullmatch('#[0-9a-fA-F]{6}', rgb):
                     raise ValueError(f'Invalid color {rgb}')
                 rgb = rgb[1:]
                 red, green, blue = rgb[:2], rgb[2:4], rgb[-2:]
-- 
2.43.0


From fab33ae1d25aa838d7cb8b3844db714569509a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:36 +0000
Subject: [PATCH 137/177] fix: DXF points are not sliceable

---
 Patro/FileFormat/Dxf/Importer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/FileFormat/Dxf/Importer.py b/Patro/FileFormat/Dxf/Importer.py
index 53d192a..f0a5761 100644
--- a/Patro/FileFormat/Dxf/Importer.py
+++ b/Patro/FileFormat/Dxf/Importer.py
@@ -69,7 +69,7 @@ class DxfImporter:
 
     @staticmethod
     def _to_vector(point):
-        return Vector2D(point[:2])
+        return Vector2D(point[0], point[1])
 
     @classmethod
     def _to_vectors(cls, points):
-- 
2.43.0


From ad053102a32846fe5e7c03df5c485a792b93ec75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:36 +0000
Subject: [PATCH 138/177] fix: DXF splines are read from their control points

---
 Patro/FileFormat/Dxf/Importer.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/Patro/FileFormat/Dxf/Importer.py b/Patro/FileFormat/Dxf/Importer.py
index f0a5761..c9fb51d 100644
--- a/Patro/FileFormat/Dxf/Importer.py
+++ b/Patro/FileFormat/Dxf/Importer.py
@@ -156,8 +156,7 @@ class DxfImporter:
 
     def _on_spline(self, item):
 
-        with item.edit_data() as data:
-            points = self._to_vectors(data.control_points)
+        points = self._to_vectors(item.control_points)
         item_dxf = item.dxf
         spline = BSpline2D(points, item_dxf.degree, item.closed)
         self._add(spline)
-- 
2.43.0


From ae52f63c389e7b1a5f0ec93927caaf5e3485d83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:36 +0000
Subject: [PATCH 139/177] fix: DXF negative bulges had a negative radius and
 their centre on the wrong side

---
 Patro/FileFormat/Dxf/Polyline.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/Patro/FileFormat/Dxf/Polyline.py b/Patro/FileFormat/Dxf/Polyline.py
index 0e6a928..d7a1c5a 100644
--- a/Patro/FileFormat/Dxf/Polyline.py
+++ b/Patro/FileFormat/Dxf/Polyline.py
@@ -20,7 +20,6 @@
 
 ####################################################################################################
 
-from Patro.Common.Math.Functions import sign
 from Patro.GeometryEngine.Conic import Circle2D, AngularDomain
 from Patro.GeometryEngine.Segment import Segment2D
 from Patro.GeometryEngine.Vector import Vector2D
@@ -130,7 +129,7 @@ class PolylineVertex:
         if self._bulge == 0:
             return 0
         else:
-            return self.demi_chord/2 * (self._bulge + 1/self._bulge)
+            return self.demi_chord/2 * abs(self._bulge + 1/self._bulge)
 
     ##############################################
 
@@ -212,7 +211,7 @@ class Polyline:
                 normal = direction.normal
                 # offset = vertex1.bulge_radius - vertex1.sagitta
                 offset = vertex1.sagitta_dual
-                center = segment_center + normal * sign(vertex1.bulge) * offset
+                center = segment_center + normal * offset
                 arc = Circle2D(center, vertex1.bulge_radius)
                 start_angle, stop_angle = [arc.angle_for_point(vertex.point) for vertex in (vertex1, vertex2)]
                 if start_angle < 0:
-- 
2.43.0


From 83e99baaa6a87ba63072d6843a8675939fcad290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:36 +0000
Subject: [PATCH 140/177] fix: DXF polyline to text

---
 Patro/FileFormat/Dxf/Polyline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/FileFormat/Dxf/Polyline.py b/Patro/FileFormat/Dxf/Polyline.py
index d7a1c5a..7edfd43 100644
--- a/Patro/FileFormat/Dxf/Polyline.py
+++ b/Patro/FileFormat/Dxf/Polyline.py
@@ -188,7 +188,7 @@ class Polyline:
     ##############################################
 
     def __str__(self):
-        return ' '.join(['{:5.2f}'.format(vertex) for vertex in self])
+        return ' '.join([str(vertex) for vertex in self])
 
     ##############################################
 
-- 
2.43.0


From 4732667fbebdb0705202cc51cf105292dedf0add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:56 +0000
Subject: [PATCH 141/177] fix: the parameters of a vertical DXF ellipse arc
 start from its major axis

---
 Patro/FileFormat/Dxf/Importer.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/Patro/FileFormat/Dxf/Importer.py b/Patro/FileFormat/Dxf/Importer.py
index c9fb51d..98f8bb8 100644
--- a/Patro/FileFormat/Dxf/Importer.py
+++ b/Patro/FileFormat/Dxf/Importer.py
@@ -130,10 +130,6 @@ class DxfImporter:
         domain = AngularDomain(item_dxf.start_param, item_dxf.end_param, degrees=False)
         radius_x, radius_y = major_axis.magnitude, minor_axis.magnitude
         angle = major_axis.orientation
-        if angle == 90:
-            radius_x, radius_y = radius_y, radius_x
-            angle = 0
-        # Fixme: ...
         ellipse = Ellipse2D(
             center,
             radius_x, radius_y,
-- 
2.43.0


From f2254b72e9764e007663e066ea477e0e62b16ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:56 +0000
Subject: [PATCH 142/177] fix: a full DXF ellipse is a closed ellipse

---
 Patro/FileFormat/Dxf/Importer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Patro/FileFormat/Dxf/Importer.py b/Patro/FileFormat/Dxf/Importer.py
index 98f8bb8..c4c0b93 100644
--- a/Patro/FileFormat/Dxf/Importer.py
+++ b/Patro/FileFormat/Dxf/Importer.py
@@ -128,6 +128,8 @@ class DxfImporter:
         major_axis = self._to_vector(item_dxf.major_axis)
         minor_axis = major_axis * item_dxf.ratio
         domain = AngularDomain(item_dxf.start_param, item_dxf.end_param, degrees=False)
+        if domain.is_closed:
+            domain = None
         radius_x, radius_y = major_axis.magnitude, minor_axis.magnitude
         angle = major_axis.orientation
         ellipse = Ellipse2D(
-- 
2.43.0


From 598a9ec85b144d6a47b9814e2e283adc6822b993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:56 +0000
Subject: [PATCH 143/177] fix: DXF importer ignored the knots of splines

---
 Patro/FileFormat/Dxf/Importer.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Patro/FileFormat/Dxf/Importer.py b/Patro/FileFormat/Dxf/Importer.py
index c4c0b93..ddd7bbc 100644
--- a/Patro/FileFormat/Dxf/Importer.py
+++ b/Patro/FileFormat/Dxf/Importer.py
@@ -156,5 +156,11 @@ class DxfImporter:
 
         points = self._to_vectors(item.control_points)
         item_dxf = item.dxf
-        spline = BSpline2D(points, item_dxf.degree, item.closed)
+        degree = item_dxf.degree
+        knots = list(item.knots)
+        uniform_knots = BSpline2D.uniform_knots(degree, len(points))
+        scale = uniform_knots[-1] / (knots[-1] - knots[0])
+        if all(abs((knot - knots[0])*scale - uniform_knot) < 1e-9 for knot, uniform_knot in zip(knots, uniform_knots)):
+            knots = None
+        spline = BSpline2D(points, degree, item.closed, knots)
         self._add(spline)
-- 
2.43.0


From 7ec92225d37e946dbbe85277a14f7e518c9ac4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:14 +0000
Subject: [PATCH 144/177] fix: denier and metric number to tex conversions

---
 Patro/TextileTechnology/Yarn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/TextileTechnology/Yarn.py b/Patro/TextileTechnology/Yarn.py
index b77e202..ae17342 100644
--- a/Patro/TextileTechnology/Yarn.py
+++ b/Patro/TextileTechnology/Yarn.py
@@ -30,13 +30,13 @@ def tex2den(x):
     return x*9
 
 def den2tex(x):
-    return x*10/9
+    return x/9
 
 def tex2nm(x):
     return 1000/x
 
 def nm2tex(x):
-    return 1000*x
+    return 1000/x
 
 ####################################################################################################
 
-- 
2.43.0


From f2d06aaf152e7129a16da0efe46c7f04ff56869b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:14 +0000
Subject: [PATCH 145/177] fix: a yarn without twist type was refused

---
 Patro/TextileTechnology/Yarn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/TextileTechnology/Yarn.py b/Patro/TextileTechnology/Yarn.py
index ae17342..2e32f37 100644
--- a/Patro/TextileTechnology/Yarn.py
+++ b/Patro/TextileTechnology/Yarn.py
@@ -66,7 +66,7 @@ class Yarn:
         self._fiber = str(fiber) # composition ?
         self._color = color # Fixme: multicolor ? data type ?
         self._tex = float(tex) # g/km
-        self._twist_type = TwistType(twist_type)
+        self._twist_type = TwistType(twist_type) if twist_type is not None else None
 
     ##############################################
 
-- 
2.43.0


From 527d40e32176221e726cf1c490412ffed63978a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:14 +0000
Subject: [PATCH 146/177] fix: the fibre database did not load

---
 Patro/TextileTechnology/Fiber.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Patro/TextileTechnology/Fiber.py b/Patro/TextileTechnology/Fiber.py
index df32aec..c7231d2 100644
--- a/Patro/TextileTechnology/Fiber.py
+++ b/Patro/TextileTechnology/Fiber.py
@@ -80,12 +80,12 @@ class FiberDatabase(Database):
 
         data = super().load(yaml_path)
 
-        natural_fibers = data['Natural Fibers']
-        for name, item in natural_fibers['Plant Fibers'].items():
+        natural_fibers = data['Natural Fibres']
+        for name, item in natural_fibers['Plant Fibres'].items():
             self.add(Fiber(name, FiberType.Natural, FiberType.Plant, item['source']))
-        for name, item in natural_fibers['Animal Fibers'].items():
+        for name, item in natural_fibers['Animal Fibres'].items():
             self.add(Fiber(name, FiberType.Natural, FiberType.Animal, item['source']))
 
-        synthetic_fibers = data['Synthetic Fibers']
+        synthetic_fibers = data['Synthetic Fibres']
         for name, item in synthetic_fibers.items():
             self.add(Fiber(name, FiberType.Synthetic, None, None))
-- 
2.43.0


From 3c033ca9850502913485246c05dbb3ea9f28b218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:14 +0000
Subject: [PATCH 147/177] fix: the source type and the unknown source of a
 fibre were texts

---
 Patro/TextileTechnology/Fiber.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/TextileTechnology/Fiber.py b/Patro/TextileTechnology/Fiber.py
index c7231d2..072d39c 100644
--- a/Patro/TextileTechnology/Fiber.py
+++ b/Patro/TextileTechnology/Fiber.py
@@ -47,8 +47,8 @@ class Fiber:
 
         self._name = str(name)
         self._fiber_type = FiberType(fiber_type)
-        self._source_type = str(source_type)
-        self._source = str(source)
+        self._source_type = FiberType(source_type) if source_type is not None else None
+        self._source = str(source) if source is not None else None
 
     ##############################################
 
-- 
2.43.0


From d6ebf6109976348b4067ccfbff9752506dffd34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:14 +0000
Subject: [PATCH 148/177] fix: the source of a synthetic fibre was lost

---
 Patro/TextileTechnology/Fiber.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Patro/TextileTechnology/Fiber.py b/Patro/TextileTechnology/Fiber.py
index 072d39c..2a7ff84 100644
--- a/Patro/TextileTechnology/Fiber.py
+++ b/Patro/TextileTechnology/Fiber.py
@@ -88,4 +88,5 @@ class FiberDatabase(Database):
 
         synthetic_fibers = data['Synthetic Fibres']
         for name, item in synthetic_fibers.items():
-            self.add(Fiber(name, FiberType.Synthetic, None, None))
+            source = item.get('source', None) if item is not None else None
+            self.add(Fiber(name, FiberType.Synthetic, None, source))
-- 
2.43.0


From b01173bf84342789751a86ddcc01b44c0c31de32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:14 +0000
Subject: [PATCH 149/177] fix: a fabric could not be made

---
 Patro/TextileTechnology/Fabric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/TextileTechnology/Fabric.py b/Patro/TextileTechnology/Fabric.py
index 9f6926a..4fab543 100644
--- a/Patro/TextileTechnology/Fabric.py
+++ b/Patro/TextileTechnology/Fabric.py
@@ -100,7 +100,7 @@ class Fabric:
         self._shear = float(kwargs['shear'])
         self._fiction = float(kwargs['friction'])
         self._weight = float(kwargs['weight'])
-        self._shrinkage = FloatPair(kwargs.get('shrinkage', (0, 0)))
+        self._shrinkage = FloatPair(*kwargs.get('shrinkage', (0, 0)))
         self._pressure = float(kwargs['pressure'])
 
         # texture attributes
-- 
2.43.0


From d65775e9e4ac24b8083646106c7e2c45c10cf32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:14 +0000
Subject: [PATCH 150/177] fix: weave types are an enumeration

---
 Patro/TextileTechnology/Fabric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/TextileTechnology/Fabric.py b/Patro/TextileTechnology/Fabric.py
index 4fab543..6c34699 100644
--- a/Patro/TextileTechnology/Fabric.py
+++ b/Patro/TextileTechnology/Fabric.py
@@ -48,7 +48,7 @@ class FabricType(Enum):
 
 ####################################################################################################
 
-class WeaveType:
+class WeaveType(Enum):
 
     # In plain weave cloth, the warp and weft threads cross at right angles, aligned so they form a
     # simple criss-cross pattern. Each weft thread crosses the warp threads by going over one, then
-- 
2.43.0


From d91cbbe39da42d6bd0192a6ca88f04dd68e4fe7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:14 +0000
Subject: [PATCH 151/177] fix: name of an ASTM seam

---
 Patro/TextileTechnology/Seam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/TextileTechnology/Seam.py b/Patro/TextileTechnology/Seam.py
index 76585aa..dbcdb62 100644
--- a/Patro/TextileTechnology/Seam.py
+++ b/Patro/TextileTechnology/Seam.py
@@ -52,4 +52,4 @@ class AstmSeam:
 
     @property
     def name(self):
-        return '{self._class}{self._type}-{self._number_of_rows}'.format(self)
+        return '{0._class}{0._type}-{0._number_of_rows}'.format(self)
-- 
2.43.0


From ff749b17371dd419316fa1c8e23e04e54eb80c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:14 +0000
Subject: [PATCH 152/177] fix: size of a needle

---
 Patro/TextileTechnology/SewingMachine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/TextileTechnology/SewingMachine.py b/Patro/TextileTechnology/SewingMachine.py
index 0f1ff8d..ea4d51b 100644
--- a/Patro/TextileTechnology/SewingMachine.py
+++ b/Patro/TextileTechnology/SewingMachine.py
@@ -138,7 +138,7 @@ class Needle:
 
     @property
     def size(self):
-        return self._size
+        return self._nm_size
 
     @property
     def multiplicity(self):
-- 
2.43.0


From a984eee9cbf5016c755e7bb29f9cb41e22c6dfcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:44 +0000
Subject: [PATCH 153/177] fix: accept a blank at the start of a formula

---
 Patro/Pattern/Calculator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Patro/Pattern/Calculator.py b/Patro/Pattern/Calculator.py
index 42b5ae4..58b357d 100644
--- a/Patro/Pattern/Calculator.py
+++ b/Patro/Pattern/Calculator.py
@@ -285,7 +285,8 @@ class Expression:
         # http://beltoforion.de/article.php?a=muparserx
 
         # Get the AST of the expression
-        self._ast = ast.parse(expression, mode='eval')
+        # Note: Python doesn't accept a leading blank
+        self._ast = ast.parse(expression.strip(), mode='eval')
 
         # Get the dependencies
         node_visitor = NodeVisitor(self._calculator)
-- 
2.43.0


From 017c841b282e8b07e41284652d2a36e15e97cac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:59 +0000
Subject: [PATCH 154/177] fix: rotate and mirror the arc domain and the ellipse
 angle in apply_transformation

---
 Patro/GeometryEngine/Conic.py | 41 +++++++++++++++++++++++++++++++----
 1 file changed, 37 insertions(+), 4 deletions(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index f11b955..4234095 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -60,6 +60,26 @@ class PointNotOnCircleError(ValueError):
 
 ####################################################################################################
 
+def _decompose_similarity(transformation):
+
+    """Return the scale factor, the angle in degrees of the image of the x axis, and True if the
+    transformation mirrors.
+
+    Raise *ValueError* if the transformation is sheared.
+
+    """
+
+    (xx, yx), (xy, yy) = transformation.array[:2,:2]
+    scale = math.hypot(xx, xy)
+    is_mirrored = xx*yy - yx*xy < 0
+    if is_mirrored:
+        yx, yy = -yx, -yy
+    if not math.hypot(yx + xy, yy - xx) <= 1e-9 * scale:
+        raise ValueError('Transformation is sheared')
+    return scale, math.degrees(math.atan2(xy, xx)), is_mirrored
+
+####################################################################################################
+
 class Circle2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
 
     """Class to implements 2D Circle."""
@@ -139,10 +159,16 @@ class Circle2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
     ##############################################
 
     def apply_transformation(self, transformation):
-        self._center = transformation * self._center
         # Fixme: shear -> ellipse
+        scale, angle, is_mirrored = _decompose_similarity(transformation)
+        self._center = transformation * self._center
         if self._radius is not None:
-            self._radius = transformation * self._radius
+            self._radius = scale * self._radius
+        if self._domain is not None:
+            start, stop = self._domain.start, self._domain.stop
+            if is_mirrored:
+                start, stop = -stop, -start
+            self._domain = AngularDomain(start + angle, stop + angle)
 
     ##############################################
 
@@ -491,9 +517,16 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
     ##############################################
 
     def apply_transformation(self, transformation):
+        scale, angle, is_mirrored = _decompose_similarity(transformation)
         self._center = transformation * self._center
-        self._radius_x = transformation * self._radius_x
-        self._radius_y = transformation * self._radius_y
+        self._radius_x = scale * self._radius_x
+        self._radius_y = scale * self._radius_y
+        if is_mirrored:
+            self._angle = angle - self._angle
+            if self._domain is not None:
+                self._domain = AngularDomain(-self._domain.stop, -self._domain.start)
+        else:
+            self._angle = angle + self._angle
 
     ##############################################
 
-- 
2.43.0


From 82623d8e109ef4cd41e19032fd531cba0e290f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:55 +0000
Subject: [PATCH 155/177] fix: closing a path twice changes the radius of its
 first corner

---
 Patro/GeometryEngine/Path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index 7c43f18..9e1fb93 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -1141,7 +1141,7 @@ class Path2D(Primitive1PMixin, Primitive2DMixin, PointPrimitive):
 
         closing = close_radius is not None
         segment = self._add_part(PathSegment, self._p0, radius, absolute=True, closing=closing)
-        if closing:
+        if closing and not self._is_closed:
             self.start_segment.close(close_radius)
         self._is_closed = True
 
-- 
2.43.0


From 7cd8f178c08563566f114b3d7d03b8d657fc5a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:08 +0000
Subject: [PATCH 156/177] fix: a DXF null edge with a bulge is not an arc

---
 Patro/FileFormat/Dxf/Polyline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/FileFormat/Dxf/Polyline.py b/Patro/FileFormat/Dxf/Polyline.py
index 7edfd43..8d6e8ed 100644
--- a/Patro/FileFormat/Dxf/Polyline.py
+++ b/Patro/FileFormat/Dxf/Polyline.py
@@ -205,7 +205,7 @@ class Polyline:
         items = []
         for vertex1, vertex2 in self.iter_on_segment():
             segment = Segment2D(vertex1.point, vertex2.point)
-            if vertex1.bulge:
+            if vertex1.bulge and segment.length: # a null edge has no arc
                 segment_center = segment.center
                 direction = vertex1.segment_vector.normalise()
                 normal = direction.normal
-- 
2.43.0


From 70b0f8f0979103c7a761c8b00523a147f54c5cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:08 +0000
Subject: [PATCH 157/177] fix: abscissae of a line in a bounding box always
 raised, and compared steepness wrongly

---
 Patro/GeometryEngine/Line.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Patro/GeometryEngine/Line.py b/Patro/GeometryEngine/Line.py
index 404563a..69c589b 100644
--- a/Patro/GeometryEngine/Line.py
+++ b/Patro/GeometryEngine/Line.py
@@ -266,9 +266,9 @@ class Line2D(Primitive2DMixin, Primitive):
         """Return the bounding box build on the intersection of the input bounding box with the line
 
         """
-        left, bottom, right, top = interval.bounding_box()
-        vb = Vector2D(interval.size())
-        if abs(self.v.tan) > vb.tan:
+        left, bottom, right, top = interval.bounding_box
+        vb = Vector2D(interval.size)
+        if abs(self.v.y * vb.x) > abs(self.v.x * vb.y):
             x_min, y_min = self.get_x_from_y(bottom), bottom
             x_max, y_max = self.get_x_from_y(top), top
         else:
-- 
2.43.0


From 8ab59839e92b47b5b0a3012d3687728710e7135a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:08 +0000
Subject: [PATCH 158/177] fix: repr of an ellipse showed the first radius twice

---
 Patro/GeometryEngine/Conic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index 4234095..bf78b9a 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -531,7 +531,7 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
     ##############################################
 
     def __repr__(self):
-        return '{0}({1._center}, {1._radius_x}, {1._radius_x}, {1._angle})'.format(self.__class__.__name__, self)
+        return '{0}({1._center}, {1._radius_x}, {1._radius_y}, {1._angle})'.format(self.__class__.__name__, self)
 
     ##############################################
 
-- 
2.43.0


From 7baec67b5127002de1a8d635ea950e8d6241c905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:17 +0000
Subject: [PATCH 159/177] fix: the SVG export of the Qt painter always raised,
 and was upside down

---
 Patro/GraphicEngine/Painter/QtPainter.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/QtPainter.py b/Patro/GraphicEngine/Painter/QtPainter.py
index e15911b..b4aa3f2 100644
--- a/Patro/GraphicEngine/Painter/QtPainter.py
+++ b/Patro/GraphicEngine/Painter/QtPainter.py
@@ -142,8 +142,8 @@ class QtPainter(Painter):
         self._scale = scale
 
         bounding_box = self._scene.bounding_box
-        size = QSize(*[x*self._scale for x in bounding_box.size])
-        view_box = QRectF(*[x*self._scale for x in bounding_box.rect])
+        size = QSize(*[math.ceil(x*self._scale) for x in bounding_box.size])
+        view_box = QRectF(*[x*self._scale for x in (bounding_box.x.inf, -bounding_box.y.sup, *bounding_box.size)])
         generator.setSize(size)
         generator.setViewBox(view_box)
 
@@ -178,7 +178,8 @@ class QtPainter(Painter):
         return None
 
     def scene_to_viewport(self, position):
-        return QPointF(position.x * self._scale, position.y * self._scale)
+        # y is upwards
+        return QPointF(position.x * self._scale, -position.y * self._scale)
 
         # Note: painter.scale apply to text as well
 
-- 
2.43.0


From e5ea8180ca073e7e5cdf4254c927717d6715962b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:17 +0000
Subject: [PATCH 160/177] fix: the Qt painter squashed an image given by its
 lower corner first

---
 Patro/GraphicEngine/Painter/QtPainter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/Painter/QtPainter.py b/Patro/GraphicEngine/Painter/QtPainter.py
index b4aa3f2..dde2195 100644
--- a/Patro/GraphicEngine/Painter/QtPainter.py
+++ b/Patro/GraphicEngine/Painter/QtPainter.py
@@ -403,7 +403,7 @@ class QtPainter(Painter):
     def paint_ImageItem(self, item):
 
         vertices = self.cast_item_positions(item)
-        rec = QRectF(vertices[0], vertices[1])
+        rec = QRectF(vertices[0], vertices[1]).normalized()
 
         image = item.image
         height, width, bytes_per_line = image.shape
-- 
2.43.0


From 8ed57846658c894f710e9622c1ffe7bfd90d2b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:17 +0000
Subject: [PATCH 161/177] fix: the Qt painter drew a text with the pen of the
 previous item

---
 Patro/GraphicEngine/Painter/QtPainter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Patro/GraphicEngine/Painter/QtPainter.py b/Patro/GraphicEngine/Painter/QtPainter.py
index dde2195..d44e635 100644
--- a/Patro/GraphicEngine/Painter/QtPainter.py
+++ b/Patro/GraphicEngine/Painter/QtPainter.py
@@ -478,6 +478,8 @@ class QtPainter(Painter):
         # height = font_metrics.height()
         # width = font_metrics.width(item.text)
 
+        # a text has no path style
+        self._painter.setPen(QPen(QColor('black')))
         self._painter.setFont(qfont)
         self._painter.drawText(position, item.text)
 
-- 
2.43.0


From dc8f6f6d6ab315320ddf45660165b0643e1e6bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:15 +0000
Subject: [PATCH 162/177] fix: DXF objects seen from below were imported
 mirrored

---
 Patro/FileFormat/Dxf/Importer.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/Patro/FileFormat/Dxf/Importer.py b/Patro/FileFormat/Dxf/Importer.py
index ddd7bbc..1e497d4 100644
--- a/Patro/FileFormat/Dxf/Importer.py
+++ b/Patro/FileFormat/Dxf/Importer.py
@@ -28,6 +28,8 @@ __all__ = ['DxfImporter']
 
 ####################################################################################################
 
+import math
+
 import ezdxf # Python packahe to read/write DXF
 
 from Patro.GeometryEngine.Conic import Circle2D, Ellipse2D, AngularDomain
@@ -77,6 +79,13 @@ class DxfImporter:
 
     ##############################################
 
+    @staticmethod
+    def _is_mirrored(item):
+        # the X axis of the coordinate system of the object is reversed when it is seen from below
+        return item.dxf.extrusion[2] < 0
+
+    ##############################################
+
     def _add(self, item):
         self._items.append(item)
 
@@ -112,8 +121,14 @@ class DxfImporter:
 
         item_dxf = item.dxf
         center = self._to_vector(item_dxf.center)
+        mirrored = self._is_mirrored(item)
+        if mirrored:
+            center = Vector2D(-center.x, center.y)
         if is_arc:
-            domain = AngularDomain(item_dxf.start_angle, item_dxf.end_angle)
+            start_angle, stop_angle = item_dxf.start_angle, item_dxf.end_angle
+            if mirrored:
+                start_angle, stop_angle = 180 - stop_angle, 180 - start_angle
+            domain = AngularDomain(start_angle, stop_angle)
         else:
             domain = None
         circle = Circle2D(center, item_dxf.radius, domain=domain)
@@ -127,7 +142,10 @@ class DxfImporter:
         center = self._to_vector(item_dxf.center)
         major_axis = self._to_vector(item_dxf.major_axis)
         minor_axis = major_axis * item_dxf.ratio
-        domain = AngularDomain(item_dxf.start_param, item_dxf.end_param, degrees=False)
+        start, stop = item_dxf.start_param, item_dxf.end_param
+        if self._is_mirrored(item):
+            start, stop = 2*math.pi - stop, 2*math.pi - start
+        domain = AngularDomain(start, stop, degrees=False)
         if domain.is_closed:
             domain = None
         radius_x, radius_y = major_axis.magnitude, minor_axis.magnitude
@@ -145,7 +163,10 @@ class DxfImporter:
     def _on_polyline(self, item):
 
         polyline = Polyline(item.closed)
+        mirrored = self._is_mirrored(item)
         for x, y, s, e, b in item.get_points():
+            if mirrored:
+                x, b = -x, -b
             polyline.add(Vector2D(x, y), b)
         geometry = polyline.geometry()
         self._add(geometry)
-- 
2.43.0


From a7348da6ac245c03658909cdd6f262463b814cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:56 +0000
Subject: [PATCH 163/177] fix: the kind of a triangle depended on the rounding
 of its lengths and angles

---
 Patro/GeometryEngine/Triangle.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/Patro/GeometryEngine/Triangle.py b/Patro/GeometryEngine/Triangle.py
index 34aae00..4b64fbb 100644
--- a/Patro/GeometryEngine/Triangle.py
+++ b/Patro/GeometryEngine/Triangle.py
@@ -204,8 +204,9 @@ class Triangle2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PolygonMixin
 
         self._cache_length()
         # all sides have the same length and angle = 60
-        return (self._p10 == self._p21 and
-                self._p21 == self._p02)
+        # Note: lengths are rounded
+        return (math.isclose(self._p10, self._p21) and
+                math.isclose(self._p21, self._p02))
 
     ##############################################
 
@@ -214,9 +215,9 @@ class Triangle2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PolygonMixin
 
         self._cache_length()
         # all sides have different lengths
-        return (self._p10 != self._p21 and
-                self._p21 != self._p02 and
-                self._p02 != self._p10)
+        return not (math.isclose(self._p10, self._p21) or
+                    math.isclose(self._p21, self._p02) or
+                    math.isclose(self._p02, self._p10))
 
     ##############################################
 
@@ -240,7 +241,8 @@ class Triangle2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PolygonMixin
     def is_obtuse(self):
         self._cache_angle()
         # one angle > 90
-        return max(self._a0, self._a1, self._a2) > 90
+        angle = max(self._a0, self._a1, self._a2)
+        return angle > 90 and not math.isclose(angle, 90)
 
     ##############################################
 
@@ -248,7 +250,8 @@ class Triangle2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PolygonMixin
     def is_acute(self):
         self._cache_angle()
         # all angle < 90
-        return max(self._a0, self._a1, self._a2) < 90
+        angle = max(self._a0, self._a1, self._a2)
+        return angle < 90 and not math.isclose(angle, 90)
 
     ##############################################
 
-- 
2.43.0


From c31b08af2fb3ed48f10e1b1f476e3b82d9d3b400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:56 +0000
Subject: [PATCH 164/177] fix: an oblique triangle is one without a right angle

---
 Patro/GeometryEngine/Triangle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Triangle.py b/Patro/GeometryEngine/Triangle.py
index 4b64fbb..6c367bc 100644
--- a/Patro/GeometryEngine/Triangle.py
+++ b/Patro/GeometryEngine/Triangle.py
@@ -257,7 +257,8 @@ class Triangle2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PolygonMixin
 
     @property
     def is_oblique(self):
-        return not self.is_equilateral
+        # no angle = 90
+        return self.is_obtuse or self.is_acute
 
     ##############################################
 
-- 
2.43.0


From 781856b7870ace1244f19759947b150155084435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:08 +0000
Subject: [PATCH 165/177] fix: an element of another vocabulary was read as an
 element of the SVG document

---
 Patro/FileFormat/Svg/SvgFile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Patro/FileFormat/Svg/SvgFile.py b/Patro/FileFormat/Svg/SvgFile.py
index 9aa9c48..5fded2f 100644
--- a/Patro/FileFormat/Svg/SvgFile.py
+++ b/Patro/FileFormat/Svg/SvgFile.py
@@ -267,6 +267,8 @@ class SvgDispatcher:
         for element in root:
             if not isinstance(element.tag, str):
                 continue # comment
+            if etree.QName(element).namespace not in (None, SvgFileMixin.SVG_xmlns):
+                continue # element of another vocabulary
             tag = self.element_tag(element)
             if tag == 'g':
                 self.on_group(element)
-- 
2.43.0


From c81de9c54f83d572dfd2f0d3ab53080a9c8e772c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:00 +0000
Subject: [PATCH 166/177] fix: a pattern was read with the measurements of the
 working directory

---
 Patro/FileFormat/Valentina/Pattern.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/Patro/FileFormat/Valentina/Pattern.py b/Patro/FileFormat/Valentina/Pattern.py
index 0e51d57..7048a96 100644
--- a/Patro/FileFormat/Valentina/Pattern.py
+++ b/Patro/FileFormat/Valentina/Pattern.py
@@ -268,12 +268,13 @@ class ValFileReaderInternal(XmlFileMixin):
 
         measurements_path = self.get_xpath_element(self.root, 'measurements').text
         if measurements_path is not None:
-            measurements_path = Path(measurements_path)
-            if not measurements_path.exists():
-                measurements_path = self.path.parent.joinpath(measurements_path)
-            if not measurements_path.exists():
+            # a relative path is relative to the pattern file, else to the working directory
+            for path in (self.path.parent.joinpath(measurements_path), Path(measurements_path)):
+                if path.exists():
+                    break
+            else:
                 raise NameError("Cannot find {}".format(measurements_path))
-            self.vit_file = VitFile(measurements_path)
+            self.vit_file = VitFile(path)
         else:
             self.vit_file = None
 
-- 
2.43.0


From 8cc27248596f15fa5e21a405dc153b3f54ebd431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:33 +0000
Subject: [PATCH 167/177] fix: a pattern written with a relative measurement
 path was not found from another directory

---
 Patro/FileFormat/Valentina/Pattern.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Patro/FileFormat/Valentina/Pattern.py b/Patro/FileFormat/Valentina/Pattern.py
index 7048a96..e9700c3 100644
--- a/Patro/FileFormat/Valentina/Pattern.py
+++ b/Patro/FileFormat/Valentina/Pattern.py
@@ -25,6 +25,7 @@
 ####################################################################################################
 
 import logging
+import os
 from pathlib import Path
 
 from lxml import etree
@@ -411,7 +412,12 @@ class ValFileWriter:
         etree.SubElement(root, 'notes')
         measurements = etree.SubElement(root, 'measurements')
         if self._vit_file is not None:
-            measurements.text = str(self._vit_file.path)
+            measurements_path = Path(self._vit_file.path)
+            if not measurements_path.is_absolute():
+                # the reader looks from the directory of the pattern file
+                directory = Path(self._path).parent.resolve()
+                measurements_path = os.path.relpath(measurements_path.resolve(), directory)
+            measurements.text = str(measurements_path)
         etree.SubElement(root, 'increments')
 
         for scope in self._pattern.scopes:
-- 
2.43.0


From cc3707d917a1a5833caeddfea4f444ef52d30714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:40 +0000
Subject: [PATCH 168/177] fix: interpolate the length of a nearly closed Bezier
 curve with enough points

---
 Patro/GeometryEngine/Bezier.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/Patro/GeometryEngine/Bezier.py b/Patro/GeometryEngine/Bezier.py
index 8df2a15..f97096d 100644
--- a/Patro/GeometryEngine/Bezier.py
+++ b/Patro/GeometryEngine/Bezier.py
@@ -84,12 +84,11 @@ class BezierMixin2D(Primitive2DMixin):
         """Length of the curve obtained via line interpolation"""
 
         if dt is None:
-            length = (self.end_point - self.start_point).magnitude
-            if length == 0: # closed curve
-                points = list(self.points)
-                length = sum([(p1 - p0).magnitude for p0, p1 in zip(points[:-1], points[1:])])
-                if length == 0:
-                    return 0
+            # Use the length of the control polygon, the chord can be much shorter than the curve
+            points = list(self.points)
+            length = sum([(p1 - p0).magnitude for p0, p1 in zip(points[:-1], points[1:])])
+            if length == 0:
+                return 0
             dt = self.LineInterpolationPrecision / length
 
         length = 0
-- 
2.43.0


From 60d66c3c812fb1642a524a9622d9957115ef753d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:37 +0000
Subject: [PATCH 169/177] fix: a detail on a not implemented element prevents
 to read a pattern

---
 Patro/FileFormat/Valentina/Pattern.py   | 11 +++++++++++
 Patro/FileFormat/Valentina/VitFormat.py |  2 +-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/Patro/FileFormat/Valentina/Pattern.py b/Patro/FileFormat/Valentina/Pattern.py
index e9700c3..e9317af 100644
--- a/Patro/FileFormat/Valentina/Pattern.py
+++ b/Patro/FileFormat/Valentina/Pattern.py
@@ -73,6 +73,12 @@ class Modeling:
 
     ##############################################
 
+    def get(self, id):
+        """Return None if the item is not implemented."""
+        return self._id_map.get(id, None)
+
+    ##############################################
+
     def add(self, item):
         self._id_map[item.id] = item
 
@@ -340,6 +346,8 @@ class ValFileReaderInternal(XmlFileMixin):
         for element in detail_element:
             if element.tag == 'nodes':
                 for node in element:
+                    if not isinstance(node.tag, str):
+                        continue # comment
                     xml_node = DetailNode(node)
                     xml_detail.append_node(xml_node)
             else:
@@ -352,6 +360,9 @@ class ValFileReaderInternal(XmlFileMixin):
 
         for node, modeling_item in xml_detail.iter_on_nodes():
             # print(node.object_id, '->', modeling_item, '->', modeling_item.object_id)
+            if modeling_item is None or not scope.sketch.has_operation_id(modeling_item.object_id):
+                self._logger.warning('Not implemented detail node {}'.format(node))
+                continue
             print(node, '->\n', modeling_item, '->\n', scope.sketch.get_operation(modeling_item.object_id))
 
 ####################################################################################################
diff --git a/Patro/FileFormat/Valentina/VitFormat.py b/Patro/FileFormat/Valentina/VitFormat.py
index 069927c..6f69a58 100644
--- a/Patro/FileFormat/Valentina/VitFormat.py
+++ b/Patro/FileFormat/Valentina/VitFormat.py
@@ -820,7 +820,7 @@ class Detail(MxMyMixin, XmlObjectAdaptator):
 
     def iter_on_nodes(self):
         for node in self._nodes:
-            yield node, self._modeling[node.object_id]
+            yield node, self._modeling.get(node.object_id)
 
 ####################################################################################################
 
-- 
2.43.0


From d339ba8174f4c77522b3e7bb983158df43374a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:36 +0000
Subject: [PATCH 170/177] fix: a vertex of the convex hull is lost when a
 nearer point has the same polar angle up to a rounding error

---
 Patro/GeometryEngine/Polygon.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Polygon.py b/Patro/GeometryEngine/Polygon.py
index c1b05d4..d1aa4bf 100644
--- a/Patro/GeometryEngine/Polygon.py
+++ b/Patro/GeometryEngine/Polygon.py
@@ -736,8 +736,9 @@ def sort_point_for_graham_scan(points):
     while i < len(data):
         prev = data[i-1]
         current = data[i]
-        # same polar angle ?
-        if prev[2] == current[2]:
+        # same polar angle, up to a rounding error ?
+        # Note: a point can be sorted after a farther one having the same polar angle
+        if current[2] - prev[2] < 1e-10:
             # cache magnitude_square
             if prev[3] is None:
                 prev[3] = prev[1].magnitude_square
-- 
2.43.0


From a4eec652e212a81586fa4eb66711ed0b4fd58395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:43 +0000
Subject: [PATCH 171/177] fix: a root of a second degree equation is lost when
 the leading coefficient vanishes up to a rounding error

---
 Patro/Common/Math/Root.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/Patro/Common/Math/Root.py b/Patro/Common/Math/Root.py
index 2a65b75..4736331 100644
--- a/Patro/Common/Math/Root.py
+++ b/Patro/Common/Math/Root.py
@@ -57,15 +57,18 @@ def quadratic_root(a, b, c):
     if D < 0:
         return () # not real
 
-    b = -b
-    s = 1 / (2*a)
     if D > 0:
         # Fixme: sign of b ???
-        r1 = (b - sqrt(D)) * s
-        r2 = (b + sqrt(D)) * s
-        return r1, r2
+        # The root for which b and sqrt(D) cancel each other is computed from the other one, since
+        # r1*r2 = c/a, else it is lost when a vanishes up to a rounding error
+        if b < 0:
+            q = (-b + sqrt(D)) / 2
+            return c / q, q / a
+        else:
+            q = (-b - sqrt(D)) / 2
+            return q / a, c / q
     else:
-        return (b * s,)
+        return (-b / (2*a),)
 
 ####################################################################################################
 
-- 
2.43.0


From e4992abb4ddae04d757455af354a66f008260a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:27:27 +0000
Subject: [PATCH 172/177] fix: the roots of a polynomial can raise an error
 from the factorisation of its coefficients

---
 Patro/Common/Math/Root.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Patro/Common/Math/Root.py b/Patro/Common/Math/Root.py
index 4736331..60a26ec 100644
--- a/Patro/Common/Math/Root.py
+++ b/Patro/Common/Math/Root.py
@@ -88,7 +88,10 @@ def real_roots(expression, x):
     if not expression.has(x):
         # constant polynomial
         return []
-    return [float(i.n()) for i in sympy.real_roots(expression, x)]
+    # radicals involve to factorise the rational coefficients of the floats, which is useless here,
+    # and can raise a ValueError
+    polynomial = sympy.Poly(expression, x, greedy=False)
+    return [float(i.n()) for i in polynomial.real_roots(radicals=False)]
 
 ####################################################################################################
 
-- 
2.43.0


From 9cc5e263f183ab57cbf1c59e2fa8c45585f5b0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:25 +0000
Subject: [PATCH 173/177] fix: a line shares its point and its vector with its
 clone, its parallels and its caller

---
 Patro/GeometryEngine/Line.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Line.py b/Patro/GeometryEngine/Line.py
index 69c589b..4557260 100644
--- a/Patro/GeometryEngine/Line.py
+++ b/Patro/GeometryEngine/Line.py
@@ -54,8 +54,9 @@ class Line2D(Primitive2DMixin, Primitive):
 
     def __init__(self, point: Vector2D, vector: Vector2D) -> None:
         """Construct a :class:`Line2D` from a point and a vector."""
-        self.p = point
-        self.v = vector
+        # a line has its own vectors, like the other primitives
+        self.p = point.clone()
+        self.v = vector.clone()
 
     ##############################################
 
-- 
2.43.0


From 303a2e1e57e05619a98dfbb565694f9411c0116a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:32 +0000
Subject: [PATCH 174/177] fix: the weight of a homogeneous vector is lost by
 its clone and its transformation

---
 Patro/GeometryEngine/Transformation.py |  4 +++-
 Patro/GeometryEngine/Vector.py         | 10 ++++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Transformation.py b/Patro/GeometryEngine/Transformation.py
index 8287e5d..7fef22a 100644
--- a/Patro/GeometryEngine/Transformation.py
+++ b/Patro/GeometryEngine/Transformation.py
@@ -429,7 +429,9 @@ class AffineTransformation2D(AffineTransformation):
 
         if isinstance(obj, HomogeneousVector2D):
             array = np.matmul(self._m, obj.v)
-            return obj.__class__(array)
+            vector = obj.__class__(array)
+            vector.w = array[2]
+            return vector
         elif isinstance(obj, Vector2D):
             array = np.matmul(self._m, HomogeneousVector2D(obj).v)
             # return HomogeneousVector2D(array).to_vector()
diff --git a/Patro/GeometryEngine/Vector.py b/Patro/GeometryEngine/Vector.py
index 4ae22e4..3e9f798 100644
--- a/Patro/GeometryEngine/Vector.py
+++ b/Patro/GeometryEngine/Vector.py
@@ -632,6 +632,16 @@ class HomogeneousVector2D(Vector2D):
     # def v(self, value):
     #     self._v = value
 
+    ##############################################
+
+    def clone(self) -> 'HomogeneousVector2D':
+        """ Return a copy of self """
+        obj = self.__class__(self._v)
+        obj._w = self._w
+        return obj
+
+    ##############################################
+
     @property
     def w(self) -> float:
         return self._w
-- 
2.43.0


From 43897924c4e28e191eafdf2208315b7c958a0ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:15:55 +0000
Subject: [PATCH 175/177] fix: the number of cores is doubled when the name of
 the processor contains this word

---
 Patro/Common/Platform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Patro/Common/Platform.py b/Patro/Common/Platform.py
index c1242b1..94cdaff 100644
--- a/Patro/Common/Platform.py
+++ b/Patro/Common/Platform.py
@@ -104,7 +104,8 @@ class Platform:
             number_of_cores = 0
             with open('/proc/cpuinfo', 'rt') as cpuinfo:
                 for line in cpuinfo:
-                    if 'processor' in line:
+                    # a model name can contain this word
+                    if line.split(':')[0].strip() == 'processor':
                         number_of_cores += 1
             return number_of_cores
 
-- 
2.43.0


From 510c7b44e007f9c13e0c96800daf16d0f28814d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:15:55 +0000
Subject: [PATCH 176/177] fix: the application does not start on a system which
 does not report the frequency of the processor

---
 Patro/Common/Platform.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Patro/Common/Platform.py b/Patro/Common/Platform.py
index 94cdaff..dd0c392 100644
--- a/Patro/Common/Platform.py
+++ b/Patro/Common/Platform.py
@@ -62,7 +62,10 @@ class Platform:
         self.cpu = self._get_cpu()
         self.number_of_cores = self._get_number_of_cores()
         self.cpu_khz = self._get_cpu_khz()
-        self.cpu_mhz = int(self._get_cpu_khz()/float(1000)) # rint
+        if self.cpu_khz is not None:
+            self.cpu_mhz = int(self.cpu_khz/float(1000)) # rint
+        else:
+            self.cpu_mhz = None # not reported by this architecture
 
         # RAM
         self.memory_size_kb = self._get_memory_size_kb()
-- 
2.43.0


From a88a085f367d7437f4d4d7985297eb7451276785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:27:24 +0000
Subject: [PATCH 177/177] fix: a user script which declares an encoding or
 starts with a byte order mark, or a folder given as script, aborts the
 application

---
 Patro/QtApplication/QmlApplication.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Patro/QtApplication/QmlApplication.py b/Patro/QtApplication/QmlApplication.py
index 2f9ab08..ef1fbcd 100644
--- a/Patro/QtApplication/QmlApplication.py
+++ b/Patro/QtApplication/QmlApplication.py
@@ -331,10 +331,13 @@ class Application(QObject):
         script_path = Path(script_path).absolute()
         self._logger.info('Execute user script:\n  {}'.format(script_path))
         try:
-            source = open(script_path).read()
+            # as bytes, a script can declare its encoding
+            source = script_path.read_bytes()
         except FileNotFoundError:
             self._logger.info('File {} not found'.format(script_path))
             sys.exit(1)
+        except OSError as exception:
+            self._on_critical_exception(exception)
         try:
             bytecode = compile(source, script_path, 'exec')
         except SyntaxError as exception:
-- 
2.43.0

