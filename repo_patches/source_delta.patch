From fd84d4f90b24e1ae4b13680c8cfdc3a92d5fa8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:21 +0000
Subject: [PATCH 01/30] fix: Sector2D clamps radii upwards and reports its
 outer radius

---
 src/pyrusgeom/sector_2d.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyrusgeom/sector_2d.py b/src/pyrusgeom/sector_2d.py
index b8b8679..6cd1c6b 100644
--- a/src/pyrusgeom/sector_2d.py
+++ b/src/pyrusgeom/sector_2d.py
@@ -44,7 +44,7 @@ class Sector2D(Region2D):
         super().__init__()
 
         self._center = Vector2D(center)
-        self._min_r = min(0.0, min_r)
+        self._min_r = max(0.0, min_r)
         self._max_r = max(min_r, max_r)
         self._start = AngleDeg(start)
         self._end = AngleDeg(end)
@@ -62,7 +62,7 @@ class Sector2D(Region2D):
             end (Union[AngleDeg, float]): end angle(turn clockwise)
         """
         self._center = Vector2D(center)
-        self._min_r = min(0.0, min_r)
+        self._min_r = max(0.0, min_r)
         self._max_r = max(min_r, max_r)
         self._start = AngleDeg(start)
         self._end = AngleDeg(end)
@@ -97,7 +97,7 @@ class Sector2D(Region2D):
         Returns:
             float: the big side radius
         """
-        return self._min_r
+        return self._max_r
 
     def angle_left_start(self) -> AngleDeg:
         """get the left start angle copy
-- 
2.43.0


From 6a94bb1b699b2ce40dfba7e57fbf450b34e449cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:23 +0000
Subject: [PATCH 02/30] fix: Triangle2D.is_valid compares the third pair of
 vertices

---
 src/pyrusgeom/triangle_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/triangle_2d.py b/src/pyrusgeom/triangle_2d.py
index a78f218..e581640 100644
--- a/src/pyrusgeom/triangle_2d.py
+++ b/src/pyrusgeom/triangle_2d.py
@@ -105,7 +105,7 @@ class Triangle2D(Region2D):
             bool: True if triangle is valid. else False.
         """
         return (self._a.is_valid() and self._b.is_valid() and self._c.is_valid() and
-                self._a != self._b and self._b != self._c and self._a != self._a)
+                self._a != self._b and self._b != self._c and self._c != self._a)
 
     def a(self) -> Vector2D:
         """get 1st point copy
-- 
2.43.0


From 1a989af26cc05984c53c215c3b9f20523380402e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:25 +0000
Subject: [PATCH 03/30] fix: Triangle2D.tri_centroid no longer chains add(),
 which returns None

---
 src/pyrusgeom/triangle_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/triangle_2d.py b/src/pyrusgeom/triangle_2d.py
index e581640..0635d23 100644
--- a/src/pyrusgeom/triangle_2d.py
+++ b/src/pyrusgeom/triangle_2d.py
@@ -384,7 +384,7 @@ class Triangle2D(Region2D):
         Returns:
             Vector2D: coordinates of gravity center
         """
-        return Vector2D(v_a).add(v_b).add(v_c) / 3.0
+        return (v_a + v_b + v_c) / 3.0
 
     @staticmethod
     def tri_incenter(v_a: Vector2D, v_b: Vector2D, v_c: Vector2D) -> Vector2D:
-- 
2.43.0


From 1bc806735ac30e999c798ee776723b0a559438e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:26 +0000
Subject: [PATCH 04/30] fix: Triangle2D.intersection survives lines through
 vertices, rays and segments

---
 src/pyrusgeom/triangle_2d.py | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/src/pyrusgeom/triangle_2d.py b/src/pyrusgeom/triangle_2d.py
index 0635d23..b070bbf 100644
--- a/src/pyrusgeom/triangle_2d.py
+++ b/src/pyrusgeom/triangle_2d.py
@@ -270,32 +270,26 @@ class Triangle2D(Region2D):
         param segment considered line segment.
         return number of intersection + sol 1 + sol 2
         """
+        from pyrusgeom.segment_2d import Segment2D
         if isinstance(other, Line2D):
             n_sol = 0
             t_sol = [Vector2D(), Vector2D()]
-            from pyrusgeom.segment_2d import Segment2D
-            t_sol[n_sol] = Segment2D(self._a, self._b).intersection(other)
-            if n_sol < 2 and t_sol[n_sol].is_valid():
-                n_sol += 1
-
-            t_sol[n_sol] = Segment2D(self._b, self._c).intersection(other)
-            if n_sol < 2 and t_sol[n_sol].is_valid():
-                n_sol += 1
-
-            t_sol[n_sol] = Segment2D(self._c, self._a).intersection(other)
-            if n_sol < 2 and t_sol[n_sol].is_valid():
-                n_sol += 1
-
-            if n_sol == 2 and math.fabs(t_sol[0].x() - t_sol[1].x()) < EPSILON and math.fabs(
-                    t_sol[0].y() - t_sol[1].y()) < EPSILON:
-                n_sol = 1
+            for edge in (Segment2D(self._a, self._b),
+                         Segment2D(self._b, self._c),
+                         Segment2D(self._c, self._a)):
+                sol = edge.intersection(other)
+                if n_sol < 2 and sol.is_valid():
+                    # a line through a vertex meets two edges in the same point
+                    if n_sol == 0 or not sol.equals_weakly(t_sol[0]):
+                        t_sol[n_sol] = sol
+                        n_sol += 1
             sol_list = [n_sol, t_sol[0], t_sol[1]]
 
             return sol_list
         if isinstance(other, Ray2D):
             n_sol = self.intersection(other.line())
 
-            if n_sol[0] > 1 and not other.in_right_dir(n_sol[1], 1.0):
+            if n_sol[0] > 1 and not other.in_right_dir(n_sol[2], 1.0):
                 n_sol[0] -= 1
 
             if n_sol[0] > 0 and not other.in_right_dir(n_sol[1], 1.0):
@@ -310,7 +304,7 @@ class Triangle2D(Region2D):
             if n_sol[0] > 1 and not other.contains(n_sol[2]):
                 n_sol[0] -= 1
 
-            if n_sol > 0 and not other.contains(n_sol[1]):
+            if n_sol[0] > 0 and not other.contains(n_sol[1]):
                 n_sol[1] = n_sol[2]
                 n_sol[0] -= 1
 
-- 
2.43.0


From 1a491743c3633ba146d12c1b65ea010e5a295bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:28 +0000
Subject: [PATCH 05/30] fix: Rect2D built or assigned from two corners keeps
 its position and size

---
 src/pyrusgeom/rect_2d.py | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/src/pyrusgeom/rect_2d.py b/src/pyrusgeom/rect_2d.py
index b631ea4..63404d8 100644
--- a/src/pyrusgeom/rect_2d.py
+++ b/src/pyrusgeom/rect_2d.py
@@ -90,12 +90,6 @@ class Rect2D(Region2D):
 
             if bottom_right.y() - top_left.y() < 0.0:
                 self._top_left.set_y(bottom_right.y())
-                self._size = Size2D()
-                self._is_valid = True
-            else:
-                self._top_left = Vector2D()
-                self._size = Size2D()
-                self._is_valid = True
         elif len(args) == 2:
             self._top_left = Vector2D(args[0])
             self._size = args[1]
@@ -158,10 +152,6 @@ class Rect2D(Region2D):
 
             if bottom_right.y() - top_left.y() < 0.0:
                 self._top_left.set_y(bottom_right.y())
-                self._size = Size2D()
-            else:
-                self._top_left = Vector2D()
-                self._size = Size2D()
         elif len(args) == 2:
             self._top_left = Vector2D(args[0])
             self._size = args[1]
-- 
2.43.0


From 939e919d9a74fd1bfa762002af94ba0c1046bab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:29 +0000
Subject: [PATCH 06/30] fix: Rect2D.assign with four numbers uses the given
 length

---
 src/pyrusgeom/rect_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/rect_2d.py b/src/pyrusgeom/rect_2d.py
index 63404d8..41be470 100644
--- a/src/pyrusgeom/rect_2d.py
+++ b/src/pyrusgeom/rect_2d.py
@@ -137,7 +137,7 @@ class Rect2D(Region2D):
 
         if len(args) == 4:
             self._top_left.assign(args[0], args[1])
-            self._size.assign(args[0], args[3])
+            self._size.assign(args[2], args[3])
         elif len(args) == 3:
             self._top_left = Vector2D(args[0])
             self._size.assign(args[1], args[2])
-- 
2.43.0


From c68826e385230bee64ff2074ebde9525112196c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:30 +0000
Subject: [PATCH 07/30] fix: Rect2D.contains_almost reads the point coordinates

---
 src/pyrusgeom/rect_2d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyrusgeom/rect_2d.py b/src/pyrusgeom/rect_2d.py
index 41be470..59d2803 100644
--- a/src/pyrusgeom/rect_2d.py
+++ b/src/pyrusgeom/rect_2d.py
@@ -525,8 +525,8 @@ class Rect2D(Region2D):
         Returns:
             bool: True if it almost contains it. else False.
         """
-        return self.left() - error_thr <= point.x <= self.right() + error_thr and \
-            self.top() - error_thr <= point.y <= self.bottom() + error_thr
+        return self.left() - error_thr <= point.x() <= self.right() + error_thr and \
+            self.top() - error_thr <= point.y() <= self.bottom() + error_thr
 
     def left(self) -> float:
         """get the left x coordinate of this rectangle.
-- 
2.43.0


From 2a30f07b4350305945440f74911266e3826eb039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:32 +0000
Subject: [PATCH 08/30] fix: Rect2D.intersected and united return a new
 rectangle of the right extent

---
 src/pyrusgeom/rect_2d.py | 41 ++++++++++++++--------------------------
 1 file changed, 14 insertions(+), 27 deletions(-)

diff --git a/src/pyrusgeom/rect_2d.py b/src/pyrusgeom/rect_2d.py
index 59d2803..8851d82 100644
--- a/src/pyrusgeom/rect_2d.py
+++ b/src/pyrusgeom/rect_2d.py
@@ -763,23 +763,18 @@ class Rect2D(Region2D):
         Returns:
             [Rect2D]: rectangle instance
         """
-        if not self.is_valid or not other.is_valid():
-            self._top_left.assign(0.0, 0.0)
-            self._size.assign(0.0, 0.0)
+        if not self.is_valid() or not other.is_valid():
+            return Rect2D(0.0, 0.0, 0.0, 0.0)
 
         left = max(self.left(), other.left())
         top = max(self.top(), other.top())
-        width = min(self.right(), other.right()) - left
-        length = min(self.bottom(), other.bottom()) - top
+        length = min(self.right(), other.right()) - left
+        width = min(self.bottom(), other.bottom()) - top
 
-        if width <= 0.0 or length <= 0.0:
-            self._top_left.assign(0.0, 0.0)
-            self._size.assign(0.0, 0.0)
+        if length <= 0.0 or width <= 0.0:
+            return Rect2D(0.0, 0.0, 0.0, 0.0)
 
-        self._top_left.assign(left, top)
-        self._size.assign(width, length)
-
-        return self
+        return Rect2D(left, top, length, width)
 
     def united(self, other:Rect2D) -> Rect2D:
         """get the united rectangle of self rectangle and the other rectangle.
@@ -790,23 +785,15 @@ class Rect2D(Region2D):
         Returns:
             Rect2D: rectangle instance.
         """
-        if not self.is_valid or not other.is_valid():
-            self._top_left.assign(0.0, 0.0)
-        self._size.assign(0.0, 0.0)
+        if not self.is_valid() or not other.is_valid():
+            return Rect2D(0.0, 0.0, 0.0, 0.0)
 
-        left = max(self.left(), other.left())
-        top = max(self.top(), other.top())
-        width = min(self.right(), other.right()) - left
-        length = min(self.bottom(), other.bottom()) - top
+        left = min(self.left(), other.left())
+        top = min(self.top(), other.top())
+        length = max(self.right(), other.right()) - left
+        width = max(self.bottom(), other.bottom()) - top
 
-        if width <= 0.0 or length <= 0.0:
-            self._top_left.assign(0.0, 0.0)
-            self._size.assign(0.0, 0.0)
-
-        self._top_left.assign(left, top)
-        self._size.assign(width, length)
-
-        return self
+        return Rect2D(left, top, length, width)
 
     @staticmethod
     def from_center(*args)->Rect2D:
-- 
2.43.0


From be0de58c2ea640dafacf1c85b6f171fc6d6e4686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:34 +0000
Subject: [PATCH 09/30] fix: Rect2D.from_center accepts a centre vector as
 documented

---
 src/pyrusgeom/rect_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/rect_2d.py b/src/pyrusgeom/rect_2d.py
index 8851d82..2582e3d 100644
--- a/src/pyrusgeom/rect_2d.py
+++ b/src/pyrusgeom/rect_2d.py
@@ -821,7 +821,7 @@ class Rect2D(Region2D):
         if len(args) == 4:
             return Rect2D(args[0] - args[2] * 0.5, args[1] - args[3] * 0.5, args[2], args[3])
         if len(args) == 3:
-            return Rect2D(args[0] - args[1] * 0.5, args[0] - args[2] * 0.5, args[1], args[2])
+            return Rect2D(args[0].x() - args[1] * 0.5, args[0].y() - args[2] * 0.5, args[1], args[2])
         raise Exception("Input must be 4 float or one vector and two float")
 
     def __repr__(self) -> str:
-- 
2.43.0


From 0c24d8231910eb63315118d1e4b18dd343bb9038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:35 +0000
Subject: [PATCH 10/30] fix: Rect2D copies the size it is given

---
 src/pyrusgeom/rect_2d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyrusgeom/rect_2d.py b/src/pyrusgeom/rect_2d.py
index 2582e3d..f3a2684 100644
--- a/src/pyrusgeom/rect_2d.py
+++ b/src/pyrusgeom/rect_2d.py
@@ -92,7 +92,7 @@ class Rect2D(Region2D):
                 self._top_left.set_y(bottom_right.y())
         elif len(args) == 2:
             self._top_left = Vector2D(args[0])
-            self._size = args[1]
+            self._size = Size2D(args[1].length(), args[1].width())
             self._is_valid = True
         elif len(args) == 1 and isinstance(args[0], Rect2D):
             self._top_left = args[0].top_left()
@@ -154,7 +154,7 @@ class Rect2D(Region2D):
                 self._top_left.set_y(bottom_right.y())
         elif len(args) == 2:
             self._top_left = Vector2D(args[0])
-            self._size = args[1]
+            self._size = Size2D(args[1].length(), args[1].width())
         elif len(args) == 1 and isinstance(args[0], Rect2D):
             self._top_left = args[0].top_left()
             self._size = args[0].size()
-- 
2.43.0


From 88a13b129527cd3a8a36534d38c4a9271862e46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:37 +0000
Subject: [PATCH 11/30] fix: Rect2D.intersection keeps the second point of a
 line through a corner

---
 src/pyrusgeom/rect_2d.py | 39 ++++++++++++++-------------------------
 1 file changed, 14 insertions(+), 25 deletions(-)

diff --git a/src/pyrusgeom/rect_2d.py b/src/pyrusgeom/rect_2d.py
index f3a2684..224a948 100644
--- a/src/pyrusgeom/rect_2d.py
+++ b/src/pyrusgeom/rect_2d.py
@@ -703,35 +703,24 @@ class Rect2D(Region2D):
             list[Vector2D]: intersection Points
         """
         if isinstance(other, Line2D):
-            n_sol = 0
-            t_sol = [Vector2D(0, 0), Vector2D(0, 0)]
             left_x = self.left()
             right_x = self.right()
             top_y = self.top()
             bottom_y = self.bottom()
-            t_sol[n_sol] = self.left_edge().intersection(other) # n_sol 0
-            if t_sol[n_sol].is_valid() and top_y <= t_sol[n_sol].y() <= bottom_y:
-                n_sol += 1
-            t_sol[n_sol] = self.right_edge().intersection(other) # n_sol 0 1
-            if n_sol < 2 and t_sol[n_sol].is_valid() and top_y <= t_sol[n_sol].y() <= bottom_y:
-                n_sol += 1
-            if n_sol < 2:
-                t_sol[n_sol] = self.top_edge().intersection(other) # n_sol 0-1 2
-                if (t_sol[n_sol]).is_valid() and left_x <= t_sol[n_sol].x() <= right_x:
-                    n_sol += 1
-            if n_sol < 2:
-                t_sol[n_sol] = self.bottom_edge().intersection(other) # n_sol 0-2 3
-                if (t_sol[n_sol]).is_valid() and left_x <= t_sol[n_sol].x() <= right_x:
-                    n_sol += 1
-            if n_sol == 2 and math.fabs(t_sol[0].x() - t_sol[1].x()) < EPSILON and math.fabs(
-                    t_sol[0].y() - t_sol[1].y()) < EPSILON:
-                n_sol = 1
-            if n_sol == 0:
-                sol_list = []
-            elif n_sol == 1:
-                sol_list = [t_sol[0]]
-            else:
-                sol_list = [t_sol[0], t_sol[1]]
+            t_sol = []
+            for edge in (self.left_edge(), self.right_edge()):
+                sol = edge.intersection(other)
+                if sol.is_valid() and top_y <= sol.y() <= bottom_y:
+                    t_sol.append(sol)
+            for edge in (self.top_edge(), self.bottom_edge()):
+                sol = edge.intersection(other)
+                if sol.is_valid() and left_x <= sol.x() <= right_x:
+                    t_sol.append(sol)
+            # a line through a corner meets two edges in the same point
+            sol_list = []
+            for sol in t_sol:
+                if len(sol_list) < 2 and not any(sol.equals_weakly(p) for p in sol_list):
+                    sol_list.append(sol)
             return sol_list
         if isinstance(other, Ray2D):
             n_sol = self.intersection(other.line())
-- 
2.43.0


From b3e251742106ac3653ba313d70eec9197eb9372b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:38 +0000
Subject: [PATCH 12/30] fix: Polygon2D.get_bounding_box of an empty polygon is
 an empty rectangle

---
 src/pyrusgeom/polygon_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/polygon_2d.py b/src/pyrusgeom/polygon_2d.py
index 66d4b9b..7c9c427 100644
--- a/src/pyrusgeom/polygon_2d.py
+++ b/src/pyrusgeom/polygon_2d.py
@@ -201,7 +201,7 @@ class Polygon2D(Region2D):
             bounding box of this polygon
         """
         if len(self._vertices) == 0:
-            return Rect2D()
+            return Rect2D(0.0, 0.0, 0.0, 0.0)
         x_min = float("inf")
         x_max = - float("inf")
         y_min = float("inf")
-- 
2.43.0


From 511e2e065586683c6cfd511720ba3ef860e3e247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:39 +0000
Subject: [PATCH 13/30] fix: Polygon2D.contains honours allow_on_segment on
 every edge

---
 src/pyrusgeom/polygon_2d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyrusgeom/polygon_2d.py b/src/pyrusgeom/polygon_2d.py
index 7c9c427..f4d5d20 100644
--- a/src/pyrusgeom/polygon_2d.py
+++ b/src/pyrusgeom/polygon_2d.py
@@ -258,8 +258,8 @@ class Polygon2D(Region2D):
             p_0 = self._vertices[i]
             p_1 = self._vertices[p1_index]
 
-            if not allow_on_segment and Segment2D(p_0, p_1).on_segment(point):
-                return False
+            if Segment2D(p_0, p_1).on_segment(point):
+                return allow_on_segment
 
             if allow_on_segment and point == p_0:
                 return True
-- 
2.43.0


From 76c006e30298a050ab2866a7228a38ca55e612bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:40 +0000
Subject: [PATCH 14/30] fix: Segment2D.on_segment of a single-point segment
 compares the point

---
 src/pyrusgeom/segment_2d.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyrusgeom/segment_2d.py b/src/pyrusgeom/segment_2d.py
index d37bf8a..effac8f 100644
--- a/src/pyrusgeom/segment_2d.py
+++ b/src/pyrusgeom/segment_2d.py
@@ -519,6 +519,8 @@ class Segment2D:
         Returns:
             float: True if point is on this segment. else False.
         """
+        if self._origin == self._terminal:
+            return self._origin == point
         return Triangle2D.double_signed_area_st(self._origin, self._terminal, point) == 0.0 \
             and self.check_intersects_on_line(point)
 
-- 
2.43.0


From 16e4d3079131292ae89dcc29ef4a078956b1b723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:42 +0000
Subject: [PATCH 15/30] fix: Segment2D.nearest_point and projection return new
 points

---
 src/pyrusgeom/segment_2d.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyrusgeom/segment_2d.py b/src/pyrusgeom/segment_2d.py
index effac8f..3219f61 100644
--- a/src/pyrusgeom/segment_2d.py
+++ b/src/pyrusgeom/segment_2d.py
@@ -284,7 +284,7 @@ class Segment2D:
         length = direction.r()
 
         if length < EPSILON:
-            return self._origin
+            return Vector2D(self._origin)
 
         direction /= length  # normalize
 
@@ -450,15 +450,15 @@ class Segment2D:
         len_square = vec_tmp.r2()
 
         if len_square == 0.0:
-            return self._origin
+            return Vector2D(self._origin)
 
         inner_product = vec_tmp.inner_product((point - self._origin))
 
         if inner_product <= 0.0:
-            return self._origin
+            return Vector2D(self._origin)
 
         if inner_product >= len_square:
-            return self._terminal
+            return Vector2D(self._terminal)
 
         return self._origin + vec_tmp * inner_product / len_square
 
-- 
2.43.0


From c532dce15da934c914773530e9317839a67142bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:43 +0000
Subject: [PATCH 16/30] fix: Matrix2D multiplication leaves its left operand
 unchanged

---
 src/pyrusgeom/matrix_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/matrix_2d.py b/src/pyrusgeom/matrix_2d.py
index 478ff06..3ba35b3 100644
--- a/src/pyrusgeom/matrix_2d.py
+++ b/src/pyrusgeom/matrix_2d.py
@@ -343,7 +343,7 @@ class Matrix2D:
         if isinstance(other, Vector2D):
             return self.transform(other)
         if isinstance(other, Matrix2D):
-            mat_tmp = self
+            mat_tmp = Matrix2D(self._m11, self._m12, self._m21, self._m22, self._dx, self._dy)
             return mat_tmp.__imul__(other)
         return self
 
-- 
2.43.0


From c8f445d30fbde6208f7b4f08726d9c3642ae16d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:45 +0000
Subject: [PATCH 17/30] fix: Matrix2D equality compares the x translation

---
 src/pyrusgeom/matrix_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/matrix_2d.py b/src/pyrusgeom/matrix_2d.py
index 3ba35b3..dd569f3 100644
--- a/src/pyrusgeom/matrix_2d.py
+++ b/src/pyrusgeom/matrix_2d.py
@@ -362,7 +362,7 @@ class Matrix2D:
 
         return self._m11 == other.m11() and self._m12 == other.m12() and\
             self._m21 == other.m21() and self._m22 == other.m22() and\
-            self._dx == other.dytf() and self._dy == other.dytf()
+            self._dx == other.dxtf() and self._dy == other.dytf()
 
 
     def __repr__(self):
-- 
2.43.0


From adfd0ce3e6de6ea6e44a9172ea1249ec4cbb50c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:46 +0000
Subject: [PATCH 18/30] fix: Vector2D copies keep validity

---
 src/pyrusgeom/vector_2d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyrusgeom/vector_2d.py b/src/pyrusgeom/vector_2d.py
index 45ccb98..b420eec 100644
--- a/src/pyrusgeom/vector_2d.py
+++ b/src/pyrusgeom/vector_2d.py
@@ -55,6 +55,7 @@ class Vector2D:
             elif len(args) == 1 and isinstance(args[0], Vector2D):
                 self._x = args[0].x()
                 self._y = args[0].y()
+                self._is_valid = args[0].is_valid()
             elif len(args) == 0:
                 self._x = 0
                 self._y = 0
@@ -110,7 +111,7 @@ class Vector2D:
         Returns:
            Vector2D: Copy of this Vector 2D
         """
-        return Vector2D(self._x, self._y)
+        return Vector2D(self)
 
     def get_copy(self) -> Vector2D:
         """returns copy of this Vector2D
-- 
2.43.0


From e7e41fd65e86abbd83b926fb3efb8b0f97c2173e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:47 +0000
Subject: [PATCH 19/30] fix: wind_effect uses the wind vector it computes

---
 src/pyrusgeom/soccer_math.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pyrusgeom/soccer_math.py b/src/pyrusgeom/soccer_math.py
index 7acf000..3338dae 100644
--- a/src/pyrusgeom/soccer_math.py
+++ b/src/pyrusgeom/soccer_math.py
@@ -384,8 +384,7 @@ def wind_effect(speed: float, weight: float,
     Returns:
         Vector2D: wind effect acceleration
     """
-    wind_vec = Vector2D()
-    wind_vec.polar2vector(wind_force, wind_dir)
+    wind_vec = Vector2D.polar2vector(wind_force, wind_dir)
 
     if wind_error:
         wind_error.assign(speed * wind_vec.x() * wind_rand
-- 
2.43.0


From e00844898744a9357624f3cc2d67cabd43e839e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:49 +0000
Subject: [PATCH 20/30] fix: AngleDeg and Vector2D support /= in place

---
 src/pyrusgeom/angle_deg.py | 2 +-
 src/pyrusgeom/vector_2d.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyrusgeom/angle_deg.py b/src/pyrusgeom/angle_deg.py
index cc1f687..0338e58 100644
--- a/src/pyrusgeom/angle_deg.py
+++ b/src/pyrusgeom/angle_deg.py
@@ -264,7 +264,7 @@ class AngleDeg:
         self.normal()
         return self
 
-    def __idiv__(self, other: Union[float, int]) -> AngleDeg:
+    def __itruediv__(self, other: Union[float, int]) -> AngleDeg:
         """operator /=
 
         Args:
diff --git a/src/pyrusgeom/vector_2d.py b/src/pyrusgeom/vector_2d.py
index b420eec..b24c643 100644
--- a/src/pyrusgeom/vector_2d.py
+++ b/src/pyrusgeom/vector_2d.py
@@ -576,7 +576,7 @@ class Vector2D:
         self._y *= other
         return self
 
-    def __idiv__(self, other: Union[int, float]) -> Vector2D:
+    def __itruediv__(self, other: Union[int, float]) -> Vector2D:
         self._x /= other
         self._y /= other
         return self
-- 
2.43.0


From caa4e9e60233cb0e1e8812d3932e6a25f763358a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:11 +0000
Subject: [PATCH 21/30] fix: Line2D equality is equality of the represented
 lines

---
 src/pyrusgeom/line_2d.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyrusgeom/line_2d.py b/src/pyrusgeom/line_2d.py
index c11557f..53d9463 100644
--- a/src/pyrusgeom/line_2d.py
+++ b/src/pyrusgeom/line_2d.py
@@ -291,8 +291,9 @@ class Line2D:
         Returns:
             bool: true if equal or difference is less than EPSILON. else false
         """
-        return (math.fabs(self._a * other.b() - other.a() * self._b)
-                < EPSILON and self._c == other.c())
+        return (math.fabs(self._a * other.b() - other.a() * self._b) < EPSILON
+                and math.fabs(self._a * other.c() - other.a() * self._c) < EPSILON
+                and math.fabs(self._b * other.c() - other.b() * self._c) < EPSILON)
 
     def __repr__(self) -> str:
         """represent Line2D as a string
-- 
2.43.0


From a247c6f2d9bf24072c08660ced18131568b13bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:12 +0000
Subject: [PATCH 22/30] fix: ConvexHull copies the caller list

---
 src/pyrusgeom/convex_hull.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/convex_hull.py b/src/pyrusgeom/convex_hull.py
index 9c5fd3d..5ff28c6 100644
--- a/src/pyrusgeom/convex_hull.py
+++ b/src/pyrusgeom/convex_hull.py
@@ -137,7 +137,7 @@ class ConvexHull:
             point_list: array of input points
 
         """
-        self._input_points = point_list
+        self._input_points = list(point_list)
         self._vertices = []
         self._edges = []
 
-- 
2.43.0


From 6f1e18f413d47d64090de29d6a262aa326018d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:14 +0000
Subject: [PATCH 23/30] fix: wrapping convex hull steps to the farthest
 collinear point

---
 src/pyrusgeom/convex_hull.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/convex_hull.py b/src/pyrusgeom/convex_hull.py
index 5ff28c6..f164674 100644
--- a/src/pyrusgeom/convex_hull.py
+++ b/src/pyrusgeom/convex_hull.py
@@ -344,7 +344,7 @@ class ConvexHull:
                     candidate = i
 
                 elif (area < EPSILON and
-                        current_point.dist2(point_first) > current_point.dist2(point_second)):
+                        current_point.dist2(point_first) < current_point.dist2(point_second)):
                     candidate = i
             current_index = candidate
             current_point = self._input_points[current_index]
-- 
2.43.0


From 184f5c281c339698b0814891e9ac0cd4fc487b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:16 +0000
Subject: [PATCH 24/30] fix: wrapping convex hull reports its first edge

---
 src/pyrusgeom/convex_hull.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/pyrusgeom/convex_hull.py b/src/pyrusgeom/convex_hull.py
index f164674..2ab72bb 100644
--- a/src/pyrusgeom/convex_hull.py
+++ b/src/pyrusgeom/convex_hull.py
@@ -353,10 +353,9 @@ class ConvexHull:
 
             if current_index == min_index:
                 break
-        for i in range(len(self._vertices)):
-            if self._vertices[i] != self._vertices[-1]:
-                self._edges.append(
-                    Segment2D(self._vertices[i], self._vertices[i + 1]))
+        for i in range(len(self._vertices) - 1):
+            self._edges.append(
+                Segment2D(self._vertices[i], self._vertices[i + 1]))
 
         self._vertices.pop()
 
-- 
2.43.0


From 050733231982f827b4a2d8caaccca374a8e15987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:17 +0000
Subject: [PATCH 25/30] fix: Graham scan sorts around the minimum point and
 keeps the input points

---
 src/pyrusgeom/convex_hull.py | 51 +++++++++++++++---------------------
 1 file changed, 21 insertions(+), 30 deletions(-)

diff --git a/src/pyrusgeom/convex_hull.py b/src/pyrusgeom/convex_hull.py
index 2ab72bb..072ba9a 100644
--- a/src/pyrusgeom/convex_hull.py
+++ b/src/pyrusgeom/convex_hull.py
@@ -370,30 +370,16 @@ class ConvexHull:
         if point_size < 3 or min_index == -1:
             return
 
-        self.sort_points_angle_from(min_index)
-
-        self._vertices = self._input_points
-
-        top = 1
-        for i in range(2, point_size):
-            while not is_clockwise(self._vertices[top - 1],
-                self._vertices[top], self._input_points[i]):
-                top -= 1
-
-            top += 1
-            tmp = self._vertices[top]
-            self._vertices[top] = self._vertices[i]
-            self._vertices[i] = tmp
-
-        top += 1
-
-        del self._vertices[top:len(self._vertices)]
+        for point in self.sort_points_angle_from(min_index):
+            while len(self._vertices) > 1 and Triangle2D.double_signed_area_st(
+                    self._vertices[-2], self._vertices[-1], point) <= 0.0:
+                self._vertices.pop()
+            self._vertices.append(point)
 
         for i in range(len(self._vertices)):
-            if self._vertices[i] != self._vertices[-1]:
-                self._edges.append(
-                    Segment2D(self._vertices[i], self._vertices[i + 1]))
-        self._edges.append(Segment2D(self._vertices[0], self._vertices[-1]))
+            self._edges.append(
+                Segment2D(self._vertices[i - 1], self._vertices[i]))
+        self._edges.append(self._edges.pop(0))
 
     def get_min_point_index(self) -> int:
         """get the index of minimum coordinate point
@@ -419,18 +405,23 @@ class ConvexHull:
 
         return min_index
 
-    def sort_points_angle_from(self, index):
-        """sort points by anlge from base(0,0)
+    def sort_points_angle_from(self, index) -> list:
+        """get the distinct input points in counter clockwise order around
+            the input point at index, that point first and nearer ones before
+            farther ones in the same direction
         """
         if len(self._input_points) <= index:
-            return
+            return []
+
+        base: Vector2D = self._input_points[index]
 
-        tmp = self._input_points[0]
-        self._input_points[0] = self._input_points[index]
-        self._input_points[index] = tmp
+        def compare(lhs: Vector2D, rhs: Vector2D) -> float:
+            area = Triangle2D.double_signed_area_st(base, lhs, rhs)
+            return -area if area != 0.0 else base.dist2(lhs) - base.dist2(rhs)
 
-        # base is (0,0)
-        self._input_points.sort(key=functools.cmp_to_key(angle_sort_predicate))
+        points = [point for point in list2set(self._input_points) if point != base]
+        points.sort(key=functools.cmp_to_key(compare))
+        return [base] + points
 
     def to_polygon(self) -> Polygon2D:
         """create and get the convex hull polygon
-- 
2.43.0


From d6de850ef646985ba673ade95d2f318a16616ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:01 +0000
Subject: [PATCH 26/30] fix: rectangle clipping no longer drops the rest of the
 polygon at an edge along the cut

---
 src/pyrusgeom/polygon_2d.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyrusgeom/polygon_2d.py b/src/pyrusgeom/polygon_2d.py
index f4d5d20..029c02b 100644
--- a/src/pyrusgeom/polygon_2d.py
+++ b/src/pyrusgeom/polygon_2d.py
@@ -448,14 +448,16 @@ class Polygon2D(Region2D):
                     cuted = line.intersection(Line2D(p_0, p_1))
 
                     if not cuted.is_valid():
-                        return new_points
+                        # the edge runs along the line: both ends are on it
+                        cuted = Vector2D(p_0)
                     new_points.append(cuted)
             else:
                 if in_rectangle[index_1]:
                     cuted = line.intersection(Line2D(p_0, p_1))
 
                     if not cuted.is_valid():
-                        return new_points
+                        # the edge runs along the line: both ends are on it
+                        cuted = Vector2D(p_1)
 
                     new_points.append(cuted)
                     new_points.append(p_1)
-- 
2.43.0


From 7116e135860a601b4adc617ba0bd387b9518d06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:06 +0000
Subject: [PATCH 27/30] fix: Segment2D does not report far apart, almost
 collinear segments as crossing

The signs of the four areas are rounding errors for almost collinear segments,
so segments hundreds of metres apart could 'cross' and have distance 0.
---
 src/pyrusgeom/segment_2d.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/pyrusgeom/segment_2d.py b/src/pyrusgeom/segment_2d.py
index 3219f61..5d47350 100644
--- a/src/pyrusgeom/segment_2d.py
+++ b/src/pyrusgeom/segment_2d.py
@@ -354,7 +354,7 @@ class Segment2D:
                 other.origin(), other.terminal(), self._terminal)
 
             if tri_a0 * tri_a1 < 0.0 and tri_b0 * tri_b1 < 0.0:
-                return True
+                return self._bounding_boxes_meet(other)
 
             if self._origin == self._terminal:
                 if other.origin() == other.terminal():
@@ -392,6 +392,16 @@ class Segment2D:
         return (self._origin.x() <= point.x() <= self._terminal.x()) or (
             self._terminal.x() <= point.x() <= self._origin.x())
 
+    def _bounding_boxes_meet(self, other: Segment2D) -> bool:
+        """check if the bounding boxes of the segments have a common point.
+
+        The signs of the areas spanned by almost collinear segments are decided
+        by rounding errors, even if the segments are far from each other.
+        """
+        a, b, c, d = self._origin, self._terminal, other.origin(), other.terminal()
+        return (min(a.x(), b.x()) <= max(c.x(), d.x()) and min(c.x(), d.x()) <= max(a.x(), b.x())
+                and min(a.y(), b.y()) <= max(c.y(), d.y()) and min(c.y(), d.y()) <= max(a.y(), b.y()))
+
     def exist_intersection_except_endpoint(self, other: Segment2D) -> bool:
         """check if segments intersect each other on non terminal point.
 
@@ -403,7 +413,7 @@ class Segment2D:
                 terminal point of segment.
                 False if segments do not intersect or intersect on terminal point of segment.
         """
-        return (Triangle2D.double_signed_area_st(
+        return self._bounding_boxes_meet(other) and (Triangle2D.double_signed_area_st(
             self._origin,
             self._terminal,
             other.origin())
-- 
2.43.0


From 9607af827b4498136b92e568d640da69e6f049f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:03 +0000
Subject: [PATCH 28/30] fix: to_str of circle, segment and triangle returns the
 text it builds

---
 src/pyrusgeom/circle_2d.py   | 6 +++++-
 src/pyrusgeom/segment_2d.py  | 6 +++++-
 src/pyrusgeom/triangle_2d.py | 4 ++++
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/pyrusgeom/circle_2d.py b/src/pyrusgeom/circle_2d.py
index 43fd684..21e38ec 100644
--- a/src/pyrusgeom/circle_2d.py
+++ b/src/pyrusgeom/circle_2d.py
@@ -298,14 +298,18 @@ class Circle2D:
         """
         return f"({self._center} , {self._radius})"
 
-    def to_str(self, ostr: str) -> None:
+    def to_str(self, ostr: str) -> str:
         """add circle to the ostr
 
         Args:
             ostr (str): str to add to it
+
+        Returns:
+            str: ostr followed by the circle
         """
         ostr += f'(circle {round(self.center().x(), 3)} \
             {round(self.center().y(), 3)} {round(self.radius(), 3)})'
+        return ostr
 
 
 def quadratic_f(qf_a: float, qf_b: float, qf_c: float) -> list[float]:
diff --git a/src/pyrusgeom/segment_2d.py b/src/pyrusgeom/segment_2d.py
index 5d47350..334273b 100644
--- a/src/pyrusgeom/segment_2d.py
+++ b/src/pyrusgeom/segment_2d.py
@@ -554,11 +554,15 @@ class Segment2D:
         """
         return f"[{self._origin},{self._terminal}]"
 
-    def to_str(self, ostr: str) -> None:
+    def to_str(self, ostr: str) -> str:
         """add segment to the ostr
 
         Args:
             ostr (str): str to add to it
+
+        Returns:
+            str: ostr followed by the segment
         """
         ostr += f' (line {round(self.origin().x(), 3)} {round(self.origin().y(), 3)} \
             {round(self.terminal().x(), 3)} {round(self.terminal().y(), 3)})'
+        return ostr
diff --git a/src/pyrusgeom/triangle_2d.py b/src/pyrusgeom/triangle_2d.py
index b070bbf..2dfb940 100644
--- a/src/pyrusgeom/triangle_2d.py
+++ b/src/pyrusgeom/triangle_2d.py
@@ -503,6 +503,10 @@ class Triangle2D(Region2D):
 
         Args:
             ostr (str): str to add to it
+
+        Returns:
+            str: ostr followed by the triangle
         """
         ostr += f'(tri {round(self.a().x(), 3)} {round(self.a().y(), 3)} {round(self.b().x(), 3)} \
         {round(self.b().y(), 3)} {round(self.c().x(), 3)} {round(self.c().y(), 3)})'
+        return ostr
-- 
2.43.0


From b4a2f85d2244aa5cfe4b4b2392bd78d8209e25c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:03 +0000
Subject: [PATCH 29/30] fix: Rect2D.to_str no longer writes a stray letter
 before the right side

---
 src/pyrusgeom/rect_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/rect_2d.py b/src/pyrusgeom/rect_2d.py
index 224a948..5a39e29 100644
--- a/src/pyrusgeom/rect_2d.py
+++ b/src/pyrusgeom/rect_2d.py
@@ -828,5 +828,5 @@ class Rect2D(Region2D):
             ostr (str): str to add to it
         """
         ostr += f'(rect {round(self.left(), 3)} {round(self.top(), 3)} \
-            f{round(self.right(), 3)} {round(self.bottom(), 3)})'
+            {round(self.right(), 3)} {round(self.bottom(), 3)})'
         return ostr
-- 
2.43.0


From 25be800eadae165a35958e87dceb245c987d2e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:48 +0000
Subject: [PATCH 30/30] fix: unquantize_error of a distance seen as zero

---
 src/pyrusgeom/soccer_math.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pyrusgeom/soccer_math.py b/src/pyrusgeom/soccer_math.py
index 3338dae..209a35f 100644
--- a/src/pyrusgeom/soccer_math.py
+++ b/src/pyrusgeom/soccer_math.py
@@ -406,8 +406,13 @@ def unquantize_error(see_dist: float, qstep: float) -> float:
     Returns:
         float: error value of inverse un quantized distance
     """
-    min_dist = (math.exp(unquantize_min(
-        math.log(unquantize_min(see_dist, 0.1)), qstep)) - SERVER_EPS)
+    min_dist = unquantize_min(see_dist, 0.1)
+    if min_dist > 0.0:
+        min_dist = (math.exp(unquantize_min(math.log(min_dist), qstep))
+                    - SERVER_EPS)
+    else:
+        # everything from the observer on is seen at this distance
+        min_dist = 0.0
     max_dist = (math.exp(unquantize_max(
         math.log(unquantize_max(see_dist, 0.1)), qstep)) - SERVER_EPS)
     return math.fabs(max_dist - min_dist)
-- 
2.43.0

