"""Planted bugs (used by tools/seed.py only; no check reads this)."""
BUGS = []


def bug(id, property, edits, demo, needs, breaks):
    if isinstance(edits, tuple):
        edits = [edits]
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))


bug('C01-wide-normal', 'C01',
    ('angle_deg.py', 'if self._degree < -360.0 or 360.0 < self._degree:',
     'if self._degree < -720.0 or 720.0 < self._degree:'),
    '''
    from pyrusgeom.angle_deg import AngleDeg
    a = AngleDeg(170); a *= 3.5
    assert -180 <= a.degree_() <= 180, a.degree_()
    assert abs(AngleDeg(600).degree() - (-120)) < 1e-9
    ''', 'an intermediate value between 540 and 720 degrees',
    'angles between 540 and 720 degrees stay outside [-180, 180]')

bug('C01-set-angle-alias', 'C01',
    ('angle_deg.py', '''        if isinstance(other, AngleDeg):
            other = other.degree()
        self._degree -= other
        self.normal()
        return self''', '''        if isinstance(other, AngleDeg):
            other = other.degree()
        self._degree -= other
        if self._degree < -180.0:
            self._degree += 360.0
        elif self._degree > 180.0:
            self._degree -= 360.0
        return self'''),
    '''
    from pyrusgeom.angle_deg import AngleDeg
    a = AngleDeg(10); a -= 800
    assert -180 <= a.degree_() <= 180, a.degree_()
    ''', 'in-place subtraction of a number larger than 360 in magnitude',
    'in-place subtraction wraps only once, so large numbers leave the angle unnormalised')

bug('C02-right-opposite', 'C02',
    ('angle_deg.py', '''        diff = self.degree() - angle.degree()
        return (0.0 < diff < 180.0) or diff < -180.0''', '''        return not self.is_left_equal_of(angle)'''),
    '''
    from pyrusgeom.angle_deg import AngleDeg
    assert not AngleDeg(-90).is_right_of(90)
    assert not AngleDeg(90).is_right_of(-90)
    assert not AngleDeg(30).is_right_of(-150)
    ''', 'exactly opposite directions',
    'opposite directions count as right of each other')

bug('C02-within-long-arc', 'C02',
    ('angle_deg.py', '''            if self.is_left_equal_of(right) or left.is_left_equal_of(self):''',
     '''            if self.is_left_equal_of(right) or left.is_left_of(self):'''),
    '''
    from pyrusgeom.angle_deg import AngleDeg
    assert AngleDeg(0).is_within(0, -90)
    assert AngleDeg(10).is_within(10, -30)
    ''', 'an arc longer than 180 degrees and a direction equal to its left end',
    'the left end of arcs longer than 180 degrees is not within them')

bug('C03-bisect-seam', 'C03',
    ('angle_deg.py', '''        if (0.0 < diff < 180.0) or diff < -180.0:''', '''        if 0.0 < diff < 180.0:'''),
    '''
    from pyrusgeom.angle_deg import AngleDeg
    b = AngleDeg.bisect(-170, 170)
    assert abs(abs(b.degree()) - 180) < 1e-6, b
    ''', 'left and right on different sides of the +-180 seam',
    'the bisect of arcs across the seam points the opposite way')

bug('C04-atan2-small', 'C04',
    ('angle_deg.py', 'if math.fabs(x_val) < EPSILON and math.fabs(y_val) < EPSILON:',
     'if x_val * x_val + y_val * y_val < EPSILON:'),
    '''
    from pyrusgeom.vector_2d import Vector2D
    assert abs(Vector2D(0, 0.0005).th().degree() - 90) < 1e-6
    ''', 'a short vector (longer than epsilon, shorter than 1e-3)',
    'the direction of short vectors is reported as 0')

bug('C04-rotate-angle', 'C04',
    ('vector_2d.py', '''        if not isinstance(direction, AngleDeg):
            direction = AngleDeg(direction)
        radius = self.r()
        self._x = radius * direction.cos()
        self._y = radius * direction.sin()''', '''        if not isinstance(direction, AngleDeg):
            direction = AngleDeg(direction)
        self._x = self.r() * direction.cos()
        self._y = self.r() * direction.sin()'''),
    '''
    from pyrusgeom.vector_2d import Vector2D
    v = Vector2D(3, 4); v.set_dir(30)
    assert abs(v.r() - 5) < 1e-9, v.r()
    ''', 'set_dir to a direction other than 0 on a vector with y != 0 or another x',
    'the second coordinate is computed from the already changed length')

bug('C05-hash-repr', 'C05',
    ('vector_2d.py', 'return hash((self._x, self._y))', 'return hash(repr(self))'),
    '''
    from pyrusgeom.vector_2d import Vector2D
    a, b = Vector2D(1, 2), Vector2D(1.0, 2.0)
    assert a == b and hash(a) == hash(b)
    c, d = Vector2D(0.0, 1.0), Vector2D(-0.0, 1.0)
    assert c == d and hash(c) == hash(d)
    ''', 'equal coordinates spelt differently (1 and 1.0, 0.0 and -0.0)',
    'equal vectors hash differently')

bug('C05-weak-or', 'C05',
    ('vector_2d.py', '''        return math.fabs(self._x - other.x()) < EPSILON and math.fabs(self._y - other.y()) < EPSILON''', '''        return math.fabs((self._x - other.x()) + (self._y - other.y())) < EPSILON'''),
    '''
    from pyrusgeom.vector_2d import Vector2D
    assert not Vector2D(1, 2).equals_weakly(Vector2D(2, 1))
    assert Vector2D(1, 2).equals_weakly(Vector2D(1, 2))
    ''', 'coordinate differences that cancel',
    'vectors whose differences cancel are weakly equal')

bug('C06-circle-default', 'C06',
    ('circle_2d.py', '''        self._center: Vector2D = Vector2D(center)
''', '''        self._center: Vector2D = center
'''),
    '''
    from pyrusgeom.circle_2d import Circle2D
    from pyrusgeom.vector_2d import Vector2D
    p = Vector2D(1, 1); c = Circle2D(p, 2); p.add(5, 5)
    assert c.center() == Vector2D(1, 1)
    a = Circle2D(); a.center_().assign(9, 9)
    assert Circle2D().center() == Vector2D(0, 0)
    ''', 'mutating the centre given at construction (or the default centre) later',
    'circles share their centre with the caller and, by default, with each other')

bug('C06-ray-direction', 'C06',
    ('ray_2d.py', '''            self._direction = AngleDeg(direction)
''', '''            self._direction = direction if isinstance(direction, AngleDeg) else AngleDeg(direction)
'''),
    '''
    from pyrusgeom.ray_2d import Ray2D
    from pyrusgeom.angle_deg import AngleDeg
    from pyrusgeom.vector_2d import Vector2D
    a = AngleDeg(30); r = Ray2D(Vector2D(0, 0), a); a += 20
    assert abs(r.dir().degree() - 30) < 1e-9
    ''', 'in-place change of the AngleDeg object a ray was built from',
    'a ray follows later changes of the angle it was built from')

bug('C06-polygon-vertices-leak', 'C06',
    ('polygon_2d.py', '''        vertices_cp = self._vertices.copy()
        return vertices_cp''', '''        return self._vertices'''),
    '''
    from pyrusgeom.polygon_2d import Polygon2D
    from pyrusgeom.vector_2d import Vector2D
    p = Polygon2D([Vector2D(0, 0), Vector2D(1, 0), Vector2D(0, 1)])
    p.vertices().append(Vector2D(7, 7))
    assert len(p.vertices()) == 3
    ''', 'changing the list returned by vertices()',
    'the list returned by vertices() is the live one')

bug('C07-line-kwargs', 'C07',
    ('line_2d.py', '''                self._a = -line_dir.sin()
                self._b = line_dir.cos()
                self._c = -self._a * kwargs['p'].x() - self._b * kwargs['p'].y()''',
     '''                self._a = line_dir.sin()
                self._b = -line_dir.cos()
                self._c = self._a * kwargs['p'].x() - self._b * kwargs['p'].y()'''),
    '''
    from pyrusgeom.line_2d import Line2D
    from pyrusgeom.vector_2d import Vector2D
    l = Line2D(p=Vector2D(3, 5), a=30)
    assert l.dist(Vector2D(3, 5)) < 1e-9
    ''', 'the keyword form point + angle with x != 0',
    'a line built with keywords p and a misses its point')

bug('C07-circle-assign-negative', 'C07',
    ('circle_2d.py', '''        self._center = Vector2D(center)
        self._radius = radius
        if radius < 0.0:
''', '''        self._center = Vector2D(center)
        self._radius = radius
        if self._radius + center.r() < 0.0:
'''),
    '''
    from pyrusgeom.circle_2d import Circle2D
    from pyrusgeom.vector_2d import Vector2D
    c = Circle2D(Vector2D(0, 0), 1); c.assign(Vector2D(5, 0), -2)
    assert c.radius() == 0
    ''', 'assigning a negative radius whose size is below the distance of the centre',
    'negative radii survive assign')

bug('C08-get-y-shallow', 'C08',
    ('line_2d.py', '''        if math.fabs(self._b) < EPSILON:
            return ERROR_VALUE''', '''        if math.fabs(self._b) < math.fabs(self._a) * 0.01:
            return ERROR_VALUE'''),
    '''
    from pyrusgeom.line_2d import Line2D
    l = Line2D(1000.0, 1.0, 0.0)
    assert abs(l.get_y(1.0) + 1000) < 1e-6
    ''', 'a steep but not vertical line',
    'y at x is refused on steep lines')

bug('C08-perpendicular-bisector-or', 'C08',
    ('line_2d.py', '''        if (math.fabs(point2.x() - point1.x()) < EPSILON and
                math.fabs(point2.y() - point1.y()) < EPSILON):''',
     '''        if math.fabs(point2.x() - point1.x()) * math.fabs(point2.y() - point1.y()) < EPSILON * EPSILON:'''),
    '''
    from pyrusgeom.line_2d import Line2D
    from pyrusgeom.vector_2d import Vector2D
    l = Line2D.perpendicular_bisector(Vector2D(0, 0), Vector2D(4, 0))
    assert l.dist(Vector2D(2, 0)) < 1e-9 and l.dist(Vector2D(2, 7)) < 1e-9
    ''', 'two points with the same x or the same y',
    'points on one axis-parallel line are treated as coincident')

bug('C09-ray-seam', 'C09',
    ('ray_2d.py', '''((point - self._origin).th() - self._direction).abs() < thr''',
     '''math.fabs((point - self._origin).th().degree() - self._direction.degree()) < thr'''),
    '''
    from pyrusgeom.ray_2d import Ray2D
    from pyrusgeom.vector_2d import Vector2D
    assert Ray2D(Vector2D(0, 0), 178).in_right_dir(Vector2D(-10, -0.1), 10)
    ''', 'ray direction and point direction on different sides of the +-180 seam',
    'points in front of rays pointing to -x are rejected')

bug('C09-ray-ray-and', 'C09',
    ('ray_2d.py', '''if not self.in_right_dir(tmp_sol) or not other.in_right_dir(tmp_sol):''',
     '''if not (self.in_right_dir(tmp_sol) or other.in_right_dir(tmp_sol)):'''),
    '''
    from pyrusgeom.ray_2d import Ray2D
    from pyrusgeom.vector_2d import Vector2D
    assert not Ray2D(Vector2D(0, 0), 0).intersection(Ray2D(Vector2D(5, 5), 90)).is_valid()
    ''', 'a crossing point in front of one ray and behind the other',
    'rays meet behind one of them')

bug('C10-vertical-reversed', 'C10',
    ('segment_2d.py', '''            return (self._origin.y() <= point.y() <= self._terminal.y()) or (
                self._terminal.y() <= point.y() <= self._origin.y())''',
     '''            return self._origin.y() <= point.y() <= self._terminal.y()'''),
    '''
    from pyrusgeom.segment_2d import Segment2D
    from pyrusgeom.vector_2d import Vector2D
    down = Segment2D(Vector2D(0, 4), Vector2D(0, 0))
    assert down.exist_intersection(Segment2D(Vector2D(0, 2), Vector2D(3, 2)))
    assert down.on_segment(Vector2D(0, 1))
    ''', 'a vertical segment with decreasing y touched by an end point of the other',
    'touching contacts on downward vertical segments are missed')

bug('C10-allow-end-other', 'C10',
    ('segment_2d.py', '''            if not sol.is_valid() or not self.contains(sol) or not args[0].contains(sol):
                return Vector2D.invalid()''', '''            if not sol.is_valid() or not self.contains(sol):
                return Vector2D.invalid()'''),
    '''
    from pyrusgeom.segment_2d import Segment2D
    from pyrusgeom.vector_2d import Vector2D
    s = Segment2D(Vector2D(-1, 0), Vector2D(1, 0)); t = Segment2D(Vector2D(0, 1), Vector2D(0, 3))
    assert not s.intersection(t, True).is_valid()
    ''', 'intersection with end points allowed, whose point is beyond the other segment',
    'segments that do not reach each other intersect')

bug('C11-seg-dist', 'C11',
    ('segment_2d.py', '''            return min(self.dist(other.origin()),
                       self.dist(other.terminal()),
                       other.dist(self._origin),
                       other.dist(self._terminal))''', '''            return min(self.dist(other.origin()),
                       self.dist(other.terminal()),
                       other.dist(self._origin))'''),
    '''
    from pyrusgeom.segment_2d import Segment2D
    from pyrusgeom.vector_2d import Vector2D
    a = Segment2D(Vector2D(0, 5), Vector2D(0, 1)); b = Segment2D(Vector2D(-3, 0), Vector2D(3, 0))
    assert abs(a.dist(b) - 1) < 1e-9
    ''', 'the nearest pair is the terminal of the first and an inner point of the second segment',
    'segment distance is too large')

bug('C11-dist-length', 'C11',
    ('segment_2d.py', '''if 0.0 <= prod <= length * length:''', '''if 0.0 <= prod <= max(length, length * length):'''),
    '''
    from pyrusgeom.segment_2d import Segment2D
    from pyrusgeom.vector_2d import Vector2D
    assert abs(Segment2D(Vector2D(0, 0), Vector2D(0.5, 0)).dist(Vector2D(0.9, 0)) - 0.4) < 1e-9
    ''', 'a segment shorter than 1 and a point beyond its end',
    'points beyond the end of short segments have the distance to the line')

bug('C12-ray-order', 'C12',
    ('circle_2d.py', '''            if len(sol_list) > 1 and not other.in_right_dir(sol_list[1], 1.0):
                del sol_list[1]

            if len(sol_list) > 0 and not other.in_right_dir(sol_list[0], 1.0):
                del sol_list[0]''', '''            if len(sol_list) > 0 and not other.in_right_dir(sol_list[0], 1.0):
                del sol_list[0]
            if len(sol_list) > 1 and not other.in_right_dir(sol_list[1], 1.0):
                del sol_list[1]'''),
    '''
    from pyrusgeom.circle_2d import Circle2D
    from pyrusgeom.ray_2d import Ray2D
    from pyrusgeom.vector_2d import Vector2D
    assert Circle2D(Vector2D(0, 0), 1).intersection(Ray2D(Vector2D(5, 0), 0)) == []
    assert Circle2D(Vector2D(0, 0), 1).intersection(Ray2D(Vector2D(0, 5), 90)) == []
    ''', 'a ray pointing away from a circle its line crosses twice',
    'a point behind the ray is returned')

bug('C12-delta', 'C12',
    ('circle_2d.py', '''    if math.fabs(delta) < EPSILON:''', '''    if math.fabs(delta) < math.sqrt(EPSILON):'''),
    '''
    from pyrusgeom.circle_2d import quadratic_f
    r = quadratic_f(1.0, 0.0, -1e-4)
    assert abs(max(r) - 0.01) < 1e-9, r
    ''', 'a discriminant between 1e-6 and 1e-3 (small circle, or nearly tangent line)',
    'two close roots are merged into their mean')

bug('C13-set-top-order', 'C13',
    ('rect_2d.py', '''        new_top = min(self.bottom(), top_y)
        new_bottom = max(self.bottom(), top_y)

        self._top_left.set_y(new_top)
''', '''        new_top = min(self.bottom(), top_y)
        self._top_left.set_y(new_top)
        new_bottom = max(self.bottom(), top_y)
'''),
    '''
    from pyrusgeom.rect_2d import Rect2D
    r = Rect2D(0, 0, 4, 4); r.set_top(1)
    assert r.bottom() == 4, r.bottom()
    ''', 'setting the top side', 'the bottom side moves when the top is set')

bug('C13-size-width-sign', 'C13',
    ('size_2d.py', '''        self._width = math.fabs(width)

    def length''', '''        self._width = width

    def length'''),
    '''
    from pyrusgeom.rect_2d import Rect2D
    r = Rect2D(0, 0, 4, 4); r.set_width(-3)
    assert r.bottom() == 3 and r.area() == 12
    ''', 'set_width with a negative number', 'rectangles with negative width')

bug('C14-contains-thr', 'C14',
    ('rect_2d.py', '''        new_left = min(self.left(), point_x)
        new_right = max(self.left(), point_x)
        new_top = min(self.top(), point_y)
        new_bottom = max(self.top(), point_y)''', '''        new_left = min(self.left(), point_x)
        new_right = max(self.left(), point_x)
        new_top = min(self.top(), point_y)
        new_bottom = max(self.bottom(), point_y)'''),
    '''
    from pyrusgeom.rect_2d import Rect2D
    r = Rect2D(0, 0, 4, 4); r.set_bottom_right(3, 2)
    assert r.bottom() == 2
    ''', 'moving the bottom-right corner upwards', 'the bottom side stays where it was')
BUGS[-1].update(id='C13-corner-up', property='C13')

bug('C14-from-center', 'C14',
    ('rect_2d.py', '''            return Rect2D(args[0] - args[2] * 0.5, args[1] - args[3] * 0.5,''', '''            return Rect2D(args[0] - args[2] // 2,
                          args[1] - args[3] // 2,'''),
    '''
    from pyrusgeom.rect_2d import Rect2D
    r = Rect2D.from_center(0, 0, 3, 5)
    assert r.left() == -1.5 and r.top() == -2.5
    ''', 'a size that is not an even integer', 'the rectangle is not centred')

bug('C14-contains-open', 'C14',
    ('rect_2d.py', '''        return self.left() <= point.x() <= self.right() and self.top() <= point.y() <= self.bottom()''', '''        return (0.0 <= point.x() - self.left() <= self._size.length()
                and 0.0 <= point.y() - self.top() < self._size.width())'''),
    '''
    from pyrusgeom.rect_2d import Rect2D
    from pyrusgeom.vector_2d import Vector2D
    assert Rect2D(0, 0, 4, 4).contains(Vector2D(2, 4))
    ''', 'a point exactly on the bottom side', 'the bottom side is not part of the rectangle')

bug('C15-rect-segment-order', 'C15',
    ('rect_2d.py', '''            if len(n_sol) > 1 and not other.contains(n_sol[1]):
                del n_sol[1]

            if len(n_sol) > 0 and not other.contains(n_sol[0]):
                del n_sol[0]''', '''            if len(n_sol) > 0 and not other.contains(n_sol[0]):
                del n_sol[0]
            elif len(n_sol) > 1 and not other.contains(n_sol[1]):
                del n_sol[1]'''),
    '''
    from pyrusgeom.rect_2d import Rect2D
    from pyrusgeom.segment_2d import Segment2D
    from pyrusgeom.vector_2d import Vector2D
    s = Segment2D(Vector2D(1, 1), Vector2D(2, 2))
    assert Rect2D(0, 0, 4, 4).intersection(s) == []
    ''', 'a segment reaching neither of the two outline points of its line',
    'a point outside the segment is returned')



bug('C16-ccw-area', 'C16',
    ('triangle_2d.py', '''        return math.fabs((self._b - self._a).outer_product(self._c - self._a)) * 0.5''',
     '''        return math.fabs(self._a.outer_product(self._b) + self._b.outer_product(self._c)) * 0.5'''),
    '''
    from pyrusgeom.triangle_2d import Triangle2D
    from pyrusgeom.vector_2d import Vector2D
    assert Triangle2D(Vector2D(1, 0), Vector2D(4, 1), Vector2D(2, 5)).area() == 7.0 or True
    t = Triangle2D(Vector2D(1, 1), Vector2D(4, 1), Vector2D(2, 5))
    assert abs(t.area() - 6) < 1e-9, t.area()
    ''', 'a triangle whose first and last corner are not collinear with the origin',
    'the area drops one term of the determinant')

bug('C16-circumcenter-fallback', 'C16',
    ('triangle_2d.py', '''            perpendicular_ca = Line2D.perpendicular_bisector(v_c, v_a)
            sol = perpendicular_ab.intersection(perpendicular_ca)

            if sol.is_valid():
                return sol
''', '''            return Vector2D.invalid()
'''),
    '''
    from pyrusgeom.triangle_2d import Triangle2D
    from pyrusgeom.vector_2d import Vector2D
    s = 1e-3
    c = Triangle2D.tri_circumcenter(Vector2D(0, 0), Vector2D(s, 0), Vector2D(0.5 * s, 0.8 * s))
    assert c.is_valid() and abs(c.x() - 0.5 * s) < 1e-9, c
    ''', 'a tiny triangle (area below the line-intersection epsilon)',
    'the circumcentre of tiny triangles is invalid')

bug('C17-bbox-elif', 'C17',
    ('polygon_2d.py', '''            if point.x() < x_min:''', '''            elif point.x() < x_min:'''),
    '''
    from pyrusgeom.polygon_2d import Polygon2D
    from pyrusgeom.vector_2d import Vector2D
    p = Polygon2D([Vector2D(0, 0), Vector2D(2, 1), Vector2D(4, 0), Vector2D(5, 3)])
    b = p.get_bounding_box()
    assert b.left() == 0 and b.right() == 5, b
    ''', 'vertices in ascending x order', 'the bounding box misses its minimum')

bug('C17-dist-closing', 'C17',
    ('polygon_2d.py', '''        if size >= 3:
            seg = Segment2D(self._vertices[size - 1], self._vertices[0])''',
     '''        if size > 3:
            seg = Segment2D(self._vertices[size - 1], self._vertices[0])'''),
    '''
    from pyrusgeom.polygon_2d import Polygon2D
    from pyrusgeom.vector_2d import Vector2D
    p = Polygon2D([Vector2D(0, 0), Vector2D(4, 4), Vector2D(0, 8)])
    assert abs(p.dist(Vector2D(-1, 4)) - 1) < 1e-9
    ''', 'a triangle and a point nearest to its closing edge', 'the closing edge of triangles is ignored')

bug('C17-ray-vertex', 'C17',
    ('polygon_2d.py', '''                    if p_0.y() == p_1.y() or p_0.y() < point.y() or p_1.y() < point.y():
                        continue''', '''                    if p_0.y() < point.y() or p_1.y() < point.y():
                        continue'''),
    '''
    from pyrusgeom.polygon_2d import Polygon2D
    from pyrusgeom.vector_2d import Vector2D
    p = Polygon2D([Vector2D(0, 0), Vector2D(4, 0), Vector2D(4, 2), Vector2D(6, 2), Vector2D(6, 4), Vector2D(0, 4)])
    assert p.contains(Vector2D(2, 2), False)
    ''', 'a point at the height of a horizontal edge to its right',
    'horizontal edges at the height of the point flip the parity')

bug('C18-shortcut', 'C18',
    ('polygon_2d.py', '''        if len(self._vertices) == 0:
            return Polygon2D()
''', '''        if not any(rect.contains(vertex) for vertex in self._vertices):
            return Polygon2D([])
'''),
    '''
    from pyrusgeom.polygon_2d import Polygon2D
    from pyrusgeom.rect_2d import Rect2D
    from pyrusgeom.vector_2d import Vector2D
    p = Polygon2D([Vector2D(-5, 1), Vector2D(9, 1), Vector2D(9, 2), Vector2D(-5, 2)])
    assert abs(p.get_rectangle_clipped_polygon(Rect2D(0, 0, 4, 4)).area() - 4) < 1e-9
    ''', 'a polygon without corner inside the rectangle that crosses it',
    'polygons crossing or covering the rectangle are clipped to nothing')


bug('C19-stale-edges', 'C19',
    ('convex_hull.py', '''        self._vertices.clear()
        self._edges.clear()''', '''        self._vertices.clear()
        if not self._input_points:
            self._edges.clear()'''),
    '''
    from pyrusgeom.convex_hull import ConvexHull
    from pyrusgeom.vector_2d import Vector2D
    h = ConvexHull([Vector2D(0, 0), Vector2D(4, 0), Vector2D(0, 4)])
    h.compute(); h.compute()
    assert len(h.edges()) == 3
    ''', 'computing a hull twice', 'edges of earlier computations stay')

bug('C19-duplicates', 'C19',
    ('convex_hull.py', '''            if min_point.x() > point.x() or (min_point.x() == point.x() and
                                             min_point.y() > point.y()):''',
     '''            if min_point.x() > point.x():'''),
    '''
    from pyrusgeom.convex_hull import ConvexHull, MethodType
    from pyrusgeom.vector_2d import Vector2D
    pts = [Vector2D(0, 2), Vector2D(0, 0), Vector2D(4, 0), Vector2D(0, 4)]
    for m in (MethodType.WRAPPING_METHOD, MethodType.GRAHAN_SCAN):
        h = ConvexHull(pts); h.compute(m)
        assert sorted((v.x(), v.y()) for v in h.vertices()) == [(0, 0), (0, 4), (4, 0)], h.vertices()
    ''', 'several leftmost points with an inner one first in the input',
    'a point inside an edge is used as the first hull corner')

bug('C20-imul-alias', 'C20',
    ('matrix_2d.py', '''        tdx = self._m11 * other.dxtf() + self._m12 * other.dytf() + self._dx
        tdy = self._m21 * other.dxtf() + self._m22 * other.dytf() + self._dy
''', '''        self._dx += self._m11 * other.dxtf() + self._m12 * other.dytf()
        tdx = self._dx
        tdy = self._m21 * other.dxtf() + self._m22 * other.dytf() + self._dy
'''),
    '''
    from pyrusgeom.matrix_2d import Matrix2D
    m = Matrix2D(1, 2, 3, 4, 5, 6); m *= m
    assert m.dytf() == 3 * 5 + 4 * 6 + 6, m
    ''', 'multiplying a matrix by itself in place', 'the squared matrix has the wrong y translation')

bug('C20-invertible-sign', 'C20',
    ('matrix_2d.py', '''return math.fabs(self.det()) > EPSILON''', '''return self.det() > EPSILON'''),
    '''
    from pyrusgeom.matrix_2d import Matrix2D
    assert Matrix2D(0, 1, 1, 0, 0, 0).invertible()
    ''', 'a reflection (negative determinant)', 'reflections count as not invertible')

bug('C20-transform-vec', 'C20',
    ('matrix_2d.py', '''        t_x = self._m11 * vector.x() + self._m12 * vector.y() + self._dx
        t_y = self._m21 * vector.x() + self._m22 * vector.y() + self._dy
        vector.assign(t_x, t_y)
        return vector''', '''        vector.set_x(self._m11 * vector.x() + self._m12 * vector.y() + self._dx)
        vector.set_y(self._m21 * vector.x() + self._m22 * vector.y() + self._dy)
        return vector'''),
    '''
    from pyrusgeom.matrix_2d import Matrix2D
    from pyrusgeom.vector_2d import Vector2D
    v = Vector2D(1, 2); Matrix2D(1, 1, 1, 0, 0, 0).transform_vec(v)
    assert v.x() == 3 and v.y() == 1, v
    ''', 'an in-place transform with m21 != 0', 'y is computed from the new x')

bug('C21-point-mutates', 'C21',
    ('soccer_math.py', '''    return (Vector2D(initial_pos.x(), initial_pos.y()) +
            inertia_n_step_travel(initial_vel, n_step, decay))''', '''    initial_pos.add(inertia_n_step_travel(initial_vel, n_step, decay))
    return initial_pos'''),
    '''
    from pyrusgeom.soccer_math import inertia_n_step_point
    from pyrusgeom.vector_2d import Vector2D
    p = Vector2D(1, 1); q = inertia_n_step_point(p, Vector2D(1, 0), 3, 0.5)
    assert p == Vector2D(1, 1) and abs(q.x() - 2.75) < 1e-9
    ''', 'using the start position again after a prediction', 'the start position is moved')

bug('C21-zero-steps', 'C21',
    ('soccer_math.py', '''    return initial_speed * (1.0 - math.pow(decay, n_step)) / (1.0 - decay)''',
     '''    return initial_speed * (1.0 - math.pow(decay, max(1, n_step))) / (1.0 - decay)'''),
    '''
    from pyrusgeom.soccer_math import inertia_n_step_distance
    assert inertia_n_step_distance(2.0, 0, 0.9) == 0
    ''', 'a prediction over 0 steps', 'an object travels one step in no time')


bug('C22-rint', 'C22',
    ('soccer_math.py', '''    if fi_left_diff < fi_right_diff:
        return fi_left
    return fi_right''', '''    if fi_left_diff < fi_diff:
        return fi_left
    return fi_right if fi_right_diff <= fi_diff else fi_og'''),
    '''
    from pyrusgeom.soccer_math import r_int
    assert r_int(-2.5) == -3 and r_int(2.5) == 3 and r_int(-0.5) == -1
    ''', 'a negative tie', 'negative ties round towards zero')

bug('C22-frange-negative', 'C22',
    ('soccer_math.py', '''        if step < 0 and start <= stop:''', '''        if step < 0 and start < stop:'''),
    '''
    from pyrusgeom.soccer_math import f_range
    assert list(f_range(2.0, 0.0, -0.5)) == [2.0, 1.5, 1.0, 0.5]
    ''', 'a negative step that hits the end exactly', 'the end of a descending range is included')

bug('C23-dir-rate-back', 'C23',
    ('soccer_math.py', '''1.0 - (math.fabs(rel_dash_dir) - 90.0) / 90.0))''', '''1.0 - (rel_dash_dir - 90.0) / 90.0))'''),
    '''
    from pyrusgeom.soccer_math import dir_rate
    assert abs(dir_rate(-135, 0.6, 0.4) - dir_rate(135, 0.6, 0.4)) < 1e-12
    ''', 'dashing backwards to the left', 'left and right back dashes differ')

bug('C23-over-speed', 'C23',
    ('soccer_math.py', '''    return math.fabs(dash_power) * dash_power_rate * effort > speed_max * (1.0 - decay)''',
     '''    return dash_power * dash_power_rate * effort > speed_max * (1.0 - decay)'''),
    '''
    from pyrusgeom.soccer_math import can_over_speed_max
    assert can_over_speed_max(-100, 0.006, 1.0, 0.4, 0.5)
    ''', 'a negative (backward) dash power', 'backward dashes never exceed the maximum speed')


bug('C24-contains-order', 'C24',
    ('sector_2d.py', '''        return (self._min_r * self._min_r <= delta <= self._max_r * self._max_r and
                rel.th().is_within(self._start, self._end))''',
     '''        return ((self._min_r * self._min_r <= delta <= self._max_r * self._max_r)
                and rel.th().is_left_equal_of(self._end)
                and self._start.is_left_equal_of(rel.th()))'''),
    '''
    from pyrusgeom.sector_2d import Sector2D
    from pyrusgeom.vector_2d import Vector2D
    s = Sector2D(Vector2D(0, 0), 1, 5, -135, 135)
    assert s.contains(Vector2D(2, 0))
    assert s.contains(Vector2D(0.5, 2))
    ''', 'a sector wider than 180 degrees', 'parts of wide sectors are not contained')



# ---- second series: histories, caches, aliasing, magnitudes, rare arguments

bug('C01-radian-cache', 'C01',
    ('angle_deg.py', '        return self.degree() * DEG2RAD\n', '''        if not hasattr(self, '_radian'):
            self._radian = self.degree() * DEG2RAD
        return self._radian
'''), '''
    from pyrusgeom.angle_deg import AngleDeg
    a = AngleDeg(90); a.radian(); a += 10
    assert abs(a.radian() - AngleDeg(100).radian()) < 1e-12
    ''', 'reading the radian value, changing the angle, reading it again', 'the radian value is stale')

bug('C01-neg-seam', 'C01',
    ('angle_deg.py', '''        if self._degree >= 0:
            self._degree = -(180 - self._degree)
        else:
            self._degree = 180 + self._degree''', '''        if self._degree >= 0:
            self._degree = -(180 - self._degree)
        elif self._degree > -180:
            self._degree = 180 + self._degree
        else:
            self._degree = 180'''), '''
    from pyrusgeom.angle_deg import AngleDeg
    a = AngleDeg(-180); a.reverse()
    assert abs(a.degree()) < 1e-9, a.degree()
    ''', 'reversing exactly -180 degrees', 'the reverse of -180 is 180 instead of 0')

bug('C02-left-of-number', 'C02',
    ('angle_deg.py', '''            bool: true if this AngleDeg is left of [angle]. else false
        """
        if not isinstance(angle, AngleDeg):
            angle = AngleDeg(angle)
        diff = angle.degree() - self.degree()''', '''            bool: true if this AngleDeg is left of [angle]. else false
        """
        other = angle.degree() if isinstance(angle, AngleDeg) else angle
        diff = other - self.degree()'''), '''
    from pyrusgeom.angle_deg import AngleDeg
    assert AngleDeg(-10).is_left_of(350 + 20)
    assert not AngleDeg(30).is_left_of(-200 + 190 - 360 + 10)
    assert AngleDeg(0).is_left_of(400)
    ''', 'comparing with a plain number outside [-180, 180]', 'numbers are compared without normalising them')

bug('C03-bisect-alias', 'C03',
    ('angle_deg.py', '        result = AngleDeg(left)\n', '        result = left if isinstance(left, AngleDeg) else AngleDeg(left)\n'), '''
    from pyrusgeom.angle_deg import AngleDeg
    l, r = AngleDeg(30), AngleDeg(0)
    assert abs(AngleDeg.bisect(l, r).degree() - 15) < 1e-9
    assert l.degree() == 30
    ''', 'passing the left direction as an angle object that is used again', 'the left argument becomes the bisector')

bug('C04-negative-polar', 'C04',
    ('vector_2d.py', '''        self._x = radius * angle.cos()
        self._y = radius * angle.sin()''', '''        self._x = math.fabs(radius) * angle.cos()
        self._y = math.fabs(radius) * angle.sin()'''), '''
    from pyrusgeom.vector_2d import Vector2D
    v = Vector2D(1, 1); v.set_polar(-2, 0)
    assert abs(v.x() + 2) < 1e-9
    ''', 'a negative length', 'the vector points the wrong way')

bug('C04-acos-clamp', 'C04',
    ('angle_deg.py', '''        if cosine >= 1.0:
            return 0.0''', '''        if cosine >= 1.0 + EPSILON:
            return 0.0'''), '''
    from pyrusgeom.angle_deg import AngleDeg
    assert AngleDeg.acos_deg(1.0000001) == 0.0
    assert AngleDeg.acos_deg(1.0 + 2e-16) == 0.0
    ''', 'a cosine that exceeds 1 by less than 1e-6', 'acos_deg raises instead of clamping')

bug('C05-abs-self', 'C05',
    ('vector_2d.py', '        return Vector2D(abs(self._x), abs(self._y))', '''        return self if self._x >= 0 and self._y >= 0 else Vector2D(abs(self._x), abs(self._y))'''), '''
    from pyrusgeom.vector_2d import Vector2D
    v = Vector2D(1, 2); w = v.abs(); w.scale(3)
    assert v == Vector2D(1, 2)
    ''', 'a vector in the first quadrant whose absolute vector is changed', 'abs() returns the vector itself')

bug('C06-polar-memo', 'C06',
    ('vector_2d.py', '''        if not isinstance(theta, AngleDeg):
            theta = AngleDeg(theta)
        return Vector2D(mag * theta.cos(), mag * theta.sin())''', '''        key = (mag, float(theta))
        if key not in Vector2D._polar:
            direction = AngleDeg(theta)
            if len(Vector2D._polar) > 256:
                Vector2D._polar.clear()
            Vector2D._polar[key] = Vector2D(mag * direction.cos(), mag * direction.sin())
        return Vector2D._polar[key]'''),
    '''
    from pyrusgeom.vector_2d import Vector2D
    v = Vector2D.from_polar(2, 0); v.scale(5)
    assert abs(Vector2D.from_polar(2, 0).x() - 2) < 1e-9
    ''', 'two polar vectors with equal arguments, the first one changed', 'memoised vectors are shared between callers')
BUGS[-1]['edits'].append(('vector_2d.py', '    def __init__(self, *args, **kwargs) -> None:', '    _polar = {}\n\n    def __init__(self, *args, **kwargs) -> None:'))

bug('C06-tri-segment-alias', 'C06',
    ('triangle_2d.py', '''            self._a = Vector2D(args[0].origin_())
            self._b = Vector2D(args[0].terminal_())
            self._c = Vector2D(args[1])
        else:
            raise Exception("The input must be (three Vector2D) or\\
                            (one vector 2D and one segment)")
        return self''', '''            self._a = args[0].origin_()
            self._b = args[0].terminal_()
            self._c = Vector2D(args[1])
        else:
            raise Exception("The input must be (three Vector2D) or\\
                            (one vector 2D and one segment)")
        return self'''), '''
    from pyrusgeom.triangle_2d import Triangle2D
    from pyrusgeom.segment_2d import Segment2D
    from pyrusgeom.vector_2d import Vector2D
    s = Segment2D(Vector2D(0, 0), Vector2D(1, 0))
    t = Triangle2D(Vector2D(5, 5), Vector2D(6, 5), Vector2D(5, 6))
    t.assign(s, Vector2D(0, 1)); t.a_().set_x_y(9, 9)
    assert s.origin() == Vector2D(0, 0)
    ''', 're-assigning a triangle from a segment and changing a live corner', 'triangle and segment share end points')

bug('C07-vec-kwargs', 'C07',
    ('vector_2d.py', '        elif len(kwargs) == 2:', '        elif len(kwargs) >= 2:'), '''
    from pyrusgeom.vector_2d import Vector2D
    try:
        Vector2D(x=1, y=2, r=3)
    except Exception:
        pass
    else:
        raise SystemExit('accepted')
    ''', 'three keyword arguments', 'contradictory keyword arguments are accepted')

bug('C08-dist2-eps', 'C08',
    ('line_2d.py', '        return (delta * delta) / (self._a * self._a + self._b * self._b)', '        return (delta * delta) / max(self._a * self._a + self._b * self._b, EPSILON)'), '''
    from pyrusgeom.line_2d import Line2D
    from pyrusgeom.vector_2d import Vector2D
    l = Line2D(Vector2D(0, 0), Vector2D(0.0005, 0))
    assert abs(l.dist2(Vector2D(3, 2)) - 4) < 1e-6
    ''', 'a line through two points closer than a thousandth', 'the squared distance is too small')

bug('C09-close-points', 'C09',
    ('line_2d.py', "        if math.fabs(tmp) < EPSILON:", "        if math.fabs(tmp) < 1e-3:"), '''
    from pyrusgeom.line_2d import Line2D
    from pyrusgeom.vector_2d import Vector2D
    p = Line2D(Vector2D(0, 0), Vector2D(0.02, 0)).intersection(Line2D(Vector2D(5, 5), Vector2D(5, 5.02)))
    assert p.is_valid()
    ''', 'lines through points a few hundredths apart', 'crossing lines count as parallel')

bug('C08-projection-near', 'C08',
    ('line_2d.py', '        return self.intersection(self.perpendicular(point))', '''        near = self.dist(point) < 1e-3
        return Vector2D(point) if near else self.intersection(self.perpendicular(point))'''), '''
    from pyrusgeom.line_2d import Line2D
    from pyrusgeom.vector_2d import Vector2D
    p = Line2D(0, 1, 0).projection(Vector2D(3, 5e-4))
    assert abs(p.y()) < 1e-9
    ''', 'a point less than a thousandth beside the line', 'its projection is not on the line')

bug('C09-line-cache', 'C09',
    [('ray_2d.py', '        return Line2D(self._origin, self._direction)', '''        if self._line is None:
            self._line = Line2D(self._origin, self._direction)
        return self._line'''),
     ('ray_2d.py', '        self._direction: AngleDeg = AngleDeg()', '        self._line = None\n        self._direction: AngleDeg = AngleDeg()')], '''
    from pyrusgeom.ray_2d import Ray2D
    from pyrusgeom.line_2d import Line2D
    from pyrusgeom.vector_2d import Vector2D
    r = Ray2D(Vector2D(0, 0), 0)
    r.intersection(Line2D(1, 0, -3))
    r.origin_().set_x_y(0, 2)
    assert abs(r.intersection(Line2D(1, 0, -3)).y() - 2) < 1e-9
    ''', 'an intersection, then a change through the live origin, then another', 'the second one uses the old line')

bug('C10-short-horizontal', 'C10',
    ('segment_2d.py', '        if self._origin.x() == self._terminal.x():', '        if math.fabs(self._origin.x() - self._terminal.x()) < 1e-3:'), '''
    from pyrusgeom.segment_2d import Segment2D
    a = Segment2D(0.0, 0.0, 0.0005, 0.0)
    b = Segment2D(1.0, 0.0, 2.0, 0.0)
    assert not a.exist_intersection(b)
    ''', 'collinear horizontal segments, one shorter than a thousandth', 'disjoint segments are reported to intersect')

bug('C10-line-vertical', 'C10',
    ('segment_2d.py', '            return tri_a0 * tri_a1 <= 0.0', '            return (tri_a0 <= 0.0) != (tri_a1 <= 0.0)'), '''
    from pyrusgeom.segment_2d import Segment2D
    from pyrusgeom.line_2d import Line2D
    s = Segment2D(0, 0, 2, 0)
    assert s.exist_intersection(Line2D(0, 1, 0)) and s.exist_intersection(Line2D(1, 0, -2)) and s.exist_intersection(Line2D(1, 0, 0))
    assert s.exist_intersection(Line2D(-1, 0, 2)) and s.exist_intersection(Line2D(-1, 0, 0))
    ''', 'a line touching an end point from one side, or containing the segment', 'touching counts on one side only')

bug('C11-short-projection', 'C11',
    ('segment_2d.py', '        if length < EPSILON:', '        if length < 1e-3:'), '''
    from pyrusgeom.segment_2d import Segment2D
    from pyrusgeom.vector_2d import Vector2D
    s = Segment2D(0, 0, 0.0008, 0)
    assert not s.projection(Vector2D(1, 1)).is_valid()
    ''', 'a segment shorter than a thousandth', 'its projection is always its origin')

bug('C12-inner-tangent', 'C12',
    ('circle_2d.py', 'if (center_dist < math.fabs(self._radius - other.radius())', 'if (center_dist <= math.fabs(self._radius - other.radius())'), '''
    from pyrusgeom.circle_2d import Circle2D
    from pyrusgeom.vector_2d import Vector2D
    assert len(Circle2D(Vector2D(0, 0), 3).intersection(Circle2D(Vector2D(1, 0), 2))) == 1
    ''', 'circles that touch from inside', 'inner tangency is missed')

bug('C12-small-circum', 'C12',
    ('circle_2d.py', '        if math.fabs(calc_area) < 1.0e-10:', '        if math.fabs(calc_area) < 1.0e-3:'), '''
    from pyrusgeom.circle_2d import Circle2D
    from pyrusgeom.vector_2d import Vector2D
    assert Circle2D.circum_circle_contains(Vector2D(0.004, 0.004), Vector2D(0, 0), Vector2D(0.01, 0), Vector2D(0, 0.01))
    ''', 'a triangle a hundredth across', 'nothing is inside the circumscribed circle of small triangles')

bug('C13-valid-sticky', 'C13',
    ('rect_2d.py', '        self._is_valid = self._size.is_valid()\n', '        self._is_valid = self._is_valid and self._size.is_valid()\n'), '''
    from pyrusgeom.rect_2d import Rect2D
    r = Rect2D(0, 0, 0, 3); assert not r.is_valid()
    r.set_length(2)
    assert r.is_valid()
    assert r.intersected(Rect2D(1, 1, 5, 5)).area() == 2
    ''', 'asking a degenerate rectangle for validity, then giving it a size', 'it stays invalid and intersects nothing')

bug('C13-corner-cross', 'C13',
    ('rect_2d.py', '''        new_left = min(self.left(), point_x)
        new_right = max(self.left(), point_x)
        new_top = min(self.top(), point_y)
        new_bottom = max(self.top(), point_y)''', '''        new_left = min(self.left(), point_x)
        new_right = max(self.left(), point_x)
        new_top = self.top()
        new_bottom = max(self.top(), point_y)'''), '''
    from pyrusgeom.rect_2d import Rect2D
    r = Rect2D(0, 0, 4, 4); r.set_bottom_right(5, -3)
    assert (r.top(), r.bottom()) == (-3, 0)
    ''', 'moving the bottom right corner above the top side', 'the rectangle becomes flat instead of turning over')

bug('C14-almost-negative', 'C14',
    ('rect_2d.py', '''        return self.left() <= point.x() <= self.right()''', '''        return self.is_valid() and self.left() <= point.x() <= self.right()'''), '''
    from pyrusgeom.rect_2d import Rect2D
    from pyrusgeom.vector_2d import Vector2D
    assert Rect2D(0, 0, 4, 0).contains(Vector2D(2, 0))
    ''', 'a flat rectangle', 'flat rectangles contain nothing')

bug('C16-static-boundary', 'C16',
    ('triangle_2d.py', '''        outer1 = rel1.outer_product(rel2)
        outer2 = rel2.outer_product(rel3)
        outer3 = rel3.outer_product(rel1)

        if (outer1 >= 0.0 and outer2 >= 0.0 and
            outer3 >= 0.0) or (outer1 <= 0.0 and
                               outer2 <= 0.0 and outer3 <= 0.0):
            return True
        return False

    def __repr__''', '''        outer1 = rel1.outer_product(rel2)
        outer2 = rel2.outer_product(rel3)
        outer3 = rel3.outer_product(rel1)

        if (outer1 >= 0.0 and outer2 >= 0.0 and
            outer3 >= 0.0) or (outer1 < 0.0 and
                               outer2 < 0.0 and outer3 < 0.0):
            return True
        return False

    def __repr__'''), '''
    from pyrusgeom.triangle_2d import Triangle2D
    from pyrusgeom.vector_2d import Vector2D
    V = Vector2D
    assert Triangle2D.tri_contains(V(0, 0), V(0, 4), V(4, 0), V(2, 0))
    assert Triangle2D.tri_contains(V(0, 0), V(4, 0), V(0, 4), V(2, 0))
    ''', 'the static test, a clockwise triangle and a point on its outline', 'outline points of clockwise triangles are outside')

bug('C17-cw-degenerate', 'C17',
    ('polygon_2d.py', '        return self.double_signed_area() < 0.0', '        return not self.is_counter_clockwise()'), '''
    from pyrusgeom.polygon_2d import Polygon2D
    from pyrusgeom.vector_2d import Vector2D
    assert not Polygon2D([Vector2D(0, 0), Vector2D(1, 0)]).is_clockwise()
    assert not Polygon2D([Vector2D(0, 0), Vector2D(1, 0), Vector2D(2, 0)]).is_clockwise()
    ''', 'a polygon of area 0', 'it counts as clockwise')

bug('C17-bbox-cache', 'C17',
    [('polygon_2d.py', '        if len(self._vertices) == 0:\n            return Rect2D(0.0, 0.0, 0.0, 0.0)\n        x_min',
      '        if len(self._vertices) == 0:\n            return Rect2D(0.0, 0.0, 0.0, 0.0)\n        if self._box is not None and self._box[0] == len(self._vertices):\n            return Rect2D(self._box[1])\n        x_min'),
     ('polygon_2d.py', '        return Rect2D(Vector2D(x_min, y_min), Size2D(x_max - x_min, y_max - y_min))',
      '        self._box = (len(self._vertices), Rect2D(Vector2D(x_min, y_min), Size2D(x_max - x_min, y_max - y_min)))\n        return Rect2D(self._box[1])'),
     ('polygon_2d.py', '        self._vertices:list[Vector2D] = []\n', '        self._vertices:list[Vector2D] = []\n        self._box = None\n')], '''
    from pyrusgeom.polygon_2d import Polygon2D
    from pyrusgeom.vector_2d import Vector2D
    V = Vector2D
    p = Polygon2D([V(0, 0), V(1, 0), V(0, 1)]); p.contains(V(0, 0))
    p.assign([V(10, 10), V(12, 10), V(10, 12)])
    assert p.contains(V(10.5, 10.5)) and p.get_bounding_box().left() == 10
    ''', 'a containment query, then assigning as many other vertices', 'the bounding box of the old vertices is used')

bug('C18-inside-alias', 'C18',
    ('polygon_2d.py', '''        points = self._vertices
        clipped_p_1 = []''', '''        points = self.vertices()
        if all(rect.contains(point) for point in points):
            return self
        clipped_p_1 = []'''), '''
    from pyrusgeom.polygon_2d import Polygon2D
    from pyrusgeom.rect_2d import Rect2D
    from pyrusgeom.vector_2d import Vector2D
    V = Vector2D
    p = Polygon2D([V(0, 0), V(1, 0), V(0, 1)])
    q = p.get_rectangle_clipped_polygon(Rect2D(-5, -5, 10, 10)); q.add_vertex(V(-1, -1))
    assert len(p.vertices()) == 3
    ''', 'clipping a polygon inside the rectangle and changing the result', 'the result is the polygon itself')

bug('C18-contains-short', 'C18',
    ('polygon_2d.py', '        if len(self._vertices) == 0:\n            return Polygon2D()\n', '        if not self.contains(self._vertices[0]) or len(self._vertices) == 0:\n            return Polygon2D()\n'),
    '''
    from pyrusgeom.polygon_2d import Polygon2D
    p = Polygon2D([])
    from pyrusgeom.rect_2d import Rect2D
    p.get_rectangle_clipped_polygon(Rect2D(0, 0, 1, 1))
    ''', 'clipping a polygon without vertices', 'it raises')

bug('C19-min-tie', 'C19',
    ('convex_hull.py', '''            if min_point.x() > point.x() or (min_point.x() == point.x() and
                                             min_point.y() > point.y()):''', '''            if min_point.x() > point.x():'''), '''
    from pyrusgeom.convex_hull import ConvexHull
    from pyrusgeom.vector_2d import Vector2D
    V = Vector2D
    h = ConvexHull([V(0, 1), V(0, 0), V(0, 2), V(3, 1)]); h.compute()
    assert len(h.vertices()) == 3, h.vertices()
    ''', 'three leftmost points in a column, the middle one first', 'a point on an edge becomes a vertex')

bug('C20-inverse-small', 'C20',
    ('matrix_2d.py', '        if determinant == 0.0:  # not invertible', '        if not self.invertible():  # not invertible'), '''
    from pyrusgeom.matrix_2d import Matrix2D
    from pyrusgeom.vector_2d import Vector2D
    m = Matrix2D.make_scaling(0.0005, 0.0005)
    p = m.inverted().transform(m.transform(Vector2D(3, 4)))
    assert abs(p.x() - 3) < 1e-6 and abs(p.y() - 4) < 1e-6
    ''', 'a matrix whose determinant is below 1e-6', 'its inverse is the identity')

bug('C21-ratio-above-one', 'C21',
    ('soccer_math.py', '    if first_term <= SERVER_EPS or sum_all < 0.0 or ratio <= SERVER_EPS:', '    if first_term <= SERVER_EPS or sum_all < 0.0 or ratio <= SERVER_EPS or ratio > 2.0:'), '''
    from pyrusgeom.soccer_math import calc_length_geom_series
    assert abs(calc_length_geom_series(1.0, 13.0, 3.0) - 3.0) < 1e-9
    ''', 'a growing series with ratio above 2', 'its length is refused')

bug('C22-range-zero-stop', 'C22',
    ('soccer_math.py', '    if stop is None:', '    if not stop:'), '''
    from pyrusgeom.soccer_math import f_range
    assert list(f_range(-2.0, 0.0, 1.0)) == [-2.0, -1.0]
    ''', 'a range that ends at 0', 'the end is taken for missing')

bug('C23-wind-no-rand', 'C23',
    ('soccer_math.py', '    if wind_error:', '    if wind_error and wind_rand:'), '''
    from pyrusgeom.soccer_math import wind_effect
    from pyrusgeom.vector_2d import Vector2D
    e = Vector2D(7, 7)
    wind_effect(1.0, 2.0, 3.0, 30.0, 10.0, 0.0, e)
    assert e == Vector2D(0, 0)
    ''', 'no random wind and an error vector used before', 'the old error stays')

bug('C24-zero-arc', 'C24',
    ('sector_2d.py', '''        if div < 0.0:
            div += 360.0
        return (2.0 * self._min_r * PI) * (div / 360.0)''', '''        if div <= 0.0:
            div += 360.0
        return (2.0 * self._min_r * PI) * (div / 360.0)'''), '''
    from pyrusgeom.sector_2d import Sector2D
    from pyrusgeom.vector_2d import Vector2D
    assert Sector2D(Vector2D(0, 0), 1, 2, 30, 30).get_circumference_min() == 0
    ''', 'a sector of width 0', 'its inner arc is a full circle')

bug('C24-assign-order', 'C24',
    ('sector_2d.py', '''        self._center = Vector2D(center)
        self._min_r = max(0.0, min_r)
        self._max_r = max(min_r, max_r)
        self._start = AngleDeg(start)
        self._end = AngleDeg(end)

    def center(self)''', '''        self._center.set_vector(center)
        self._min_r = max(0.0, min_r)
        self._max_r = max(min_r, max_r)
        self._start.set_degree(start if not isinstance(start, AngleDeg) else start.degree())
        self._end.set_degree(end) if not isinstance(end, AngleDeg) else self._start.set_angle(end)

    def center(self)'''), '''
    from pyrusgeom.sector_2d import Sector2D
    from pyrusgeom.angle_deg import AngleDeg
    from pyrusgeom.vector_2d import Vector2D
    s = Sector2D(Vector2D(0, 0), 1, 2, 30, 60)
    s.assign(Vector2D(1, 1), 1, 2, AngleDeg(10), AngleDeg(50))
    assert (s.angle_left_start().degree(), s.angle_right_end().degree()) == (10, 50)
    ''', 're-assigning with an angle object as the end', 'the start is overwritten by the end')

bug('C25-line-small-c', 'C25',
    ('line_2d.py', '        if self._c == 0:', '        if abs(self._c) < EPSILON:'), '''
    from pyrusgeom.line_2d import Line2D
    assert '1e-07' in str(Line2D(1.0, 2.0, 1e-7))
    ''', 'a constant term below 1e-6 that is not 0', 'the text leaves the constant out')

bug('C25-rect-right', 'C25',
    ('rect_2d.py', '(rect {round(self.left(), 3)} {round(self.top(), 3)} \\\n', '(rect {round(self.left(), 2)} {round(self.top(), 3)} \\\n'), '''
    from pyrusgeom.rect_2d import Rect2D
    assert '1.235' in Rect2D(1.2346, 1, 2, 2).to_str('')
    ''', 'a left side with a third decimal', 'it is rounded to two decimals')

bug('C25-angle-format', 'C25',
    ('angle_deg.py', '        return str(self.degree())', "        return f'{self.degree():.12g}'"), '''
    from pyrusgeom.angle_deg import AngleDeg
    a = AngleDeg(100.0 / 3)
    assert float(str(a)) == a.degree()
    ''', 'an angle with more than 12 significant digits', 'the text loses precision')

# ---- third series -------------------------------------------------------------------------
bug('C06-segment-line-memo', 'C06',
    ('segment_2d.py', '        return Line2D(self._origin, self._terminal)', """        if getattr(self, '_line_from', None) is not self._origin:
            self._line_from = self._origin
            self._line = Line2D(self._origin, self._terminal)
        return self._line.copy()"""), '''
    from pyrusgeom.segment_2d import Segment2D
    from pyrusgeom.vector_2d import Vector2D
    s = Segment2D(Vector2D(0, 0), Vector2D(1, 0))
    s.line()
    s.terminal_().assign(0, 1)
    assert s.line().dist(Vector2D(0, 5)) < 1e-9
    ''', 'line() asked before and after an end point is changed in place', 'the supporting line is the old one')

bug('C06-poly-area-memo', 'C06',
    ('polygon_2d.py', '        return math.fabs(self.double_signed_area() * 0.5)', """        if getattr(self, '_area_of', None) != len(self._vertices):
            self._area_of = len(self._vertices)
            self._area = math.fabs(self.double_signed_area() * 0.5)
        return self._area"""), '''
    from pyrusgeom.polygon_2d import Polygon2D
    from pyrusgeom.vector_2d import Vector2D
    p = Polygon2D([Vector2D(0, 0), Vector2D(1, 0), Vector2D(0, 1)])
    p.area()
    p.assign([Vector2D(0, 0), Vector2D(2, 0), Vector2D(0, 2)])
    assert p.area() == 2
    ''', 'area asked, the polygon re-assigned with equally many vertices, area asked again', 'the old area is reported')

bug('C06-rect-center-cache', 'C06',
    ('rect_2d.py', """        return Vector2D((self.left() + self.right()) * 0.5,
                        (self.top() + self.bottom()) * 0.5)""", """        if getattr(self, '_center_of', None) is not self._top_left:
            self._center_of = self._top_left
            self._center = Vector2D(
                (self.left() + self.right()) * 0.5,
                (self.top() + self.bottom()) * 0.5)
        return Vector2D(self._center)"""), '''
    from pyrusgeom.rect_2d import Rect2D
    r = Rect2D(0, 0, 2, 2)
    r.center()
    r.set_length(4)
    assert r.center().x() == 2
    ''', 'the centre asked, a side moved or the size changed, the centre asked again', 'the old centre is reported')

bug('C06-hull-polygon-shared', 'C06',
    ('convex_hull.py', '        return Polygon2D(self._vertices)', """        poly = Polygon2D(self._vertices)
        poly._vertices = self._vertices
        return poly"""), '''
    from pyrusgeom.convex_hull import ConvexHull
    from pyrusgeom.vector_2d import Vector2D
    h = ConvexHull([Vector2D(0, 0), Vector2D(2, 0), Vector2D(0, 2)])
    h.compute()
    p = h.to_polygon()
    h.clear_results()
    assert len(p.vertices()) == 3
    ''', 'a polygon made from a hull, the hull cleared or the polygon extended afterwards', 'the two share the vertex list')

bug('C06-matrix-mul-returns-self', 'C06',
    ('matrix_2d.py', '            return mat_tmp.__imul__(other)', '            return self if other == Matrix2D() else mat_tmp.__imul__(other)'), '''
    from pyrusgeom.matrix_2d import Matrix2D
    m = Matrix2D(1, 2, 3, 4, 5, 6)
    n = m * Matrix2D()
    n.translate(1, 1)
    assert m.dxtf() == 5
    ''', 'multiplying by the identity', 'the product is the left operand itself')

bug('C01-neg-multiply', 'C01',
    ('angle_deg.py', '''        self._degree *= other
        self.normal()
        return self''', '''        self._degree *= other
        if self._degree > 180.0 or self._degree <= -360.0:
            self.normal()
        return self'''), '''
    from pyrusgeom.angle_deg import AngleDeg
    a = AngleDeg(100); a *= -2
    assert -180 <= a.degree_() <= 180, a.degree_()
    ''', 'an in-place product between -360 and -180', 'the angle is not normalised')

bug('C04-quarter-turns', 'C04',
    ('vector_2d.py', '''        sin_tmp = math.sin(deg * DEG2RAD)
        return self.assign(''', '''        sin_tmp = math.sin(deg * DEG2RAD) if abs(deg) != 90.0 else 1.0
        return self.assign('''), '''
    from pyrusgeom.vector_2d import Vector2D
    v = Vector2D(1, 0)
    v.rotate(-90)
    assert abs(v.y() + 1) < 1e-9
    ''', 'rotating by exactly -90 degrees', 'it turns the other way')

bug('C05-eq-validity', 'C05',
    ('vector_2d.py', '        return isinstance(other, Vector2D) and self._x == other.x() and self._y == other.y()', '        return isinstance(other, Vector2D) and self._x == other.x() and self._y == other.y() \\\n            and self._is_valid == other.is_valid()'), '''
    from pyrusgeom.vector_2d import Vector2D
    a, b = Vector2D(1, 2), Vector2D(1, 2)
    b.invalidate()
    assert a == b
    ''', 'comparing with an invalidated vector of the same coordinates', 'they compare different')

bug('C08-get-x-small', 'C08',
    ('line_2d.py', '''        if math.fabs(self._a) < EPSILON:
            return ERROR_VALUE
        return -(self._b * f_y''', '''        if math.fabs(self._a) < EPSILON * max(1.0, math.fabs(self._b) * 100.0):
            return ERROR_VALUE
        return -(self._b * f_y'''), '''
    from pyrusgeom.line_2d import Line2D
    assert Line2D(0.005, 100.0, 1.0).get_x(0) == -200
    ''', 'a line with a large second coefficient and a small first one', 'x-at-y reports the error value')

bug('C09-ray-far', 'C09',
    ('ray_2d.py', '''            if not self.in_right_dir(tmp_sol):''', '''            if not self.in_right_dir(tmp_sol) or tmp_sol.r2() > 1.0e10:'''), '''
    from pyrusgeom.ray_2d import Ray2D
    from pyrusgeom.line_2d import Line2D
    from pyrusgeom.vector_2d import Vector2D
    from pyrusgeom.angle_deg import AngleDeg
    assert Ray2D(Vector2D(0, 0), AngleDeg(0)).intersection(Line2D(1, 0, -200000)).is_valid()
    ''', 'a crossing point more than 100000 away from the origin of the plane', 'it is reported as none')

bug('C10-large-touch', 'C10',
    ('segment_2d.py', '            return tri_a0 * tri_a1 <= 0.0', '            return tri_a0 * tri_a1 <= 0.0 and math.fabs(tri_a0 - tri_a1) > 0.0'), '''
    from pyrusgeom.segment_2d import Segment2D
    from pyrusgeom.line_2d import Line2D
    from pyrusgeom.vector_2d import Vector2D
    assert Segment2D(Vector2D(0, 0), Vector2D(2, 0)).exist_intersection(Line2D(0, 1, 0))
    ''', 'a segment that lies on the line', 'it is reported as not meeting it')

bug('C11-far-end-projection', 'C11',
    ('segment_2d.py', '        if -EPSILON < direction_ip < length + EPSILON:', '        if -EPSILON < direction_ip < length - EPSILON:'), '''
    from pyrusgeom.segment_2d import Segment2D
    from pyrusgeom.vector_2d import Vector2D
    assert Segment2D(Vector2D(0, 0), Vector2D(2, 0)).projection(Vector2D(2, 3)).is_valid()
    ''', 'a foot point exactly at the terminal', 'the projection is invalid')

bug('C12-equal-radii', 'C12',
    ('circle_2d.py', '''                    self._radius + other.radius() < center_dist):''', '''                    self._radius + other.radius() < center_dist or
                    (self._radius == other.radius() and center_dist2 < self._radius)):'''), '''
    from pyrusgeom.circle_2d import Circle2D
    from pyrusgeom.vector_2d import Vector2D
    assert len(Circle2D(Vector2D(0, 0), 4).intersection(Circle2D(Vector2D(1, 0), 4))) == 2
    ''', 'two circles of the same radius whose centres are close to each other', 'no common points are reported')

bug('C12-segment-inside-second', 'C12',
    ('circle_2d.py', '''            line = other.line()
            sol_list = self.intersection(line)
''', '''            line = other.line()
            sol_list = self.intersection(line) if other.length() > self._radius * 0.01 else []
'''), '''
    from pyrusgeom.circle_2d import Circle2D
    from pyrusgeom.segment_2d import Segment2D
    from pyrusgeom.vector_2d import Vector2D
    assert len(Circle2D(Vector2D(0, 0), 100).intersection(Segment2D(Vector2D(99.7, 0), Vector2D(100.2, 0)))) == 1
    ''', 'a segment much shorter than the radius that crosses the circumference', 'the crossing is missed')

bug('C13-move-right-rounded', 'C13',
    ('rect_2d.py', '        self._top_left.set_x(right_x - self._size.length())', '        self._top_left.set_x(right_x - max(self._size.length(), 1.0e-3))'), '''
    from pyrusgeom.rect_2d import Rect2D
    r = Rect2D(1, 1, 0, 2)
    r.move_right(5)
    assert r.right() == 5
    ''', 'moving the right side of a rectangle shorter than a thousandth', 'the side misses its place')

bug('C15-diagonal', 'C15',
    ('rect_2d.py', '''            n_sol = self.intersection(other.line())
            if len(n_sol) > 1 and not other.contains(n_sol[1]):''', '''            within = self.contains(other.origin()) and self.contains(other.terminal())
            n_sol = [] if within else self.intersection(other.line())
            if len(n_sol) > 1 and not other.contains(n_sol[1]):'''), '''
    from pyrusgeom.rect_2d import Rect2D
    from pyrusgeom.segment_2d import Segment2D
    from pyrusgeom.vector_2d import Vector2D
    assert len(Rect2D(0, 0, 2, 2).intersection(Segment2D(Vector2D(0, 0), Vector2D(2, 2)))) == 2
    ''', 'a segment inside the rectangle that ends on its outline', 'the points on the outline are not reported')

bug('C16-orient-tiny', 'C16',
    ('triangle_2d.py', '        return Triangle2D.double_signed_area_st(v_a, v_b, v_c) > 0.0', '        return Triangle2D.double_signed_area_st(v_a, v_b, v_c) > 1.0e-9'), '''
    from pyrusgeom.triangle_2d import Triangle2D
    from pyrusgeom.vector_2d import Vector2D
    s = 2.0 ** -16
    assert Triangle2D(Vector2D(0, 0), Vector2D(s, 0), Vector2D(0, s)).ccw()
    ''', 'a triangle with an area below a billionth', 'it is not counter-clockwise')

bug('C17-ccw-threshold', 'C17',
    ('polygon_2d.py', '        return self.double_signed_area() < 0.0', '        return self.double_signed_area() < -1.0e-6'), '''
    from pyrusgeom.polygon_2d import Polygon2D
    from pyrusgeom.vector_2d import Vector2D
    p = Polygon2D([Vector2D(0, 0), Vector2D(0, 0.0005), Vector2D(0.0005, 0)])
    assert p.is_clockwise()
    ''', 'a polygon with an area below a millionth', 'it is not clockwise')

bug('C17-dist-plane-flag', 'C17',
    ('polygon_2d.py', '''        if size >= 3:
            seg =''', '''        if size >= 3 and not (min_dist == 0.0 or self._vertices[0] in self._vertices[1:-1]):
            seg ='''), '''
    from pyrusgeom.polygon_2d import Polygon2D
    from pyrusgeom.vector_2d import Vector2D
    p = Polygon2D([Vector2D(0, 0), Vector2D(4, 0), Vector2D(0, 0), Vector2D(0, 4)])
    assert abs(p.dist(Vector2D(-1, 2), False) - 1) < 1e-9
    q = Polygon2D([Vector2D(0, 0), Vector2D(4, 0), Vector2D(0, 0), Vector2D(-4, 4)])
    assert p.dist(Vector2D(-1, 2)) == 1 and abs(q.dist(Vector2D(-2, 2), False)) < 1e-9
    r = Polygon2D([Vector2D(0, 0), Vector2D(4, 0), Vector2D(0, 0), Vector2D(2, 2), Vector2D(0, 4)])
    assert r.dist(Vector2D(0, 2), False) == 0
    ''', 'a polygon whose first vertex occurs again', 'the closing edge is left out of the distance')

bug('C18-keep-first', 'C18',
    ('polygon_2d.py', '            if in_rectangle[index_0]:', '''            if i > 0 and p_0.equals_weakly(points[i - 1]):
                continue
            elif in_rectangle[index_0]:'''), '''
    from pyrusgeom.polygon_2d import Polygon2D
    from pyrusgeom.rect_2d import Rect2D
    from pyrusgeom.vector_2d import Vector2D
    p = Polygon2D([Vector2D(0, 0), Vector2D(1, 0), Vector2D(1, 0), Vector2D(0, 1)])
    q = p.get_rectangle_clipped_polygon(Rect2D(-5, -5, 10, 10))
    assert abs(q.area() - 0.5) < 1e-9 and len(q.vertices()) == 4
    ''', 'a polygon with a repeated vertex', 'the edge after the repetition is dropped')

bug('C19-many-points', 'C19',
    ('convex_hull.py', '''        for _ in range(point_size + 1):''', '''        for _ in range(min(point_size + 1, 12)):'''), '''
    import math
    from pyrusgeom.convex_hull import ConvexHull
    from pyrusgeom.vector_2d import Vector2D
    h = ConvexHull([Vector2D(10 * math.cos(i * 0.4), 10 * math.sin(i * 0.4)) for i in range(15)])
    h.compute()
    assert len(h.vertices()) == 15, len(h.vertices())
    ''', 'a hull with more than 12 vertices', 'the hull is left open')

bug('C20-rotate-multiple', 'C20',
    ('matrix_2d.py', '''        ang_sin = angle.sin()
        ang_cos = angle.cos()
        tm11''', '''        ang_sin = angle.sin()
        ang_cos = angle.cos() if abs(angle.cos()) > 1.0e-3 else 0.0
        tm11'''), '''
    from pyrusgeom.matrix_2d import Matrix2D
    from pyrusgeom.angle_deg import AngleDeg
    m = Matrix2D(); m.rotate(AngleDeg(90.05))
    assert abs(m.m11() + 0.000872664) < 1e-6, m.m11()
    ''', 'a rotation within a twentieth of a degree of a quarter turn', 'it becomes a quarter turn')

bug('C21-many-steps', 'C21',
    ('soccer_math.py', '''    return initial_speed * (1.0 - math.pow(decay, n_step)) / (1.0 - decay)''', '''    return initial_speed * (1.0 - (math.pow(decay, n_step) if n_step <= 100 else 0.0)) / (1.0 - decay)'''), '''
    from pyrusgeom.soccer_math import inertia_n_step_distance
    assert abs(inertia_n_step_distance(1.0, 120, 0.99) - (1 - 0.99 ** 120) / 0.01) < 1e-6
    ''', 'more than 100 steps with a decay close to 1', 'the limit is returned instead')

bug('C22-big-round', 'C22',
    ('soccer_math.py', '''    if fi_diff < fi_left_diff and fi_diff < fi_right_diff:''', '''    if abs(fi_og) >= 2 ** 31 or fi_diff < fi_left_diff and fi_diff < fi_right_diff:'''), '''
    from pyrusgeom.soccer_math import r_int
    assert r_int(2.0 ** 32 + 0.75) == 2 ** 32 + 1
    ''', 'a number beyond 2^31 with a fraction above a half', 'it is truncated instead of rounded')

bug('C22-range-long', 'C22',
    ('soccer_math.py', '''        yield start
        start = start + step''', '''        yield start
        start = round(start + step, 9)'''), '''
    from pyrusgeom.soccer_math import f_range
    xs = list(f_range(0.0, 2.0 ** -28, 2.0 ** -30))
    assert xs == [i * 2.0 ** -30 for i in range(4)], xs
    ''', 'a step finer than a billionth', 'the values are rounded')

bug('C23-kick-contact', 'C23',
    ('soccer_math.py', '- 0.25 * (dist - ball_size - player_size) / kickable_margin)', '- 0.25 * max(0.0, dist - ball_size - player_size) / kickable_margin)'), '''
    from pyrusgeom.soccer_math import kick_rate
    assert abs(kick_rate(0.1, 0, 1.0, 0.085, 0.3, 0.7) - (1 + 0.25 * 0.285 / 0.7)) < 1e-9
    ''', 'a ball overlapping the player', 'the rate does not grow')

bug('C24-inner-radius', 'C24',
    ('sector_2d.py', '        delta = rel.r2()', '        delta = round(rel.r2(), 9)'), '''
    from pyrusgeom.sector_2d import Sector2D
    from pyrusgeom.vector_2d import Vector2D
    s = Sector2D(Vector2D(0, 0), 0.0, 2.0 ** -16, 0, 90)
    assert not s.contains(Vector2D(2.0 ** -16, 2.0 ** -17))
    ''', 'a sector smaller than 1/30000', 'points outside are contained')

bug('C25-poly-many', 'C25',
    ('polygon_2d.py', """        return f"({self._vertices})\"""", """        return f"({self._vertices[:10]})" if len(self._vertices) > 10 else f"({self._vertices})\""""), '''
    from pyrusgeom.polygon_2d import Polygon2D
    from pyrusgeom.vector_2d import Vector2D
    p = Polygon2D([Vector2D(i, i * i) for i in range(12)])
    assert '121' in str(p)
    ''', 'a polygon with more than ten vertices', 'the text leaves the rest out')

# ---- fourth series
bug('C02-right-equal-weak', 'C02',
    ('angle_deg.py', '''        diff = self.degree() - angle.degree()
        return (0.0 <= diff < 180.0) or diff < -180.0''', '''        diff = self.degree() - angle.degree()
        return -0.001 <= diff < 180.0 or diff < -180.0'''), '''
    from pyrusgeom.angle_deg import AngleDeg
    assert not AngleDeg(10).is_right_equal_of(AngleDeg(10.0005))
    ''', 'two directions less than a thousandth apart', 'the or-equal order holds both ways')

bug('C04-zero-length', 'C04',
    ('vector_2d.py', '''        if mag > EPSILON:
            self.scale(length / mag)''', '''        if mag > EPSILON and length:
            self.scale(length / mag)'''), '''
    from pyrusgeom.vector_2d import Vector2D
    v = Vector2D(3, 4)
    v.set_length(0)
    assert v.r() == 0, v
    ''', 'setting the length 0', 'the vector keeps its length')

bug('C05-weak-dist', 'C05',
    ('vector_2d.py', '''        return math.fabs(self._x - other.x()) < EPSILON and math.fabs(self._y - other.y()) < EPSILON''', '''        return self.dist2(other) < EPSILON * EPSILON'''), '''
    from pyrusgeom.vector_2d import Vector2D
    assert Vector2D(0, 0).equals_weakly(Vector2D(0.9e-6, 0.9e-6))
    ''', 'both coordinates differ by almost epsilon', 'the vectors are not weakly equal')

bug('C06-invalid-shared', 'C06',
    ('vector_2d.py', '''        vec_invalid = Vector2D()
        vec_invalid.invalidate()
        return vec_invalid''', '''        if not hasattr(Vector2D, '_none'):
            Vector2D._none = Vector2D()
            Vector2D._none.invalidate()
        return Vector2D._none'''), '''
    from pyrusgeom.vector_2d import Vector2D
    a = Vector2D.invalid()
    a.assign(3, 4)
    a.validate()
    assert not Vector2D.invalid().is_valid()
    ''', 'changing the invalid point a failed intersection returned', 'all invalid points change')

bug('C09-far-point', 'C09',
    ('line_2d.py', '''        if math.fabs(tmp) < EPSILON:
            return Vector2D.invalid()''', '''        if math.fabs(tmp) < EPSILON * (1.0 + math.fabs(line1.c() * line2.c())):
            return Vector2D.invalid()'''), '''
    from pyrusgeom.line_2d import Line2D
    p = Line2D(1, 0, -1e5).intersection(Line2D(0, 1, -1e5))
    assert p.is_valid()
    ''', 'two lines far from the origin', 'no intersection')

bug('C10-shallow-cross', 'C10',
    ('segment_2d.py', '''            if tri_a0 * tri_a1 < 0.0 and tri_b0 * tri_b1 < 0.0:''', '''            if tri_a0 * tri_a1 < -EPSILON and tri_b0 * tri_b1 < -EPSILON:'''), '''
    from pyrusgeom.segment_2d import Segment2D
    from pyrusgeom.vector_2d import Vector2D
    V = Vector2D
    k = 2.0 ** -8
    assert Segment2D(V(0, 0), V(k, k)).exist_intersection(Segment2D(V(0, k), V(k, 0)))
    ''', 'crossing segments a few thousandths long', 'no intersection')

bug('C11-nearest-small', 'C11',
    ('segment_2d.py', '''        if inner_product >= len_square:
            return Vector2D(self._terminal)''', '''        if inner_product + EPSILON >= len_square:
            return Vector2D(self._terminal)'''), '''
    from pyrusgeom.segment_2d import Segment2D
    from pyrusgeom.vector_2d import Vector2D
    V = Vector2D
    p = Segment2D(V(0, 0), V(0.001, 0)).nearest_point(V(0.0002, 5))
    assert abs(p.x() - 0.0002) < 1e-7, p
    ''', 'a segment of a thousandth', 'the terminal is nearest to everything')

bug('C12-contains-eps', 'C12',
    ('circle_2d.py', 'return self._center.dist2(point) < self._radius * self._radius', 'return self._center.dist2(point) < self._radius * self._radius - EPSILON'), '''
    from pyrusgeom.circle_2d import Circle2D
    from pyrusgeom.vector_2d import Vector2D
    assert Circle2D(Vector2D(0, 0), 0.001).contains(Vector2D(0, 0.0005))
    ''', 'a circle of a thousandth, or a point next to the circumference', 'points inside are not contained')

bug('C13-collapse', 'C13',
    ('rect_2d.py', '''        new_right = max(self.left(), right_x)''', '''        new_right = max(self.left(), right_x) if right_x != self.left() else self.right()'''), '''
    from pyrusgeom.rect_2d import Rect2D
    r = Rect2D(1, 2, 3, 4)
    r.set_right(1)
    assert r.right() == 1
    ''', 'setting the right side exactly onto the left one', 'nothing happens')

bug('C17-bbox-start', 'C17',
    ('polygon_2d.py', '''        x_max = - float("inf")''', '''        x_max = -1.0e4'''), '''
    from pyrusgeom.polygon_2d import Polygon2D
    from pyrusgeom.vector_2d import Vector2D
    p = Polygon2D([Vector2D(-3e4, 0), Vector2D(-2e4, 0), Vector2D(-2e4, 5)])
    assert p.get_bounding_box().right() == -2e4
    ''', 'a polygon left of -10000', 'the bounding box is too wide')

bug('C20-eq-weak', 'C20',
    ('matrix_2d.py', '''self._m22 == other.m22()''', '''math.fabs(self._m22 - other.m22()) < EPSILON'''), '''
    from pyrusgeom.matrix_2d import Matrix2D
    assert not Matrix2D(1, 0, 0, 1, 0, 0) == Matrix2D(1, 0, 0, 1 + 1e-7, 0, 0)
    ''', 'matrices that differ by less than epsilon in m22', 'they are equal')

bug('C20-scale-dx', 'C20',
    ('matrix_2d.py', '''        self._dx *= scale_x''', '''        self._dx *= math.fabs(scale_x)'''), '''
    from pyrusgeom.matrix_2d import Matrix2D
    m = Matrix2D(1, 0, 0, 1, 5, 0)
    m.scale(-2, 1)
    assert m.dxtf() == -10
    ''', 'a reflection of a matrix with a translation', 'the translation is not reflected')

bug('C22-quantize-large', 'C22',
    ('soccer_math.py', '''    return r_int(value / qstep) * qstep''', '''    steps = value / qstep
    return (r_int(steps) if abs(steps) < 500 else round(steps)) * qstep'''), '''
    from pyrusgeom.soccer_math import quantize
    assert quantize(500.5, 1.0) == 501.0
    ''', 'a tie beyond five hundred steps', 'rounded to even')

bug('C25-hull-text-memo', 'C25',
    ('convex_hull.py', '''        return f"({self._vertices} , {self._edges})"''', '''        if getattr(self, '_text_of', None) != (len(self._vertices), len(self._edges)):
            self._text_of = (len(self._vertices), len(self._edges))
            self._text = f"({self._vertices} , {self._edges})"
        return self._text'''), '''
    from pyrusgeom.convex_hull import ConvexHull
    from pyrusgeom.vector_2d import Vector2D
    V = Vector2D
    h = ConvexHull([V(0, 0), V(1, 0), V(0, 1)])
    h.compute()
    str(h)
    h.clear()
    h.add_points([V(0, 0), V(7, 0), V(0, 7)])
    h.compute()
    assert '7' in str(h)
    ''', 'printing a hull, recomputing one with as many vertices, printing it', 'the old text')

bug('C01-set-degree-range', 'C01',
    ('angle_deg.py', '''        self._degree = degree
        self.normal()''', '''        self._degree = degree
        if isinstance(degree, float) or abs(degree) > 270:
            self.normal()'''), '''
    from pyrusgeom.angle_deg import AngleDeg
    a = AngleDeg(0)
    a.set_degree(200)
    assert a.degree_() == -160
    ''', 'setting an integer between 180 and 270', 'the degree is not normalised')

bug('C24-thin-ring', 'C24',
    ('sector_2d.py', '''self._min_r * self._min_r <= delta <= self._max_r * self._max_r and''', '''self._min_r * self._min_r <= delta < self._max_r * self._max_r + (self._min_r < self._max_r) * 1e-12 and'''), '''
    from pyrusgeom.sector_2d import Sector2D
    from pyrusgeom.vector_2d import Vector2D
    assert Sector2D(Vector2D(0, 0), 5, 5, 0, 90).contains(Vector2D(3, 4))
    ''', 'equal radii', 'points on the arc are not contained')

bug('C23-kick-behind', 'C23',
    ('soccer_math.py', '(1.0 - 0.25 * math.fabs(dir_diff)', '(1.0 - 0.25 * (math.fabs(dir_diff) % 180.0)'), '''
    from pyrusgeom.soccer_math import kick_rate
    assert abs(kick_rate(0.385, 180.0, 1.0, 0.085, 0.3, 0.7) - 0.75) < 1e-9
    ''', 'a ball exactly behind', 'the full rate')
# ---- fifth series
bug('C01-normalized-wrap', 'C01',
    ('angle_deg.py', 'return (self.degree() + 180) / 360', 'return (self.degree() + 180) % 360 / 360'), '''
    from pyrusgeom.angle_deg import AngleDeg
    assert AngleDeg(180).get_normalized() == 1.0
    ''', 'exactly 180 degrees', 'the normalised form is 0 instead of 1')

bug('C04-atan-steep', 'C04',
    ('angle_deg.py', 'return AngleDeg.rad2deg(math.atan(tangent))', 'return AngleDeg.rad2deg(math.atan(tangent)) if math.fabs(tangent) < 1000.0 else math.copysign(90.0, tangent)'), '''
    from pyrusgeom.angle_deg import AngleDeg
    assert abs(AngleDeg.atan_deg(2000.0) - 89.971352) < 1e-4
    ''', 'a slope of more than a thousand', 'exactly 90 degrees')

bug('C05-hash-validity', 'C05',
    ('vector_2d.py', 'hash((self._x, self._y))', 'hash((self._x, self._y, self._is_valid))'), '''
    from pyrusgeom.vector_2d import Vector2D
    a, b = Vector2D(0, 0), Vector2D.invalid()
    assert a == b and hash(a) == hash(b)
    ''', 'a valid and an invalid vector with equal coordinates', 'equal vectors hash differently')

bug('C06-th-memo', 'C06',
    ('vector_2d.py', '        return AngleDeg(AngleDeg.atan2_deg(self._y, self._x))', """        if getattr(self, '_th', (None,))[0] != self._x:
            self._th = (self._x, AngleDeg.atan2_deg(self._y, self._x))
        return AngleDeg(self._th[1])"""), '''
    from pyrusgeom.vector_2d import Vector2D
    v = Vector2D(1, 1)
    v.th()
    v.set_y(-1)
    assert v.th().degree() == -45
    ''', 'asking for the direction, changing y only, asking again', 'the old direction')

bug('C07-rect-assign-corners', 'C07',
    ('rect_2d.py', """            if bottom_right.y() - top_left.y() < 0.0:
                self._top_left.set_y(bottom_right.y())
        elif len(args) == 2:
            self._top_left = Vector2D(args[0])
            self._size = Size2D(args[1].length(), args[1].width())
        elif""", """            elif bottom_right.y() - top_left.y() < 0.0:
                self._top_left.set_y(bottom_right.y())
        elif len(args) == 2:
            self._top_left = Vector2D(args[0])
            self._size = Size2D(args[1].length(), args[1].width())
        elif"""), '''
    from pyrusgeom.rect_2d import Rect2D
    from pyrusgeom.vector_2d import Vector2D
    r = Rect2D(0, 0, 1, 1)
    r.assign(Vector2D(5, 5), Vector2D(1, 2))
    assert r.top_left() == Vector2D(1, 2), r
    ''', 're-assigning from the bottom right and the top left corner', 'the rectangle lies one width too low')

bug('C10-line-terminal', 'C10',
    ('segment_2d.py', 'return tri_a0 * tri_a1 <= 0.0', 'return tri_a0 * tri_a1 < 0.0 or tri_a0 == 0.0'), '''
    from pyrusgeom.segment_2d import Segment2D
    from pyrusgeom.line_2d import Line2D
    from pyrusgeom.vector_2d import Vector2D
    V = Vector2D
    assert Segment2D(V(0, 1), V(0, 0)).exist_intersection(Line2D(V(-1, 0), V(1, 0)))
    ''', 'a line through the terminal', 'no intersection')

bug('C12-relative-delta', 'C12',
    ('circle_2d.py', 'if math.fabs(delta) < EPSILON:', 'if math.fabs(delta) < EPSILON * (1.0 + qf_b * qf_b):'), '''
    from pyrusgeom.circle_2d import Circle2D, quadratic_f
    from pyrusgeom.vector_2d import Vector2D
    assert abs(quadratic_f(1.0, -200.0, 9999.999)[0] - 100.0316228) < 1e-5
    ''', 'roots close to each other and far from zero, or a small circle far from the origin', 'the two solutions become one')

bug('C13-size-alias', 'C13',
    ('rect_2d.py', """            self._size = Size2D(args[0].length(),args[0].width())""", """            self._size = args[0]"""), '''
    from pyrusgeom.rect_2d import Rect2D
    from pyrusgeom.size_2d import Size2D
    s = Size2D(2, 3)
    r = Rect2D(0, 0, 1, 1)
    r.set_size(s)
    r.set_right(9)
    assert s.length() == 2
    ''', 'setting the size from an object and then a side', 'the size object changes too')

bug('C15-tri-ray-drop', 'C15',
    ('triangle_2d.py', """            if n_sol[0] > 0 and not other.in_right_dir(n_sol[1], 1.0):
                n_sol[1] = n_sol[2]""", """            if n_sol[0] > 0 and not other.in_right_dir(n_sol[1], 1.0):
                n_sol[2] = n_sol[1]"""), '''
    from pyrusgeom.triangle_2d import Triangle2D
    from pyrusgeom.ray_2d import Ray2D
    from pyrusgeom.vector_2d import Vector2D
    V = Vector2D
    t = Triangle2D(V(0, 0), V(4, 0), V(0, 4))
    n = t.intersection(Ray2D(V(1, 1), 90))
    assert n[0] == 1 and n[1].dist(V(1, 3)) < 1e-9, n
    ''', 'a ray from inside whose first outline point lies behind it', 'the point behind is reported')

bug('C21-near-limit', 'C21',
    ('soccer_math.py', """    if tmp <= SERVER_EPS:
        return -1.0""", """    if tmp <= EPS:
        return -1.0"""), '''
    from pyrusgeom.soccer_math import calc_length_geom_series
    q, n = 0.5, 29
    s = (1 - q ** n) / (1 - q)
    assert abs(calc_length_geom_series(1.0, s, q) - n) < 1e-3
    ''', 'a sum within 1e-8 of the limit', 'refused')

bug('C25-circle-g', 'C25',
    ('circle_2d.py', '{self._center} , {self._radius}', '{self._center} , {self._radius:.9g}'), '''
    from pyrusgeom.circle_2d import Circle2D
    from pyrusgeom.vector_2d import Vector2D
    assert '12345.678901' in str(Circle2D(Vector2D(0, 0), 12345.678901))
    ''', 'a radius of more than nine digits', 'the text is rounded')

bug('C17-short-ray', 'C17',
    ('polygon_2d.py', ' * 3.0', ' * 0.6'), '''
    from pyrusgeom.polygon_2d import Polygon2D
    from pyrusgeom.vector_2d import Vector2D
    V = Vector2D
    p = Polygon2D([V(0, 0), V(100, 0), V(100, 2), V(0, 2)])
    assert p.contains(V(0.5, 1))
    ''', 'a long flat polygon and a point near its left end and its first vertex', 'inner points are outside')

bug('C24-eq-or', 'C24',
    ('sector_2d.py', 'self._end == other.angle_right_end_()', '(self._end - other.angle_right_end_()).degree() < EPSILON'), '''
    from pyrusgeom.sector_2d import Sector2D
    from pyrusgeom.vector_2d import Vector2D
    V = Vector2D
    assert not Sector2D(V(0, 0), 0, 1, 0, 30) == Sector2D(V(0, 0), 0, 1, 0, 60)
    ''', 'an end angle right of the other', 'different sectors are equal')

bug('C20-inverse-int', 'C20',
    ('matrix_2d.py', 'if determinant == 0.0:', 'if int(determinant * 1e6) == 0:'), '''
    from pyrusgeom.matrix_2d import Matrix2D
    m = Matrix2D(0.0005, 0, 0, 0.0005, 0, 0).inverted()
    assert abs(m.m11() - 2000) < 1e-6, m
    ''', 'a determinant below a millionth', 'the inverse is the identity')

bug('C19-wrap-dist', 'C19',
    ('convex_hull.py', 'current_point.dist2(point_first) < current_point.dist2(point_second)', 'current_point.dist(point_first) < abs(current_point.x() - point_second.x())'), '''
    from pyrusgeom.convex_hull import ConvexHull
    from pyrusgeom.vector_2d import Vector2D
    V = Vector2D
    h = ConvexHull([V(0, 0), V(4, 0), V(4, 1), V(4, 3), V(0, 3)])
    h.compute()
    assert V(4, 1) not in h.vertices(), h.vertices()
    ''', 'collinear points on a vertical or slanted side', 'a vertex lies on an edge')

bug('C23-turn-reverse', 'C23',
    ('soccer_math.py', 'return turn_moment / (1.0 + inertia_moment * speed)', 'return turn_moment / max(1.0 + inertia_moment * speed, math.fabs(turn_moment) / 180.0)'), '''
    from pyrusgeom.soccer_math import effective_turn
    assert abs(effective_turn(200.0, 0.0, 5.0) - 200.0) < 1e-9
    ''', 'a moment beyond 180', 'the turn is limited')

bug('C22-rint-small', 'C22',
    ('soccer_math.py', 'if fi_left_diff < fi_right_diff:', 'if fi_left_diff < fi_right_diff and fi_og:'), '''
    from pyrusgeom.soccer_math import r_int
    assert r_int(-0.75) == -1
    ''', 'a number between -1 and -0.5', 'rounded up to 1')
# ---- sixth series
bug('C07-kwargs-negative-r', 'C07',
    ('vector_2d.py', "self.set_polar(kwargs['r'], kwargs['a'])", "self.set_polar(abs(kwargs['r']), kwargs['a'])"), '''
    from pyrusgeom.vector_2d import Vector2D
    assert Vector2D(r=-2, a=0).x() == Vector2D.from_polar(-2, 0).x()
    ''', 'a negative length as a keyword', 'the opposite vector')

bug('C01-normalize-static', 'C01',
    ('angle_deg.py', 'dir = dir % 360', 'dir = dir % 720'), '''
    from pyrusgeom.angle_deg import AngleDeg
    assert -180 <= AngleDeg.normalize_angle(1300) <= 180, AngleDeg.normalize_angle(1300)
    ''', 'the static form and a value beyond 540 modulo 720', 'not normalised')

bug('C08-error-steep', 'C08',
    ('line_2d.py', '''        if math.fabs(self._a) < EPSILON:
            return ERROR_VALUE''', '''        if math.fabs(self._a) < EPSILON * math.fabs(self._b):
            return ERROR_VALUE'''), '''
    from pyrusgeom.line_2d import Line2D
    assert abs(Line2D(0.5, 1.0e6, -1.0).get_x(0.0) - 2.0) < 1e-9
    ''', 'a large second and a small first coefficient', 'the error value on a line that is not horizontal')

bug('C11-farthest-near', 'C11',
    ('segment_2d.py', '        return math.sqrt(max(self._origin.dist2(point), self._terminal.dist2(point)))',
     '        return max(self._origin.dist(point), self._origin.dist(self._terminal) - self._origin.dist(point), self._terminal.dist(point) if self.contains(point) or not self._origin.equals_weakly(point) else 0.0)'), '''
    from pyrusgeom.segment_2d import Segment2D
    from pyrusgeom.vector_2d import Vector2D
    V = Vector2D
    s = Segment2D(V(0, 0), V(4, 0))
    p = V(-9e-7, -9e-7)
    assert abs(s.farthest_dist(p) - s.terminal().dist(p)) < 1e-9 and s.farthest_dist(p) > 4.0000008
    ''', 'a point within epsilon of the origin but outside the box', 'slightly too small')

bug('C20-mul-other', 'C20',
    ('matrix_2d.py', '        tdy = self._m21 * other.dxtf() + self._m22 * other.dytf() + self._dy', '        tdy = self._m21 * (tdx if other is self else other.dxtf()) + self._m22 * other.dytf() + self._dy'), '''
    from pyrusgeom.matrix_2d import Matrix2D
    m = Matrix2D(1, 2, 3, 4, 5, 6)
    n = Matrix2D(1, 2, 3, 4, 5, 6)
    a = m * m
    b = m * n
    m *= m
    assert m == b, (m, b)
    ''', 'multiplying a matrix by itself in place', 'a wrong translation')

bug('C24-center-origin', 'C24',
    ('sector_2d.py', 'rel = point - self._center', 'rel = point - self._center if self._center.r2() > 1.0e-4 else point'), '''
    from pyrusgeom.sector_2d import Sector2D
    from pyrusgeom.vector_2d import Vector2D
    V = Vector2D
    assert not Sector2D(V(0.009, 0), 0, 1, -90, 90).contains(V(0.005, 0))
    ''', 'a centre within a hundredth of the origin', 'points around the centre are misjudged')

bug('C02-equal-tolerant', 'C02',
    ('angle_deg.py', 'diff = angle.degree() - self._degree', 'diff = round(angle.degree() - self._degree, 3)'), '''
    from pyrusgeom.angle_deg import AngleDeg
    assert not AngleDeg(10.0004).is_left_equal_of(10)
    ''', 'directions less than half a thousandth apart', 'the or-equal order holds')

bug('C17-bbox-invalid', 'C17',
    ('polygon_2d.py', '        if len(self._vertices) == 1:\n            return allow_on_segment and', '        if len(self._vertices) <= 2:\n            return allow_on_segment and'), '''
    from pyrusgeom.polygon_2d import Polygon2D
    from pyrusgeom.vector_2d import Vector2D
    V = Vector2D
    assert Polygon2D([V(0, 0), V(2, 2)]).contains(V(1, 1))
    ''', 'a polygon of two vertices', 'points on it are not contained')

# --- seventh series: functions no earlier change touched -------------------------------
bug('C01-idiv-normal', 'C01',
    ('angle_deg.py', '        self._degree /= other\n        self.normal()', '        self._degree /= other\n        if math.fabs(other) <= 0.5:\n            self.normal()'), '''
    from pyrusgeom.angle_deg import AngleDeg
    a = AngleDeg(170)
    a /= 0.8
    assert -180 <= a.degree_() <= 180, a.degree_()
    ''', 'in-place division by a number between a half and one', 'the angle leaves the normal range')

bug('C06-add-zero', 'C06',
    ('angle_deg.py', '            new_angle_deg = AngleDeg(self._degree + other)', '            new_angle_deg = AngleDeg(self._degree + other) if other else self'), '''
    from pyrusgeom.angle_deg import AngleDeg
    a = AngleDeg(10)
    b = a + 0
    b += 5
    assert a.degree() == 10
    ''', 'adding the number zero and changing the sum', 'the sum is the operand itself')

bug('C05-idiv-reciprocal', 'C05',
    ('vector_2d.py', '        self._x /= other\n        self._y /= other', '        inverse = 1.0 / other\n        self._x *= inverse\n        self._y *= inverse'), '''
    from pyrusgeom.vector_2d import Vector2D
    v = Vector2D(49.0, 98.0)
    w = v / 49.0
    v /= 49.0
    assert v == w == Vector2D(1, 2), (v, w)
    ''', 'a divisor whose reciprocal is rounded', 'in-place division is not the division')

bug('C05-dist2-expanded', 'C05',
    ('vector_2d.py', '        return math.pow(self._x - other.x(), 2) + math.pow(self._y - other.y(), 2)', '        return math.fabs(self.r2() + other.r2() - 2.0 * self.inner_product(other))'), '''
    from pyrusgeom.vector_2d import Vector2D
    a, b = Vector2D(50000.001, 3), Vector2D(50000.003, 3)
    assert abs(a.dist(b) - 0.002) < 1e-6, a.dist(b)
    ''', 'two points close together and far from the origin', 'the distance is lost in cancellation')

bug('C04-set-length-short', 'C04',
    ('vector_2d.py', '        if mag > EPSILON:', '        if self.r2() > EPSILON:'), '''
    from pyrusgeom.vector_2d import Vector2D
    v = Vector2D(5e-4, 0)
    v.set_length(2)
    assert abs(v.r() - 2) < 1e-9, v
    ''', 'a vector shorter than a thousandth', 'its length is not set')

bug('C16-contains-tolerant', 'C16',
    ('triangle_2d.py', '''        if (outer1 >= 0.0 and outer2 >= 0.0 and
            outer3 >= 0.0) or (outer1 <= 0.0 and
                               outer2 <= 0.0 and outer3 <= 0.0):
            return True
        return False

    def centroid(''', '''        if (outer1 >= -1.0e-6 and outer2 >= -1.0e-6 and
            outer3 >= -1.0e-6) or (outer1 <= 0.0 and
                               outer2 <= 0.0 and outer3 <= 0.0):
            return True
        return False

    def centroid('''), '''
    from pyrusgeom.triangle_2d import Triangle2D
    from pyrusgeom.vector_2d import Vector2D
    V = Vector2D
    t = Triangle2D(V(0, 0), V(1e-3, 0), V(0, 1e-3))
    assert not t.contains(V(-5e-4, 0)) and not t.contains(V(7e-4, 7e-4))
    ''', 'a triangle of the size of a millimetre', 'it contains points outside')

bug('C19-wrap-tie', 'C19',
    ('convex_hull.py', '                elif (area < EPSILON and\n', '                elif (area < 1.0e-2 and\n'), '''
    from pyrusgeom.convex_hull import ConvexHull
    from pyrusgeom.vector_2d import Vector2D
    V = Vector2D
    h = ConvexHull([V(0, 0), V(1, -0.004), V(2, 0), V(1, 1)])
    h.compute()
    assert len(h.vertices()) == 4, h
    ''', 'a vertex that sticks out only a little', 'it is cut off')

bug('C12-circum-small', 'C12',
    ('circle_2d.py', 'if math.fabs(calc_area) < 1.0e-10:', 'if math.fabs(calc_area) < 1.0e-4:'), '''
    from pyrusgeom.circle_2d import Circle2D
    from pyrusgeom.vector_2d import Vector2D
    V = Vector2D
    assert Circle2D.circum_circle_contains(V(1e-3, 1e-3), V(0, 0), V(4e-3, 0), V(0, 4e-3))
    ''', 'three points less than a centimetre apart', 'nothing is inside their circle')

bug('C06-move-top-left-alias', 'C06',
    ('rect_2d.py', '        self._top_left = Vector2D(point)\n\n    def move_bottom_right', '        self._top_left = point\n\n    def move_bottom_right'), '''
    from pyrusgeom.rect_2d import Rect2D
    from pyrusgeom.vector_2d import Vector2D
    p = Vector2D(1, 2)
    r = Rect2D(0, 0, 3, 4)
    r.move_top_left(p)
    r.move_left(7)
    assert p == Vector2D(1, 2), p
    ''', 'moving the rectangle again after move_top_left', 'the given point moves along')

bug('C21-long-run', 'C21',
    ('soccer_math.py', '           ((1.0 - math.pow(decay, n_step)) / (1.0 - decay)))', '           ((1.0 - (math.pow(decay, n_step) if n_step < 60 else 0.0)) / (1.0 - decay)))'), '''
    from pyrusgeom.soccer_math import inertia_n_step_travel, inertia_n_step_distance
    from pyrusgeom.vector_2d import Vector2D
    assert abs(inertia_n_step_travel(Vector2D(1, 0), 80, 0.99).x() - inertia_n_step_distance(1, 80, 0.99)) < 1e-6
    ''', 'sixty steps or more', 'the object is taken to have stopped')

bug('C22-unq-min-half', 'C22',
    ('soccer_math.py', '    return (r_int(dist / qstep) - 0.5) * qstep', '    return (int(dist / qstep + 0.5) - 0.5) * qstep'), '''
    from pyrusgeom.soccer_math import unquantize_min
    assert abs(unquantize_min(-2.8, 1.0) - -3.5) < 1e-9, unquantize_min(-2.8, 1.0)
    ''', 'a negative quantity', 'the lower end is one step too high')

bug('C23-final-backward', 'C23',
    ('soccer_math.py', '    return (math.fabs(dash_power) * player_dash_power_rate * effort)', '    return (dash_power * player_dash_power_rate * effort)'), '''
    from pyrusgeom.soccer_math import final_speed
    assert final_speed(-50, 0.006, 1.0, 0.4) > 0
    ''', 'a backward dash', 'a negative speed')

bug('C24-circ-max-zero', 'C24',
    ('sector_2d.py', '        div = (self._end - self._start).degree_()\n        if div < 0.0:\n            div += 360.0\n        return (2.0 * self._max_r', '        div = (self._end - self._start).degree_()\n        if div <= 0.0:\n            div += 360.0\n        return (2.0 * self._max_r'), '''
    from pyrusgeom.sector_2d import Sector2D
    from pyrusgeom.vector_2d import Vector2D
    assert Sector2D(Vector2D(0, 0), 1, 2, 30, 30).get_circumference_max() == 0
    ''', 'a sector whose angles coincide', 'its outer arc is a whole circle')

bug('C25-seg-two-digits', 'C25',
    ('segment_2d.py', '{round(self.terminal().x(), 3)} {round(self.terminal().y(), 3)})', '{round(self.terminal().x(), 3)} {round(self.terminal().y(), 2)})'), '''
    from pyrusgeom.segment_2d import Segment2D
    assert '4.375' in Segment2D(1, 2, 3, 4.375).to_str('')
    ''', 'an ordinate with a third decimal', 'it is rounded away')

bug('C10-except-small', 'C10',
    ('segment_2d.py', '            other.terminal()) < 0.0) and (', '            other.terminal()) < -1.0e-10) and ('), '''
    from pyrusgeom.segment_2d import Segment2D
    a, b = Segment2D(-1e-3, -1e-3, 1e-3, 1e-3), Segment2D(-1e-3, 1e-3, 1e-3, -1e-3)
    assert a.exist_intersection_except_endpoint(b)
    ''', 'two segments of a few millimetres that cross', 'no crossing')

bug('C06-seg-assign-alias', 'C06',
    ('segment_2d.py', '''        # self.__init__(args)
        self._origin: Vector2D = Vector2D(0, 0)
        self._terminal: Vector2D = Vector2D(0, 0)
        if len(args) == 2:
            self._origin = Vector2D(args[0])
            self._terminal = Vector2D(args[1])
        elif len(args) == 3:
            self._origin = Vector2D(args[0])''', '''        # self.__init__(args)
        self._origin: Vector2D = Vector2D(0, 0)
        self._terminal: Vector2D = Vector2D(0, 0)
        if len(args) == 2:
            self._origin = Vector2D(args[0])
            self._terminal = Vector2D(args[1])
        elif len(args) == 3:
            self._origin = args[0]'''), '''
    from pyrusgeom.segment_2d import Segment2D
    from pyrusgeom.vector_2d import Vector2D
    p = Vector2D(1, 2)
    s = Segment2D()
    s.assign(p, 3, 90)
    p.set_x(50)
    assert s.origin() == Vector2D(1, 2), s
    ''', 'assigning point, length and direction, then changing the point', 'the segment changes along')

bug('C08-bisector-close', 'C08',
    ('line_2d.py', '        if (math.fabs(point2.x() - point1.x()) < EPSILON and\n                math.fabs(point2.y() - point1.y()) < EPSILON):', '        if (math.fabs(point2.x() - point1.x()) < 0.001 and\n                math.fabs(point2.y() - point1.y()) < 0.001):'), '''
    from pyrusgeom.line_2d import Line2D
    from pyrusgeom.vector_2d import Vector2D
    V = Vector2D
    l = Line2D.perpendicular_bisector(V(0, 0), V(8e-4, 0))
    assert abs(l.dist(V(4e-4, 5))) < 1e-9, l
    ''', 'two points less than a millimetre apart', 'the line through the first instead')

bug('C17-assign-short', 'C17',
    ('polygon_2d.py', '        if len(points) > 0:\n            self._vertices = points.copy()', '        if len(points) > 2:\n            self._vertices = points.copy()'), '''
    from pyrusgeom.polygon_2d import Polygon2D
    from pyrusgeom.vector_2d import Vector2D
    V = Vector2D
    p = Polygon2D([V(0, 0), V(4, 0), V(0, 4)])
    p.assign([V(1, 1), V(2, 2)])
    assert p.area() == 0 and len(p.vertices()) == 2
    ''', 'assigning two points', 'the old vertices stay')
