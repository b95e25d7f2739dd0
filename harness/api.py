"""The public operations of the library, one entry per call form, named as in
the specification (class.method).  Each takes the real objects in the order of
the specification's argument tuple."""
import operator
import re
from codec import (AngleDeg, Vector2D, Line2D, Ray2D, Segment2D, Triangle2D, Circle2D, Sector2D, Size2D,
                   Rect2D, Polygon2D, ConvexHull, Matrix2D)
import pyrusgeom.soccer_math as sm
import pyrusgeom.convex_hull as chm
import pyrusgeom.circle_2d as c2m
import pyrusgeom.polygon_2d as p2m

OPS = {}


def _method(name):
    return lambda o, *a: getattr(o, name)(*a)


def methods(cls, *names):
    for n in names:
        OPS[cls + '.' + n] = _method(n)


def op(name, f):
    OPS[name] = f


def _static(klass, name):
    return lambda *a: getattr(klass, name)(*a)


def statics(cls, klass, *names):
    for n in names:
        OPS[cls + '.' + n] = _static(klass, n)


def inplace(cls, names):
    for n in names:
        OPS[cls + '.' + n] = getattr(operator, n)


# --- AngleDeg
op('ang.new0', lambda: AngleDeg())
op('ang.new', lambda d: AngleDeg(d))
op('ang.newaf', lambda d: AngleDeg(af=d))
op('ang.newA', lambda a: AngleDeg(a))
op('ang.bad', lambda *a: AngleDeg(*a))
op('ang.float', lambda a: float(a))
methods('ang', 'degree', 'degree_', 'set_degree', 'set_angle', 'normal', 'abs', 'radian', 'copy', 'reverse',
        'reverse_angle', 'get_normalized', 'is_left_of', 'is_right_of', 'is_left_equal_of', 'is_right_equal_of',
        'is_within', 'cos', 'sin', 'tan')
inplace('ang', ['iadd', 'isub', 'imul', 'itruediv', 'add', 'sub', 'mul', 'neg', 'eq', 'floordiv'])
statics('ang', AngleDeg, 'rad2deg', 'deg2rad', 'cos_deg', 'sin_deg', 'tan_deg', 'acos_deg', 'asin_deg', 'atan_deg',
        'atan2_deg', 'bisect', 'normalize_angle')

# --- Vector2D
op('vec.new0', lambda: Vector2D())
op('vec.new', lambda x, y: Vector2D(x, y))
op('vec.newxy', lambda x, y: Vector2D(x=x, y=y))
op('vec.newra', lambda r, a: Vector2D(r=r, a=a))
op('vec.newV', lambda v: Vector2D(v))
op('vec.bad', lambda *a: Vector2D(*a))
methods('vec', 'copy', 'get_copy', 'x', 'get_x', 'y', 'get_y', 'is_valid', 'validate', 'invalidate', 'assign', 'set_x',
        'set_y', 'set_x_y', 'set_vector', 'set_polar', 'add', 'sub', 'add_x', 'add_y', 'sub_x', 'sub_y', 'scale',
        'reverse', 'reverse_vector', 'abs', 'abs_x', 'abs_y', 'r', 'length', 'r2', 'length2', 'th', 'dir', 'dist',
        'dist2', 'inner_product', 'outer_product', 'equals', 'equals_weakly', 'rotate', 'rotated_vector', 'set_dir',
        'set_length', 'set_length_vector', 'normalize', 'normalize_vector')
statics('vec', Vector2D, 'from_polar', 'polar2vector', 'inner_product_static', 'outer_product_static', 'invalid')
inplace('vec', ['iadd', 'isub', 'imul', 'itruediv', 'eq', 'ne'])
op('vec.plus', operator.add)
op('vec.minus', operator.sub)
op('vec.times', operator.mul)
op('vec.over', operator.truediv)
op('vec.eq_other', lambda v, o: v == o)
op('vec.hash_eq', lambda v, w: hash(v) == hash(w))

# --- Line2D / Ray2D
op('line.new', lambda a, b, c: Line2D(a, b, c))
op('line.newabc', lambda a, b, c: Line2D(a=a, b=b, c=c))
op('line.newPP', lambda p, q: Line2D(p, q))
op('line.newpp', lambda p, q: Line2D(p1=p, p2=q))
op('line.newPA', lambda p, a: Line2D(p, a))
op('line.newpa', lambda p, a: Line2D(p=p, a=a))
op('line.newL', lambda l: Line2D(l))
op('line.newl', lambda l: Line2D(l=l))
op('line.bad', lambda *a: Line2D(*a))
methods('line', 'copy', 'a', 'b', 'c', 'get_x', 'get_y', 'dist', 'dist2', 'is_parallel', 'intersection',
        'perpendicular', 'projection')
statics('line', Line2D, 'line_intersection', 'angle_bisector', 'perpendicular_bisector')
inplace('line', ['eq'])
op('ray.newA', lambda o, a: Ray2D(o, a))
op('ray.newV', lambda o, p: Ray2D(o, p))
op('ray.bad', lambda *a: Ray2D(*a))
methods('ray', 'origin', 'origin_', 'dir', 'dir_', 'copy', 'line', 'in_right_dir')
op('ray.intersectionL', lambda r, l: r.intersection(l))
op('ray.intersectionR', lambda r, l: r.intersection(l))
inplace('ray', ['eq'])

# --- Segment2D
op('seg.new0', lambda: Segment2D())
op('seg.newPP', lambda p, q: Segment2D(p, q))
op('seg.newPLA', lambda p, l, a: Segment2D(p, l, a))
op('seg.new4', lambda a, b, c, d: Segment2D(a, b, c, d))
op('seg.bad', lambda *a: Segment2D(*a))
for _n in ('assign0', 'assignPP', 'assignPLA', 'assign4'):
    op('seg.' + _n, lambda s, *a: s.assign(*a))
methods('seg', 'is_valid', 'origin', 'origin_', 'terminal', 'terminal_', 'copy', 'length', 'line', 'direction', 'swap',
        'reverse', 'reversed_segment', 'perpendicular_bisector', 'contains', 'equals_weakly', 'nearest_point',
        'farthest_dist', 'projection', 'on_segment', 'on_segment_weakly', 'check_intersects_on_line',
        'exist_intersection_except_endpoint', 'intersects_except_endpoint')
op('seg.distP', lambda s, p: s.dist(p))
op('seg.distS', lambda s, p: s.dist(p))
op('seg.exist_intersectionS', lambda s, p: s.exist_intersection(p))
op('seg.exist_intersectionL', lambda s, p: s.exist_intersection(p))
op('seg.intersectionL', lambda s, p: s.intersection(p))
op('seg.intersectionS', lambda s, *a: s.intersection(*a))
inplace('seg', ['eq'])

# --- Triangle2D
op('tri.new3', lambda a, b, c: Triangle2D(a, b, c))
op('tri.newSP', lambda s, p: Triangle2D(s, p))
op('tri.assign3', lambda t, *a: t.assign(*a))
op('tri.assignSP', lambda t, *a: t.assign(*a))
op('tri.bad', lambda *a: Triangle2D(*a))
methods('tri', 'a', 'b', 'c', 'a_', 'b_', 'c_', 'is_valid', 'area', 'signed_area', 'double_signed_area', 'ccw',
        'contains', 'centroid', 'circumcenter', 'orthocenter', 'incenter')
statics('tri', Triangle2D, 'signed_area_st', 'double_signed_area_st', 'tri_ccw', 'tri_contains', 'tri_centroid',
        'tri_circumcenter', 'tri_orthocenter', 'tri_incenter')
for _n in 'LRS':
    op('tri.intersection' + _n, lambda t, o: t.intersection(o))

# --- Circle2D / Sector2D
op('circ.new0', lambda: Circle2D())
op('circ.new', lambda c, r: Circle2D(c, r))
methods('circ', 'assign', 'center', 'center_', 'radius', 'area', 'contains', 'intersection_with_line',
        'intersection_with_ray', 'intersection_with_segment', 'intersection_with_circle')
for _n in 'LRSC':
    op('circ.intersection' + _n, lambda t, o: t.intersection(o))
statics('circ', Circle2D, 'circum_circle', 'circum_circle_contains')
op('circ.quadratic_f', lambda a, b, c: c2m.quadratic_f(a, b, c))
op('sect.new', lambda *a: Sector2D(*a))
methods('sect', 'assign', 'center', 'center_', 'radius_min', 'radius_max', 'angle_left_start', 'angle_left_start_',
        'angle_right_end', 'angle_right_end_', 'area', 'get_circumference_min', 'get_circumference_max', 'contains')
inplace('sect', ['eq'])

# --- Size2D / Rect2D
op('size.new0', lambda: Size2D())
op('size.new', lambda a, b: Size2D(a, b))
methods('size', 'assign', 'set_length', 'set_width', 'length', 'width', 'diagonal', 'is_valid')
inplace('size', ['eq'])
for _n in ('new4', 'newVLW', 'newVS', 'newVV', 'newR', 'bad'):
    op('rect.' + _n, lambda *a: Rect2D(*a))
for _n in ('assign4', 'assignVLW', 'assignVS', 'assignVV', 'assignR'):
    op('rect.' + _n, lambda r, *a: r.assign(*a))
op('rect.from_center4', lambda *a: Rect2D.from_center(*a))
op('rect.from_centerV', lambda *a: Rect2D.from_center(*a))
methods('rect', 'move_center', 'move_top_left', 'move_bottom_right', 'move_left', 'move_min_x', 'move_right',
        'move_max_x', 'move_top', 'move_min_y', 'move_bottom', 'move_max_y', 'set_left', 'set_min_x', 'set_right',
        'set_max_x', 'set_top', 'set_min_y', 'set_bottom', 'set_max_y', 'set_top_left', 'set_bottom_right',
        'set_length', 'set_width', 'is_valid', 'area', 'left', 'min_x', 'right', 'max_x', 'top', 'min_y', 'bottom',
        'max_y', 'size', 'size_', 'center', 'top_left', 'top_left_', 'top_right', 'bottom_left', 'bottom_right',
        'left_edge', 'right_edge', 'top_edge', 'bottom_edge', 'contains', 'contains_almost', 'intersected', 'united')
op('rect.set_size2', lambda r, *a: r.set_size(*a))
op('rect.set_sizeS', lambda r, *a: r.set_size(*a))
for _n in 'LRS':
    op('rect.intersection' + _n, lambda t, o: t.intersection(o))

# --- Polygon2D / ConvexHull
op('poly.new0', lambda: Polygon2D())
op('poly.newL', lambda v: Polygon2D(v))
op('poly.newV', lambda *v: Polygon2D(*v))
methods('poly', 'clear', 'assign', 'add_vertex', 'vertices', 'vertices_', 'get_bounding_box', 'bounding_box_center',
        'contains', 'dist', 'area', 'double_signed_area', 'is_counter_clockwise', 'is_clockwise',
        'get_rectangle_clipped_polygon')


def _clip(side, vertical):
    def f(points, k):
        line = Line2D(Vector2D(k, 0.0), AngleDeg(90.0)) if vertical else Line2D(Vector2D(0.0, k), AngleDeg(0.0))
        return Polygon2D.get_line_clipped_polygon(side(k), points, line)
    return f


for _n, _s in (('x_le', p2m.XLessEqual), ('x_ge', p2m.XMoreEqual), ('y_le', p2m.YLessEqual), ('y_ge', p2m.YMoreEqual)):
    op('poly.clip_' + _n, _clip(_s, _n[0] == 'x'))
    op('poly.side_' + _n, lambda k, p, s=_s: s(k)(p))
    op('poly.thr_' + _n, lambda k, s=_s: s(k).thr())
op('hull.new', lambda v: ConvexHull(v))
op('hull.computeW', lambda h: h.compute(chm.MethodType.WRAPPING_METHOD))
op('hull.computeG', lambda h: h.compute(chm.MethodType.GRAHAN_SCAN))
methods('hull', 'add_point', 'add_points', 'clear', 'clear_results', 'compute', 'compute_wrapping_method',
        'compute_graham_scan', 'input_points', 'input_points_', 'vertices', 'vertices_', 'edges', 'edges_',
        'to_polygon')
methods('hull', 'get_min_point_index')
op('hull.sorted_from_min', lambda h: h.sort_points_angle_from(h.get_min_point_index()) if h.input_points() else [])
op('hull.list2set', lambda v: chm.list2set(v))
op('hull.is_clockwise', lambda a, b, c: chm.is_clockwise(a, b, c))

# --- Matrix2D
op('mat.new0', lambda: Matrix2D())
op('mat.new6', lambda *a: Matrix2D(*a))
methods('mat', 'reset', 'assign', 'm11', 'm12', 'm21', 'm22', 'dxtf', 'dytf', 'det', 'invertible', 'inverted',
        'translate', 'scale', 'rotate', 'transform_vec')
op('mat.transformV', lambda m, v: m.transform(v))
op('mat.transformXY', lambda m, x, y: m.transform(x, y))
statics('mat', Matrix2D, 'make_translation', 'make_scaling', 'make_rotation')
op('mat.mulM', operator.mul)
op('mat.mulV', operator.mul)
inplace('mat', ['imul', 'eq'])

# --- soccer_math
for _n in ('kick_rate', 'dir_rate', 'effective_turn', 'final_speed', 'can_over_speed_max', 'wind_effect',
           'inertia_n_step_travel', 'inertia_n_step_point', 'inertia_n_step_distance', 'inertia_final_travel',
           'inertia_final_point', 'inertia_final_distance', 'calc_length_geom_series', 'calc_first_term_geom_series',
           'r_int', 'quantize', 'quantize_dist', 'unquantize_min', 'unquantize_max', 'unquantize_error', 'bound',
           'min_max'):
    OPS['soc.' + _n] = _static(sm, _n)


def _take(it):
    out = []
    for x in it:
        out.append(x)
        if len(out) > 5000:
            raise RuntimeError('endless range')
    return out


for _n in ('f_range1', 'f_range2', 'f_range3'):
    op('soc.' + _n, lambda *a: _take(sm.f_range(*a)))

# --- writing through accessors
def _xy(get):
    return lambda o, x, y: getattr(o, get)().assign(x, y) and None


def _deg(get):
    return lambda o, d: getattr(o, get)().set_degree(d)


for _c, _k, _n in (('seg', 'origin', 'origin'), ('seg', 'terminal', 'terminal'), ('tri', 'a', 'a'), ('tri', 'b', 'b'),
                   ('tri', 'c', 'c'), ('circ', 'center', 'center'), ('sect', 'center', 'center'),
                   ('ray', 'origin', 'origin'), ('rect', 'top_left', 'top_left'), ('rect', 'size', 'size')):
    op('%s.live_%s' % (_c, _k), _xy(_n + '_'))
    op('%s.peek_%s' % (_c, _k), _xy(_n))
op('ray.live_dir', _deg('dir_'))
op('ray.peek_dir', _deg('dir'))
op('sect.live_start', _deg('angle_left_start_'))
op('sect.peek_start', _deg('angle_left_start'))
op('sect.live_end', _deg('angle_right_end_'))
op('sect.peek_end', _deg('angle_right_end'))
op('poly.live_vertices', lambda p, v: p.vertices_().append(v))
op('poly.peek_vertices', lambda p, v: p.vertices().append(v))
op('hull.live_inputs', lambda p, v: p.input_points_().append(v))
op('hull.peek_inputs', lambda p, v: p.input_points().append(v))
op('hull.peek_vertices', lambda p, v: p.vertices().append(v))
op('hull.peek_edges', lambda p, v: p.edges().append(v))
op('rect.peek_corner', lambda r, x, y: [c().assign(x, y) for c in (r.center, r.top_right, r.bottom_left,
                                                                    r.bottom_right)] and None)
op('seg.peek_line', lambda s, x, y: [p.assign(x, y) for p in (s.nearest_point(s.origin()), s.nearest_point(s.terminal()),
                                                               s.projection(s.origin()), s.projection(s.terminal()))] and None)

# --- text: the numbers that can be read back from it, in order
_NUMBER = re.compile(r'(?<![\w.])[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?(?![\w.])')


def _numbers(text):
    if not isinstance(text, str):
        return text
    return [float(x) if re.search('[.eE]', x) else int(x) for x in _NUMBER.findall(text)]


def _append(o):
    text = o.to_str('ab 7 ')
    if isinstance(text, str) and not text.startswith('ab 7 '):
        return False                                    # the given text is lost
    return _numbers(text[5:]) if isinstance(text, str) else text


for _c in ('ang', 'vec', 'line', 'ray', 'seg', 'tri', 'circ', 'sect', 'size', 'rect', 'poly', 'hull', 'mat'):
    op(_c + '.text', lambda o: _numbers(str(o)))
    op(_c + '.text_repr', lambda o: _numbers(repr(o)))
for _c in ('seg', 'tri', 'circ', 'rect'):
    op(_c + '.to_str', _append)

# --- unsupported argument combinations
op('ang.bad_kw', lambda k, *a: AngleDeg(**dict(zip(k.split(), a))))
op('vec.bad_kw', lambda k, *a: Vector2D(**dict(zip(k.split(), a))))
op('line.bad_kw', lambda k, *a: Line2D(**dict(zip(k.split(), a))))
op('vec.bad_add', lambda v, *a: v.add(*a))
op('ray.bad_intersection', lambda r, o: r.intersection(o))
op('seg.bad_dist', lambda s, o: s.dist(o))
op('rect.bad_intersection', lambda r, o: r.intersection(o))
op('circ.bad_intersection', lambda r, o: r.intersection(o))
op('rect.bad_size', lambda r, *a: r.set_size(*a))
op('rect.bad_center', lambda *a: Rect2D.from_center(*a))
op('mat.bad_transform', lambda m, *a: m.transform(*a))
