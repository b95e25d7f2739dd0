"""Argument kinds of every operation.

  n number   p positive   q non-negative   i small count 0..30   b bool
  D degrees (number)   A AngleDeg   a either   V Vector2D   W Vector2D, possibly invalid
  L Line2D  R Ray2D  S Segment2D  T Triangle2D  C Circle2D  K Sector2D
  Z Size2D  Q Rect2D  P Polygon2D  H ConvexHull  M Matrix2D  l list of points

  op: args [| args ...] [-> kind of the (object) result]
"""
TEXT = """
ang.new0: -> A
ang.new: D -> A
ang.newaf: D -> A
ang.newA: A -> A
ang.degree: A
ang.degree_: A
ang.float: A
ang.set_degree: A D
ang.set_angle: A A
ang.normal: A
ang.abs: A
ang.radian: A
ang.copy: A -> A
ang.reverse: A
ang.reverse_angle: A -> A
ang.get_normalized: A
ang.add: A a -> A
ang.sub: A a -> A
ang.mul: A m -> A
ang.floordiv: A d -> A
ang.neg: A -> A
ang.iadd: A a
ang.isub: A a
ang.imul: A m
ang.itruediv: A d
ang.normalize_angle: D
ang.eq: A A | A e
ang.is_left_of: A a
ang.is_right_of: A a
ang.is_left_equal_of: A a
ang.is_right_equal_of: A a
ang.is_within: A a a
ang.bisect: a a -> A
ang.cos: A
ang.sin: A
ang.tan: A
ang.rad2deg: n
ang.deg2rad: D
ang.cos_deg: D
ang.sin_deg: D
ang.tan_deg: D
ang.acos_deg: u
ang.asin_deg: u
ang.atan_deg: n
ang.atan2_deg: n n

vec.new0: -> V
vec.new: n n -> V
vec.newxy: n n -> V
vec.newra: n a -> V
vec.newV: W -> V
vec.copy: W -> V
vec.get_copy: W -> V
vec.from_polar: n a -> V
vec.polar2vector: n a -> V
vec.x: V
vec.get_x: V
vec.y: V
vec.get_y: V
vec.is_valid: W
vec.validate: W
vec.invalidate: V
vec.invalid: -> V
vec.assign: V n n
vec.set_x: V n
vec.set_y: V n
vec.set_x_y: V n n
vec.set_vector: V W
vec.set_polar: V n a
vec.add: V V | V n n
vec.sub: V V | V n n
vec.add_x: V n
vec.add_y: V n
vec.sub_x: V n
vec.sub_y: V n
vec.scale: V m
vec.reverse: V
vec.reverse_vector: V -> V
vec.abs: V -> V
vec.abs_x: V
vec.abs_y: V
vec.r: V
vec.length: V
vec.r2: V
vec.length2: V
vec.th: V -> A
vec.dir: V -> A
vec.dist: V V
vec.dist2: V V
vec.inner_product: V V
vec.outer_product: V V
vec.inner_product_static: V V
vec.outer_product_static: V V
vec.equals: V V
vec.eq: V V
vec.ne: V V
vec.eq_other: V o
vec.hash_eq: V V
vec.equals_weakly: V V
vec.rotate: V a
vec.rotated_vector: V a -> V
vec.set_dir: V a
vec.set_length: V n
vec.set_length_vector: V n -> V
vec.normalize: V
vec.normalize_vector: V -> V
vec.plus: V V -> V
vec.minus: V V -> V
vec.times: V m -> V
vec.over: V d -> V
vec.iadd: V V
vec.isub: V V
vec.imul: V m
vec.itruediv: V d

line.new: n n n -> L
line.newabc: n n n -> L
line.newPP: V V -> L
line.newpp: V V -> L
line.newPA: V a -> L
line.newpa: V a -> L
line.newL: L -> L
line.newl: L -> L
line.copy: L -> L
line.a: L
line.b: L
line.c: L
line.get_x: L n
line.get_y: L n
line.dist: L V
line.dist2: L V
line.is_parallel: L L
line.intersection: L L -> V
line.line_intersection: L L -> V
line.perpendicular: L V -> L
line.projection: L V -> V
line.angle_bisector: V A A -> L
line.perpendicular_bisector: V V -> L
line.eq: L L

ray.newA: V a -> R
ray.newV: V V -> R
ray.origin: R -> V
ray.origin_: R
ray.dir: R -> A
ray.dir_: R
ray.copy: R -> R
ray.line: R -> L
ray.in_right_dir: R V | R V t
ray.intersectionL: R L -> V
ray.intersectionR: R R -> V
ray.eq: R R
ray.live_origin: R n n
ray.peek_origin: R n n
ray.live_dir: R D
ray.peek_dir: R D

seg.new0: -> S
seg.newPP: W W -> S
seg.newPLA: V n a -> S
seg.new4: n n n n -> S
seg.assign0: S
seg.assignPP: S V V
seg.assignPLA: S V n a
seg.assign4: S n n n n
seg.is_valid: S
seg.origin: S -> V
seg.origin_: S
seg.terminal: S -> V
seg.terminal_: S
seg.copy: S -> S
seg.length: S
seg.line: S -> L
seg.direction: S -> A
seg.swap: S
seg.reverse: S
seg.reversed_segment: S -> S
seg.perpendicular_bisector: S -> L
seg.contains: S V
seg.eq: S S
seg.equals_weakly: S S
seg.nearest_point: S V -> V
seg.distP: S V
seg.distS: S S
seg.farthest_dist: S V
seg.projection: S V -> V
seg.on_segment: S V
seg.on_segment_weakly: S V
seg.check_intersects_on_line: S V
seg.exist_intersectionS: S S
seg.exist_intersectionL: S L
seg.exist_intersection_except_endpoint: S S
seg.intersects_except_endpoint: S S
seg.intersectionL: S L -> V
seg.intersectionS: S S | S S b -> V
seg.live_origin: S n n
seg.peek_origin: S n n
seg.live_terminal: S n n
seg.peek_terminal: S n n
seg.peek_line: S n n

tri.new3: W W W -> T
tri.newSP: S W -> T
tri.assign3: T V V V
tri.assignSP: T S V
tri.a: T -> V
tri.b: T -> V
tri.c: T -> V
tri.a_: T
tri.b_: T
tri.c_: T
tri.is_valid: T
tri.area: T
tri.signed_area: T
tri.double_signed_area: T
tri.signed_area_st: V V V
tri.double_signed_area_st: V V V
tri.ccw: T
tri.tri_ccw: V V V
tri.contains: T V
tri.tri_contains: V V V V
tri.centroid: T -> V
tri.circumcenter: T -> V
tri.orthocenter: T -> V
tri.incenter: T -> V
tri.tri_centroid: V V V -> V
tri.tri_circumcenter: V V V -> V
tri.tri_orthocenter: V V V -> V
tri.tri_incenter: V V V -> V
tri.intersectionL: T L
tri.intersectionR: T R
tri.intersectionS: T S
tri.live_a: T n n
tri.peek_a: T n n
tri.live_b: T n n
tri.peek_b: T n n
tri.live_c: T n n
tri.peek_c: T n n

circ.new0: -> C
circ.new: V n -> C
circ.assign: C V n
circ.center: C -> V
circ.center_: C
circ.radius: C
circ.area: C
circ.contains: C V
circ.intersectionL: C L
circ.intersectionR: C R
circ.intersectionS: C S
circ.intersectionC: C C
circ.intersection_with_line: C L
circ.intersection_with_ray: C R
circ.intersection_with_segment: C S
circ.intersection_with_circle: C C
circ.circum_circle: V V V -> C
circ.circum_circle_contains: V V V V
circ.quadratic_f: n n n
circ.live_center: C n n
circ.peek_center: C n n

sect.new: V q p a a -> K
sect.assign: K V q p a a
sect.center: K -> V
sect.center_: K
sect.radius_min: K
sect.radius_max: K
sect.angle_left_start: K -> A
sect.angle_left_start_: K
sect.angle_right_end: K -> A
sect.angle_right_end_: K
sect.area: K
sect.get_circumference_min: K
sect.get_circumference_max: K
sect.contains: K V
sect.eq: K K
sect.live_center: K n n
sect.peek_center: K n n
sect.live_start: K D
sect.peek_start: K D
sect.live_end: K D
sect.peek_end: K D

size.new0: -> Z
size.new: n n -> Z
size.assign: Z n n
size.set_length: Z n
size.set_width: Z n
size.length: Z
size.width: Z
size.diagonal: Z
size.is_valid: Z
size.eq: Z Z

rect.new4: n n n n -> Q
rect.newVLW: V n n -> Q
rect.newVS: V Z -> Q
rect.newVV: V V -> Q
rect.newR: Q -> Q
rect.assign4: Q n n n n
rect.assignVLW: Q V n n
rect.assignVS: Q V Z
rect.assignVV: Q V V
rect.assignR: Q Q
rect.from_center4: n n n n -> Q
rect.from_centerV: V n n -> Q
rect.move_center: Q V
rect.move_top_left: Q V
rect.move_bottom_right: Q V
rect.move_left: Q n
rect.move_min_x: Q n
rect.move_right: Q n
rect.move_max_x: Q n
rect.move_top: Q n
rect.move_min_y: Q n
rect.move_bottom: Q n
rect.move_max_y: Q n
rect.set_left: Q n
rect.set_min_x: Q n
rect.set_right: Q n
rect.set_max_x: Q n
rect.set_top: Q n
rect.set_min_y: Q n
rect.set_bottom: Q n
rect.set_max_y: Q n
rect.set_top_left: Q V | Q n n
rect.set_bottom_right: Q V | Q n n
rect.set_length: Q n
rect.set_width: Q n
rect.set_size2: Q n n
rect.set_sizeS: Q Z
rect.is_valid: Q
rect.area: Q
rect.left: Q
rect.min_x: Q
rect.right: Q
rect.max_x: Q
rect.top: Q
rect.min_y: Q
rect.bottom: Q
rect.max_y: Q
rect.size: Q -> Z
rect.size_: Q
rect.center: Q -> V
rect.top_left: Q -> V
rect.top_left_: Q
rect.top_right: Q -> V
rect.bottom_left: Q -> V
rect.bottom_right: Q -> V
rect.left_edge: Q -> L
rect.right_edge: Q -> L
rect.top_edge: Q -> L
rect.bottom_edge: Q -> L
rect.contains: Q V
rect.contains_almost: Q V q
rect.intersected: Q Q -> Q
rect.united: Q Q -> Q
rect.intersectionL: Q L
rect.intersectionR: Q R
rect.intersectionS: Q S
rect.live_top_left: Q n n
rect.peek_top_left: Q n n
rect.live_size: Q n n
rect.peek_size: Q n n
rect.peek_corner: Q n n

ang.text: A
ang.text_repr: A
vec.text: V
vec.text_repr: V
line.text: L
line.text_repr: L
ray.text: R
ray.text_repr: R
seg.text: S
seg.text_repr: S
tri.text: T
tri.text_repr: T
circ.text: C
circ.text_repr: C
sect.text: K
sect.text_repr: K
size.text: Z
size.text_repr: Z
rect.text: Q
rect.text_repr: Q
poly.text: P
poly.text_repr: P
hull.text: H
hull.text_repr: H
mat.text: M
mat.text_repr: M
seg.to_str: S
tri.to_str: T
circ.to_str: C
rect.to_str: Q

poly.new0: -> P
poly.newL: l -> P
poly.newV: V | V V | V V V | V V V V -> P
poly.clear: P
poly.assign: P l
poly.add_vertex: P V
poly.vertices: P
poly.vertices_: P
poly.get_bounding_box: P -> Q
poly.bounding_box_center: P -> V
poly.contains: P V | P V b
poly.dist: P V | P V b
poly.area: P
poly.double_signed_area: P
poly.is_counter_clockwise: P
poly.is_clockwise: P
poly.get_rectangle_clipped_polygon: P Q -> P
poly.clip_x_le: l n
poly.side_x_le: n V
poly.thr_x_le: n
poly.clip_x_ge: l n
poly.side_x_ge: n V
poly.thr_x_ge: n
poly.clip_y_le: l n
poly.side_y_le: n V
poly.thr_y_le: n
poly.clip_y_ge: l n
poly.side_y_ge: n V
poly.thr_y_ge: n
poly.live_vertices: P V
poly.peek_vertices: P V

hull.new: l -> H
hull.get_min_point_index: H
hull.sorted_from_min: H
hull.add_point: H V
hull.add_points: H l
hull.clear: H
hull.clear_results: H
hull.compute: H
hull.computeW: H
hull.computeG: H
hull.compute_wrapping_method: H
hull.compute_graham_scan: H
hull.input_points: H
hull.input_points_: H
hull.vertices: H
hull.vertices_: H
hull.edges: H
hull.edges_: H
hull.to_polygon: H -> P
hull.list2set: l
hull.is_clockwise: V V V
hull.live_inputs: H V
hull.peek_inputs: H V
hull.peek_vertices: H V
hull.peek_edges: H S

mat.new0: -> M
mat.new6: n n n n n n -> M
mat.reset: M
mat.assign: M n n n n n n
mat.m11: M
mat.m12: M
mat.m21: M
mat.m22: M
mat.dxtf: M
mat.dytf: M
mat.det: M
mat.invertible: M
mat.inverted: M -> M
mat.translate: M n n
mat.scale: M m m
mat.rotate: M A
mat.transformV: M V -> V
mat.transformXY: M n n -> V
mat.transform_vec: M V
mat.make_translation: n n -> M
mat.make_scaling: n n -> M
mat.make_rotation: A -> M
mat.mulM: M M -> M
mat.mulV: M V -> V
mat.imul: M M
mat.eq: M M
"""

SIG, RES = {}, {}
for _line in TEXT.splitlines():
    if ':' not in _line:
        continue
    _op, _rest = _line.split(':', 1)
    _rest, _, _res = _rest.partition('->')
    SIG[_op] = [tuple(v.split()) for v in _rest.split('|')]
    if _res.strip():
        RES[_op] = _res.strip()

MUT = set()
_PRE = ('set_', 'move_', 'assign', 'add', 'sub', 'live_', 'clear', 'compute')
for _op in SIG:
    _c, _m = _op.split('.')
    if _m in ('validate', 'invalidate', 'scale', 'reverse', 'rotate', 'normalize', 'iadd', 'isub', 'imul', 'itruediv',
              'normal', 'swap', 'reset', 'translate') or (_m.startswith(_PRE) and not _m.endswith('_vector')
                                                          and _op not in ('ang.add', 'ang.sub')):
        MUT.add(_op)
MUT.add('vec.set_vector')
