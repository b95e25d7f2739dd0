"""Writes properties.jsonl (kept as a script so that the long lines stay readable)."""
import json, os
S = 'src/pyrusgeom/'
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append({'id': id, 'title': title, 'statement': ' '.join(statement.split()),
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': [S + f for f in files],
                          'state': [{'name': n, 'meaning': m, 'where': S + w} for n, m, w in state],
                          'mechanism': [{'name': n, 'where': S + w} for n, w in mech],
                          'observe_at': list(observe), 'hook_needed': None}})


p('C01', 'Angles stay normalised and exact modulo 360 under every history of operations',
  '''Whatever sequence of constructions, copies, assignments, additions, subtractions, multiplications, in-place
  operations, reversals and negations produced an angle, its degree lies in [-180, 180] and is congruent modulo 360 to
  the mathematical result of that sequence. Reading it (degrees, radians, absolute value, float conversion, the [0, 1]
  normalised form, equality) reports exactly that value, non-mutating operators leave both operands as they were, and
  mutating ones change only their receiver.''',
  ['inputs', 'histories'], 'every finite degree value and every history of operations on any number of angle objects',
  'Tests check a dozen fixed angles and single operations; wrap-around can fail at any history that crosses +-180 or at large magnitudes.',
  ['angle_deg.py'], [('normal', 'angle_deg.py: AngleDeg.normal'), ('arithmetic operators', 'angle_deg.py: AngleDeg.__add__ ... __itruediv__')],
  [('degree', 'the stored degree', 'angle_deg.py: AngleDeg._degree')], ['AngleDeg.degree()', 'AngleDeg.radian()', 'AngleDeg.get_normalized()'])
p('C02', 'Angular order and the within-arc test agree with the circle',
  '''For two directions more than rounding apart, an angle is left of another exactly when turning from it to the other in
  increasing degrees takes more than 0 and less than 180 degrees, right of it exactly when the other is left of it, and the
  or-equal forms also hold for equal angles. A direction is within [left, right] exactly when it lies on the arc from left to
  right in increasing degrees, both ends included, wherever that arc crosses the +-180 seam and however long it is. (-180 and
  180 as two spellings of one direction are outside this statement.)''',
  ['inputs'], 'every pair and triple of directions, given as angle objects or as numbers',
  'The order is not transitive and has seams at 0 and 180; tests sample a few pairs away from the seams.',
  ['angle_deg.py'], [('is_left_of / is_right_of / is_left_equal_of / is_right_equal_of', 'angle_deg.py'), ('is_within', 'angle_deg.py: AngleDeg.is_within')])
p('C03', 'Bisectors are half-way along the right arc',
  '''The bisect of a left and a right direction is equally far from both and lies half-way along the arc from
  right to left in increasing degrees (bisect of 30 and 0 is 15, of 0 and 30 is -165), for every pair that is neither equal nor opposite, including arcs longer than 180 degrees and arcs that cross the +-180 seam. The angle
  bisector line of an origin and two directions passes through the origin along the mean of the two directions (as an undirected line),
  and no argument is changed.''',
  ['inputs'], 'every pair of directions, as angle objects or numbers, and every origin',
  'Whether the halved sum must be reversed depends on the order of the pair on the circle; tests sample a handful of pairs.',
  ['angle_deg.py', 'line_2d.py'], [('bisect', 'angle_deg.py: AngleDeg.bisect'), ('angle_bisector', 'line_2d.py: Line2D.angle_bisector')])
p('C04', 'Polar form, rotation and degree trigonometry are mutually consistent',
  '''A vector built or set from a length and a direction has the coordinates (r cos, r sin); the direction of a vector is
  the direction it points in; rotating keeps the length and adds the angle; setting a direction keeps the length; setting a
  length or normalising keeps the direction (a vector of negligible length is left as it is), each to floating point
  accuracy. The degree-based sine, cosine, tangent and their inverses and the degree/radian conversions equal the
  mathematical functions; arc sine and arc cosine clamp outside [-1, 1] and the arc tangent of the zero vector is 0.
  Forms returning a new vector leave the original alone, in-place forms change only their receiver.''',
  ['inputs', 'histories'], 'all vectors, lengths, directions (any magnitude, angle objects or numbers) and sequences of these operations',
  'Identities over a continuum; tests evaluate a few multiples of 45 degrees.',
  ['vector_2d.py', 'angle_deg.py'], [('from_polar, set_polar, rotate, set_dir, set_length, normalize, th', 'vector_2d.py'), ('*_deg functions', 'angle_deg.py')])
p('C05', 'Vector arithmetic is exact componentwise arithmetic, with consistent equality',
  '''Addition, subtraction, scaling, division, negation, absolute value, inner and outer product, length and distance (and
  their squares), as methods, operators or in-place operators, equal componentwise real arithmetic on the coordinates.
  Operators and "-_vector" forms return new vectors, in-place forms change exactly their receiver. Equality holds exactly
  when both coordinates are equal and never with non-vectors, equal vectors hash alike, inequality is the negation,
  and the weak form holds exactly when both coordinates differ by less than the library's epsilon.''',
  ['inputs', 'histories'], 'all vectors and scalars, and every history of operations on shared vector objects',
  'Tests evaluate fixed vectors once; aliasing between operands and histories of in-place operators are not sampled.',
  ['vector_2d.py'], [('operators and methods', 'vector_2d.py: Vector2D')], [('coordinates and validity', 'x, y and whether the vector is valid', 'vector_2d.py: Vector2D._x,_y,_is_valid')])
p('C06', 'Objects are independent values: queries are pure, nothing shares or leaks state',
  '''No operation changes any object except the documented receiver of a mutating operation: arguments, the receiver of a
  query, and every other object that was ever built from or handed to the same call keep their values. Objects constructed
  from, assigned from or copied from others are faithful (including the validity of vectors) and independent of them
  afterwards, in both directions, and results of computations are new objects that share nothing mutable with the
  operands (polygons and convex hulls hold, and hand out, the point objects they were given one by one or in a list). What an object reports (sides, size, supporting line, edges, vertices) is always consistent with its current
  state, whatever was called before.''',
  ['histories', 'inputs'], 'every history of calls over a heap of objects of all classes, with arbitrary sharing of arguments',
  'Tests look at results only; none re-reads arguments or other live objects after a call.',
  ['vector_2d.py', 'angle_deg.py', 'line_2d.py', 'ray_2d.py', 'segment_2d.py', 'triangle_2d.py', 'circle_2d.py', 'sector_2d.py', 'rect_2d.py', 'size_2d.py',
   'polygon_2d.py', 'convex_hull.py', 'matrix_2d.py'],
  [('defensive copies in constructors and assignments', 'segment_2d.py, triangle_2d.py, circle_2d.py, sector_2d.py, rect_2d.py, ray_2d.py, polygon_2d.py, convex_hull.py'),
   ('copies returned by queries', 'segment_2d.py: nearest_point, projection; vector_2d.py: copy')])
p('C07', 'All construction forms of a shape agree, and unsupported arguments are refused',
  '''Every accepted way of building or re-assigning an object (coordinates, points, polar form, point + length + direction,
  point + size, two corners, segment + point, coefficients, keyword arguments, copy of another object) yields the same
  object as the equivalent other form, with negative sizes taken as their absolute value and negative circle radii as 0.
  Re-assigning leaves no trace of the previous state. Argument combinations of unsupported number or type raise an
  exception instead of building an object.''',
  ['inputs', 'histories'], 'every constructor / assign overload of every class, for all argument values and previous states',
  'Overloads dispatch on runtime types; tests use one or two forms per class.',
  ['vector_2d.py', 'line_2d.py', 'segment_2d.py', 'triangle_2d.py', 'circle_2d.py', 'rect_2d.py', 'size_2d.py', 'polygon_2d.py', 'matrix_2d.py', 'sector_2d.py', 'ray_2d.py'],
  [('argument dispatch', 'rect_2d.py: Rect2D.__init__/assign; line_2d.py: Line2D.__init__; segment_2d.py: Segment2D.assign; triangle_2d.py')])
p('C08', 'A line passes through its defining points and answers metric queries correctly',
  '''A line built from two distinct points contains both, one built from a point and a direction contains the point and runs
  in that direction, and one built from coefficients or copied keeps them. On every proper line, x-at-y and y-at-x give
  points of the line (or the error value where there is none), distance and squared distance are perpendicular distances,
  the projection of a point is the nearest point of the line, and the perpendicular through a point is perpendicular and
  passes through it. Two lines compare equal when they are the same set of points and not when they are clearly
  different, parallelism means equal directions, and the perpendicular bisector of two distinct points is the set of
  points equally far from both.''',
  ['inputs'], 'all lines in general, horizontal, vertical and steep position, all points',
  'Special cases for horizontal/vertical lines and sign conventions of a, b, c; tests use a few lines.',
  ['line_2d.py'], [('line_with_points / line_with_angle / get_x / get_y / dist / projection / perpendicular', 'line_2d.py: Line2D')],
  [('coefficients', 'a x + b y + c = 0', 'line_2d.py: Line2D._a,_b,_c')])
p('C09', 'Intersections of lines and rays are exactly the common points',
  '''The intersection of two non-parallel proper lines is the one point on both; parallel lines give an invalid point.
  A ray and a line, or two rays, meet at that point when it lies in front of (in the direction of) each ray, and give an
  invalid point when it clearly lies behind one of them or the directions are parallel. A point is in the right direction
  of a ray exactly when it lies along the ray's direction up to the documented angular threshold.''',
  ['inputs'], 'all pairs of lines, lines and rays, and rays; all points and thresholds',
  'Depends on the sign of a determinant and on angular comparison across the +-180 seam.',
  ['line_2d.py', 'ray_2d.py', 'angle_deg.py'], [('line_intersection', 'line_2d.py'), ('intersection, in_right_dir', 'ray_2d.py: Ray2D')])
p('C10', 'Segment crossing predicates and intersection points are exact',
  '''Two segments are reported to intersect exactly when they share at least one point (touching, overlapping collinear and
  degenerate segments included), the except-endpoint forms exactly when they cross at a point interior to both, and a
  segment and a line exactly when the end points are not strictly on one side. The intersection point of two non-parallel segments,
  or of a segment and a line, is valid exactly when they have a common point (not an end point, unless end points are asked for) and then lies on both; for
  parallel ones and zero-length segments it is invalid. The answers do not depend on the order of the segments or of their end points.''',
  ['inputs'], 'all pairs of segments in general and degenerate position; all segments and lines',
  'The predicates are decided by signs of areas with many collinear special cases; tests sample general position.',
  ['segment_2d.py', 'triangle_2d.py', 'line_2d.py'], [('exist_intersection, intersects_except_endpoint, check_intersects_on_line, intersection', 'segment_2d.py: Segment2D')])
p('C11', 'Segment nearest-point, distance and membership queries are metric truths',
  '''For every segment (also of length zero) and point: the nearest point lies on the segment and no point of it is nearer,
  distance and farthest distance are the minimum and maximum over the segment, the projection is the foot on the
  supporting line when that lies within the segment and invalid otherwise, on-segment membership means that this distance is zero (weak: less than epsilon), and
  the contains test is membership in the box spanned by the end points. The distance between segments is the minimum over all pairs of their points (0 when they
  intersect). Length, direction, supporting line, swapping, reversing and equality are consistent with the two end
  points after every history of assignments, swaps and reversals.''',
  ['inputs', 'histories'], 'all segments (proper and degenerate), points, and histories of re-assignments',
  'Minimum over a continuum; the piecewise cases (before, within, beyond the segment; degenerate) are only sampled.',
  ['segment_2d.py'], [('nearest_point, dist, farthest_dist, projection, on_segment', 'segment_2d.py: Segment2D'), ('swap / reverse / assign', 'segment_2d.py')],
  [('end points', 'origin and terminal', 'segment_2d.py: Segment2D._origin,_terminal')])
p('C12', 'Circle containment and intersections are the geometric ones',
  '''A point is inside a circle exactly when its distance to the centre is less than the radius, and the area is pi r^2.
  Intersecting the circumference with a line, ray, segment or other circle yields exactly the common points, no more, no
  fewer and no duplicates: none when clearly apart or nested, one when tangent, two when crossing, restricted to the part in front of
  the ray or within the segment. The circumscribed circle of three non-collinear points passes through all three, its
  containment test agrees with it, and the quadratic solver returns all real roots.''',
  ['inputs'], 'all circles, lines (any orientation), rays, segments, second circles and triples of points',
  'Root selection, vertical/horizontal special cases and tangency are discrete decisions over a continuum.',
  ['circle_2d.py'], [('intersection_with_line / ray / segment / circle, quadratic_f, circum_circle', 'circle_2d.py')])
p('C13', 'Rectangle edges, corners and sizes stay consistent under every history of moves',
  '''After every history of assignments, moves, and side, corner or size changes: right = left + length, bottom = top +
  width, length and width are not negative, and all edge, corner, centre, area, edge-line and alias (min/max x/y) accessors
  agree. Moving a side, corner or the centre puts it exactly there and keeps the size; setting a side or corner puts it
  exactly there and keeps the opposite side (the two exchange roles when they cross); setting a size keeps the top-left
  corner. Queries change nothing and each mutation changes only its receiver.''',
  ['histories', 'inputs'], 'every history of mutating calls on any number of rectangles, with any real arguments, including crossings and zero sizes',
  'Tests apply one setter to one rectangle; crossings and compositions of setters are not sampled.',
  ['rect_2d.py', 'size_2d.py'], [('set_left ... set_bottom, move_*, set_top_left, set_bottom_right, set_size', 'rect_2d.py: Rect2D')],
  [('top-left corner and size', 'the stored state; the other sides are derived', 'rect_2d.py: Rect2D._top_left,_size')])
p('C14', 'Rectangle construction, containment, overlap and union are set operations',
  '''A rectangle built from numbers, a corner and a size, two opposite corners in any order, a centre, or another rectangle covers
  exactly the described area, with negative lengths taken absolutely. It contains exactly the points between its sides, sides
  included; the tolerant test extends every side by the tolerance. The intersection of two rectangles with positive area is the
  rectangle of their common points (of zero area when they do not overlap), the union is the smallest rectangle covering both, and
  neither operand is changed.''',
  ['inputs'], 'all rectangles, pairs of rectangles and points, including touching, nested and disjoint ones',
  'Relative positions of two rectangles have dozens of cases per axis pair; tests sample one or two.',
  ['rect_2d.py', 'size_2d.py'], [('from_center, contains, contains_almost, intersected, united', 'rect_2d.py: Rect2D')])
p('C15', 'Rectangle and triangle outline intersections are complete and exact',
  '''Intersecting a rectangle (with positive sides) or a proper triangle with a line, ray or segment returns exactly the
  distinct points common to the outline and it: no point missing, none outside, corners reported once, none when they do
  not meet, and at most two. When a line or segment runs along an edge, the corners belonging to both are reported. Nothing is changed by asking.''',
  ['inputs'], 'all rectangles and triangles against all lines, rays and segments, including corner and edge contact',
  'Corner hits are found by several edges at once and must be merged; tests sample generic crossings.',
  ['rect_2d.py', 'triangle_2d.py', 'segment_2d.py', 'ray_2d.py'], [('intersection', 'rect_2d.py: Rect2D.intersection; triangle_2d.py: Triangle2D.intersection')])
p('C16', 'Triangle area, orientation, containment and centres are the geometric ones',
  '''Area, signed area and orientation equal the determinant of the corners; orientation flips when two corners are exchanged
  and is unchanged by rotation of the corners. For proper triangles in either orientation a point is contained exactly
  when it is in the closed triangle; the centroid is the mean of the corners, the circumcentre is equally far from the corners, the incentre
  equally far from the sides, the orthocentre on all altitudes, and the static forms agree with the methods. A triangle is
  valid exactly when its three corners are valid and pairwise different, and re-assigning it forgets the old corners.''',
  ['inputs', 'histories'], 'all triples of corners in both orientations, all points, histories of re-assignment',
  'Tests use a few fixed triangles; points on edges/corners and clockwise triangles are not covered.',
  ['triangle_2d.py'], [('contains, ccw, signed_area, centroid, incenter, circumcenter, orthocenter, is_valid', 'triangle_2d.py: Triangle2D')])
p('C17', 'Polygon containment, distance, area, orientation and bounding box are correct',
  '''For every polygon (convex or not, either orientation, with horizontal, vertical and collinear edges) a point is contained exactly when the
  even-odd rule puts it inside, and boundary points follow the on-segment option. The distance is 0 for contained points and
  otherwise (or when only the outline is asked for) the distance to the nearest outline point; area and signed area are the
  shoelace values and the orientation tests their signs, fewer than three vertices having area 0. The bounding box is the smallest rectangle with all
  vertices, vertex lists are exactly what was added, assigned or cleared, and queries change nothing.''',
  ['inputs', 'histories'], 'all vertex lists, points and options, and histories of vertex changes',
  'Ray-casting parity fails only when the ray meets a vertex or a horizontal edge; tests sample a square.',
  ['polygon_2d.py'], [('contains, dist, area, double_signed_area, get_bounding_box', 'polygon_2d.py: Polygon2D')],
  [('vertices', 'cyclic vertex list', 'polygon_2d.py: Polygon2D._vertices')])
p('C18', 'Clipping a polygon by a rectangle yields exactly the part inside',
  '''Clipping any polygon by a rectangle with positive sides returns a polygon whose vertices are, in order, the polygon's
  corners inside the rectangle and the points where its outline crosses the rectangle, that is, the region common to both (successive half-plane
  clipping): it lies in the rectangle, a polygon inside the rectangle is returned unchanged, one outside becomes empty, and the clipped area is the
  common area. Clipping a point list by a single axis-parallel line (get_line_clipped_polygon with one of the four side tests) likewise yields the
  part in that closed half plane. The polygon and the rectangle are unchanged.''',
  ['inputs'], 'all polygons with three or more vertices, convex or not, against all rectangles, including vertices and edges on the rectangle sides',
  'The existing test covers four hand-made cases and, in one, records a wrong result; the algorithm is a composition of four clips with vertex-by-vertex cases.',
  ['polygon_2d.py', 'line_2d.py', 'rect_2d.py'], [('get_rectangle_clipped_polygon / scissor', 'polygon_2d.py')])
p('C19', 'The convex hull is the hull of the input, by every method and history',
  '''After computing (by gift wrapping, by Graham scan or by default), the hull vertices are distinct input points in
  order of increasing direction (positive signed area), every input point lies in their convex polygon, no vertex lies on an edge between two others, edges join consecutive vertices, and the
  polygon conversion has the same vertices; collinear inputs give the two end points and fewer than three inputs give nothing. This holds
  for every order and repetition of input points and every history of adding points, clearing, clearing results and
  recomputing, with the stored input points kept as they were given.''',
  ['inputs', 'histories'], 'all point multisets in any order, including duplicates and collinear points; all call histories; both supported methods',
  'Ties (collinear, duplicate, extreme points) make the algorithms fail for particular arrangements and orders only.',
  ['convex_hull.py'], [('compute, compute_wrapping_method, compute_graham_scan', 'convex_hull.py: ConvexHull')],
  [('inputs, vertices, edges', 'input points and the last result', 'convex_hull.py: ConvexHull')])
p('C20', 'Affine matrices obey composition, inversion and point-transform laws',
  '''A matrix maps a point to M p + t. Composing two matrices (operator or in-place) applies the right one first and then the left one; translate, scale and rotate
  compose the corresponding elementary map after the current one; the inverse of an invertible matrix undoes it
  in both orders and invertibility means a non-zero determinant. Transforming returns a new vector (or updates the given one for the in-place form) and composing changes
  only the receiver of in-place forms; reset gives the identity and equality compares all six coefficients.''',
  ['inputs', 'histories'], 'all matrices and points and every history of compositions',
  'Order-of-composition and sign errors cancel for the axis-aligned samples in the tests.',
  ['matrix_2d.py'], [('__mul__, __imul__, translate, scale, rotate, inverted, transform', 'matrix_2d.py: Matrix2D')])
p('C21', 'Motion prediction equals the step-by-step simulation',
  '''Predicted travel, point and distance after n steps equal simulating n steps in which the velocity is added to the position and then multiplied by
  the decay; the final travel, point and distance are the limits for unbounded n. The geometric-series helpers invert that sum: the length of
  a series with given first term, sum and ratio is the n with that sum (or -1 when it cannot be reached or the input is refused), and the first term computed for a
  sum, ratio and length reproduces the sum. No argument is changed.''',
  ['inputs', 'histories'], 'all positions, velocities, decays in (0, 1) and ratios other than 1, step counts from 0 up',
  'A recurrence against a closed form for every n; tests evaluate a few n.',
  ['soccer_math.py'], [('inertia_* and calc_*_geom_series', 'soccer_math.py')])
p('C22', 'Rounding, quantisation, clamping and float ranges are exact',
  '''Rounding gives the nearest integer with ties away from zero; quantising gives the nearest multiple of the step; the server's distance
  quantisation is the quantised exponential of the quantised logarithm; and the un-quantise bounds and error enclose the values that quantise to the given one. Clamping
  returns the nearest value of the interval for every low <= high. The float range yields start, start + step, ...,
  exactly while below (or, for a negative step, above) the end.''',
  ['inputs'], 'all finite values, positive steps, intervals and range parameters (below 2^52)',
  'Ties and boundaries are single points; tests sample none of the negative or tie cases.',
  ['soccer_math.py'], [('quantize, quantize_dist, unquantize_*, bound, min_max, f_range', 'soccer_math.py'), ('r_int', 'soccer_math.py')])
p('C23', 'Server-model effects follow the simulator formulas',
  '''Kick rate, dash direction rate, effective turn, final speed, the maximum-speed test and the wind effect equal the
  RoboCup server formulas for every argument, with angles folded symmetrically (left and right, forward and backward alike where the model says so). Effective turn shrinks with
  speed and never exceeds the moment; the kick rate is the full rate at contact in front and decreases with distance and direction.''',
  ['inputs'], 'all positions, directions, speeds and server parameters in their documented ranges',
  'Formulas in five to seven parameters; tests evaluate single points.',
  ['soccer_math.py'], [('kick_rate, dir_rate, effective_turn, final_speed, can_over_speed_max, wind_effect', 'soccer_math.py')])
p('C24', 'Sector containment, area and arc lengths follow its radii and angles',
  '''A sector contains exactly the points whose distance from the centre is between the two radii and whose direction
  lies on the arc from its left (start) to its right (end) angle in increasing degrees, however that arc crosses the +-180 seam. Its area and
  inner/outer arc lengths equal the corresponding fraction of the ring. Accessors report what was last constructed or
  assigned, a negative inner radius being replaced by 0, equality compares all parts, and queries change nothing.''',
  ['inputs', 'histories'], 'all centres, radii, angle pairs and points; histories of re-assignment',
  'Arc membership and arc length depend on the seam and on arcs above 180 degrees; tests sample one sector.',
  ['sector_2d.py', 'angle_deg.py'], [('contains, area, get_circumference_min/max', 'sector_2d.py: Sector2D')])
p('C25', 'The text of an object tells its current state',
  '''The text of every value (str or repr of angles, vectors, lines, rays, segments, triangles, circles, sectors, sizes, rectangles, polygons, hulls
  and matrices) shows exactly the numbers that make up its current state, in constructor order and at full precision: reading the numbers back
  gives the stored values, for every state reached by any history of changes. to_str returns the given text followed by the figure's
  coordinates rounded to three decimals. Printing changes nothing.''',
  ['inputs', 'histories'], 'all values, including negative, tiny and integer-valued coordinates, and all histories of changes before printing',
  'Text forms have a few lines per class and no tests; what they show depends on every field and on how the object got there.',
  ['angle_deg.py', 'vector_2d.py', 'line_2d.py', 'segment_2d.py', 'rect_2d.py', 'polygon_2d.py', 'convex_hull.py'],
  [('__repr__, to_str', 'every class')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
