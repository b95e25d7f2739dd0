"""The properties: which operations each one speaks about and which inputs its
check generates."""
import random

import cases
import gen
from sigs import SIG, MUT

ALL = list(SIG)
TEXT = [o for o in ALL if o.split('.')[1] in ('text', 'text_repr', 'to_str')]


def of(cls, *names):
    return ['%s.%s' % (cls, n) for n in names]


def cls(*names):
    return [o for o in ALL if o.split('.')[0] in names and o not in TEXT]


FRAME = {'argument-changed', 'result-aliases-argument', 'result-aliases-object', 'other-object-changed', 'post-type'}

ANG_VALUE = of('ang', 'new0', 'new', 'newaf', 'newA', 'degree', 'degree_', 'float', 'set_degree', 'set_angle', 'normal', 'abs',
               'radian', 'copy', 'reverse', 'reverse_angle', 'get_normalized', 'add', 'sub', 'mul', 'neg', 'iadd', 'isub',
               'imul', 'itruediv', 'floordiv', 'normalize_angle', 'eq')
ANG_ORDER = of('ang', 'is_left_of', 'is_right_of', 'is_left_equal_of', 'is_right_equal_of', 'is_within')
ANG_TRIG = of('ang', 'cos', 'sin', 'tan', 'rad2deg', 'deg2rad', 'cos_deg', 'sin_deg', 'tan_deg', 'acos_deg', 'asin_deg',
              'atan_deg', 'atan2_deg')
VEC_POLAR = of('vec', 'newra', 'from_polar', 'polar2vector', 'set_polar', 'th', 'dir', 'rotate', 'rotated_vector', 'set_dir',
               'set_length', 'set_length_vector', 'normalize', 'normalize_vector')
CTORS = [o for o in ALL if o.split('.')[1].startswith(('new', 'assign'))] + ['rect.from_center4', 'rect.from_centerV', 'vec.from_polar',
                                                                              'vec.polar2vector', 'vec.set_vector', 'vec.set_x_y']
VEC_ALG = [o for o in cls('vec') if o not in VEC_POLAR and not o.split('.')[1].startswith('new')]
LINE = [o for o in cls('line') if o not in ('line.intersection', 'line.line_intersection')]
MEET = ['line.intersection', 'line.line_intersection', 'line.is_parallel'] + cls('ray')
SEGX = of('seg', 'exist_intersectionS', 'exist_intersectionL', 'exist_intersection_except_endpoint', 'intersects_except_endpoint',
          'intersectionL', 'intersectionS', 'check_intersects_on_line')
SEGP = [o for o in cls('seg') if o not in SEGX]
RECT_HIT = ['rect.intersectionL', 'rect.intersectionR', 'rect.intersectionS', 'tri.intersectionL', 'tri.intersectionR', 'tri.intersectionS']
RECT_SET = of('rect', 'new4', 'newVLW', 'newVS', 'newVV', 'newR', 'from_center4', 'from_centerV', 'intersected', 'united', 'contains',
              'contains_almost') + cls('size') + [o for o in cls('rect') if o.split('.')[1].startswith('assign')]
RECT_EDGE = [o for o in cls('rect', 'size') if o not in RECT_HIT and
             o.split('.')[1] not in ('intersected', 'united', 'contains', 'contains_almost')]
TRI = [o for o in cls('tri') if o not in RECT_HIT]
CLIP = ['poly.get_rectangle_clipped_polygon'] + [o for o in cls('poly') if o.split('.')[1].startswith(('clip_', 'side_', 'thr_'))]
POLY = [o for o in cls('poly') if o not in CLIP]
MOTION = ['soc.' + n for n in ('inertia_n_step_travel', 'inertia_n_step_point', 'inertia_n_step_distance', 'inertia_final_travel',
                               'inertia_final_point', 'inertia_final_distance', 'calc_length_geom_series',
                               'calc_first_term_geom_series')]
QUANT = ['soc.' + n for n in ('r_int', 'quantize', 'quantize_dist', 'unquantize_min', 'unquantize_max', 'unquantize_error', 'bound',
                              'min_max', 'f_range1', 'f_range2', 'f_range3')]
SERVER = ['soc.' + n for n in ('kick_rate', 'dir_rate', 'effective_turn', 'final_speed', 'can_over_speed_max', 'wind_effect')]
BADOPS = list(gen.BAD)
COPIES = ['%s.%s' % x for x in (
    ('vec', 'newV'), ('vec', 'copy'), ('vec', 'get_copy'), ('vec', 'set_vector'), ('ang', 'newA'), ('ang', 'copy'), ('ang', 'set_angle'),
    ('line', 'newL'), ('line', 'newl'), ('line', 'copy'), ('ray', 'copy'), ('ray', 'newA'), ('ray', 'newV'), ('seg', 'newPP'),
    ('seg', 'assignPP'), ('seg', 'copy'), ('seg', 'reversed_segment'), ('tri', 'new3'), ('tri', 'newSP'), ('tri', 'assign3'),
    ('tri', 'assignSP'), ('circ', 'new'), ('circ', 'assign'), ('sect', 'new'), ('sect', 'assign'), ('rect', 'newR'), ('rect', 'assignR'),
    ('rect', 'newVS'), ('rect', 'assignVS'), ('rect', 'set_sizeS'), ('poly', 'newL'), ('poly', 'newV'), ('hull', 'new'),
    ('seg', 'origin'), ('seg', 'terminal'), ('tri', 'a'), ('tri', 'b'), ('tri', 'c'), ('circ', 'center'), ('sect', 'center'),
    ('ray', 'origin'), ('ray', 'dir'), ('rect', 'top_left'), ('rect', 'size'))]
LIVE = [o for o in ALL if o.split('.')[1].startswith(('live_', 'peek_'))]

# operations by property; 'also' are exercised but their value clauses are not this property's
SCOPE = {
    'C01': ANG_VALUE,
    'C02': ANG_ORDER,
    'C03': ['ang.bisect', 'line.angle_bisector'],
    'C04': ANG_TRIG + VEC_POLAR,
    'C05': VEC_ALG,
    'C06': COPIES + LIVE + of('hull', 'vertices', 'vertices_', 'edges', 'to_polygon', 'input_points'),
    'C07': CTORS + BADOPS,
    'C08': LINE,
    'C09': MEET,
    'C10': SEGX,
    'C11': SEGP,
    'C12': cls('circ'),
    'C13': RECT_EDGE,
    'C14': RECT_SET,
    'C15': RECT_HIT,
    'C16': TRI,
    'C17': POLY,
    'C18': CLIP,
    'C19': cls('hull'),
    'C20': cls('mat'),
    'C21': MOTION,
    'C22': QUANT,
    'C23': SERVER,
    'C24': cls('sect'),
    'C25': TEXT,
}
EXACTISH = ['tight', 'tight', 'grid', 'half', 'dyad', 'field', 'float', 'log', 'tiny', 'mined', 'micro', 'macro', 'vast']


def chunk(steps, n=40):
    steps = list(steps)
    return [steps[i:i + n] for i in range(0, len(steps), n)]


def calls(rng, ops, events, modes=EXACTISH):
    out = []
    for i in range(max(1, events // 40)):
        out.append(gen.calls(gen.Gen(rng, modes[i % len(modes)]), ops, 40))
    return out


def rotation(rng, ops, each, modes=EXACTISH):
    """every operation `each` times"""
    steps = []
    for op in ops:
        for i in range(each):
            steps.extend(gen.calls(gen.Gen(rng, rng.choice(modes)), [op], 1))
    rng.shuffle(steps)
    return chunk(steps)


def histories(rng, ops, events, modes=EXACTISH, n=40, **kw):
    out = []
    for i in range(max(1, events // n)):
        out.append(gen.session(gen.Gen(rng, modes[i % len(modes)]), ops, n, **kw))
    return out


def echoes(rng, ops, events, modes=EXACTISH, n=36):
    out = []
    cards = gen.deck(rng, ops)
    for i in range(max(1, events // n)):
        out.append(gen.echo(gen.Gen(rng, modes[i % len(modes)]), cards, n))
    return out


def formed(rng, ops, events, modes=EXACTISH, n=40):
    cards = gen.deck(rng, ops)
    return [gen.forms(gen.Gen(rng, modes[i % len(modes)]), cards, n) for i in range(max(1, events // n))]


def sessions(pid, rng, k):
    """the inputs of one round; k scales the number of events"""
    extra = [o for o in ALL if o not in TEXT and o not in CLIP] if pid == 'C06' else SCOPE[pid]
    return plain(pid, rng, k) + echoes(rng, extra, int(k * (20000 if pid == 'C06' else 2400)))


def plain(pid, rng, k):
    ops = SCOPE[pid]
    K = lambda n: int(n * k)
    if pid == 'C01':
        return histories(rng, ops + ['ang.bisect'], K(14000), size=6) + calls(rng, ops, K(8000))
    if pid == 'C02':
        return chunk(cases.angle_pairs(rng, ops, K(20000))) + calls(rng, ops, K(4000))
    if pid == 'C03':
        return chunk(cases.angle_pairs(rng, ops, K(16000))) + calls(rng, ops, K(4000))
    if pid == 'C04':
        return rotation(rng, ops, K(500)) + histories(rng, VEC_POLAR + ['vec.new', 'ang.new'] + ANG_TRIG[:3], K(6000))
    if pid == 'C05':
        return rotation(rng, ops, K(260)) + histories(rng, ops + ['vec.new', 'vec.newV'], K(10000))
    if pid == 'C06':
        out = []
        groups = [cls('vec', 'ang'), cls('seg', 'vec'), cls('tri', 'seg', 'vec'), cls('ray', 'line', 'vec', 'ang'), cls('circ', 'vec', 'seg'),
                  cls('sect', 'vec', 'ang'), cls('rect', 'size', 'vec'), cls('poly', 'rect', 'vec'), cls('hull', 'poly'),
                  cls('mat', 'vec', 'ang'), COPIES + LIVE, COPIES + LIVE + [o for o in MUT if o.split('.')[0] in ('vec', 'ang', 'size')]]
        for g in groups:
            out += histories(rng, g, K(1600), size=12, modes=['grid', 'half', 'float', 'tight', 'dyad'])
        return out + rotation(rng, COPIES + LIVE, K(30)) + rotation(rng, [o for o in ALL if o not in MUT], K(6), ['grid', 'half', 'float'])
    if pid == 'C07':
        return rotation(rng, [o for o in ops if o in SIG], K(180)) + calls(rng, BADOPS, K(3000)) + \
            histories(rng, [o for o in ops if o in SIG], K(5000), size=16) + formed(rng, [o for o in ops if o in SIG], K(9000))
    if pid == 'C08':
        return chunk(cases.line_pairs(rng, [o for o in ops if o in SIG], K(9000))) + rotation(rng, ops, K(350)) + \
            chunk(cases.angle_pairs(rng, ['line.angle_bisector'], K(800)))
    if pid == 'C09':
        return chunk(cases.ray_lines(rng, K(2000)), 42) + \
            chunk(cases.line_pairs(rng, ['line.intersection', 'line.line_intersection', 'line.is_parallel'], K(5000))) + \
            rotation(rng, ops, K(240))
    if pid == 'C10':
        ex = list(cases.seg_pairs_all(of('seg', 'exist_intersectionS', 'intersectionS', 'exist_intersection_except_endpoint',
                                         'exist_intersectionS', 'intersectionS', 'intersects_except_endpoint', 'exist_intersectionS')))
        rng.shuffle(ex)
        return chunk(ex) + chunk(cases.seg_pairs(rng, [o for o in ops if o != 'seg.check_intersects_on_line'], K(9000))) + \
            chunk(cases.seg_points(rng, ['seg.check_intersects_on_line'], K(700))) + rotation(rng, ops, K(150)) + \
            histories(rng, cls('seg', 'vec'), K(2000))
    if pid == 'C11':
        pq = of('seg', 'nearest_point', 'distP', 'farthest_dist', 'projection', 'on_segment', 'on_segment_weakly', 'contains')
        return chunk(cases.seg_points(rng, pq, K(9000))) + chunk(cases.seg_pairs(rng, ['seg.distS', 'seg.eq', 'seg.equals_weakly'], K(3000))) + \
            rotation(rng, ops, K(160)) + histories(rng, ops + ['vec.new'], K(4000))
    if pid == 'C12':
        geo = [o for o in ops if 'intersection' in o or o.split('.')[1] in ('contains', 'area', 'circum_circle', 'circum_circle_contains')]
        return chunk(cases.circles(rng, geo, K(12000))) + rotation(rng, ops, K(250)) + histories(rng, ops + ['vec.new', 'seg.newPP'], K(3000))
    if pid == 'C13':
        return histories(rng, ops + of('rect', 'new4', 'newVV', 'newVS', 'newR'), K(14000), size=5, p_mut=0.7) + rotation(rng, ops, K(120))
    if pid == 'C14':
        return rotation(rng, ops, K(500)) + calls(rng, of('rect', 'intersected', 'united', 'contains', 'contains_almost', 'newVV'), K(8000),
                                                  ['tight', 'tight', 'grid', 'half', 'float'])
    if pid == 'C15':
        return chunk(cases.region_hits(rng, 'rect', K(8000))) + chunk(cases.region_hits(rng, 'tri', K(8000))) + rotation(rng, ops, K(500))
    if pid == 'C16':
        tp = of('tri', 'contains', 'tri_contains', 'area', 'signed_area', 'double_signed_area', 'ccw', 'tri_ccw', 'signed_area_st',
                'double_signed_area_st', 'centroid', 'circumcenter', 'orthocenter', 'incenter', 'tri_centroid', 'tri_circumcenter',
                'tri_orthocenter', 'tri_incenter', 'is_valid', 'contains', 'tri_contains')
        return chunk(cases.tri_points(rng, tp, K(11000))) + rotation(rng, ops, K(150)) + histories(rng, ops + ['vec.new', 'seg.newPP'], K(3000))
    if pid == 'C17':
        return chunk(cases.poly_points(rng, of('poly', 'contains', 'contains', 'dist', 'contains', 'dist', 'area', 'double_signed_area',
                                               'is_clockwise', 'is_counter_clockwise', 'get_bounding_box', 'bounding_box_center'), K(9000))) + \
            rotation(rng, ops, K(140)) + histories(rng, ops + ['vec.new'], K(2500))
    if pid == 'C18':
        return [[cases.K1_INPUT]] + chunk(cases.clips(rng, K(6000)), 20) + calls(rng, ops, K(600), ['tight', 'half', 'dyad', 'float'])
    if pid == 'C19':
        comp = of('hull', 'compute', 'computeW', 'computeG', 'compute_wrapping_method', 'compute_graham_scan', 'sorted_from_min')
        return chunk(cases.hull_inputs(rng, comp, K(3000)), 30) + histories(rng, ops, K(3500)) + rotation(rng, ops, K(60))
    if pid == 'C20':
        return chunk(cases.matrices(rng, K(600)), 48) + rotation(rng, ops, K(220)) + histories(rng, ops + ['vec.new'], K(5000))
    if pid in ('C21', 'C22', 'C23'):
        return rotation(rng, ops, K({'C21': 1800, 'C22': 1800, 'C23': 2600}[pid]))
    if pid == 'C24':
        return chunk(cases.sectors(rng, of('sect', 'contains', 'contains', 'contains', 'area', 'get_circumference_min',
                                           'get_circumference_max'), K(10000))) + rotation(rng, ops, K(220)) + \
            histories(rng, ops + ['vec.new', 'ang.new'], K(3000))
    if pid == 'C25':
        out = rotation(rng, ops, K(150))
        for c in ('ang', 'vec', 'seg', 'tri', 'circ', 'sect', 'size', 'rect', 'poly', 'hull', 'mat', 'ray'):
            mine = [o for o in cls(c) if o in MUT or o.split('.')[1].startswith('new')]
            out += histories(rng, mine + [o for o in TEXT if o.startswith(c + '.')], K(700), size=6)
        return out
    raise KeyError(pid)


def reports(pid, op, clauses):
    """the clauses of a verdict that this property answers for"""
    c = set(clauses) - {'?'}
    mine = op in SCOPE[pid]
    if pid == 'C06':
        if mine:
            return c
        return c & FRAME
    return c if mine else set()
