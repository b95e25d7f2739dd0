"""Structured inputs: configurations in which the interesting relations (touching,
tangent, collinear, aligned, on the boundary, wrapping past 180 degrees) are the
rule instead of the exception.  Every generator yields steps (op, args, keep)."""
import itertools
import math

import gen


def V(x, y):
    return ('vec', x, y)


def lerp(p, q, t):
    return V(p[1] + (q[1] - p[1]) * t, p[2] + (q[2] - p[2]) * t)


def off(p, dx, dy):
    return V(p[1] + dx, p[2] + dy)


VAST = 0.1      # share of the arbitrary placements that are kilometres across


class Frame:
    """a random dyadic (exact) or arbitrary placement of small integer figures"""

    def __init__(self, rng, exact=None):
        self.rng = rng
        exact = rng.random() < 0.75 if exact is None else exact
        self.exact = exact
        if exact:
            self.s = rng.choice([1, 1, 1.0, 1.0, 2, 0.5, 3, 10, 0.25, 7.5, 0.0625, 40])
            if rng.random() < 0.12:
                self.s = rng.choice([2.0 ** -12, 2.0 ** -11, 2.0 ** -10, 3 * 2.0 ** -10, 2.0 ** -8, 256, 500])
            self.dx = rng.choice([0, 0, 0, -1, -2, 5, 0.25, -50, 100.5, 33.75])
            self.dy = rng.choice([0, 0, 0, -1, -3, 4, 0.5, 34, -20.25])
            self.rot = rng.choice([(1, 0), (1, 0), (1, 0), (0, 1), (-1, 0), (0, -1), (1, 1), (3, 4), (2, -1)])
            self.flip = rng.random() < 0.3
        else:
            self.s = 10 ** rng.uniform(-1.3, 1.7)
            self.dx, self.dy = rng.uniform(-60, 60), rng.uniform(-40, 40)
            if rng.random() < 0.25:             # small or large figures
                self.s = 10 ** rng.choice([rng.uniform(-3.3, -1.3), rng.uniform(1.7, 3)])
                if rng.random() < 0.5:
                    self.dx, self.dy = self.dx * self.s / 10, self.dy * self.s / 10
            if rng.random() < VAST:
                self.s = 10 ** rng.uniform(3, 5.5)
                self.dx, self.dy = self.dx * rng.choice([0, 1, self.s / 10]), self.dy * rng.choice([0, 1, self.s / 10])
            if rng.random() < 0.08:             # sizes and places named in the code
                c = abs(gen.mine(rng))
                self.s = c if 1e-3 < c < 1e5 else self.s
                self.dx = rng.choice([self.dx, gen.mine(rng)])
            a = rng.uniform(0, 2 * math.pi)
            self.rot = (math.cos(a), math.sin(a))
            self.flip = rng.random() < 0.5

    def shrunk(self):
        """far below the library's epsilon: for what does not compare with it"""
        k = 2.0 ** -self.rng.randint(8, 20)
        self.s, self.dx, self.dy = self.s * k, self.dx * k, self.dy * k
        return self

    def __call__(self, x, y):
        if self.flip:
            x = -x
        c, s = self.rot
        return V(self.s * (c * x - s * y) + self.dx, self.s * (s * x + c * y) + self.dy)

    def axis(self, x, y):
        return V(self.s * x + self.dx, self.s * y + self.dy)

    def len(self, d):
        return d * self.s * math.hypot(*self.rot)


def pts(rng, n, k=3):
    return [(rng.randint(0, k), rng.randint(0, k)) for _ in range(n)]


# ---------------------------------------------------------------- angles
SPECIAL = [0, 45, 90, 135, 180, -45, -90, -135, -180, 30, -30, 60, 120, 150, -150, 179, -179, 1, -1, 15, -165]
SPECIAL += [k for c in gen.MINED if 1e-3 < c <= 360 for k in (c, -c) if k not in SPECIAL]


def angle_pairs(rng, ops, n):
    for _ in range(n):
        op = rng.choice(ops)
        k = rng.random()
        if k < 0.4:
            a = rng.choice(SPECIAL)
            b = rng.choice(SPECIAL)
        elif k < 0.7:
            a = rng.choice([rng.uniform(-180, 180), rng.choice(SPECIAL), rng.randint(-180, 180) * 0.5])
            b = a + rng.choice([0, 180, -180, 90, -90, 179.5, -179.5, 180.5, -180.5, 1, -1, 360, 1e-3, -1e-3, 270, 0.25])
        elif k < 0.85:
            near = lambda: gen.near_special(rng, rng.random() < 0.5)
            a = near()
            b = rng.choice([near(), near(), a + near(), rng.choice(SPECIAL)])
        else:
            a, b = rng.uniform(-180, 180), rng.uniform(-180, 180)
        c = rng.choice([a, b, rng.choice(SPECIAL), (a + b) / 2, (a + b) / 2 + 180, a + 1, b + 1, a - 1, b - 1,
                        a + 0.001, b - 0.001, rng.uniform(-180, 180)])
        A = lambda d: ('ang', d)
        wrap = lambda d: A(d) if rng.random() < 0.6 else math.remainder(d, 360)
        if op == 'ang.is_within':
            yield op, [A(c), wrap(a), wrap(b)], None
        elif op in ('ang.bisect',):
            yield op, [wrap(a), wrap(b)], None
        elif op == 'line.angle_bisector':
            yield op, [V(rng.randint(-5, 5), rng.randint(-5, 5)), A(a), A(b)], None
        else:
            yield op, [A(a), wrap(b)], None


# ---------------------------------------------------------------- lines, rays
def ray_lines(rng, n):
    for i in range(n):
        f = Frame(rng)
        o, x, a, b = (f(*p) for p in pts(rng, 4, 4))
        k = 'R%d' % i
        if rng.random() < 0.6:
            yield 'ray.newV', [o, x], k
        else:
            yield 'ray.newA', [o, rng.choice([rng.choice(SPECIAL), ('ang', rng.choice(SPECIAL)), rng.uniform(-180, 180)])], k
        r = ('ref', k)
        t = rng.choice([2, 0.5, 1, -1, -0.5, 3])
        through = lerp(o, x, t)
        w = rng.random()
        if w < 0.5:
            l = ('linepp', through, off(through, rng.choice([1, 0, -2]), rng.choice([1, 3, -1])))
        elif w < 0.7:
            l = ('linepp', off(o, 1, 1), off(x, 1, 1))          # parallel
        else:
            l = ('linepp', a, b)
        if l[1][1:] != l[2][1:]:
            yield 'ray.intersectionL', [r, l], None
        o2, d2 = a, rng.choice([through, b, off(through, o[1] - a[1], o[2] - a[2])])
        yield 'ray.newV', [o2, d2], k + 'b'
        yield 'ray.intersectionR', [r, ('ref', k + 'b')], None
        yield 'ray.in_right_dir', [r, through] + rng.choice([[], [rng.choice([10, 45, 90, 120, 1])]]), None
        yield 'ray.in_right_dir', [r, b] + rng.choice([[], [rng.choice([10, 45, 90, 120, 1])]]), None
        if rng.random() < 0.3:
            yield 'ray.line', [r], None


def line_pairs(rng, ops, n):
    for _ in range(n):
        f = Frame(rng)
        a, b, c, d = (f(*p) for p in pts(rng, 4, 3))
        if a[1:] == b[1:]:
            b = off(b, 1, 0)
        if c[1:] == d[1:]:
            d = off(d, 0, 1)
        l, k = ('linepp', a, b), ('linepp', c, d)
        w = rng.random()
        if w < 0.15:
            k = ('linepp', off(a, 1, 2), off(b, 1, 2))
        elif w < 0.25:
            k = ('linepp', b, a)
        elif w < 0.35:
            l = ('line', rng.choice([0, 1, 2, -1]), rng.choice([1, 3, -2]), rng.randint(-5, 5))
        elif w < 0.45:
            k = ('line', rng.choice([1, 2, -1]), rng.choice([0, 1, -2]), rng.randint(-5, 5))
        op = rng.choice(ops)
        if op in ('line.intersection', 'line.line_intersection', 'line.is_parallel', 'line.eq'):
            yield op, [l, k], None
        elif op in ('line.get_x', 'line.get_y'):
            yield op, [l, rng.choice([c[1], a[2], 0, rng.uniform(-10, 10)])], None
        elif op in ('line.dist', 'line.dist2', 'line.projection', 'line.perpendicular'):
            yield op, [l, rng.choice([a, b, c, d, lerp(a, b, 0.5), lerp(a, b, 2), off(a, 0, 1)])], None
        elif op == 'line.perpendicular_bisector':
            yield op, [a, b], None
        elif op in ('line.newPP', 'line.newpp'):
            yield op, [a, b], None


# ---------------------------------------------------------------- segments
def seg_pairs_all(ops, k=3):
    """every pair of segments of a k x k grid, the operations in rotation"""
    g = list(itertools.product(range(k), repeat=2))
    i = 0
    for a, b, c, d in itertools.product(g, repeat=4):
        s, u = ('seg', V(*a), V(*b)), ('seg', V(*c), V(*d))
        yield ops[i % len(ops)], [s, u], None
        i += 1


def seg_pairs(rng, ops, n, lines=True):
    for _ in range(n):
        f = Frame(rng)
        w = rng.random()
        a, b = (f(*p) for p in pts(rng, 2, 4))
        if w < 0.35:
            c, d = (f(*p) for p in pts(rng, 2, 4))
        elif w < 0.6:                                   # around a point of the first
            t = rng.choice([0, 1, 0.5, 0.25, 0.75, 1.25, -0.25])
            x = lerp(a, b, t)
            q = f(*pts(rng, 1, 4)[0])
            c, d = rng.choice([(x, q), (q, x), (lerp(x, q, -1), lerp(x, q, 1)), (lerp(x, q, 0.5), q)])
        elif w < 0.85:                                  # collinear
            t, u = rng.choice([0, 1, 0.5, 0.25, 1.5, -0.5, 2, -1, 64, 1024]), rng.choice([0, 1, 0.5, 0.75, 1.25, -0.25, 3, -128, 512])
            c, d = lerp(a, b, t), lerp(a, b, u)
        else:                                           # parallel
            dx, dy = rng.choice([(1, 0), (0, 1), (-1, 2)])
            c, d = off(a, dx, dy), off(b, dx, dy)
        if rng.random() < 0.5:
            a, b, c, d = c, d, a, b
        op = rng.choice(ops)
        s, u = ('seg', a, b), ('seg', c, d)
        if op in ('seg.exist_intersectionL', 'seg.intersectionL'):
            if c[1:] == d[1:]:
                continue
            yield op, [s, ('linepp', c, d)], None
        elif op == 'seg.intersectionS':
            yield op, [s, u] + rng.choice([[], [True], [False]]), None
        else:
            yield op, [s, u], None


def seg_points(rng, ops, n):
    for _ in range(n):
        f = Frame(rng)
        a, b = (f(*p) for p in pts(rng, 2, 4))
        t = rng.choice([0, 1, 0.5, 0.25, 0.75, -0.25, 1.25, -1, 2, rng.uniform(-1, 2)])
        p = lerp(a, b, t)
        w = rng.random()
        if w < 0.3:
            dx, dy = -(b[2] - a[2]), b[1] - a[1]
            k = rng.choice([0.25, -0.25, 1, -1, 0.5, 2])
            p = off(p, dx * k, dy * k)
        elif w < 0.4:
            p = off(p, rng.choice([0, 1e-7, 5e-7, 2e-6, -2e-6, 1e-4]), rng.choice([0, 1e-7, -5e-7, 2e-6, 1e-4]))
        elif w < 0.6:
            p = f(*pts(rng, 1, 4)[0])
        yield rng.choice(ops), [('seg', a, b), p], None


# ---------------------------------------------------------------- circles, sectors
TRIPLES = [(3, 4, 5), (4, 3, 5), (5, 12, 13), (8, 15, 17), (0, 5, 5), (5, 0, 5)]


def circles(rng, ops, n):
    for _ in range(n):
        exact = rng.random() < 0.75
        s = rng.choice([1, 1, 0.5, 2, 0.25, 4]) if exact else rng.uniform(0.1, 8)
        cx, cy = (rng.choice([0, 0, 1, -3, 10.5, -40]), rng.choice([0, 0, 2, -1, 7.25, 25])) if exact else \
            (rng.uniform(-50, 50), rng.uniform(-30, 30))
        x, y, r = rng.choice(TRIPLES)
        x, y, r = x * s * rng.choice([1, -1]), y * s * rng.choice([1, -1]), r * s
        C = ('circ', V(cx, cy), r)
        P = V(cx + x, cy + y)                       # on the circle
        nrm = (x, y)
        tan = (-y, x)
        k = rng.choice([1, 1, 1, 0.5, 0.8, 0, 1.25, 1.5, -1, -0.5, 0.25])   # 1: tangent
        B = V(cx + nrm[0] * k, cy + nrm[1] * k)
        t0, t1 = rng.choice([(-1, 1), (0, 1), (-1, 0), (1, 2), (-2, -1), (0.25, 2), (-0.25, 0.5), (-3, 3), (0, 3)])
        a, b = off(B, tan[0] * t0, tan[1] * t0), off(B, tan[0] * t1, tan[1] * t1)
        w = rng.random()
        if w < 0.3:                                  # through points on the circle
            Q = rng.choice([V(cx - x, cy - y), V(cx + y, cy - x), V(cx - y, cy + x), V(cx, cy), V(cx - x, cy + y)])
            u0, u1 = rng.choice([(0, 1), (0, 2), (-1, 1), (0, 0.5), (0.25, 0.75), (-1, 2), (1, 2), (-1, 0), (0.5, 2)])
            a, b = lerp(P, Q, u0), lerp(P, Q, u1)
        elif w < 0.45:                               # short, near the circumference
            h = rng.choice([0.25, 0.125, 0.05, 0.01, 0.002])
            d = rng.choice([nrm, nrm, (y, y + x), (tan[0] + nrm[0], tan[1] + nrm[1]), tan])
            u0, u1 = rng.choice([(-1, 1), (-1, 2), (-2, 1), (-2, -1), (1, 2), (0, 1), (-1, 0)])
            a, b = off(P, d[0] * u0 * h, d[1] * u0 * h), off(P, d[0] * u1 * h, d[1] * u1 * h)
            if rng.random() < 0.5:
                a, b = b, a
        op = rng.choice(ops)
        m = op.split('.')[1]
        if m == 'contains':
            yield op, [C, rng.choice([P, B, a, b, V(cx, cy), off(P, 1e-3, 0), off(P, -1e-3, 0)])], None
        elif m in ('intersectionL', 'intersection_with_line'):
            if a[1:] != b[1:]:
                yield op, [C, ('linepp', a, b)], None
        elif m in ('intersectionS', 'intersection_with_segment'):
            yield op, [C, ('seg', a, b)], None
        elif m in ('intersectionR', 'intersection_with_ray'):
            d = math.degrees(math.atan2(b[2] - a[2], b[1] - a[1]))
            o = rng.choice([a, b, B, off(a, (a[1] - b[1]), (a[2] - b[2]))])
            yield op, [C, ('ray', o, rng.choice([d, d, d + 180, rng.choice(SPECIAL)]))], None
        elif m in ('intersectionC', 'intersection_with_circle'):
            r2 = rng.choice([r, r / 2, 2 * r, r * 1.5, s])
            u = rng.choice([(r + r2) / r, abs(r - r2) / r, (r + r2) / r * 1.25, (r + r2) / r * 0.75, 0, 0.25, 1])
            if rng.random() < 0.5:
                c2 = V(cx + x * u, cy + y * u)
            else:
                c2 = rng.choice([V(cx + r * u, cy), V(cx, cy - r * u)])
            yield op, [C, ('circ', c2, r2)], None
        elif m == 'area':
            yield op, [C], None
        elif m in ('circum_circle', 'circum_circle_contains'):
            on = [V(cx + sx * x, cy + sy * y) for sx in (1, -1) for sy in (1, -1)]
            on += [V(cx + r, cy), V(cx - r, cy), V(cx, cy + r), V(cx, cy - r)]
            t = rng.sample(on, 3)
            if m == 'circum_circle':
                yield op, t, None
            else:
                yield op, t + [rng.choice([V(cx, cy), B, a, b, off(P, x, y), lerp(P, V(cx, cy), 0.25)])], None


def sectors(rng, ops, n):
    for _ in range(n):
        c = V(rng.choice([0, 1, -3.5, 20]), rng.choice([0, 2, -1, -30.25]))
        r0, r1 = rng.choice([(0, 5), (1, 5), (2, 2.5), (3, 10), (0.5, 40)])
        s = rng.choice([rng.choice(SPECIAL), rng.uniform(-180, 180)])
        e = s + rng.choice([90, 45, 180, 270, 30, 359, 10, 135, 225, 300, rng.uniform(1, 359), rng.uniform(1, 359), 0])
        K = ('sect', c, r0, r1, s, e)
        op = rng.choice(ops)
        if op == 'sect.contains':
            r = rng.choice([(r0 + r1) / 2, r0, r1, r0 * 0.9, r1 * 1.1, r0 + 0.01, r1 - 0.01, r1 + 0.01])
            d = rng.choice([s, e, (s + e) / 2, (s + e) / 2 + 180, s + 1, s - 1, e + 1, e - 1, rng.uniform(-180, 180), 180, 0])
            yield op, [K, V(c[1] + r * math.cos(math.radians(d)), c[2] + r * math.sin(math.radians(d)))], None
        else:
            yield op, [K], None


# ---------------------------------------------------------------- regions
def around(rng, corners):
    """a line (two points) related to the corners of a region"""
    i = rng.randrange(len(corners))
    a, b = corners[i], corners[(i + 1) % len(corners)]
    far = corners[(i + 2) % len(corners)]
    w = rng.random()
    if w < 0.15:
        return lerp(a, b, rng.choice([0, -1, 0.25, -0.5])), lerp(a, b, rng.choice([1, 2, 0.75, 1.5]))   # along an edge
    if w < 0.35:
        return lerp(a, far, rng.choice([0, -1, -0.5, 0.25])), lerp(a, far, rng.choice([1, 2, 0.5, 1.5]))  # through a corner
    if w < 0.5:                                                                      # touching a corner from outside
        dx, dy = b[1] - far[1], b[2] - far[2]
        return off(a, -dx, -dy), off(a, dx, dy)
    p, q = lerp(a, b, rng.choice([0.5, 0.25, 0.75])), lerp(b, far, rng.choice([0.5, 0.25, 0.75, 0]))
    t, u = rng.choice([(0, 1), (-1, 2), (0.25, 0.75), (-1, 0), (1, 2), (-1, 0.5), (0.5, 3), (-2, -1)])
    return lerp(p, q, t), lerp(p, q, u)


def region_hits(rng, kind, n):
    for _ in range(n):
        f = Frame(rng)
        if kind == 'rect':
            l, w = rng.choice([1, 2, 4, 3]), rng.choice([1, 2, 4, 5])
            p = f.axis(0, 0)
            s = abs(f.s)
            R = ('rect', p[1], p[2], l * s, w * s)
            cs = [V(R[1], R[2]), V(R[1] + R[3], R[2]), V(R[1] + R[3], R[2] + R[4]), V(R[1], R[2] + R[4])]
        else:
            cs = [f(*p) for p in pts(rng, 3, 4)]
            R = ('tri',) + tuple(cs)
        if rng.random() < 0.75:
            a, b = around(rng, cs)
        else:
            a, b = f(*pts(rng, 1, 5)[0]), f(*pts(rng, 1, 5)[0])
        if a[1:] == b[1:]:
            continue
        k = rng.choice('LRSS')
        if k == 'L':
            x = ('linepp', a, b)
        elif k == 'S':
            x = ('seg', a, b)
        else:
            x = ('ray', a, math.degrees(math.atan2(b[2] - a[2], b[1] - a[1])))
        yield '%s.intersection%s' % (kind, k), [R, x], None


def tri_points(rng, ops, n):
    for _ in range(n):
        f = Frame(rng)
        op = rng.choice(ops)
        m = op.split('.')[1]
        if ('area' in m or 'ccw' in m or 'centroid' in m) and rng.random() < 0.15:
            f.shrunk()
        cs = [f(*p) for p in pts(rng, 3, 4)]
        T = ('tri',) + tuple(cs)
        i = rng.randrange(3)
        a, b, c = cs[i], cs[(i + 1) % 3], cs[(i + 2) % 3]
        p = rng.choice([a, lerp(a, b, 0.5), lerp(a, b, 0.25), lerp(a, b, 1.5), lerp(a, b, -0.5), lerp(lerp(a, b, 0.5), c, 0.5),
                        lerp(lerp(a, b, 0.5), c, -0.5), lerp(lerp(a, b, 0.5), c, 1.25), f(*pts(rng, 1, 5)[0]),
                        lerp(lerp(a, b, 0.25), c, 0.01), lerp(lerp(a, b, 0.25), c, -0.01)])
        if m == 'contains':
            yield op, [T, p], None
        elif m == 'tri_contains':
            yield op, cs + [p], None
        elif m.startswith('tri_') or m.endswith('_st'):
            yield op, cs, None
        else:
            yield op, [T], None


def star(rng, f, k=4):
    """simple polygon on grid points around a centre"""
    n = rng.randint(3, 8)
    if rng.random() < 0.12:
        n, k = rng.randint(14, 30), 6
    ps = list({(rng.randint(0, k), rng.randint(0, k)) for _ in range(n)})
    if len(ps) < 3:
        ps = [(0, 0), (k, 0), (k, k)]
    cx, cy = sum(p[0] for p in ps) / len(ps), sum(p[1] for p in ps) / len(ps)
    ps.sort(key=lambda p: (math.atan2(p[1] - cy, p[0] - cx), math.hypot(p[0] - cx, p[1] - cy)))
    if rng.random() < 0.5:
        ps.reverse()
    j = rng.randrange(len(ps))
    return [f(*p) for p in ps[j:] + ps[:j]]


SHAPES = [
    [(0, 0), (4, 0), (4, 4), (0, 4)],                                     # square
    [(0, 0), (4, 0), (4, 2), (2, 2), (2, 4), (0, 4)],                     # L
    [(0, 0), (6, 0), (6, 4), (4, 4), (4, 2), (2, 2), (2, 4), (0, 4)],     # U
    [(0, 0), (2, 2), (4, 0), (4, 4), (2, 3), (0, 4)],                     # notches
    [(2, 0), (4, 2), (2, 4), (0, 2)],                                     # diamond
    [(0, 0), (6, 1), (0, 2), (6, 3), (0, 4)],                             # zigzag (self-touching free)
    [(0, 0), (1, 2), (2, 0), (3, 2), (4, 0), (4, 4), (0, 4)],             # saw
    [(0, 0), (4, 4), (4, 0), (0, 4)],                                     # bow tie
]


def saw(rng):
    """many teeth: 7 to 27 vertices"""
    m = rng.randint(2, 12)
    top = [(x, rng.choice([2, 3, 4]) if x % 2 else rng.choice([0, 1])) for x in range(2 * m + 1)]
    return top + [(2 * m, 5), (0, 5)]


def shape(rng, f):
    if rng.random() < 0.1:
        s = saw(rng)
        j = rng.randrange(len(s))
        s = s[j:] + s[:j]
        return [f(*p) for p in (s if rng.random() < 0.5 else s[::-1])]
    if rng.random() < 0.5:
        return star(rng, f)
    s = rng.choice(SHAPES)
    j = rng.randrange(len(s))
    s = s[j:] + s[:j]
    if rng.random() < 0.5:
        s = s[::-1]
    return [f(*p) for p in s]


def poly_points(rng, ops, n):
    for _ in range(n):
        f = Frame(rng)
        op = rng.choice(ops)
        m = op.split('.')[1]
        if ('area' in m or 'clockwise' in m) and rng.random() < 0.15:
            f.shrunk()
        vs = shape(rng, f)
        if rng.random() < 0.08:
            vs = vs[:rng.choice([1, 2, 2, 2])]        # a point, or a segment walked there and back
        P = ('poly', vs)
        if m in ('contains', 'dist'):
            i = rng.randrange(len(vs))
            a, b = vs[i], vs[(i + 1) % len(vs)]
            c = rng.choice(vs)
            p = rng.choice([a, lerp(a, b, 0.5), lerp(a, b, 0.25), V(c[1] - 1.5 * f.s, c[2]), V(c[1] + f.s, c[2]), V(c[1], c[2] + f.s / 2),
                            V(lerp(a, b, 0.5)[1], c[2]), V(lerp(a, c, 0.5)[1], c[2]), f(*pts(rng, 1, 5)[0]), lerp(a, c, 0.5),
                            f(rng.uniform(-1, 6), rng.uniform(-1, 5)), f(rng.randint(-2, 10) / 2, rng.randint(-2, 10) / 2)])
            yield op, [P, p] + rng.choice([[], [True], [False]]), None
        else:
            yield op, [P], None


def clips(rng, n):
    for _ in range(n):
        exact = rng.random() < 0.8
        s = rng.choice([1, 1.0, 2, 0.5, 10, 4]) if exact else rng.uniform(0.5, 8)
        dx, dy = (rng.choice([0, 0, -1, 12.5, -40]), rng.choice([0, 0, -2, 7.5, 30])) if exact else (rng.uniform(-50, 50), rng.uniform(-30, 30))
        f = lambda x, y: V(s * x + dx, s * y + dy)
        vs = shape(rng, f)
        half = rng.choice([1, 2])
        x0, y0 = rng.randint(-4, 8) / half / 1, rng.randint(-4, 8) / half
        l, w = rng.randint(1, 12) / half, rng.randint(1, 12) / half
        if not exact:
            x0, y0 = x0 + rng.uniform(0.01, 0.4), y0 + rng.uniform(0.01, 0.4)
        elif rng.random() < 0.5:
            x0, y0 = x0 + 0.25, y0 + 0.25
        if rng.random() < 0.5:
            w = 30                                    # nothing crosses the bottom side
        p = f(x0, y0)
        if rng.random() < 0.25:
            ax = rng.choice('xy')
            k = rng.choice([p, p, rng.choice(vs) if exact else p])[1 if ax == 'x' else 2]
            yield 'poly.clip_%s_%s' % (ax, rng.choice(['le', 'ge'])), [vs, k], None
        else:
            yield 'poly.get_rectangle_clipped_polygon', [('poly', vs), ('rect', p[1], p[2], l * s, w * s)], None


K1_INPUT = ('poly.get_rectangle_clipped_polygon',
            [('poly', [V(10, 10), V(0, 15), V(-10, 10), V(-10, -10), V(10, -10)]), ('rect', -10, -20, 20, 20)], None)


def hull_inputs(rng, ops, n):
    for i in range(n):
        f = Frame(rng)
        w = rng.random()
        if w < 0.45:
            k = rng.choice([1, 2, 3, 4])
            ps = pts(rng, rng.randint(3, 10), k)
        elif w < 0.55:
            a, b = pts(rng, 2, 3)
            ps = [(a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])) for t in rng.choices(range(-2, 4), k=rng.randint(3, 6))]
        elif w < 0.7:
            m = rng.randint(2, 4)
            ps = list(itertools.product(range(m), range(m)))
        elif w < 0.85:
            s = rng.choice(SHAPES)
            ps = s + rng.sample(s, rng.randint(0, 2)) + pts(rng, rng.randint(0, 3), 4)
        else:
            ps = [(rng.uniform(-9, 9), rng.uniform(-9, 9)) for _ in range(rng.randint(3, 12))]
        ps = ps[:14]
        if rng.random() < 0.15:                      # many corners
            m = rng.randint(8, 24)
            if rng.random() < 0.5:
                ps = [(x, x * x) for x in range(-(m // 2), m - m // 2)]
            else:
                ps = [(7 * math.cos(6.28 * j / m), 5 * math.sin(6.28 * j / m)) for j in range(m)]
            ps = ps + pts(rng, rng.randint(0, 4), 3)
        rng.shuffle(ps)
        pl = [f(*p) for p in ps]
        op = rng.choice(ops)
        h = 'H%d' % i
        yield 'hull.new', [pl], h
        yield op, [('ref', h)], None
        if rng.random() < 0.5:
            yield rng.choice(['hull.vertices', 'hull.edges', 'hull.to_polygon', 'hull.input_points']), [('ref', h)], None
        if rng.random() < 0.4:
            if rng.random() < 0.5:
                yield 'hull.add_point', [('ref', h), f(*pts(rng, 1, 6)[0])], None
            else:
                yield 'hull.add_points', [('ref', h), [f(*p) for p in pts(rng, 2, 6)]], None
            yield rng.choice(ops), [('ref', h)], None


def matrices(rng, n):
    """composition laws on live matrices: translate/scale/rotate/compose/invert/apply"""
    for i in range(n):
        a = 'M%d' % i
        v = V(rng.randint(-8, 8) / 2, rng.randint(-8, 8) / 2)
        yield 'mat.new6', [rng.randint(-6, 6) / 2 for _ in range(6)], a
        for _ in range(3):
            k = rng.random()
            if k < 0.3:
                yield 'mat.translate', [('ref', a), rng.randint(-9, 9) / 2, rng.randint(-9, 9)], None
            elif k < 0.5:
                yield 'mat.scale', [('ref', a), rng.choice([2, 0.5, -1, 3]), rng.choice([2, 0.25, -2, 1])], None
            elif k < 0.75:
                yield 'mat.rotate', [('ref', a), ('ang', rng.choice(SPECIAL))], None
            else:
                yield 'mat.imul', [('ref', a), ('mat',) + tuple(rng.randint(-4, 4) / 2 for _ in range(6))], None
            yield rng.choice(['mat.transformV', 'mat.mulV']), [('ref', a), v], None
        yield 'mat.inverted', [('ref', a)], a + 'i'
        yield 'mat.mulM', [('ref', a), ('ref', a + 'i')], None
        yield 'mat.transform_vec', [('ref', a), v], None
        yield 'mat.det', [('ref', a)], None
