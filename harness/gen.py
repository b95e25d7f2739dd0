"""Input generation: values by kind, single-call batteries and heap sessions."""
import ast
import glob
import math
import random

from sigs import SIG, RES, MUT

MODES = ['tight', 'grid', 'half', 'dyad', 'field', 'float', 'log', 'tiny', 'mined', 'micro', 'macro', 'vast']


def folded(n):
    """the number an expression of literals stands for: 1e-3, 2 ** 20, 180 / 4"""
    if isinstance(n, ast.Constant) and type(n.value) in (int, float):
        return n.value
    if isinstance(n, ast.BinOp):
        a, b = folded(n.left), folded(n.right)
        if a is None or b is None:
            return None
        try:
            if isinstance(n.op, ast.Pow):
                return a ** b if abs(a) <= 1000 and abs(b) <= 60 else None
            v = {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.Div: lambda: a / b,
                 ast.LShift: lambda: a << b if 0 <= b < 60 else None}.get(type(n.op), lambda: None)()
            return v if isinstance(v, (int, float)) and v == v else None
        except (ArithmeticError, TypeError, ValueError):
            return None
    return None


def mined():
    """numeric literals of the working tree: thresholds and constants the code
    compares with are interesting inputs"""
    out = set()
    for f in sorted(glob.glob('/repo/src/pyrusgeom/*.py')):
        try:
            tree = ast.parse(open(f).read())
        except (SyntaxError, OSError, ValueError):
            continue
        for n in ast.walk(tree):
            v = folded(n)
            if v is not None and abs(v) <= 1e7:
                out.add(abs(float(v)))
    return sorted(out)


MINED = mined()


def mine(r):
    """a constant of the code, or a number beside it"""
    c = r.choice([-1, 1]) * r.choice(MINED)
    return r.choice([c, c, c, c + 1e-3, c - 1e-3, c + 1, c - 1, c * 0.5, c * 2, c * 0.99, c * 1.01])


def near_special(r, dyadic=False):
    """an angle beside a direction where something changes, at any distance"""
    e = r.choice([1, -1]) * (2.0 ** -r.randint(1, 7) if dyadic else 10 ** r.uniform(-6, 0.7))
    return r.choice([0, 0, 0, 180, -180, 90, -90, 45, -135, 360, -360, 270, -270, 540]) + e


class Gen:
    def __init__(self, rng, mode='grid', lo=-4, hi=4):
        self.rng = rng
        self.mode = mode
        self.lo, self.hi = lo, hi
        self.recent = []
        # tight: few, evenly spaced values, so that coincidences are the rule
        self.span = rng.choice([1, 2, 2, 3])
        self.scale = rng.choice([1, 1, 1.0, 2, 0.5, 3, 10, 7.5, 0.015625, 64])
        self.micro = rng.choice([1e-3, 2.0 ** -10, 1e-2, 2.0 ** -8, 3e-3])
        self.vast = rng.choice([1e4, 65536.0, 1e5, 2 ** 20, 1e6])
        self.off = rng.choice([0, 0, 0, -1, -2, 5, 0.25, -50, 100.5])

    # ---- numbers
    def num(self):
        r = self.rng
        if self.recent and r.random() < 0.12:
            return r.choice(self.recent)
        m = self.mode
        if r.random() < 0.03:
            m = r.choice(MODES)
        if m == 'tight':
            return self.off + self.scale * r.randint(0, self.span)
        if m == 'grid':
            v = r.randint(self.lo, self.hi)
            v = float(v) if r.random() < 0.6 else v
        elif m == 'half':
            v = r.randint(-16, 16) / 2
        elif m == 'dyad':
            v = r.randint(-6400, 6400) / 64
        elif m == 'field':
            v = round(r.uniform(-60, 60), r.choice([1, 2, 3]))
        elif m == 'float':
            v = r.uniform(-100, 100)
        elif m == 'log':
            v = r.choice([-1, 1]) * 10 ** r.uniform(-3, 4)
        elif m == 'micro':          # small figures: a few thousandths across
            v = r.uniform(-1, 1) * self.micro if r.random() < 0.5 else r.randint(-4, 4) * self.micro
        elif m == 'macro':
            v = r.randint(-4, 4) * 500.0 if r.random() < 0.5 else r.uniform(-4000, 4000)
        elif m == 'vast':
            v = r.randint(-4, 4) * self.vast if r.random() < 0.5 else r.uniform(-4, 4) * self.vast
        elif m == 'tiny':
            v = r.choice([0.0, 1.0, -1.0]) + r.choice([-1, 1]) * 1e-6 * r.choice([0, 0.3, 0.9, 1.1, 2, 50])
        else:
            v = mine(r)
        if len(self.recent) < 12:
            self.recent.append(v)
        elif r.random() < 0.2:
            self.recent[r.randrange(12)] = v
        return v

    def pos(self):
        v = abs(self.num())
        return v if v > 1e-9 else self.rng.choice([1, 2.0, 0.5])

    def deg(self):
        r = self.rng
        if r.random() < 0.15:
            return near_special(r, self.mode in ('tight', 'grid', 'half', 'dyad'))
        k = r.random()
        if self.mode in ('tight', 'grid', 'half'):
            if k < 0.7:
                return r.choice([15, 30, 45, 90]) * r.choice([1, 1.0]) * r.randint(-8, 8)
            if k < 0.8:
                return r.choice([180.0, -180.0, 180, -180, 0, -0.0, 360, -360, 540.0, -540.0, 720, 179, -179])
            if k < 0.95:
                return r.randint(-400, 400)
            return r.randint(-100000, 100000) / 4
        if k < 0.25:
            return r.choice([180.0, -180.0, 0.0, 90.0, -90.0, 360.0, -360.0, 179.999, -179.999, 180.001, -180.001,
                             270.0, -270.0, 45.0, 135.0, -135.0, 1.0, -1.0, 540.0, 720.5, 1e-7, -1e-7])
        if k < 0.7:
            return r.uniform(-180, 180)
        if k < 0.9:
            return r.uniform(-1000, 1000)
        if k < 0.95:
            return r.choice([-1, 1]) * 10 ** r.uniform(2, 6)
        return mine(r)

    def ang(self):
        return ('ang', self.deg())

    # ---- geometry
    def vec(self, invalid=0.0):
        if self.rng.random() < invalid:
            return ('vec', self.num(), self.num(), False)
        return ('vec', self.num(), self.num())

    def near(self, v):
        """a point close to (or the same as) v"""
        r = self.rng
        e = lambda: r.choice([0, 0, 5e-7, -5e-7, 1.5e-6, -1.5e-6, 1e-3, 0.9e-6, -0.9e-6])
        return ('vec', v[1] + e(), v[2] + e())

    def line(self):
        r = self.rng
        k = r.random()
        if k < 0.45:
            p, q = self.vec(), self.vec()
            if p[1] == q[1] and p[2] == q[2]:
                q = ('vec', q[1] + 1, q[2])
            return ('linepp', p, q)
        if k < 0.6:
            a, b, c = r.choice([(1, 0), (0, 1), (0, -2), (-3, 0), (1, 1), (1, -1)]) + (self.num(),)
            return ('line', a, b, c)
        a, b = self.num(), self.num()
        if abs(a) < 1e-3 and abs(b) < 1e-3:
            a = 1.0
        return ('line', a, b, self.num())

    def ray(self):
        return ('ray', self.vec(), self.deg())

    def seg(self, invalid=0.0):
        p = self.vec(invalid)
        r = self.rng
        q = self.vec(invalid)
        if r.random() < 0.04:
            q = p
        elif r.random() < 0.04:
            q = self.near(p)
        return ('seg', p, q)

    def tri(self, invalid=0.0):
        return ('tri', self.vec(invalid), self.vec(invalid), self.vec(invalid))

    def circ(self):
        return ('circ', self.vec(), self.pos())

    def sect(self):
        a, b = abs(self.num()), self.pos()
        if a > b and self.rng.random() < 0.9:
            a, b = b, a
        return ('sect', self.vec(), a, b, self.deg(), self.deg())

    def rect(self):
        l, w = self.num(), self.num()
        if self.rng.random() < 0.9:
            l, w = abs(l) or 1, abs(w) or 2.0
        return ('rect', self.num(), self.num(), l, w)

    def mat(self):
        r = self.rng
        k = r.random()
        if k < 0.15:
            return ('mat', 1.0, 0.0, 0.0, 1.0, self.num(), self.num())
        if k < 0.3:
            a, b = self.num(), self.num()
            s = r.choice([0, 1, 2, -1])
            return ('mat', a, b, s * a, s * b, self.num(), self.num())
        return ('mat',) + tuple(self.num() for _ in range(6))

    def points(self, lo=0, hi=8):
        n = self.rng.randint(lo, hi)
        return [self.vec() for _ in range(n)]

    def simple_polygon(self, n=None):
        """star-shaped around a centre: never self-intersecting (up to ties)"""
        import math
        r = self.rng
        n = n or (r.randint(3, 8) if r.random() < 0.9 else r.randint(9, 24))
        pts = [self.vec() for _ in range(n)]
        cx = sum(p[1] for p in pts) / n
        cy = sum(p[2] for p in pts) / n
        pts.sort(key=lambda p: math.atan2(p[2] - cy, p[1] - cx))
        if r.random() < 0.5:
            pts.reverse()
        k = r.randrange(n)
        return pts[k:] + pts[:k]

    def poly(self):
        if self.rng.random() < 0.6:
            return ('poly', self.simple_polygon())
        return ('poly', self.points(0, 7) if self.rng.random() < 0.9 else self.points(8, 20))

    def hull(self):
        return ('hull', self.points(0, 10))

    def mult(self):
        r = self.rng
        if self.mode in ('tight', 'grid', 'half', 'dyad'):
            return r.choice([0, 1, 2, -1, 0.5, -0.5, 3, 0.25, 1.0, -2.0, 4])
        return r.choice([0.0, 1.0, -1.0, r.uniform(-3, 3), r.uniform(-20, 20), 0.1, 0.94])

    def div(self):
        v = self.mult()
        return v if v else 2.0

    def arg(self, kind):
        r = self.rng
        if kind == 'n':
            return self.num()
        if kind == 'p':
            return self.pos()
        if kind == 'q':
            return abs(self.num())
        if kind == 'm':
            return self.mult()
        if kind == 'd':
            return self.div()
        if kind == 'i':
            return r.randint(0, 30)
        if kind == 'b':
            return r.random() < 0.5
        if kind == 'D':
            return self.deg()
        if kind == 'A':
            return self.ang()
        if kind == 'a':
            return self.ang() if r.random() < 0.5 else self.deg()
        if kind == 'e':
            return r.choice([r.uniform(-180, 180), r.randint(-180, 180), 0, 90, -45])
        if kind == 't':
            return r.choice([10.0, 1.0, 45, 90.0, 170, 5e-1, r.uniform(0.01, 179)])
        if kind == 'u':
            return r.choice([r.uniform(-1, 1), r.uniform(-1, 1), 1, -1, 0, 0.5, -0.5, 1.0000001, -1.0000001, 2.0, -2,
                             0.9999999, -0.9999999])
        if kind == 'o':
            return r.choice([None, 3, 'text', 1.5, ('ang', 30), ('seg', ('vec', 0, 0), ('vec', 1, 1)), [],
                             ('size', 1, 2)])
        if kind == 'V':
            return self.vec()
        if kind == 'W':
            return self.vec(0.25)
        if kind == 'l':
            return self.points()
        return {'L': self.line, 'R': self.ray, 'S': self.seg, 'T': self.tri, 'C': self.circ, 'K': self.sect,
                'Z': lambda: ('size', self.num(), self.num()), 'Q': self.rect, 'P': self.poly, 'H': self.hull,
                'M': self.mat}[kind]()


_V, _V2 = ('vec', 1.0, 2.0), ('vec', 3, -1)
_S, _A, _Z = ('seg', _V, _V2), ('ang', 30), ('size', 2, 3)
_L, _Q, _C, _T = ('line', 1, 2, 3), ('rect', 0, 0, 2, 3), ('circ', _V, 2), ('tri', _V, _V2, ('vec', 0, 5))
BAD = {
    'ang.bad': [(1, 2), (1, 2, 3), ('x',), (None,), ([],)],
    'vec.bad': [(1,), (1.5,), ('a', 'b'), (None,), (_V, _V2), (1, 2, 3), ([],), (1, 'a'), (_A,), (_S,), (_V, 1),
                (None, None), (1, None)],
    'ang.bad_kw': [('degree', 3), ('x y', 1, 2), ('deg', 1.5), ('angle', _A)],
    'vec.bad_kw': [('x', 1), ('y', 2.5), ('r', 1), ('a', 30), ('x r', 1, 2), ('y a', 1, 30), ('x a', 1, 2), ('y r', 2, 3), ('foo bar', 1, 2),
                   ('x y z', 1, 2, 3), ('x y r', 1, 2, 3), ('x y a', 1, 2, 3), ('x r a', 1, 2, 30), ('y r a', 1, 2, 30),
                   ('x y r a', 1, 2, 3, 4), ('v', _V), ('r a v', 1, 2, _V)],
    'line.bad_kw': [('a', 1), ('a b', 1, 2), ('b c', 1, 2), ('a c', 1, 2), ('p1', _V), ('p2', _V), ('p', _V), ('p b', _V, 2), ('p1 p', _V, _V2),
                    ('p2 a', _V, 30), ('p1 a', _V, 30), ('foo', 3), ('line', _L)],
    'vec.bad_add': [(_V,), (_V, 1), (_V, 1, 2, 3), (_V, 'a'), (_V, None), (_V, _S), (_V, _V, _V, _V)],
    'line.bad': [(1, 2), (_V,), (_V, 'x'), (1,), (), (_V, _V2, _V), (_S,), (1, _V), (1, 2, 'x'), (None,), (_V, None),
                 (1, 2, 3, 4)],
    'ray.bad': [(_V, 'x'), (_V, None), (_V, _S), (_V, []), (1, 30), (_S, 30)],
    'ray.bad_intersection': [(('ray', _V, 30), x) for x in (_V, None, _C, _S, 3)],
    'seg.bad': [(_V,), (1,), (1, 2), (1, 2, 3, 4, 5), ('a', 'b'), (None, None), (_V, 1), (1, 2, 3, None)],
    'seg.bad_dist': [(_S, x) for x in (None, 1, _C, _A, 'x', _L)],
    'tri.bad': [(_V,), (1, 2, 3), (_V, _V2), (_V, _V2, _V, _V), (), (_V, _V2, 1), (_S, 1), (_S,)],
    'rect.bad': [(), (1,), (1, 2), (_V,), (_V, 1, 2, 3), (1, 2, 3), (_Z,), (1, 2, 3, 4, 5), (_V, 3), (None,), (_V, None)],
    'rect.bad_intersection': [(_Q, x) for x in (_V, None, _C, _Q, 3, _T)],
    'rect.bad_size': [(_Q,), (_Q, 1), (_Q, 1, 2, 3), (_Q, 'x'), (_Q, _V), (_Q, None)],
    'rect.bad_center': [(), (1,), (1, 2), (1, 2, 3, 4, 5), (1, 2, 3)],
    'circ.bad_intersection': [(_C, x) for x in (_V, None, _Q, 3, _T)],
    'mat.bad_transform': [(('mat', 1, 0, 0, 1, 2, 3),), (('mat', 1, 0, 0, 1, 2, 3), 1, 2, 3)],
}


def soc_args(g, op):
    r = g.rng
    ex = g.mode in ('tight', 'grid', 'half', 'dyad')

    def num(lo, hi, d=64):
        if not ex and r.random() < 0.1:
            c = mine(r)
            if lo <= c <= hi:
                return c
        if ex:
            return r.randint(int(lo * d), int(hi * d)) / d
        if r.random() < 0.4:
            return round(r.uniform(lo, hi), 2)
        return r.uniform(lo, hi)
    decay = lambda: r.choice([0.5, 0.25, 0.75, 0.875]) if ex else r.choice([0.94, 0.4, 0.96, 0.3, num(0.02, 0.99)])
    rate = lambda: r.choice([0.5, 2, 0.25, 1.5, 0.875, 1.25, 3]) if ex else r.choice([0.94, 1.1, 0.4, num(0.05, 0.97),
                                                                                 num(1.03, 3)])
    n = lambda lo=0: r.choice([lo, lo, 1, 2, 3, 5, 8, 20, r.randint(lo, 60), r.randint(60, 400), counted(lo)])
    counted = lambda lo: r.choice([int(c) + d for c in MINED if c == int(c) and 2 <= c <= 5000 for d in (-1, 0, 1)] or [lo])
    slow = lambda: r.choice([0.96, 0.98, 0.99, 0.995, r.uniform(0.95, 0.998)])
    vec = lambda s=60: r.choice([('vec', num(-20 * s, 20 * s), num(-20 * s, 20 * s)), ('vec', 0, 0), ('vec', num(-3, 3), num(-3, 3)), ('vec', num(-s, s), num(-s, s)),
                                 ('vec', num(-s, s), 0.0), ('vec', 0.0, num(-s, s))])
    ang = lambda: r.choice([0, 90, -90, 180, -180, 45, 135, 89.5, 90.5, -89.5, num(-180, 180), num(-180, 180)])
    m = op.split('.')[1]
    if m == 'kick_rate':
        return [r.choice([num(0, 3), 0.385, 0, 1.085]), ang(), r.choice([0.027, num(0, 1), 1]), r.choice([0.085, 0.0, 0.5]),
                r.choice([0.3, 0.0, 0.25]), r.choice([0.7, 1, 0.5, num(0.1, 2)])]
    if m == 'dir_rate':
        return [ang(), r.choice([0.6, 0.5, 1, num(0, 1)]), r.choice([0.4, 0.25, 1, num(0, 1)])]
    if m == 'effective_turn':
        return [r.choice([ang(), num(-500, 500)]), r.choice([0, num(0, 3), 1.05]), r.choice([5.0, num(0, 10), 0])]
    if m == 'final_speed':
        return [r.choice([100, -100, num(-100, 100), 0, num(-400, 400)]), r.choice([0.006, num(0, 1)]), r.choice([1.0, num(0.5, 1)]), decay()]
    if m == 'can_over_speed_max':
        a, b, c, d = r.choice([100, -100, num(-100, 100)]), num(0, 1), num(0, 1), decay()
        return [a, b, c, d, r.choice([num(0, 200), 1.05, abs(a) * b * c / (1 - d), 0])]
    if m == 'wind_effect':
        return [num(0, 3), num(0.1, 3), num(0, 50), ang(), r.choice([10000.0, num(0.5, 20), 1]), num(0, 1),
                r.choice([('vec', 0, 0), ('vec', 1, 2), vec(5), None])]
    if m == 'inertia_n_step_travel':
        return [vec(5), n(), r.choice([decay(), decay(), slow()])]
    if m == 'inertia_n_step_point':
        return [vec(), vec(5), n(), r.choice([decay(), decay(), slow()])]
    if m == 'inertia_n_step_distance':
        return [num(0, 5), n(), r.choice([decay(), decay(), slow()])]
    if m == 'inertia_final_travel':
        return [vec(5), decay()]
    if m == 'inertia_final_point':
        return [vec(), vec(5), decay()]
    if m == 'inertia_final_distance':
        return [num(0, 5), decay()]
    if m == 'calc_length_geom_series':
        f, q, k = num(0, 5), rate(), n()
        s = f * (1 - q ** min(k, 20)) / (1 - q)
        if q < 1 and r.random() < 0.25:             # close to the limit
            s = f * (1 - 10 ** r.uniform(-11, -2)) / (1 - q)
        return [r.choice([f, f, f, 0, -1, 1e-11]), r.choice([s, s, num(0, 100), 0, -1.0, f / (1 - q) if q < 1 else 7, 5e-11]),
                r.choice([q, q, q, q, 0, 1e-11, -0.5])]
    if m == 'calc_first_term_geom_series':
        return [num(-20, 100), rate(), r.choice([1, 2, 3, 5, 12, r.randint(1, 25)])]
    if m == 'r_int':
        return [r.choice([r.randint(-50, 50), r.randint(-50, 50) + 0.5, r.randint(-200, 200) / 4, num(-1000, 1000),
                          r.randint(-5, 5) + r.choice([0.4999999, 0.5000001, 1e-9, -1e-9]), r.choice([-1, 1]) * 10 ** r.uniform(0, 9),
                          r.choice([-1, 1]) * (r.choice([2 ** 31, 2 ** 32, 2 ** 33, 10 ** 10, 2 ** 40, r.randint(2 ** 30, 2 ** 42)]) + r.randint(-8, 8) / 8),
                          g.num()])]
    if m in ('quantize', 'unquantize_min', 'unquantize_max'):
        q = r.choice([1, 0.5, 2, 0.25, 0.125, 4]) if ex else r.choice([0.1, 0.01, 0.5, 1, num(0.05, 5)])
        far = r.choice([40, 40, 400, 4000, 10 ** 5, 10 ** 6])
        return [r.choice([num(-100, 100), r.randint(-far, far) * q, r.randint(-far, far) * q + q / 2,
                          r.randint(-far, far) * q + r.choice([0.25, 0.75]) * q, 0]), q]
    if m == 'quantize_dist':
        return [r.choice([num(0, 120), 10 ** r.uniform(-3, 2.3), 10 ** r.uniform(-8, 5), 0.1, 0, 1, 1.0]),
                r.choice([0.1, 0.01, 0.05, 0.5])]
    if m == 'unquantize_error':
        return [r.choice([r.randint(1, 1000) / 10, num(0.1, 120), 10 ** r.uniform(-3, 4), 0, 0.1]), r.choice([0.1, 0.01, 0.05, 0.5])]
    if m in ('bound', 'min_max'):
        lo, x, hi = sorted([g.num(), g.num(), g.num()])
        if r.random() < 0.6:
            lo, hi = sorted([g.num(), g.num()])
            x = r.choice([g.num(), lo, hi, lo - 1, hi + 1])
        return [lo, x, hi]
    st = r.choice([1, 2, 0.5, -1, -0.5, 3, 0.25, -2]) if ex else r.choice([0.1, 0.3, 1, -0.1, num(0.1, 3), -num(0.1, 3)])
    a, b = r.choice([num(-5, 5), r.randint(-4, 4), 0]), r.choice([num(-5, 5), r.randint(-4, 4), 0])
    if r.random() < 0.1:
        a = r.choice([a, r.randint(-1000, 1000)])
        b = a + r.choice([-1, 1]) * (r.choice([20, 60, 200]) if m == 'f_range3' else r.choice([30, 130, 300, 600]))
    return {'f_range1': [r.choice([a, abs(b)])], 'f_range2': [a, b], 'f_range3': [a, b, st]}[m]


CLASS_KIND = {'ang': 'A', 'vec': 'V', 'line': 'L', 'ray': 'R', 'seg': 'S', 'tri': 'T', 'circ': 'C', 'sect': 'K',
              'size': 'Z', 'rect': 'Q', 'poly': 'P', 'hull': 'H', 'mat': 'M'}
NEAR_OPS = {'vec.equals', 'vec.eq', 'vec.ne', 'vec.hash_eq', 'vec.equals_weakly', 'seg.eq', 'seg.equals_weakly',
            'ray.eq', 'ang.eq', 'line.eq', 'size.eq', 'sect.eq', 'mat.eq'}


def perturb(g, d):
    """same description, or with one number nudged"""
    r = g.rng

    def walk(x):
        if isinstance(x, tuple):
            return (x[0],) + tuple(walk(y) for y in x[1:])
        if isinstance(x, bool) or not isinstance(x, (int, float)):
            return x
        if r.random() < 0.35:
            return x + r.choice([5e-7, -5e-7, 1.5e-6, -1.5e-6, 1, 1e-3, 0.99e-6, 1.01e-6])
        return x
    k = r.random()
    if k < 0.2:
        return d
    if k < 0.45:
        return respell(d)
    return walk(d)


def respell(d):
    """the same numbers written differently: 2 / 2.0, 0 / -0.0"""
    if isinstance(d, tuple):
        return (d[0],) + tuple(respell(x) for x in d[1:])
    if isinstance(d, bool) or not isinstance(d, (int, float)):
        return d
    if d == 0:
        return -0.0 if isinstance(d, int) or math.copysign(1, d) > 0 else 0
    if isinstance(d, int):
        return float(d)
    return int(d) if d == int(d) else d


def scaled_line(g, l):
    if l[0] != 'line':
        return perturb(g, l)
    k = g.rng.choice([2, -1, 0.5, -3.0, 1])
    return ('line', l[1] * k, l[2] * k, l[3] * k)


def calls(g, ops, n):
    """n independent calls on fresh values"""
    r = g.rng
    ops = list(ops)
    steps = []
    for _ in range(n):
        op = r.choice(ops)
        if op in BAD:
            steps.append((op, list(r.choice(BAD[op])), None))
            continue
        if op.startswith('soc.'):
            steps.append((op, soc_args(g, op), None))
            continue
        args = [g.arg(k) for k in r.choice(SIG[op])]
        if op in NEAR_OPS and r.random() < 0.7:
            args[1] = scaled_line(g, args[0]) if op == 'line.eq' and r.random() < 0.5 else perturb(g, args[0])
            if op == 'ang.eq' and not isinstance(args[1], tuple):
                args[1] = g.ang()
        steps.append((op, args, None))
    return steps


KEEPS_POINTS = {'poly.add_vertex', 'hull.add_point', 'poly.live_vertices', 'hull.live_inputs'}


def session(g, ops, n, size=9, p_ref=0.8, p_mut=0.5, seedkinds=None):
    """a history on a heap of live objects: mutators and queries interleaved"""
    r = g.rng
    ops = [o for o in ops if o in SIG]
    muts = [o for o in ops if o in MUT]
    quer = [o for o in ops if o not in MUT]
    makers = {}
    for o in ops:
        if o in RES and o.split('.')[1].startswith('new'):
            makers.setdefault(RES[o], []).append(o)
    heap = {}                    # kind -> names
    steps = []
    count = 0
    kinds = sorted({CLASS_KIND[o.split('.')[0]] for o in ops if o.split('.')[0] in CLASS_KIND})

    def arg(kind):
        base = {'W': 'V', 'a': 'A'}.get(kind, kind)
        have = heap.get(base)
        if have and base not in 'lnD' and r.random() < p_ref:
            return ('ref', r.choice(have))
        return g.arg(kind)

    def emit(op):
        nonlocal count
        args = [arg(k) for k in r.choice(SIG[op])]
        # polygons and hulls keep the point objects they are given
        if op in KEEPS_POINTS:
            args = [g.arg('V') if isinstance(a, tuple) and a[0] == 'ref' and a[1][0] == 'V' else a for a in args]
        keep = None
        if op in RES and count < size and r.random() < 0.7:
            keep = '%s%d' % (RES[op], len(steps))
        steps.append((op, args, keep))
        if keep:
            heap.setdefault(RES[op], []).append(keep)
            count += 1

    for k in kinds:
        for _ in range(2):
            mk = makers.get(k)
            if mk and count < size:
                op = r.choice(mk)
                keep = '%s%d' % (k, len(steps))
                steps.append((op, [arg(x) if op not in KEEPS_POINTS else g.arg(x)
                                   for x in r.choice(SIG[op])], keep))
                heap.setdefault(k, []).append(keep)
                count += 1
    while len(steps) < n:
        if muts and r.random() < p_mut:
            op = r.choice(muts)
            k = CLASS_KIND.get(op.split('.')[0])
            if not heap.get(k):
                continue
            emit(op)
            if quer and r.random() < 0.7:
                # ask the object that was just changed
                same = [o for o in quer if o.split('.')[0] == op.split('.')[0]]
                last = steps[-1][1][0]
                if same and isinstance(last, tuple) and last[0] == 'ref':
                    q = r.choice(same)
                    args = [arg(x) for x in r.choice(SIG[q])]
                    if q in KEEPS_POINTS:
                        args = [g.arg('V') if isinstance(a, tuple) and a[0] == 'ref' and a[1][0] == 'V' else a
                                for a in args]
                    if args and SIG[q][0] and SIG[q][0][0] == CLASS_KIND[q.split('.')[0]]:
                        args[0] = last
                    steps.append((q, args, None))
        elif quer:
            emit(r.choice(quer))
        else:
            break
    return steps


MAKER = {'vec': 'vec.new', 'ang': 'ang.new', 'line': 'line.new', 'linepp': 'line.newPP', 'ray': 'ray.newA', 'seg': 'seg.newPP',
         'tri': 'tri.new3', 'circ': 'circ.new', 'sect': 'sect.new', 'size': 'size.new', 'rect': 'rect.new4', 'mat': 'mat.new6',
         'poly': 'poly.newL', 'hull': 'hull.new'}
CHANGERS = {}
for _o in sorted(MUT):
    if _o in SIG and SIG[_o] and SIG[_o][0] and SIG[_o][0][0] == CLASS_KIND.get(_o.split('.')[0]):
        CHANGERS.setdefault(SIG[_o][0][0], []).append(_o)


def deck(rng, ops):
    """the operations in random order, again and again: each gets its share"""
    ops = [o for o in ops if o in SIG or o.startswith('soc.')]
    while True:
        rng.shuffle(ops)
        yield from list(ops)


def echo(g, cards, n):
    """ask, change what was asked about or what was answered, ask the same again"""
    r = g.rng
    steps = []

    def name(d):
        if not isinstance(d, tuple) or d[0] not in MAKER or (d[0] == 'vec' and len(d) > 3) or r.random() < 0.2:
            return d
        nm = '%s%d' % (CLASS_KIND['line' if d[0] == 'linepp' else d[0]], len(steps))
        steps.append((MAKER[d[0]], list(d[1:]), nm))
        made[nm] = d[1:]
        return ('ref', nm)

    made = {}

    def change(ref):
        like = made.get(ref[1])
        for _ in range(r.choice([1, 1, 2])):
            if ref[1][0] == 'P' and like and like[0] and r.random() < 0.5:
                # other points, as many as before
                steps.append(('poly.assign', [ref, [g.vec() for _ in like[0]]], None))
                continue
            op = r.choice(CHANGERS[ref[1][0]])
            # no live object ends up inside another one
            steps.append((op, [ref] + [g.arg(k) for k in r.choice(SIG[op])[1:]], None))

    while len(steps) < n:
        op = next(cards)
        if op.startswith('soc.'):
            args = soc_args(g, op)
        else:
            args = [g.arg(k) for k in r.choice(SIG[op])]
            if op in NEAR_OPS and r.random() < 0.7:
                args[1] = perturb(g, args[0])
        args = [a if op in KEEPS_POINTS and i else name(a) for i, a in enumerate(args)]
        for rnd in range(r.choice([1, 1, 2])):
            keep = '%s%d' % (RES[op], len(steps)) if op in RES else None
            steps.append((op, list(args), keep))
            k = r.random()
            refs = [a for a in args if isinstance(a, tuple) and a[0] == 'ref' and a[1][0] in CHANGERS]
            if keep and keep[0] in CHANGERS and k < 0.7:
                change(('ref', keep))
            if refs and (k > 0.5 or not keep):
                change(r.choice(refs))
        steps.append((op, list(args), '%s%d' % (RES[op], len(steps)) if op in RES else None))
    return steps


def forms(g, cards, n):
    """make an object in some way (or re-assign it), then ask it anything"""
    r = g.rng
    steps = []
    while len(steps) < n:
        op = next(cards)
        if op not in SIG:
            continue
        sig = r.choice(SIG[op])
        args = [g.arg(k) for k in sig]
        if op in RES and not (sig and op.split('.')[1].startswith('assign')):
            kind, name = RES[op], '%s%d' % (RES[op], len(steps))
            steps.append((op, args, name))
        elif args and isinstance(args[0], tuple) and args[0][0] in MAKER:
            d = args[0]
            kind = CLASS_KIND['line' if d[0] == 'linepp' else d[0]]
            name = '%s%d' % (kind, len(steps))
            steps.append((MAKER[d[0]], list(d[1:]), name))
            for q in r.sample(ASKS[kind], min(2, len(ASKS[kind]))):        # whatever it remembers from before
                steps.append((q, [('ref', name)] + [g.arg(k) for k in r.choice(SIG[q])[1:]], None))
            steps.append((op, [('ref', name)] + args[1:], None))
        else:
            continue
        for q in r.sample(ASKS.get(kind, []), min(4, len(ASKS.get(kind, [])))):
            steps.append((q, [('ref', name)] + [g.arg(k) for k in r.choice(SIG[q])[1:]], None))
    return steps


ASKS = {}
for _o in sorted(SIG):
    if _o not in MUT and _o not in BAD and SIG[_o] and all(x and x[0] == CLASS_KIND.get(_o.split('.')[0]) for x in SIG[_o]) \
            and not _o.split('.')[1].startswith(('text', 'to_str', 'peek', 'new', 'assign', 'get_rectangle_clipped')):
        ASKS.setdefault(SIG[_o][0][0], []).append(_o)
