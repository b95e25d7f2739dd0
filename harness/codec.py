"""Projection of the library's objects to the abstract values of spec/Val.tla
(what the public accessors report), and construction of objects from plain
descriptions.  Floats become exact rationals: <<numerator, denominator>>, each
an integer <<sign, limb, limb, ...>> in base 10^4, least significant first."""
import math
import sys
sys.path.insert(0, '/repo/src')

from pyrusgeom.angle_deg import AngleDeg          # noqa: E402
from pyrusgeom.vector_2d import Vector2D          # noqa: E402
from pyrusgeom.line_2d import Line2D              # noqa: E402
from pyrusgeom.ray_2d import Ray2D                # noqa: E402
from pyrusgeom.segment_2d import Segment2D        # noqa: E402
from pyrusgeom.triangle_2d import Triangle2D      # noqa: E402
from pyrusgeom.circle_2d import Circle2D          # noqa: E402
from pyrusgeom.sector_2d import Sector2D          # noqa: E402
from pyrusgeom.size_2d import Size2D              # noqa: E402
from pyrusgeom.rect_2d import Rect2D              # noqa: E402
from pyrusgeom.polygon_2d import Polygon2D        # noqa: E402
from pyrusgeom.convex_hull import ConvexHull      # noqa: E402
from pyrusgeom.matrix_2d import Matrix2D          # noqa: E402


class NotFinite(Exception):
    pass


def _int(n):
    if n == 0:
        return [0]
    s = 1 if n > 0 else -1
    n = abs(n)
    out = [s]
    while n:
        n, d = divmod(n, 10000)
        out.append(d)
    return out


_cache = {}


def rat(x):
    """exact rational of a Python number"""
    key = (x, type(x) is float)
    got = _cache.get(key)
    if got is not None:
        return got
    if isinstance(x, float):
        if not math.isfinite(x):
            raise NotFinite()
        n, d = x.as_integer_ratio()
    elif isinstance(x, int):
        n, d = int(x), 1
    else:
        raise NotFinite()
    got = [_int(n), _int(d)]
    if len(_cache) < 200000:
        _cache[key] = got
    return got


def _vec(v):
    if not isinstance(v, Vector2D):
        raise NotFinite()
    return {'t': 'vec', 'x': rat(v.x()), 'y': rat(v.y()), 'ok': bool(v.is_valid())}


def _ang(a):
    if not isinstance(a, AngleDeg):
        raise NotFinite()
    return rat(a.degree())


def _project(o):
    if o is None:
        return {'t': 'none'}
    if isinstance(o, bool):
        return {'t': 'bool', 'v': o}
    if isinstance(o, (int, float)):
        return {'t': 'num', 'v': rat(o)}
    if isinstance(o, Vector2D):
        return _vec(o)
    if isinstance(o, AngleDeg):
        return {'t': 'ang', 'd': _ang(o)}
    if isinstance(o, Line2D):
        return {'t': 'line', 'a': rat(o.a()), 'b': rat(o.b()), 'c': rat(o.c())}
    if isinstance(o, Ray2D):
        return {'t': 'ray', 'o': _vec(o.origin()), 'd': _ang(o.dir())}
    if isinstance(o, Segment2D):
        return {'t': 'seg', 'o': _vec(o.origin()), 'e': _vec(o.terminal())}
    if isinstance(o, Triangle2D):
        return {'t': 'tri', 'a': _vec(o.a()), 'b': _vec(o.b()), 'c': _vec(o.c())}
    if isinstance(o, Circle2D):
        return {'t': 'circ', 'c': _vec(o.center()), 'r': rat(o.radius())}
    if isinstance(o, Sector2D):
        return {'t': 'sect', 'c': _vec(o.center()), 'r0': rat(o.radius_min()), 'r1': rat(o.radius_max()),
                's': _ang(o.angle_left_start()), 'e': _ang(o.angle_right_end())}
    if isinstance(o, Size2D):
        return {'t': 'size', 'l': rat(o.length()), 'w': rat(o.width())}
    if isinstance(o, Rect2D):
        s = o.size()
        return {'t': 'rect', 'x0': rat(o.left()), 'y0': rat(o.top()), 'x1': rat(o.right()),
                'y1': rat(o.bottom()), 'l': rat(s.length()), 'w': rat(s.width())}
    if isinstance(o, Matrix2D):
        return {'t': 'mat', 'a': rat(o.m11()), 'b': rat(o.m12()), 'c': rat(o.m21()), 'd': rat(o.m22()),
                'x': rat(o.dxtf()), 'y': rat(o.dytf())}
    if isinstance(o, Polygon2D):
        return {'t': 'poly', 'v': [_vec(v) for v in o.vertices()]}
    if isinstance(o, ConvexHull):
        return {'t': 'hull', 'i': [_vec(v) for v in o.input_points()],
                'v': [_vec(v) for v in o.vertices()], 'e': [_project(e) for e in o.edges()]}
    if isinstance(o, (list, tuple)):
        return {'t': 'list', 'v': [_project(e) for e in o]}
    if isinstance(o, str):
        return {'t': 'str'}
    raise NotFinite()


BAD = {'t': 'bad'}


def project(o):
    """abstract value of o; `bad` when it is not a finite value of the API"""
    try:
        return _project(o)
    except Exception:           # a broken accessor is a broken value
        return BAD


_ATOMS = (type(None), bool, int, float, str)


def is_object(o):
    return not isinstance(o, _ATOMS)


# --- exactness ---------------------------------------------------------------
_GRID = set()


def _pow2(limbs):
    n = 0
    for d in reversed(limbs[1:]):
        n = n * 10000 + d
    return n


def exact(value, den=256, big=4096):
    """all numbers inside are small dyadic: floating point arithmetic of low
    degree on them is exact"""
    if isinstance(value, dict):
        return all(exact(v, den, big) for k, v in value.items() if k != 't')
    if isinstance(value, list):
        if len(value) == 2 and value[0] and value[1] and isinstance(value[0][0] if isinstance(value[0], list) else None, int):
            d = _pow2(value[1])
            return d <= den and den % d == 0 and _pow2(value[0]) <= big * d
        return all(exact(v, den, big) for v in value)
    return True


def sane(value, lim=10 ** 8, den=2 ** 220):
    """inside the judged domain: not astronomically large or fine"""
    if isinstance(value, dict):
        return all(sane(v, lim, den) for k, v in value.items() if k != 't')
    if isinstance(value, list):
        if len(value) == 2 and value[0] and value[1] and isinstance(value[0][0] if isinstance(value[0], list) else None, int):
            d = _pow2(value[1])
            return d <= den and _pow2(value[0]) <= lim * d
        return all(sane(v, lim, den) for v in value)
    return True


# --- construction from descriptions -------------------------------------------
# A description is a Python number / bool / None / str / ('ref', name) or
# (kind, component...) as below; lists are ['...'] Python lists of descriptions.
def build(d):
    if isinstance(d, _ATOMS):
        return d
    if isinstance(d, list):
        return [build(x) for x in d]
    k = d[0]
    if k == 'vec':
        v = Vector2D(d[1], d[2])
        if len(d) > 3 and not d[3]:
            v.invalidate()
        return v
    if k == 'ang':
        return AngleDeg(d[1])
    if k == 'line':
        return Line2D(d[1], d[2], d[3])
    if k == 'linepp':
        return Line2D(build(d[1]), build(d[2]))
    if k == 'ray':
        return Ray2D(build(d[1]), AngleDeg(d[2]))
    if k == 'seg':
        return Segment2D(build(d[1]), build(d[2]))
    if k == 'tri':
        return Triangle2D(build(d[1]), build(d[2]), build(d[3]))
    if k == 'circ':
        return Circle2D(build(d[1]), d[2])
    if k == 'sect':
        return Sector2D(build(d[1]), d[2], d[3], AngleDeg(d[4]), AngleDeg(d[5]))
    if k == 'size':
        return Size2D(d[1], d[2])
    if k == 'rect':
        return Rect2D(d[1], d[2], d[3], d[4])
    if k == 'mat':
        return Matrix2D(*d[1:])
    if k == 'poly':
        return Polygon2D([build(x) for x in d[1]])
    if k == 'hull':
        return ConvexHull([build(x) for x in d[1]])
    raise ValueError(k)
