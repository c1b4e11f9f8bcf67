"""A small exact model of the shapely classes the library uses, on symbolic coordinates.

Installed by a harness's ``patch`` only for the symbolic run; counterexamples are replayed with
the real shapely.  Anything not modelled raises SymError (the item is then reported as not
explored, never as a violation).
"""

from __future__ import annotations

from fractions import Fraction as F

import numpy as np
import shapely
import shapely.affinity
import shapely.errors
import shapely.ops

from . import poly as P
from .core import ENGINE, Sym, SymError, symf, symmax, symmin
from .npshim import NP


class Hooks:
    """operations a harness may supply"""

    union = None
    difference = None
    intersection = None
    symmetric_difference = None
    buffer = None
    split = None
    contains = None
    representative = None


HOOKS = Hooks()


def reset_hooks(**kw):
    for k in ("union", "difference", "intersection", "symmetric_difference", "buffer", "split",
              "contains", "representative"):
        setattr(HOOKS, k, kw.get(k))


def lift(v):
    s = Sym.lift(v)
    if s is None:
        raise SymError(f"coordinate {v!r}")
    return s


def same(a, b):
    """identical expressions"""
    return lift(a).same(lift(b))


def same_pt(p, q):
    return same(p[0], q[0]) and same(p[1], q[1])


def pts_of(c):
    """list of (x, y) from anything coordinate-like"""
    if isinstance(c, (LineString, Point)):
        return list(c.coords)
    if isinstance(c, Polygon):
        return list(c.exterior.coords)
    out = []
    for p in (c if not isinstance(c, np.ndarray) else list(c)):
        if isinstance(p, Point):
            out.append((p.x, p.y))
        else:
            q = list(p)
            out.append((lift(q[0]), lift(q[1])))
    return out


class Coords(list):
    @property
    def xy(self):
        return [p[0] for p in self], [p[1] for p in self]

    def __getitem__(self, k):
        r = list.__getitem__(self, k)
        return Coords(r) if isinstance(k, slice) else r

    def __array__(self, dtype=None, copy=None):
        a = np.empty((len(self), 2), dtype=object)
        for i, p in enumerate(self):
            a[i, 0], a[i, 1] = p
        return a


class Base:
    is_valid = True
    has_z = False

    @property
    def is_empty(self):
        return not self.all_points()

    @property
    def bounds(self):
        if getattr(self, "_bounds", None) is None:
            p = self.all_points()
            xs, ys = [q[0] for q in p], [q[1] for q in p]
            self._bounds = (symmin(xs), symmin(ys), symmax(xs), symmax(ys))
        return self._bounds

    def __bool__(self):
        return not self.is_empty

    def _op(self, name, o):
        h = getattr(HOOKS, name)
        if h is None:
            raise SymError(f"shape operation {name}")
        return h(self, o)

    def union(self, o, **k):
        return self._op("union", o)

    def intersection(self, o, **k):
        return self._op("intersection", o)

    def difference(self, o, **k):
        if HOOKS.difference is None:
            return punch(self, o)
        return self._op("difference", o)

    def symmetric_difference(self, o, **k):
        return self._op("symmetric_difference", o)

    __or__ = union
    __and__ = intersection
    __sub__ = difference
    __xor__ = symmetric_difference

    def buffer(self, distance=None, *a, **k):
        if HOOKS.buffer is None:
            raise SymError("buffer")
        return HOOKS.buffer(self, distance, *a, **k)

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)


class Point(Base):
    geom_type = "Point"

    def __init__(self, *a):
        if len(a) == 1:
            a = a[0]
        if isinstance(a, Point):
            self._c = a._c
        else:
            a = list(a)
            if len(a) == 1:
                a = list(a[0])
            self._c = (lift(a[0]), lift(a[1])) if a else None

    @property
    def x(self):
        return self._c[0]

    @property
    def y(self):
        return self._c[1]

    @property
    def coords(self):
        return Coords([self._c] if self._c else [])

    def all_points(self):
        return [self._c] if self._c else []

    def within(self, o):
        return o.contains(self)

    @property
    def centroid(self):
        return self

    area = 0


class LineString(Base):
    geom_type = "LineString"

    def __init__(self, coords=()):
        self._p = pts_of(coords)

    @property
    def coords(self):
        return Coords(self._p)

    def all_points(self):
        return self._p

    @property
    def length(self):
        return path_length(self._p)

    area = 0


class LinearRing(LineString):
    geom_type = "LinearRing"

    def __init__(self, coords=()):
        p = pts_of(coords)
        if len(p) > 1 and same_pt(p[0], p[-1]):
            p = p[:-1]
        self._p = p

    @property
    def coords(self):
        return Coords(self._p + self._p[:1])

    @property
    def length(self):
        return path_length(self._p + self._p[:1])

    @property
    def is_ccw(self):
        return bool(shoelace(self._p) > 0)


def path_length(p):
    t = Sym.const(0)
    for (a, b), (c, d) in zip(p, p[1:]):
        t = t + ENGINE.sqrt((c - a) * (c - a) + (d - b) * (d - b))
    return t


def shoelace(p):
    """twice the signed area"""
    t = Sym.const(0)
    for (a, b), (c, d) in zip(p, p[1:] + p[:1]):
        t = t + a * d - c * b
    return t


def ring_moments(p):
    """(2A, 6A cx, 6A cy), A positive"""
    a, sx, sy = Sym.const(0), Sym.const(0), Sym.const(0)
    for (x0, y0), (x1, y1) in zip(p, p[1:] + p[:1]):
        c = x0 * y1 - x1 * y0
        a, sx, sy = a + c, sx + (x0 + x1) * c, sy + (y0 + y1) * c
    if bool(a < 0):
        a, sx, sy = -a, -sx, -sy
    return a, sx, sy


class Polygon(Base):
    geom_type = "Polygon"

    def __init__(self, shell=None, holes=None):
        if shell is None:
            shell = []
        if isinstance(shell, Polygon):
            holes = shell.interiors if holes is None else holes
            shell = shell.exterior
        self.exterior = LinearRing(shell)
        n = len(self.exterior._p)
        if 0 < n < 3:
            raise ValueError("A linearring requires at least 4 coordinates.")
        self.interiors = [LinearRing(h) for h in (holes if holes is not None else [])]

    def all_points(self):
        return self.exterior._p

    def moments(self):
        if getattr(self, "_mom", None) is None:
            m = ring_moments(self.exterior._p)
            for h in self.interiors:
                m = tuple(u - v for u, v in zip(m, ring_moments(h._p)))
            self._mom = m
        return self._mom

    @property
    def area(self):
        if self.is_empty:
            return Sym.const(0)
        return self.moments()[0] / 2

    @property
    def centroid(self):
        a, sx, sy = self.moments()
        return Point(sx / (3 * a), sy / (3 * a))

    @property
    def length(self):
        t = self.exterior.length
        for h in self.interiors:
            t = t + h.length
        return t

    def key(self):
        return tuple(tuple((hash(x), hash(y)) for x, y in r._p)
                     for r in (self.exterior, *self.interiors))

    def representative_point(self):
        if self.is_empty:
            return Point([])
        if HOOKS.representative is not None:
            r = HOOKS.representative(self)
            if r is not None:
                return r
        return TOKENS.point(self)

    def point_on_surface(self):
        return self.representative_point()

    def contains(self, o):
        if self.is_empty:
            return False
        if HOOKS.contains is not None:
            r = HOOKS.contains(self, o)
            if r is not None:
                return r
        if isinstance(o, Point):
            owner = TOKENS.owner(o)
            if owner is not None and owner.key() == self.key():
                return True
            return inside(self, (o.x, o.y))
        raise SymError("contains")

    def intersects(self, o):
        raise SymError("intersects")

    @property
    def geoms(self):
        raise AttributeError("geoms")

    @property
    def coords(self):
        raise NotImplementedError("Component rings have coordinate sequences")


class Multi(Base):
    cls = Base

    def __init__(self, geoms=()):
        gs = []
        if isinstance(geoms, Multi):
            geoms = geoms.geoms
        for g in geoms:
            if isinstance(g, Multi):
                gs += g.geoms
            else:
                gs.append(g)
        self.geoms = gs

    def all_points(self):
        return [p for g in self.geoms for p in g.all_points()]

    @property
    def area(self):
        return sum((g.area for g in self.geoms), Sym.const(0))

    @property
    def length(self):
        return sum((g.length for g in self.geoms), Sym.const(0))

    @property
    def centroid(self):
        m = [g.moments() for g in self.geoms if not g.is_empty]
        a, sx, sy = (sum((q[i] for q in m), Sym.const(0)) for i in range(3))
        return Point(sx / (3 * a), sy / (3 * a))


class MultiPolygon(Multi):
    geom_type = "MultiPolygon"

    def __init__(self, geoms=()):
        super().__init__(geoms)
        # shapely drops empty members
        for g in self.geoms:
            if not isinstance(g, Polygon):
                raise SymError("MultiPolygon member")
        self.geoms = [g for g in self.geoms if not g.is_empty] or []


class MultiLineString(Multi):
    geom_type = "MultiLineString"


class MultiPoint(Multi):
    geom_type = "MultiPoint"


class GeometryCollection(Multi):
    geom_type = "GeometryCollection"

    def __init__(self, geoms=()):
        self.geoms = list(geoms)


class Tokens:
    """fresh interior points, one per polygon"""

    def __init__(self):
        self.clear()

    def clear(self):
        self.by_key, self.owners, self.n = {}, {}, 0

    def point(self, poly):
        k = poly.key()
        if k not in self.by_key:
            x, y = (self.fresh(poly, j) for j in (0, 1))
            self.n += 1
            self.by_key[k] = (x, y)
            self.owners[(hash(x), hash(y))] = poly
        return Point(*self.by_key[k])

    def fresh(self, poly, j):
        rings = [list(r._p) for r in (poly.exterior, *poly.interiors)]
        i = P.new_var(f"inner{self.n}_{j}", lo=-1000, hi=1000)

        def f(vals):
            r = [[(symf(x, vals), symf(y, vals)) for x, y in q] for q in rings]
            try:
                return shapely.Polygon(r[0], r[1:]).representative_point().coords[0][j]
            except (shapely.errors.ShapelyError, IndexError) as e:
                raise ValueError("no such polygon") from e

        ENGINE.defs[i] = f
        return Sym(P.pvar(i))

    def owner(self, p):
        return self.owners.get((hash(p.x), hash(p.y)))

    def owned(self):
        return [(xy, self.owners[(hash(xy[0]), hash(xy[1]))]) for xy in self.by_key.values()]


TOKENS = Tokens()


def inside(poly, p):
    """strictly inside by the crossing rule (exact; forks on symbolic comparisons)"""
    k = convex_side(poly.exterior._p, p)
    if k is False:
        return False
    ks = [convex_side(h._p, p) for h in poly.interiors]
    if k is True and all(v is False for v in ks):
        return True
    if True in ks:
        return False
    if on_ring(poly.exterior._p, p) or not crossing(poly.exterior._p, p):
        return False
    for h in poly.interiors:
        if on_ring(h._p, p) or crossing(h._p, p):
            return False
    return True


def cross(a, b, p):
    return (b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0])


def convex_side(r, p):
    """True/False where the point is certainly inside/outside the ring, else None"""
    n = len(r)
    turns = [cross(r[i], r[(i + 1) % n], r[(i + 2) % n]) for i in range(n)]
    for sgn in (1, -1):
        if not proved(turns[0] * sgn > 0):
            continue
        sides = [cross(a, b, p) * sgn for a, b in zip(r, r[1:] + r[:1])]
        if not all(proved(t * sgn >= 0) for t in turns[1:]):
            return None
        if all(proved(s > 0) for s in sides):
            return True
        if any(proved(s < 0) for s in sides):
            return False
    return None


def on_ring(r, p):
    for a, b in zip(r, r[1:] + r[:1]):
        if bool(cross(a, b, p) == 0):
            d = (p[0] - a[0]) * (p[0] - b[0]) + (p[1] - a[1]) * (p[1] - b[1])
            if bool(d <= 0):
                return True
    return False


def crossing(r, p):
    c = False
    for a, b in zip(r, r[1:] + r[:1]):
        up = bool(a[1] > p[1])
        if up != bool(b[1] > p[1]):
            side = bool(cross(a, b, p) > 0)
            if side != up:
                c = not c
    return c


def punch(a, b):
    """outer minus pieces that lie strictly inside it (anything else is not modelled)"""
    if not isinstance(a, Polygon):
        raise SymError("difference")
    bs = b.geoms if isinstance(b, Multi) else [b]
    holes = list(a.interiors)
    for q in bs:
        if not isinstance(q, Polygon):
            raise SymError("difference")
        if q.is_empty:
            continue
        if q.interiors:
            raise SymError("difference with holes")
        # convex outer ring: every corner of q on the inner side of every edge
        o = a.exterior._p
        sgn = 1 if bool(shoelace(o) > 0) else -1
        for i in range(len(o)):
            u, v, w = o[i], o[(i + 1) % len(o)], o[(i + 2) % len(o)]
            if not proved(cross(u, v, w) * sgn >= 0):
                raise SymError("difference from a ring that is not convex")
            for p in q.exterior._p:
                if not proved(cross(u, v, p) * sgn > 0):
                    raise SymError("difference of crossing shapes")
        holes.append(q.exterior)
    return Polygon(a.exterior, holes)


def proved(c):
    import z3

    if isinstance(c, bool):
        return c
    from .core import negate

    n = negate(c)
    if isinstance(n, bool):
        return not n
    return ENGINE.check(ENGINE.relevant(n) + [n], 3000) == z3.unsat


def _map(g, f):
    if isinstance(g, Point):
        return Point(*f(g.x, g.y))
    if isinstance(g, Polygon):
        if g.is_empty:
            return Polygon()
        return Polygon([f(*p) for p in g.exterior._p],
                       [[f(*p) for p in h._p] for h in g.interiors])
    if isinstance(g, LinearRing):
        return LinearRing([f(*p) for p in g._p])
    if isinstance(g, LineString):
        return LineString([f(*p) for p in g._p])
    if isinstance(g, Multi):
        return type(g)([_map(q, f) for q in g.geoms])
    raise SymError("affine map")


def _origin(g, origin):
    if isinstance(origin, str):
        if origin == "center":
            a, b, c, d = g.bounds
            return (a + c) / 2, (b + d) / 2
        if origin == "centroid":
            return g.centroid.x, g.centroid.y
        raise ValueError(f"'{origin}' origin is not recognized.")
    if isinstance(origin, Point):
        return origin.x, origin.y
    if len(origin) not in (2, 3):
        raise ValueError("origin")
    return lift(origin[0]), lift(origin[1])


class Affinity:
    @staticmethod
    def translate(geom, xoff=0.0, yoff=0.0, zoff=0.0):
        xo, yo = lift(xoff), lift(yoff)
        return _map(geom, lambda x, y: (x + xo, y + yo))

    @staticmethod
    def rotate(geom, angle, origin="center", use_radians=False):
        a = lift(angle)
        if not use_radians:
            a = a * NP.pi / 180
        c, s = lift(NP.cos(a)), lift(NP.sin(a))
        ox, oy = _origin(geom, origin)
        return _map(geom, lambda x, y: (ox + (x - ox) * c - (y - oy) * s,
                                        oy + (x - ox) * s + (y - oy) * c))

    @staticmethod
    def scale(geom, xfact=1.0, yfact=1.0, zfact=1.0, origin="center"):
        ox, oy = _origin(geom, origin)
        fx, fy = lift(xfact), lift(yfact)
        return _map(geom, lambda x, y: (ox + (x - ox) * fx, oy + (y - oy) * fy))

    @staticmethod
    def affine_transform(geom, m):
        if len(m) != 6:
            raise SymError("affine_transform")
        a, b, d, e, xo, yo = map(lift, m)
        return _map(geom, lambda x, y: (a * x + b * y + xo, d * x + e * y + yo))


def box(minx, miny, maxx, maxy, ccw=True):
    c = [(maxx, miny), (maxx, maxy), (minx, maxy), (minx, miny)]
    return Polygon(c if ccw else c[::-1])


def unary_union(geoms, *a, **k):
    if HOOKS.union is None:
        raise SymError("union")
    gs = []
    for g in (geoms.geoms if isinstance(geoms, Multi) else geoms):
        gs += g.geoms if isinstance(g, Multi) else [g]
    return HOOKS.union(gs)


def split(geom, line):
    if HOOKS.split is None:
        raise SymError("split")
    return HOOKS.split(geom, line)


def _no(name):
    def f(*a, **k):
        raise SymError(name)

    return f


class Mod:
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __getattr__(self, k):
        raise SymError(f"shapely.{k}")


MAP = {
    shapely.Point: Point, shapely.LineString: LineString, shapely.LinearRing: LinearRing,
    shapely.Polygon: Polygon, shapely.MultiPolygon: MultiPolygon,
    shapely.MultiLineString: MultiLineString, shapely.MultiPoint: MultiPoint,
    shapely.GeometryCollection: GeometryCollection,
    shapely.box: box, shapely.ops.split: split, shapely.ops.unary_union: unary_union,
    shapely.unary_union: unary_union, shapely.union_all: unary_union,
    shapely.affinity.translate: Affinity.translate, shapely.affinity.rotate: Affinity.rotate,
    shapely.affinity.scale: Affinity.scale,
    shapely.affinity.affine_transform: Affinity.affine_transform,
    shapely.line_merge: _no("line_merge"), shapely.shared_paths: _no("shared_paths"),
}
OPS = Mod(split=split, unary_union=unary_union)
SHAPELY = Mod(Point=Point, LineString=LineString, LinearRing=LinearRing, Polygon=Polygon,
              MultiPolygon=MultiPolygon, MultiLineString=MultiLineString, MultiPoint=MultiPoint,
              GeometryCollection=GeometryCollection, box=box, ops=OPS, affinity=Affinity,
              unary_union=unary_union, union_all=unary_union)
SHAPELY.geometry = SHAPELY


def install(M):
    """replaces shapely in every module of the library"""
    if not M.symbolic:
        return
    for mod in M.all:
        if mod is None:
            continue
        g = mod.__dict__
        for k, v in list(g.items()):
            if v is shapely or v is shapely.geometry:
                g[k] = SHAPELY
            elif v is shapely.affinity:
                g[k] = Affinity
            elif v is shapely.ops:
                g[k] = OPS
            else:
                try:
                    if v in MAP:
                        g[k] = MAP[v]
                except TypeError:
                    pass
    reset_hooks()
    TOKENS.clear()


def classes(M):
    """the shape classes of this run: the model's or shapely's"""
    return SHAPELY if M.symbolic else shapely
