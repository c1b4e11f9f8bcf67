"""Compiled outlines: what is handed to the mesher describes exactly the polygons."""

from fractions import Fraction as F

from props.c16 import hole_polygon, points
from props.common import mk_material
from props.shapes import (
    check_geometry, convex_in, cross3, fmix, holed, in_region, inner_point, num_cmp, patch, pt,
    ring_segments, rings_of, same_points, same_segments, segments, shapes, triangle,
)

BOUNDS = ("outer rings of 3-5 vertices, up to three holes of 3-4 vertices, compounds of up to "
          "three regions sharing vertices and edges, voids with and without nested regions, "
          "all vertex coordinates symbolic; any mesh sizes, angles and flags")
ASSUMPTIONS = [
    "shapely's representative point of a polygon lies inside it",
    "unions and differences of the configurations used are given by their exact cells",
    "rounding to n digits yields a value within half a unit, the same for equal arguments",
]
SQUARE = [(5, 1, 1), (3, 3, 1), (1, 3, 1), (3, 1, 1)]


def small(w):
    """a little triangle around the barycentric place w (weights summing to 30)"""
    a, b, c = w
    return [(a + 1, b, c - 1), (a - 1, b + 1, c), (a, b - 1, c + 1)]


def quad(w):
    a, b, c = w
    return [(a + 1, b, c - 1), (a, b + 1, c - 1), (a - 1, b, c + 1), (a, b - 1, c + 1)]


PLACES = [(10, 10, 10), (20, 5, 5), (5, 20, 5)]


def outer(ctx, n):
    """n symbolic vertices around a triangle; the first three span a triangle"""
    p = triangle(ctx, "v")
    extra = {3: [], 4: [(1, 6, 1)], 5: [(1, 6, 1), (1, 1, 6)]}[n]
    if n == 3:
        return p, p
    # replace a corner's neighbourhood: insert points close to the edges (outside the holes)
    q = [p[0], p[1]]
    a, b, c = p
    if n >= 4:
        m = ((b[0] + c[0]) / 2, (b[1] + c[1]) / 2)
        t = ctx.real("t4", F(1, 100), F(1, 4))
        q.append((m[0] + t * (m[0] - a[0]), m[1] + t * (m[1] - a[1])))
    q.append(c)
    if n >= 5:
        m = ((c[0] + a[0]) / 2, (c[1] + a[1]) / 2)
        t = ctx.real("t5", F(1, 100), F(1, 4))
        q.append((m[0] + t * (m[0] - b[0]), m[1] + t * (m[1] - b[1])))
    return q, p


def region(ctx, M, n, holes, cp):
    """a region with n outer vertices and the given hole kinds"""
    S = shapes(ctx, M)
    q, p = outer(ctx, n)
    hs = [(small if k == 3 else quad)(w) for k, w in zip(holes, PLACES)]
    rings = [list(q)] + [[fmix(ctx, p, w) for w in h] for h in hs]
    poly = S.Polygon(rings[0], rings[1:])
    c = fmix(ctx, p, (26, 2, 2)) if cp else None
    return poly, rings, c


def single(ctx, M):
    n = ctx.choice("n", [3, 4, 5])
    holes = ctx.choice("holes", [(), (3,), (4, 3), (3, 4, 3)])
    cp = ctx.choice("cp", [False, True])
    poly, rings, c = region(ctx, M, n, holes, cp)
    mat = mk_material(ctx, M)
    g = M.geometry.Geometry(poly, mat, control_points=c, tol=10)
    for again in ("", "recompiled "):
        check_geometry(ctx, f"{again}outline", g, rings)
        points(ctx, f"{again}outline", g, orient(ctx, rings), c)
        g.compile_geometry()
    ctx.true("material", g.material is mat)
    new = g.assign_control_point(fmix(ctx, rings[0][:3], (27, 1, 2)))
    check_geometry(ctx, "assigned", new, rings)
    same_points(ctx, "assigned control point", new.control_points,
                [fmix(ctx, rings[0][:3], (27, 1, 2))])
    ctx.true("assigned: material", new.material is mat)
    ctx.true("assigned: tolerance", new.tol == 10)


def orient(ctx, rings):
    return [r if float_area(ctx, r) > 0 else r[::-1] for r in rings]


def float_area(ctx, r):
    from props.shapes import numeric

    f = numeric(ctx)
    q = [(f(x), f(y)) for x, y in r]
    return sum(a[0] * b[1] - b[0] * a[1] for a, b in zip(q, q[1:] + q[:1]))


def rounding(ctx, M):
    """the mesher gets the vertices of the (rounded) shape, each within half a unit"""
    tol = ctx.choice("tol", [0, 1, 3, 12])
    S = shapes(ctx, M)
    if ctx.symbolic:
        from symx.core import ENGINE

        ENGINE.rounding = {}
    p = triangle(ctx, "v", area2=40)
    poly, rings = holed(ctx, S, p)
    g = M.geometry.Geometry(poly, tol=tol)
    k = 0
    want = rings_of(g.geom)
    ctx.true("number of points", len(g.points) == sum(len(r) for r in want) == 6)
    flat = [q for r in want for q in r]
    same_points(ctx, "points are the shape's vertices", g.points, flat)
    same_segments(ctx, "edges are the shape's edges", segments(g), ring_segments(want))
    orig = [q for r in rings for q in r]
    h = F(1, 2) / F(10) ** tol
    h = h if ctx.symbolic else float(h)
    # vertices are matched by position: rounding keeps the order of the rings
    for k, (a, b) in enumerate(zip(flat, orig)):
        for j in (0, 1):
            ctx.le(f"rounded {k}.{j}", a[j] - b[j], h)
            ctx.le(f"rounded {k}.{j} below", b[j] - a[j], h)


# -- compounds


class Cells:
    """unions and differences of regions made of whole cells"""

    def __init__(self, parts, named):
        # parts: list of (polygon, cells); named: {frozenset of cells: shape}
        self.table = [(p, frozenset(c)) for p, c in parts]
        self.named = named

    def cells(self, s):
        from symx.core import SymError
        from symx.shapemodel import Multi

        if isinstance(s, Multi):
            r = frozenset()
            for g in s.geoms:
                r |= self.cells(g)
            return r
        if s.is_empty:
            return frozenset()
        k = shape_key(s)
        for p, c in self.table:
            if shape_key(p) == k:
                return c
        raise SymError("region outside the configuration")

    def shape(self, cells):
        from symx.core import SymError
        from symx.shapemodel import Polygon

        cells = frozenset(cells)
        if not cells:
            return Polygon()
        if cells not in self.named:
            raise SymError("combination outside the configuration")
        return self.named[cells]

    def hooks(self):
        return {
            "union": self.union,
            "difference": lambda a, b: self.shape(self.cells(a) - self.cells(b)),
            "intersection": lambda a, b: self.shape(self.cells(a) & self.cells(b)),
            "buffer": lambda s, *a, **k: s,
        }

    def union(self, gs):
        c = frozenset()
        for g in gs:
            c |= self.cells(g)
        return self.shape(c)


def shape_key(p):
    """rings up to starting vertex and direction"""
    out = []
    for r in (p.exterior, *p.interiors):
        q = [(hash(x), hash(y)) for x, y in r._p]
        out.append(tuple(min(min(q[i:] + q[:i], (q[i:] + q[:i])[:1] + (q[i:] + q[:i])[:0:-1])
                             for i in range(len(q)))))
    return (out[0], frozenset(out[1:]))


def generic(ctx, on=True):
    if ctx.symbolic:
        from symx.core import ENGINE

        ENGINE.generic = on


def ring_parts(ctx):
    """a hexagon-like ring cut into three quads around an inner triangle"""
    p = triangle(ctx, "v")
    q = [fmix(ctx, p, w) for w in ((4, 1, 1), (1, 4, 1), (1, 1, 4))]
    return p, q


def check_compound(ctx, label, g, parts):
    """points unique, edges those of the parts, control points in the parts' order"""
    want = [s for r in parts for s in ring_segments(r)]
    same_segments(ctx, f"{label}: edges", segments(g), want)
    f = num_cmp(ctx)
    for i in range(len(g.points)):
        for j in range(i):
            a, b = g.points[i], g.points[j]
            ctx.true(f"{label}: point {i} differs from {j}",
                     ctx.any(f(a[0], b[0]), f(a[1], b[1])))
    ctx.true(f"{label}: every point is used",
             {k for e in g.facets for k in e} == set(range(len(g.points))))
    ctx.true(f"{label}: one control point per region",
             len(g.control_points) == len(g.geoms))
    for i, p in enumerate(g.geoms):
        same_points(ctx, f"{label}: control point {i}", [g.control_points[i]], p.control_points)


def abutting(ctx, M):
    """two or three regions sharing edges or a vertex, or one inside the other's hole"""
    p, q = ring_parts(ctx)
    kind = ctx.choice("kind", ["edge", "fan", "vertex", "inlay", "apart"])
    if kind == "edge":
        parts = [[[p[0], p[1], q[0]]], [[p[1], q[1], q[0]]]]
        count = 4
    elif kind == "fan":
        parts = [[[p[0], p[1], q[0]]], [[p[1], q[1], q[0]]], [[p[1], p[2], q[1]]]]
        count = 5
    elif kind == "vertex":
        parts = [[[p[0], q[1], q[0]]], [[p[2], q[1], p[1]]]]
        count = 5
    elif kind == "inlay":
        parts = [[p, q], [q]]
        count = 6
    else:
        parts = [[[p[0], p[1], q[0]]], [q[1:] + [p[2]]]]
        count = 6
    S = shapes(ctx, M)
    polys = [S.Polygon(r[0], r[1:]) for r in parts]
    if ctx.symbolic:
        from symx.shapemodel import HOOKS, Polygon, reset_hooks

        cs = [(poly, {i}) for i, poly in enumerate(polys)]
        full = frozenset(range(len(polys)))
        if kind == "inlay":
            tot = Polygon(p)
        else:
            from symx.shapemodel import MultiPolygon

            tot = MultiPolygon(polys)
        c = Cells(cs + ([(tot, full)] if kind == "inlay" else []), {full: tot})
        reset_hooks(**c.hooks())
    generic(ctx)
    mats = [mk_material(ctx, M, str(i)) for i in range(len(polys))]
    if ctx.choice("cp", [False, True]):
        cps = [fmix(ctx, r[0], (8, 1, 1)) for r in parts]
    else:
        cps = [None] * len(polys)
    gs = [M.geometry.Geometry(a, m, control_points=c) for a, m, c in zip(polys, mats, cps)]
    how = ctx.choice("how", ["list", "add", "nested"])
    if how == "list":
        g = M.geometry.CompoundGeometry(gs)
    elif how == "add":
        if ctx.symbolic and len(gs) == 3:
            return
        g = gs[0]
        for x in gs[1:]:
            g = g + x
    else:
        if ctx.symbolic and len(gs) == 3:
            return
        g = M.geometry.CompoundGeometry([M.geometry.CompoundGeometry(gs)])
    generic(ctx, False)
    check_compound(ctx, kind, g, parts)
    ctx.true("shared points are stored once", len(g.points) == count)
    ctx.true("no holes", len(g.holes) == 0)
    ctx.true("materials in order",
             len(g.geoms) == len(gs) and all(a.material is m for a, m in zip(g.geoms, mats)))
    for i, c in enumerate(cps):
        if c is not None:
            same_points(ctx, f"assigned control point {i}", [g.control_points[i]], [c])
    generic(ctx)
    g.compile_geometry()
    generic(ctx, False)
    check_compound(ctx, f"{kind} recompiled", g, parts)


def merging(ctx, M):
    """two vertices are merged exactly when both coordinates agree"""
    S = shapes(ctx, M)
    a = [(-4, 0), (0, 0), (-2, 3)]
    v = pt(ctx, "v", 0, 2)
    ctx.assume(v[0] + v[1] <= 3)
    b = [v, (4, -1), (4, 5)]
    num = (lambda t: (ctx.const(t[0]), ctx.const(t[1])))
    pa = S.Polygon([num(t) for t in a])
    pb = S.Polygon([v, num(b[1]), num(b[2])])
    if ctx.symbolic:
        from symx.shapemodel import MultiPolygon, Polygon, reset_hooks

        reset_hooks(union=lambda gs: MultiPolygon(gs), buffer=lambda s, *a, **k: s,
                    difference=lambda x, y: Polygon())
    g = M.geometry.CompoundGeometry([M.geometry.Geometry(pa), M.geometry.Geometry(pb)])
    parts = [[[num(t) for t in a]], [[v, num(b[1]), num(b[2])]]]
    check_compound(ctx, "merge", g, parts)


def voids(ctx, M):
    """every void between the regions gets exactly one hole point, inside the void and outside
    all regions, also when a region lies within the void"""
    p = triangle(ctx, "v")
    q = [fmix(ctx, p, w) for w in ((4, 1, 1), (1, 4, 1), (1, 1, 4))]
    inner = [fmix(ctx, p, w) for w in ((6, 5, 5), (5, 6, 5), (5, 5, 6))]
    kind = ctx.choice("kind", ["ring", "nested", "cut ring", "two"])
    S = shapes(ctx, M)
    P = S.Polygon
    if kind == "ring":
        geoms = [[p, q]]
    elif kind == "nested":
        geoms = [[p, q], [inner]]
    elif kind == "cut ring":
        geoms = [[[p[0], p[1], q[1], q[0]]], [[p[1], p[2], q[2], q[1]]],
                 [[p[2], p[0], q[0], q[2]]]]
    else:
        dx = ctx.real("dx", 40, 60)
        p2 = [(x + dx, y) for x, y in p]
        q2 = [(x + dx, y) for x, y in q]
        geoms = [[p, q], [p2, q2]]
    polys = [P(r[0], r[1:]) for r in geoms]
    if ctx.symbolic:
        from symx.shapemodel import MultiPolygon, Polygon, reset_hooks

        fs = frozenset
        ring, void, core = Polygon(p, [q]), Polygon(q), Polygon(inner)
        if kind in ("ring", "nested"):
            # cells: 0 ring, 1 void without its core, 2 the core
            vr = Polygon(q, [inner])
            c = Cells([(ring, {0}), (void, {1, 2}), (core, {2}), (vr, {1}), (Polygon(p), {0, 1, 2}),
                       (Polygon(p, [inner]), {0, 1})],
                      {fs({0}): ring, fs({1, 2}): void, fs({2}): core, fs({1}): vr,
                       fs({0, 1, 2}): Polygon(p), fs({0, 2}): MultiPolygon([ring, core]),
                       fs({0, 1}): Polygon(p, [inner])})
        elif kind == "cut ring":
            named = {fs({0, 1, 2}): ring, fs({3}): void, fs({0, 1, 2, 3}): Polygon(p)}
            c = Cells([(x, {i}) for i, x in enumerate(polys)]
                      + [(s, k) for k, s in named.items()], named)
        else:
            r2, v2 = Polygon(p2, [q2]), Polygon(q2)
            f1, f2 = Polygon(p), Polygon(p2)
            named = {fs({0, 2}): MultiPolygon([ring, r2]), fs({1, 3}): MultiPolygon([void, v2]),
                     fs({0, 1, 2, 3}): MultiPolygon([f1, f2]), fs({0}): ring, fs({1}): void,
                     fs({2}): r2, fs({3}): v2, fs({0, 1}): f1, fs({2, 3}): f2}
            c = Cells([(ring, {0}), (void, {1}), (r2, {2}), (v2, {3}), (f1, {0, 1}),
                       (f2, {2, 3})], named)
        reset_hooks(**c.hooks())
    generic(ctx)
    gs = [M.geometry.Geometry(x, mk_material(ctx, M, str(i))) for i, x in enumerate(polys)]
    g = M.geometry.CompoundGeometry(gs)
    generic(ctx, False)
    check_compound(ctx, kind, g, geoms)
    n = 2 if kind == "two" else 1
    ctx.true("one hole point per void", len(g.holes) == n)
    # where each void is: void ring minus what lies in it
    spots = {"ring": [[q]], "nested": [[q, inner]], "cut ring": [[q]]}.get(kind) or [[q], [q2]]
    for h in g.holes:
        if ctx.symbolic:
            from symx import shapemodel as SM

            for x, own in SM.TOKENS.owned():
                ctx.assume(in_region(ctx, x, [SM.Polygon(r._p).exterior._p for r in
                                              (own.exterior, *own.interiors)]))
        ctx.true("hole point lies in a void", ctx.any(*[in_region(ctx, h, s) for s in spots]))
    if n == 2:
        for s in spots:
            ctx.true("each void has its point", ctx.any(*[in_region(ctx, h, s) for h in g.holes]))


# -- meshing request


class FakeTriangle:
    def __init__(self):
        self.calls = []

    def triangulate(self, tri, opts="", *a, **k):
        self.calls.append((dict(tri), opts))
        return {"fake": len(self.calls)}


def mesh_call(ctx, M):
    """the mesher receives the compiled outline, one region per control point with its own
    number and size, the holes, and the requested quality options"""
    kind = ctx.choice("kind", ["single", "compound", "two holes"])
    p, q = ring_parts(ctx)
    S = shapes(ctx, M)
    if ctx.symbolic:
        from symx.shapemodel import MultiPolygon, Polygon, reset_hooks

        reset_hooks(union=lambda gs: MultiPolygon(gs), buffer=lambda s, *a, **k: s,
                    difference=lambda x, y: Polygon())
    generic(ctx)
    if kind == "single":
        g = M.geometry.Geometry(S.Polygon(p, [q]))
        n = 1
    elif kind == "two holes":
        hs = [[fmix(ctx, p, w) for w in small(k)] for k in PLACES[:2]]
        g = M.geometry.Geometry(S.Polygon(p, hs))
        n = 1
    else:
        tri = [[p[0], p[1], q[0]], [p[1], p[2], q[1]], [p[2], p[0], q[2]]]
        g = M.geometry.CompoundGeometry([M.geometry.Geometry(S.Polygon(t)) for t in tri])
        n = 3
    generic(ctx, False)
    sizes = [ctx.real(f"size{i}", 0, 100) for i in range(n)]
    form = ctx.choice("form", ["scalar", "list1", "list"])
    if form == "scalar":
        arg, want = (sizes[0], [sizes[0]] * n)
    elif form == "list1":
        arg, want = ([sizes[0]], [sizes[0]] * n)
    else:
        arg, want = (list(sizes), sizes)
    angle = ctx.choice("min_angle", [30.0, 12.34, 7])
    coarse = ctx.choice("coarse", [False, True])
    fake = FakeTriangle()
    with_fake = M.pre
    old = with_fake.triangle
    with_fake.triangle = fake
    try:
        if form == "scalar":
            r = scalar_mesh(ctx, g, arg, angle, coarse)
        else:
            r = g.create_mesh(mesh_sizes=arg, min_angle=angle, coarse=coarse)
    finally:
        with_fake.triangle = old
    ctx.true("one meshing request", len(fake.calls) == 1)
    tri, opts = fake.calls[0]
    ctx.true("the mesh is stored", r is g and g.mesh == {"fake": 1})
    same_points(ctx, "vertices", tri["vertices"], g.points)
    vs = [tuple(v) for v in tri["vertices"]]
    same_segments(ctx, "segments", [(vs[i], vs[j]) for i, j in tri["segments"]], segments(g))
    hs = tri["holes"] if "holes" in tri else []
    same_points(ctx, "holes", hs, g.holes)
    rg = tri["regions"]
    ctx.true("one region per control point", len(rg) == n == len(g.control_points))
    for i, row in enumerate(rg):
        same_points(ctx, f"region {i} point", [row[:2]], [g.control_points[i]])
        ctx.eq(f"region {i} number", row[2], i)
        ctx.eq(f"region {i} size", row[3], want[i])
    # p: outline, A: region numbers, o2: six-noded triangles; q: minimum angle, a: sizes
    ctx.true("outline, regions and quadratic elements",
             "p" in opts and "A" in opts and "o2" in opts)
    if coarse:
        ctx.true("coarse: no quality options", "q" not in opts and "a" not in opts)
    else:
        import re

        m = re.search(r"q([0-9.]+)", opts)
        ctx.true("minimum angle to one decimal", m is not None and float(m.group(1)) == round(angle, 1))
        ctx.true("region sizes are used", re.search(r"a(?![0-9.])", opts) is not None)


def scalar_mesh(ctx, g, v, angle, coarse):
    if not ctx.symbolic:
        return g.create_mesh(mesh_sizes=v, min_angle=angle, coarse=coarse)
    return g.create_mesh(v, angle, coarse)


# -- from points


def from_points(ctx, M):
    """outlines given by points and facets: exterior first, then interiors"""
    S = shapes(ctx, M)
    n = ctx.choice("n", [3, 4])
    holes = ctx.choice("holes", [(), (3,), (4, 3), (3, 4, 3)])
    q, p = outer(ctx, n)
    hs = [(small if k == 3 else quad)(w) for k, w in zip(holes, PLACES)]
    rings = [list(q)] + [[fmix(ctx, p, w) for w in h] for h in hs]
    pts, facets = [], []
    for r in rings:
        k = len(pts)
        pts += r
        facets += [(k + i, k + (i + 1) % len(r)) for i in range(len(r))]
    cp = fmix(ctx, p, (26, 2, 2))
    spots = [fmix(ctx, p, w) for w in PLACES[: len(holes)]]
    mat = mk_material(ctx, M)
    kw = {} if not holes and ctx.choice("none", [False, True]) else {"holes": spots}
    pick = ctx.choice("cls", ["Geometry", "CompoundGeometry"])
    if pick == "Geometry":
        if ctx.symbolic:
            from symx.shapemodel import reset_hooks

            reset_hooks()
        g = M.geometry.Geometry.from_points(pts, facets, [cp], material=mat, **kw)
    else:
        if ctx.symbolic:
            from symx.shapemodel import reset_hooks

            reset_hooks(union=lambda gs: gs[0], buffer=lambda s, *a, **k: s)
        generic(ctx)
        c = M.geometry.CompoundGeometry.from_points(pts, facets, [cp], materials=[mat], **kw)
        generic(ctx, False)
        ctx.true("one region", len(c.geoms) == 1)
        g = c.geoms[0]
        check_compound(ctx, "compound", c, [rings])
        ctx.true("compound hole points", len(c.holes) == len(holes))
    check_geometry(ctx, "outline", g, rings)
    points(ctx, "outline", g, orient(ctx, rings), cp)
    ctx.true("material", g.material is mat)


def from_points_regions(ctx, M):
    """several exteriors keep their control points and materials in order"""
    p, q = ring_parts(ctx)
    S = shapes(ctx, M)
    hole = ctx.choice("hole", [False, True])
    rings = [[p[0], p[1], q[1], q[0]], [p[1], p[2], q[2], q[1]]]
    t = [p[1], p[2], q[2]]
    hr = [fmix(ctx, t, w) for w in ((4, 3, 3), (3, 4, 3), (3, 3, 4))]
    if hole:
        rings = rings + [hr]
    if ctx.symbolic:
        from symx.shapemodel import Polygon, reset_hooks

        k1 = shape_key(Polygon(rings[0]))

        def diff(a, b):
            if b.is_empty or shape_key(a) == k1:
                return a
            return Polygon(a.exterior, [*a.interiors, b.exterior])

        def union(gs):
            r = [p[0], p[1], p[2], q[2], q[1], q[0]]
            return Polygon(r, [hr] if hole else [])

        reset_hooks(union=union, buffer=lambda s, *a, **k: s, difference=diff)
    pts, facets = [], []
    for r in rings:
        k = len(pts)
        pts += r
        facets += [(k + i, k + (i + 1) % len(r)) for i in range(len(r))]
    cps = [fmix(ctx, [p[0], p[1], q[0]], (8, 8, 1)), fmix(ctx, [p[1], p[2], q[2]], (8, 8, 1))]
    mats = [mk_material(ctx, M, "a"), mk_material(ctx, M, "b")]
    generic(ctx)
    g = M.geometry.CompoundGeometry.from_points(
        pts, facets, cps, holes=[fmix(ctx, hr, (1, 1, 1))] if hole else None, materials=mats)
    generic(ctx, False)
    parts = [[rings[0]], [rings[1], *rings[2:]]]
    ctx.true("two regions", len(g.geoms) == 2)
    for i in (0, 1):
        check_geometry(ctx, f"region {i}", g.geoms[i], parts[i])
        same_points(ctx, f"region {i} control point", g.geoms[i].control_points, [cps[i]])
        ctx.true(f"region {i} material", g.geoms[i].material is mats[i])
    check_compound(ctx, "compound", g, parts)
    ctx.true("hole points", len(g.holes) == int(hole))


def errors(ctx, M):
    """inputs that describe no geometry are refused"""
    S = shapes(ctx, M)
    G, C = M.geometry.Geometry, M.geometry.CompoundGeometry
    p = triangle(ctx, "v")
    tri = S.Polygon(p)
    f3 = [(0, 1), (1, 2), (2, 0)]
    inside = fmix(ctx, p, (1, 1, 1))
    cases = {
        "MultiPolygon": lambda: G(S.MultiPolygon([tri])),
        "not a polygon": lambda: G(S.LineString(p)),
        "two control points": lambda: G.from_points(p, f3, [inside, inside]),
        "no control point": lambda: G.from_points(p, f3, []),
        "materials without control points": lambda: C.from_points(
            p, f3, [], materials=[mk_material(ctx, M)]),
        "too many materials": lambda: C.from_points(
            p, f3, [inside], materials=[mk_material(ctx, M, "a"), mk_material(ctx, M, "b")]),
        "too many control points": lambda: C.from_points(p, f3, [inside, inside]),
        "mesh sizes": lambda: G(tri).create_mesh([1.0, 2.0]),
    }
    k = ctx.choice("case", list(cases))
    try:
        cases[k]()
    except ValueError:
        ctx.true("refused", True)
        return
    ctx.fail(f"{k}: accepted")


P = {"patch": patch, "merge": True}
HARNESSES = [
    ("single", single, {**P, "cost": 5}),
    ("rounding", rounding, {**P, "cost": 3}),
    ("abutting", abutting, {**P, "cost": 5}),
    ("merging", merging, {**P, "cost": 3}),
    ("voids", voids, {**P, "cost": 3}),
    ("mesh_call", mesh_call, {**P, "cost": 5}),
    ("from_points", from_points, {**P, "cost": 5}),
    ("from_points_regions", from_points_regions, {**P, "cost": 3}),
    ("errors", errors, {**P, "cost": 1}),
]
