"""Boolean operations, offsets and measures of geometries.

The regions are rectilinear shapes on a grid with symbolic line spacings in every mutual position
(crossing, touching, nested, apart, identical); the geometry kernel is an exact model of boolean
operations on such shapes, and also returns the lines and points in which touching shapes meet.
Counterexamples are replayed with the real kernel.
"""

from fractions import Fraction as F

from props import rect
from props.common import mk_material, swapped
from props.shapes import patch, ring_segments, rings_of, same_points, same_segments, shapes

BOUNDS = (
    "rectilinear regions (rectangles, L, U, comb and frame shapes) on grids of up to 6 lines per "
    "direction with any spacing in [0.2,5]; thirteen mutual positions; compounds of two parts; "
    "offsets that grow, shrink, split and consume the region; control points anywhere on a line "
    "through each cell"
)
ASSUMPTIONS = [
    "the geometry kernel returns the regularised boolean result plus the lines and points where "
    "the shapes only touch; its buffer is an arbitrary function of shape, distance and resolution",
    "dilating a compound (shared paths, line merging) is not modelled",
]


def box(i0, i1, j0, j1):
    return [(i0, j0), (i1, j0), (i1, j1), (i0, j1)]


# position: (rings of A, rings of B, lines and points in which they only touch)
POS = {
    "corner": ([box(0, 2, 0, 2)], [box(1, 3, 1, 3)], []),
    "cross": ([box(0, 3, 1, 2)], [box(1, 2, 0, 3)], []),
    "inside": ([box(0, 3, 0, 3)], [box(1, 2, 1, 2)], []),
    "covers": ([box(1, 2, 1, 2)], [box(0, 3, 0, 3)], []),
    "apart": ([box(0, 1, 0, 1)], [box(2, 3, 2, 3)], []),
    "abut": ([box(0, 1, 0, 2)], [box(1, 2, 1, 3)], [[(1, 1), (1, 2)]]),
    "touch": ([box(0, 1, 0, 1)], [box(1, 2, 1, 2)], [[(1, 1)]]),
    "two lines": ([[(0, 0), (3, 0), (3, 3), (2, 3), (2, 1), (1, 1), (1, 3), (0, 3)]],
                  [box(1, 2, 2, 3)], [[(1, 2), (1, 3)], [(2, 2), (2, 3)]]),
    "two points": ([[(0, 0), (3, 0), (3, 3), (2, 3), (2, 1), (1, 1), (1, 3), (0, 3)]],
                   [[(0, 5), (0, 4), (1, 4), (1, 3), (2, 3), (2, 4), (3, 4), (3, 5)][::-1]],
                   [[(1, 3)], [(2, 3)]]),
    "part and line": ([[(0, 0), (4, 0), (4, 3), (2, 3), (2, 1), (1, 1), (1, 3), (0, 3)]],
                      [box(1, 3, 2, 3)], [[(1, 2), (1, 3)]]),
    "parts and line": ([[(0, 0), (5, 0), (5, 3), (4, 3), (4, 1), (3, 1), (3, 3), (2, 3), (2, 1),
                         (1, 1), (1, 3), (0, 3)]], [box(1, 5, 2, 3)], [[(1, 2), (1, 3)]]),
    "plug": ([box(0, 3, 0, 3), box(1, 2, 1, 2)], [box(1, 2, 1, 2)],
             [[(1, 1), (2, 1), (2, 2), (1, 2), (1, 1)]]),
    "same": ([box(0, 1, 0, 1)], [box(0, 1, 0, 1)], []),
}
OPS = {
    "|": lambda a, b: a or b, "&": lambda a, b: a and b,
    "-": lambda a, b: a and not b, "^": lambda a, b: a != b,
}
KERNEL = {"|": "union", "&": "intersection", "-": "difference", "^": "symmetric_difference"}


class Grid:
    def __init__(self, ctx, n=6, tag=""):
        self.ctx = ctx
        self.xs = self.lines(f"{tag}gx", n)
        self.ys = self.lines(f"{tag}gy", n)

    def lines(self, name, n):
        v = [self.ctx.real(f"{name}0", -5, 5)]
        for i in range(1, n):
            v.append(v[-1] + self.ctx.real(f"{name}{i}", F(1, 5), 5))
        return v

    def at(self, p):
        return self.xs[p[0]], self.ys[p[1]]

    def rings(self, rs):
        return [[self.at(p) for p in r] for r in rs]

    def poly(self, S, rs):
        r = self.rings(rs)
        return S.Polygon(r[0], r[1:])

    def cells(self):
        return [(i, j) for i in range(len(self.xs) - 1) for j in range(len(self.ys) - 1)]

    def area(self, keep):
        return sum(((self.xs[i + 1] - self.xs[i]) * (self.ys[j + 1] - self.ys[j])
                    for i, j in self.cells() if keep((i, j))), self.ctx.const(0))


def has(rs, c):
    """the grid cell lies in the region with the given rings"""
    return sum(rect.in_ring((c[0] + .5, c[1] + .5), r) for r in rs) % 2 == 1


def outline(keep, n=6):
    """segments (grid indices) of the boundary of a set of cells, maximal"""
    cells = {(i, j) for i in range(n) for j in range(n) if keep((i, j))}
    grid = list(range(n + 1))
    return [r for r, _ in rect.trace(cells, grid, grid)]


def kernel(ctx, G, lines, buffer=None):
    """hooks of the kernel model; ``lines`` are the touching places"""
    from symx.shapemodel import GeometryCollection, LineString, MultiLineString, MultiPoint, Point

    h = dict(rect.hooks(ctx))
    exact = h["intersection"]

    def meet(a, b):
        r = exact(a, b)
        ps = [Point(*G.at(t[0])) for t in lines if len(t) == 1]
        ls = [LineString([G.at(p) for p in t]) for t in lines if len(t) > 1]
        extra = ps + ls
        if not extra:
            return r
        if r.is_empty:
            if len(extra) == 1:
                return extra[0]
            return MultiPoint(ps) if ps else MultiLineString(ls)
        return GeometryCollection([*ls, *ps, *rect.polys(r)])

    h["intersection"] = meet
    one = h["union"]
    h["union"] = lambda *a: one(a[0] if len(a) == 1 else list(a))
    h["buffer"] = buffer or (lambda p, *a, **k: p)
    return h


def spot(ctx, G, c, tag="cp"):
    """a point of a cell, anywhere on a line across it"""
    t = ctx.real(tag, F(1, 10), F(9, 10))
    return (G.xs[c[0]] + (G.xs[c[0] + 1] - G.xs[c[0]]) * t,
            G.ys[c[1]] + (G.ys[c[1] + 1] - G.ys[c[1]]) * F(1, 4))


def polys_of(g):
    return [x.geom for x in getattr(g, "geoms", [g])]


def all_rings(g):
    return [r for p in polys_of(g) if not p.is_empty for r in rings_of(p)]


def check_shape(ctx, label, G, g, keep, aligned=True):
    """the geometry is the region made of the kept cells"""
    want = [G.rings([r])[0] for r in outline(keep)]
    if ctx.symbolic:
        same_segments(ctx, f"{label} shape", ring_segments(all_rings(g)), ring_segments(want))
    else:
        import shapely
        cells = [shapely.box(G.xs[i], G.ys[j], G.xs[i + 1], G.ys[j + 1])
                 for i, j in G.cells() if keep((i, j))]
        d = shapely.union_all([p.buffer(0) for p in polys_of(g)]).symmetric_difference(
            shapely.union_all(cells))
        ctx.true(f"{label} shape", d.area < 1e-8)
    area = sum((p.area for p in polys_of(g)), ctx.const(0))
    ctx.eq(f"{label} area", area, G.area(keep), scale=10)
    n = pieces(keep)
    ctx.true(f"{label} number of regions", len([p for p in polys_of(g) if not p.is_empty]) == n)
    ctx.true(f"{label} kind", (len(getattr(g, "geoms", ())) == n) if n > 1 else not hasattr(g, "geoms"))


def pieces(keep, n=6):
    """number of regions of a set of cells that touch along an edge"""
    left = {(i, j) for i in range(n) for j in range(n) if keep((i, j))}
    k = 0
    while left:
        k, todo = k + 1, [left.pop()]
        while todo:
            i, j = todo.pop()
            for q in ((i + 1, j), (i - 1, j), (i, j + 1), (i, j - 1)):
                if q in left:
                    left.remove(q)
                    todo.append(q)
    return k


def inside_cells(ctx, G, q, keep):
    return ctx.any(*[ctx.all(q[0] >= G.xs[i], q[0] <= G.xs[i + 1], q[1] >= G.ys[j],
                             q[1] <= G.ys[j + 1]) for i, j in G.cells() if keep((i, j))])


def check_point(ctx, label, G, g, keep, also=()):
    """one control point per region, within it"""
    ps = [p for p in polys_of(g) if not p.is_empty]
    ctx.true(f"{label}: one control point per region", len(g.control_points) == len(ps))
    if len(g.control_points) != len(ps):
        return
    for q, p in zip(g.control_points, ps):
        if not ctx.symbolic:
            import shapely
            ctx.true(f"{label}: control point inside", bool(p.contains(shapely.Point(q))))
            continue
        from symx import shapemodel as SM

        o = SM.TOKENS.owner(SM.Point(q))
        if o is not None and any(o.key() == x.key() for x in (p, *also)):
            ctx.true(f"{label}: control point inside", True)
        else:
            ctx.true(f"{label}: control point inside", inside_cells(ctx, G, q, keep))


def operate(op, a, b):
    return {"|": lambda: a | b, "&": lambda: a & b, "-": lambda: a - b, "^": lambda: a ^ b}[op]()


def binary(ctx, M):
    """operation on two single regions"""
    pos, op = ctx.choice("pos", sorted(POS)), ctx.choice("op", sorted(OPS))
    ra, rb, lines = POS[pos]
    G = Grid(ctx)
    S = shapes(ctx, M, **(kernel(ctx, G, lines) if ctx.symbolic else {}))
    ma, mb = mk_material(ctx, M, "a"), mk_material(ctx, M, "b")
    given = ctx.choice("point", ["none", "first", "last"])
    mine = [c for c in G.cells() if has(ra, c)]
    c = mine[0] if given == "first" else mine[-1]
    cp = spot(ctx, G, c) if given != "none" else None
    tol = ctx.choice("tol", [12, 11])
    geo = M.geometry.Geometry
    a = geo(G.poly(S, ra), ma, control_points=cp, tol=tol)
    b = geo(G.poly(S, rb), mb, tol=tol)

    def keep(q):
        return OPS[op](has(ra, q), has(rb, q))

    r = operate(op, a, b)
    check_shape(ctx, op, G, r, keep)
    for x in getattr(r, "geoms", [r]):
        ctx.true(f"{op}: material of the left operand", x.material is ma)
    if not hasattr(r, "geoms"):
        ctx.true(f"{op}: tolerance of the left operand", r.tol == tol)
    check_point(ctx, op, G, r, keep, also=[a.geom] if op == "|" else [])
    if cp is not None and op in "-|" and not hasattr(r, "geoms") and keep(c):
        same_points(ctx, f"{op}: assigned control point kept", r.control_points, [cp])


def refused(ctx, M):
    """anything that is no geometry is refused"""
    op = ctx.choice("op", sorted(OPS))
    G = Grid(ctx, 2)
    S = shapes(ctx, M)
    a = M.geometry.Geometry(G.poly(S, [box(0, 1, 0, 1)]), mk_material(ctx, M, "a"))
    try:
        operate(op, a, None)
    except (ValueError, AttributeError):
        ctx.true("refused", True)
    else:
        ctx.true("refused", False)


# parts of the left compound, the other operand
CPOS = {
    "both": ([box(0, 2, 0, 2), box(2, 4, 0, 2)], [box(1, 3, 1, 3)]),
    "first gone": ([box(1, 2, 1, 2), box(2, 4, 1, 2)], [box(0, 2, 0, 3)]),
    "second gone": ([box(1, 2, 1, 2), box(2, 4, 1, 2)], [box(2, 5, 0, 3)]),
    "cut in two": ([box(0, 1, 1, 2), box(1, 4, 1, 2)], [box(2, 3, 0, 3)]),
    "first in two": ([box(0, 3, 1, 2), box(3, 4, 1, 2)], [box(1, 2, 0, 3)]),
    "hole": ([box(0, 3, 0, 3), box(3, 4, 0, 3)], [box(1, 2, 1, 2)]),
    "missed": ([box(0, 1, 0, 1), box(1, 2, 0, 1)], [box(3, 4, 0, 1)]),
    "two": ([box(0, 2, 0, 2), box(2, 4, 0, 2)], [box(1, 2, 1, 2), box(2, 3, 1, 2)]),
}


def compound(ctx, M):
    """difference of a compound: every part keeps its material, none is left without area"""
    parts, cut = CPOS[ctx.choice("pos", sorted(CPOS))]
    G = Grid(ctx)
    S = shapes(ctx, M, **(kernel(ctx, G, []) if ctx.symbolic else {}))
    mats = [mk_material(ctx, M, t) for t in "ab"]
    geo = M.geometry.Geometry
    a = geo(G.poly(S, parts[:1]), mats[0]) + geo(G.poly(S, parts[1:]), mats[1])
    bs = [geo(G.poly(S, [c]), mk_material(ctx, M, "c")) for c in cut]
    b = bs[0] if len(bs) == 1 else M.geometry.CompoundGeometry(bs)
    r = a - b
    mat_parts = []
    for p, m in zip(parts, mats):
        def keep(q, p=p):
            return has([p], q) and not any(has([c], q) for c in cut)
        mat_parts.append((m, keep))
    known = [g.material for g in r.geoms]
    ctx.true("materials are those of the parts", all(any(x is m for m in mats) for x in known))
    ctx.true("one control point per region", len(r.control_points) == len(r.geoms))
    for m, keep in mat_parts:
        gs = [g for g in r.geoms if g.material is m]
        ctx.true("every region has area", all(not g.geom.is_empty for g in gs))
        ctx.true("number of regions", len(gs) == pieces(keep))
        ctx.eq("area", sum((g.geom.area for g in gs), ctx.const(0)), G.area(keep), scale=10)
        want = [G.rings([x])[0] for x in outline(keep)]
        if ctx.symbolic:
            same_segments(ctx, "shape", ring_segments([y for g in gs for y in rings_of(g.geom)]),
                          ring_segments(want))
        for g in gs:
            same_points(ctx, "control point", [q for q, x in zip(r.control_points, r.geoms) if x is g],
                        g.control_points)


def plus(ctx, M):
    """a sum lists the regions of both operands in order, unchanged"""
    G = Grid(ctx)
    S = shapes(ctx, M, **(kernel(ctx, G, []) if ctx.symbolic else {}))
    geo = M.geometry.Geometry
    mats = [mk_material(ctx, M, t) for t in "abc"]
    cps = [spot(ctx, G, (i, i), f"cp{i}") for i in range(3)]
    gs = [geo(G.poly(S, [box(i, i + 1, i, i + 1)]), m, control_points=c)
          for i, (m, c) in enumerate(zip(mats, cps))]
    kind = ctx.choice("kind", ["two", "left", "right", "list", "empty"])
    none = geo(S.Polygon(), mk_material(ctx, M, "d"))
    r = {"two": lambda: gs[0] + gs[1], "left": lambda: (gs[0] + gs[1]) + gs[2],
         "right": lambda: gs[0] + (gs[1] + gs[2]),
         "list": lambda: M.geometry.CompoundGeometry(gs),
         "empty": lambda: gs[0] + none + gs[1]}[kind]()
    n = 2 if kind in ("two", "empty") else 3
    ctx.true("number of regions", len(r.geoms) == n)
    if len(r.geoms) != n:
        return
    for i in range(n):
        ctx.true("material in order", r.geoms[i].material is mats[i])
        same_points(ctx, f"control point {i}", r.control_points[i:i + 1], [cps[i]])
        same_segments(ctx, f"region {i}", ring_segments(rings_of(r.geoms[i].geom)),
                      ring_segments(G.rings([box(i, i + 1, i, i + 1)])))


# -- offsets


def grown(G, rs, d):
    """rectangle with all sides moved outwards by d"""
    (x0, y0), (x1, y1) = G.at(rs[0]), G.at(rs[2])
    return [(x0 - d, y0 - d), (x1 + d, y0 - d), (x1 + d, y1 + d), (x0 - d, y1 + d)]


NECK = [(0, 0), (1, 0), (1, 1), (2, 1), (2, 0), (3, 0), (3, 3), (2, 3), (2, 2), (1, 2), (1, 3), (0, 3)]


def offset(ctx, M):
    """offset of one region: exactly the chosen edges move, by the amount, all else is kept"""
    kind = ctx.choice("kind", ["solid", "frame exterior", "frame interior", "frame all",
                               "two holes", "neck", "gone", "defaults"])
    thin = kind in ("neck", "gone")
    sgn = -1 if thin else ctx.choice("sign", [1, -1])
    G = Grid(ctx, 6 if kind == "two holes" else 4)
    d = ctx.real("d", F(11, 100), F(1, 5)) if thin else ctx.real("d", F(1, 20), F(9, 100))
    amount = d * sgn
    res = ctx.choice("resolution", [4, 9]) if kind in ("solid", "frame all") else 5
    k = 5 if kind == "two holes" else 3
    outer, hole, hole2 = box(0, k, 0, k), box(1, 2, 1, 2), box(3, 4, 3, 4)
    rs = {"solid": [outer], "two holes": [outer, hole, hole2], "neck": [NECK],
          "gone": [box(0, 1, 0, 1)], "defaults": [outer]}.get(kind, [outer, hole])
    where = {"two holes": "interior", "frame interior": "interior", "frame all": "all"}.get(
        kind, "exterior")
    if thin or kind == "solid":
        where = ctx.choice("where", ["exterior", "all"])
    if kind == "neck":
        ctx.assume(G.ys[2] - G.ys[1] <= 2 * d)
        for v in (G.xs[1] - G.xs[0], G.xs[3] - G.xs[2]):
            ctx.assume(v >= F(1, 2))
    if kind == "gone":
        ctx.assume(G.xs[1] - G.xs[0] <= 2 * d)
    calls = []

    def buf(p, distance=None, *a, **kw):
        """mitred offset of a rectangle or frame; pieces of the dumbbell"""
        from symx.core import SymError, symmax, symmin
        from symx.shapemodel import MultiPolygon, Polygon, same

        if not same(distance, amount):
            return p  # the tiny cleaning buffer of compounds
        calls.append(kw.get("quad_segs", kw.get("resolution", a[0] if a else 16)))
        r = [list(x._p) for x in (p.exterior, *p.interiors)]
        if kind == "gone":
            return Polygon()
        if kind == "neck":
            return MultiPolygon([Polygon(grown(G, b, amount)) for b in LOBES])
        if not all(len(x) == 4 for x in r):
            raise SymError("buffer")

        def move(x, t):
            xs, ys = [q[0] for q in x], [q[1] for q in x]
            a0, a1, b0, b1 = symmin(xs), symmax(xs), symmin(ys), symmax(ys)
            return [(a0 - t, b0 - t), (a1 + t, b0 - t), (a1 + t, b1 + t), (a0 - t, b1 + t)]

        return Polygon(move(r[0], amount), [move(x, -amount) for x in r[1:]])

    S = shapes(ctx, M, **(kernel(ctx, G, [], buf) if ctx.symbolic else {}))
    m = mk_material(ctx, M, "a")
    cell = {"solid": (1, 1), "defaults": (1, 1), "two holes": (2, 2)}.get(kind, (0, 1))
    cp = None
    if kind != "gone" and ctx.choice("point", [False, True]):
        cp = spot(ctx, G, cell)
        ctx.assume(ctx.all(cp[0] >= G.xs[cell[0]] + F(1, 10), cp[0] <= G.xs[cell[0] + 1] - F(1, 10)))
    g = M.geometry.Geometry(G.poly(S, rs), m, control_points=cp, tol=11)
    if kind == "defaults":
        r = g.offset_perimeter(amount)
        res = 12
    else:
        r = g.offset_perimeter(amount=amount, where=where, resolution=res)
    if ctx.symbolic and not thin and (sgn > 0 or (where == "all" and len(rs) > 1)):
        ctx.true("resolution passed on", bool(calls) and all(c == res for c in calls))
    for x in getattr(r, "geoms", [r]):
        ctx.true("material kept", x.material is m)
    if not hasattr(r, "geoms"):
        ctx.true("tolerance kept", r.tol == 11)
    left = [p for p in polys_of(r) if not p.is_empty]
    ctx.true("number of regions", len(left) == {"neck": 2, "gone": 0}.get(kind, 1))
    ctx.true("one control point per region", len(r.control_points) == len(left))
    ext, *holes = G.rings(rs)
    if not ctx.symbolic:
        import shapely
        P = shapely.Polygon

        def b(x):
            return x.buffer(amount, quad_segs=res)

        hs = [P(h) for h in holes]
        if where == "exterior":
            want = b(P(ext)) - shapely.union_all(hs)
        elif where == "interior":
            want = P(ext) - shapely.union_all([b(h) for h in hs])
        else:
            want = b(P(ext, holes))
        got = shapely.union_all([p.buffer(0) for p in left])
        ctx.true("offset shape", got.symmetric_difference(want).area < 1e-8)
        for q, p in zip(r.control_points, left):
            ctx.true("control point inside", bool(p.contains(shapely.Point(q))))
    elif kind != "gone":
        if kind == "neck":
            want = [grown(G, x, amount) for x in LOBES]
        elif where == "exterior":
            want = [grown(G, rs[0], amount), *holes]
        elif where == "interior":
            want = [ext, *[grown(G, h, amount) for h in rs[1:]]]
        else:
            want = [grown(G, rs[0], amount), *[grown(G, h, -amount) for h in rs[1:]]]
        same_segments(ctx, "offset shape", ring_segments(all_rings(r)), ring_segments(want))
        from symx import shapemodel as SM
        for q, p in zip(r.control_points, left):
            o = SM.TOKENS.owner(SM.Point(q))
            ctx.true("control point inside", (o is not None and o.key() == p.key()) or cp is not None)
    if cp is not None and not hasattr(r, "geoms"):
        same_points(ctx, "assigned control point kept", r.control_points, [cp])


LOBES = [box(0, 1, 0, 3), box(2, 3, 0, 3)]


def offset_refused(ctx, M):
    """offsetting holes of a solid region, or edges that do not exist, is refused"""
    G = Grid(ctx, 4)
    S = shapes(ctx, M, buffer=lambda p, *a, **k: p)
    hole = ctx.choice("hole", [False, True])
    where = ctx.choice("where", ["interior", "inside", "", "Exterior"])
    rs = [box(0, 3, 0, 3)] + ([box(1, 2, 1, 2)] if hole else [])
    g = M.geometry.Geometry(G.poly(S, rs), mk_material(ctx, M, "a"))
    if hole and where == "interior":
        return
    d = ctx.real("d", -1, 1)
    try:
        g.offset_perimeter(amount=d, where=where)
    except ValueError:
        ctx.true("refused", True)
    else:
        ctx.true("refused", False)


def offset_compound(ctx, M):
    """eroding a compound removes the strip along its common outline from every part"""
    kind = ctx.choice("kind", ["both", "second gone", "frame", "zero", "apart", "ell", "ring"])
    G = Grid(ctx, 4)
    d = ctx.real("d", F(11, 100), F(1, 5)) if kind == "second gone" else ctx.real("d", F(1, 20), F(9, 100))
    amount = ctx.const(0) if kind == "zero" else -d
    res = ctx.choice("resolution", [4, 9])
    where = ctx.choice("where", ["exterior", "all"]) if kind in ("both", "ring") else "exterior"
    if kind == "second gone":
        ctx.assume(G.xs[3] - G.xs[2] <= d)
        ctx.assume(ctx.all(G.xs[2] - G.xs[0] >= 1, G.ys[3] - G.ys[0] >= 1))
    if kind == "frame":
        parts = [[(0, 0), (3, 0), (3, 1), (1, 1), (1, 2), (3, 2), (3, 3), (0, 3)], box(2, 3, 1, 2)]
    elif kind == "ell":
        parts = [box(0, 1, 0, 3), box(1, 3, 0, 1)]
    elif kind == "ring":
        parts = [[(0, 0), (2, 0), (2, 1), (1, 1), (1, 2), (2, 2), (2, 3), (0, 3)], box(2, 3, 0, 3)]
    elif kind == "apart":
        parts = [box(0, 1, 0, 1), box(2, 3, 0, 1)]
    else:
        parts = [box(0, 2, 0, 3), box(2, 3, 0, 3)]
    calls = []
    x, y = G.xs, G.ys

    def buf(p, distance=None, *a, **kw):
        from symx.core import SymError, symmax, symmin
        from symx.shapemodel import Polygon, same

        if not same(distance, amount):
            return p
        calls.append(kw.get("quad_segs", kw.get("resolution", a[0] if a else 16)))
        r = [list(x._p) for x in (p.exterior, *p.interiors)]
        if kind == "ell":
            return Polygon([(x[0] + d, y[0] + d), (x[3] - d, y[0] + d), (x[3] - d, y[1] - d),
                            (x[1] - d, y[1] - d), (x[1] - d, y[3] - d), (x[0] + d, y[3] - d)])
        if not all(len(x) == 4 for x in r):
            raise SymError("buffer")

        def move(x, t):
            xs, ys = [q[0] for q in x], [q[1] for q in x]
            a0, a1, b0, b1 = symmin(xs), symmax(xs), symmin(ys), symmax(ys)
            return [(a0 - t, b0 - t), (a1 + t, b0 - t), (a1 + t, b1 + t), (a0 - t, b1 + t)]

        return Polygon(move(r[0], amount), [move(x, -amount) for x in r[1:]])

    S = shapes(ctx, M, **(kernel(ctx, G, [], buf) if ctx.symbolic else {}))
    mats = [mk_material(ctx, M, t) for t in "ab"]
    geo = M.geometry.Geometry
    c = M.geometry.CompoundGeometry([geo(G.poly(S, [p]), m) for p, m in zip(parts, mats)])
    kw = {"where": where, "resolution": res}
    if kind == "apart":
        try:
            c.offset_perimeter(amount=amount, **kw)
        except RuntimeError:
            ctx.true("apart regions refused", True)
        else:
            ctx.true("apart regions refused", False)
        return
    r = c.offset_perimeter(amount=amount, **kw)
    if ctx.symbolic and kind == "ell":
        ctx.true("resolution passed on", bool(calls) and all(x == res for x in calls))
    n = 1 if kind == "second gone" else 2
    ctx.true("number of regions", len(r.geoms) == n)
    if len(r.geoms) != n:
        return
    for i in range(n):
        ctx.true("material kept", r.geoms[i].material is mats[i])
    ctx.true("one control point per region", len(r.control_points) == n)
    if ctx.symbolic:
        if kind == "zero":
            want = [[G.rings([p])[0]] for p in parts]
        elif kind == "second gone":
            want = [[[(x[0] + d, y[0] + d), (x[3] - d, y[0] + d), (x[3] - d, y[3] - d),
                      (x[0] + d, y[3] - d)]]]
        elif kind == "both":
            want = [[[(x[0] + d, y[0] + d), (x[2], y[0] + d), (x[2], y[3] - d), (x[0] + d, y[3] - d)]],
                    [[(x[2], y[0] + d), (x[3] - d, y[0] + d), (x[3] - d, y[3] - d), (x[2], y[3] - d)]]]
        elif kind == "ell":
            want = [[[(x[0] + d, y[0] + d), (x[1], y[0] + d), (x[1], y[1] - d), (x[1] - d, y[1] - d),
                      (x[1] - d, y[3] - d), (x[0] + d, y[3] - d)]],
                    [[(x[1], y[0] + d), (x[3] - d, y[0] + d), (x[3] - d, y[1] - d), (x[1], y[1] - d)]]]
        elif kind == "ring":
            e = d if where == "all" else 0
            a, b = (x[2] + d, y[2] + d), (x[2] + d, y[1] - d)
            want = [[[(x[0] + d, y[0] + d), (x[2], y[0] + d), (x[2], y[1] - e), (x[1] - e, y[1] - e),
                      (x[1] - e, y[2] + e), (x[2], y[2] + e), (x[2], y[3] - d), (x[0] + d, y[3] - d)]],
                    [[(x[2], y[0] + d), (x[3] - d, y[0] + d), (x[3] - d, y[3] - d), (x[2], y[3] - d)]
                     + ([(x[2], y[2] + d), a, b, (x[2], y[1] - d)] if e is d else [])]]
        else:
            p1 = [(x[0] + d, y[0] + d), (x[3] - d, y[0] + d), (x[3] - d, y[1])]
            p1 += [(x[1], y[1]), (x[1], y[2]), (x[3] - d, y[2]), (x[3] - d, y[3] - d),
                   (x[0] + d, y[3] - d)]
            p2 = [(x[2], y[1]), (x[3] - d, y[1]), (x[3] - d, y[2]), (x[2], y[2])]
            want = [[p1], [p2]]
        for i in range(n):
            same_segments(ctx, f"region {i}", ring_segments(rings_of(r.geoms[i].geom)),
                          ring_segments(want[i]))
        return
    import shapely
    ps = [shapely.Polygon(G.rings([p])[0]) for p in parts]
    u = shapely.union_all(ps)
    if kind == "zero":
        o = u
    elif where == "exterior":
        o = shapely.Polygon(u.exterior).buffer(amount, quad_segs=res) - shapely.union_all(
            [shapely.Polygon(h) for h in u.interiors])
    else:
        o = u.buffer(amount, quad_segs=res)
    for i in range(n):
        ctx.true("offset shape", r.geoms[i].geom.symmetric_difference(ps[i] & o).area < 1e-8)


def measures(ctx, M):
    """extents, area, perimeter and centroid of the region"""
    kind = ctx.choice("kind", ["solid", "frame", "ell", "compound", "compound apart", "overlap", "ring"])
    G = Grid(ctx, 4)
    S = shapes(ctx, M, **(kernel(ctx, G, []) if ctx.symbolic else {}))
    geo = M.geometry.Geometry
    x, y = G.xs, G.ys
    parts = {"solid": [[box(0, 3, 0, 3)]], "frame": [[box(0, 3, 0, 3), box(1, 2, 1, 2)]],
             "ell": [[[(0, 0), (3, 0), (3, 1), (1, 1), (1, 3), (0, 3)]]],
             "compound": [[box(0, 2, 0, 2)], [box(2, 3, 0, 3)]],
             "ring": [[[(0, 0), (2, 0), (2, 1), (1, 1), (1, 2), (2, 2), (2, 3), (0, 3)]], [box(2, 3, 0, 3)]],
             "overlap": [[box(0, 2, 0, 2)], [box(1, 3, 0, 3)]],
             "compound apart": [[box(0, 1, 0, 1)], [box(2, 3, 0, 3)]]}[kind]
    gs = [geo(G.poly(S, p), mk_material(ctx, M, f"m{i}")) for i, p in enumerate(parts)]
    g = gs[0] if len(gs) == 1 else M.geometry.CompoundGeometry(gs)
    ex = g.calculate_extents()
    for name, u, v in zip(("xmin", "xmax", "ymin", "ymax"), ex, (x[0], x[3], y[0], y[3])):
        ctx.eq(f"extents {name}", u, v, scale=10)

    def many(q):
        return sum(1 for p in parts if has(p, q))

    if kind != "overlap":
        a = G.area(many)
        ctx.eq("area", g.calculate_area(), a, scale=10)
        c = g.calculate_centroid()
        for k, v in ((0, x), (1, y)):
            s = sum(((x[i + 1] - x[i]) * (y[j + 1] - y[j]) * (v[(i, j)[k]] + v[(i, j)[k] + 1]) / 2
                     for i, j in G.cells() if many((i, j))), ctx.const(0))
            ctx.eq("centroid " + "xy"[k], c[k] * a, s, scale=10)
    per = g.calculate_perimeter()
    if kind == "compound apart":
        ctx.eq("perimeter of separate regions", per, -1)
    else:
        ctx.eq("perimeter", per, 2 * (x[3] - x[0] + y[3] - y[0]), scale=10)


OPT = {"patch": patch, "merge": False, "max_paths": 4000, "cost": 30}
HARNESSES = [
    ("binary", binary, OPT),
    ("refused", refused, OPT),
    ("compound", compound, OPT),
    ("plus", plus, OPT),
    ("offset", offset, OPT),
    ("offset_refused", offset_refused, OPT),
    ("offset_compound", offset_compound, OPT),
    ("measures", measures, OPT),
]
