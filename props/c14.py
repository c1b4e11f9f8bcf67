"""Splitting: the cutting segment spans the section on the requested line, and each part goes to
the side it lies on.

The geometry kernel's cut is replaced by its contract: it may return any parts, each touching the
line and lying on one side of it.  Counterexamples are replayed with the real cut.
"""

from fractions import Fraction as F

from props.c15 import shape_key
from props.common import cross3, mk_material
from props.shapes import HOLE, extents, holed, patch, pt, rings_of, shapes, triangle

BOUNDS = ("any line (points within +-20, any direction with |vx| = 0 or >= 1e-6) given by two "
          "points or a vector, triangular sections with and without hole anywhere within +-10, "
          "up to three parts with arbitrary vertices, compounds of two sections")
ASSUMPTIONS = [
    "shapely.ops.split cuts a polygon along a segment spanning its bounding box into parts that "
    "lie on one side each; a part's representative point lies inside it",
]


def line_input(ctx, kind):
    """(arguments, a point, a direction) of a line"""
    p = pt(ctx, "p", -20, 20)
    vx, vy = ctx.real("vx", -10, 10), ctx.real("vy", -10, 10)
    if kind in ("vertical points", "vertical vector"):
        vx = ctx.const(0)
        ctx.assume(ctx.any(vy >= F(1, 100), vy <= -F(1, 100)))
    else:
        ctx.assume(ctx.any(vx >= F(1, 10**6), vx <= -F(1, 10**6)))
    if kind.endswith("points"):
        args = {"point_i": p, "point_j": (p[0] + vx, p[1] + vy)}
    else:
        form = ctx.choice("form", ["tuple", "array", "list"])
        v = {"tuple": (vx, vy), "array": ctx.vec([vx, vy]), "list": [vx, vy]}[form]
        args = {"point_i": p, "vector": v}
    return args, p, (vx, vy)


KINDS = ["points", "vector", "vertical points", "vertical vector"]


def turn(p, v, q):
    return v[0] * (q[1] - p[1]) - v[1] * (q[0] - p[0])


def side_sign(ctx, v, vertical):
    """factor that makes turn() positive above (right of) the line"""
    if vertical:
        return -1 if bool(v[1] > 0) else 1
    return 1 if bool(v[0] > 0) else -1


def section(ctx, M, S, tag, hole):
    p = triangle(ctx, tag)
    poly, rings = holed(ctx, S, p, (HOLE,) if hole else ())
    mat = mk_material(ctx, M, tag)
    return M.geometry.Geometry(poly, mat), poly, rings, mat


class Cut:
    """the cut's contract"""

    def __init__(self, ctx, p, v, vertical, sgn, plan):
        self.ctx, self.p, self.v, self.vertical, self.sgn = ctx, p, v, vertical, sgn
        self.plan, self.done, self.made, self.exts = list(plan), 0, [], {}

    def __call__(self, geom, line):
        from symx.shapemodel import GeometryCollection, Polygon, proved

        ctx, p, v = self.ctx, self.p, self.v
        c = [tuple(q) for q in line.coords]
        ctx.true("the cut is a straight segment", len(c) == 2)
        (e1, e2), k = c, self.done
        ctx.eq("segment start on the line", turn(p, v, e1), 0, scale=1)
        ctx.eq("segment end on the line", turn(p, v, e2), 0, scale=1)
        # any point of the section on the line lies between the ends
        t = ctx.real(f"t{k}", -50, 50)
        q = (p[0], t) if self.vertical else (t, p[1] + (t - p[0]) * v[1] / v[0])
        j = 1 if self.vertical else 0
        between = ctx.any(ctx.all(e1[j] <= t, t <= e2[j]), ctx.all(e2[j] <= t, t <= e1[j]))
        ring = self.rings[shape_key(geom)][0]
        x0, x1, y0, y1 = extents(ctx, ring)
        lo, hi = (y0, y1) if j else (x0, x1)
        # enough: between the ends over the whole width or height
        u = 1 - j
        over = ctx.any(ctx.all(e1[u] <= t, t <= e2[u]), ctx.all(e2[u] <= t, t <= e1[u]))
        other = (x0, x1) if j else (y0, y1)
        if proved(ctx.any(t < lo, t > hi, between)) or proved(
                ctx.any(t < other[0], t > other[1], over)):
            ctx.true("segment spans the section", True)
        else:
            away = ctx.any(*[cross3([a, b, q]) < F(1, 2)
                             for a, b in zip(ring, ring[1:] + ring[:1])])
            ctx.true("segment spans the section", ctx.any(away, between))
        self.done += 1
        sides = self.plan[k]
        parts = []
        for i, s in enumerate(sides):
            a, b, w = part(ctx, f"{k}{i}", p, v, self.sgn * s)
            tri = [(p[0] + a * v[0], p[1] + a * v[1]), (p[0] + b * v[0], p[1] + b * v[1]), w]
            parts.append(Polygon(tri))
        self.made.append((sides, parts))
        return GeometryCollection(parts)


def part(ctx, name, p, v, side):
    """a triangle on the line: its ends a, b along the line and its apex on the given side"""
    a = ctx.real(f"a{name}", -50, 50)
    b = a + ctx.real(f"l{name}", F(1, 100), 50)
    c, h = ctx.real(f"c{name}", -50, 50), ctx.real(f"h{name}", F(1, 1000), 50) * side
    return a, b, (p[0] + c * v[0] - h * v[1], p[1] + c * v[1] + h * v[0])


def third(poly):
    """an inner point of a triangle"""
    from symx.shapemodel import Point

    r = poly.exterior._p
    if len(r) != 3:
        return None
    return Point(sum(q[0] for q in r) / 3, sum(q[1] for q in r) / 3)


def arrange(ctx, M, n):
    """n sections and a line, split: (lists, cut, sections, p, v, vertical, sign)"""
    kind = ctx.choice("kind", KINDS)
    vertical = kind.startswith("vertical")
    S = shapes(ctx, M)
    hole = n == 1 and ctx.choice("hole", [False, True])
    plan = [ctx.choice(f"plan{k}", [(), (1,), (-1,), (1, -1), (-1, 1, 1), (1, -1, -1)]
                       if n == 1 else [(1, -1, -1), (-1, 1, 1)]) for k in range(n)]
    args, p, v = line_input(ctx, kind)
    sgn = side_sign(ctx, v, vertical)
    cut = None
    if ctx.symbolic:
        from symx.shapemodel import MultiPolygon, Polygon, reset_hooks

        cut = Cut(ctx, p, v, vertical, sgn, plan)
        cut.rings = {}
        reset_hooks(split=cut, representative=third, union=lambda gs: MultiPolygon(gs),
                    buffer=lambda s, *a, **k: s, difference=lambda a, b: Polygon())
    secs = [section(ctx, M, S, f"s{k}", hole) for k in range(n)]
    if ctx.symbolic:
        from symx.core import ENGINE

        for _, poly, rings, _ in secs:
            cut.rings[shape_key(poly)] = rings
        ENGINE.generic = True
    g = secs[0][0] if n == 1 else M.geometry.CompoundGeometry([s[0] for s in secs])
    if ctx.symbolic:
        ENGINE.generic = False
    if not ctx.symbolic:
        for k, sides in enumerate(plan):
            for i, s in enumerate(sides):
                slivers(ctx, M, args, p, v, sgn, k, i, s)
        if n > 1:
            combs(ctx, M, args, p, v, sgn)
    return g.split_section(**args), cut, secs, p, v, sgn


def slivers(ctx, M, args, p, v, sgn, k, i, s):
    """replay: a kite-shaped section whose parts have the shape of the assumed part"""
    name = f"{k}{i}"
    if f"a{name}" not in ctx.values:
        return
    import shapely

    a, b, w = part(ctx, name, p, v, sgn * s)
    m = ((a + b) / 2 * v[0] + p[0], (a + b) / 2 * v[1] + p[1])
    kite = [(p[0] + a * v[0], p[1] + a * v[1]), w, (p[0] + b * v[0], p[1] + b * v[1]),
            (2 * m[0] - w[0], 2 * m[1] - w[1])]
    poly = shapely.Polygon(kite)
    if not poly.is_valid or poly.area < 1e-9 or poly.buffer(-1e-7).is_empty:
        return
    g = M.geometry.Geometry(poly, mk_material(ctx, M, f"s{k}"))
    sec = (g, g.geom, None, g.material)
    check(ctx, M, g.split_section(**args), None, [sec], p, v, sgn)


def combs(ctx, M, args, p, v, sgn):
    """replay: sections which the line really cuts into three parts, one or two on a side"""
    import math

    import shapely

    ln = math.hypot(*v)
    ux, uy = v[0] / ln, v[1] / ln
    secs = []
    for k, s in enumerate((1, -1)):
        plan = [(0, -1), (1, -1), (1, 1), (2, 1), (2, -1), (3, -1), (3, 2), (0, 2)]
        ring = [(p[0] + (t + 5 * k) * ux - s * h * uy, p[1] + (t + 5 * k) * uy + s * h * ux)
                for t, h in plan]
        poly = shapely.Polygon(ring)
        secs.append((M.geometry.Geometry(poly, mk_material(ctx, M, f"s{k}")), poly))
    for group in ([secs[0]], [secs[1]], secs):
        g = (M.geometry.CompoundGeometry([x for x, _ in group]) if len(group) > 1
             else group[0][0])
        res = g.split_section(**args)
        check(ctx, M, res, None, [(x, q, None, x.material) for x, q in group], p, v, sgn)


def check(ctx, M, res, cut, secs, p, v, sgn):
    top, bot = res
    ctx.true("two lists", isinstance(top, list) and isinstance(bot, list))
    if ctx.symbolic:
        got = {1: list(top), -1: list(bot)}
        want = {1: [], -1: []}
        for (sides, parts), sec in zip(cut.made, secs):
            for s, q in zip(sides, parts):
                want[s].append((q, sec[3]))
        for s in (1, -1):
            name = "upper/right" if s == 1 else "lower/left"
            a = sorted((shape_hash(g.geom), id(g.material)) for g in got[s])
            b = sorted((shape_hash(q), id(m)) for q, m in want[s])
            ctx.true(f"{name} parts with their materials", a == b)
        return
    # with the real cut: sides, completeness, materials
    import math

    ln = math.hypot(*v)
    for s, parts in ((1, top), (-1, bot)):
        for g in parts:
            for r in rings_of(g.geom):
                for q in r:
                    ctx.le("part on its side", 0, s * sgn * turn(p, v, q) / ln + 1e-6)
            ctx.true("material kept", any(g.material is x[3] for x in secs))
    for _, poly, _, mat in secs:
        a = sum(g.geom.area for g in top + bot if g.material is mat)
        ctx.eq("the parts make up the section", a, poly.area)


def shape_hash(p):
    return hash(shape_key(p))


def single(ctx, M):
    check(ctx, M, *arrange(ctx, M, 1))


def compound(ctx, M):
    check(ctx, M, *arrange(ctx, M, 2))


def no_line(ctx, M):
    """a single point does not define a line"""
    S = shapes(ctx, M)
    g = section(ctx, M, S, "s", False)[0]
    kw = ctx.choice("kw", [{}, {"point_j": None}, {"vector": None}])
    try:
        g.split_section(pt(ctx, "p"), **kw)
    except ValueError:
        ctx.true("refused", True)
        return
    ctx.fail("accepted")


P = {"patch": patch, "merge": True}
HARNESSES = [
    ("single", single, {**P, "cost": 5}),
    ("compound", compound, {**P, "cost": 5}),
    ("no_line", no_line, {**P, "cost": 1}),
]
