"""Transformations of geometries: exact rigid motions, materials and control points kept."""

from fractions import Fraction as F

from props.common import cross3, mk_material
from props.shapes import (
    HOLE, centroid, check_geometry, extents, fmix, holed, inner_point, patch, pt, ring_segments,
    rings_of, same_points, same_segments, segments, shapes, triangle,
)



def patch16(M):
    """the model of shapely; while a compound is compiled its parts' vertices are taken as
    distinct (what happens when they coincide is C15's subject)"""
    patch(M)
    cls = M.geometry.CompoundGeometry
    orig = getattr(cls, "compile_geometry", None)
    if orig is None:
        return
    from symx.core import ENGINE

    def compile_geometry(self):
        ENGINE.generic = True
        try:
            return orig(self)
        finally:
            ENGINE.generic = False

    cls.compile_geometry = compile_geometry


BOUNDS = ("triangles with symbolic vertices and up to one hole, compounds of two such regions, "
          "every offset in +-20, angle, centre, alignment side and target")
ASSUMPTIONS = [
    "shapely.affinity.translate/rotate/scale and bounds/centroid are modelled by their formulas",
    "vertices of different parts of a compound are distinct",
    "rounding vertices to the tolerance is read as exact",
]
CP = (6, 1, 1)


def part(ctx, M, S, tag="", hole=True, cp=False, tol=12, lo=-10, hi=10):
    """a triangular region with a hole: (geometry, rings, control point or None)"""
    p = triangle(ctx, tag, lo, hi)
    poly, rings = holed(ctx, S, p, (HOLE,) if hole else ())
    c = fmix(ctx, p, CP) if cp else None
    g = M.geometry.Geometry(poly, mk_material(ctx, M, tag), control_points=c, tol=tol)
    return g, rings, c


def moved(ctx, M, label, g, new, rings, cp, tol, flip=False):
    """``new`` is the region with the given rings, with g's material, tolerance and points"""
    check_geometry(ctx, label, new, rings)
    ctx.true(f"{label}: material", new.material is g.material)
    ctx.true(f"{label}: tolerance", new.tol == tol)
    r = [x[::-1] for x in rings] if flip else rings
    points(ctx, label, new, r, cp)


def points(ctx, label, new, rings, cp):
    ctx.true(f"{label}: one control point", len(new.control_points) == 1)
    if cp is None:
        inner_point(ctx, f"{label}: control point inside", new.control_points[0], new.geom, rings)
    else:
        same_points(ctx, f"{label}: control point", new.control_points, [cp])
    ctx.true(f"{label}: one hole point per hole", len(new.holes) == len(rings) - 1)
    for i, h in enumerate(rings[1:]):
        hp = hole_polygon(ctx, new.geom, i)
        inner_point(ctx, f"{label}: hole point {i} inside", new.holes[i], hp, [h])


def hole_polygon(ctx, poly, i):
    if ctx.symbolic:
        from symx.shapemodel import Polygon
    else:
        from shapely import Polygon
    return Polygon(poly.interiors[i])


def each(f, rings):
    return [[f(q) for q in r] for r in rings]


def options(ctx):
    return ctx.choice("cp", [False, True]), ctx.choice("tol", [12, 7])


def shift(ctx, M):
    S = shapes(ctx, M)
    cp, tol = options(ctx)
    g, rings, c = part(ctx, M, S, cp=cp, tol=tol)
    dx, dy = pt(ctx, "d", -20, 20)

    def f(q):
        return q[0] + dx, q[1] + dy

    kw = ctx.choice("args", 3)
    if kw == 0:
        new = g.shift_section(x_offset=dx, y_offset=dy)
    elif kw == 1:
        new = g.shift_section(dx)
        dy = 0
    else:
        new = g.shift_section(y_offset=dy)
        dx = 0
    moved(ctx, M, "shift", g, new, each(f, rings), f(c) if c else None, tol)


def turn(ctx, rings, about):
    """rotation by a symbolic angle about a point: (angle argument, use_radians, map)"""
    rad = ctx.choice("radians", [True, False])
    a = ctx.angle("angle")
    co, si = ctx.cos(a), ctx.sin(a)
    ox, oy = about

    def f(q):
        u, v = q[0] - ox, q[1] - oy
        return ox + u * co - v * si, oy + u * si + v * co

    return (a if rad else a * 180 / ctx.pi), rad, f


def middle(ctx, pts):
    x0, x1, y0, y1 = extents(ctx, pts)
    return (x0 + x1) / 2, (y0 + y1) / 2


def rotate(ctx, M):
    S = shapes(ctx, M)
    g, rings, c = part(ctx, M, S, cp=ctx.choice("cp", [False, True]), tol=9)
    if ctx.choice("centre", [True, False]):
        about, arg = middle(ctx, rings[0]), {}
    else:
        about = pt(ctx, "about")
        arg = {"rot_point": about}
    angle, rad, f = turn(ctx, rings, about)
    new = g.rotate_section(angle=angle, use_radians=rad, **arg)
    moved(ctx, M, "rotate", g, new, each(f, rings), f(c) if c else None, 9)


def reflect(ctx, about, axis):
    ox, oy = about

    def f(q):
        return (q[0], 2 * oy - q[1]) if axis == "x" else (2 * ox - q[0], q[1])

    return f


def mirror(ctx, M):
    S = shapes(ctx, M)
    g, rings, c = part(ctx, M, S, cp=ctx.choice("cp", [False, True]), tol=9)
    axis = ctx.choice("axis", ["x", "y"])
    if ctx.choice("centre", [True, False]):
        about, arg = middle(ctx, rings[0]), {}
    else:
        about = pt(ctx, "about")
        arg = {"mirror_point": about}
    f = reflect(ctx, about, axis)
    new = g.mirror_section(axis=axis, **arg)
    moved(ctx, M, "mirror", g, new, each(f, rings), f(c) if c else None, 9, flip=True)


SIDES = {"left": (0, 0), "right": (0, 1), "bottom": (1, 0), "top": (1, 1)}


def two_parts(ctx, M, S, cp=False):
    a, ra, ca = part(ctx, M, S, "A", cp=cp, lo=-10, hi=-1, tol=9)
    b, rb, cb = part(ctx, M, S, "B", hole=False, lo=1, hi=10, tol=8)
    return M.geometry.CompoundGeometry([a, b]), (a, b), (ra, rb), (ca, cb)


def hooks():
    from symx.shapemodel import MultiPolygon, Polygon

    return {"union": lambda gs: MultiPolygon(gs), "buffer": lambda p, *a, **k: p,
            "difference": lambda a, b: Polygon()}


def offset_of(on, target, own, inner):
    """displacement that puts own extents at target's side"""
    ax, hi = SIDES[on]
    tgt = target[2 * ax + hi]
    mine = own[2 * ax + (hi if inner else 1 - hi)]
    d = tgt - mine
    return (d, 0) if ax == 0 else (0, d)


def align_to(ctx, M):
    S = shapes(ctx, M, **(hooks() if ctx.symbolic else {}))
    on = ctx.choice("on", list(SIDES))
    inner = ctx.choice("inner", [False, True])
    kind = ctx.choice("target", ["geometry", "compound", "point"])
    g, rings, c = part(ctx, M, S, cp=True, tol=9)
    if kind == "geometry":
        other, orings, _ = part(ctx, M, S, "T", hole=False)
        ext = extents(ctx, orings[0])
    elif kind == "compound":
        other, _, rr, _ = two_parts(ctx, M, S)
        ext = extents(ctx, rr[0][0] + rr[1][0])
    else:
        other = pt(ctx, "T")
        ext = (other[0], other[0], other[1], other[1])
    dx, dy = offset_of(on, ext, extents(ctx, rings[0]), inner)

    def f(q):
        return q[0] + dx, q[1] + dy

    new = g.align_to(other, on=on, inner=inner)
    moved(ctx, M, f"align_to {on}", g, new, each(f, rings), f(c), 9)
    e = new.calculate_extents()
    k = 2 * SIDES[on][0] + (SIDES[on][1] if inner else 1 - SIDES[on][1])
    ctx.eq("aligned edge", e[k], ext[2 * SIDES[on][0] + SIDES[on][1]], scale=10)


def align_compound(ctx, M):
    S = shapes(ctx, M, **(hooks() if ctx.symbolic else {}))
    on = ctx.choice("on", list(SIDES))
    inner = ctx.choice("inner", [False, True])
    g, parts, rr, cc = two_parts(ctx, M, S, cp=True)
    other, orings, _ = part(ctx, M, S, "T", hole=False)
    dx, dy = offset_of(on, extents(ctx, orings[0]), extents(ctx, rr[0][0] + rr[1][0]), inner)

    def f(q):
        return q[0] + dx, q[1] + dy

    check_parts(ctx, M, f"align compound {on}", g.align_to(other, on=on, inner=inner), parts, rr,
                cc, f)


def align_center(ctx, M):
    S = shapes(ctx, M, **(hooks() if ctx.symbolic else {}))
    kind = ctx.choice("target", ["none", "geometry", "point"])
    g, rings, c = part(ctx, M, S, cp=True, tol=9)
    cx, cy, _ = centroid(rings)
    if kind == "none":
        tx, ty = 0, 0
        new = g.align_center()
    elif kind == "point":
        tx, ty = pt(ctx, "T")
        new = g.align_center((tx, ty))
    else:
        other, orings, _ = part(ctx, M, S, "T", hole=False)
        tx, ty, _ = centroid(orings)
        new = g.align_center(other)

    def f(q):
        return q[0] + tx - cx, q[1] + ty - cy

    moved(ctx, M, "align_center", g, new, each(f, rings), f(c), 9)


def align_center_compound(ctx, M):
    """the centroid weighted by elastic modulus goes to the target"""
    S = shapes(ctx, M, **(hooks() if ctx.symbolic else {}))
    kind = ctx.choice("target", ["none", "geometry", "point"])
    g, parts, rr, cc = two_parts(ctx, M, S)
    w = [(p.material.elastic_modulus, centroid(r)) for p, r in zip(parts, rr)]
    ea = sum(e * a for e, (_, _, a) in w)
    cx = sum(e * a * x for e, (x, _, a) in w) / ea
    cy = sum(e * a * y for e, (_, y, a) in w) / ea
    if kind == "none":
        tx, ty = 0, 0
        new = g.align_center()
    elif kind == "point":
        tx, ty = pt(ctx, "T")
        new = g.align_center((tx, ty))
    else:
        other, orings, _ = part(ctx, M, S, "T", hole=False)
        tx, ty, _ = centroid(orings)
        new = g.align_center(other)

    def f(q):
        return q[0] + tx - cx, q[1] + ty - cy

    check_parts(ctx, M, "align_center compound", new, parts, rr, cc, f)


def check_parts(ctx, M, label, new, parts, rr, cc, f, flip=False):
    ctx.true(f"{label}: number of parts", len(new.geoms) == len(parts))
    for i, (p, rings, c) in enumerate(zip(parts, rr, cc)):
        moved(ctx, M, f"{label} part {i}", p, new.geoms[i], each(f, rings),
              f(c) if c else None, p.tol, flip)
    # what the compound itself hands to the mesher
    same_segments(ctx, f"{label} edges", segments(new),
                  [s for r in rr for s in ring_segments(each(f, r))])
    ctx.true(f"{label}: control points", len(new.control_points) == len(parts))
    for i, p in enumerate(new.geoms):
        same_points(ctx, f"{label} control point {i}", [new.control_points[i]],
                    p.control_points)


def compound_shift(ctx, M):
    S = shapes(ctx, M, **(hooks() if ctx.symbolic else {}))
    g, parts, rr, cc = two_parts(ctx, M, S, cp=True)
    dx, dy = pt(ctx, "d", -20, 20)

    def f(q):
        return q[0] + dx, q[1] + dy

    check_parts(ctx, M, "compound shift", g.shift_section(dx, dy), parts, rr, cc, f)


def compound_rotate(ctx, M):
    S = shapes(ctx, M, **(hooks() if ctx.symbolic else {}))
    g, parts, rr, cc = two_parts(ctx, M, S, cp=ctx.choice("cp", [False, True]))
    if ctx.choice("centre", [True, False]):
        about, arg = middle(ctx, rr[0][0] + rr[1][0]), {}
    else:
        about = pt(ctx, "about")
        arg = {"rot_point": about}
    angle, rad, f = turn(ctx, rr, about)
    new = g.rotate_section(angle=angle, use_radians=rad, **arg)
    check_parts(ctx, M, "compound rotate", new, parts, rr, cc, f)


def compound_mirror(ctx, M):
    S = shapes(ctx, M, **(hooks() if ctx.symbolic else {}))
    g, parts, rr, cc = two_parts(ctx, M, S, cp=ctx.choice("cp", [False, True]))
    axis = ctx.choice("axis", ["x", "y"])
    if ctx.choice("centre", [True, False]):
        about, arg = middle(ctx, rr[0][0] + rr[1][0]), {}
    else:
        about = pt(ctx, "about")
        arg = {"mirror_point": about}
    f = reflect(ctx, about, axis)
    new = g.mirror_section(axis=axis, **arg)
    check_parts(ctx, M, "compound mirror", new, parts, rr, cc, f, flip=True)


def shift_points(ctx, M):
    """the listed vertices move as asked; all others, the holes and the material stay"""
    S = shapes(ctx, M)
    p = triangle(ctx, "")
    hole = ctx.choice("hole", [True, False])
    poly, rings = holed(ctx, S, p, (HOLE,) if hole else ())
    g = M.geometry.Geometry(poly, mk_material(ctx, M), tol=9)
    pick = ctx.choice("which", [0, [1], [0, 2], [2, 1, 0], "hole"])
    idx = pick
    if pick == "hole":
        if not hole:
            return
        idx = [4]
    elif hole and pick != 0 and pick != [0, 2]:
        return
    mode = ctx.choice("mode", ["shift", "abs_x", "abs_y", "abs", "dx"])
    dx, dy = ctx.real("dx", -1, 1), ctx.real("dy", -1, 1)
    kw = {"shift": {"dx": dx, "dy": dy}, "abs_x": {"abs_x": dx}, "abs_y": {"abs_y": dy, "dx": dx},
          "abs": {"abs_x": dx, "abs_y": dy}, "dx": {"dx": dx}}[mode]
    ids = [idx] if isinstance(idx, int) else idx
    if mode in ("abs", "abs_x") and len(ids) == 3:
        return  # the triangle would collapse
    if mode == "abs" and len(ids) == 2:
        return

    # expected rings; the point order of the geometry is its own
    flat = [tuple(q) for q in g.points]
    new_flat = []
    for i, (x, y) in enumerate(flat):
        if i in ids:
            nx = kw["abs_x"] if "abs_x" in kw else x + kw.get("dx", 0)
            ny = kw["abs_y"] if "abs_y" in kw else y + kw.get("dy", 0)
            new_flat.append((nx, ny))
        else:
            new_flat.append((x, y))
    want = [(new_flat[i], new_flat[j]) for i, j in g.facets]
    outer = new_flat[:3]
    ctx.assume(cross3(outer) >= F(1, 2))
    if hole:
        h = new_flat[3:]
        ctx.assume(ctx.any(cross3(h) >= F(1, 100), cross3(h) <= -F(1, 100)))
        for q in h:
            for a, b in zip(outer, outer[1:] + outer[:1]):
                ctx.assume(cross3([a, b, q]) >= F(1, 100))
    new = g.shift_points(idx, **kw)
    same_segments(ctx, "shift_points edges", segments(new), want)
    same_segments(ctx, "shift_points shape", ring_segments(rings_of(new.geom)), want)
    ctx.true("shift_points: material", new.material == g.material)
    ctx.true("shift_points: tolerance", new.tol == 9)
    same_points(ctx, "shift_points: original unchanged", g.points, flat)
    ctx.true("shift_points: one control point", len(new.control_points) == 1)
    r = rings_of(new.geom)
    inner_point(ctx, "shift_points: control point inside", new.control_points[0], new.geom, r)
    ctx.true("shift_points: holes", len(new.holes) == int(hole))


P = {"patch": patch16, "merge": True}
HARNESSES = [
    ("shift", shift, {**P, "cost": 3}),
    ("rotate", rotate, {**P, "cost": 3}),
    ("mirror", mirror, {**P, "cost": 3}),
    ("align_to", align_to, {**P, "cost": 5}),
    ("align_compound", align_compound, {**P, "cost": 5}),
    ("align_center", align_center, {**P, "cost": 5}),
    ("align_center_compound", align_center_compound, {**P, "cost": 5}),
    ("compound_shift", compound_shift, {**P, "cost": 3}),
    ("compound_rotate", compound_rotate, {**P, "cost": 3}),
    ("compound_mirror", compound_mirror, {**P, "cost": 3}),
    ("shift_points", shift_points, {**P, "cost": 5}),
]
