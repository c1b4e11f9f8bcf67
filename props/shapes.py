"""Shapes with symbolic vertices and comparisons of shapes up to vertex order."""

from __future__ import annotations

from fractions import Fraction as F

from props.common import cross3, swapped
from symx import shapemodel as SM

patch = SM.install


def shapes(ctx, M, **hooks):
    """the shape classes for this path, with the given boolean-operation hooks"""
    if ctx.symbolic:
        SM.reset_hooks(**hooks)
        SM.TOKENS.clear()
    return SM.classes(M)


def pt(ctx, name, lo=-10, hi=10):
    return ctx.real(f"{name}_x", lo, hi), ctx.real(f"{name}_y", lo, hi)


def triangle(ctx, tag="", lo=-10, hi=10, area2=1):
    """three symbolic vertices, counter-clockwise, twice the area at least ``area2``"""
    p = [pt(ctx, f"{tag}{i}", lo, hi) for i in range(3)]
    ctx.assume(cross3(p) >= area2)
    return p


def mix(p, w):
    """the point with barycentric weights w / sum(w)"""
    s = sum(w)
    return (sum(q[0] * F(k, s) for q, k in zip(p, w)), sum(q[1] * F(k, s) for q, k in zip(p, w)))


def fmix(ctx, p, w):
    q = mix(p, w) if ctx.symbolic else None
    if q is not None:
        return q
    s = sum(w)
    return (sum(a[0] * (k / s) for a, k in zip(p, w)), sum(a[1] * (k / s) for a, k in zip(p, w)))


HOLE = [(2, 1, 1), (1, 2, 1), (1, 1, 2)]


def holed(ctx, S, p, holes=(HOLE,)):
    """polygon with the vertices p and holes at fixed barycentric places; also its rings"""
    rings = [list(p)] + [[fmix(ctx, p, w) for w in h] for h in holes]
    return S.Polygon(rings[0], rings[1:]), rings


# -- comparison


def numeric(ctx):
    """a function giving a float for any value of this run"""
    if not ctx.symbolic:
        return float
    from symx import poly as P
    from symx.core import ENGINE, Sym, symf

    best, good = None, False
    last, n_inputs = getattr(ctx, "last_sample", (None, 0))
    if last is not None and n_inputs == len(ENGINE.inputs):
        best = last
        try:
            for i in range(len(best), len(P.VARS)):
                g = ENGINE.defs.get(i)
                best.append(g(best) if g is not None else 0.0)
            good = all(c.evalf(best) for c in ENGINE.facts)
        except (ValueError, ZeroDivisionError, OverflowError):
            good = False
        best = best if good else None
    for k in range(0 if good else 200):
        vals, _ = ctx.sample(k)
        if vals is None:
            continue
        best = vals if best is None else best
        try:
            if all(c.evalf(vals) for c in ENGINE.facts):
                best, good = vals, True
                break
        except (ValueError, ZeroDivisionError, OverflowError):
            continue
    if not good:
        best = solved(ctx) or best
    ctx.last_sample = (best, len(ENGINE.inputs))

    def f(v):
        if best is None or not isinstance(v, Sym):
            return float(v) if not isinstance(v, Sym) else 0.0
        n = len(best)
        while n < len(P.VARS):  # variables made since the sample was drawn
            g = ENGINE.defs.get(n)
            best.append(g(best) if g is not None else 0.0)
            n += 1
        return symf(v, best)

    return f


def solved(ctx):
    """values of all variables at a point where the facts hold, from the solver"""
    import z3

    from symx import poly as P
    from symx.core import ENGINE

    r, m = ENGINE.check(list(ENGINE.facts), 4000, want_model=True)
    if r != z3.sat:
        return None
    inp = ctx.model_inputs(m)
    vals = [0.0] * len(P.VARS)
    try:
        for name, i, _, _ in ENGINE.inputs:
            vals[i] = float(inp[name])
        for i in range(len(vals)):
            g = ENGINE.defs.get(i)
            if g is not None:
                vals[i] = g(vals)
    except (ValueError, ZeroDivisionError, OverflowError):
        return None
    return vals


def dist(a, b):
    return abs(a[0] - b[0]) + abs(a[1] - b[1])


def same_points(ctx, label, got, want, scale=10):
    """the two lists hold the same points, in any order"""
    got, want = [tuple(p) for p in got], [tuple(p) for p in want]
    ctx.true(f"{label}: number of points", len(got) == len(want))
    if len(got) != len(want):
        return
    f = numeric(ctx)
    left = [((f(p[0]), f(p[1])), p) for p in got]
    for i, w in enumerate(want):
        fw = (f(w[0]), f(w[1]))
        k = min(range(len(left)), key=lambda j: dist(left[j][0], fw))
        g = left.pop(k)[1]
        ctx.eq(f"{label} [{i}].x", g[0], w[0], scale=scale)
        ctx.eq(f"{label} [{i}].y", g[1], w[1], scale=scale)


def ring_segments(rings):
    return [(a, b) for r in rings for a, b in zip(r, list(r[1:]) + [r[0]])]


def same_segments(ctx, label, got, want, scale=10):
    """the two lists hold the same undirected segments, in any order"""
    ctx.true(f"{label}: number of edges", len(got) == len(want))
    if len(got) != len(want):
        return
    f = numeric(ctx)

    def fs(s):
        return [(f(p[0]), f(p[1])) for p in s]

    left = [(fs(s), s) for s in got]
    for i, w in enumerate(want):
        u, v = fs(w)
        best = None
        for j, ((a, b), _) in enumerate(left):
            for o in (0, 1):
                c = (dist(a, u) + dist(b, v)) if not o else (dist(a, v) + dist(b, u))
                if best is None or c < best[0]:
                    best = (c, j, o)
        _, j, o = best
        s = left.pop(j)[1]
        s = s[::-1] if o else s
        for e in (0, 1):
            ctx.eq(f"{label} [{i}].{e}.x", s[e][0], w[e][0], scale=scale)
            ctx.eq(f"{label} [{i}].{e}.y", s[e][1], w[e][1], scale=scale)


def rings_of(poly):
    """open rings of a polygon"""
    out = []
    for r in (poly.exterior, *poly.interiors):
        c = [tuple(q) for q in r.coords]
        out.append(c[:-1])
    return out


def segments(g):
    """the edges a geometry hands to the mesher"""
    return [(g.points[i], g.points[j]) for i, j in g.facets]


def check_geometry(ctx, label, g, rings, scale=10):
    """the geometry's edges (points and facets) and its shape have the given rings"""
    want = ring_segments(rings)
    same_segments(ctx, f"{label} edges", segments(g), want, scale)
    same_points(ctx, f"{label} points", g.points, [p for r in rings for p in r], scale)
    same_segments(ctx, f"{label} shape", ring_segments(rings_of(g.geom)), want, scale)


def in_triangle(ctx, q, p):
    """q lies strictly inside the counter-clockwise triangle p"""
    return ctx.all(*[cross3([a, b, q]) > 0 for a, b in zip(p, p[1:] + p[:1])])


def owned(ctx, M, q, poly):
    """the point is inside the polygon"""
    if ctx.symbolic:
        c = SM.Point(q)
        o = SM.TOKENS.owner(c)
        if o is not None:
            return o.key() == poly.key() or None
        return None
    import shapely

    return bool(poly.contains(shapely.Point(q)))


__all__ = ["swapped"]


def convex_in(ctx, q, ring):
    """q strictly inside a convex counter-clockwise ring"""
    return ctx.all(*[cross3([a, b, q]) > 0 for a, b in zip(ring, list(ring[1:]) + [ring[0]])])


def convex_out(ctx, q, ring):
    return ctx.any(*[cross3([a, b, q]) < 0 for a, b in zip(ring, list(ring[1:]) + [ring[0]])])


def in_region(ctx, q, rings):
    """q inside the first ring and outside the others (convex, counter-clockwise)"""
    return ctx.all(convex_in(ctx, q, rings[0]), *[convex_out(ctx, q, h) for h in rings[1:]])


def inner_point(ctx, label, q, poly, rings):
    """the point lies in the region, whose polygon is ``poly`` and whose rings are ``rings``"""
    if not ctx.symbolic:
        import shapely

        ctx.true(label, bool(poly.contains(shapely.Point(q))))
        return
    c = SM.Point(q)
    o = SM.TOKENS.owner(c)
    if o is not None and o.key() == poly.key():
        ctx.true(label, True)
        return
    for x, own in SM.TOKENS.owned():
        ctx.assume(in_region(ctx, x, [ccw(r._p) for r in (own.exterior, *own.interiors)]))
    ctx.true(label, in_region(ctx, q, rings))


def ccw(r):
    return list(r) if bool(SM.shoelace(list(r)) > 0) else list(r)[::-1]


def lo_hi(ctx, vals):
    """smallest and largest"""
    if ctx.symbolic:
        from symx.core import symmax, symmin

        return symmin(list(vals)), symmax(list(vals))
    return min(vals), max(vals)


def extents(ctx, pts):
    """min x, max x, min y, max y"""
    return (*lo_hi(ctx, [p[0] for p in pts]), *lo_hi(ctx, [p[1] for p in pts]))


def centroid(rings):
    """centroid of a region with counter-clockwise rings (first outer)"""
    t = [0, 0, 0]
    for k, r in enumerate(rings):
        a = sx = sy = 0
        for (x0, y0), (x1, y1) in zip(r, list(r[1:]) + [r[0]]):
            c = x0 * y1 - x1 * y0
            a, sx, sy = a + c, sx + (x0 + x1) * c, sy + (y0 + y1) * c
        s = 1 if k == 0 else -1
        t = [t[0] + s * a, t[1] + s * sx, t[2] + s * sy]
    return t[1] / (3 * t[0]), t[2] / (3 * t[0]), t[0] / 2


def num_cmp(ctx):
    """the condition that two coordinates differ"""
    return (lambda a, b: a != b)
