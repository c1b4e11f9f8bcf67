"""Outlines of library sections from their dimensions: paths of straight edges and round corners."""

from __future__ import annotations

from fractions import Fraction as F

from props.common import default_material, mk_material
from props.shapes import patch, ring_segments, rings_of, same_points, same_segments, segments, shapes

RIGHT, LEFT, UP, DOWN = (1, 0), (-1, 0), (0, 1), (0, -1)


def setup(ctx, M):
    """shape classes whose difference is an outer ring with a hole"""
    def cut(a, b):
        from symx.shapemodel import Polygon

        if a.interiors or b.interiors:
            from symx.core import SymError
            raise SymError("difference of shapes with holes")
        return Polygon(a.exterior, [b.exterior])

    def pick(poly):
        """a token, but no fork"""
        from symx.shapemodel import Point

        r = poly.exterior._p
        return Point(r[0])

    return shapes(ctx, M, difference=cut, representative=pick)


def dim(ctx, name, lo=F(1, 10), hi=10):
    return ctx.pos(name, lo, hi)


def cossin(ctx, k):
    """cos, sin of k*pi (k rational)"""
    import math

    from symx.core import _cospi, _sinpi

    if ctx.symbolic:
        return ctx.const(_cospi(F(k))), ctx.const(_sinpi(F(k)))
    return math.cos(math.pi * float(k)), math.sin(math.pi * float(k))


def rot90(v, s=1):
    return (-v[1] * s, v[0] * s)


def fillet(ctx, c, r, din, dout, n):
    """points of a quarter circle at corner c, entered along din and left along dout"""
    if isinstance(r, int) and r == 0 or bool(r == 0):
        return [c]
    u, v = (-din[0], -din[1]), dout
    o = (c[0] + r * (u[0] + v[0]), c[1] + r * (u[1] + v[1]))
    pts = []
    for k in range(n):
        cs, sn = cossin(ctx, F(k, 2 * (n - 1)) if n > 1 else F(0))
        # from the entry tangent point (o - r v) to the exit tangent point (o - r u)
        pts.append((o[0] - r * (v[0] * cs + u[0] * sn), o[1] - r * (v[1] * cs + u[1] * sn)))
    return pts


def outline(ctx, path, n):
    """vertices of a closed path; items are (x, y) or (x, y, radius, direction in, out)"""
    pts = []
    for it in path:
        if len(it) == 2:
            pts.append(tuple(it))
        else:
            pts += fillet(ctx, (it[0], it[1]), it[2], it[3], it[4], n)
    return pts


def check_outline(ctx, label, g, rings, mat, scale=10, M=None):
    """the section's outline and holes are the given rings"""
    got = rings_of(g.geom)
    ctx.true(f"{label}: number of rings", len(got) == len(rings))
    if len(got) != len(rings):
        return
    for i, (a, b) in enumerate(zip(got, rings)):
        w = ring_segments([b])
        same_segments(ctx, f"{label} ring {i}", ring_segments([a]), w, scale)
    same_segments(ctx, f"{label} edges", segments(g), ring_segments(rings), scale)
    same_points(ctx, f"{label} points", g.points, [p for r in rings for p in r], scale)
    if mat is not None:
        ctx.true(f"{label}: material", g.material is mat)


def material(ctx, M):
    """the keyword arguments and the expected material"""
    given = ctx.choice("material given", [True, False])
    if given:
        m = mk_material(ctx, M, "m")
        return {"material": m}, m
    return {}, default_material(M)


__all__ = ["patch"]
