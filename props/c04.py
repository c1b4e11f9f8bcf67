"""Principal and global coordinates are mutually inverse rotations; side-of-line test.

Angles and coordinates are symbolic; the angle enters through its exact sine and cosine.
"""

from fractions import Fraction as F

BOUNDS = "any angle (|phi| <= 361 degrees), coordinates in [-10,10]"


def h_rotation(ctx, M):
    fea = M.fea
    ph = ctx.angle("phi")
    deg = ph * 180 / ctx.pi
    x, y = ctx.real("x"), ctx.real("y")
    c, s = ctx.cos(ph), ctx.sin(ph)
    u, v = fea.principal_coordinate(phi=deg, x=x, y=y)
    # the 11 axis is the x axis turned anticlockwise by phi
    ctx.eq("x11", u, x * c + y * s)
    ctx.eq("y22", v, y * c - x * s)
    ctx.eq("norm", u * u + v * v, x * x + y * y)
    bx, by = fea.global_coordinate(phi=deg, x11=u, y22=v)
    ctx.eq("back_x", bx, x)
    ctx.eq("back_y", by, y)
    gx, gy = fea.global_coordinate(phi=deg, x11=x, y22=y)
    ctx.eq("gx", gx, x * c - y * s)
    ctx.eq("gy", gy, x * s + y * c)
    fu, fv = fea.principal_coordinate(phi=deg, x=gx, y=gy)
    ctx.eq("fwd_x", fu, x)
    ctx.eq("fwd_y", fv, y)
    # rotation: orientation kept
    x2, y2 = ctx.real("x2"), ctx.real("y2")
    u2, v2 = fea.principal_coordinate(phi=deg, x=x2, y=y2)
    ctx.eq("cross", u * v2 - v * u2, x * y2 - y * x2)


def h_compose(ctx, M):
    """opposite angles undo each other; a full turn changes nothing"""
    fea = M.fea
    ph = ctx.angle("phi", -3, 3)
    deg = ph * 180 / ctx.pi
    x, y = ctx.real("x"), ctx.real("y")
    u, v = fea.principal_coordinate(phi=deg, x=x, y=y)
    w, z = fea.principal_coordinate(phi=-deg, x=u, y=v)
    ctx.eq("undo_x", w, x)
    ctx.eq("undo_y", z, y)
    u1, v1 = fea.principal_coordinate(phi=deg + 360, x=x, y=y)
    ctx.eq("turn_x", u1, u)
    ctx.eq("turn_y", v1, v)
    u2, v2 = fea.principal_coordinate(phi=deg + 180, x=x, y=y)
    ctx.eq("half_x", u2, -u)
    ctx.eq("half_y", v2, -v)
    g, h = fea.global_coordinate(phi=-deg, x11=x, y22=y)
    ctx.eq("same_x", g, u)
    ctx.eq("same_y", h, v)


def h_side(ctx, M):
    """points are above a line iff they are strictly on the clockwise side of its direction"""
    fea = M.fea
    ux, uy = ctx.real("ux", -1, 1), ctx.real("uy", -1, 1)
    px, py, x, y = (ctx.real(n) for n in ("px", "py", "x0", "y0"))
    cr = (px - x) * uy - (py - y) * ux
    ctx.assume(ctx.any(cr >= F(1, 10**6), cr <= -F(1, 10**6), cr == 0))
    r = fea.point_above_line(u=ctx.vec([ux, uy]), px=px, py=py, x=x, y=y)
    if r:
        ctx.true("above", cr > 0)
    else:
        ctx.true("not_above", cr <= 0)


HARNESSES = [("rotation", h_rotation, {}), ("compose", h_compose, {}), ("side", h_side, {})]
