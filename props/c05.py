"""Interpolation, quadrature and point location on one element.

Shape functions and their derivatives at any point of any triangle, every quadrature rule
against the closed-form barycentric integrals, local coordinates and containment.
"""

import math
from fractions import Fraction as F

from props.common import cross3, mk_element, small_points, tri6_coords, tri_points

BOUNDS = (
    "any non-degenerate triangle (area > 0.005) with vertices in [-10,10]^2, and the same "
    "triangles 10^6 times smaller"
)


def quad(ctx, tag):
    return [ctx.real(f"{tag}{i}", -5, 5) for i in range(6)]


def qval(q, x, y):
    return q[0] + q[1] * x + q[2] * y + q[3] * x * x + q[4] * x * y + q[5] * y * y


def h_shape(ctx, M, small=0):
    fea = M.fea
    p = tri_points(ctx)
    ctx.assume(cross3(p) > F(1, 100))
    p = small_points(ctx, p, small)
    u, u2 = 10**small, 10 ** (2 * small)
    co = tri6_coords(ctx, p)
    e, x = ctx.real("eta", 0, 1), ctx.real("xi", 0, 1)
    z = 1 - e - x
    n, b, j, nx, ny = fea.shape_function(co, (F(1, 2) if ctx.symbolic else 0.5, e, x, z))
    # jacobian: element area
    ctx.eq("j", j * u2, cross3(p) / 2 * u2)
    px = e * p[0][0] + x * p[1][0] + z * p[2][0]
    py = e * p[0][1] + x * p[1][1] + z * p[2][1]
    ctx.eq("nx", nx * u, px * u)
    ctx.eq("ny", ny * u, py * u)
    ctx.eq("unity", sum(n[i] for i in range(6)), 1)
    only = fea.shape_function_only((e, x, z))
    ref = [e * (2 * e - 1), x * (2 * x - 1), z * (2 * z - 1), 4 * e * x, 4 * x * z, 4 * e * z]
    for i in range(6):
        ctx.eq(f"n{i}", n[i], ref[i])
        ctx.eq(f"only{i}", only[i], ref[i])
    # derivatives: exact gradients of 1, x, y (partition, linear completeness)
    for i, nm in ((0, "dx"), (1, "dy")):
        ctx.eq(f"{nm}_1", sum(b[i, k] for k in range(6)), 0)
        ctx.eq(f"{nm}_x", sum(b[i, k] * co[0, k] for k in range(6)), 1 - i)
        ctx.eq(f"{nm}_y", sum(b[i, k] * co[1, k] for k in range(6)), i)


def h_small_shape(ctx, M):
    h_shape(ctx, M, 6)


def h_gradient(ctx, M, small=0):
    """derivatives and values of every quadratic field are exact"""
    fea = M.fea
    p = tri_points(ctx, lo=-4, hi=4)
    ctx.assume(cross3(p) > F(1, 100))
    p = small_points(ctx, p, small)
    co = tri6_coords(ctx, p)
    e, x = ctx.real("eta", 0, 1), ctx.real("xi", 0, 1)
    z = 1 - e - x
    n, b, j, nx, ny = fea.shape_function(co, (0, e, x, z))
    q = quad(ctx, "q")
    f = [qval(q, co[0, k], co[1, k]) for k in range(6)]
    px = e * p[0][0] + x * p[1][0] + z * p[2][0]
    py = e * p[0][1] + x * p[1][1] + z * p[2][1]
    ctx.eq("value", sum(n[k] * f[k] for k in range(6)), qval(q, px, py))
    ctx.eq("ddx", sum(b[0, k] * f[k] for k in range(6)), q[1] + 2 * q[3] * px + q[4] * py)
    ctx.eq("ddy", sum(b[1, k] * f[k] for k in range(6)), q[2] + q[4] * px + 2 * q[5] * py)


def h_gauss(ctx, M):
    """each rule integrates every polynomial of its degree exactly (area coordinates)"""
    w = [ctx.real(f"c{i}", -5, 5) for i in range(15)]
    for n, deg in ((1, 1), (3, 2), (4, 3), (6, 4)):
        gp = M.fea.gauss_points(n=n)
        ctx.true(f"count{n}", len(gp) == n)
        tot, ref, i = 0, 0, 0
        for a in range(deg + 1):
            for b in range(deg + 1 - a):
                ref = ref + w[i] * F(2 * math.factorial(a) * math.factorial(b),
                                     math.factorial(a + b + 2)) if ctx.symbolic else (
                    ref + w[i] * 2 * math.factorial(a) * math.factorial(b)
                    / math.factorial(a + b + 2))
                for g in gp:
                    tot = tot + w[i] * g[0] * g[1] ** a * g[2] ** b
                i += 1
        ctx.eq(f"rule{n}", tot, ref)
        for k, g in enumerate(gp):
            ctx.eq(f"bary{n}_{k}", g[1] + g[2] + g[3], 1)
            ctx.true(f"in{n}_{k}", ctx.all(g[1] >= 0, g[2] >= 0, g[3] >= 0))


def h_gauss_bad(ctx, M):
    ctx.real("unused", 0, 1)
    for n in (0, 2, 5, 7):
        try:
            M.fea.gauss_points(n=n)
            ctx.fail(f"bad{n}")
        except ValueError:
            ctx.true(f"bad{n}", True)


def h_local(ctx, M, small=0):
    p, el, _ = mk_element(ctx, M, small=small)
    px, py = small_points(ctx, [(ctx.real("px"), ctx.real("py"))], small)[0]
    u = 10**small
    e, x, z = el.local_coord(p=ctx.vec([px, py]))
    ctx.eq("x", (e * p[0][0] + x * p[1][0] + z * p[2][0]) * u, px * u)
    ctx.eq("y", (e * p[0][1] + x * p[1][1] + z * p[2][1]) * u, py * u)
    ctx.eq("sum", e + x + z, 1)


def h_small_local(ctx, M):
    h_local(ctx, M, 6)


def h_within(ctx, M, small=0):
    p, el, _ = mk_element(ctx, M, small=small)
    q = small_points(ctx, [(ctx.real("px"), ctx.real("py"))], small)[0]
    a = cross3([q, p[1], p[2]])
    b = cross3([p[0], q, p[2]])
    c = cross3([p[0], p[1], q])
    m = F(1, 10**5) * F(1, 100**small)
    m = m if ctx.symbolic else float(m)
    inside = ctx.all(a >= m, b >= m, c >= m)
    outside = ctx.any(a <= -m, b <= -m, c <= -m)
    ctx.assume(ctx.any(inside, outside))
    if el.point_within_element(q):
        ctx.true("inside", inside)
    else:
        ctx.true("outside", outside)


def h_small_within(ctx, M):
    h_within(ctx, M, 6)


HARNESSES = [
    ("shape", h_shape, {}),
    ("gradient", h_gradient, {"cost": 3}),
    ("gauss", h_gauss, {}),
    ("gauss_bad", h_gauss_bad, {}),
    ("local", h_local, {}),
    ("within", h_within, {}),
    ("small_shape", h_small_shape, {}),
    ("small_local", h_small_local, {}),
    ("small_within", h_small_within, {}),
]
