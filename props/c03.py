"""Centroidal and principal properties derived from the global area integrals.

The harnesses drive the library's own derivation (centroid, centroidal and principal second
moments, section moduli, radii of gyration) from symbolic integrals; the inertia tensor is
parametrised by its trace, deviator and direction, which covers every tensor.
"""

from fractions import Fraction as F

from props.common import small_points, unit

BOUNDS = (
    "EA in [0.01,10], first moments in [-10,10], any positive definite centroidal tensor with "
    "mean in [0.1,10]; moduli over 1 to 3 mesh nodes with coordinates in [-10,10]; the "
    "principal properties also at lengths 10^3 times smaller"
)


def tensor(ctx, tag=""):
    """any symmetric 2x2 inertia tensor (positive definite)"""
    m = ctx.real("mean" + tag, F(1, 10), 10)
    d = ctx.real("dev" + tag, 0, 10)
    ctx.assume(d <= m * F(99, 100))
    a = ctx.angle("dir" + tag, -2, 2)
    c, s = ctx.cos(a), ctx.sin(a)
    c2, s2 = c * c - s * s, 2 * s * c
    return m + d * c2, m - d * c2, d * s2, m, d, (c, s)


def setup(ctx, M, aligned=False, small=0):
    if aligned:  # principal axes along x, y
        ixx, iyy, ixy, m, d = ctx.pos("ixx"), ctx.pos("iyy"), 0, None, (0, 1)
        ctx.assume(ixx > iyy)
    else:
        ixx, iyy, ixy, m, d, cs = tensor(ctx)
        d = (d, cs)
    ea = ctx.pos("ea")
    cx, cy = ctx.real("cx0"), ctx.real("cy0")
    if small:
        u = unit(ctx, small)
        ixx, iyy, ixy, m, d = (v * u**4 for v in (ixx, iyy, ixy, m, d[0]))
        d, ea, cx, cy = (d, cs), ea * u * u, cx * u, cy * u
    sp = M.post.SectionProperties()
    sp.ea = ea
    sp.qx, sp.qy = ea * cy, ea * cx
    sp.ixx_g = ixx + ea * cy * cy
    sp.iyy_g = iyy + ea * cx * cx
    sp.ixy_g = ixy + ea * cx * cy
    return sp, ixx, iyy, ixy, m, d, ea, cx, cy


def axes(ctx, sp, ixx, iyy, ixy):
    """principal direction claims, given the library's angle"""
    ph = sp.phi * ctx.pi / 180
    c, s = ctx.cos(ph), ctx.sin(ph)
    i11 = ixx * c * c - 2 * ixy * s * c + iyy * s * s
    i22 = ixx * s * s + 2 * ixy * s * c + iyy * c * c
    i12 = ixy * (c * c - s * s) + s * c * (ixx - iyy)
    return i11, i22, i12


def h_principal(ctx, M, small=0):
    sp, ixx, iyy, ixy, m, (d, _), ea, cx, cy = setup(ctx, M, small=small)
    u1, u4 = 10**small, 10 ** (4 * small)
    # the angle is only resolved to a relative 1e-12 of the deviator
    ctx.assume(ctx.any(d * u4 >= F(1, 1000), d == 0))
    nodes = ctx.arr([small_points(ctx, [(ctx.real("xn"), ctx.real("yn"))], small)[0]])
    sp.calculate_elastic_centroid()
    ctx.eq("cx", sp.cx * u1, cx * u1)
    ctx.eq("cy", sp.cy * u1, cy * u1)
    # the extreme-fibre moduli are the subject of the other harnesses
    sp.calculate_centroidal_properties(node_list=nodes)
    ctx.eq("ixx_c", sp.ixx_c * u4, ixx * u4)
    ctx.eq("iyy_c", sp.iyy_c * u4, iyy * u4)
    ctx.eq("ixy_c", sp.ixy_c * u4, ixy * u4)
    ctx.eq("i11", sp.i11_c * u4, (m + d) * u4)
    ctx.eq("i22", sp.i22_c * u4, (m - d) * u4)
    i11, i22, i12 = axes(ctx, sp, ixx, iyy, ixy)
    tol = F(1, 10**5) * m
    for n, e in [("i11_rot", i11 - sp.i11_c), ("i22_rot", i22 - sp.i22_c), ("i12_rot", i12)]:
        ctx.le(n, e * u4, tol * u4)
        ctx.le(n, -tol * u4, e * u4)
    for n, r, i in [("rx", sp.rx_c, ixx), ("ry", sp.ry_c, iyy), ("r11", sp.r11_c, m + d),
                    ("r22", sp.r22_c, m - d)]:
        ctx.eq(n, r * r * ea * u4, i * u4)
        ctx.le(n + "_pos", 0, r)


def h_small_principal(ctx, M):
    h_principal(ctx, M, 3)


def extremes(ctx, name, vals, plus, minus, i):
    """plus/minus moduli belong to the largest/smallest coordinate of vals"""
    hit_p, hit_m = [], []
    for v in vals:
        ctx.le(f"{name}_plus", plus * v, i)
        ctx.le(f"{name}_minus", -minus * v, i)
        hit_p.append(ctx.close(plus * v, i))
        hit_m.append(ctx.close(-minus * v, i))
    ctx.true(f"{name}_plus_attained", ctx.any(*hit_p))
    ctx.true(f"{name}_minus_attained", ctx.any(*hit_m))


def moduli(ctx, M, n):
    """global axes: any n nodes around the centroid"""
    sp, ixx, iyy, ixy, _, _, ea, cx, cy = setup(ctx, M, aligned=True)
    rel = [(ctx.real(f"x{i}"), ctx.real(f"y{i}")) for i in range(n)]
    for k in (0, 1):
        ctx.assume(ctx.any(*[r[k] >= F(1, 10) for r in rel]))
        ctx.assume(ctx.any(*[r[k] <= -F(1, 10) for r in rel]))
    nodes = ctx.arr([[x + cx, y + cy] for x, y in rel])
    sp.calculate_elastic_centroid()
    sp.calculate_centroidal_properties(node_list=nodes)
    extremes(ctx, "zxx", [r[1] for r in rel], sp.zxx_plus, sp.zxx_minus, ixx)
    extremes(ctx, "zyy", [r[0] for r in rel], sp.zyy_plus, sp.zyy_minus, iyy)


def pmoduli(ctx, M, n):
    """principal axes: nodes given in a frame turned to the principal direction"""
    sp, ixx, iyy, ixy, m, (d, (dc, ds)), ea, cx, cy = setup(ctx, M)
    ctx.assume(d >= F(1, 1000))
    uv = [(ctx.real(f"x{i}"), ctx.real(f"y{i}")) for i in range(n)]
    rel = [(u * dc + v * ds, v * dc - u * ds) for u, v in uv]
    nodes = ctx.arr([[x + cx, y + cy] for x, y in rel])
    sp.calculate_elastic_centroid()
    sp.calculate_centroidal_properties(node_list=nodes)
    ph = sp.phi * ctx.pi / 180
    c, s = ctx.cos(ph), ctx.sin(ph)
    p = [(x * c + y * s, y * c - x * s) for x, y in rel]
    for k in (0, 1):
        ctx.assume(ctx.any(*[r[k] >= F(1, 10) for r in p]))
        ctx.assume(ctx.any(*[r[k] <= -F(1, 10) for r in p]))
    extremes(ctx, "z11", [r[1] for r in p], sp.z11_plus, sp.z11_minus, m + d)
    extremes(ctx, "z22", [r[0] for r in p], sp.z22_plus, sp.z22_minus, m - d)


HARNESSES = [
    ("principal", h_principal, {"cost": 3}),
    ("small_principal", h_small_principal, {"cost": 3}),
    ("moduli2", lambda c, M: moduli(c, M, 2), {"merge": True}),
    ("moduli3", lambda c, M: moduli(c, M, 3), {"merge": True, "cost": 4}),
    ("pmoduli2", lambda c, M: pmoduli(c, M, 2), {"merge": True, "cost": 4}),
    ("pmoduli3", lambda c, M: pmoduli(c, M, 3), {"merge": True, "cost": 4}),
]
