"""Yield moments: under the reported moment the most stressed fibre is exactly at yield.

The geometric analysis runs with arbitrary centroid, second moments and principal angle (their
own derivation is the subject of C03); every node of every element is then compared with the
closed-form bending stress in that element's own material.
"""

from fractions import Fraction as F

from props.common import (
    fixed_points, mk_material, mk_section, num, patch_section, quad_mesh, swapped, tri_points,
    cross3,
)

BOUNDS = (
    "moduli: two or three regions, any moduli and yield strengths in [0.01,10], fixed "
    "nodes in three orientations; shape: one triangle with any vertices, centroid, principal angle"
    " and principal moments (global axes: three fixed inertia tensors)"
)


def given(ctx, sec, v):
    """the section's own derivation replaced by given values"""
    sp = sec.section_props

    def cen(*a, **k):
        sp.cx, sp.cy = v["cx"], v["cy"]

    def rest(*a, **k):
        cen()
        for n in ("ixx_c", "iyy_c", "ixy_c", "i11_c", "i22_c", "phi"):
            setattr(sp, n, v[n])

    sp.calculate_elastic_centroid = cen
    sp.calculate_centroidal_properties = rest


def stresses(ctx, v, x, y, e):
    x, y = x - v["cx"], y - v["cy"]
    det = v["ixx_c"] * v["iyy_c"] - v["ixy_c"] * v["ixy_c"]
    c, s = v["cs"]
    return {
        "xx": e * (v["iyy_c"] * y - v["ixy_c"] * x) / det,
        "yy": e * (v["ixy_c"] * y - v["ixx_c"] * x) / det,
        "11": e * (y * c - x * s) / v["i11_c"],
        "22": -e * (x * c + y * s) / v["i22_c"],
    }


def claims(ctx, sec, v, nodes, which=("xx", "yy", "11", "22")):
    """nodes: (x, y, material)"""
    for w in which:
        my = getattr(sec.section_props, "my_" + w)
        ctx.true(f"{w} positive", my > 0)
        at = []
        for i, (x, y, m) in enumerate(nodes):
            s = stresses(ctx, v, x, y, m.elastic_modulus)[w]
            fy = m.yield_strength
            ctx.le(f"{w} node {i} +", my * s, fy)
            ctx.le(f"{w} node {i} -", -(my * s), fy)
            at += [my * s == fy, -(my * s) == fy] if ctx.symbolic else [
                ctx.close(my * abs(s), fy)]
        ctx.true(f"{w} reached", ctx.any(*at))


MESH = ([(0, 0), (4, 0), (1, 3), (5, 5)], [(0, 1, 2), (1, 3, 2)])
# (cx, cy, ixx, iyy, ixy, i11, i22, (cos, sin) of phi)
VALS = [
    (2, 1, 3, 2, 0, 3, 2, 1, 0),
    (F(5, 2), F(3, 2), 5, 4, 1, 6, 3, F(3, 5), F(-4, 5)),
    (1, 2, 4, 6, -2, 7, 2, F(-5, 13), F(12, 13)),
]


def fixed_vals(ctx, k):
    import math

    r = VALS[k]
    v = {n: num(ctx, q) for n, q in zip(
        ("cx", "cy", "ixx_c", "iyy_c", "ixy_c", "i11_c", "i22_c"), r)}
    c, s = r[7:]
    if (c, s) == (1, 0):
        v["phi"] = num(ctx, 0)
        v["cs"] = (num(ctx, 1), num(ctx, 0))
    else:
        ph = math.degrees(math.atan2(s, c))
        v["phi"] = num(ctx, F(ph))
        a = v["phi"] * ctx.pi / 180
        v["cs"] = (ctx.cos(a), ctx.sin(a))
    return v


def moduli(ctx, M, attrs, which, mesh=None, nmat=2):
    mesh = mesh or MESH
    k = ctx.choice("orientation", len(VALS))
    v = fixed_vals(ctx, k)
    p = fixed_points(ctx, mesh[0])
    verts, tris = quad_mesh(p, mesh[1])
    mats = [mk_material(ctx, M, "abcd"[i]) for i in range(nmat)]
    sec = mk_section(ctx, M, verts, tris, attrs, mats)
    given(ctx, sec, v)
    sec.calculate_geometric_properties()
    nodes = [(verts[n][0], verts[n][1], mats[a]) for t, a in zip(tris, attrs) for n in t]
    claims(ctx, sec, v, nodes, which)


def h_moduli_g(ctx, M):
    moduli(ctx, M, [0, 1], ("xx", "yy"))


def h_moduli_p(ctx, M):
    moduli(ctx, M, [1, 0], ("11", "22"))


THREE = ([(0, 0), (4, 0), (1, 3), (5, 5), (-1, 6)], [(0, 1, 2), (1, 3, 2), (2, 3, 4)])


def h_moduli3_g(ctx, M):
    moduli(ctx, M, [2, 0, 1], ("xx", "yy"), THREE, 3)


def h_moduli3_p(ctx, M):
    moduli(ctx, M, [1, 2, 0], ("11", "22"), THREE, 3)


def shape(ctx, M, v, which, fixed=False):
    p = tri_points(ctx, 3)
    ctx.assume(cross3(p) > F(1, 100))
    verts, tris = quad_mesh(p, [(0, 1, 2)])
    m = mk_material(ctx, M, "a")
    if fixed:
        m = M.pre.Material(name="f", elastic_modulus=num(ctx, 3), poissons_ratio=num(ctx, 0),
                           yield_strength=num(ctx, 2), density=num(ctx, 1), color="w")
    sec = mk_section(ctx, M, verts, tris, [0], [m])
    given(ctx, sec, v)
    sec.calculate_geometric_properties()
    claims(ctx, sec, v, [(x, y, m) for x, y in verts], which)


def h_shape_global(ctx, M):
    v = fixed_vals(ctx, ctx.choice("orientation", len(VALS)))
    v |= {n: ctx.real(n) for n in ("cx", "cy")}
    shape(ctx, M, v, ("xx", "yy"), fixed=True)


def h_shape_principal(ctx, M):
    a = ctx.angle("phi", -4, 4)
    v = {n: ctx.pos(n) for n in ("i11_c", "i22_c")}
    v |= {n: ctx.real(n) for n in ("cx", "cy")}
    v |= {"ixx_c": num(ctx, 2), "iyy_c": num(ctx, 2), "ixy_c": num(ctx, 1)}
    v["phi"] = a * 180 / ctx.pi
    v["cs"] = (ctx.cos(a), ctx.sin(a))
    shape(ctx, M, v, ("11", "22"))


HARNESSES = [
    ("moduli_global", h_moduli_g, {"patch": patch_section, "merge": True, "num_sqrt": True}),
    ("moduli_principal", h_moduli_p, {"patch": patch_section, "merge": True, "num_sqrt": True}),
    ("moduli3_global", h_moduli3_g, {"patch": patch_section, "merge": True, "num_sqrt": True}),
    ("moduli3_principal", h_moduli3_p, {"patch": patch_section, "merge": True, "num_sqrt": True}),
    ("shape_global", h_shape_global, {"patch": patch_section, "merge": True, "num_sqrt": True}),
    ("shape_principal", h_shape_principal, {"patch": patch_section, "merge": True}),
]
