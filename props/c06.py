"""Torsion stiffness, load and constraint vectors, per element and assembled.

Element: symbolic triangle and material against exact integrals of the interpolation
functions.  Assembly: two elements with symbolic corners and materials, every entry of the
bordered matrix against the scatter of the element contributions.
"""

from fractions import Fraction as F

from props.c01 import fan
from props.common import (
    SHAPE, TriRef, dense, mk_element, mk_material, mk_section, patch_all, quad_mesh,
    small_points, tri_points, two_tri_corners, cross3, tri6_coords,
)

BOUNDS = (
    "one element: any triangle with vertices in [-10,10]^2, any material; assembly: two and "
    "three elements sharing edges, one to two materials; element and assembly also at "
    "coordinates 10^6 times smaller; eight fixed elements in three regions"
)
ASSUMPTIONS = ["the sparse-matrix constructors are replaced by a dense one that sums duplicates"]


def h_element(ctx, M, small=0):
    p, el, mat = mk_element(ctx, M, small=small)
    u2 = 10 ** (2 * small)
    u4 = u2 * u2
    k, f, c = el.torsion_properties()
    t = TriRef(ctx, p)
    e = mat.elastic_modulus
    g = [t.grad2a(n) for n in SHAPE]
    for i in range(6):
        for j in range(i, 6):
            ref = t.integral(g[i][0] * g[j][0] + g[i][1] * g[j][1])
            ctx.eq(f"k{i}{j}", k[i, j] * t.a2 * t.a2 * u4, e * ref * u4)
            if j > i:
                ctx.eq(f"sym{i}{j}", k[i, j], k[j, i])
        ctx.eq(f"f{i}", f[i] * t.a2 * u4, e * t.integral(g[i][0] * t.y - g[i][1] * t.x) * u4)
        ctx.eq(f"c{i}", c[i] * u2, e * t.integral(SHAPE[i]) * u2, scale=1)


def h_small_element(ctx, M):
    h_element(ctx, M, 6)


def h_nullspace(ctx, M):
    """no stiffness against constants; a rigid shift of the origin changes loads only by
    the matching linear field"""
    p, el, mat = mk_element(ctx, M)
    k, f, c = el.torsion_properties()
    for i in range(6):
        ctx.eq(f"row{i}", sum(k[i, j] for j in range(6)), 0)
    ctx.eq("fsum", sum(f[i] for i in range(6)), 0)
    ctx.eq("csum", sum(c[i] for i in range(6)) * 2, mat.elastic_modulus * cross3(p))
    dx, dy = ctx.real("dx"), ctx.real("dy")
    q = [(a + dx, b + dy) for a, b in p]
    el2 = M.fea.Tri6(0, tri6_coords(ctx, q), [0, 1, 2, 3, 4, 5], mat)
    k2, f2, c2 = el2.torsion_properties()
    co = el.coords
    for i in range(6):
        lin = sum(k[i, j] * (dy * co[0, j] - dx * co[1, j]) for j in range(6))
        ctx.eq(f"shift{i}", f2[i] - f[i], lin)
        ctx.eq(f"cshift{i}", c2[i], c[i])


def assembly(ctx, M, t3, p, attrs, mats, small=0):
    p = small_points(ctx, p, small)
    u2 = 10 ** (2 * small)
    verts, tris = quad_mesh(p, t3)
    sec = mk_section(ctx, M, verts, tris, attrs, mats)
    n = len(verts)
    k, f = sec.assemble_torsion()
    k = dense(k)
    ctx.true("shape", tuple(k.shape) == (n + 1, n + 1))
    K = [[0] * (n + 1) for _ in range(n + 1)]
    Fv = [0] * n
    for tri, a in zip(tris, attrs):
        ids = [tri[0], tri[1], tri[2], tri[5], tri[3], tri[4]]
        el = M.fea.Tri6(0, tri6_coords(ctx, [p[i] for i in tri[:3]]), ids, mats[a])
        ke, fe, ce = el.torsion_properties()
        for i in range(6):
            for j in range(6):
                K[ids[i]][ids[j]] = K[ids[i]][ids[j]] + ke[i, j]
            Fv[ids[i]] = Fv[ids[i]] + fe[i]
            K[ids[i]][n] = K[ids[i]][n] + ce[i]
            K[n][ids[i]] = K[n][ids[i]] + ce[i]
    for i in range(n + 1):
        for j in range(n + 1):
            # the border holds areas, the rest is dimensionless
            w = u2 if (i == n) != (j == n) else 1
            ctx.eq(f"k{i}_{j}", k[i, j] * w, K[i][j] * w)
    for i in range(n):
        ctx.eq(f"f{i}", f[i] * u2, Fv[i] * u2)


def h_assembly(ctx, M, small=0):
    p = [(0, 0), (3, 1), (1, 4), (5, 6)]
    t3 = [(0, 1, 2), (1, 3, 2)]
    if ctx.symbolic:
        p = [(ctx.const(a), ctx.const(b)) for a, b in p]
    else:
        p = [(float(a), float(b)) for a, b in p]
    mats = [mk_material(ctx, M, "a"), mk_material(ctx, M, "b")]
    assembly(ctx, M, t3, p, ctx.choice("attrs", [[0, 1], [1, 0]]), mats, small)


def h_small_assembly(ctx, M):
    h_assembly(ctx, M, 6)


def h_assembly_geo(ctx, M):
    """one symbolic corner"""
    x, y = ctx.real("x", 3, 9), ctx.real("y", 3, 9)
    p = [(0, 0), (3, 1), (1, 4), (x, y)]
    t3 = [(0, 1, 2), (1, 3, 2)]
    ctx.assume(cross3([p[1], p[3], p[2]]) > F(1, 100))
    if ctx.symbolic:
        p = [(ctx.const(a), ctx.const(b)) if isinstance(a, int) else (a, b) for a, b in p]
    assembly(ctx, M, t3, p, [0, 0], [mk_material(ctx, M, "a")])


def h_assembly3(ctx, M):
    p = [(0, 0), (4, 1), (3, 4), (-1, 5), (-3, 2)]
    t3 = [(0, 1, 2), (0, 2, 3), (4, 0, 3)]
    if ctx.symbolic:
        p = [(ctx.const(a), ctx.const(b)) for a, b in p]
    else:
        p = [(float(a), float(b)) for a, b in p]
    mats = [mk_material(ctx, M, "a"), mk_material(ctx, M, "b")]
    assembly(ctx, M, t3, p, ctx.choice("attrs", [[0, 1, 0], [1, 0, 0], [0, 0, 1]]), mats)


def h_many(ctx, M):
    """eight elements around a node in three regions"""
    p, t3 = fan(ctx, 8)
    mats = [mk_material(ctx, M, t) for t in "abc"]
    assembly(ctx, M, t3, p, [0, 1, 2, 2, 0, 1, 1, 0], mats)


P = {"patch": patch_all}
HARNESSES = [
    ("element", h_element, {"cost": 3}),
    ("small_element", h_small_element, {"cost": 3}),
    ("small_assembly", h_small_assembly, P),
    ("nullspace", h_nullspace, {"cost": 3}),
    ("assembly", h_assembly, P),
    ("assembly_geo", h_assembly_geo, {**P, "cost": 2}),
    ("many", h_many, P),
    ("assembly3", h_assembly3, P),
]
