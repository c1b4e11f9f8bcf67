"""The frame analysis agrees with the geometric plus warping analyses.

Both analyses run on the same mesh with the same (arbitrary) answer of the linear solver;
moduli are symbolic, or the element integrals themselves are arbitrary.
"""

from fractions import Fraction as F

from props.c07 import MESHES, add_polygons, build, expected, mat_fixed
from props.common import (
    Solver, WarpRef, default_material, fixed_points, mk_section, num, patch_all, quad_mesh,
)

BOUNDS = (
    "fixed two-, three- and eight-element meshes, symbolic moduli in [0.5,8]; or arbitrary element integrals "
    "(two elements); any solver answer in [-5,5]"
)
ASSUMPTIONS = ["the linear solver answers the torsion load with an arbitrary vector"]
NAMES = ["area", "ixx_c", "iyy_c", "ixy_c", "j", "phi"]


def run(ctx, M, mesh, attrs, mats, mode):
    p, verts, tris, s1 = build(ctx, M, mesh, attrs, mats)
    _, _, _, s2 = build(ctx, M, mesh, attrs, mats)
    s1.calculate_geometric_properties()
    cx, cy = s1.get_c()
    ref = WarpRef(ctx, M, p, tris, attrs, mats, cx, cy)
    sv = Solver(ctx, len(verts))
    sv.refs["omega"] = ref.torsion_load()
    with sv.installed(M):
        r = s2.calculate_frame_properties(solver_type=mode)
    ctx.true("load", sv.asked == ["omega"])
    return s1, s2, r, ref, sv


def check(ctx, M, mesh, attrs, mats, mode="direct"):
    s1, s2, r, ref, sv = run(ctx, M, mesh, attrs, mats, mode)
    a, b = s1.section_props, s2.section_props
    ctx.true("len", len(r) == 6)
    for i, n in enumerate(NAMES):
        if n == "j":
            want = a.ixx_c + a.iyy_c - sum(x * y for x, y in zip(sv.vec["omega"],
                                                                sv.refs["omega"]))
        else:
            want = getattr(a, n)
        ctx.eq(n, r[i], want)
        ctx.eq("stored_" + n, getattr(b, n), want)
    for n in ("ea", "cx", "cy", "qx", "qy", "ixx_g", "iyy_g", "ixy_g"):
        ctx.eq(n, getattr(b, n), getattr(a, n))
    for i in range(ref.n):
        ctx.eq(f"om{i}", b.omega[i], sv.vec["omega"][i])


def h_plain(ctx, M):
    check(ctx, M, ctx.choice("mesh", ["quad"]), [0, 0], [default_material(M)],
          ctx.choice("mode", ["direct", "cgs"]))


def h_fan(ctx, M):
    check(ctx, M, "fan", [0, 0, 0], [default_material(M)])


def h_composite(ctx, M):
    mats = [mat_fixed(ctx, M, "a", 2, F(1, 4)), mat_fixed(ctx, M, "b", 5, F(1, 8))]
    check(ctx, M, "quad", ctx.choice("attrs", [[1, 0], [0, 1]]), mats)


def h_many(ctx, M):
    """eight elements in three regions"""
    mats = [mat_fixed(ctx, M, t, e, v) for t, e, v in
            (("a", 3, F(1, 3)), ("b", 1, F(1, 5)), ("c", 7, F(1, 4)))]
    check(ctx, M, "ring", [0, 1, 2, 2, 0, 1, 1, 0], mats, ctx.choice("mode", ["direct", "cgs"]))


def h_moduli(ctx, M):
    """symbolic moduli; no solver answer is needed for the geometric part"""
    ea, eb = ctx.pos("Ea", F(1, 2), 8), ctx.pos("Eb", F(1, 2), 8)
    mats = [M.pre.Material("a", ea, num(ctx, F(1, 4)), num(ctx, 1), num(ctx, 1), "w"),
            M.pre.Material("b", eb, num(ctx, F(1, 8)), num(ctx, 1), num(ctx, 1), "w")]
    pts, t3 = MESHES["quad"]
    p, verts, tris, s1 = build(ctx, M, "quad", [0, 1], mats)
    _, _, _, s2 = build(ctx, M, "quad", [0, 1], mats)
    zero = ctx.vec([num(ctx, 0)] * len(verts))
    sv = Solver(ctx, len(verts))
    sv.answer = lambda f: zero.copy()
    if ctx.symbolic:
        s1.section_props.calculate_centroidal_properties = tail(ctx, M, s1)
    s1.calculate_geometric_properties()
    ctx.havoc(False)
    with sv.installed(M):
        r = s2.calculate_frame_properties()
    a = s1.section_props
    for i, n in enumerate(NAMES):
        want = a.ixx_c + a.iyy_c if n == "j" else getattr(a, n)
        ctx.eq(n, r[i], want)


def tail(ctx, M, sec):
    """the real derived properties, then nothing more that could fork (yield moments)"""
    orig = type(sec.section_props).calculate_centroidal_properties

    def f(*a, **k):
        orig(sec.section_props, *a, **k)
        ctx.havoc()

    return f


def h_integrals(ctx, M):
    """element integrals arbitrary (two elements, two moduli)"""
    mats = [mat_fixed(ctx, M, "a", 2, F(1, 4)), mat_fixed(ctx, M, "b", 5, F(1, 8))]
    out = []
    vals = []
    # second moments about the centroid are positive, as for every real section
    for k in range(2):
        vals.append((ctx.pos(f"A{k}", 1, 9), ctx.real(f"Qx{k}"), ctx.real(f"Qy{k}"),
                     ctx.pos(f"Ix{k}", 150, 300), ctx.pos(f"Iy{k}", 150, 300),
                     ctx.real(f"Ixy{k}", -50, 50)))
    tot = [sum(v[i] * m.elastic_modulus for v, m in zip(vals, mats)) for i in range(6)]
    ctx.assume(tot[3] * tot[0] - tot[1] * tot[1] >= 1)
    ctx.assume(tot[4] * tot[0] - tot[2] * tot[2] >= 1)
    for k in range(2):
        _, verts, _, s = build(ctx, M, "quad", [0, 1], mats)
        for i, el in enumerate(s.elements):
            m = mats[i]

            def gp(v=vals[i], m=m):
                return (*v, m.elastic_modulus, m.shear_modulus, m.density)

            el.geometric_properties = gp
        out.append(s)
    s1, s2 = out
    zero = ctx.vec([num(ctx, 0)] * len(verts))
    sv = Solver(ctx, len(verts))
    sv.answer = lambda f: zero.copy()
    if ctx.symbolic:
        s1.section_props.calculate_centroidal_properties = tail(ctx, M, s1)
    s1.calculate_geometric_properties()
    ctx.havoc(False)
    with sv.installed(M):
        r = s2.calculate_frame_properties()
    a = s1.section_props
    ctx.eq("area", r[0], vals[0][0] + vals[1][0])
    for i, n in ((1, "ixx_c"), (2, "iyy_c"), (3, "ixy_c")):
        ctx.eq(n, r[i], getattr(a, n))
    ctx.eq("ixx", r[1] * tot[0], tot[3] * tot[0] - tot[1] * tot[1])
    ctx.eq("iyy", r[2] * tot[0], tot[4] * tot[0] - tot[2] * tot[2])
    ctx.eq("ixy", r[3] * tot[0], tot[5] * tot[0] - tot[1] * tot[2])
    ctx.eq("phi", r[5], a.phi)
    ctx.eq("j", r[4], r[1] + r[2])


def h_refuse(ctx, M):
    p, verts, tris, sec = build(ctx, M, "quad", [0, 0], [default_material(M)])
    ctx.real("unused", 0, 1)
    sv = Solver(ctx, len(verts))
    with sv.installed(M):
        for bad in ("lu", "", "Direct"):
            try:
                sec.calculate_frame_properties(solver_type=bad)
                ctx.fail(f"bad_{bad}")
            except ValueError:
                ctx.true(f"bad_{bad}", True)


P = {"patch": patch_all, "merge": True}
HARNESSES = [
    ("plain", h_plain, {**P, "cost": 3}),
    ("fan", h_fan, {**P, "cost": 3}),
    ("composite", h_composite, {**P, "cost": 3}),
    ("many", h_many, {**P, "cost": 5, "num_sqrt": True}),
    ("moduli", h_moduli, {**P, "cost": 5}),
    ("integrals", h_integrals, {**P, "neg_sqrt_check": False, "cost": 5}),
    ("refuse", h_refuse, P),
]
