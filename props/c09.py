"""Stress fields of each action: closed forms at the element's nodes, zero and linear
behaviour, and equilibrium of the recovered stresses over whole sections.
"""

from fractions import Fraction as F

from props.c07 import MESHES, add_polygons, build, mat_fixed
from props.common import (
    Solver, TriRef, WarpRef, cross3, default_material, fixed_points, mk_element, mk_section,
    num, patch_all, quad_mesh, tri6_coords, tri_points, unit,
)

BOUNDS = (
    "element fields: any triangle in [-6,6]^2, any moments, actions and nodal warping/shear "
    "functions, each action also 10^10 times smaller; "
    "sections: three fixed meshes (two, three and eight elements), symbolic moduli or fixed moduli with any solver answer"
)
ASSUMPTIONS = [
    "irrational quadrature constants as rationals accurate to 1e-30; agreement required to 1e-9 "
    "of the largest term (the library's extrapolation table has 15 digits)",
]
NODES = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (F(1, 2), F(1, 2), 0), (0, F(1, 2), F(1, 2)),
         (F(1, 2), 0, F(1, 2))]
OUT = ["n", "mxx", "myy", "m11", "m22", "zx_mzz", "zy_mzz", "zx_vx", "zy_vx", "zx_vy", "zy_vy"]
ACT = ["n", "mxx", "myy", "m11", "m22", "mzz", "vx", "vy"]


def nodes(ctx):
    return [[num(ctx, v) for v in z] for z in NODES]


def base(ctx, over=()):
    """arguments of the element stress routine, everything zero/one unless overridden"""
    z, o = num(ctx, 0), num(ctx, 1)
    kw = {a: z for a in ACT}
    kw.update(ea=o, cx=z, cy=z, ixx=o, iyy=o, ixy=z, i11=o, i22=o, phi=z, j=o, nu=z, delta_s=o)
    for k in ("omega", "psi_shear", "phi_shear"):
        kw[k] = ctx.vec([z] * 6)
    kw.update(over)
    return kw


def action(ctx, name, lo=-10, hi=10):
    v = ctx.real(name, lo, hi)
    ctx.assume(ctx.any(v >= F(1, 100), v <= -F(1, 100)))
    return v * getattr(ctx, "act_unit", 1)


def eqa(ctx, label, a, b):
    """equality of two quantities proportional to the action"""
    w = getattr(ctx, "act_scale", 1)
    ctx.eq(label, a * w, b * w)


def tiny(fn):
    """the same claims for actions 10^10 times smaller"""

    def h(ctx, M):
        ctx.act_unit, ctx.act_scale = unit(ctx, 10), 10**10
        fn(ctx, M)

    return h


def zeros(ctx, r, keep):
    for k, nm in enumerate(OUT):
        if nm not in keep:
            for i in range(6):
                ctx.eq(f"zero_{nm}{i}", r[k][i], 0)


def small_element(ctx, M):
    p = tri_points(ctx, 3, "", -6, 6)
    ctx.assume(cross3(p) > F(1, 100))
    mat = M.pre.Material("m", ctx.pos("E"), num(ctx, F(1, 4)), num(ctx, 1), num(ctx, 1), "w")
    return p, M.fea.Tri6(0, tri6_coords(ctx, p), [0, 1, 2, 3, 4, 5], mat), mat.elastic_modulus


def h_axial(ctx, M):
    p, el, e = small_element(ctx, M)
    n, ea = action(ctx, "n"), ctx.pos("ea", 1, 50)
    r = el.element_stress(**base(ctx, dict(n=n, ea=ea)))
    for i in range(6):
        eqa(ctx, f"n{i}", r[0][i] * ea, n * e)
    zeros(ctx, r, ["n"])


def h_bending(ctx, M):
    p, el, e = small_element(ctx, M)
    which = ctx.choice("which", 2)
    m = action(ctx, "m")
    cx, cy = ctx.real("cx", -3, 3), ctx.real("cy", -3, 3)
    ixx, iyy, ixy = ctx.pos("ixx", 1, 9), ctx.pos("iyy", 1, 9), ctx.real("ixy", F(-9, 10), F(9, 10))
    kw = dict(cx=cx, cy=cy, ixx=ixx, iyy=iyy, ixy=ixy)
    kw["myy" if which else "mxx"] = m
    r = el.element_stress(**base(ctx, kw))
    det = ixx * iyy - ixy * ixy
    for i in range(6):
        x, y = el.coords[0, i] - cx, el.coords[1, i] - cy
        ref = m * (iyy * y - ixy * x) if not which else m * (ixy * y - ixx * x)
        eqa(ctx, f"m{i}", r[1 + which][i] * det, e * ref)
    zeros(ctx, r, ["myy" if which else "mxx"])


def h_bending_p(ctx, M):
    p, el, e = small_element(ctx, M)
    which = ctx.choice("which", 2)
    m = action(ctx, "m")
    cx, cy = ctx.real("cx", -3, 3), ctx.real("cy", -3, 3)
    i11, i22 = ctx.pos("i11", 1, 9), ctx.pos("i22", 1, 9)
    ph = ctx.angle("phi")
    kw = dict(cx=cx, cy=cy, i11=i11, i22=i22, phi=ph * 180 / ctx.pi)
    kw["m22" if which else "m11"] = m
    r = el.element_stress(**base(ctx, kw))
    c, s = ctx.cos(ph), ctx.sin(ph)
    for i in range(6):
        x, y = el.coords[0, i] - cx, el.coords[1, i] - cy
        if which:
            eqa(ctx, f"m{i}", r[4][i] * i22, -e * m * (x * c + y * s))
        else:
            eqa(ctx, f"m{i}", r[3][i] * i11, e * m * (y * c - x * s))
    zeros(ctx, r, ["m22" if which else "m11"])


def h_torsion(ctx, M):
    p, el, e = small_element(ctx, M)
    m, j = action(ctx, "m"), ctx.pos("j", 1, 20)
    cx, cy = ctx.real("cx", -3, 3), ctx.real("cy", -3, 3)
    om = ctx.vec([ctx.real(f"w{i}", -5, 5) for i in range(6)])
    r = el.element_stress(**base(ctx, dict(mzz=m, j=j, cx=cx, cy=cy, omega=om)))
    t = TriRef(ctx, p)
    gx, gy = t.grad2a(t.field(om))
    for i, z in enumerate(nodes(ctx)):
        x, y = el.coords[0, i] - cx, el.coords[1, i] - cy
        eqa(ctx, f"zx{i}", r[5][i] * j * t.a2, e * m * (gx.at(z) - t.a2 * y))
        eqa(ctx, f"zy{i}", r[6][i] * j * t.a2, e * m * (gy.at(z) + t.a2 * x))
    zeros(ctx, r, ["zx_mzz", "zy_mzz"])


SHAPES = [[(0, 0), (3, 1), (1, 2)], [(0, 0), (-1, 3), (-2, F(1, 2))]]


def h_shear(ctx, M):
    dx, dy = ctx.real("dx", -4, 4), ctx.real("dy", -4, 4)
    p = [(a + dx, b + dy) for a, b in fixed_points(ctx, SHAPES[ctx.choice("shape", 2)])]
    e = ctx.pos("E")
    mat = M.pre.Material("m", e, num(ctx, F(1, 4)), num(ctx, 1), num(ctx, 1), "w")
    el = M.fea.Tri6(0, tri6_coords(ctx, p), [0, 1, 2, 3, 4, 5], mat)
    which = ctx.choice("which", 2)
    v, ds, nu = action(ctx, "v"), ctx.pos("ds", 1, 20), ctx.real("nu", 0, F(1, 2))
    cx, cy = ctx.real("cx", -3, 3), ctx.real("cy", -3, 3)
    ixx, iyy, ixy = ctx.pos("ixx", 1, 9), ctx.pos("iyy", 1, 9), ctx.real("ixy", F(-9, 10), F(9, 10))
    u = ctx.vec([ctx.real(f"u{i}", -5, 5) for i in range(6)])
    kw = dict(cx=cx, cy=cy, ixx=ixx, iyy=iyy, ixy=ixy, nu=nu, delta_s=ds)
    kw["vy" if which else "vx"] = v
    kw["phi_shear" if which else "psi_shear"] = u
    r = el.element_stress(**base(ctx, kw))
    t = TriRef(ctx, p)
    gx, gy = t.grad2a(t.field(u))
    for i, z in enumerate(nodes(ctx)):
        x, y = el.coords[0, i] - cx, el.coords[1, i] - cy
        a, b = x * x - y * y, 2 * x * y
        if which:
            d1, d2 = -ixy * a + iyy * b, -iyy * a - ixy * b
        else:
            d1, d2 = ixx * a - ixy * b, ixy * a + ixx * b
        eqa(ctx, f"zx{i}", r[7 + 2 * which][i] * ds * t.a2, e * v * (gx.at(z) - nu / 2 * d1 * t.a2))
        eqa(ctx, f"zy{i}", r[8 + 2 * which][i] * ds * t.a2, e * v * (gy.at(z) - nu / 2 * d2 * t.a2))
    zeros(ctx, r, ["zx_vy", "zy_vy"] if which else ["zx_vx", "zy_vx"])


def h_zero(ctx, M):
    """no action, no stress, whatever the section"""
    p, el, e = small_element(ctx, M)
    kw = dict(cx=ctx.real("cx"), cy=ctx.real("cy"), ixx=ctx.pos("ixx", 1, 9),
              iyy=ctx.pos("iyy", 1, 9), ixy=ctx.real("ixy", F(-9, 10), F(9, 10)),
              i11=ctx.pos("i11"), i22=ctx.pos("i22"), phi=ctx.angle("phi") * 180 / ctx.pi,
              j=ctx.pos("j"), nu=ctx.real("nu", 0, F(1, 2)), delta_s=ctx.pos("ds"),
              ea=ctx.pos("ea"))
    for k in ("omega", "psi_shear", "phi_shear"):
        kw[k] = ctx.vec([ctx.real(f"{k}{i}") for i in range(6)])
    r = el.element_stress(**base(ctx, kw))
    zeros(ctx, r, [])


# -- equilibrium over sections ----------------------------------------------------------
def one_group_each(ctx, M, es):
    return [M.pre.Material(f"m{i}", e, num(ctx, F(1, 4)), num(ctx, 1), num(ctx, 1), "w")
            for i, e in enumerate(es)]


def resultants(ctx, sec, post, names, p, tris):
    """integral of (f, f y, f x) with nodal values of each element's own group"""
    cx, cy = sec.get_c()
    out = {}
    for nm in names:
        s0, sy, sx = 0, 0, 0
        for g in post.material_groups:
            f = getattr(g.stress_result, nm)
            for el in g.elements:
                q = [(a - cx, b - cy) for a, b in [(el.coords[0, k], el.coords[1, k])
                                                   for k in range(3)]]
                t = TriRef(ctx, q)
                v = t.field([f[i] for i in el.node_ids])
                s0 = s0 + t.integral(v)
                sy = sy + t.integral(v * t.y)
                sx = sx + t.integral(v * t.x)
        out[nm] = (s0, sy, sx)
    return out


def equilibrium(ctx, M, mesh, attrs, mats, names=None):
    p, verts, tris, sec = build(ctx, M, mesh, attrs, mats)
    if ctx.symbolic:
        orig = type(sec.section_props).calculate_centroidal_properties

        def tail(*a, **k):
            if names is not None:
                ctx.havoc()  # the principal axes play no part
            orig(sec.section_props, *a, **k)
            ctx.havoc()

        sec.section_props.calculate_centroidal_properties = tail
    sec.calculate_geometric_properties()
    ctx.havoc(False)
    names = names or ["n", "mxx", "myy", "m11", "m22"]
    act = {a: ctx.real(a, 1, 10) for a in names}
    post = sec.calculate_stress(**act)
    R = resultants(ctx, sec, post, ["sig_zz_" + a for a in names], p, tris)
    ph = sec.get_phi() * ctx.pi / 180
    c, s = ctx.cos(ph), ctx.sin(ph)
    want = {"n": (1, 0, 0), "mxx": (0, 1, 0), "myy": (0, 0, -1),
            "m11": (0, c, -s), "m22": (0, -s, -c)}
    # M11 turns about the 11 axis (cos, sin); its y- and x-moments follow
    for a in names:
        w = want[a]
        for k, nm in enumerate(("f", "fy", "fx")):
            ctx.eq(f"{a}_{nm}", R["sig_zz_" + a][k], act[a] * w[k], scale=1)


def h_eq_plain(ctx, M):
    equilibrium(ctx, M, "fan", [0, 0, 0],
                [default_material(M)])


def h_eq_quad(ctx, M):
    mats = [mat_fixed(ctx, M, "a", 2, F(1, 4)), mat_fixed(ctx, M, "b", 5, F(1, 8))]
    equilibrium(ctx, M, "quad", [1, 0], mats)


def h_eq_fan(ctx, M):
    mats = [mat_fixed(ctx, M, "a", 3, F(1, 3)), mat_fixed(ctx, M, "b", 1, F(1, 5))]
    equilibrium(ctx, M, "fan", ctx.choice("attrs", [[1, 0, 1], [0, 0, 1]]), mats)


def h_eq_many(ctx, M):
    """eight elements in four regions"""
    mats = [mat_fixed(ctx, M, t, e, F(1, 4)) for t, e in (("a", 3), ("b", 1), ("c", 7), ("d", 2))]
    equilibrium(ctx, M, "ring", [0, 1, 2, 3, 0, 3, 1, 2], mats, ["n", "mxx", "myy", "m11", "m22"])


def h_eq_moduli(ctx, M):
    es = [ctx.pos("Ea", F(1, 2), 4), ctx.pos("Eb", F(1, 2), 4)]
    equilibrium(ctx, M, "quad", [0, 1], one_group_each(ctx, M, es), ["n", "mxx", "myy"])


class ExactSolver(Solver):
    """solves the bordered system exactly over the rationals"""

    def __init__(self, ctx, n):
        self.ctx, self.n = ctx, n
        self.asked, self.refs, self.pre = [], {}, []

    def direct(self, *a, **kw):
        import numpy as np

        k = kw.get("k_lg", a[0] if a else None).toarray()
        f = kw.get("f", a[1] if len(a) > 1 else None)
        n = self.n
        if not self.ctx.symbolic:
            return np.linalg.solve(k, np.append(f, 0))[:n]
        from symx.npshim import lin_solve

        b = np.empty(n + 1, dtype=object)
        b[:n] = list(f)
        b[n] = self.ctx.const(0)
        return self.ctx.vec(list(lin_solve(k, b))[:n])


def own_groups(mesh):
    return [0, 1] if mesh == "quad" else [0, 1, 2]


def shear_case(ctx, M, mesh, es, nus):
    """every element its own material, so nodal values are the element's own"""
    mats = [mat_fixed(ctx, M, str(i), e, n) for i, (e, n) in enumerate(zip(es, nus))]
    p, verts, tris, sec = build(ctx, M, mesh, own_groups(mesh), mats)
    sec.calculate_geometric_properties()
    with ExactSolver(ctx, len(verts)).installed(M):
        sec.calculate_warping_properties()
    vx, vy, t = ctx.real("vx", 1, 10), ctx.real("vy", 1, 10), ctx.real("mzz", 1, 10)
    post = sec.calculate_stress(vx=vx, vy=vy, mzz=t)
    nm = [f"sig_z{a}_{b}" for b in ("vx", "vy", "mzz") for a in "xy"]
    R = resultants(ctx, sec, post, nm, p, tris)
    want = {"vx": (vx, 0), "vy": (0, vy), "mzz": (0, 0)}
    for b, (fx, fy) in want.items():
        ctx.eq(f"{b}_x", R[f"sig_zx_{b}"][0], fx, scale=1)
        ctx.eq(f"{b}_y", R[f"sig_zy_{b}"][0], fy, scale=1)
    ctx.eq("torque", R["sig_zy_mzz"][2] - R["sig_zx_mzz"][1], t)


def h_shear_quad(ctx, M):
    shear_case(ctx, M, "quad", [2, 5], [F(1, 4), F(1, 8)])


def h_shear_fan(ctx, M):
    shear_case(ctx, M, "fan", [3, 1, 2], [F(1, 3), F(1, 5), 0])


def h_torque(ctx, M):
    """the torsion stresses carry the applied torque for any warping function"""
    mats = [mat_fixed(ctx, M, "a", 2, F(1, 4)), mat_fixed(ctx, M, "b", 5, F(1, 8))]
    p, verts, tris, sec = build(ctx, M, "quad", [0, 1], mats)
    sec.calculate_geometric_properties()
    sv = Solver(ctx, len(verts), -1, 1)
    sv.answer = lambda f: sv.vec["omega"].copy()
    with sv.installed(M):
        sec.calculate_warping_properties()
    ctx.assume(sec.get_ej() >= 1)
    t = ctx.real("mzz", 1, 10)
    post = sec.calculate_stress(mzz=t)
    R = resultants(ctx, sec, post, ["sig_zx_mzz", "sig_zy_mzz"], p, tris)
    ctx.eq("torque", R["sig_zy_mzz"][2] - R["sig_zx_mzz"][1], t)


def h_gates(ctx, M):
    """stress analysis without its prerequisites is refused"""
    p, verts, tris, sec = build(ctx, M, "quad", [0, 0], [default_material(M)])
    v = ctx.real("v", 1, 10)
    try:
        sec.calculate_stress(n=v)
        ctx.fail("needs_geometric")
    except RuntimeError:
        ctx.true("needs_geometric", True)
    sec.calculate_geometric_properties()
    sec.calculate_stress(n=v, mxx=v, myy=v, m11=v, m22=v)
    for k in ("vx", "vy", "mzz"):
        try:
            sec.calculate_stress(**{k: -v if k == "vy" else v})
            ctx.fail(f"needs_warping_{k}")
        except RuntimeError:
            ctx.true(f"needs_warping_{k}", True)
        try:
            sec.get_stress_at_points(pts=[(1.0, 1.0)], **{k: v})
            ctx.fail(f"pt_needs_warping_{k}")
        except RuntimeError:
            ctx.true(f"pt_needs_warping_{k}", True)


N = {"num_sqrt": True}
def patch(M):
    patch_all(M)
    # the combined stresses are C10's subject
    M.stress_post.StressResult.calculate_combined_stresses = lambda self: None


P = {"patch": patch, "merge": True, "num_sqrt": True}
HARNESSES = [
    ("axial", h_axial, N),
    ("bending", h_bending, {**N, "cost": 3}),
    ("bending_p", h_bending_p, {**N, "cost": 3}),
    ("torsion", h_torsion, {**N, "cost": 3}),
    ("shear", h_shear, {**N, "cost": 3}),
    ("tiny_axial", tiny(h_axial), N),
    ("tiny_bending", tiny(h_bending), {**N, "cost": 3}),
    ("tiny_bending_p", tiny(h_bending_p), {**N, "cost": 3}),
    ("tiny_torsion", tiny(h_torsion), {**N, "cost": 3}),
    ("tiny_shear", tiny(h_shear), {**N, "cost": 3}),
    ("zero", h_zero, N),
    ("eq_plain", h_eq_plain, {**P, "cost": 3}),
    ("eq_quad", h_eq_quad, {**P, "cost": 3}),
    ("eq_fan", h_eq_fan, {**P, "cost": 3}),
    ("eq_many", h_eq_many, {**P, "cost": 3}),
    ("eq_moduli", h_eq_moduli, {**P, "cost": 5}),
    ("shear_quad", h_shear_quad, {**P, "cost": 5}),
    ("shear_fan", h_shear_fan, {**P, "cost": 5}),
    ("torque", h_torque, {**P, "cost": 5}),
    ("gates", h_gates, P),
]
