"""Nodal and point stresses from the element fields.

Extrapolation reproduces every quadratic field; nodal values of a material group are the
averages of its own elements; stresses at points are the elements' own fields there.
"""

from fractions import Fraction as F

from props.c07 import MESHES, add_polygons, build, mat_fixed
from props.c09 import ExactSolver, base
from props.common import (
    Solver, TriRef, cross3, default_material, fixed_points, mk_section, num, patch_all,
    quad_mesh, tri6_coords, tri_points,
)

BOUNDS = (
    "every quadratic field on an element; meshes of two, three and eight fixed elements "
    "with one to four materials; any point at least 1e-3 clear of element edges or exactly on them"
)
ASSUMPTIONS = [
    "irrational quadrature constants as rationals accurate to 1e-30",
    "the point-search tree is replaced by exact point-in-triangle tests in symbolic runs",
]
FIELDS = ["sig_zz_n", "sig_zz_mxx", "sig_zz_myy", "sig_zz_m11", "sig_zz_m22", "sig_zx_mzz",
          "sig_zy_mzz", "sig_zx_vx", "sig_zy_vx", "sig_zx_vy", "sig_zy_vy"]


def h_extrapolate(ctx, M):
    q = [ctx.real(f"q{i}", -5, 5) for i in range(6)]

    def f(e, x):
        return q[0] + q[1] * e + q[2] * x + q[3] * e * e + q[4] * e * x + q[5] * x * x

    gp = M.fea.gauss_points(n=6)
    w = ctx.vec([f(g[1], g[2]) for g in gp])
    r = M.fea.extrapolate_to_nodes(w=w)
    h = num(ctx, F(1, 2))
    for i, (e, x) in enumerate(((1, 0), (0, 1), (0, 0), (h, h), (0, h), (h, 0))):
        ctx.eq(f"node{i}", r[i], f(num(ctx, 0) + e, num(ctx, 0) + x), scale=1)


def staged(ctx, M, mesh, attrs, mats):
    """section with results; element stresses replaced by arbitrary values"""
    p, verts, tris, sec = build(ctx, M, mesh, attrs, mats)
    sec.calculate_geometric_properties()
    n = len(verts)
    sp = sec.section_props
    z = [num(ctx, 0)] * n
    sp.omega, sp.psi_shear, sp.phi_shear = ctx.vec(z), ctx.vec(z), ctx.vec(z)
    sp.j, sp.delta_s = num(ctx, 1), num(ctx, 1)
    return p, verts, tris, sec


def h_average(ctx, M):
    kind = ctx.choice("kind", 6)
    attrs, k = [([0, 0, 0], 1), ([0, 1, 0], 2), ([1, 1, 0], 2), ([2, 0, 1], 3), ([0] * 8, 1),
                ([0, 1, 2, 3, 0, 3, 1, 2], 4)][kind]
    mats = [mat_fixed(ctx, M, str(i), i + 1, F(1, 4)) for i in range(k)]
    if k == 1:
        mats = [default_material(M)]
    p, verts, tris, sec = staged(ctx, M, "ring" if kind > 3 else "fan", attrs, mats)
    gp = [g[0] for g in M.fea.gauss_points(n=6)]
    vals = []
    for e, el in enumerate(sec.elements):
        arrs = [ctx.vec([ctx.real(f"s{e}_{a}_{i}") if a in (0, 2, 5, 8, 10) else
                         num(ctx, a + i + e) for i in range(6)]) for a in range(11)]
        vals.append(arrs)
        import numpy as np

        w = ctx.vec(gp)
        el.element_stress = (lambda arrs=arrs, w=w: lambda **k: (*arrs, w))()
    one = num(ctx, 1)
    act = dict(n=one, mxx=one, myy=one, m11=one, m22=one, mzz=one, vx=one, vy=one)
    post = None
    import copy

    orig = copy.deepcopy

    def share(o, *a, **kw):
        return orig(o, *a, **kw)

    post = sec.calculate_stress(**act)
    ctx.true("groups", len(post.material_groups) == k)
    for g in post.material_groups:
        ids = [el.el_id for el in g.elements]
        for a, nm in enumerate(FIELDS):
            arr = getattr(g.stress_result, nm)
            for node in range(len(verts)):
                c = []
                for e in ids:
                    nd = [int(v) for v in sec.elements[e].node_ids]
                    if node in nd:
                        c.append(vals[e][a][nd.index(node)])
                if c:
                    ctx.eq(f"{nm}_{node}", arr[node] * len(c), sum(c[1:], c[0]), scale=1)
                else:
                    ctx.eq(f"{nm}_{node}", arr[node], 0)


def closed_form_at(ctx, sec, ref, act, x, y):
    """(zz, zx, zy) at global (x, y) of element reference (TriRef, E, psi, phi, omega)"""
    t, e, om, ps, ph = ref
    comp = sec.is_composite()
    cx, cy = sec.get_c()
    ixx, iyy, ixy = sec.get_eic() if comp else sec.get_ic()
    i11, i22 = sec.get_eip() if comp else sec.get_ip()
    ea = sec.get_ea() if comp else sec.get_area()
    phi = sec.get_phi() * ctx.pi / 180
    c, s = ctx.cos(phi), ctx.sin(phi)
    u, v = x - cx, y - cy
    det = ixx * iyy - ixy * ixy
    zz = (act["n"] / ea + act["mxx"] * (iyy * v - ixy * u) / det
          + act["myy"] * (ixy * v - ixx * u) / det
          + act["m11"] * (v * c - u * s) / i11 - act["m22"] * (u * c + v * s) / i22) * e
    if om is None:
        return zz, num(ctx, 0), num(ctx, 0)
    j = sec.get_ej() if comp else sec.get_j()
    nu = sec.get_nu_eff() if comp else num(ctx, 0)
    ds = sec.section_props.delta_s
    a, b = u * u - v * v, 2 * u * v
    # area coordinates of the point
    z = bary(t, u, v)
    g = [[q.at(z) / t.a2 for q in t.grad2a(t.field(w))] for w in (om, ps, ph)]
    d = (ixx * a - ixy * b, ixy * a + ixx * b)
    h = (-ixy * a + iyy * b, -iyy * a - ixy * b)
    sh = []
    for k, r in ((0, -v), (1, u)):
        sh.append(e * (act["mzz"] / j * (g[0][k] + r)
                       + act["vx"] / ds * (g[1][k] - nu / 2 * d[k])
                       + act["vy"] / ds * (g[2][k] - nu / 2 * h[k])))
    return zz, sh[0], sh[1]


def bary(t, x, y):
    # t.x = sum x_i z_i
    xs = [t.x.d[k] for k in ((1, 0, 0), (0, 1, 0), (0, 0, 1))]
    ys = [t.y.d[k] for k in ((1, 0, 0), (0, 1, 0), (0, 0, 1))]
    q = [(a, b) for a, b in zip(xs, ys)]
    pt = (x, y)
    return [cross3([pt, q[1], q[2]]) / t.a2, cross3([q[0], pt, q[2]]) / t.a2,
            cross3([q[0], q[1], pt]) / t.a2]


def solved(ctx, M, mesh, attrs, mats):
    p, verts, tris, sec = build(ctx, M, mesh, attrs, mats)
    sec.calculate_geometric_properties()
    with ExactSolver(ctx, len(verts)).installed(M):
        sec.calculate_warping_properties()
    return p, verts, tris, sec


def refs(ctx, sec, warping=True):
    cx, cy = sec.get_c()
    out = []
    sp = sec.section_props
    for el in sec.elements:
        q = [(el.coords[0, k] - cx, el.coords[1, k] - cy) for k in range(3)]
        ids = list(el.node_ids)
        out.append((TriRef(ctx, q), el.material.elastic_modulus,
                    *([v[ids] for v in (sp.omega, sp.psi_shear, sp.phi_shear)] if warping
                      else (None, None, None))))
    return out


def margin(ctx, p, t3, x, y, m=F(1, 1000)):
    for t in t3:
        q = [p[i] for i in t]
        for a, b in ((0, 1), (1, 2), (2, 0)):
            d = cross3([q[a], q[b], (x, y)])
            ctx.assume(ctx.any(d >= m, d <= -m))


def inside(ctx, p, t, x, y):
    q = [p[i] for i in t]
    return all(bool(cross3([q[a], q[b], (x, y)]) >= 0) for a, b in ((0, 1), (1, 2), (2, 0)))


def point_case(ctx, M, mesh, attrs, mats, names, warping):
    if warping:
        p, verts, tris, sec = solved(ctx, M, mesh, attrs, mats)
    else:
        p, verts, tris, sec = build(ctx, M, mesh, attrs, mats)
        sec.calculate_geometric_properties()
    x, y = ctx.real("x", -4, 6), ctx.real("y", -1, 7)
    t3 = MESHES[mesh][1]
    margin(ctx, p, t3, x, y)
    act = {a: num(ctx, 0) for a in ("n", "mxx", "myy", "m11", "m22", "mzz", "vx", "vy")}
    for a in names:
        act[a] = ctx.real(a, 1, 10)
    r = sec.get_stress_at_points(pts=[(x, y)], **act)
    ctx.true("len", len(r) == 1)
    where = [k for k, t in enumerate(t3) if inside(ctx, p, t, x, y)]
    if not where:
        ctx.true("outside", r[0] is None)
        return
    ctx.true("found", r[0] is not None)
    want = closed_form_at(ctx, sec, refs(ctx, sec, warping)[where[0]], act, x, y)
    for k, nm in enumerate(("zz", "zx", "zy")):
        ctx.eq(nm, r[0][k], want[k], scale=1)


def two_mats(ctx, M):
    return [mat_fixed(ctx, M, "a", 2, F(1, 4)), mat_fixed(ctx, M, "b", 5, F(1, 8))]


def h_pt_normal(ctx, M):
    point_case(ctx, M, "quad", [1, 0], two_mats(ctx, M), ["n", "mxx", "myy", "m11", "m22"],
               False)


def h_pt_plain(ctx, M):
    point_case(ctx, M, "fan", [0, 0, 0], [default_material(M)], ["n", "mxx", "m22"], False)


def h_pt_torsion(ctx, M):
    point_case(ctx, M, "quad", [0, 1], two_mats(ctx, M), ["mzz"], True)


def h_pt_shear(ctx, M):
    point_case(ctx, M, "quad", [0, 1], two_mats(ctx, M), ["vx", "vy"], True)


def h_pt_mixed(ctx, M):
    point_case(ctx, M, "fan", [0, 0, 0], [default_material(M)], ["n", "mxx", "vy", "mzz"], True)


EDGE = ([(0, 0), (4, 0), (4, 4), (8, 2)], [(0, 1, 2), (1, 3, 2)])


def h_edge(ctx, M):
    """a point on the common edge of two materials: aggregated over both"""
    how = ctx.choice("agg", 4)
    pts, t3 = EDGE
    p = fixed_points(ctx, pts)
    verts, tris = quad_mesh(p, t3)
    sec = mk_section(ctx, M, verts, tris, [0, 1], two_mats(ctx, M))
    sec.calculate_geometric_properties()
    y = ctx.real("y", F(1, 10), F(39, 10))
    act = {a: num(ctx, 0) for a in ("n", "mxx", "myy", "m11", "m22", "mzz", "vx", "vy")}
    act["n"], act["mxx"] = ctx.real("n", 1, 10), ctx.real("mxx", 1, 10)
    # a second, interior point: results stay in the order of the points
    far = (num(ctx, 6), num(ctx, 2))
    x = num(ctx, 4)
    kw = {}
    if how == 1:
        kw["agg_func"] = lambda v: v[0] + 2 * v[1]
    elif how == 2:
        kw["agg_func"] = sum
    elif how == 3:
        kw["agg_func"] = lambda v: v[0] * v[1]
    out = (num(ctx, -3), num(ctx, 9))
    r = sec.get_stress_at_points(pts=[far, (x, y), out], **act, **kw)
    ctx.true("len", len(r) == 3 and r[2] is None and r[0] is not None and r[1] is not None)
    R = refs(ctx, sec, False)
    a = [closed_form_at(ctx, sec, q, act, x, y)[0] for q in R]
    f = closed_form_at(ctx, sec, R[1], act, *far)[0]
    ctx.eq("far", r[0][0], f, scale=1)
    if how == 0:
        ctx.eq("avg", r[1][0], (a[0] + a[1]) / 2, scale=1)
    elif how == 1:
        ctx.true("weighted", ctx.any(ctx.close(r[1][0], a[0] + 2 * a[1], 1e-9) if not ctx.symbolic
                                     else near(r[1][0], a[0] + 2 * a[1]),
                                     ctx.close(r[1][0], a[1] + 2 * a[0], 1e-9) if not ctx.symbolic
                                     else near(r[1][0], a[1] + 2 * a[0])))
    elif how == 2:
        ctx.eq("sum", r[1][0], a[0] + a[1], scale=1)
    else:
        ctx.eq("prod", r[1][0], a[0] * a[1], scale=1)
    for k in (1, 2):
        ctx.eq(f"shear{k}", r[1][k], 0, scale=1)


def h_edge_warp(ctx, M):
    """all three components on a shared edge use the requested aggregation"""
    how = ctx.choice("agg", 3)
    p, verts, tris, sec = solved(ctx, M, "quad", [0, 1], two_mats(ctx, M))
    shared = sorted(set(MESHES["quad"][1][0]) & set(MESHES["quad"][1][1]))
    (x0, y0), (x1, y1) = (p[i] for i in shared)
    t = ctx.choice("t", [F(1, 4), F(1, 2), F(5, 8)])
    t = t if ctx.symbolic else float(t)
    x, y = x0 + (x1 - x0) * t, y0 + (y1 - y0) * t
    act = {a: num(ctx, 0) for a in ("n", "mxx", "myy", "m11", "m22", "mzz", "vx", "vy")}
    for a in ("n", "mzz", "vx", "vy"):
        act[a] = ctx.real(a, 1, 10)
    kw = [{}, {"agg_func": sum}, {"agg_func": lambda v: v[0] * v[1] + len(v)}][how]
    r = sec.get_stress_at_points(pts=[(x, y)], **act, **kw)
    ctx.true("found", len(r) == 1 and r[0] is not None)
    a = [closed_form_at(ctx, sec, q, act, x, y) for q in refs(ctx, sec)]
    for k, nm in enumerate(("zz", "zx", "zy")):
        u, v = a[0][k], a[1][k]
        ctx.eq(nm, r[0][k], [(u + v) / 2, u + v, u * v + 2][how], scale=1)


def near(a, b):
    from symx.core import all_of

    d = a - b
    return all_of(d <= F(1, 10**6), d >= -F(1, 10**6))


N = {"num_sqrt": True}
P = {"patch": patch_all, "merge": True, "num_sqrt": True}


def patch_avg(M):
    patch_all(M)
    M.stress_post.StressResult.calculate_combined_stresses = lambda self: None


HARNESSES = [
    ("extrapolate", h_extrapolate, N),
    ("average", h_average, {**P, "patch": patch_avg, "cost": 3}),
    ("pt_normal", h_pt_normal, {**P, "cost": 3}),
    ("pt_plain", h_pt_plain, {**P, "cost": 3}),
    ("pt_torsion", h_pt_torsion, {**P, "cost": 3}),
    ("pt_shear", h_pt_shear, {**P, "cost": 3}),
    ("pt_mixed", h_pt_mixed, {**P, "cost": 3}),
    ("edge", h_edge, P),
    ("edge_warp", h_edge_warp, {**P, "cost": 3}),
]
