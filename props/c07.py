"""Warping analysis: element integrals and the section results built from them.

Elements: symbolic triangle, material, section moments and nodal warping/shear functions
against exact integrals.  Sections: the whole analysis on fixed two- and three-element
meshes with an arbitrary (symbolic) answer of the linear solver for each load vector.
"""

from fractions import Fraction as F

from props.common import (
    SHAPE, Solver, TriRef, WarpRef, closed_form, cross3, default_material, fixed_points,
    mk_element, mk_material, mk_section, num, patch_all, quad_mesh, swapped, tri6_coords,
    tri_points,
)

BOUNDS = (
    "elements: any triangle in [-10,10]^2 (shear coefficients: fixed shapes at any position), "
    "any section moments; sections: three meshes (two, three and eight elements) with fixed nodes, one to three materials, any "
    "solver answer with entries in [-5,5]"
)
ASSUMPTIONS = [
    "quadrature is exact to degree three: the pure quartic terms (warping function squared, "
    "Poisson terms squared) are compared through polarisation and on far elements only",
    "the linear solver answers each right-hand side with an arbitrary vector for which the shear "
    "coefficients are not zero",
]


def moments(ctx):
    ixx, iyy = ctx.pos("ixx", 1, 10), ctx.pos("iyy", 1, 10)
    ixy = ctx.real("ixy", -1, 1)
    return ixx, iyy, ixy


def dh(t, ixx, iyy, ixy):
    r, q = t.x * t.x - t.y * t.y, 2 * t.x * t.y
    return (ixx * r - ixy * q, ixy * r + ixx * q), (-ixy * r + iyy * q, -iyy * r - ixy * q)


def h_loads(ctx, M):
    p, el, mat = mk_element(ctx, M)
    ixx, iyy, ixy = moments(ctx)
    nu = ctx.real("nu", 0, F(1, 2))
    f1, f2 = el.shear_load_vectors(ixx=ixx, iyy=iyy, ixy=ixy, nu=nu)
    t = TriRef(ctx, p)
    d, h = dh(t, ixx, iyy, ixy)
    e = mat.elastic_modulus
    for i, n in enumerate(SHAPE):
        gx, gy = t.grad2a(n)
        r1 = nu / 2 * t.integral(gx * d[0] + gy * d[1]) + t.a2 * 2 * (1 + nu) * t.integral(
            n * (ixx * t.x - ixy * t.y))
        r2 = nu / 2 * t.integral(gx * h[0] + gy * h[1]) + t.a2 * 2 * (1 + nu) * t.integral(
            n * (iyy * t.y - ixy * t.x))
        ctx.eq(f"psi{i}", f1[i] * t.a2, e * r1)
        ctx.eq(f"phi{i}", f2[i] * t.a2, e * r2)


def h_integrals(ctx, M):
    p, el, mat = mk_element(ctx, M)
    ixx, iyy, ixy = moments(ctx)
    om = ctx.vec([ctx.real(f"w{i}", -5, 5) for i in range(6)])
    r = el.shear_warping_integrals(ixx=ixx, iyy=iyy, ixy=ixy, omega=om)
    t = TriRef(ctx, p)
    e = mat.elastic_modulus
    w = t.field(om)
    rr = t.x * t.x + t.y * t.y
    ctx.eq("sc_x", r[0], e * t.integral((iyy * t.x + ixy * t.y) * rr))
    ctx.eq("sc_y", r[1], e * t.integral((ixx * t.y + ixy * t.x) * rr))
    ctx.eq("q_omega", r[2], e * t.integral(w))
    ctx.eq("ix", r[4], e * t.integral(t.x * w))
    ctx.eq("iy", r[5], e * t.integral(t.y * w))


def h_i_omega(ctx, M):
    """second moment of warping: exact for linear fields and for mixed linear/quadratic terms"""
    p, el, mat = mk_element(ctx, M)
    e = mat.elastic_modulus
    t = TriRef(ctx, p)
    a = [ctx.real(f"a{i}", -5, 5) for i in range(3)]
    lin = [a[0] + a[1] * el.coords[0, k] + a[2] * el.coords[1, k] for k in range(6)]
    qd = [ctx.real(f"w{i}", -5, 5) for i in range(6)]
    args = dict(ixx=num(ctx, 1), iyy=num(ctx, 1), ixy=num(ctx, 0))

    def io(v):
        return el.shear_warping_integrals(omega=ctx.vec(v), **args)[3]

    il = io(lin)
    ctx.eq("linear", il, e * t.integral(t.field(lin) * t.field(lin)))
    mix = io([x + y for x, y in zip(lin, qd)]) - il - io(qd)
    ctx.eq("mixed", mix, 2 * e * t.integral(t.field(lin) * t.field(qd)))
    s = ctx.real("s", -3, 3)
    ctx.eq("scaled", io([s * v for v in qd]), s * s * io(qd))


SHAPES = [[(0, 0), (3, 1), (1, 2)], [(0, 0), (-1, 3), (-2, F(1, 2))]]


def placed(ctx, M):
    dx, dy = ctx.real("dx"), ctx.real("dy")
    s = SHAPES[ctx.choice("shape", 2)]
    p = [(a + dx, b + dy) for a, b in fixed_points(ctx, s)]
    mat = mk_material(ctx, M)
    return p, M.fea.Tri6(0, tri6_coords(ctx, p), [0, 1, 2, 3, 4, 5], mat), mat


def h_kappa(ctx, M):
    p, el, mat = placed(ctx, M)
    ixx, iyy, ixy = moments(ctx)
    nu = ctx.real("nu", 0, F(1, 2))
    psi = ctx.vec([ctx.real(f"u{i}", -5, 5) for i in range(6)])
    phi = ctx.vec([ctx.real(f"v{i}", -5, 5) for i in range(6)])
    zero = ctx.vec([num(ctx, 0)] * 6)
    kw = dict(ixx=ixx, iyy=iyy, ixy=ixy)
    k = el.shear_coefficients(psi_shear=psi, phi_shear=phi, nu=nu, **kw)
    k0 = el.shear_coefficients(psi_shear=zero, phi_shear=zero, nu=nu, **kw)
    k1 = el.shear_coefficients(psi_shear=zero, phi_shear=zero, nu=num(ctx, 1), **kw)
    t = TriRef(ctx, p)
    e = mat.elastic_modulus
    d, h = dh(t, ixx, iyy, ixy)
    g1, g2 = t.grad2a(t.field(psi)), t.grad2a(t.field(phi))

    def dot(u, v):
        return t.integral(u[0] * v[0] + u[1] * v[1])

    c = t.a2
    ctx.eq("x", (k[0] - k0[0]) * c * c, e * (dot(g1, g1) - nu * c * dot(g1, d)))
    ctx.eq("y", (k[1] - k0[1]) * c * c, e * (dot(g2, g2) - nu * c * dot(g2, h)))
    ctx.eq("xy", (k[2] - k0[2]) * c * c,
           e * (dot(g1, g2) - nu / 2 * c * (dot(g1, h) + dot(g2, d))))
    for i, n in enumerate("x y xy".split()):
        ctx.eq(f"nu_{n}", k0[i], nu * nu * k1[i])


def h_kappa_far(ctx, M):
    """Poisson terms squared: within one per cent on an element far from the centroid"""
    ixx, iyy, ixy = moments(ctx)
    for k, s in enumerate(([(9, 8), (10, 8), (9, 9)], [(-9, 8), (-9, 9), (-10, 8)],
                           [(-8, -1), (-7, -1), (-8, 0)])):
        p = fixed_points(ctx, s)
        if k == 1 or k == 2:
            if float(F(cross3(s))) < 0:
                p = [p[0], p[2], p[1]]
        mat = M.pre.Material("m", num(ctx, 3), num(ctx, 0), num(ctx, 1), num(ctx, 1), "w")
        el = M.fea.Tri6(0, tri6_coords(ctx, p), [0, 1, 2, 3, 4, 5], mat)
        z = ctx.vec([num(ctx, 0)] * 6)
        r = el.shear_coefficients(psi_shear=z, phi_shear=z, nu=num(ctx, 1), ixx=ixx, iyy=iyy,
                                  ixy=ixy)
        t = TriRef(ctx, p)
        d, h = dh(t, ixx, iyy, ixy)
        ref = [t.integral(u[0] * v[0] + u[1] * v[1]) * num(ctx, F(3, 4))
               for u, v in ((d, d), (h, h), (d, h))]
        tol = num(ctx, F(1, 100))
        for i, n in enumerate(("x", "y")):
            ctx.le(f"hi_{n}{k}", r[i], ref[i] * (1 + tol))
            ctx.le(f"lo_{n}{k}", ref[i] * (1 - tol), r[i])
        m = (ref[0] + ref[1]) * tol
        ctx.le(f"hi_xy{k}", r[2], ref[2] + m)
        ctx.le(f"lo_xy{k}", ref[2] - m, r[2])


def h_mono(ctx, M):
    p, el, mat = mk_element(ctx, M)
    ph = ctx.angle("phi")
    r = el.monosymmetry_integrals(phi=ph * 180 / ctx.pi)
    t = TriRef(ctx, p)
    e = mat.elastic_modulus
    c, s = ctx.cos(ph), ctx.sin(ph)
    rr = t.x * t.x + t.y * t.y
    ctx.eq("x", r[0], e * t.integral(rr * t.y))
    ctx.eq("y", r[1], e * t.integral(rr * t.x))
    ctx.eq("11", r[2], e * t.integral(rr * (t.y * c - t.x * s)))
    ctx.eq("22", r[3], e * t.integral(rr * (t.x * c + t.y * s)))


# -- sections ---------------------------------------------------------------------------
MESHES = {
    "quad": ([(0, 0), (4, 1), (1, 3), (5, 6)], [(0, 1, 2), (1, 3, 2)]),
    "fan": ([(0, 0), (4, 1), (3, 4), (-1, 5), (-3, 2)], [(0, 1, 2), (0, 2, 3), (0, 3, 4)]),
    "ring": ([(1, 1), (6, 0), (5, 4), (1, 7), (-3, 5), (-6, 1), (-4, -3), (0, -5), (5, -4)],
             [(0, i + 1, (i + 1) % 8 + 1) for i in range(8)]),
}


def mat_fixed(ctx, M, tag, e, nu):
    return M.pre.Material(f"m{tag}", num(ctx, e), num(ctx, nu), num(ctx, 5), num(ctx, 2), "w")


def build(ctx, M, mesh, attrs, mats, time_info=False):
    pts, t3 = MESHES[mesh]
    p = fixed_points(ctx, pts)
    verts, tris = quad_mesh(p, t3)
    sec = mk_section(ctx, M, verts, tris, attrs, mats, time_info=time_info)
    add_polygons(sec, pts, t3, attrs)
    return p, verts, tris, sec


def add_polygons(sec, pts, t3, attrs):
    """the regions' outlines (used for the connectivity warning)"""
    import shapely

    if hasattr(sec.geometry, "geoms"):
        for i, g in enumerate(sec.geometry.geoms):
            g.geom = shapely.unary_union(
                [shapely.Polygon([[float(v) for v in pts[k]] for k in t])
                 for t, a in zip(t3, attrs) if a == i])


def analyse(ctx, M, mesh, attrs, mats, mode="direct", sec=None):
    """runs geometric and warping analysis; returns (section, reference, solver)"""
    p, verts, tris, s = build(ctx, M, mesh, attrs, mats)
    sec = sec or s
    comp = sec.is_composite()
    sec.calculate_geometric_properties()
    cx, cy = sec.get_c()
    ref = WarpRef(ctx, M, p, tris, attrs, mats, cx, cy)
    ixx, iyy, ixy = sec.get_eic() if comp else sec.get_ic()
    nu = sec.get_nu_eff() if comp else num(ctx, 0)
    sv = Solver(ctx, len(verts))
    sv.refs["omega"] = ref.torsion_load()
    sv.refs["psi"], sv.refs["phi"] = ref.shear_loads(ixx, iyy, ixy, nu)
    with sv.installed(M):
        sec.calculate_warping_properties(solver_type=mode)
    return sec, ref, sv


def expected(ctx, M, sec, ref, sv):
    comp = sec.is_composite()
    ixx, iyy, ixy = sec.get_eic() if comp else sec.get_ic()
    i11, i22 = sec.get_eip() if comp else sec.get_ip()
    nu = sec.get_nu_eff() if comp else num(ctx, 0)
    ea = sec.get_ea() if comp else sec.get_area()
    area = sec.get_area()
    phi = sec.get_phi()
    om, ps, ph = sv.vec["omega"], sv.vec["psi"], sv.vec["phi"]
    ft = sv.refs["omega"]
    n = ref.n

    def dot(a, b):
        return sum(a[i] * b[i] for i in range(n))

    R = {}
    R["j"] = ixx + iyy - dot(om, ft)
    S = [0] * 6
    K = [0] * 3
    B = [0] * 4
    for ids, t, mat, q, el in ref.els:
        r = el.shear_warping_integrals(ixx=ixx, iyy=iyy, ixy=ixy, omega=om[ids])
        S = [a + b for a, b in zip(S, r)]
        r = el.shear_coefficients(ixx=ixx, iyy=iyy, ixy=ixy, psi_shear=ps[ids],
                                  phi_shear=ph[ids], nu=nu)
        K = [a + b for a, b in zip(K, r)]
        r = el.monosymmetry_integrals(phi=phi)
        B = [a + b for a, b in zip(B, r)]
    det = ixx * iyy - ixy * ixy
    ds = 2 * (1 + nu) * det
    R["delta_s"] = ds
    R["x_se"] = (nu / 2 * S[0] - dot(ft, ph)) / ds
    R["y_se"] = (nu / 2 * S[1] + dot(ft, ps)) / ds
    c, s = ctx.cos(phi * ctx.pi / 180), ctx.sin(phi * ctx.pi / 180)
    R["x11_se"] = R["x_se"] * c + R["y_se"] * s
    R["y22_se"] = R["y_se"] * c - R["x_se"] * s
    R["x_st"] = (ixy * S[4] - iyy * S[5]) / det
    R["y_st"] = (ixx * S[4] - ixy * S[5]) / det
    R["gamma"] = S[3] - S[2] * S[2] / ea - R["y_se"] * S[4] + R["x_se"] * S[5]
    R["1/a_sx"] = K[0] / (ds * ds)
    R["1/a_sy"] = K[1] / (ds * ds)
    R["1/a_sxy"] = K[2] / (ds * ds)
    R["1/a_s11"] = (K[0] * c * c + 2 * K[2] * c * s + K[1] * s * s) / (ds * ds)
    R["1/a_s22"] = (K[0] * s * s - 2 * K[2] * c * s + K[1] * c * c) / (ds * ds)
    for nm, b, i, sh in (("x", B[0], ixx, R["y_se"]), ("y", B[1], iyy, R["x_se"]),
                         ("11", B[2], i11, R["y22_se"]), ("22", B[3], i22, R["x11_se"])):
        R[f"beta_{nm}_plus"] = -b / i + 2 * sh
        R[f"beta_{nm}_minus"] = b / i - 2 * sh
    return R


def compare(ctx, sp, R):
    for k, v in R.items():
        if k.startswith("1/"):
            ctx.eq(k, getattr(sp, k[2:]) * v, 1)
        else:
            ctx.eq(k, getattr(sp, k), v)


def section(ctx, M, mesh, attrs, mats, mode="direct"):
    sec, ref, sv = analyse(ctx, M, mesh, attrs, mats, mode)
    ctx.true("loads", sorted(map(str, sv.asked)) == ["omega", "phi", "psi"])
    k = sv.k.toarray()
    n = ref.n
    # the matrix handed to the solver: energy of any field about the centroid
    K = [[0] * (n + 1) for _ in range(n + 1)]
    for ids, t, mat, q, el in ref.els:
        ke, _, ce = el.torsion_properties()
        for i in range(6):
            for j in range(6):
                K[ids[i]][ids[j]] = K[ids[i]][ids[j]] + ke[i, j]
            K[ids[i]][n] = K[ids[i]][n] + ce[i]
            K[n][ids[i]] = K[n][ids[i]] + ce[i]
    u = [ctx.real(f"t{i}", -2, 2) for i in range(n + 1)]
    for i in range(n + 1):
        ctx.eq(f"row{i}", sum(k[i, j] * u[j] for j in range(n + 1)),
               sum(K[i][j] * u[j] for j in range(n + 1)))
    for i in range(n):
        ctx.eq(f"om{i}", sec.section_props.omega[i], sv.vec["omega"][i])
        ctx.eq(f"psi{i}", sec.section_props.psi_shear[i], sv.vec["psi"][i])
        ctx.eq(f"phi{i}", sec.section_props.phi_shear[i], sv.vec["phi"][i])
    compare(ctx, sec.section_props, expected(ctx, M, sec, ref, sv))


def h_plain(ctx, M):
    section(ctx, M, "quad", [0, 0], [default_material(M)],
            ctx.choice("mode", ["direct", "cgs"]))


def h_fan(ctx, M):
    section(ctx, M, "fan", [0, 0, 0], [default_material(M)])


def h_composite(ctx, M):
    mats = [mat_fixed(ctx, M, "a", 2, F(1, 4)), mat_fixed(ctx, M, "b", 5, F(1, 8))]
    section(ctx, M, "quad", [1, 0], mats, ctx.choice("mode", ["direct", "cgs"]))


def h_composite_fan(ctx, M):
    mats = [mat_fixed(ctx, M, "a", 3, F(1, 3)), mat_fixed(ctx, M, "b", 1, F(1, 5))]
    section(ctx, M, "fan", [1, 0, 1], mats)


def h_many(ctx, M):
    """eight elements in three regions"""
    mats = [mat_fixed(ctx, M, t, e, v) for t, e, v in
            (("a", 3, F(1, 3)), ("b", 1, F(1, 5)), ("c", 7, F(1, 4)))]
    section(ctx, M, "ring", [0, 1, 2, 2, 0, 1, 1, 0], mats)


def h_order(ctx, M):
    """no warping results without geometric results; unknown solvers are refused"""
    p, verts, tris, sec = build(ctx, M, "quad", [0, 0], [default_material(M)])
    sv = Solver(ctx, len(verts))
    with sv.installed(M):
        try:
            sec.calculate_warping_properties()
            ctx.fail("needs_geometric")
        except RuntimeError:
            ctx.true("needs_geometric", True)
        sec.calculate_geometric_properties()
        for bad in ("lu", "", "Direct"):
            try:
                sec.calculate_warping_properties(solver_type=bad)
                ctx.fail(f"bad_{bad}")
            except ValueError:
                ctx.true(f"bad_{bad}", True)
        ctx.true("nothing", sec.section_props.gamma is None)


def h_disjoint(ctx, M):
    """separate regions are announced, connected ones are not"""
    import warnings

    apart = ctx.choice("apart", 2)
    pts, t3 = MESHES["quad"]
    if apart:
        pts = pts[:3] + [(7, 6), (9, 6), (8, 9)]
        t3 = [(0, 1, 2), (3, 4, 5)]
    mats = [mat_fixed(ctx, M, "a", 2, F(1, 4)), mat_fixed(ctx, M, "b", 5, F(1, 8))]
    p = fixed_points(ctx, pts)
    verts, tris = quad_mesh(p, t3)
    sec = mk_section(ctx, M, verts, tris, [0, 1], mats)
    add_polygons(sec, pts, t3, [0, 1])
    sec.calculate_geometric_properties()
    sv = Solver(ctx, len(verts))
    with sv.installed(M), warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        sec.calculate_warping_properties()
    ctx.true("warned", any("disjoint" in str(x.message) for x in w) == bool(apart))


P = {"patch": patch_all, "merge": True}
HARNESSES = [
    ("loads", h_loads, {"cost": 4}),
    ("integrals", h_integrals, {"cost": 4}),
    ("i_omega", h_i_omega, {"cost": 4}),
    ("kappa", h_kappa, {"cost": 4}),
    ("kappa_far", h_kappa_far, {}),
    ("mono", h_mono, {"cost": 2}),
    ("plain", h_plain, {**P, "cost": 6}),
    ("fan", h_fan, {**P, "cost": 6}),
    ("composite", h_composite, {**P, "cost": 6}),
    ("composite_fan", h_composite_fan, {**P, "cost": 6}),
    ("many", h_many, {**P, "cost": 8, "num_sqrt": True}),
    ("order", h_order, P),
    ("disjoint", h_disjoint, P),
]
