"""Element integrals, mesh-wide sums and effective moduli against closed-form triangle integrals.

h_element: Tri6.geometric_properties on a triangle with symbolic vertices and material.
h_sums: Section construction + calculate_geometric_properties on two triangles in two
regions with symbolic corners and materials; compared with the E-weighted closed forms.
"""

from fractions import Fraction as F

from props.common import (
    closed_form, mk_element, mk_material, mk_section, patch_section, quad_mesh, two_tri_corners,
    default_material, fixed_points, small_points,
)

BOUNDS = (
    "coordinates in [-10,10]; moduli, densities in [0.01,10], Poisson's ratio in [0,0.49]; "
    "one element (h_element); two elements in one or two regions, either region order (h_sums); both also at "
    "coordinates 10^6 times smaller; eight fixed elements in four regions of any materials"
)


DIM = {"area": 2, "qx": 3, "qy": 3, "ixx": 4, "iyy": 4, "ixy": 4}


def h_element(ctx, M, small=0):
    p, el, mat = mk_element(ctx, M, small=small)
    r = el.geometric_properties()
    ref = closed_form(p)
    for k, n in enumerate(["area", "qx", "qy", "ixx", "iyy", "ixy"]):
        w = 10 ** (small * DIM[n])
        ctx.eq(n, r[k] * w, ref[k] * w)
    ctx.eq("e", r[6], mat.elastic_modulus)
    ctx.eq("g", r[7], mat.elastic_modulus / (2 * (1 + mat.poissons_ratio)))
    ctx.eq("rho", r[8], mat.density)


def h_small_element(ctx, M):
    h_element(ctx, M, 6)


RING = [(6, 0), (5, 4), (1, 7), (-3, 5), (-6, 1), (-4, -3), (0, -5), (5, -4)]


def fan(ctx, n):
    """n triangles around an inner node, fixed corners"""
    p = [(1, 1)] + RING[:n]
    return fixed_points(ctx, p), [(0, i + 1, (i + 1) % n + 1) for i in range(n)]


def sums(ctx, M, attrs, default=False, small=0, nmat=2):
    p, t3 = two_tri_corners(ctx) if len(attrs) < 3 else fan(ctx, len(attrs))
    p = small_points(ctx, p, small)
    w = {n: 10 ** (small * k) for n, k in DIM.items()}
    verts, tris = quad_mesh(p, t3)
    if default:
        mats = [default_material(M)]
        attrs = [0, 0]
    else:
        mats = [mk_material(ctx, M, "abcd"[i]) for i in range(nmat)]
    per = ctx.pos("perim")
    sec = mk_section(ctx, M, verts, tris, attrs, mats, perimeter=per)
    sp = sec.section_props
    ctx.true("nelem", len(sec.elements) == len(t3))
    tot = dict(area=0, mass=0, ea=0, ga=0, qx=0, qy=0, ixx=0, iyy=0, ixy=0)
    for t, a in zip(t3, attrs):
        m = mats[a]
        e = m.elastic_modulus
        c = closed_form([p[i] for i in t])
        tot["area"] += c[0]
        tot["mass"] += c[0] * m.density
        tot["ea"] += c[0] * e
        tot["ga"] += c[0] * e / (2 * (1 + m.poissons_ratio))
        for k, n in enumerate(["qx", "qy", "ixx", "iyy", "ixy"]):
            tot[n] += c[k + 1] * e
    # the derived quantities are C03's and C12's subject: run past them
    if ctx.symbolic:

        def derived(*a, **k):
            for n in ("ixx_c", "iyy_c", "i11_c", "i22_c"):
                setattr(sp, n, ctx.pos(n))
            sp.ixy_c = ctx.real("ixy_c")
            sp.phi = 0.0
            ctx.havoc()

        sp.calculate_centroidal_properties = derived
    sec.calculate_geometric_properties()
    ctx.eq("area", sec.get_area() * w["area"], tot["area"] * w["area"])
    ctx.eq("perimeter", sec.get_perimeter(), per)
    ctx.eq("ea", sp.ea * w["area"], tot["ea"] * w["area"])
    ctx.eq("ga", sp.ga * w["area"], tot["ga"] * w["area"])
    ctx.eq("qx", sp.qx * w["qx"], tot["qx"] * w["qx"])
    ctx.eq("qy", sp.qy * w["qx"], tot["qy"] * w["qx"])
    ctx.eq("ixx_g", sp.ixx_g * w["ixx"], tot["ixx"] * w["ixx"])
    ctx.eq("iyy_g", sp.iyy_g * w["ixx"], tot["iyy"] * w["ixx"])
    ctx.eq("ixy_g", sp.ixy_g * w["ixx"], tot["ixy"] * w["ixx"])
    ctx.eq("mass", sp.mass * w["area"], tot["mass"] * w["area"])
    ctx.eq("e_eff", sp.e_eff, tot["ea"] / tot["area"])
    ctx.eq("g_eff", sp.g_eff, tot["ga"] / tot["area"])
    ctx.eq("nu_eff", sp.nu_eff, tot["ea"] / (2 * tot["ga"]) - 1)
    cx, cy = sec.get_c()
    ctx.eq("cx", cx * tot["ea"] * w["qx"], tot["qy"] * w["qx"])
    ctx.eq("cy", cy * tot["ea"] * w["qx"], tot["qx"] * w["qx"])


def h_sums(ctx, M):
    sums(ctx, M, [0, 1])


def h_sums_swapped(ctx, M):
    sums(ctx, M, [1, 0])


def h_sums_default(ctx, M):
    sums(ctx, M, [0, 0], default=True)


def h_small_sums(ctx, M):
    sums(ctx, M, [0, 1], small=6)


def h_many(ctx, M):
    """eight elements in four regions"""
    sums(ctx, M, ctx.choice("attrs", [[0, 1, 2, 3, 3, 2, 1, 0], [3, 3, 0, 0, 1, 2, 2, 2]]), nmat=4)


HARNESSES = [
    ("element", h_element, {}),
    ("sums", h_sums, {"patch": patch_section, "cost": 5}),
    ("sums_swapped", h_sums_swapped, {"patch": patch_section, "cost": 5}),
    ("small_element", h_small_element, {}),
    ("small_sums", h_small_sums, {"patch": patch_section, "cost": 5}),
    ("many", h_many, {"patch": patch_section, "cost": 3}),
    ("sums_default", h_sums_default, {"patch": patch_section, "cost": 5}),
]
