"""Property getters: refusal before the analysis, stored values afterwards, reference modulus.

Every getter of the section runs on a section whose stored results are arbitrary reals (zero and
negative values included), in every analysis state and for plain and composite material lists.
"""

from fractions import Fraction as F

from props.common import fixed_points, mk_section, num, patch_section, quad_mesh

BOUNDS = (
    "states: none, geometric, +warping, +plastic, all; material lists: default (once, twice, an "
    "equal copy), one other, default and other, two others; reference: number or material"
)

# getter, "any" | "plain" | "composite", analysis, stored fields, takes a reference, offset
T = [
    ("get_area", "any", "g", ["area"], False),
    ("get_perimeter", "any", "g", ["perimeter"], False),
    ("get_mass", "composite", "g", ["mass"], False),
    ("get_ea", "composite", "g", ["ea"], True),
    ("get_q", "plain", "g", ["qx", "qy"], False),
    ("get_eq", "composite", "g", ["qx", "qy"], True),
    ("get_ig", "plain", "g", ["ixx_g", "iyy_g", "ixy_g"], False),
    ("get_eig", "composite", "g", ["ixx_g", "iyy_g", "ixy_g"], True),
    ("get_c", "any", "g", ["cx", "cy"], False),
    ("get_ic", "plain", "g", ["ixx_c", "iyy_c", "ixy_c"], False),
    ("get_eic", "composite", "g", ["ixx_c", "iyy_c", "ixy_c"], True),
    ("get_z", "plain", "g", ["zxx_plus", "zxx_minus", "zyy_plus", "zyy_minus"], False),
    ("get_ez", "composite", "g", ["zxx_plus", "zxx_minus", "zyy_plus", "zyy_minus"], True),
    ("get_my", "composite", "g", ["my_xx", "my_yy"], False),
    ("get_rc", "any", "g", ["rx_c", "ry_c"], False),
    ("get_ip", "plain", "g", ["i11_c", "i22_c"], False),
    ("get_eip", "composite", "g", ["i11_c", "i22_c"], True),
    ("get_phi", "any", "g", ["phi"], False),
    ("get_zp", "plain", "g", ["z11_plus", "z11_minus", "z22_plus", "z22_minus"], False),
    ("get_ezp", "composite", "g", ["z11_plus", "z11_minus", "z22_plus", "z22_minus"], True),
    ("get_my_p", "composite", "g", ["my_11", "my_22"], False),
    ("get_rp", "any", "g", ["r11_c", "r22_c"], False),
    ("get_nu_eff", "composite", "g", ["nu_eff"], False),
    ("get_e_eff", "composite", "g", ["e_eff"], False),
    ("get_g_eff", "composite", "g", ["g_eff"], False),
    ("get_j", "plain", "w", ["j"], False),
    ("get_ej", "composite", "w", ["j"], True),
    ("get_sc", "any", "w", ["x_se+cx", "y_se+cy"], False),
    ("get_sc_p", "any", "w", ["x11_se", "y22_se"], False),
    ("get_sc_t", "any", "w", ["x_st+cx", "y_st+cy"], False),
    ("get_gamma", "plain", "w", ["gamma"], False),
    ("get_egamma", "composite", "w", ["gamma"], True),
    ("get_as", "plain", "w", ["a_sx", "a_sy"], False),
    ("get_eas", "composite", "w", ["a_sx", "a_sy"], True),
    ("get_as_p", "plain", "w", ["a_s11", "a_s22"], False),
    ("get_eas_p", "composite", "w", ["a_s11", "a_s22"], True),
    ("get_beta", "any", "w", ["beta_x_plus", "beta_x_minus", "beta_y_plus", "beta_y_minus"],
     False),
    ("get_beta_p", "any", "w",
     ["beta_11_plus", "beta_11_minus", "beta_22_plus", "beta_22_minus"], False),
    ("get_pc", "any", "p", ["x_pc+cx", "y_pc+cy"], False),
    ("get_s", "plain", "p", ["sxx", "syy"], False),
    ("get_mp", "composite", "p", ["sxx", "syy"], False),
    ("get_sp", "plain", "p", ["s11", "s22"], False),
    ("get_mp_p", "composite", "p", ["s11", "s22"], False),
    ("get_sf", "any", "p", ["sf_xx_plus", "sf_xx_minus", "sf_yy_plus", "sf_yy_minus"], False),
    ("get_sf_p", "any", "p", ["sf_11_plus", "sf_11_minus", "sf_22_plus", "sf_22_minus"], False),
]
G = ["area", "perimeter", "mass", "ea", "ga", "nu_eff", "e_eff", "g_eff", "qx", "qy", "ixx_g",
     "iyy_g", "ixy_g", "cx", "cy", "ixx_c", "iyy_c", "ixy_c", "zxx_plus", "zxx_minus",
     "zyy_plus", "zyy_minus", "rx_c", "ry_c", "i11_c", "i22_c", "phi", "z11_plus", "z11_minus",
     "z22_plus", "z22_minus", "r11_c", "r22_c", "my_xx", "my_yy", "my_11", "my_22"]
W = ["j", "delta_s", "x_se", "y_se", "x11_se", "y22_se", "x_st", "y_st", "gamma", "a_sx", "a_sy",
     "a_sxy", "a_s11", "a_s22"] + [f"beta_{a}_{s}" for a in ("x", "y", "11", "22")
                                   for s in ("plus", "minus")]
PL = ["x_pc", "y_pc", "x11_pc", "y22_pc", "sxx", "syy", "s11", "s22"] + [
    f"sf_{a}_{s}" for a in ("xx", "yy", "11", "22") for s in ("plus", "minus")]
STATES = ["", "g", "gw", "gp", "gwp"]


def materials(ctx, M, which):
    d = M.pre.DEFAULT_MATERIAL
    mk = M.pre.Material
    copy = mk(name=d.name, elastic_modulus=d.elastic_modulus, poissons_ratio=d.poissons_ratio,
              yield_strength=d.yield_strength, density=d.density, color=d.color)
    a = mk(name="a", elastic_modulus=2.0, poissons_ratio=0.0, yield_strength=3.0, density=1.0,
           color="b")
    b = mk(name="b", elastic_modulus=4.0, poissons_ratio=0.25, yield_strength=3.0, density=1.0,
           color="b")
    return {"plain": [d], "plain2": [d, d], "equal": [d, copy], "one": [a], "mixed": [d, a],
            "two": [a, b], "mixed2": [a, d, d]}[which]


MATS = ["plain", "plain2", "equal", "one", "mixed", "two", "mixed2"]


def section(ctx, M, state, mats):
    ms = materials(ctx, M, mats)
    p = fixed_points(ctx, [(i, j) for i in range(4) for j in (0, 1)])
    tris = [(2 * i, 2 * i + 2, 2 * i + 1) for i in range(len(ms))]
    sec = mk_section(ctx, M, *quad_mesh(p, tris), list(range(len(ms))), ms)
    sp = sec.section_props
    v = {}
    for k, names in (("g", G), ("w", W), ("p", PL)):
        for n in names:
            if k in state:
                v[n] = ctx.real(n)
                setattr(sp, n, v[n])
    return sec, v, not mats.startswith("plain") and mats != "equal"


def value(v, name, phi=None):
    a, _, b = name.partition("+")
    return v[a] + v[b] if b else v[a]


def h_getters(ctx, M):
    state = ctx.choice("state", STATES)
    mats = ctx.choice("materials", MATS)
    sec, v, comp = section(ctx, M, state, mats)
    ctx.true("is_composite", bool(sec.is_composite()) == comp)
    ref = ctx.pos("ref")
    mat = M.pre.Material(name="r", elastic_modulus=ref, poissons_ratio=num(ctx, 0),
                         yield_strength=num(ctx, 1), density=num(ctx, 1), color="w")
    for name, kind, an, fields, takes in T:
        f = getattr(sec, name)
        calls = [("", {})]
        if takes:
            calls += [(" number", {"e_ref": ref}), (" material", {"e_ref": mat})]
        for tag, kw in calls:
            ok = an in state and kind in ("any", "composite" if comp else "plain")
            try:
                r = f(**kw)
            except RuntimeError:
                ctx.true(name + tag + " available", not ok)
                continue
            ctx.true(name + tag + " refused", ok)
            if not ok:
                continue
            r = r if isinstance(r, tuple) else (r,)
            ctx.true(name + tag + " length", len(r) == len(fields))
            for i, n in enumerate(fields):
                e = value(v, n)
                ctx.eq(f"{name}{tag} {i}", r[i], e / ref if kw else e)


def h_principal_centroid(ctx, M):
    """get_pc_p: principal plastic centroid in global axes"""
    state = ctx.choice("state", STATES)
    sec, v, comp = section(ctx, M, state, "plain")
    if "g" in state:
        a = ctx.angle("angle", -4, 4)
        sec.section_props.phi = a * 180 / ctx.pi
    try:
        x, y = sec.get_pc_p()
    except RuntimeError:
        ctx.true("available", "p" not in state)
        return
    ctx.true("refused", "p" in state)
    c, s = ctx.cos(a), ctx.sin(a)
    ctx.eq("x", x, v["x11_pc"] * c - v["y22_pc"] * s + v["cx"])
    ctx.eq("y", y, v["x11_pc"] * s + v["y22_pc"] * c + v["cy"])


HARNESSES = [
    ("getters", h_getters, {"patch": patch_section}),
    ("principal_centroid", h_principal_centroid, {"patch": patch_section}),
]
