"""Displayed tables: every row carries the stored value its label names, in every state.

The table and console classes are replaced by recorders; the numbers in the recorded cells are
traced back to the symbolic stored results.
"""

import contextlib
import io

from props.c20 import MATS, STATES, section
from props.common import num, patch_section, swapped

BOUNDS = "every analysis state, plain and composite material lists, any stored values, any e_ref"
ASSUMPTIONS = ["rich prints the cells it is given"]

# label -> stored value; rows of rigidity type carry "e." in the composite table
BOTH = {
    "g": {"area": "area", "perimeter": "perimeter", "cx": "cx", "cy": "cy", "rx": "rx_c",
          "ry": "ry_c", "phi": "phi", "r11": "r11_c", "r22": "r22_c"},
    "w": {"x_se": "x_se+cx", "y_se": "y_se+cy", "x1_se": "x11_se", "y2_se": "y22_se",
          "x_st": "x_st+cx", "y_st": "y_st+cy", "beta_x+": "beta_x_plus",
          "beta_x-": "beta_x_minus", "beta_y+": "beta_y_plus", "beta_y-": "beta_y_minus",
          "beta_11+": "beta_11_plus", "beta_11-": "beta_11_minus", "beta_22+": "beta_22_plus",
          "beta_22-": "beta_22_minus"},
    "p": {"x_pc": "x_pc+cx", "y_pc": "y_pc+cy", "x11_pc": "x11_pc+cx", "y22_pc": "y22_pc+cy",
          "sf_xx+": "sf_xx_plus", "sf_xx-": "sf_xx_minus", "sf_yy+": "sf_yy_plus",
          "sf_yy-": "sf_yy_minus", "sf_11+": "sf_11_plus", "sf_11-": "sf_11_minus",
          "sf_22+": "sf_22_plus", "sf_22-": "sf_22_minus"},
}
RIGID = {
    "g": {"qx": "qx", "qy": "qy", "ixx_g": "ixx_g", "iyy_g": "iyy_g", "ixy_g": "ixy_g",
          "ixx_c": "ixx_c", "iyy_c": "iyy_c", "ixy_c": "ixy_c", "zxx+": "zxx_plus",
          "zxx-": "zxx_minus", "zyy+": "zyy_plus", "zyy-": "zyy_minus", "i11_c": "i11_c",
          "i22_c": "i22_c", "z11+": "z11_plus", "z11-": "z11_minus", "z22+": "z22_plus",
          "z22-": "z22_minus"},
    "w": {"j": "j", "gamma": "gamma", "a_sx": "a_sx", "a_sy": "a_sy", "a_s11": "a_s11",
          "a_s22": "a_s22"},
    "p": {},
}
PLAIN = {"g": {}, "w": {}, "p": {"sxx": "sxx", "syy": "syy", "s11": "s11", "s22": "s22"}}
COMP = {
    "g": {"mass": "mass", "my_xx": "my_xx", "my_yy": "my_yy", "my_11": "my_11",
          "my_22": "my_22", "e_eff": "e_eff", "g_eff": "g_eff", "nu_eff": "nu_eff"},
    "w": {},
    "p": {"mp_xx": "sxx", "mp_yy": "syy", "mp_11": "s11", "mp_22": "s22"},
}


class Table:
    last = None

    def __init__(self, *a, **k):
        self.rows = []
        Table.last = self

    def add_column(self, *a, **k):
        pass

    def add_row(self, *cells, **k):
        self.rows.append(cells)


class Console:
    shown = None

    def __init__(self, *a, **k):
        pass

    def print(self, *a, **k):
        if a and isinstance(a[0], Table):
            Console.shown = a[0]


def shown(M, f):
    """label -> cell of the table that reached the console"""
    Console.shown = None
    with swapped((M.post, "Table", Table), (M.post, "Console", Console)):
        with contextlib.redirect_stdout(io.StringIO()):
            f()
    rows = Console.shown.rows
    return {r[0]: r[1] for r in rows}, len(rows)


def stage(ctx, M):
    state = ctx.choice("state", STATES)
    mats = ctx.choice("materials", MATS)
    sec, v, comp = section(ctx, M, state, mats)
    if "g" in state:  # keep the rotation in get_pc_p (C20) out of the way
        sec.section_props.phi = v["phi"] = num(ctx, 0)
    return state, sec, v, comp


def expected(state, v, groups):
    out = {}
    for g in groups:
        for an, rows in g.items():
            if an in state:
                for lab, n in rows.items():
                    a, _, b = n.partition("+")
                    out[lab] = v[a] + v[b] if b else v[a]
    return out


def compare(ctx, rows, count, exp):
    ctx.true("labels", set(rows) == set(exp))
    ctx.true("no row twice", count == len(rows))
    for lab, e in exp.items():
        if lab in rows:
            ctx.eq(lab, ctx.parse(rows[lab]), e)


def h_results(ctx, M):
    state, sec, v, comp = stage(ctx, M)
    rows, count = shown(M, lambda: sec.display_results(fmt=".15e"))
    exp = expected(state, v, [BOTH, COMP if comp else PLAIN])
    for lab, e in expected(state, v, [RIGID]).items():
        exp["e." + lab if comp else lab] = e
    if comp and "g" in state:
        exp["e.a"] = v["ea"]
    compare(ctx, rows, count, exp)


def h_transformed(ctx, M):
    state, sec, v, comp = stage(ctx, M)
    ref = ctx.pos("ref")
    e_ref = ref
    if ctx.choice("as material", 2):
        e_ref = M.pre.Material(name="r", elastic_modulus=ref, poissons_ratio=num(ctx, 0),
                               yield_strength=num(ctx, 1), density=num(ctx, 1), color="w")
    if not comp:
        try:
            sec.display_transformed_results(e_ref=e_ref, fmt=".15e")
            ctx.fail("accepted for a plain section")
        except RuntimeError:
            ctx.true("refused", True)
        return
    rows, count = shown(M, lambda: sec.display_transformed_results(e_ref=e_ref, fmt=".15e"))
    exp = expected(state, v, [BOTH, COMP])
    exp.pop("area", None)
    for lab, e in expected(state, v, [RIGID]).items():
        exp[lab] = e / ref
    exp["e_ref"] = ref
    if "g" in state:
        exp["geom area"] = v["area"]
        exp["a"] = v["ea"] / ref
    compare(ctx, rows, count, exp)


HARNESSES = [
    ("results", h_results, {"patch": patch_section}),
    ("transformed", h_transformed, {"patch": patch_section}),
]
