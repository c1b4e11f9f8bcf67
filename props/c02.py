"""Building the analysis section: elements get their region's material and one group each.

Three triangles in up to three regions; corner coordinates, moduli and densities symbolic
(so every pattern of equal and distinct materials is a path); region numbering enumerated.
"""

from fractions import Fraction as F

from props.common import cross3, default_material, mk_section, patch_section, quad_mesh, tri_points

BOUNDS = (
    "three elements; one to three regions in any numbering; corners in [-10,10]; materials that "
    "differ in any subset of modulus, Poisson's ratio, strength and density"
)
ASSUMPTIONS = ["the mesh is supplied (meshing itself is a C library); its point-search tree is "
               "replaced in symbolic runs"]

FAN = [(0, 1, 2), (0, 2, 3), (0, 3, 4)]


def fan(ctx, sym=True):
    if sym:
        p = tri_points(ctx, 5)
        for t in FAN:
            ctx.assume(cross3([p[i] for i in t]) > F(1, 100))
    else:
        p = [(F(a), F(b)) for a, b in ((0, 0), (4, 1), (3, 4), (-1, 5), (-3, 2))]
        if not ctx.symbolic:
            p = [(float(a), float(b)) for a, b in p]
    return p


def mats_sym(ctx, M, k, same_name, fields):
    out = []
    for i in range(k):
        v = {"elastic_modulus": 200, "poissons_ratio": F(1, 4) if ctx.symbolic else 0.25,
             "yield_strength": 5, "density": 2}
        for f in fields:
            v[f] = ctx.pos(f"{f}{i}", hi=10) if f != "poissons_ratio" else ctx.real(
                f"{f}{i}", 0, F(49, 100))
        if ctx.symbolic:
            v = {n: ctx.const(x) if not hasattr(x, "n") else x for n, x in v.items()}
        out.append(M.pre.Material(name="m" if same_name else f"m{i}", color="w", **v))
    return out


FIELDS = ("elastic_modulus", "poissons_ratio", "yield_strength", "density")


def same(ctx, a, b):
    if a is b:
        return True
    if a.name != b.name:
        return False
    return ctx.all(*[ctx.close(getattr(a, f), getattr(b, f)) for f in FIELDS])


def check(ctx, M, mats, attrs, p):
    verts, tris = quad_mesh(p, FAN)
    sec = mk_section(ctx, M, verts, tris, attrs, mats)
    ctx.true("n", len(sec.elements) == 3)
    for i, el in enumerate(sec.elements):
        ctx.true(f"id{i}", el.el_id == i)
        t = tris[i]
        want = [t[0], t[1], t[2], t[5], t[3], t[4]]
        ctx.true(f"nodes{i}", [int(v) for v in el.node_ids] == want)
        for k, nd in enumerate(want):
            ctx.eq(f"x{i}{k}", el.coords[0, k], verts[nd][0])
            ctx.eq(f"y{i}{k}", el.coords[1, k], verts[nd][1])
        for k, (a, b) in enumerate(((0, 1), (1, 2), (2, 0))):
            ctx.eq(f"mx{i}{k}", 2 * el.coords[0, 3 + k], el.coords[0, a] + el.coords[0, b])
            ctx.eq(f"my{i}{k}", 2 * el.coords[1, 3 + k], el.coords[1, a] + el.coords[1, b])
        ctx.true(f"mat{i}", same(ctx, el.material, mats[attrs[i]]))
        inn = [g for g in sec.material_groups if any(e is el for e in g.elements)]
        ctx.true(f"grp{i}", len(inn) == 1)
        for g in inn:
            ctx.true(f"gmat{i}", same(ctx, g.material, el.material))
            ctx.true(f"once{i}", sum(e is el for e in g.elements) == 1)
    tot = sum(len(g.elements) for g in sec.material_groups)
    ctx.true("partition", tot == 3)
    gs = sec.material_groups
    for i in range(len(gs)):
        for j in range(i):
            s = same(ctx, gs[i].material, gs[j].material)
            ctx.true(f"distinct{i}{j}", (not s) if isinstance(s, bool) else ctx.neg(s))


def h_coords(ctx, M):
    p = fan(ctx)
    mats = mats_sym(ctx, M, 2, False, ())
    check(ctx, M, mats, ctx.choice("attrs", [[0, 1, 1], [1, 0, 1]]), p)


def h_regions(ctx, M):
    attrs = ctx.choice("attrs", [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0],
                                 [2, 2, 0], [2, 0, 2], [2, 1, 1]])
    check(ctx, M, mats_sym(ctx, M, 3, True, ("elastic_modulus",)), attrs, fan(ctx, False))


def field_harness(f):
    def h(ctx, M):
        attrs = ctx.choice("attrs", [[0, 1, 2], [1, 2, 0], [2, 0, 1]])
        check(ctx, M, mats_sym(ctx, M, 3, True, (f,)), attrs, fan(ctx, False))

    return h


def h_names(ctx, M):
    """equal values under different names stay different materials"""
    attrs = ctx.choice("attrs", [[0, 1, 2], [1, 2, 0], [2, 0, 1]])
    check(ctx, M, mats_sym(ctx, M, 3, False, ("elastic_modulus",)), attrs, fan(ctx, False))


def h_shared(ctx, M):
    """one material object used in several regions"""
    a, b = mats_sym(ctx, M, 2, True, ("elastic_modulus",))
    mats = ctx.choice("share", [[a, a, b], [a, b, a], [b, a, a], [a, a, a]])
    attrs = ctx.choice("attrs", [[0, 1, 2], [1, 2, 0]])
    check(ctx, M, mats, attrs, fan(ctx, False))


def h_single(ctx, M):
    p = fan(ctx, False)
    m = mats_sym(ctx, M, 1, True, ("elastic_modulus",))[0]
    if ctx.choice("default", 2):
        m = default_material(M)
    check(ctx, M, [m], [0, 0, 0], p)


def h_errors(ctx, M):
    p = fan(ctx, False)
    verts, tris = quad_mesh(p, FAN)
    n = ctx.choice("n", [1, 2, 3, 4])
    attrs = ctx.choice("attrs", [[0, 0, 0], [0, 1, 0], [2, 1, 0], [3, 1, 0]])
    mats = mats_sym(ctx, M, n, False, ("elastic_modulus",))
    ok = n == max(attrs) + 1
    comp = True if n > 1 else bool(ctx.choice("comp", 2))
    try:
        mk_section(ctx, M, verts, tris, attrs, mats, compound=comp)
        ctx.true("accepted", ok)
    except ValueError:
        ctx.true("rejected", not ok)


def h_nomesh(ctx, M):
    from props.common import _mk_geometry

    p = fan(ctx, False)
    verts, tris = quad_mesh(p, FAN)
    g = _mk_geometry(M, verts, tris, [0, 0, 0], [default_material(M)])
    how = ctx.choice("how", 3)
    if how == 0:
        del g.mesh
    else:
        g.mesh = {} if how == 1 else None
    try:
        M.section.Section(g)
        ctx.fail("no_mesh")
    except ValueError:
        ctx.true("no_mesh", True)


P = {"patch": patch_section}
HARNESSES = [
    ("coords", h_coords, P),
    ("regions", h_regions, {**P, "cost": 3}),
    *[(f"by_{f}", field_harness(f), P) for f in FIELDS[1:]],
    ("names", h_names, P),
    ("shared", h_shared, P),
    ("single", h_single, P),
    ("errors", h_errors, P),
    ("nomesh", h_nomesh, P),
]
