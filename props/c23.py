"""Fibre export: one cell per mesh triangle with its own area, centroid, warping and material.

The exporter runs on symbolic meshes; the numbers in the written text are traced back to the
symbolic values they were written from and compared with closed forms.
"""

import os
import tempfile
from fractions import Fraction as F

from props.common import (
    SHAPE, TriRef, WarpRef, cross3, fixed_points, mk_section, num, patch_all, quad_mesh, swapped,
    two_tri_corners,
)

BOUNDS = (
    "two triangles with any corners in one or two regions (cells); eight fixed triangles in two regions (many); three triangles with fixed "
    "corners, any warping function (warping); overlapping, spaced and mapped material names"
)
ASSUMPTIONS = ["the direct solver answers with an arbitrary vector (C21, C06)"]

Z = (F(1, 3), F(1, 3), F(1, 3))
NAMES = [
    (("m1", "m11"), None),
    (("m1", "m11"), {"m1": 11, "m11": 2}),
    (("Steel", "Steel 350"), {"Steel": 7, "Steel 350": 70}),
    (("a b  c", "2"), {"a b  c": 2, "2": 5}),
    (("x", "y"), {"y": 3}),
    (("section", "Cell3DOS"), {"section": 1, "Cell3DOS": 2}),
]


def material(ctx, M, name, k):
    return M.pre.Material(name=name, elastic_modulus=num(ctx, 1 + k), poissons_ratio=num(ctx, 0),
                          yield_strength=num(ctx, 1), density=num(ctx, 1), color="w")


def tag_of(name, mapping):
    if mapping and name in mapping:
        return str(mapping[name])
    return "-".join(name.split())


def parsed(text):
    """(fibre command tokens, cell command tokens)"""
    body = [ln for ln in text.replace("\\\n", " ").splitlines()
            if ln.strip() and not ln.startswith("#")]
    rows = [ln.split() for ln in body]
    return rows[0], rows[1:]


def export(ctx, M, p, t3, attrs, kind, which, width, omega=None, as_section=False, main=1):
    names, mapping = NAMES[which]
    mats = [material(ctx, M, n, k) for k, n in enumerate(names)]
    if max(attrs) == 0:
        mats = mats[:1]
    verts, tris = quad_mesh(p, t3)
    sec = mk_section(ctx, M, verts, tris, attrs, mats)
    asked = []

    def solve(*a, **kw):
        ctx.free_answer = True
        asked.append(kw.get("f", a[1] if len(a) > 1 else None))
        return ctx.vec(omega)

    obj = sec if as_section else sec.geometry
    d = tempfile.mkdtemp(dir=os.environ.get("VERIF_SCRATCH"))
    path = os.path.join(d, "out.txt")
    with swapped((M.solver, "solve_direct_lagrange", solve)):
        text = M.fibre.to_fibre_section(
            obj, main_section_tag=main, analysis_type=kind, material_mapping=mapping,
            max_width=width, save_to=path)
    with open(path) as fh:
        ctx.true("file equals text", fh.read() == text)
    os.remove(path)
    os.rmdir(d)
    head, cells = parsed(text)
    ctx.true("one cell per triangle", len(cells) == len(tris))
    ctx.true("fibre command", head[:3] == ["section", "Fibre" + kind.upper(), str(main)])
    tags = [c[2] for c in cells]
    ctx.true("cells listed", sorted(head[3:]) == sorted(tags))
    ctx.true("tags unique", len(set(tags)) == len(tags) and str(main) not in tags)
    kd = {"2D": 1, "3D": 2, "3DOS": 2}[kind.upper()]
    for i, c in enumerate(cells):
        ctx.true(f"cell kind {i}", c[:2] == ["section", "Cell" + kind.upper()])
        q = [p[k] for k in t3[i]]
        ctx.eq(f"area {i}", ctx.parse(c[3]), cross3(q) / 2, tol=1e-7)
        ctx.true(f"material {i}", c[-1 - kd] == tag_of(names[attrs[i]], mapping))
        for k in range(kd):
            ctx.eq(f"centroid {i} {k}", ctx.parse(c[-kd + k]), (q[0][k] + q[1][k] + q[2][k]) / 3,
                   scale=1, tol=1e-7)
        ctx.true(f"fields {i}", len(c) == 5 + kd + (3 if kind.upper() == "3DOS" else 0))
    return mats, tris, cells, asked


def h_cells(ctx, M):
    p, t3 = two_tri_corners(ctx)
    kind = ctx.choice("kind", ["2D", "3D", "3d"])
    export(ctx, M, p, t3, ctx.choice("regions", [(0, 1), (1, 0), (0, 0)]), kind,
           ctx.choice("names", len(NAMES)), ctx.choice("width", [160, 25]),
           as_section=bool(ctx.choice("section", 2)), main=ctx.choice("tag", [1, 30]))


MESH = ([(0, 0), (4, 1), (1, 3), (5, 5), (-1, 6)], [(0, 1, 2), (1, 3, 2), (2, 3, 4)])


def h_many(ctx, M):
    """eight fixed cells, alternating materials"""
    from props.c01 import fan

    p, t3 = fan(ctx, 8)
    export(ctx, M, p, t3, [0, 1, 1, 0, 0, 1, 0, 1], ctx.choice("kind", ["2D", "3D"]),
           ctx.choice("names", len(NAMES)), ctx.choice("width", [160, 25]), main=7)


def h_warping(ctx, M):
    p = fixed_points(ctx, MESH[0])
    verts, tris = quad_mesh(p, MESH[1])
    om = [ctx.real(f"w{i}", -5, 5) for i in range(len(verts))]
    attrs = [0, 1, 0]
    mats, tris, cells, asked = export(ctx, M, p, MESH[1], attrs, "3DOS",
                                      ctx.choice("names", len(NAMES)), 160, omega=om)
    ref = WarpRef(ctx, M, p, tris, attrs, mats, 0, 0)
    load = ref.torsion_load()
    ctx.true("one solve", len(asked) == 1)
    for i, v in enumerate(load):
        ctx.eq(f"load {i}", asked[0][i], v, scale=1)
    for i, (ids, t, *_) in enumerate(ref.els):
        f = t.field([om[k] for k in ids])
        gx, gy = t.grad2a(f)
        c = cells[i]
        z = [num(ctx, v) for v in Z]
        ctx.eq(f"omega {i}", ctx.parse(c[4]), f.at(z), scale=1)
        ctx.eq(f"py {i}", ctx.parse(c[5]) * t.a2, gx.at(z), scale=1)
        ctx.eq(f"pz {i}", ctx.parse(c[6]) * t.a2, gy.at(z), scale=1)


def h_refusals(ctx, M):
    p = fixed_points(ctx, MESH[0])
    sec = mk_section(ctx, M, *quad_mesh(p, MESH[1]), [0, 0, 0], [material(ctx, M, "a", 0)])
    try:
        M.fibre.to_fibre_section(sec, analysis_type=ctx.choice("kind", ["4D", "3DO", ""]))
        ctx.fail("unknown type accepted")
    except ValueError:
        ctx.true("refused", True)
    try:
        M.fibre.to_fibre_section(p, analysis_type="2D")
        ctx.fail("wrong object accepted")
    except TypeError:
        ctx.true("refused", True)


HARNESSES = [
    ("cells", h_cells, {"patch": patch_all, "max_paths": 2000}),
    ("many", h_many, {"patch": patch_all}),
    ("warping", h_warping, {"patch": patch_all, "num_sqrt": True}),
    ("refusals", h_refusals, {"patch": patch_all}),
]
