"""Operations leave what they are given unchanged; analyses can be repeated.

Geometries are compared before and after every operation, meshes and sections before and after
building sections and running analyses, results of an analysis before and after later ones.
"""

from fractions import Fraction as F

import numpy as np

from props import c16, c28
from props.c07 import MESHES, add_polygons, mat_fixed
from props.c13 import Finder, Geom, blank
from props.common import (
    _mk_geometry, default_material, fixed_points, mk_material, num, patch_all, patch_section,
    quad_mesh, swapped,
)
from props.shapes import fmix, holed, pt, rings_of, shapes, triangle

BOUNDS = (
    "geometries: triangles with symbolic vertices and up to one hole and rectilinear regions on "
    "symbolic grids, compounds of two; sections: two- and three-element meshes with any answer of "
    "the linear solver, one or two materials, every analysis run twice and in the order geometric, "
    "warping, frame, stress, plastic"
)
ASSUMPTIONS = [
    "the linear solver answers equal systems equally; split, boolean and offset kernels do not "
    "change their operands; the shear coefficients of the solver's answers are not zero",
]


# -- comparing


def snap(v):
    """a copy that later changes cannot reach"""
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, dict):
        return {k: snap(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return type(v)(snap(x) for x in v) if type(v) in (list, tuple) else [snap(x) for x in v]
    return v


def same(ctx, label, a, b):
    """the two values are equal, entry by entry"""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        ok = isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape
        ctx.true(f"{label}: shape", ok)
        if ok:
            for k in np.ndindex(*a.shape):
                same(ctx, label, np.asarray(a)[k], np.asarray(b)[k])
    elif isinstance(a, dict):
        ctx.true(f"{label}: entries", isinstance(b, dict) and sorted(a) == sorted(b))
        for k in a:
            if isinstance(b, dict) and k in b:
                same(ctx, f"{label} {k}", a[k], b[k])
    elif isinstance(a, (list, tuple)):
        ctx.true(f"{label}: length", len(a) == len(b))
        for x, y in zip(a, b):
            same(ctx, label, x, y)
    elif a is b:
        ctx.true(label, True)
    elif a is None or b is None or isinstance(a, (str, bool)):
        ctx.true(label, a is b or (a is not None and b is not None and a == b))
    elif is_number(a) and is_number(b):
        ctx.eq(label, a, b, tol=0, ctol=1e-12)
    else:
        ctx.true(label, a is b)


def is_number(v):
    from symx.core import Sym

    return isinstance(v, (int, float, F, Sym, np.generic))


def shot(g):
    """everything observable of a geometry"""
    d = {"points": list(g.points), "facets": list(g.facets), "holes": list(g.holes),
         "control points": list(g.control_points), "material": g.material, "tol": g.tol,
         "mesh": g.mesh}
    if hasattr(g, "geoms"):
        d["geoms"] = list(g.geoms)
        d["parts"] = [shot(x) for x in g.geoms]
    else:
        d["rings"] = rings_of(g.geom)
        c = g.assigned_control_point
        d["assigned"] = None if c is None else (c.x, c.y)
    return d


# -- geometries


def region(ctx, M, S, tag, lo, hi, cp=None):
    p = triangle(ctx, tag, lo, hi)
    poly, _ = holed(ctx, S, p, () if tag == "B" else (c16.HOLE,))
    c = fmix(ctx, p, c16.CP) if cp else None
    return M.geometry.Geometry(poly, mk_material(ctx, M, tag), control_points=c, tol=9)


MOVES = ["shift", "rotate", "mirror x", "mirror y", "align left", "align top inner", "align point",
         "center", "center on", "center at", "shift points", "control point", "measures"]


def moves(ctx, M):
    """transformations return a new geometry; operand and target stay as they are"""
    S = shapes(ctx, M, **(c16.hooks() if ctx.symbolic else {}))
    pair = ctx.choice("compound", [False, True])
    what = ctx.choice("what", MOVES)
    if pair and what in ("shift points", "control point"):
        return
    a = region(ctx, M, S, "A", -10, -1, True)
    g = M.geometry.CompoundGeometry([a, region(ctx, M, S, "B", 1, 10)]) if pair else a
    t = region(ctx, M, S, "T", -10, 10) if what in ("align left", "align top inner", "center on") else None
    d = pt(ctx, "d", F(1, 10), 5)
    before, tb = shot(g), shot(t) if t is not None else None
    new = {
        "shift": lambda: g.shift_section(*d),
        "rotate": lambda: g.rotate_section(angle=90, rot_point=d),
        "mirror x": lambda: g.mirror_section("x", d),
        "mirror y": lambda: g.mirror_section("y"),
        "align left": lambda: g.align_to(t, "left"),
        "align top inner": lambda: g.align_to(t, "top", inner=True),
        "align point": lambda: g.align_to(d, "right"),
        "center": lambda: g.align_center(),
        "center on": lambda: g.align_center(t),
        "center at": lambda: g.align_center(d),
        "shift points": lambda: g.shift_points([0, 2], dx=d[0] / 20, dy=d[1] / 20),
        "control point": lambda: g.assign_control_point(g.control_points[0]),
        "measures": lambda: (g.calculate_area(), g.calculate_extents(), g.calculate_centroid()),
    }[what]()
    same(ctx, "operand", before, shot(g))
    if t is not None:
        same(ctx, "target", tb, shot(t))
    if what == "measures":
        return
    ctx.true("a new geometry", new is not g and new.points is not g.points
             and new.facets is not g.facets and new.control_points is not g.control_points
             and new.holes is not g.holes)


GRIDS = {"single": [c28.box(0, 2, 0, 2)], "part": [c28.box(2, 3, 0, 2)],
         "other": [c28.box(1, 4, 1, 3)]}


def kernels(ctx, M):
    """boolean operations, offsets, splits and sums leave both operands as they are"""
    what = ctx.choice("what", ["|", "&", "-", "^", "+", "offset", "split"])
    left = ctx.choice("left", ["single", "compound"])
    right = ctx.choice("right", ["single", "compound"])
    if left == "compound" and what in "|&^":
        return
    G = c28.Grid(ctx, 5)
    d = ctx.real("d", F(1, 20), F(9, 100))

    def buf(p, distance=None, *a, **k):
        from symx.core import symmax, symmin
        from symx.shapemodel import Polygon, same as same_value

        if not same_value(distance, -d):
            return p
        xs, ys = [q[0] for q in p.exterior._p], [q[1] for q in p.exterior._p]
        a0, a1, b0, b1 = symmin(xs), symmax(xs), symmin(ys), symmax(ys)
        return Polygon([(a0 + d, b0 + d), (a1 - d, b0 + d), (a1 - d, b1 - d), (a0 + d, b1 - d)])

    def cut(p, line):
        """the two halves along the middle of the part"""
        from symx.shapemodel import GeometryCollection, Polygon

        q = p.exterior._p
        xs, ys = [v[0] for v in q], G.ys
        from symx.core import symmax, symmin
        x0, x1 = symmin(xs), symmax(xs)
        return GeometryCollection([
            Polygon([(x0, ys[0]), (x1, ys[0]), (x1, ys[1]), (x0, ys[1])]),
            Polygon([(x0, ys[1]), (x1, ys[1]), (x1, ys[2]), (x0, ys[2])])])

    hk = {**c28.kernel(ctx, G, [], buf), "split": cut} if ctx.symbolic else {}
    if ctx.symbolic:
        from symx.shapemodel import Point

        def middle(p):
            q = p.exterior._p
            return Point(sum(v[0] for v in q) / len(q), sum(v[1] for v in q) / len(q))

        hk["representative"] = middle
    S = shapes(ctx, M, **hk)
    geo, comp = M.geometry.Geometry, M.geometry.CompoundGeometry

    def make(n, tag):
        return geo(G.poly(S, GRIDS[n]), mk_material(ctx, M, tag), tol=11)

    a = make("single", "a")
    if left == "compound":
        a = comp([a, make("part", "p")])
    b = make("other", "b")
    if right == "compound":
        b = comp([b, geo(G.poly(S, [c28.box(0, 1, 3, 4)]), mk_material(ctx, M, "q"))])
    sa, sb = shot(a), shot(b)
    if what == "offset":
        r = a.offset_perimeter(amount=-d)
    elif what == "split":
        r = a.split_section(point_i=G.at((0, 1)), vector=(1, 0))
    elif what == "+":
        r = a + b
    else:
        r = c28.operate(what, a, b)
    same(ctx, "left operand", sa, shot(a))
    same(ctx, "right operand", sb, shot(b))
    ctx.true("a new object", r is not a and r is not b)


# -- sections


def mesh_of(ctx, M, mesh, attrs, mats):
    pts, t3 = MESHES[mesh]
    p = fixed_points(ctx, pts)
    verts, tris = quad_mesh(p, t3)
    return _mk_geometry(M, verts, tris, attrs, mats), verts, tris, pts, t3


def element(e):
    return {"id": e.el_id, "coords": e.coords, "nodes": list(e.node_ids), "material": e.material}


def model(sec):
    """mesh, elements and groups of a section"""
    return {"vertices": sec.mesh["vertices"], "triangles": sec.mesh["triangles"],
            "attributes": sec.mesh["triangle_attributes"], "nodes": sec.mesh_nodes,
            "elements": sec.mesh_elements, "els": [element(e) for e in sec.elements],
            "materials": list(sec.materials), "count": sec.num_nodes,
            "groups": [(g.material, list(g.elements)) for g in sec.material_groups]}


def rebuild(ctx, M):
    """building a section leaves the meshed geometry alone: a second section is the same"""
    mesh = ctx.choice("mesh", ["quad", "fan"])
    n = {"quad": 2, "fan": 3}[mesh]
    two = ctx.choice("two", [False, True])
    mats = ([mat_fixed(ctx, M, "a", 2, F(1, 4)), mat_fixed(ctx, M, "b", 5, F(1, 8))] if two
            else [default_material(M)])
    g, *_ = mesh_of(ctx, M, mesh, [1, 0, 1][:n] if two else [0] * n, mats)
    mesh0 = snap(g.mesh)
    geoms = list(getattr(g, "geoms", []))
    s1 = M.section.Section(g)
    same(ctx, "mesh", mesh0, g.mesh)
    m1 = snap(model(s1))
    s2 = M.section.Section(g)
    same(ctx, "mesh", mesh0, g.mesh)
    ctx.true("geometries", all(x is y for x, y in zip(geoms, getattr(g, "geoms", []))))
    m2 = model(s2)
    for k in ("vertices", "triangles", "attributes", "nodes", "elements", "els", "materials", "count"):
        same(ctx, f"second section {k}", m1[k], m2[k])
    same(ctx, "first section", m1, model(s1))


class Memo:
    """arbitrary answers, the same for the same right-hand side"""

    def __init__(self, ctx, n):
        self.ctx, self.n, self.known = ctx, n, []

    def __call__(self, *a, **kw):
        self.ctx.free_answer = True
        f = list(kw.get("f", a[1] if len(a) > 1 else None))
        for g, u in self.known:
            if len(f) == len(g) and all(self.equal(x, y) for x, y in zip(f, g)):
                return u.copy()
        k = len(self.known)
        u = self.ctx.vec([self.ctx.real(f"u{k}_{i}", -5, 5) for i in range(self.n)])
        self.known.append((f, u))
        return u.copy()

    def equal(self, x, y):
        if self.ctx.symbolic:
            d = x - y
            return d.is_const() and d.cval() == 0
        return abs(x - y) <= 1e-9 * max(abs(x), abs(y), 1e-9)

    def installed(self, M):
        class Ilu:
            def __init__(s, *a, **k):
                pass

            def solve(s, b):
                return b

        reps = [(M.solver, "solve_direct_lagrange", self), (M.solver, "solve_cgs_lagrange", self),
                (M.solver, "solve_direct", self), (M.solver, "solve_cgs", self)]
        if M.symbolic:
            for m in (M.section, M.solver):
                if hasattr(m, "spilu"):
                    reps.append((m, "spilu", Ilu))
                if hasattr(m, "LinearOperator"):
                    reps.append((m, "LinearOperator", lambda *a, **k: ("precond", a)))
        return swapped(*reps)


ACTIONS = ["n", "vx", "vy", "mxx", "myy", "m11", "m22", "mzz"]


def prepared(ctx, M, mesh="quad"):
    two = ctx.choice("two", [False, True])
    n = {"quad": 2, "fan": 3}[mesh]
    mats = ([mat_fixed(ctx, M, "a", 2, F(1, 4)), mat_fixed(ctx, M, "b", 5, F(1, 8))] if two
            else [default_material(M)])
    attrs = [1, 0, 1][:n] if two else [0] * n
    g, verts, tris, pts, t3 = mesh_of(ctx, M, mesh, attrs, mats)
    sec = M.section.Section(g)
    add_polygons(sec, pts, t3, attrs)
    return sec, len(verts)


def analyses(ctx, M):
    """repeating analyses changes nothing; later ones leave earlier results and the mesh alone"""
    sec, n = prepared(ctx, M)
    m0, g0 = snap(model(sec)), snap(sec.geometry.mesh)
    geom = sec.geometry
    with Memo(ctx, n).installed(M):
        sec.calculate_geometric_properties()
        r1 = snap(vars(sec.section_props))
        same(ctx, "model after geometric", m0, model(sec))
        sec.calculate_geometric_properties()
        same(ctx, "geometric again", r1, vars(sec.section_props))
        sec.calculate_warping_properties()
        r2 = snap(vars(sec.section_props))
        same(ctx, "geometric results after warping",
             {k: v for k, v in r1.items() if v is not None}, {k: r2[k] for k in r1 if r1[k] is not None})
        same(ctx, "model after warping", m0, model(sec))
        what = ctx.choice("then", ["warping", "geometric", "frame"])
        if what == "warping":
            sec.calculate_warping_properties()
        elif what == "geometric":
            sec.calculate_geometric_properties()
        else:
            f1 = sec.calculate_frame_properties()
            f2 = sec.calculate_frame_properties()
            same(ctx, "frame again", list(f1), list(f2))
        same(ctx, f"results after {what}", r2, vars(sec.section_props))
    same(ctx, "model", m0, model(sec))
    same(ctx, "mesh", g0, sec.geometry.mesh)
    ctx.true("geometry", sec.geometry is geom)


def frame_first(ctx, M):
    """a frame analysis beforehand makes no difference to the full analyses"""
    sec, n = prepared(ctx, M)
    m0 = snap(model(sec))
    memo = Memo(ctx, n)
    other = M.section.Section(sec.geometry)
    with memo.installed(M):
        sec.calculate_frame_properties()
        same(ctx, "model", m0, model(sec))
        for x in (sec, other):
            x.calculate_geometric_properties()
            x.calculate_warping_properties()
    same(ctx, "results", vars(other.section_props), vars(sec.section_props))


RESULTS = ["area", "ea", "cx", "cy", "ixx_c", "iyy_c", "ixy_c", "i11_c", "i22_c", "j", "x_se", "y_se",
           "phi", "delta_s", "nu_eff", "e_eff", "g_eff", "ga", "ixx_g", "iyy_g", "ixy_g"]


KEEP = {"sig_zz_n", "sig_zz_mxx", "sig_zz_myy", "sig_zz_m11", "sig_zz_m22", "sig_zx_mzz",
        "sig_zy_mzz", "sig_zx_vx", "sig_zy_vx", "sig_zx_vy", "sig_zy_vy"}


def stresses(ctx, M):
    """each stress analysis has its own results; the section is not changed by it"""
    sec, n = prepared(ctx, M)
    sp = sec.section_props
    for i, k in enumerate(RESULTS):
        if hasattr(sp, k):
            setattr(sp, k, num(ctx, F(i + 5, 7)))
    sp.phi = num(ctx, 30)
    for k in ("omega", "psi_shear", "phi_shear"):
        setattr(sp, k, ctx.vec([ctx.real(f"{k}{i}", -5, 5) for i in range(n)]))
    for k, v in vars(sp).items():
        if v is None:
            setattr(sp, k, num(ctx, F(3, 2)))
    r0, m0 = snap(vars(sp)), snap(model(sec))
    one = {a: num(ctx, k + 1) for k, a in enumerate(ACTIONS)}
    two = {a: num(ctx, -3 - k) for k, a in enumerate(ACTIONS)}
    if ctx.choice("only", [True, False]):
        two = {"n": num(ctx, 7)}

    def values(post):
        return [{k: v for k, v in vars(g.stress_result).items() if k in KEEP}
                for g in post.material_groups]

    p1 = sec.calculate_stress(**one)
    s1 = snap(values(p1))
    p2 = sec.calculate_stress(**two)
    s2 = snap(values(p2))
    same(ctx, "first results after the second analysis", s1, values(p1))
    p3 = sec.calculate_stress(**one)
    same(ctx, "repeated analysis", s1, values(p3))
    same(ctx, "second results after the third analysis", s2, values(p2))
    same(ctx, "section results", r0, vars(sp))
    same(ctx, "model", m0, model(sec))


def plastic(ctx, M):
    """the plastic analysis leaves elastic results and the section's geometry as they are"""
    default = ctx.choice("default", [True, False])
    mats = [default_material(M)] if default else [
        mat_fixed(ctx, M, "a", 2, F(1, 4)), mat_fixed(ctx, M, "b", 5, F(1, 8))]
    sec = blank(ctx, M, mats)
    g = Geom(ctx, mats, shapes=((1, 1),))
    mine = sec.geometry = g
    sp = sec.section_props
    sp.phi = num(ctx, 30)
    names = ["area", "ea", "cx", "cy", "ixx_c", "iyy_c", "ixy_c", "ixx_g", "i11_c", "i22_c", "qx", "qy",
             "j", "x_se", "y_se", "gamma"]
    names += [f"z{x}_{s}" for x in ("xx", "yy", "11", "22") for s in ("plus", "minus")]
    names += [f"my_{x}" for x in ("xx", "yy", "11", "22")]
    for i, k in enumerate(names):
        setattr(sp, k, num(ctx, F(i + 2, 3)))
    m0 = snap({k: v for k, v in model(sec).items()})
    before = snap({k: v for k, v in vars(sp).items() if v is not None})
    import scipy.optimize as so

    find = Finder(ctx, g)
    with swapped((M.plastic_section, "brentq", find), (so, "brentq", find)):
        sec.calculate_plastic_properties()
    after = vars(sp)
    same(ctx, "elastic results", before, {k: after[k] for k in before})
    same(ctx, "model", m0, model(sec))
    ctx.true("geometry", sec.geometry is mine)


P = {"patch": c16.patch16, "merge": True}
A = {"patch": patch_all, "merge": True}


def patch_stress(M):
    """component stresses only (their combination is C10's subject)"""
    patch_all(M)
    M.stress_post.StressResult.calculate_combined_stresses = lambda self: None


HARNESSES = [
    ("moves", moves, {**P, "cost": 8}),
    ("kernels", kernels, {"patch": c28.patch, "merge": False, "cost": 6}),
    ("rebuild", rebuild, A),
    ("analyses", analyses, {**A, "cost": 8}),
    ("frame_first", frame_first, A),
    ("stresses", stresses, {**A, "patch": patch_stress, "cost": 8}),
    ("plastic", plastic, {"patch": patch_section, "merge": True}),
]
