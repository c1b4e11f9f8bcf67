"""Plastic analysis: equal force split, plastic centroids, moduli and shape factors.

The analysis runs on a geometry stand-in whose split returns arbitrary parts (area, centroid,
material) for every cutting line; the root finder is replaced by one that evaluates the
library's own force balance at both bracket ends and returns a root of it.
"""

from fractions import Fraction as F

from props.common import (
    default_material, fixed_points, mk_section, num, patch_section, quad_mesh, swapped,
)

BOUNDS = (
    "parts above/below the axis: (1,1), (2,1), (1,2) with any centroid, area in (0,10] and one of two yield "
    "strengths in [1,2]; three outline points; any principal angle in [-230, 230] degrees; up to "
    "five parts at fixed outlines and angles; eight material lists with and without the default "
    "material and copies of it"
)
ASSUMPTIONS = [
    "brentq returns a point inside the bracket at which the given function is zero, having "
    "evaluated the function there last",
    "the geometry's split returns the parts above (right of) and below (left of) the line (C14)",
]


class Part:
    def __init__(self, a, cx, cy, m):
        self.a, self.c, self.material = a, (cx, cy), m

    def calculate_area(self):
        return self.a

    def calculate_centroid(self):
        return self.c


def same(a, b):
    """identical expressions"""
    return a.same(b) if hasattr(a, "same") else b.same(a) if hasattr(b, "same") else a == b


class Geom:
    """aligned geometry: outline points and a split into arbitrary parts"""

    def __init__(self, ctx, mats, shapes=((1, 1), (2, 1), (1, 2)), points=None):
        self.ctx, self.mats = ctx, mats
        self.points = points or [(ctx.real(f"px{i}"), ctx.real(f"py{i}")) for i in range(3)]
        self.shape = ctx.choice("parts", list(shapes))
        self.mode = None  # "top", "bottom" or "balanced"
        self.calls = []
        self.aligned = self.compiled = 0
        self.geom = None

    def align_center(self, align_to=None):
        self.aligned += 1
        return self

    def compile_geometry(self):
        self.compiled += 1

    def calculate_extents(self):
        xs, ys = [p[0] for p in self.points], [p[1] for p in self.points]
        return min(xs), max(xs), min(ys), max(ys)

    def split_section(self, point_i, point_j=None, vector=None):
        ctx = self.ctx
        if vector is None:
            vector = (point_j[0] - point_i[0], point_j[1] - point_i[1])
        for m, p, v, r in self.calls:
            if m == self.mode and all(same(a, b) for a, b in zip(
                    (*p, *v), (point_i[0], point_i[1], vector[0], vector[1]))):
                return r
        k = self.count = getattr(self, "count", 0) + 1
        nt, nb = self.shape
        parts = []
        for i in range(nt + nb):
            m = self.mats[i % len(self.mats)]
            big = (i < nt) == (self.mode != "bottom")
            a = ctx.real(f"a{k}_{i}", 5, 10) if big else ctx.pos(f"a{k}_{i}", F(1, 100), F(1, 2))
            parts.append(Part(a, ctx.real(f"x{k}_{i}"),
                              ctx.real(f"y{k}_{i}"), m))
        fo = [q.a * q.material.yield_strength for q in parts]
        top = sum(fo[1:nt], fo[0])
        bot = sum(fo[nt + 1:], fo[nt])
        if self.mode == "balanced":  # the last part carries what is missing
            rest = bot - fo[-1]
            q = parts[-1]
            q.a = (top - rest) / q.material.yield_strength
        r = (parts[:nt], parts[nt:])
        self.calls.append((self.mode, (point_i[0], point_i[1]), (vector[0], vector[1]), r))
        return r


class Root:
    converged = True
    flag = "converged"
    iterations = 3
    function_calls = 5


class Finder:
    def __init__(self, ctx, g):
        self.ctx, self.g, self.found = ctx, g, []

    def __call__(self, f, a, b, args=(), full_output=False, **kw):
        ctx, g = self.ctx, self.g
        k = len(self.found)
        g.calls = []
        g.mode = "top"
        f1 = f(a, *args)
        g.mode = "bottom"
        f2 = f(b, *args)
        d = ctx.real(f"d{k}")
        g.mode = "balanced"
        f0 = f(d, *args)
        self.found.append(dict(a=a, b=b, d=d, f1=f1, f2=f2, f0=f0, call=g.calls[-1]))
        r = Root()
        return (d, r) if full_output else d


def blank(ctx, M, mats):
    """a section of the given materials before any analysis"""
    p = fixed_points(ctx, [(i, j) for i in range(4) for j in (0, 1)])
    tris = [(2 * i, 2 * i + 2, 2 * i + 1) for i in range(len(mats))]
    return mk_section(ctx, M, *quad_mesh(p, tris), list(range(len(mats))), mats)


def yielding(ctx, M, n, e):
    return M.pre.Material(name=n, elastic_modulus=num(ctx, e), poissons_ratio=num(ctx, 0),
                          yield_strength=ctx.real("fy" + n, 1, 2), density=num(ctx, 1), color="w")


def run(ctx, M, default, mats=None, angle=None, **kw):
    if mats is None:
        mats = [default_material(M)] if default else [
            yielding(ctx, M, n, e) for n, e in (("a", 2), ("b", 3))]
    g = Geom(ctx, mats, **kw)
    sec = blank(ctx, M, mats)
    sp, sec.geometry = sec.section_props, g
    a = ctx.angle("phi", -4, 4) if angle is None else ctx.pi * angle
    sp.phi = a * 180 / ctx.pi
    sp.cx, sp.cy = ctx.real("cx"), ctx.real("cy")
    names = [f"z{x}_{s}" for x in ("xx", "yy", "11", "22") for s in ("plus", "minus")]
    names += [f"my_{x}" for x in ("xx", "yy", "11", "22")]
    v = {n: ctx.pos(n) for n in names}
    for n in names:
        setattr(sp, n, v[n])
    find = Finder(ctx, g)
    import scipy.optimize as so

    with swapped((M.plastic_section, "brentq", find), (so, "brentq", find)):
        sec.calculate_plastic_properties()
    return sec, sp, g, find, (ctx.cos(a), ctx.sin(a)), v


def axis_results(ctx, sp, find, cs, n):
    """(bracket coordinate of a point, centroid distance direction, d, modulus)"""
    c, s = cs
    one, zero = 1, 0
    return {
        0: ((zero, one), sp.y_pc, sp.sxx, "x"),
        1: ((one, zero), sp.x_pc, sp.syy, "y"),
        2: ((-s, c), sp.y22_pc, sp.s11, "11"),
        3: ((c, s), sp.x11_pc, sp.s22, "22"),
    }[n]


def plastic(ctx, M, default, **kw):
    sec, sp, g, find, cs, v = run(ctx, M, default, **kw)
    ctx.true("aligned to the centroid", g.aligned >= 1)
    ctx.true("four axes", len(find.found) == 4)
    for k, r in enumerate(find.found):
        nrm, pc, s, nm = axis_results(ctx, sp, find, cs, k)
        ctx.true(f"{nm} sign change", r["f1"] * r["f2"] < 0)
        ctx.eq(f"{nm} root", r["f0"] + 1, num(ctx, 1))
        ctx.eq(f"{nm} axis position", pc, r["d"])
        # the cut: through the point at distance d along the normal, along the axis
        _, p, u, (tops, bots) = r["call"]
        ctx.eq(f"{nm} cut position", p[0] * nrm[0] + p[1] * nrm[1], r["d"], scale=1)
        ctx.eq(f"{nm} cut direction", u[0] * nrm[0] + u[1] * nrm[1], num(ctx, 0), scale=1)
        ctx.true(f"{nm} cut vector", u[0] * u[0] + u[1] * u[1] > F(1, 100))
        for i, q in enumerate(g.points):
            w = q[0] * nrm[0] + q[1] * nrm[1]
            ctx.le(f"{nm} bracket low {i}", r["a"], w)
            ctx.le(f"{nm} bracket high {i}", w, r["b"])
        tot = num(ctx, 0)
        for q in tops + bots:
            w = q.c[0] * nrm[0] + q.c[1] * nrm[1]
            tot = tot + q.a * q.material.yield_strength * abs(w - r["d"])
        ctx.eq(f"{nm} modulus", s, tot)
    el = {"xx": sp.sxx, "yy": sp.syy, "11": sp.s11, "22": sp.s22}
    for x, s in el.items():
        for e in ("plus", "minus"):
            z = v[f"z{x}_{e}"] if default else v[f"my_{x}"]
            ctx.eq(f"shape factor {x} {e}", getattr(sp, f"sf_{x}_{e}") * z, s)
    x, y = sec.get_pc()
    ctx.eq("x_pc", x, sp.cx + find.found[1]["d"])
    ctx.eq("y_pc", y, sp.cy + find.found[0]["d"])
    x, y = sec.get_pc_p()
    c, s = cs
    d22, d11 = find.found[2]["d"], find.found[3]["d"]
    ctx.eq("x_pc_p", x, sp.cx + d11 * c - d22 * s)
    ctx.eq("y_pc_p", y, sp.cy + d11 * s + d22 * c)


def h_plain(ctx, M):
    plastic(ctx, M, True)


def h_composite(ctx, M):
    plastic(ctx, M, False)


def h_materials(ctx, M):
    """which materials make the shape factors relate to the yield moments"""
    import copy

    d = default_material(M)
    a, b = yielding(ctx, M, "a", 2), yielding(ctx, M, "b", 3)
    which = ctx.choice("materials", ["dd", "dc", "da", "ad", "aa", "abd", "dda", "aba"])
    mats = [{"d": d, "c": copy.copy(d), "a": a, "b": b}[k] for k in which]
    pts = fixed_points(ctx, [(0, 0), (3, 1), (1, 4)])
    plastic(ctx, M, not set(which) - {"d", "c"}, mats=mats, angle=F(0), points=pts,
            shapes=[(len(mats) - 1, 1)])


def h_parts(ctx, M):
    """more parts on either side of the axis"""
    pts = fixed_points(ctx, [(0, 0), (3, 1), (1, 4)])
    plastic(ctx, M, False, mats=[yielding(ctx, M, n, e) for n, e in (("a", 2), ("b", 3), ("c", 4))],
            angle=F(1, 6), points=pts, shapes=[(2, 2), (3, 1), (1, 3), (3, 2)])


def h_gates(ctx, M):
    """plastic analysis before geometric analysis, and a root finder that fails"""
    g = Geom(ctx, [default_material(M)])
    g.shape = (1, 1)
    g.points = [(num(ctx, 0), num(ctx, 0)), (num(ctx, 2), num(ctx, 1))]
    sec = blank(ctx, M, [default_material(M)])
    sp, sec.geometry = sec.section_props, g
    find = Finder(ctx, g)

    class Bad(Root):
        converged = False
        flag = "no"

    class Failing:
        def __init__(self, at):
            self.at = at

        def __call__(self, *a, **k):
            n = len(find.found)
            k["full_output"] = True
            d, r = find(*a, **k)
            return d, (Bad() if n == self.at else r)

    import scipy.optimize as so

    ok = ctx.choice("geometric", [False, True])
    if ok:
        sp.cx, sp.cy, sp.phi = num(ctx, 1), num(ctx, 2), num(ctx, 0)
        f = Failing(ctx.choice("fails at", [0, 1, 2, 3, 9]))
    else:
        f = Failing(9)
    try:
        with swapped((M.plastic_section, "brentq", f), (so, "brentq", f)):
            sec.calculate_plastic_properties()
        raised = False
    except RuntimeError:
        raised = True
    ctx.true("refused", raised == (not ok or f.at < 9))
    for n in ("get_pc", "get_pc_p", "get_s", "get_sp", "get_sf", "get_sf_p"):
        if not ok:
            try:
                getattr(sec, n)()
                ctx.fail(n + " without analysis")
            except RuntimeError:
                ctx.true(n + " refused", True)


HARNESSES = [
    ("plain", h_plain, {"patch": patch_section, "merge": True, "cost": 3}),
    ("composite", h_composite, {"patch": patch_section, "merge": True, "cost": 3}),
    ("materials", h_materials, {"patch": patch_section, "merge": True, "cost": 2}),
    ("parts", h_parts, {"patch": patch_section, "merge": True, "cost": 2}),
    ("gates", h_gates, {"patch": patch_section, "merge": True}),
]
