"""Progress reporting never changes a result.

Every analysis runs twice on identical sections, once with reporting on and once off, with the
same solver stand-in (equal systems get equal arbitrary answers); all stored properties, returned
values, stress fields, warnings and errors must be identical.
"""

import warnings
from fractions import Fraction as F

import numpy as np

from props.c07 import MESHES, build, mat_fixed
from props.common import (
    default_material, num, patch_all, swapped,
)

BOUNDS = (
    "meshes of two and three triangles, plain and two-material sections with arbitrary strengths and densities, "
    "any solution vector in [-5,5] of every linear system, any root of the plastic balance in "
    "its bracket; any actions in [-10,10]; solvers 'direct', 'cgs' and an unknown one"
)
ASSUMPTIONS = [
    "the terminal widgets of rich only display (Live, Panel, Table; Progress keeps task counts)",
    "a linear solver returns the same answer for the same system",
]


class Task:
    pass


class Progress:
    """keeps tasks like rich's Progress: ids count from zero, unknown ids are an error"""

    def __init__(self):
        self.tasks = {}

    def add_task(self, description, start=True, total=100.0, completed=0, visible=True, **f):
        k = len(self.tasks)
        self.tasks[k] = [description, total, completed]
        return k

    def update(self, task_id, *, total=None, completed=None, advance=None, description=None,
               visible=None, refresh=False, **f):
        t = self.tasks[task_id]
        if description is not None:
            t[0] = description
        if advance is not None:
            t[2] += advance

    def advance(self, task_id, advance=1):
        self.tasks[task_id][2] += advance


class Widget:
    def __init__(self, *a, **k):
        self.border_style = None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    @classmethod
    def grid(cls, *a, **k):
        return cls()

    @classmethod
    def fit(cls, *a, **k):
        return cls()

    def add_row(self, *a, **k):
        pass

    def add_column(self, *a, **k):
        pass

    def refresh(self, *a, **k):
        pass

    def update(self, *a, **k):
        pass


def widgets(M):
    if not M.symbolic:
        return []
    r = [(M.solver, "create_progress", lambda *a, **k: Progress())]
    for m in (M.section, M.plastic_section, M.solver):
        for n in ("Live", "Panel", "Table"):
            if hasattr(m, n):
                r.append((m, n, Widget))
    return r


class SameSolver:
    """equal systems get equal, otherwise arbitrary, answers"""

    def __init__(self, ctx, n):
        self.ctx, self.n, self.known = ctx, n, []

    def key(self, how, k, f):
        return how, [v for r in k.toarray() for v in r] + list(f)

    def solve(self, how):
        def s(*a, **kw):
            self.ctx.free_answer = True
            k = kw.get("k_lg", a[0] if a else None)
            f = kw.get("f", a[1] if len(a) > 1 else None)
            h, key = self.key(how, k, f)
            for h2, k2, v in self.known:
                if h == h2 and len(key) == len(k2) and all(same(x, y) for x, y in zip(key, k2)):
                    return v.copy()
            i = len(self.known)
            v = self.ctx.vec([self.ctx.real(f"u{i}_{j}", -5, 5) for j in range(self.n)])
            self.known.append((h, key, v))
            return v.copy()

        return s

    def installed(self, M):
        if not M.symbolic:
            return []

        class Ilu:
            def __init__(s, *a, **k):
                pass

            def solve(s, b):
                return b

        r = [(M.solver, "solve_direct_lagrange", self.solve("direct")),
             (M.solver, "solve_cgs_lagrange", self.solve("cgs"))]
        for m in (M.section, M.solver):
            if hasattr(m, "spilu"):
                r.append((m, "spilu", Ilu))
            if hasattr(m, "LinearOperator"):
                r.append((m, "LinearOperator", lambda *a, **k: ("precond",)))
        return r


def same(a, b):
    return a.same(b) if hasattr(a, "same") else b.same(a) if hasattr(b, "same") else a == b


def outcome(fn):
    """(value, error, warnings)"""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        val = err = None
        try:
            val = fn()
        except (RuntimeError, ValueError, TypeError, AssertionError, KeyError, IndexError,
                ZeroDivisionError) as e:
            from symx.harness import stub_limit

            if stub_limit(e):
                raise
            err = (type(e).__name__, str(e))
    return val, err, sorted(str(x.message) for x in w if issubclass(x.category, UserWarning)
                            and "section geometry" in str(x.message))


def flat(v):
    if v is None or isinstance(v, (str, bool)):
        return [v]
    if isinstance(v, (list, tuple)):
        return [y for x in v for y in flat(x)]
    if isinstance(v, np.ndarray):
        return [y for x in v.tolist() for y in flat(x)]
    return [v]


def compare(ctx, tag, a, b):
    fa, fb = flat(a), flat(b)
    if len(fa) != len(fb):
        ctx.fail(f"{tag} size")
        return
    for i, (x, y) in enumerate(zip(fa, fb)):
        if x is None or y is None or isinstance(x, (str, bool)) or isinstance(y, (str, bool)):
            if not (x is None and y is None) and x != y:
                ctx.fail(f"{tag}[{i}]")
            continue
        ctx.eq(f"{tag}[{i}]", x, y, scale=1)


def props(sec):
    return dict(vars(sec.section_props))


def mats_of(ctx, M, kind):
    if kind == "plain":
        return [default_material(M)], [0, 0]
    return [M.pre.Material("a", num(ctx, 2), num(ctx, F(1, 4)), ctx.real("fa", 1, 2),
                           ctx.real("ra", 1, 2), "w"),
            M.pre.Material("b", num(ctx, 5), num(ctx, F(1, 8)), ctx.real("fb", 1, 2),
                           ctx.real("rb", 1, 2), "w")], [1, 0]


def both(ctx, M, mats, attrs, fn, tag, prepare=None, reps=()):
    """runs fn on a section without and with reporting, compares everything"""
    res = []
    sv = None
    for flag in (False, True):
        p, verts, tris, sec = build(ctx, M, "quad", attrs, mats, time_info=flag)
        if sv is None:
            sv = SameSolver(ctx, len(verts))
        with swapped(*widgets(M), *sv.installed(M), *reps):
            if prepare:
                prepare(sec)
            v, e, w = outcome(lambda: fn(sec))
        res.append((v, e, w, props(sec)))
    (v0, e0, w0, p0), (v1, e1, w1, p1) = res
    ctx.true(f"{tag} error", e0 == e1)
    ctx.true(f"{tag} warnings", w0 == w1)
    compare(ctx, f"{tag} result", v0, v1)
    ctx.true(f"{tag} fields", sorted(p0) == sorted(p1))
    for k in p0:
        compare(ctx, f"{tag} {k}", p0[k], p1.get(k))
    return res


def kinds(fn):
    def h(kind):
        return lambda ctx, M: fn(ctx, M, kind)

    return h


@kinds
def geometric(ctx, M, kind):
    mats, attrs = mats_of(ctx, M, kind)
    both(ctx, M, mats, attrs, lambda s: s.calculate_geometric_properties(), "geometric")


@kinds
def warping(ctx, M, kind):
    mats, attrs = fixed_mats(ctx, M, kind)
    mode = ctx.choice("solver", ["direct", "cgs", "other"])
    first = ctx.choice("geometric first", [True, False])
    both(ctx, M, mats, attrs, lambda s: s.calculate_warping_properties(solver_type=mode),
         "warping", (lambda s: s.calculate_geometric_properties()) if first else None)


@kinds
def frame(ctx, M, kind):
    mats, attrs = fixed_mats(ctx, M, kind)
    mode = ctx.choice("solver", ["direct", "cgs", "other"])
    both(ctx, M, mats, attrs, lambda s: s.calculate_frame_properties(solver_type=mode), "frame")


def fixed_mats(ctx, M, kind):
    if kind == "plain":
        return [default_material(M)], [0, 0]
    return [mat_fixed(ctx, M, "a", 2, F(1, 4)), mat_fixed(ctx, M, "b", 5, F(1, 8))], [1, 0]


FIELDS = ["n", "mxx", "myy", "m11", "m22", "mzz", "vx", "vy"]


BASIC = ["sig_zz_n", "sig_zz_mxx", "sig_zz_myy", "sig_zz_m11", "sig_zz_m22", "sig_zx_mzz",
         "sig_zy_mzz", "sig_zx_vx", "sig_zy_vx", "sig_zx_vy", "sig_zy_vy"]


def patch_combine(M):
    """the combination of stresses (C10) is only recorded"""
    patch_all(M)
    M.stress_post.StressResult.calculate_combined_stresses = (
        lambda self: self.__dict__.__setitem__("combined", self.__dict__.get("combined", 0) + 1))


def stress_fields(post):
    out = []
    for g in post.material_groups:
        out.append(g.material.name)
        d = vars(g.stress_result)
        out.append(str(d.get("combined", "real")))
        for k in sorted(d):
            if k.startswith("sig_") and "combined" not in d or k in BASIC:
                out += [k, list(d[k])]
    return out


@kinds
def stress(ctx, M, kind):
    mats, attrs = fixed_mats(ctx, M, kind)
    act = {k: ctx.real(k, 1, 10) for k in FIELDS}
    ready = ctx.choice("state", ["all", "no warping", "none"])

    def prepare(s):
        if ready != "none":
            s.calculate_geometric_properties()
        if ready == "all":
            s.calculate_warping_properties()

    both(ctx, M, mats, attrs, lambda s: stress_fields(s.calculate_stress(**act)), "stress",
         prepare)


class Part:
    def __init__(self, a, cx, cy, m):
        self.a, self.c, self.material = a, (cx, cy), m

    def calculate_area(self):
        return self.a

    def calculate_centroid(self):
        return self.c


class Geom:
    """parts that depend on the cutting line in a fixed way"""

    def __init__(self, ctx, mats):
        self.pts = self.points = [(num(ctx, a), num(ctx, b)) for a, b in ((-3, -2), (4, -1), (1, 5))]
        self.mats = mats
        self.k = [ctx.real(f"k{i}", 1, 2) for i in range(6)]
        self.geom = None

    def align_center(self, align_to=None):
        return self

    def compile_geometry(self):
        pass

    def calculate_extents(self):
        xs, ys = [p[0] for p in self.points], [p[1] for p in self.points]
        return min(xs), max(xs), min(ys), max(ys)

    def split_section(self, point_i, point_j=None, vector=None):
        k = self.k
        if vector is None:
            vector = (point_j[0] - point_i[0], point_j[1] - point_i[1])
        s = (point_i[0] * vector[1] - point_i[1] * vector[0]) / 20
        top = [Part(k[0] + s, k[1] + point_i[0], k[2] + point_i[1], self.mats[0])]
        bot = [Part(k[3] - s, -k[4] + point_i[0], -k[5] + point_i[1], self.mats[-1])]
        return top, bot


class Root:
    flag = "stopped"
    iterations = 3
    function_calls = 5

    def __init__(self, ok):
        self.converged = ok


@kinds
def plastic(ctx, M, kind):
    mats, attrs = fixed_mats(ctx, M, kind)
    g = Geom(ctx, mats)
    if kind == "plain":
        g.mats = [default_material(M)]
    w = ctx.real("w", F(1, 4), F(3, 4))
    ok = ctx.choice("converged", [True, False])
    ready = ctx.choice("geometric first", [True, False])

    def find(f, a, b, args=(), full_output=False, **kw):
        f(a, *args)
        f(b, *args)
        d = a + (b - a) * w
        f(d, *args)
        return (d, Root(ok)) if full_output else d

    class Shape:
        """composite outline without overlap"""

        def __init__(s, geom):
            s.geom, s.material = geom, None

    def prepare(s):
        if ready:
            s.calculate_geometric_properties()
        if hasattr(s.geometry, "geoms"):
            g.geoms = [Shape(x.geom) for x in s.geometry.geoms]
        s.geometry = g

    both(ctx, M, mats, attrs, lambda s: s.calculate_plastic_properties(), "plastic", prepare,
         [(M.plastic_section, "brentq", find)])


@kinds
def disjoint(ctx, M, kind):
    """warnings about the geometry do not depend on reporting"""
    which = ctx.choice("analysis", ["warping", "plastic"])
    mats, attrs = fixed_mats(ctx, M, "composite")
    ans = ctx.choice("geometry", [True, False])

    def prepare(s):
        s.calculate_geometric_properties()

    class Stop(RuntimeError):
        pass

    def stop(*a, **k):
        raise Stop("stop")

    if which == "warping":
        both(ctx, M, mats, attrs, lambda s: s.calculate_warping_properties(), which, prepare,
             [(M.geometry, "check_geometry_disjoint", lambda *a, **k: ans)])
    else:
        both(ctx, M, mats, attrs, lambda s: s.calculate_plastic_properties(), which, prepare,
             [(M.geometry, "check_geometry_overlaps", lambda *a, **k: ans),
              (M.plastic_section, "PlasticSection", stop)])


P = {"patch": patch_all, "merge": True, "num_sqrt": True, "cost": 2}
HARNESSES = [(f"{n}_{k}", f(k), {**P, "patch": patch_combine} if n == "stress" else P) for n, f in
             [("geometric", geometric), ("warping", warping), ("frame", frame),
              ("stress", stress), ("plastic", plastic)] for k in ("plain", "composite")]
HARNESSES.append(("warned", disjoint(None), P))
