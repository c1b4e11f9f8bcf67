"""Stress results: every field under its own name, per material group, per load case.

Nodal stress arrays are arbitrary reals in every group; the dictionaries and the plots (on
recording stand-ins of the plotting library) must carry the named field of the right group.
"""

import contextlib

import numpy as np

from props.common import fixed_points, mk_section, num, patch_all, quad_mesh, swapped

BOUNDS = (
    "three triangles in up to three material groups, every field an arbitrary vector; every "
    "documented plot name; two load cases after one another"
)
ASSUMPTIONS = ["the plotting library draws what it is given (its calls are recorded)",
               "eigenvalue routine answers with the exact eigenvalues of the matrix it is given"]

FIELDS = ["zz_n", "zz_mxx", "zz_myy", "zz_m11", "zz_m22", "zz_m", "zx_mzz", "zy_mzz", "zxy_mzz",
          "zx_vx", "zy_vx", "zxy_vx", "zx_vy", "zy_vy", "zxy_vy", "zx_v", "zy_v", "zxy_v", "zz",
          "zx", "zy", "zxy", "11", "33", "vm"]
# documented plot names: action first, component second
PLOTS = {}
for _f in FIELDS:
    _c, _, _a = _f.partition("_")
    PLOTS[f"{_a}_{_c}" if _a else _c] = "sig_" + _f
VECTORS = ["mzz_zxy", "vx_zxy", "vy_zxy", "v_zxy", "zxy"]

PTS = [(0, 0), (2, 0), (0, 2), (2, 2), (4, 1)]
TRIS = [(0, 1, 2), (1, 3, 2), (1, 4, 3)]


def material(ctx, M, name, k):
    return M.pre.Material(name=name, elastic_modulus=num(ctx, 1 + k), poissons_ratio=num(ctx, 0),
                          yield_strength=num(ctx, 1), density=num(ctx, 1), color="w")


def build(ctx, M, attrs):
    mats = [material(ctx, M, n, k) for k, n in enumerate("abc")][:1 + max(attrs)]
    verts, tris = quad_mesh(fixed_points(ctx, PTS), TRIS)
    return mk_section(ctx, M, verts, tris, attrs, mats), mats


def fill(ctx, sec, tag="", lo=-9, hi=9):
    """arbitrary values in every field; returns them per material name"""
    out = {}
    for g in sec.material_groups:
        sr = g.stress_result
        d = out[g.material.name] = {}
        n = len(sr.sig_zz)
        for f in FIELDS:
            v = ctx.vec([ctx.real(f"{tag}{g.material.name}{f}{i}", lo, hi) for i in range(n)])
            d["sig_" + f] = v
            setattr(sr, "sig_" + f, v.copy())
    return out


def same(ctx, label, got, want):
    got, want = list(got), list(want)
    ctx.true(label + " length", len(got) == len(want))
    for i, (a, b) in enumerate(zip(got, want)):
        ctx.eq(f"{label}{i}", a, b)


def compare(ctx, label, got, want, mats):
    """get_stress() of every group"""
    ctx.true(label + "groups", sorted(d["material"] for d in got) == sorted(want))
    for d in got:
        w = want[d["material"]]
        ctx.true(label + "names", set(d) == set(w) | {"material"})
        for k, v in w.items():
            same(ctx, f"{label}{d['material']} {k} ", d[k], v)


def attrs_of(ctx):
    return ctx.choice("regions", [[0, 0, 0], [0, 1, 0], [1, 0, 2]])


def h_get_stress(ctx, M):
    sec, mats = build(ctx, M, attrs_of(ctx))
    want = fill(ctx, sec)
    sp = M.stress_post.StressPost(sec)
    compare(ctx, "", sp.get_stress(), want, mats)


LOADS = ["n", "vx", "vy", "mxx", "myy", "m11", "m22", "mzz"]


def h_repeat(ctx, M):
    """the stresses of a load case do not depend on the load cases evaluated before it"""
    with swapped((M.stress_post.StressResult, "calculate_combined_stresses", lambda self: None)):
        repeat(ctx, M)


def repeat(ctx, M):
    sec, mats = build(ctx, M, [0, 1, 0])
    props(ctx, sec)
    a = {k: num(ctx, 0) for k in LOADS}
    b = dict(a)
    which = ctx.choice("first", LOADS)
    a[which] = ctx.real("first")
    for k in ("n", "mxx", "mzz", "vy"):
        b[k] = ctx.real("second_" + k)
    fresh, _ = build(ctx, M, [0, 1, 0])
    props(ctx, fresh)
    want = fresh.calculate_stress(**b).get_stress()
    first = sec.calculate_stress(**a)
    before = [{k: (v if isinstance(v, str) else list(v)) for k, v in d.items()}
              for d in first.get_stress()]
    got = sec.calculate_stress(**b).get_stress()
    keys = ["sig_" + f for f in FIELDS if f.partition("_")[2] in (
        "n", "mxx", "myy", "m11", "m22", "mzz", "vx", "vy") and not f.startswith("zxy")]
    for k in keys:
        for d, w in zip(got, want):
            same(ctx, f"second {d['material']} {k} ", d[k], w[k])
        for d, w in zip(first.get_stress(), before):
            same(ctx, f"first {d['material']} {k} ", d[k], w[k])


def props(ctx, sec):
    """stored results of geometric and warping analyses (any values)"""
    sp = sec.section_props
    n = sec.num_nodes
    for i, k in enumerate(("area", "ea", "ixx_c", "iyy_c", "i11_c", "i22_c", "j", "delta_s")):
        setattr(sp, k, num(ctx, 2 + i))
    sp.cx, sp.cy, sp.ixy_c = num(ctx, 1), num(ctx, 2), num(ctx, 1)
    sp.phi = num(ctx, 0)
    sp.nu_eff = num(ctx, 0)
    sp.omega = ctx.vec([num(ctx, (i * 7) % 5 - 2) for i in range(n)])
    sp.psi_shear = ctx.vec([num(ctx, (i * 3) % 4 - 1) for i in range(n)])
    sp.phi_shear = ctx.vec([num(ctx, (i * 5) % 3 - 1) for i in range(n)])


# -- plots ------------------------------------------------------------------------------
class Triang:
    """the triangulation handed to the plotting library"""

    def __init__(self, x, y, triangles=None, mask=None, **k):
        self.x, self.y, self.triangles = list(x), list(y), np.array(triangles)
        self.mask = mask

    def set_mask(self, mask):
        self.mask = None if mask is None else np.array(mask).copy()

    def cells(self):
        n = len(self.triangles)
        m = [False] * n if self.mask is None else list(self.mask)
        return tuple(i for i in range(n) if not m[i])

    def get_trifinder(self):
        return Finder(self)


class Finder:
    def __init__(self, t):
        self.t, self.ids = t, t.cells()

    def __call__(self, x, y):
        for i in self.ids:
            if all(bool(z >= 0) for z in bary(self.t, i, x, y)):
                return i
        return -1


def bary(t, i, x, y):
    a, b, c = t.triangles[i]
    P = [(t.x[k], t.y[k]) for k in (a, b, c)]

    def area(p, q, r):
        return (q[0] - p[0]) * (r[1] - p[1]) - (r[0] - p[0]) * (q[1] - p[1])

    A = area(*P)
    return [area((x, y), P[1], P[2]) / A, area(P[0], (x, y), P[2]) / A,
            area(P[0], P[1], (x, y)) / A]


class Item:
    def __init__(self, v):
        self.v = v

    def item(self):
        return self.v

    def __float__(self):
        return float(self.v)


class Interp:
    def __init__(self, t, z, trifinder=None):
        self.t, self.z = t, z
        self.f = trifinder or Finder(t)

    def __call__(self, x, y):
        i = self.f(x, y)
        w = bary(self.t, i, x, y)
        return Item(sum((w[k] * self.z[self.t.triangles[i][k]] for k in range(3)), num_zero(w)))


def num_zero(w):
    return w[0] * 0


class Anything:
    """accepts every call and attribute"""

    def __getattr__(self, k):
        return Anything()

    def __call__(self, *a, **k):
        return Anything()

    def __getitem__(self, k):
        return Anything()

    def __iter__(self):
        return iter((0, 0))


class Quiv:
    def __init__(self, U, V, C, x, y):
        self.U, self.V, self.C, self.x, self.y = U, V, C, x, y
        self.scale = 1.0

    def _init(self):
        pass


class Axes:
    def __init__(self):
        self.contours, self.quivers, self.points, self.circles = [], [], [], []
        self.figure = Anything()

    def tricontourf(self, triang, sig, *a, **k):
        self.contours.append((triang.cells(), list(sig), a, k))
        return Anything()

    def quiver(self, x, y, u, v, *c, **k):
        q = Quiv(list(u), list(v), list(c[0]) if c else None, list(x), list(y))
        self.quivers.append(q)
        return q

    def add_patch(self, p):
        self.circles.append(p)

    def plot(self, *a, **k):
        self.points.append((a, k))
        return [Anything()]

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return Anything()


class Circ:
    def __init__(self, xy, radius=5, **k):
        self.xy, self.radius, self.k = xy, radius, k


@contextlib.contextmanager
def plotting(M, ax, *more):
    @contextlib.contextmanager
    def ctxm(**k):
        yield Anything(), ax

    tri = Anything()
    tri.Triangulation = Triang
    tri.LinearTriInterpolator = Interp
    reps = [(M.post, "plotting_context", lambda *a, **k: ctxm()), (M.stress_post, "tri", tri),
            (M.stress_post, "make_axes_locatable", lambda *a, **k: Anything()),
            (M.stress_post, "Circle", Circ),
            (M.section.Section, "plot_mesh", lambda *a, **k: ax)]
    with swapped(*[r for r in reps + list(more)
                   if hasattr(r[0], r[1])]):
        yield


def groups_of(sec):
    return {tuple(sorted(g.el_ids)): g.material.name for g in sec.material_groups}


def h_contour(ctx, M):
    sec, mats = build(ctx, M, attrs_of(ctx))
    want = fill(ctx, sec)
    sp = M.stress_post.StressPost(sec)
    name = ctx.choice("plot", sorted(PLOTS))
    sel = ctx.choice("materials", ["all", "last"])
    ml = None if sel == "all" else [mats[-1]]
    ax = Axes()
    with plotting(M, ax):
        sp.plot_stress(name, material_list=ml, stress_limits=(-10.0, 10.0))
    of = groups_of(sec)
    shown = {k: v for k, v in of.items() if ml is None or v == mats[-1].name}
    ctx.true("one contour per group", sorted(c[0] for c in ax.contours) == sorted(shown))
    for cells, sig, _, _ in ax.contours:
        same(ctx, f"{name} ", sig, want[shown[cells]][PLOTS[name]])


def h_limits(ctx, M):
    """without given limits the colour levels span the values of the plotted groups"""
    sec, mats = build(ctx, M, [0, 1, 0])
    n = sec.num_nodes
    v = [ctx.real("lo"), ctx.real("hi")]
    ctx.assume(v[0] < v[1] - num(ctx, 1) / 100)
    where = ctx.choice("groups", [(0, 1), (1, 0), (0, 0), (1, 1)])
    only = ctx.choice("materials", [None, 0, 1])
    for k, g in enumerate(sec.material_groups):
        mid = (v[0] + v[1]) / 2
        a = [mid] * n
        for j in (0, 1):
            if where[j] == k:
                a[j + 1] = v[j]
        g.stress_result.sig_zz = ctx.vec(a)
    sp = M.stress_post.StressPost(sec)
    ax = Axes()
    with plotting(M, ax):
        sp.plot_stress("zz", material_list=None if only is None else
                       [sec.material_groups[only].material])
    vals = [x for k, g in enumerate(sec.material_groups) if only in (None, k)
            for x in (v[0] if where[0] == k else (v[0] + v[1]) / 2,
                      v[1] if where[1] == k else (v[0] + v[1]) / 2)]
    ctx.true("groups plotted", len(ax.contours) == (2 if only is None else 1))
    for c in ax.contours:
        lev = c[2][0]
        if isinstance(lev, int):
            ctx.true("one level", only is not None and where[0] != only and where[1] != only)
            continue
        lev = list(lev)
        for i, x in enumerate(vals):
            ctx.true(f"low{i}", lev[0] <= x)
            ctx.true(f"high{i}", lev[-1] >= x)
        ctx.true("no wider", ctx.all(ctx.any(*[lev[0] >= x - num(ctx, 1) / 1000 for x in vals]),
                                     ctx.any(*[lev[-1] <= x + num(ctx, 1) / 1000 for x in vals])))


def h_vector(ctx, M):
    sec, mats = build(ctx, M, [0, 1, 0])
    name = ctx.choice("plot", VECTORS)
    comp = {"mzz_zxy": "_mzz", "vx_zxy": "_vx", "vy_zxy": "_vy", "v_zxy": "_v", "zxy": ""}[name]
    want = {}
    for g in sec.material_groups:
        n = len(g.stress_result.sig_zz)
        d = want[g.material.name] = {}
        for k, s in (("zx", 1), ("zy", 0)):
            for f in ("_mzz", "_vx", "_vy", "_v", ""):
                if f == comp:
                    # lengths are compared in the code: keep them ordered
                    v = [ctx.real(f"{g.material.name}{k}", 1, 2) * (3 ** i) for i in range(2)]
                    v += [num(ctx, 0)] * (n - 2)
                else:
                    v = [num(ctx, 77)] * n
                setattr(g.stress_result, "sig_" + k + f, ctx.vec(v))
                d[k + f] = v
    sp = M.stress_post.StressPost(sec)
    ax = Axes()
    with plotting(M, ax):
        ctx.havoc()
        sp.plot_stress_vector(name)
        ctx.havoc(False)
    ctx.true("one quiver per group", len(ax.quivers) == len(sec.material_groups))
    for g, q in zip(sp.material_groups, ax.quivers):
        w = want[g.material.name]
        same(ctx, "u", q.U, w["zx" + comp])
        same(ctx, "v", q.V, w["zy" + comp])
        same(ctx, "x", q.x, [r[0] for r in sec.mesh_nodes])
        same(ctx, "y", q.y, [r[1] for r in sec.mesh_nodes])


def h_mohr(ctx, M):
    """Mohr's circles at a point show the principal stresses of the material there"""
    sec, mats = build(ctx, M, [0, 1, 0])
    where = ctx.choice("triangle", 3)
    w = [(1, 2, 5), (3, 3, 2), (4, 2, 2)][where]
    tri = TRIS[where]
    x = sum(num(ctx, PTS[k][0] * a) for k, a in zip(tri, w)) / num(ctx, 8)
    y = sum(num(ctx, PTS[k][1] * a) for k, a in zip(tri, w)) / num(ctx, 8)
    mat = mats[[0, 1, 0][where]].name
    # nodal values that give any chosen stress state at the point
    zz, zx = ctx.real("zz"), ctx.real("zx", -5, 5)
    zy = ctx.real("zy", -5, 5)
    ctx.assume(zx * zx + zy * zy > num(ctx, 1) / 10)
    for g in sec.material_groups:
        n = len(g.stress_result.sig_zz)
        for f, v in (("zz", zz), ("zx", zx), ("zy", zy)):
            a = [num(ctx, 50 + i) for i in range(n)]
            if g.material.name == mat:
                d0, d1 = ctx.real(f"d0{f}", -3, 3), ctx.real(f"d1{f}", -3, 3)
                # weights w0, w1, w2: v + corrections that cancel at the point
                a[tri[0]] = v + d0
                a[tri[1]] = v + d1
                a[tri[2]] = v - (d0 * w[0] + d1 * w[1]) / num(ctx, w[2])
            setattr(g.stress_result, "sig_" + f, ctx.vec(a))
    sp = M.stress_post.StressPost(sec)
    ax = Axes()
    asked = []
    tt = zx * zx + zy * zy
    rad = ctx.sqrt(zz * zz / 4 + tt)
    lam = [zz / 2 - rad, num(ctx, 0), zz / 2 + rad]

    def eig(a=None, **k):
        asked.append(a)
        n = np.empty((3, 3), dtype=object)
        n[...] = 0
        # columns: unit eigenvectors
        t = ctx.sqrt(tt)
        for c, ev in ((0, lam[0]), (2, lam[2])):
            ln = ctx.sqrt(tt + ev * ev)
            n[0, c], n[1, c], n[2, c] = zx / ln, zy / ln, ev / ln
        n[0, 1], n[1, 1], n[2, 1] = -zy / t, zx / t, num(ctx, 0)
        return ctx.vec(lam), ctx.arr(n)

    eigh = eig
    more = []
    if ctx.symbolic:
        from symx import npshim

        def inv(a):
            return np.asarray(a).T.copy().view(npshim.SymArr)

        more = [(npshim.LinalgProxy, "eig", staticmethod(eig)),
                (npshim.LinalgProxy, "eigh", staticmethod(eigh)),
                (npshim.LinalgProxy, "eigvalsh", staticmethod(lambda a, **k: eig(a)[0])),
                (npshim.LinalgProxy, "inv", staticmethod(inv))]
        for _, n, _ in more:
            if not hasattr(npshim.LinalgProxy, n):
                setattr(npshim.LinalgProxy, n, None)
    with plotting(M, ax, *more):
        sp.plot_mohrs_circles(x, y)
    if ctx.symbolic:
        ctx.true("matrix", len(asked) >= 1)
        want = [[0, 0, zx], [0, 0, zy], [zx, zy, zz]]
        for i in range(3):
            for j in range(3):
                ctx.eq(f"sigma{i}{j}", asked[0][i][j], num(ctx, 0) + want[i][j])
    pairs = [(1, 0), (2, 0), (2, 1)]
    ctx.true("three circles", len(ax.circles) == 3)
    # each circle spans two principal stresses
    for k, (hi, lo) in enumerate(pairs):
        ctx.true(f"circle {k}", ctx.any(*[ctx.all(
            ctx.close(c.xy[0] * 2, lam[hi] + lam[lo]), ctx.close(c.radius * 2, lam[hi] - lam[lo]))
            for c in ax.circles]))


def h_mohr_outside(ctx, M):
    sec, mats = build(ctx, M, [0, 1, 0])
    fill(ctx, sec, lo=1, hi=2)
    sp = M.stress_post.StressPost(sec)
    x = ctx.real("x", -9, -num(ctx, 1) / 100)
    ax = Axes()
    with plotting(M, ax):
        try:
            sp.plot_mohrs_circles(x, num(ctx, 1))
            ctx.fail("point outside the mesh accepted")
        except ValueError:
            ctx.true("refused", True)


HARNESSES = [
    ("get_stress", h_get_stress, {}),
    ("repeat", h_repeat, {"patch": patch_all, "cost": 3}),
    ("contour", h_contour, {"cost": 3}),
    ("limits", h_limits, {"merge": True}),
    ("vector", h_vector, {}),
    ("mohr", h_mohr, {}),
    ("mohr_outside", h_mohr_outside, {}),
]
