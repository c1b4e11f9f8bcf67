"""Drawings of the geometry, mesh, centroids and warping function show the model's own data.

Coordinates, stored results and axis limits are arbitrary; the plotting calls are recorded and
read back: which segments, markers, labels, colours and values end up where.
"""

import numpy as np

from props.c25 import Anything, Triang
from props.common import fixed_points, mk_section, num, patch_all, quad_mesh, swapped

BOUNDS = (
    "geometries with up to six points, five facets, two holes and two control points anywhere; "
    "meshes of three and eight triangles in up to three regions, any mask; any stored centroids, "
    "warping function, principal angle and axis limits around the centroid"
)
ASSUMPTIONS = [
    "the plotting library draws what it is given; cell colours follow its documented "
    "normalisation over the unmasked cells",
]


class Rec:
    """records what is drawn"""

    def __init__(self, lims=None):
        self.lines, self.marks, self.notes, self.cells, self.fields = [], [], [], [], []
        self.grids, self.legends, self.lims = [], [], lims
        self.figure = Anything()

    def plot(self, x, y, *a, **k):
        xs = list(x) if np.ndim(x) or isinstance(x, (list, tuple)) else [x]
        ys = list(y) if np.ndim(y) or isinstance(y, (list, tuple)) else [y]
        pts = list(zip(xs, ys))
        if len(pts) == 1:
            self.marks.append((pts[0], k.get("label")))
        else:
            self.lines.append((pts, k.get("label")))
        return [Anything()]

    def scatter(self, x, y, *a, **k):
        xs = list(x) if isinstance(x, (list, tuple, np.ndarray)) and np.ndim(x) else [x]
        ys = list(y) if isinstance(y, (list, tuple, np.ndarray)) and np.ndim(y) else [y]
        for p in zip(xs, ys):
            self.marks.append((p, k.get("label")))
        return Anything()

    def annotate(self, text, xy, *a, **k):
        self.notes.append((str(text), tuple(xy)))

    def text(self, x, y, s, *a, **k):
        self.notes.append((str(s), (x, y)))

    def tripcolor(self, *a, **k):
        self.cells.append((a, k))
        return Anything()

    def triplot(self, t, *a, **k):
        self.grids.append(t)

    def tricontour(self, t, z, *a, **k):
        self.fields.append((t, list(z)))
        return Anything()

    def tricontourf(self, t, z, *a, **k):
        self.fields.append((t, list(z)))
        return Anything()

    def legend(self, *a, **k):
        self.legends.append(k.get("handles"))
        return Anything()

    def get_xlim(self):
        return self.lims[:2]

    def get_ylim(self):
        return self.lims[2:]

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return Anything()


def plotting(M, ax):
    import contextlib

    @contextlib.contextmanager
    def context(*a, **k):
        yield Anything(), ax

    tri = Anything()
    tri.Triangulation = Triang
    reps = [(M.post, "plotting_context", context)]
    if hasattr(M.section, "tri"):
        reps.append((M.section, "tri", tri))
    return swapped(*reps)


def is_same(ctx, a, b):
    if ctx.symbolic:
        d = a - b
        return d == 0 if isinstance(d, (int, float)) else d.is_const() and d.cval() == 0
    return abs(a - b) <= 1e-9 * max(abs(a), abs(b), 1)


def flat(v):
    out = []
    for x in v:
        out += flat(x) if isinstance(x, (tuple, list)) else [x]
    return out


def claim_set(ctx, label, got, want):
    """the same items (tuples of coordinates) in any order"""
    got, want = [flat(g) for g in got], [flat(w) for w in want]
    ctx.true(label + " count", len(got) == len(want))
    rest = list(got)
    left = []
    for w in want:
        for g in rest:
            if len(g) == len(w) and all(is_same(ctx, a, b) for a, b in zip(g, w)):
                rest.remove(g) if False else rest.pop([id(r) for r in rest].index(id(g)))
                break
        else:
            left.append(w)
    for i, (g, w) in enumerate(zip(rest, left)):
        for k, (a, b) in enumerate(zip(g, w)):
            ctx.eq(f"{label} {i} {k}", a, b)
    ctx.true(label + " all", len(rest) == len(left))


def both_ways(ctx, segs, facets):
    """each drawn segment turned to the direction of the facet it covers"""
    out = []
    for s in segs:
        r = (s[1], s[0])
        if any(all(is_same(ctx, a, b) for a, b in zip(flat(r), flat(f))) for f in facets):
            out.append(r)
        else:
            out.append(s)
    return out


POINTS = ["control_points", "points", "facets", "holes"]


def h_geometry(ctx, M):
    npt = ctx.choice("points", [3, 6])
    pts = [(ctx.real(f"px{i}"), ctx.real(f"py{i}")) for i in range(npt)]
    if npt == 3:
        facets = [(0, 1), (1, 2), (2, 0)]
    else:
        facets = [(0, 1), (1, 2), (2, 0), (4, 3), (5, 4)]
    nh, nc = ctx.choice("holes", [0, 1, 2]), ctx.choice("controls", [1, 2])
    holes = [(ctx.real(f"hx{i}"), ctx.real(f"hy{i}")) for i in range(nh)]
    cps = [(ctx.real(f"cx{i}"), ctx.real(f"cy{i}")) for i in range(nc)]
    labels = ctx.choice("labels", [("control_points",), ("points",), ("facets",), ("holes",),
                                   ("points", "holes", "facets", "control_points"), ()])
    cp, legend = bool(ctx.choice("cp", 2)), bool(ctx.choice("legend", 2))
    cls = ctx.choice("class", ["Geometry", "CompoundGeometry"])
    g = getattr(M.geometry, cls).__new__(getattr(M.geometry, cls))
    g.points, g.facets, g.holes, g.control_points = list(pts), list(facets), holes, cps
    ax = Rec()
    with plotting(M, ax):
        r = g.plot_geometry(labels=labels, cp=cp, legend=legend)
    ctx.true("axes", r is ax)
    segs = [(pts[a], pts[b]) for a, b in facets]
    got = [(p[i], p[i + 1]) for p, _ in ax.lines for i in range(len(p) - 1)]
    claim_set(ctx, "facet", both_ways(ctx, got, segs), segs)
    claim_set(ctx, "marker", [p for p, _ in ax.marks], holes + (cps if cp else []))
    for p, lb in ax.marks:
        if lb == "Holes":
            ctx.true("hole label", nh > 0 and any(
                all(is_same(ctx, a, b) for a, b in zip(p, h)) for h in holes))
        if lb == "Control Points":
            ctx.true("control label", any(
                all(is_same(ctx, a, b) for a, b in zip(p, h)) for h in cps))
    named = [lb for _, lb in ax.lines + ax.marks if lb]
    ctx.true("labels once", len(set(named)) == len(named))
    ctx.true("legend", bool(ax.legends) == legend)
    where = {"control_points": cps, "points": pts, "holes": holes,
             "facets": [((a[0] + b[0]) / 2, (a[1] + b[1]) / 2) for a, b in segs]}
    want = [(str(i), p) for lb in labels for i, p in enumerate(where[lb])]
    for t in sorted({t for t, _ in ax.notes} | {t for t, _ in want}):
        claim_set(ctx, f"note {t}", [p for s, p in ax.notes if s == t],
                  [p for s, p in want if s == t])


MESH = ([(0, 0), (4, 1), (3, 4), (-1, 5), (-3, 2)], [(0, 1, 2), (0, 2, 3), (0, 3, 4)])
COLORS = ["red", "green", "blue"]


def section(ctx, M, attrs, colors=COLORS, default=False, symbolic=True, shared=False,
            one_name=False):
    from props.c01 import fan

    if len(attrs) == 3:
        p, t3 = fixed_points(ctx, MESH[0]), MESH[1]
    else:
        p, t3 = fan(ctx, 8)
    if symbolic:
        dx, dy = ctx.real("dx"), ctx.real("dy")
        p = [(x + dx, y + dy) for x, y in p]
    verts, tris = quad_mesh(p, t3)
    mats = [M.pre.Material("m" if one_name else f"m{i}", num(ctx, 1 + i), num(ctx, 0), num(ctx, 1), num(ctx, 1), c)
            for i, c in zip(range(1 + max(attrs)), colors)]
    if default:
        mats = [M.pre.DEFAULT_MATERIAL]
    if shared and len(mats) > 1:
        mats[-1] = mats[0]
    return verts, t3, mk_section(ctx, M, verts, tris, attrs, mats), mats


def corners(t):
    return {(i, frozenset(int(v) for v in t.triangles[i])) for i in t.cells()}


def edges(cells):
    return {frozenset(e) for _, c in cells for e in [(a, b) for a in c for b in c if a < b]}


def nodes_of(ctx, label, t, verts):
    ctx.true(label + " nodes", len(t.x) == len(verts) and len(t.y) == len(verts))
    for i, (x, y) in enumerate(verts[:len(t.x)]):
        ctx.eq(f"{label} x{i}", t.x[i], x)
        ctx.eq(f"{label} y{i}", t.y[i], y)


def shown(call):
    """{element: rgba} as the plotting library colours the cells of tripcolor"""
    import matplotlib
    from matplotlib.colors import Normalize

    a, k = call
    t = a[0]
    vals = k.get("facecolors", a[1] if len(a) > 1 else None)
    vals = [float(v) for v in vals]
    cells = t.cells()
    cmap = k.get("cmap")
    cmap = matplotlib.colormaps[cmap] if isinstance(cmap, str) else cmap
    norm = k.get("norm") or Normalize(k.get("vmin"), k.get("vmax"))
    use = np.array([vals[i] for i in cells])
    norm.autoscale_None(use)
    return dict(zip(cells, [tuple(c) for c in cmap(norm(use))]))


def h_mesh(ctx, M):
    from matplotlib.colors import to_rgba

    attrs = ctx.choice("regions", [[0, 0, 0], [0, 1, 0], [1, 0, 2], [0, 1, 2, 2, 0, 1, 1, 2]])
    n = len(attrs)
    masks = [None, [True] + [False] * (n - 1), [False] * (n - 1) + [True],
             [i % 2 == 0 for i in range(n)]]
    mask = ctx.choice("mask", masks)
    materials = bool(ctx.choice("materials", 2))
    colors = ctx.choice("colours", [COLORS, ["red", "red", "blue"]])
    verts, t3, sec, mats = section(ctx, M, attrs, colors,
                                   shared=bool(ctx.choice("shared material", 2)),
                                   one_name=bool(ctx.choice("one name", 2)))
    ax = Rec()
    with plotting(M, ax):
        r = sec.plot_mesh(mask=mask, materials=materials)
    ctx.true("axes", r is ax)
    keep = [i for i in range(n) if mask is None or not mask[i]]
    want = {(i, frozenset(t3[i])) for i in keep}
    ctx.true("edges drawn", bool(ax.grids) and set().union(
        *[edges(corners(t)) for t in ax.grids]) == edges(want))
    for t in ax.grids:
        nodes_of(ctx, "grid", t, verts)
    ctx.true("cells coloured", bool(ax.cells) == materials)
    if materials:
        done = {}
        for c in ax.cells:
            nodes_of(ctx, "cell", c[0][0], verts)
            ctx.true("cell corners", corners(c[0][0]) <= want)
            done |= shown(c)
        ctx.true("every cell coloured", set(done) == set(keep))
        for i in keep:
            ctx.true(f"colour {i}", done.get(i) == to_rgba(sec.elements[i].material.color))
            ctx.true(f"own colour {i}", done.get(i) == to_rgba(mats[attrs[i]].color))
        entries = [(h.get_label(), tuple(h.get_facecolor())) for hs in ax.legends if hs for h in hs]
        own = [m for i, m in enumerate(mats) if not any(m is o for o in mats[:i])]
        ctx.true("legend", sorted(set(entries)) == sorted(
            {(m.name, to_rgba(m.color)) for m in own}) and len(entries) <= len(own))


CENTRES = {  # label: the stored results
    "Elastic centroid": ("cx", "cy"),
    "Shear centre": ("x_se", "y_se"),
    "Global plastic centroid": ("x_pc", "y_pc"),
    "Principal plastic centroid": ("x11_pc", "y22_pc"),
}


def h_centroids(ctx, M):
    """markers at the results that are available, at their global positions"""
    state = ctx.choice("state", ["none", "geometric", "warping", "plastic", "all"])
    verts, t3, sec, mats = section(ctx, M, [0, 0, 0], symbolic=False)
    sp = sec.section_props
    v = {k: ctx.real(k) for ks in CENTRES.values() for k in ks}
    have = ["Elastic centroid"] * (state != "none") + ["Shear centre"] * (
        state in ("warping", "all")) + list(CENTRES)[2:] * (state in ("plastic", "all"))
    for lb in have:
        for k in CENTRES[lb]:
            setattr(sp, k, v[k])
    ph = ctx.angle("phi", -3, 3)
    if have:
        sp.phi = ph * 180 / ctx.pi
    ax = Rec()
    with plotting(M, ax), swapped((M.post, "draw_principal_axis", lambda *a, **k: None)):
        sec.plot_centroids()
    c, s = ctx.cos(ph), ctx.sin(ph)
    at = {
        "Elastic centroid": (v["cx"], v["cy"]),
        "Shear centre": (v["cx"] + v["x_se"], v["cy"] + v["y_se"]),
        "Global plastic centroid": (v["cx"] + v["x_pc"], v["cy"] + v["y_pc"]),
        "Principal plastic centroid": (
            v["cx"] + c * v["x11_pc"] - s * v["y22_pc"],
            v["cy"] + s * v["x11_pc"] + c * v["y22_pc"]),
    }
    ctx.true("markers", sorted(lb for _, lb in ax.marks) == sorted(have))
    for p, lb in ax.marks:
        if lb in at:
            ctx.eq(lb + " x", p[0], at[lb][0], scale=1)
            ctx.eq(lb + " y", p[1], at[lb][1], scale=1)
    ctx.true("mesh below", len(ax.grids) >= 1)


def h_axes(ctx, M):
    """the principal axes: through the centroid, along phi and across it, inside the limits"""
    verts, t3, sec, mats = section(ctx, M, [0, 0, 0], symbolic=False)
    sp = sec.section_props
    cx, cy = ctx.real("cx", -2, 2), ctx.real("cy", -2, 2)
    lims = (ctx.real("x0", -9, -4), ctx.real("x1", 4, 9), ctx.real("y0", -9, -4),
            ctx.real("y1", 4, 9))
    sp.cx, sp.cy = cx, cy
    kind = ctx.choice("angle", ["any", 0, 90, -90, 180, -135])
    if kind == "any":
        ph = ctx.angle("phi", -3, 3)
        sp.phi = ph * 180 / ctx.pi
        c, s = ctx.cos(ph), ctx.sin(ph)
        ctx.assume(ctx.any(c >= num(ctx, 1) / 100, c <= -num(ctx, 1) / 100))
        ctx.assume(ctx.any(s >= num(ctx, 1) / 100, s <= -num(ctx, 1) / 100))
    else:
        sp.phi = num(ctx, kind)
        a = sp.phi * ctx.pi / 180
        c, s = ctx.cos(a), ctx.sin(a)
    ax = Rec(lims)
    with plotting(M, ax):
        sec.plot_centroids()
    got = {lb: p for p, lb in ax.lines}
    ctx.true("two axes", sorted(got) == ["11-axis", "22-axis"])
    tol = num(ctx, 1) / 10**6
    for lb, d in (("11-axis", (c, s)), ("22-axis", (-s, c))):
        p = got.get(lb, [])
        ctx.true(lb + " segment", len(p) == 2)
        if len(p) != 2:
            continue
        t = []
        for i, (x, y) in enumerate(p):
            ctx.eq(f"{lb} on axis {i}", (x - cx) * d[1], (y - cy) * d[0], scale=1)
            ctx.le(f"{lb} left {i}", lims[0], x + tol)
            ctx.le(f"{lb} right {i}", x - tol, lims[1])
            ctx.le(f"{lb} below {i}", lims[2], y + tol)
            ctx.le(f"{lb} above {i}", y - tol, lims[3])
            t.append((x - cx) * d[0] + (y - cy) * d[1])
        ctx.true(lb + " both sides", ctx.any(ctx.all(t[0] > 0, t[1] < 0),
                                             ctx.all(t[0] < 0, t[1] > 0)))


def h_warping(ctx, M):
    attrs = ctx.choice("regions", [[0, 0, 0], [1, 0, 2]])
    verts, t3, sec, mats = section(ctx, M, attrs, default=max(attrs) == 0)
    ax = Rec()
    with plotting(M, ax):
        try:
            sec.plot_warping_function()
            ctx.fail("no analysis")
        except RuntimeError:
            ctx.true("no analysis", not ax.fields)
        om = [ctx.real(f"w{i}", -5, 5) for i in range(len(verts))]
        sec.section_props.omega = ctx.vec(om)
        lines = bool(ctx.choice("lines", 2))
        sec.plot_warping_function(with_lines=lines)
    ctx.true("drawn", len(ax.fields) == 1 + lines)
    want = {(i, frozenset(t)) for i, t in enumerate(t3)}
    for k, (t, z) in enumerate(ax.fields):
        nodes_of(ctx, f"field {k}", t, verts)
        ctx.true(f"cells {k}", corners(t) == want)
        ctx.true(f"values {k}", len(z) == len(om))
        for i, v in enumerate(om[:len(z)]):
            ctx.eq(f"value {k} {i}", z[i], v)


class Console:
    seen = []

    def __init__(self, *a, **k):
        pass

    def print(self, *a, **k):
        Console.seen.append(" ".join(str(x) for x in a))


def h_info(ctx, M):
    import re

    attrs = ctx.choice("regions", [[0, 0, 0], [0, 1, 0], [1, 0, 2], [0, 1, 2, 2, 0, 1, 1, 2]])
    verts, t3, sec, mats = section(ctx, M, attrs, shared=bool(ctx.choice("shared material", 2)))
    Console.seen = []
    with swapped((M.section, "Console", Console)):
        sec.display_mesh_info()
    text = " ".join(Console.seen)
    for nm, v in (("node", len(verts)), ("element", len(t3)), ("region", 1 + max(attrs))):
        m = re.findall(rf"(\d+) {nm}", text)
        ctx.true(nm, m == [str(v)])


P = {"patch": patch_all}
HARNESSES = [
    ("geometry", h_geometry, {"max_paths": 2000}),
    ("mesh", h_mesh, {**P, "cost": 3}),
    ("centroids", h_centroids, P),
    ("axes", h_axes, {**P, "cost": 3}),
    ("warping", h_warping, P),
    ("info", h_info, P),
]
