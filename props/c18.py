"""Reinforced concrete sections: outline, cover, count, spacing and area of the bars."""

from fractions import Fraction as F

from props import rect
from props.common import mk_material
from props.lib import cossin, dim, patch
from props.shapes import numeric, ring_segments, rings_of, same_points, same_segments, shapes

BOUNDS = ("all dimensions with bars that fit, bar counts 1 to 4 per face; walls and cores with one "
          "to four bar spacings per face, every cover, diameter, spacing and wall thickness; bars "
          "drawn with three or four corners")
ASSUMPTIONS = [
    "bars do not overlap each other: cutting a bar out of the concrete leaves a hole of its shape",
    "inset of a rectangle is exact; the tiny outward offset that joins touching pieces is nothing",
]
D = {"patch": patch}


def setup(ctx, M):
    if ctx.symbolic:
        from symx.core import ENGINE

        def inset(g, a, **k):
            from symx.shapemodel import Polygon

            from symx.shapemodel import lift

            a = lift(a)
            if not a.same(0) and not bool(a < 0):
                return g  # tiny outward offset that closes gaps between touching pieces
            x0, y0, x1, y1 = g.bounds
            return Polygon([(x0 - a, y0 - a), (x1 + a, y0 - a), (x1 + a, y1 + a), (x0 - a, y1 + a)])

        def pick(poly):
            from symx.shapemodel import Point

            return Point(poly.exterior._p[0])

        shapes(ctx, M, buffer=inset, representative=pick, **rect.hooks(ctx))
        ENGINE.generic = True


def done(ctx):
    if ctx.symbolic:
        from symx.core import ENGINE

        ENGINE.generic = False


def call(ctx, fn, **kw):
    try:
        return fn(**kw)
    finally:
        done(ctx)


def common(ctx, M, corners=(3, 4)):
    n = ctx.choice("n_circle", list(corners))
    return {"n_circle": n, "conc_mat": mk_material(ctx, M, "c"), "steel_mat": mk_material(ctx, M, "s")}


class Row:
    """evenly spaced bars from p to q"""

    def __init__(self, p, q, n=None, spacing=None, extra=0, open_end=False):
        self.p, self.q, self.n, self.spacing = p, q, n, spacing
        self.extra, self.open_end = extra, open_end


def centre(ring):
    return (sum(p[0] for p in ring) / len(ring), sum(p[1] for p in ring) / len(ring))


def check(ctx, M, g, gross, rows, kw, areas):
    """concrete with holes exactly at the bars; bars on the rows.  ``areas(i)``-> expected area"""
    conc = [x for x in g.geoms if x.material is kw["conc_mat"]]
    bars = [x for x in g.geoms if x.material is kw["steel_mat"]]
    ctx.true("only concrete and steel", len(conc) + len(bars) == len(g.geoms))
    ctx.true("pieces of concrete", len(conc) == len(gross))
    ctx.true("bars are solid", all(len(rings_of(b.geom)) == 1 for b in bars))
    rings = [rings_of(b.geom)[0] for b in bars]
    outer = [s for r in gross for s in ring_segments(r)]
    same_segments(ctx, "concrete",
                  [s for c in conc for s in ring_segments([straight(r) for r in rings_of(c.geom)])],
                  outer + ring_segments(rings))
    f = numeric(ctx)
    pos = [centre(r) for r in rings]
    for i, (r, c) in enumerate(zip(rings, pos)):
        a = areas(f, c)
        bar = M.primitive_sections.circular_section_by_area(area=a, n=kw["n_circle"])  # see C17
        want = [(q[0] + c[0], q[1] + c[1]) for q in rings_of(bar.geom)[0]]
        same_points(ctx, f"bar {i}", r, want)
    check_rows(ctx, f, pos, rows)


def check_rows(ctx, f, pos, rows):
    num = [(f(p[0]), f(p[1])) for p in pos]
    used = set()
    for name, row in rows.items():
        if row.n == 0:
            continue
        p, q = row.p, row.q
        fp, fq = (f(p[0]), f(p[1])), (f(q[0]), f(q[1]))
        k = 0 if abs(fq[0] - fp[0]) > abs(fq[1] - fp[1]) else 1
        tol = 1e-7
        idx = [i for i, c in enumerate(num) if abs(c[1 - k] - fp[1 - k]) < tol
               and fp[k] - tol <= c[k] <= fq[k] + tol]
        idx.sort(key=lambda i: num[i][k])
        if isinstance(row, Middle):
            idx = [i for i in idx if fp[k] + tol < num[i][k] < fq[k] - tol]
            used.update(idx)
            n = len(idx) + 1
            for j, i in enumerate(idx):
                ctx.eq(f"{name}: bar {j} on the line", pos[i][1 - k], p[1 - k], scale=10)
                ctx.eq(f"{name}: bar {j} evenly spaced", pos[i][k],
                       p[k] + (q[k] - p[k]) * (j + 1) / n, scale=10)
            ctx.le(f"{name}: spacing", (q[k] - p[k]) / n, row.spacing)
            if n > 1:
                ctx.lt(f"{name}: no more bars than needed", (n - 1) * row.spacing,
                       q[k] - p[k] + (0 if ctx.symbolic else 1e-6))
            continue
        ctx.true(f"{name}: has bars", len(idx) > 0)
        if not idx:
            continue
        used.update(idx)
        n = len(idx)
        if row.open_end and abs(num[idx[-1]][k] - fq[k]) > tol:
            n += 1
        if row.n is not None:
            ctx.true(f"{name}: number of bars", n == row.n)
        if n == 1 and row.n == 1:
            ctx.eq(f"{name}: in the middle", pos[idx[0]][k], (p[k] + q[k]) / 2, scale=10)
            ctx.eq(f"{name}: on the line", pos[idx[0]][1 - k], p[1 - k], scale=10)
            continue
        ctx.true(f"{name}: at least two bars", n >= 2)
        if n < 2:
            continue
        for j, i in enumerate(idx):
            ctx.eq(f"{name}: bar {j} on the line", pos[i][1 - k], p[1 - k], scale=10)
            ctx.eq(f"{name}: bar {j} evenly spaced", pos[i][k],
                   p[k] + (q[k] - p[k]) * F(j, n - 1) if ctx.symbolic
                   else p[k] + (q[k] - p[k]) * j / (n - 1), scale=10)
        if row.spacing is not None:
            ctx.le(f"{name}: spacing", (q[k] - p[k]) / (n - 1), row.spacing)
            if n > 2:
                ctx.lt(f"{name}: no more bars than needed", (n - 2) * row.spacing,
                       q[k] - p[k] + row.extra + (0 if ctx.symbolic else 1e-6))
    ctx.true("every bar belongs to a row", used == set(range(len(pos))))
    ctx.true("no bar twice", all(abs(p[0] - q[0]) + abs(p[1] - q[1]) > 1e-9
                                 for i, p in enumerate(num) for q in num[:i]))


class Middle(Row):
    """a row between two walls, whose own bars may stand in for its ends"""


def straight(ring):
    """without corners in the middle of an edge"""

    def mid(a, b, c):
        x = (b[0] - a[0]) * (c[1] - b[1]) - (b[1] - a[1]) * (c[0] - b[0])
        return abs(x) < 1e-9 if isinstance(x, float) else not hasattr(x, "same") or x.same(0)

    n = len(ring)
    return [p for k, p in enumerate(ring) if not mid(ring[k - 1], p, ring[(k + 1) % n])]


class Areas:
    def __init__(self, f, many=False):
        self.f, self.many = f, many

    def __call__(self, num, c):
        return self.f(num, c)


def one(a):
    return Areas(lambda num, c: a)


def box(x0, y0, x1, y1):
    return [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]


# -- beams and columns


def bar_area(ctx, name, n):
    """area of a bar drawn with n corners, by its radius"""
    r = dim(ctx, f"{name} r", F(1, 100), F(7, 100))
    return r * r * cossin(ctx, F(2, n))[1] * n / 2


def beam_args(ctx, n):
    nt, nb = ctx.choice("n_top", [0, 1, 2, 3]), ctx.choice("n_bot", [1, 2, 4])
    side = ctx.choice("side", ["none", "cover only", "bars"])
    dt, db, ct, cb = dim(ctx, "dt", F(1, 10), 1), dim(ctx, "db", F(1, 10), 1), dim(ctx, "ct"), dim(ctx, "cb")
    kw = {"dia_top": dt, "area_top": bar_area(ctx, "at", n), "n_top": nt, "c_top": ct,
          "dia_bot": db, "area_bot": bar_area(ctx, "ab", n), "n_bot": nb, "c_bot": cb}
    cs = None
    if side != "none":
        cs = kw["c_side"] = dim(ctx, "cs")
    ns = 0
    if side == "bars":
        ns = kw["n_side"] = ctx.choice("n_side", [1, 2])
        kw["dia_side"], kw["area_side"] = dim(ctx, "ds", F(1, 10), 1), bar_area(ctx, "as", n)
    return kw, nt, nb, ns, dt, db, ct, cb, cs


def beam_rows(kw, nt, nb, ns, dt, db, ct, cb, cs, d, top, bot):
    """top = (x range of the top face), bot = (x range of the web)"""
    xt, xb = (cs if cs is not None else ct) + dt / 2, (cs if cs is not None else cb) + db / 2
    yt, yb = d - ct - dt / 2, cb + db / 2
    rows = {"top": Row((top[0] + xt, yt), (top[1] - xt, yt), n=nt),
            "bottom": Row((bot[0] + xb, yb), (bot[1] - xb, yb), n=nb)}
    if ns:
        xs = cs + kw["dia_side"] / 2
        h = (yt - yb) / (ns + 1)
        for name, x in (("left", bot[0] + xs), ("right", bot[1] - xs)):
            for k in range(ns):
                y = yb + h * (k + 1)
                rows[f"{name} {k}"] = Row((x, y), (x, y), n=1)
    return rows, yt, yb


def beam_areas(kw, yt, yb):
    def f(num, c):
        y = num(c[1])
        if abs(y - num(yt)) < 1e-7:
            return kw["area_top"]
        return kw["area_bot"] if abs(y - num(yb)) < 1e-7 else kw["area_side"]

    return Areas(f, True)


def rectangular(ctx, M):
    setup(ctx, M)
    kw = common(ctx, M)
    args = beam_args(ctx, kw["n_circle"])
    a, nt, nb, ns, dt, db, ct, cb, cs = args
    kw.update(a)
    b = 2 * ((cs if cs is not None else 0) + ct + cb + dt + db) + dim(ctx, "b")
    d = ct + cb + dt + db + dim(ctx, "d", F(1, 2))
    g = call(ctx, M.concrete_sections.concrete_rectangular_section, d=d, b=b, **kw)
    rows, yt, yb = beam_rows(*args, d, (0, b), (0, b))
    check(ctx, M, g, [[box(0, 0, b, d)]], rows, kw, beam_areas(kw, yt, yb))


def tee(ctx, M):
    setup(ctx, M)
    kw = common(ctx, M)
    args = beam_args(ctx, kw["n_circle"])
    a, nt, nb, ns, dt, db, ct, cb, cs = args
    kw.update(a)
    b = 2 * ((cs if cs is not None else 0) + ct + cb + dt + db) + dim(ctx, "b")
    bf = b + dim(ctx, "bf")
    df = ct + 2 * dt + dim(ctx, "df")
    d = df + cb + 2 * db + dim(ctx, "d", F(1, 2))
    g = call(ctx, M.concrete_sections.concrete_tee_section, d=d, b=b, d_f=df, b_f=bf, **kw)
    rows, yt, yb = beam_rows(*args, d, (-bf / 2, bf / 2), (-b / 2, b / 2))
    check(ctx, M, g, [[box(-b / 2, 0, b / 2, d - df)], [box(-bf / 2, d - df, bf / 2, d)]], rows, kw,
          beam_areas(kw, yt, yb))


def column(ctx, M):
    setup(ctx, M)
    kw = common(ctx, M)
    nx, ny, filled = ctx.choice("n_x", [2, 3, 4]), ctx.choice("n_y", [2, 3]), ctx.choice("filled", [False, True])
    c, dia, area = dim(ctx, "cover"), dim(ctx, "dia", F(1, 10), 1), bar_area(ctx, "area", kw["n_circle"])
    b, d = 2 * c + 2 * dia + dim(ctx, "b", F(1, 2)), 2 * c + 2 * dia + dim(ctx, "d", F(1, 2))
    g = call(ctx, M.concrete_sections.concrete_column_section, d=d, b=b, dia_bar=dia, area_bar=area,
             n_x=nx, n_y=ny, cover=c, filled=filled, **kw)
    e = c + dia / 2
    rows = {"bottom": Row((e, e), (b - e, e), n=nx), "top": Row((e, d - e), (b - e, d - e), n=nx),
            "left": Row((e, e), (e, d - e), n=ny), "right": Row((b - e, e), (b - e, d - e), n=ny)}
    if filled:
        for k in range(1, ny - 1):
            y = e + (d - 2 * e) * k / (ny - 1)
            rows[f"inner {k}"] = Row((e, y), (b - e, y), n=nx)
    check(ctx, M, g, [[box(0, 0, b, d)]], rows, kw, one(area))


def circular(ctx, M):
    setup(ctx, M)
    kw = common(ctx, M)
    n, nc = ctx.choice("n_bar", [2, 3, 4]), ctx.choice("n_conc", [4, 6])
    c, dia, area = dim(ctx, "cover"), dim(ctx, "dia", F(1, 10), 1), bar_area(ctx, "area", kw["n_circle"])
    rc = dim(ctx, "rc", 4, 6)
    cs, sn = cossin(ctx, F(2, nc))
    ac = rc * rc * sn * nc / 2
    d = 2 * c + 2 * dia + dim(ctx, "d", 1, 3)
    g = call(ctx, M.concrete_sections.concrete_circular_section, d=d, area_conc=ac, n_conc=nc,
             dia_bar=dia, area_bar=area, n_bar=n, cover=c, **kw)
    conc = [x for x in g.geoms if x.material is kw["conc_mat"]]
    bars = [x for x in g.geoms if x.material is kw["steel_mat"]]
    ctx.true("pieces", len(conc) == 1 and len(bars) == n and len(g.geoms) == n + 1)
    r = d / 2 - c - dia / 2
    want = [(r * cossin(ctx, F(2 * i, n))[0], r * cossin(ctx, F(2 * i, n))[1]) for i in range(n)]
    same_points(ctx, "bars", [centre(rings_of(x.geom)[0]) for x in bars], want)
    for i, x in enumerate(bars):
        ctx.eq(f"bar {i} area", x.geom.area, area)
    rs = rings_of(conc[0].geom)
    same_segments(ctx, "holes", ring_segments(rs[1:]), ring_segments([rings_of(x.geom)[0] for x in bars]))
    ctx.true("concrete corners", len(rs[0]) == nc)
    whole = M.primitive_sections.circular_section_by_area(area=ac, n=nc)  # see C17
    same_points(ctx, "concrete", rs[0], rings_of(whole.geom)[0])


def circular_refused(ctx, M):
    setup(ctx, M)
    n = ctx.choice("n_bar", [0, 1])
    try:
        call(ctx, M.concrete_sections.concrete_circular_section, d=dim(ctx, "d"), area_conc=50, n_conc=8,
             dia_bar=F(1, 10), area_bar=F(1, 100), n_bar=n, cover=F(1, 10))
    except ValueError:
        ctx.true("refused", True)
        return
    ctx.fail("fewer than two bars accepted")


def add_bar(ctx, M):
    setup(ctx, M)
    n = ctx.choice("n", [3, 4])
    cm, sm = mk_material(ctx, M, "c"), mk_material(ctx, M, "s")
    x, y, a = dim(ctx, "x", 3, 7), dim(ctx, "y", 3, 7), bar_area(ctx, "a", n)
    base = M.primitive_sections.rectangular_section(d=10, b=10, material=cm)
    g = call(ctx, M.concrete_sections.add_bar, geometry=base, area=a, material=sm, x=x, y=y, n=n)
    kw = {"conc_mat": cm, "steel_mat": sm, "n_circle": n}
    check(ctx, M, g, [[box(0, 0, 10, 10)]], {"bar": Row((x, y), (x, y), n=1)}, kw, one(a))


# -- walls and cores


class Wall:
    """the bars' data and lengths that need a chosen number of spacings"""

    wide = False
    layers = (True, False)

    def __init__(self, ctx, M):
        self.ctx, self.M = ctx, M
        setup(ctx, M)
        self.kw = common(ctx, M, (3,))
        wide = Wall.wide
        self.c = dim(ctx, "cover", F(1, 20), F(1, 2) if wide else F(1, 10))
        self.dia = dim(ctx, "dia", F(1, 20), F(1, 4) if wide else F(1, 10))
        self.s = dim(ctx, "spacing", 1 if wide else 2, 3)
        self.area = bar_area(ctx, "area", self.kw["n_circle"])
        self.double = ctx.choice("double", list(Wall.layers))
        self.e = self.c + self.dia / 2
        self.kw_all = {**self.kw, "dia_bar": self.dia, "area_bar": self.area, "spacing": self.s,
                       "cover": self.c, "double": self.double}

    def thick(self, name):
        """wall with room for two layers"""
        return 2 * self.e + 2 * self.dia + dim(self.ctx, name, F(1, 10), F(1, 2))

    def length(self, name, ks=(1, 2)):
        """a length with a chosen number of spacings"""
        k = self.ctx.choice(f"{name} k", list(ks) if Wall.wide else list(ks)[-1:])
        return self.s * (k - dim(self.ctx, f"{name} u", F(1, 20), F(19, 20)))

    def row(self, p, q, **k):
        return Row(p, q, spacing=self.s, **k)

    def run(self, fn, gross, rows, **dims):
        g = call(self.ctx, fn, **dims, **self.kw_all)
        check(self.ctx, self.M, g, gross, rows, self.kw, one(self.area))


def rectangular_wall(ctx, M):
    w = Wall(ctx, M)
    e, t, d = w.e, w.thick("t"), 2 * w.e + w.length("d", (1, 2, 3, 4))
    xs = [e, t - e] if w.double else [t / 2]
    rows = {f"face {i}": w.row((x, e), (x, d - e)) for i, x in enumerate(xs)}
    w.run(M.concrete_sections.rectangular_wall, [[box(0, 0, t, d)]], rows, d=d, t=t)


def cee_wall(ctx, M):
    w = Wall(ctx, M)
    e, tf, tw, s = w.e, w.thick("tf"), w.thick("tw"), w.row
    b, d = tw + e + w.length("b"), 2 * tf + w.length("d")
    if w.double:
        rows = {
            "outer bottom": s((e, e), (b - e, e)), "outer top": s((e, d - e), (b - e, d - e)),
            "outer left": s((e, e), (e, d - e)),
            "inner bottom": s((tw - e, tf - e), (b - e, tf - e)),
            "inner top": s((tw - e, d - tf + e), (b - e, d - tf + e)),
            "inner left": s((tw - e, tf - e), (tw - e, d - tf + e)),
        }
    else:
        rows = {
            "bottom": s((tw / 2, tf / 2), (b - e, tf / 2)),
            "top": s((tw / 2, d - tf / 2), (b - e, d - tf / 2)),
            "left": s((tw / 2, tf / 2), (tw / 2, d - tf / 2)),
        }
    gross = [(0, 0), (b, 0), (b, tf), (tw, tf), (tw, d - tf), (b, d - tf), (b, d), (0, d)]
    w.run(M.concrete_sections.cee_wall, [[gross]], rows, d=d, b=b, t_f=tf, t_w=tw)


def tee_wall(ctx, M):
    w = Wall(ctx, M)
    e, tf, tw, s = w.e, w.thick("tf"), w.thick("tw"), w.row
    b, d = tw + 2 * w.length("b"), tf + w.length("d")
    x0, x1 = (b - tw) / 2, (b + tw) / 2
    if w.double:
        yi = d - tf + e
        rows = {
            "outer": s((e, d - e), (b - e, d - e)),
            "inner left": s((e, yi), (x0 + e, yi)), "inner right": s((x1 - e, yi), (b - e, yi)),
            "stem left": s((x0 + e, e), (x0 + e, yi)), "stem right": s((x1 - e, e), (x1 - e, yi)),
        }
    else:
        rows = {
            "flange": s((e, d - tf / 2), (b - e, d - tf / 2)),
            "stem": s((b / 2, e), (b / 2, d - tf / 2), open_end=True),
        }
    gross = [(x0, 0), (x1, 0), (x1, d - tf), (b, d - tf), (b, d), (0, d), (0, d - tf), (x0, d - tf)]
    w.run(M.concrete_sections.tee_wall, [[gross]], rows, d=d, b=b, t_f=tf, t_w=tw)


def core_rows(w, b, d, t1, t2, right=()):
    """rows of the closed sides; ``right``: (name, lower, upper) pieces of the right side; a piece
    may end at an outer corner (None)"""
    e, s = w.e, w.row
    x, y = t2, t1
    if w.double:
        rows = {
            "outer bottom": s((e, e), (b - e, e)), "outer top": s((e, d - e), (b - e, d - e)),
            "outer left": s((e, e), (e, d - e)),
            "inner bottom": s((x - e, y - e), (b - x + e, y - e)),
            "inner top": s((x - e, d - y + e), (b - x + e, d - y + e)),
            "inner left": s((x - e, y - e), (x - e, d - y + e)),
        }
    else:
        rows = {
            "bottom": s((x / 2, y / 2), (b - x / 2, y / 2)),
            "top": s((x / 2, d - y / 2), (b - x / 2, d - y / 2)),
            "left": s((x / 2, y / 2), (x / 2, d - y / 2)),
        }
    for name, lo, hi in right:
        if w.double:
            rows[f"right outer {name}"] = s((b - e, e if lo is None else lo + e),
                                            (b - e, d - e if hi is None else hi - e), extra=2 * e)
            rows[f"right inner {name}"] = s(
                (b - x + e, y - e if lo is None else lo + e),
                (b - x + e, d - y + e if hi is None else hi - e))
        else:
            rows[f"right {name}"] = s((b - x / 2, y / 2 if lo is None else lo + e),
                                      (b - x / 2, d - y / 2 if hi is None else hi - e), extra=2 * e)
    return rows


def single_lift_core(ctx, M):
    w = Wall(ctx, M)
    t1, t2 = w.thick("t1"), w.thick("t2")
    leg = w.length("leg", (1,)) + 2 * w.e  # from the inner face to the door
    a = dim(ctx, "a", F(1, 2), 1)
    b, d = 2 * t2 + w.length("b"), 2 * t1 + 2 * leg + a
    y0, y1 = (d - a) / 2, (d + a) / 2
    rows = core_rows(w, b, d, t1, t2, [("lower", None, y0), ("upper", y1, None)])
    gross = [(0, 0), (b, 0), (b, y0), (b - t2, y0), (b - t2, t1), (t2, t1), (t2, d - t1),
             (b - t2, d - t1), (b - t2, y1), (b, y1), (b, d), (0, d)]
    w.run(M.concrete_sections.single_lift_core, [[gross]], rows, d=d, b=b, t1=t1, t2=t2, a=a)


def double_lift_core_a(ctx, M):
    w = Wall(ctx, M)
    t1, t2 = w.thick("t1"), w.thick("t2")
    nib = w.length("nib", (1,)) + 2 * w.e
    a1, a2 = dim(ctx, "a1", F(1, 2), 1), 2 * w.e + w.length("a2", (2, 1))
    b, d = 2 * t2 + w.length("b", (1,)), 2 * t1 + 2 * nib + 2 * a1 + a2
    p0, p1 = (d - a2) / 2, (d + a2) / 2
    rows = core_rows(w, b, d, t1, t2,
                     [("lower", None, t1 + nib), ("upper", d - t1 - nib, None), ("pier", p0, p1)])
    room = [(0, 0), (b, 0), (b, t1 + nib), (b - t2, t1 + nib), (b - t2, t1), (t2, t1), (t2, d - t1),
            (b - t2, d - t1), (b - t2, d - t1 - nib), (b, d - t1 - nib), (b, d), (0, d)]
    w.run(M.concrete_sections.double_lift_core_a, [[room], [box(b - t2, p0, b, p1)]], rows,
          d=d, b=b, t1=t1, t2=t2, a1=a1, a2=a2)


def double_lift_core_b(ctx, M):
    w = Wall(ctx, M)
    e, s = w.e, w.row
    t1, t2, t3 = w.thick("t1"), w.thick("t2"), w.thick("t3")
    nib = w.length("nib", (2, 1)) + 2 * e
    a = dim(ctx, "a", F(1, 2), 1)
    b, d = 2 * t2 + w.length("b", (1,)), 2 * t1 + 4 * nib + 2 * a + t3
    m0, m1 = (d - t3) / 2, (d + t3) / 2  # the middle wall
    p0, p1 = m0 - nib, m1 + nib  # the pier
    rows = core_rows(w, b, d, t1, t2, [("lower", None, t1 + nib), ("upper", d - t1 - nib, None)])
    if w.double:
        del rows["inner left"]
        for name, y in (("lower", m0 + e), ("upper", m1 - e)):
            rows[f"middle {name}"] = s((t2 - e, y), (b - t2 + e, y))
        rows["left lower"] = s((t2 - e, t1 - e), (t2 - e, m0 + e))
        rows["left upper"] = s((t2 - e, m1 - e), (t2 - e, d - t1 + e))
        rows["pier outer"] = s((b - e, p0 + e), (b - e, p1 - e))
        rows["pier inner lower"] = s((b - t2 + e, p0 + e), (b - t2 + e, m0 + e))
        rows["pier inner upper"] = s((b - t2 + e, m1 - e), (b - t2 + e, p1 - e))
    else:
        rows["pier"] = s((b - t2 / 2, p0 + e), (b - t2 / 2, p1 - e))
        rows["middle"] = Middle((t2 / 2, d / 2), (b - t2 / 2, d / 2), spacing=w.s)
    gross = [(0, 0), (b, 0), (b, t1 + nib), (b - t2, t1 + nib), (b - t2, t1), (t2, t1), (t2, m0),
             (b - t2, m0), (b - t2, p0), (b, p0), (b, p1), (b - t2, p1), (b - t2, m1), (t2, m1),
             (t2, d - t1), (b - t2, d - t1), (b - t2, d - t1 - nib), (b, d - t1 - nib), (b, d), (0, d)]
    w.run(M.concrete_sections.double_lift_core_b, [[gross]], rows, d=d, b=b, t1=t1, t2=t2, t3=t3, a=a)


def stairwell(ctx, M):
    w = Wall(ctx, M)
    e, s = w.e, w.row
    t1, t2 = w.thick("t1"), w.thick("t2")
    leg = w.length("leg") + 2 * e
    a = dim(ctx, "a", F(1, 2), 1)
    b, d = 2 * t2 + w.length("b"), 2 * t1 + leg + a
    y1 = t1 + leg
    rows = core_rows(w, b, d, t1, t2, [("lower", None, y1)])
    if w.double:
        rows["inner top"] = s((t2 - e, d - t1 + e), (b - e, d - t1 + e))
    gross = [(0, 0), (b, 0), (b, y1), (b - t2, y1), (b - t2, t1), (t2, t1), (t2, d - t1),
             (b, d - t1), (b, d), (0, d)]
    w.run(M.concrete_sections.stairwell, [[gross]], rows, d=d, b=b, t1=t1, t2=t2, a=a)


def refused(ctx, M):
    """openings larger than the room"""
    w = Wall(ctx, M)
    t = w.thick("t")
    x = dim(ctx, "x")
    kind = ctx.choice("kind", ["a", "b"])
    d = 2 * t + dim(ctx, "d", 3, 6)
    try:
        if kind == "a":
            a2 = dim(ctx, "a2", F(1, 2), 1)
            call(ctx, M.concrete_sections.double_lift_core_a, d=d, b=5, t1=t, t2=t,
                 a1=(d - 2 * t - a2) / 2 + x, a2=a2, **w.kw_all)
        else:
            t3 = w.thick("t3")
            call(ctx, M.concrete_sections.double_lift_core_b, d=d, b=5, t1=t, t2=t, t3=t3,
                 a=(d - 2 * t - t3) / 2 + x, **w.kw_all)
    except ValueError:
        ctx.true("refused", True)
        return
    ctx.fail("openings larger than the room accepted")


def with_ranges(fn, wide, layers=(True, False)):
    def run(ctx, M):
        Wall.wide, Wall.layers = wide, layers
        fn(ctx, M)

    return run


WALLS = [(rectangular_wall, 3), (cee_wall, 5), (tee_wall, 5), (single_lift_core, 8),
         (double_lift_core_a, 8), (double_lift_core_b, 9), (stairwell, 8), (refused, 1)]
HARNESSES = [
    (f.__name__, f, {**D, "cost": c}) for f, c in (
        (rectangular, 5), (tee, 5), (column, 4), (circular, 3), (circular_refused, 1), (add_bar, 1))
] + [
    (f"{f.__name__}{'_double' if two else '_single'}", with_ranges(f, False, (two,)),
     {**D, "cost": c + two, "budget_s": 600})
    for f, c in WALLS for two in (True, False)
] + [
    (f"{f.__name__}_wide", with_ranges(f, True),
     {**D, "cost": c, "tier": "thorough", "max_paths": 3000, "budget_s": 3000}) for f, c in WALLS
]
