"""Nastran, timber and bridge sections: the outline is the one the dimensions describe, dimensions
whose outline would cross itself are refused.

Nastran outlines are compared up to a translation (the documented position of the origin is not
claimed), with the dimension numbers as in the docstrings and the Nastran reference figures.
"""

from fractions import Fraction as F

from props.common import default_material, mk_material
from props.lib import check_outline, cossin, material, patch
from props.shapes import numeric, ring_segments, rings_of, same_points, same_segments, shapes

BOUNDS = ("every dimension in [0.1, 10], admissible or not; circles of 3, 4, 7 and 8 points; laminated timber of "
          "one to four layers with any thicknesses; bridge girders of every type, for any type dimensions "
          "and widths as well as for the tabulated ones")
ASSUMPTIONS = [
    "a polygon minus a polygon strictly inside it (and clear of its holes) is the polygon with "
    "one more hole",
    "the voids that stacked parts enclose (C10) are not examined",
]


def setup(ctx, M):
    def cut(a, b):
        from symx.core import SymError
        from symx.shapemodel import Polygon

        if b.interiors:
            raise SymError("difference with a shape with holes")
        return Polygon(a.exterior, [*a.interiors, b.exterior])

    def pick(poly):
        from symx.shapemodel import Point

        return Point(poly.exterior._p[0])

    def stacked(gs):
        """voids of stacked parts are the subject of C10; only the parts are claimed here"""
        from symx.shapemodel import Polygon

        return Polygon(gs[0].exterior)

    return shapes(ctx, M, difference=cut, representative=pick, union=stacked,
                  buffer=lambda g, *a, **k: g)


def rect(x0, y0, x1, y1):
    return [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]


def mirror_x(pts, w):
    """a left half (from bottom to top), completed by its mirror image about x = w/2"""
    return pts + [(w - x, y) for x, y in reversed(pts)]


def bar(a, b):
    return [rect(0, 0, a, b)], []


def box(a, b, c, d):
    return [rect(0, 0, a, b), rect(d, c, a - d, b - c)], [2 * d < a, 2 * c < b]


def box1(a, b, c, d, e, f):
    # the Nastran figure: dim_5 on the right, dim_6 on the left
    return [rect(0, 0, a, b), rect(f, d, a - e, b - c)], [e + f < a, c + d < b]


def chan(a, b, c, d):
    return [[(0, 0), (a, 0), (a, d), (c, d), (c, b - d), (a, b - d), (a, b), (0, b)]], [
        2 * d < b, c < a]


def chan1(a, b, c, d):
    t = (d - c) / 2
    w = a + b
    return [[(0, 0), (w, 0), (w, t), (b, t), (b, t + c), (w, t + c), (w, d), (0, d)]], [d > c]


def chan2(a, b, c, d):
    return [[(0, 0), (d, 0), (d, c), (d - a, c), (d - a, b), (a, b), (a, c), (0, c)]], [
        d > 2 * a, c > b]


def cross(a, b, c, d):
    x0, x1, w = a / 2, a / 2 + b, a + b
    y0, y1 = (c - d) / 2, (c + d) / 2
    return [[(x0, 0), (x1, 0), (x1, y0), (w, y0), (w, y1), (x1, y1), (x1, c), (x0, c), (x0, y1),
             (0, y1), (0, y0), (x0, y0)]], [d < c]


def fcross(a, b, c, d, e, f, g, h):
    # one quarter, from the right end of the horizontal web to the top of the vertical one
    q = [(b / 2, g / 2), (b / 2 - h, g / 2), (b / 2 - h, d / 2), (c / 2, d / 2),
         (c / 2, a / 2 - f), (e / 2, a / 2 - f), (e / 2, a / 2)]
    up = q + [(-x, y) for x, y in reversed(q)]
    return [up + [(x, -y) for x, y in reversed(up)]], [
        e > c, g > d, g < a, e < b, h < b / 2 - c / 2, f < a / 2 - d / 2,
        (e / 2 < b / 2 - h, g / 2 < a / 2 - f)]  # the flanges do not meet


def dbox(a, b, c, d, e, f, g, h, i, j):
    return [rect(0, 0, a, b), rect(d, h, c - e / 2, b - g), rect(c + e / 2, j, a - f, b - i)], [
        d + e / 2 < c, c + e / 2 + f < a, g + h < b, i + j < b]


def gbox(a, b, c, d, e, f):
    o = (a - f) / 2 - e  # flange overhang
    return [mirror_x([(0, 0), (0, d), (o, d), (o, b - c), (0, b - c), (0, b)], a),
            rect(o + e, d, o + e + f, b - c)], [c + d < b, 2 * e + f < a]


def h(a, b, c, d):
    t, w = b / 2, a + b
    y0, y1 = (c - d) / 2, (c + d) / 2
    return [[(0, 0), (t, 0), (t, y0), (w - t, y0), (w - t, 0), (w, 0), (w, c), (w - t, c),
             (w - t, y1), (t, y1), (t, c), (0, c)]], [d < c]


def hat_ring(a, b, c, d):
    w = 2 * d + c
    return [(0, 0), (d + b, 0), (d + b, a - b), (w - d - b, a - b), (w - d - b, 0), (w, 0), (w, b),
            (w - d, b), (w - d, a), (d, a), (d, b), (0, b)]


def hat(a, b, c, d):
    return [hat_ring(a, b, c, d)], [2 * b < a, 2 * b < c]


def hexa(a, b, c):
    return [[(a, 0), (b - a, 0), (b, c / 2), (b - a, c), (a, c), (0, c / 2)]], [b > 2 * a]


def i_sec(a, b, c, d, e, f):
    m = b / 2
    left = [(0, 0), (0, e), (m - d / 2, e), (m - d / 2, a - f), (m - c / 2, a - f), (m - c / 2, a)]
    return [mirror_x(left, b)], [e + f < a, d < c, d < b]


def i1(a, b, c, d):
    t, w = (d - c) / 2, a + b
    left = [(0, 0), (0, t), (a / 2, t), (a / 2, d - t), (0, d - t), (0, d)]
    return [mirror_x(left, w)], [d > c]


def angle(a, b, c, d):
    return [[(0, 0), (a, 0), (a, c), (d, c), (d, b), (0, b)]], [d < a, c < b]


def tee(a, b, c, d):
    left = [((a - d) / 2, 0), ((a - d) / 2, b - c), (0, b - c), (0, b)]
    return [mirror_x(left, a)], [d < a, c < b]


def tee1(a, b, c, d):
    y0, y1 = (a - d) / 2, (a + d) / 2
    return [[(0, 0), (c, 0), (c, a), (0, a), (0, y1), (-b, y1), (-b, y0), (0, y0)]], [d < a]


def tee2(a, b, c, d):
    left = [(0, 0), (0, c), ((a - d) / 2, c), ((a - d) / 2, b)]
    return [mirror_x(left, a)], [d < a, c < b]


def zed(a, b, c, d):
    t = (d - c) / 2
    return [[(a, 0), (2 * a + b, 0), (2 * a + b, t), (a + b, t), (a + b, d), (0, d), (0, d - t),
             (a, d - t)]], [d > c]


def shift_to(ctx, got, want):
    """the translation taking the expected outline to the section's, from its extreme points"""
    f = numeric(ctx)
    out = []
    for k in (0, 1):
        g = min((p[k] for r in got for p in r), key=f)
        w = min((p[k] for r in want for p in r), key=f)
        out.append(g - w)
    return out


def moved(rings, d):
    return [[(x + d[0], y + d[1]) for x, y in r] for r in rings]


def compare(ctx, label, g, rings, mat, scale=10):
    d = shift_to(ctx, rings_of(g.geom), rings)
    check_outline(ctx, label, g, moved(rings, d), mat, scale)


def attempt(ctx, fn, *a, **kw):
    try:
        return fn(*a, **kw)
    except ValueError:
        return None


def cond(ctx, cs):
    return ctx.all(*[ctx.any(*c) if isinstance(c, tuple) else c for c in cs])


def nastran(name, fn, n):
    def run(ctx, M):
        setup(ctx, M)
        kw, mat = material(ctx, M)
        dims = [ctx.pos(f"dim_{k + 1}", F(1, 10), 10) for k in range(n)]
        # as keywords: the argument's name, not its position, carries the meaning
        kw.update({f"dim_{k + 1}": v for k, v in enumerate(dims)})
        g = attempt(ctx, getattr(M.nastran_sections, f"nastran_{name}"), **kw)
        rings, ok = fn(*dims)
        ok = cond(ctx, ok) if ok else None
        if g is None:
            ctx.true(f"{name} refused only when inadmissible",
                     False if ok is None else ctx.neg(ok))
            return
        if ok is not None:
            ctx.true(f"{name} admissible when accepted", ok)
            ctx.assume(ok)
        compare(ctx, name, g, rings, mat)

    run.__name__ = name
    return run


def hat1(ctx, M):
    """a hat on top of a bottom plate, centred"""
    setup(ctx, M)
    kw, mat = material(ctx, M)
    a, b, c, d, e = [ctx.pos(f"dim_{k + 1}", F(1, 10), 10) for k in range(5)]
    kw.update(dim_1=a, dim_2=b, dim_3=c, dim_4=d, dim_5=e)
    g = attempt(ctx, M.nastran_sections.nastran_hat1, **kw)
    ok = cond(ctx, [2 * d + e < b, c < a, 2 * d < c])
    if g is None:
        ctx.true("hat1 refused only when inadmissible", ctx.neg(ok))
        return
    ctx.true("hat1 admissible when accepted", ok)
    ctx.assume(ok)
    ctx.true("two parts", len(g.geoms) == 2)
    if len(g.geoms) != 2:
        return
    want = [[[(x, y + e) for x, y in hat_ring(b - e, d, c, (a - c) / 2)]], [rect(0, 0, a, e)]]
    parts = sorted(g.geoms, key=lambda p: -len(rings_of(p.geom)[0]))
    sh = shift_to(ctx, [r for p in parts for r in rings_of(p.geom)], [r for w in want for r in w])
    for nm, p, w in zip(("hat", "plate"), parts, want):
        check_outline(ctx, nm, p, moved(w, sh), mat)


def circle(ctx, n, r):
    return [tuple(r * v for v in cossin(ctx, F(2 * i, n))) for i in range(n)]


def rod(ctx, M):
    setup(ctx, M)
    kw, mat = material(ctx, M)
    r, n = ctx.pos("dim_1", F(1, 10), 10), ctx.choice("n", [3, 4, 7, 8])
    g = M.nastran_sections.nastran_rod(dim_1=r, n=n, **kw)
    check_outline(ctx, "rod", g, [circle(ctx, n, r)], mat)


def tube(ctx, M):
    setup(ctx, M)
    kw, mat = material(ctx, M)
    a, b = ctx.pos("dim_1", F(1, 10), 10), ctx.pos("dim_2", F(1, 10), 10)
    n, form = ctx.choice("n", [3, 4, 7, 8]), ctx.choice("form", ["tube", "tube2"])
    g = attempt(ctx, getattr(M.nastran_sections, "nastran_" + form), dim_1=a, dim_2=b, n=n, **kw)
    if g is None:
        ctx.le(f"{form} refused only when inadmissible", a, b)
        return
    ctx.lt(f"{form} admissible when accepted", b, a)
    ctx.assume(b < a)
    check_outline(ctx, form, g, [circle(ctx, n, a), circle(ctx, n, b if form == "tube" else a - b)],
                  mat)


def clt(ctx, M):
    """layers from the top down, in the given order"""
    setup(ctx, M)
    n = ctx.choice("layers", [1, 2, 3, 4])
    ds = [ctx.pos(f"d{k}", F(1, 10), 10) for k in range(n)]
    b = ctx.pos("b", F(1, 10), 10)
    two = [mk_material(ctx, M, "m0"), mk_material(ctx, M, "m1")]
    pat = ctx.choice("materials", ["alternating", "pairs", "same"])
    mats = [two[{"alternating": k % 2, "pairs": (k + 1) // 2 % 2, "same": 0}[pat]]
            for k in range(n)]
    if n > 1 and pat == "pairs":
        mats[-1] = mk_material(ctx, M, "m2")
    g = M.timber_sections.clt_rectangular_section(d=ds, layer_mat=mats, b=b)
    ctx.true("number of layers", len(g.geoms) == n)
    if len(g.geoms) != n:
        return
    f = numeric(ctx)
    layers = sorted(g.geoms, key=lambda p: -max(f(y) for _, y in rings_of(p.geom)[0]))
    top = 0
    for k, p in enumerate(layers):
        check_outline(ctx, f"layer {k}", p, [rect(0, top - ds[k], b, top)], mats[k], scale=40)
        top = top - ds[k]


SUPER_T = {1: (675, 240, 100), 2: (925, 240, 100), 3: (1125, 260, 100), 4: (1425, 260, 100),
           5: (1725, 325, 120)}
I_GIRDER = {1: (200, 300, 120, 100, 40, 420, 90, 100), 2: (350, 450, 150, 100, 100, 450, 150, 100),
            3: (450, 500, 150, 130, 150, 545, 175, 150),
            4: (500, 650, 150, 150, 175, 650, 250, 175)}


def tables(ctx, M):
    """the tabulated dimensions of every girder type"""
    B = M.bridge_sections
    for k, v in SUPER_T.items():
        ctx.true(f"super T{k}", tuple(B.get_super_t_girder_dims(girder_type=k)) == v)
    for k, v in I_GIRDER.items():
        ctx.true(f"I girder T{k}", tuple(B.get_i_girder_dims(girder_type=k)) == v)


def refused_types(ctx, M):
    B = M.bridge_sections
    setup(ctx, M)
    k = ctx.choice("type", [-1, 0, 1, 2, 3, 4, 5, 6])
    s = ctx.choice("subtype", [0, 1, 2, 3])
    g = attempt(ctx, B.super_t_girder_section, girder_type=k, girder_subtype=s)
    ctx.true(f"super T {k}/{s}", (g is not None) == (1 <= k <= 5 and s in (1, 2)
                                                     and not (k == 5 and s == 1)))
    if s == 2:
        g = attempt(ctx, B.i_girder_section, girder_type=k)
        ctx.true(f"I girder {k}", (g is not None) == (1 <= k <= 4))


def i_girder(ctx, M):
    """the outline follows whatever dimensions the type has"""
    setup(ctx, M)
    kw, mat = material(ctx, M)
    B = M.bridge_sections
    k = ctx.choice("type", [1, 2, 3, 4, "any"])
    if k == "any":
        names = ["b_tf", "b_bf", "b_w", "h_tf", "h_ts", "h_w", "h_bs", "h_bf"]
        dims = tuple(ctx.pos(n, F(1, 10), 10) for n in names)
        ctx.assume(dims[2] < dims[0])
        ctx.assume(dims[2] < dims[1])
        old = B.get_i_girder_dims
        B.get_i_girder_dims = lambda *a, **kk: dims
        try:
            g = B.i_girder_section(girder_type=1, **kw)
        finally:
            B.get_i_girder_dims = old
        scale = 10
    else:
        dims, scale = I_GIRDER[k], 1000
        g = B.i_girder_section(girder_type=k, **kw)
    tf, bf, w, htf, hts, hw, hbs, hbf = dims
    left, y = [], 0
    for half, drop in ((tf, 0), (tf, htf), (w, hts), (w, hw), (bf, hbs), (bf, hbf)):
        y = y - drop
        left.append((-half * F(1, 2), y))
    check_outline(ctx, "I girder", g, [mirror_x(left, 0)], mat, scale=scale)


def super_t(ctx, M):
    """overall width and depth, symmetry, flange and floor thickness, web thickness"""
    setup(ctx, M)
    kw, mat = material(ctx, M)
    B = M.bridge_sections
    k = ctx.choice("type", [1, 2, 3, 4, 5])
    s = ctx.choice("subtype", [1, 2] if k < 5 else [2])
    d, tb, tw = SUPER_T[k]
    w, tf = ctx.real("w", 1400, 3000), ctx.real("t_f", 50, 150)
    if ctx.choice("web", ["default", "given"]) == "given":
        tw = ctx.real("t_w", 80, 150)
        kw["t_w"] = tw
    given = ctx.choice("flange", ["default", "given"])
    if given == "given":
        kw.update(w=w, t_f=tf)
    else:
        w, tf = 2100, 75
    sub = {} if s == 2 and ctx.choice("subtype given", [True, False]) else {"girder_subtype": s}
    g = B.super_t_girder_section(girder_type=k, **sub, **kw)
    ctx.true("material", g.material is mat)
    rings = rings_of(g.geom)
    ctx.true("one outline", len(rings) == 1)
    f = numeric(ctx)
    r = rings[0]
    e, sc = ring_segments(rings), 1000
    same_segments(ctx, "symmetric", e, ring_segments([[(-x, y) for x, y in r]]), sc)
    same_points(ctx, "points", g.points, r, sc)
    xs, ys = [p[0] for p in r], [p[1] for p in r]
    for nm, v, want in (("right", max(xs, key=f), w / 2), ("left", min(xs, key=f), -w / 2),
                        ("top", max(ys, key=f), tf), ("soffit", min(ys, key=f), -d)):
        ctx.eq(nm, v, want, scale=sc)
    for i, x in enumerate(xs):
        ctx.le(f"within the width {i}", x, w / 2 + F(1, 10**6))
        ctx.le(f"within the depth {i}", -d - F(1, 10**6), ys[i])
        ctx.le(f"below the top {i}", ys[i], tf + F(1, 10**6))
    # the trough's floor on the centre line
    mid = [p for p in r if abs(f(p[0])) < 1e-6]
    ctx.true("a floor point", len(mid) == 1)
    if len(mid) == 1:
        ctx.eq("floor thickness", mid[0][1] + d, tb, scale=sc)
    # web faces of the right half: both at 1 in 10.556, t_w apart
    nom, sl = F(1027 if s == 2 else 920, 2), F(10556, 1000)
    faces = [sg for sg in e if all(f(p[0]) > 1 for p in sg)
             and abs(f(sg[1][1]) - f(sg[0][1])) > 300
             and 8 < abs((f(sg[1][1]) - f(sg[0][1])) / (f(sg[1][0]) - f(sg[0][0]) or 1e-9)) < 13]
    ctx.true("two web faces", len(faces) == 2)
    if len(faces) != 2:
        return
    faces.sort(key=lambda sg: f(sg[0][0]) - f(sg[0][1]) / float(sl))
    for nm, ((x0, y0), (x1, y1)) in zip(("inner", "outer"), faces):
        ctx.eq(f"{nm} web face slope", y1 - y0, sl * (x1 - x0), scale=sc)
    at = [x0 - y0 / sl for (x0, y0), _ in faces]
    ctx.eq("outer web face at the flange's underside", at[1], nom, scale=sc)
    hyp = ctx.sqrt(1 + sl * sl)
    ctx.le("web thickness", (at[1] - at[0]) * sl, tw * hyp + F(1, 10**5))
    ctx.le("web thickness at least", tw * hyp - F(1, 10**5), (at[1] - at[0]) * sl)
    if len(mid) == 1:  # the trough's floor rises from the centre line to the inner web face
        x0, y0 = min(faces[0], key=lambda p: f(p[1]))
        ctx.eq("floor slope", (y0 - mid[0][1]) * (F(5347, 1000) if s == 2 else 5), x0, scale=sc)
    # soffit corner chamfered by 13 mm, meeting the outer face's line
    low = sorted({round(f(p[0]), 6): p for p in r if abs(f(p[1]) + d) < 1e-6}.items())
    ctx.true("flat soffit", len(low) == 2)
    if len(low) == 2:
        ctx.eq("soffit width", low[1][1][0] - low[0][1][0], 2 * (nom - d / sl - 13), scale=sc)


NAS = [("bar", bar, 2), ("box", box, 4), ("box1", box1, 6), ("chan", chan, 4), ("chan1", chan1, 4),
       ("chan2", chan2, 4), ("cross", cross, 4), ("fcross", fcross, 8), ("dbox", dbox, 10),
       ("gbox", gbox, 6), ("h", h, 4), ("hat", hat, 4), ("hexa", hexa, 3), ("i", i_sec, 6),
       ("i1", i1, 4), ("l", angle, 4), ("tee", tee, 4), ("tee1", tee1, 4), ("tee2", tee2, 4),
       ("zed", zed, 4)]
P = {"patch": patch}
HARNESSES = [(n, nastran(n, f, k), P) for n, f, k in NAS] + [
    (f.__name__, f, P) for f in (hat1, rod, tube, clt, tables, refused_types, i_girder, super_t)]
