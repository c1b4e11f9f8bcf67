"""Primitive and steel library sections: the outline is exactly the one the dimensions describe."""

from fractions import Fraction as F

from props.shapes import numeric, rings_of
from props.lib import (
    DOWN, LEFT, RIGHT, UP, check_outline, cossin, dim, material, outline, patch, setup,
)

BOUNDS = ("every dimension in [0.1, 10] above the smallest value that fits, radii zero or "
          "positive, two to four points per arc (circles: three to eight points); lips longer than both the wall and the corner "
          "radius, within the corner, or not longer than both the wall and the radius")
ASSUMPTIONS = [
    "a polygon minus a polygon inside it is the outer ring with a hole",
]
NR = [2, 3]


def mk(fn):
    """harness: build the section, compare"""
    def run(ctx, M):
        setup(ctx, M)
        kw, mat = material(ctx, M)
        g, rings = fn(ctx, M, kw)
        if rings is not None:
            check_outline(ctx, fn.__name__, g, rings, mat)
        ctx.true("material", g.material is mat)

    run.__name__ = fn.__name__
    return run


def radius(ctx, name, hi=10):
    """zero or positive"""
    return ctx.choice(f"{name}?", [0, 1]) and dim(ctx, name, F(1, 10), hi)


def circle(ctx, n, rx, ry=None):
    ry = rx if ry is None else ry
    out = []
    for i in range(n):
        c, s = cossin(ctx, F(2 * i, n))
        out.append((rx * c, ry * s))
    return out


def rectangular(ctx, M, kw):
    d, b = dim(ctx, "d"), dim(ctx, "b")
    return M.primitive_sections.rectangular_section(d=d, b=b, **kw), [[(0, 0), (b, 0), (b, d), (0, d)]]


def circular(ctx, M, kw):
    d, n = dim(ctx, "d"), ctx.choice("n", [3, 4, 7, 8])
    return M.primitive_sections.circular_section(d=d, n=n, **kw), [circle(ctx, n, d / 2)]


def elliptical(ctx, M, kw):
    dx, dy, n = dim(ctx, "dx"), dim(ctx, "dy"), ctx.choice("n", [3, 4, 7, 8])
    return (M.primitive_sections.elliptical_section(d_x=dx, d_y=dy, n=n, **kw),
            [circle(ctx, n, dx / 2, dy / 2)])


def triangular(ctx, M, kw):
    b, h = dim(ctx, "b"), dim(ctx, "h")
    return M.primitive_sections.triangular_section(b=b, h=h, **kw), [[(0, 0), (b, 0), (0, h)]]


def triangular_radius(ctx, M, kw):
    b, n = dim(ctx, "b"), ctx.choice("n", [2, 3, 4])
    arc = []
    for k in range(n):  # quarter circle about (b, b) from (b, 0) to (0, b)
        c, s = cossin(ctx, F(k, 2 * (n - 1)))
        arc.append((b - b * s, b - b * c))
    return (M.primitive_sections.triangular_radius_section(b=b, n_r=n, **kw), [[(0, 0), *arc]])


def cruciform(ctx, M, kw):
    t, r, n = dim(ctx, "t"), radius(ctx, "r"), ctx.choice("n", NR)
    d, b = t + 2 * r + dim(ctx, "d"), t + 2 * r + dim(ctx, "b")
    path = [(-t / 2, -d / 2), (t / 2, -d / 2), (t / 2, -t / 2, r, UP, RIGHT), (b / 2, -t / 2),
            (b / 2, t / 2), (t / 2, t / 2, r, LEFT, UP), (t / 2, d / 2), (-t / 2, d / 2),
            (-t / 2, t / 2, r, DOWN, LEFT), (-b / 2, t / 2), (-b / 2, -t / 2),
            (-t / 2, -t / 2, r, RIGHT, DOWN)]
    return (M.primitive_sections.cruciform_section(d=d, b=b, t=t, r=r, n_r=n, **kw),
            [outline(ctx, path, n)])


def chs(ctx, M, kw):
    t, n = dim(ctx, "t"), ctx.choice("n", [3, 4, 7, 8])
    d = 2 * t + dim(ctx, "d")
    return (M.steel_sections.circular_hollow_section(d=d, t=t, n=n, **kw),
            [circle(ctx, n, d / 2), circle(ctx, n, d / 2 - t)])


def ehs(ctx, M, kw):
    t, n = dim(ctx, "t"), ctx.choice("n", [3, 4, 7, 8])
    dx, dy = 2 * t + dim(ctx, "dx"), 2 * t + dim(ctx, "dy")
    return (M.steel_sections.elliptical_hollow_section(d_x=dx, d_y=dy, t=t, n=n, **kw),
            [circle(ctx, n, dx / 2, dy / 2), circle(ctx, n, dx / 2 - t, dy / 2 - t)])


def rhs(ctx, M, kw):
    t, n = dim(ctx, "t"), ctx.choice("n", NR)
    r_out = ctx.choice("rout?", [0, 1]) and dim(ctx, "rout")
    form = ctx.choice("form", ["plain", "t_w", "r_in", "both"])
    tw = dim(ctx, "tw") if form in ("t_w", "both") else t
    r_in = None
    if form in ("r_in", "both"):
        r_in = ctx.choice("rin?", [0, 1]) and dim(ctx, "rin")
    if r_in is not None:
        kw["r_in"], ri = r_in, r_in
    else:
        # concentric corners where the thicker wall allows it
        thick = tw if bool(tw > t) else t
        ri = r_out - thick if bool(r_out > thick) else 0
    if form in ("t_w", "both"):
        kw["t_w"] = tw
    d = 2 * t + 2 * r_out + 2 * (ri if r_in is not None else 0) + dim(ctx, "d")
    b = 2 * tw + 2 * r_out + 2 * (ri if r_in is not None else 0) + dim(ctx, "b")

    def box(x0, y0, x1, y1, r):
        return [(x0, y0, r, DOWN, RIGHT), (x1, y0, r, RIGHT, UP), (x1, y1, r, UP, LEFT),
                (x0, y1, r, LEFT, DOWN)]

    return (M.steel_sections.rectangular_hollow_section(d=d, b=b, t=t, r_out=r_out, n_r=n, **kw),
            [outline(ctx, box(0, 0, b, d, r_out), n),
             outline(ctx, box(tw, t, b - tw, d - t, ri), n)])


def i_sec(ctx, M, kw):
    tf, tw, r, n = dim(ctx, "tf"), dim(ctx, "tw"), radius(ctx, "r"), ctx.choice("n", NR)
    d, b = 2 * tf + 2 * r + dim(ctx, "d"), tw + 2 * r + dim(ctx, "b")
    return (M.steel_sections.i_section(d=d, b=b, t_f=tf, t_w=tw, r=r, n_r=n, **kw),
            [i_path(ctx, d, b, b, tf, tf, tw, r, n)])


def i_path(ctx, d, bt, bb, tft, tfb, tw, r, n):
    c = bt / 2 if bool(bt >= bb) else bb / 2
    path = [(c - bb / 2, 0), (c + bb / 2, 0), (c + bb / 2, tfb),
            (c + tw / 2, tfb, r, LEFT, UP), (c + tw / 2, d - tft, r, UP, RIGHT),
            (c + bt / 2, d - tft), (c + bt / 2, d), (c - bt / 2, d), (c - bt / 2, d - tft),
            (c - tw / 2, d - tft, r, RIGHT, DOWN), (c - tw / 2, tfb, r, DOWN, LEFT),
            (c - bb / 2, tfb)]
    return outline(ctx, path, n)


def mono_i(ctx, M, kw):
    tft, tfb, tw = dim(ctx, "tft"), dim(ctx, "tfb"), dim(ctx, "tw")
    r, n = radius(ctx, "r"), ctx.choice("n", NR)
    d = tft + tfb + 2 * r + dim(ctx, "d")
    bt, bb = tw + 2 * r + dim(ctx, "bt"), tw + 2 * r + dim(ctx, "bb")
    return (M.steel_sections.mono_i_section(d=d, b_t=bt, b_b=bb, t_ft=tft, t_fb=tfb, t_w=tw, r=r,
                                            n_r=n, **kw),
            [i_path(ctx, d, bt, bb, tft, tfb, tw, r, n)])


def channel(ctx, M, kw):
    tf, tw, r, n = dim(ctx, "tf"), dim(ctx, "tw"), radius(ctx, "r"), ctx.choice("n", NR)
    d, b = 2 * tf + 2 * r + dim(ctx, "d"), tw + r + dim(ctx, "b")
    path = [(0, 0), (b, 0), (b, tf), (tw, tf, r, LEFT, UP), (tw, d - tf, r, UP, RIGHT),
            (b, d - tf), (b, d), (0, d)]
    return (M.steel_sections.channel_section(d=d, b=b, t_f=tf, t_w=tw, r=r, n_r=n, **kw),
            [outline(ctx, path, n)])


def tee(ctx, M, kw):
    tf, tw, r, n = dim(ctx, "tf"), dim(ctx, "tw"), radius(ctx, "r"), ctx.choice("n", NR)
    d, b = tf + r + dim(ctx, "d"), tw + 2 * r + dim(ctx, "b")
    c = b / 2
    path = [(c - tw / 2, 0), (c + tw / 2, 0), (c + tw / 2, d - tf, r, UP, RIGHT), (b, d - tf),
            (b, d), (0, d), (0, d - tf), (c - tw / 2, d - tf, r, RIGHT, DOWN)]
    return (M.steel_sections.tee_section(d=d, b=b, t_f=tf, t_w=tw, r=r, n_r=n, **kw),
            [outline(ctx, path, n)])


def angle(ctx, M, kw):
    n, rr = ctx.choice("n", NR), radius(ctx, "rr")
    toe = ctx.choice("toe", ["sharp", "round", "full"])
    rt = 0 if toe == "sharp" else dim(ctx, "rt")
    t = rt if toe == "full" else rt + dim(ctx, "t")
    d, b = t + rt + rr + dim(ctx, "d"), t + rt + rr + dim(ctx, "b")
    path = [(0, 0), *([(b, 0)] if toe != "full" else []), (b, t, rt, UP, LEFT),
            (t, t, rr, LEFT, UP), (t, d, rt, UP, LEFT), *([(0, d)] if toe != "full" else [])]
    return (M.steel_sections.angle_section(d=d, b=b, t=t, r_r=rr, r_t=rt, n_r=n, **kw),
            [outline(ctx, path, n)])


def angle_refused(ctx, M):
    setup(ctx, M)
    t = dim(ctx, "t")
    try:
        M.steel_sections.angle_section(d=50, b=50, t=t, r_r=1, r_t=t + dim(ctx, "x"), n_r=2)
    except ValueError:
        ctx.true("refused", True)
        return
    ctx.fail("toe radius larger than the thickness accepted")


def lip(ctx, r, t):
    """lip length of each kind: none, within the corner, beyond it"""
    kinds = ["none", "straight"] + (["corner"] if not isinstance(r, int) else [])
    k = ctx.choice("lip", kinds)
    if k == "none":
        x = ctx.choice("l?", ["zero", "positive", "largest"])
        m = r if not bool(r >= t) else t
        return (0 if x == "zero" or isinstance(r, int) else m if x == "largest"
                else part_of(ctx, "lt", m)), k
    if k == "corner":
        ctx.assume(r > t + F(1, 100))
        if ctx.choice("l at r", [False, True]):
            return r, k
        return t + part_of(ctx, "l", r - t), k
    m = r if bool(r >= t) else t
    return m + dim(ctx, "l"), k


def part_of(ctx, name, v):
    return v * ctx.pos(f"{name} share", F(1, 10), F(9, 10))


def cee_like(ctx):
    t, n = dim(ctx, "t"), ctx.choice("n", NR)
    r = radius(ctx, "r")
    l, kind = lip(ctx, r, t)
    ri = r - t if bool(r > t) else 0
    ro_l, ri_l = (r, ri) if kind == "straight" else (l, l - t) if kind == "corner" else (0, 0)
    return t, n, r, l, kind, ri, ro_l, ri_l


def cee(ctx, M, kw):
    t, n, r, l, kind, ri, rol, ril = cee_like(ctx)
    b, d = 2 * t + 2 * r + 2 * ri + dim(ctx, "b"), 2 * t + 2 * r + 2 * l + dim(ctx, "d")
    bot = [(b, 0, rol, RIGHT, UP), *([(b, l), (b - t, l)] if kind == "straight" else []),
           (b - t, t, ril, DOWN, LEFT)]
    top = [(b - t, d - t, ril, RIGHT, DOWN),
           *([(b - t, d - l), (b, d - l)] if kind == "straight" else []), (b, d, rol, UP, LEFT)]
    if kind == "none":
        bot, top = [(b, 0), (b, t)], [(b, d - t), (b, d)]
    path = [(0, 0, r, DOWN, RIGHT), *bot, (t, t, ri, LEFT, UP), (t, d - t, ri, UP, RIGHT), *top,
            (0, d, r, LEFT, DOWN)]
    return (M.steel_sections.cee_section(d=d, b=b, l=l, t=t, r_out=r, n_r=n, **kw),
            [outline(ctx, path, n)])


def zed(ctx, M, kw):
    t, n, r, l, kind, ri, rol, ril = cee_like(ctx)
    br, d = 2 * t + 2 * r + 2 * ri + dim(ctx, "br"), 2 * t + 2 * r + 2 * l + dim(ctx, "d")
    bl = 2 * t + 2 * r + 2 * ri + dim(ctx, "bl")
    x = t - bl  # left end of the upper flange
    bot = [(br, 0, rol, RIGHT, UP), *([(br, l), (br - t, l)] if kind == "straight" else []),
           (br - t, t, ril, DOWN, LEFT)]
    top = [(x, d, rol, LEFT, DOWN), *([(x, d - l), (x + t, d - l)] if kind == "straight" else []),
           (x + t, d - t, ril, UP, RIGHT)]
    if kind == "none":
        bot, top = [(br, 0), (br, t)], [(x, d), (x, d - t)]
    path = [(0, 0, r, DOWN, RIGHT), *bot, (t, t, ri, LEFT, UP), (t, d, r, UP, LEFT), *top,
            (0, d - t, ri, RIGHT, DOWN)]
    return (M.steel_sections.zed_section(d=d, b_l=bl, b_r=br, l=l, t=t, r_out=r, n_r=n, **kw),
            [outline(ctx, path, n)])


def by_area(ctx, M, kw):
    a, n = dim(ctx, "area"), ctx.choice("n", [3, 4, 6, 7, 12])
    g = M.primitive_sections.circular_section_by_area(area=a, n=n, **kw)
    ctx.eq("area", g.geom.area, a)
    f = numeric(ctx)
    r = max((f(p[0]), i) for i, p in enumerate(g.points))[1]
    r = g.points[r][0]  # some radius: the circle is regular and has the area
    ctx.le("positive radius", 0, r)
    return g, [circle(ctx, n, r)]


def arc_about(ctx, o, r, first, sweep, n, s=1):
    """n points about o from the unit vector ``first`` through ``sweep``(k/(n-1)) -> (cos, sin)"""
    if isinstance(r, int) and r == 0:
        return None
    out = []
    for k in range(n):
        c, sn = sweep(k)
        out.append((o[0] + r * (first[0] * c - s * first[1] * sn),
                    o[1] + r * (first[1] * c + s * first[0] * sn)))
    return out


def polygon_hollow(ctx, M, kw):
    ns = ctx.choice("n_sides", [3, 4, 5, 6])
    rounded = ctx.choice("rounded", [False, True])
    t = dim(ctx, "t")
    cc, sc = cossin(ctx, F(1, ns))  # half the angle of a side
    a_in = dim(ctx, "a_in")
    a_out = a_in + t
    rot = ctx.angle_deg("rot") if ctx.choice("rot?", [False, True]) else None
    n, ri, clip = 1, 0, False
    if rounded:
        n = ctx.choice("n_r", NR)
        kw["n_r"] = n
        clip = ctx.choice("r_in", ["below", "above"]) == "above"
        ri = a_in if clip else part_of(ctx, "r_in", a_in)
        kw["r_in"] = a_in + dim(ctx, "extra") if clip else ri
    if rot is not None:
        kw["rot"] = rot
        c0, s0 = ctx.cos(rot * ctx.pi / 180), ctx.sin(rot * ctx.pi / 180)
    else:
        c0, s0 = 1, 0
    g = M.steel_sections.polygon_hollow_section(d=2 * a_out / cc, t=t, n_sides=ns, **kw)
    rings = []
    if clip:
        fully_round(ctx, g, ns, n, a_out, a_in, c0, s0)
        return g, None
    for a, r in ((a_out, ri + t if rounded else 0), (a_in, ri)):
        pts = []
        for i in range(ns):
            for k in range(n):
                # centre of the corner's arc, on the bisector at -90 + (i + 1/2) sides
                bc, bs = cossin(ctx, F(-1, 2) + F(2 * i + 1, ns))
                h = (a - r) / cc
                u = F(k, n - 1) if n > 1 else F(1, 2)
                pc, ps = cossin(ctx, F(-1, 2) + F(2 * i, ns) + u * F(2, ns))
                x, y = h * bc + r * pc, h * bs + r * ps
                pts.append((c0 * x - s0 * y, s0 * x + c0 * y))
        rings.append(pts)
    return g, rings


def fully_round(ctx, g, ns, n, a_out, a_in, c0, s0):
    """corners so round that no straight side is left: two circles"""
    rings = rings_of(g.geom)
    ctx.true("two rings", len(rings) == 2)
    f = numeric(ctx)
    for name, ring, r in zip(("outer", "inner"), rings, (a_out, a_in)):
        for i, p in enumerate(ring):
            ctx.eq(f"{name} {i} on the circle", p[0] * p[0] + p[1] * p[1], r * r)
        for i in range(ns * (n - 1)):
            c, s = cossin(ctx, F(-1, 2) + F(2 * i, ns * (n - 1)))
            w = (r * (c0 * c - s0 * s), r * (s0 * c + c0 * s))
            q = min(ring, key=lambda p: abs(f(p[0]) - f(w[0])) + abs(f(p[1]) - f(w[1])))
            ctx.eq(f"{name} {i}.x", q[0], w[0], scale=1)
            ctx.eq(f"{name} {i}.y", q[1], w[1], scale=1)


def polygon_refused(ctx, M):
    setup(ctx, M)
    n = ctx.choice("n_sides", [0, 1, 2])
    try:
        M.steel_sections.polygon_hollow_section(d=dim(ctx, "d"), t=F(1, 100), n_sides=n)
    except ValueError:
        ctx.true("refused", True)
        return
    ctx.fail("fewer than three sides accepted")


def taper(ctx):
    """n, cos, sin of the slope and of the k-th share of its complement; degrees"""
    n = ctx.choice("n", NR)
    if ctx.choice("level", [False, True]):
        al, cs, sn = 0, lambda j: 1, lambda j: 0
    else:
        base = ctx.angle("slope", F(1, 100), F(1, 4))
        al = base * (n - 1) * 180 / ctx.pi
        cs, sn = (lambda j: ctx.cos(base * j)), (lambda j: ctx.sin(base * j))
        ctx.assume(cs(n - 1) >= F(1, 2))

    def sweep(k):
        # share k/(n-1) of (90 degrees - slope)
        c, s = cossin(ctx, F(k, 2 * (n - 1)))
        return c * cs(k) + s * sn(k), s * cs(k) - c * sn(k)

    return n, al, cs(n - 1), sn(n - 1), sweep


def tapered(ctx, x_web, x_tip, tf, rf, rr, n, ca, sa, sweep):
    """the sloped upper side of a lower flange, from tip to web (web to the left)"""
    xm = (x_web + x_tip) / 2
    ta = sa / ca

    def h(x):
        return tf - (x - xm) * ta

    pts = []
    o = (x_tip - rf, h(x_tip - rf) - rf / ca)
    pts += arc_about(ctx, o, rf, (1, 0), sweep, n) or [(x_tip, h(x_tip))]
    o = (x_web + rr, h(x_web + rr) + rr / ca)
    pts += arc_about(ctx, o, rr, (-sa, -ca), sweep, n, -1) or [(x_web, h(x_web))]
    return pts


def taper_dims(ctx):
    n, al, ca, sa, sweep = taper(ctx)
    tw, rf, rr = dim(ctx, "tw"), radius(ctx, "rf", 2), radius(ctx, "rr", 2)
    flange = rf + rr + dim(ctx, "flange")
    ta = sa / ca
    tf = flange / 2 * ta + rf / ca + dim(ctx, "tf")
    d = 2 * tf + flange * ta + 2 * rr / ca + dim(ctx, "d")
    return n, al, ca, sa, sweep, tw, rf, rr, flange, tf, d


def tapered_i(ctx, M, kw):
    n, al, ca, sa, sweep, tw, rf, rr, fl, tf, d = taper_dims(ctx)
    b = tw + 2 * fl
    low = tapered(ctx, b / 2 + tw / 2, b, tf, rf, rr, n, ca, sa, sweep)
    up = [(x, d - y) for x, y in low[::-1]]
    right = [(b, 0), *low, *up, (b, d)]
    return (M.steel_sections.tapered_flange_i_section(
        d=d, b=b, t_f=tf, t_w=tw, r_r=rr, r_f=rf, alpha=al, n_r=n, **kw),
        [right + [(b - x, y) for x, y in right[::-1]]])


def tapered_channel(ctx, M, kw):
    n, al, ca, sa, sweep, tw, rf, rr, fl, tf, d = taper_dims(ctx)
    b = tw + fl
    low = tapered(ctx, tw, b, tf, rf, rr, n, ca, sa, sweep)
    up = [(x, d - y) for x, y in low[::-1]]
    return (M.steel_sections.tapered_flange_channel(
        d=d, b=b, t_f=tf, t_w=tw, r_r=rr, r_f=rf, alpha=al, n_r=n, **kw),
        [[(0, 0), (b, 0), *low, *up, (b, d), (0, d)]])


def box_girder(ctx, M, kw):
    bt, tw = dim(ctx, "bt"), dim(ctx, "tw", F(1, 10), 1)
    same = ctx.choice("bb?", ["equal", "other"])
    bb = bt if same == "equal" else dim(ctx, "bb")
    if same == "other":
        ctx.assume(ctx.any(bb - bt >= F(1, 100), bt - bb >= F(1, 100)))
    tft, tfb = dim(ctx, "tft", F(1, 10), 1), dim(ctx, "tfb", F(1, 10), 1)
    d = tft + tfb + dim(ctx, "d")
    slope = (bt - bb) / (2 * d)  # outward lean of the web per height
    lean = (bt - bb) / 2
    w = tw * ctx.sqrt(d * d + lean * lean) / d  # its width in a horizontal cut
    for b, t in ((bt, tft), (bb, tfb)):  # the webs do not meet
        s = slope if b is bb and t is tfb else -slope
        ctx.assume(b / 2 + s * t - w >= F(1, 100))
    c = bt / 2 if bool(bt >= bb) else bb / 2
    g = M.steel_sections.box_girder_section(d=d, b_t=bt, b_b=bb, t_ft=tft, t_fb=tfb, t_w=tw, **kw)

    def x(y):
        return bb / 2 + slope * y

    lo, hi = x(tfb) - w, x(d - tft) - w
    return g, [[(c - bb / 2, 0), (c + bb / 2, 0), (c + bt / 2, d), (c - bt / 2, d)],
               [(c - lo, tfb), (c + lo, tfb), (c + hi, d - tft), (c - hi, d - tft)]]


def bulb(ctx, M, kw):
    t, r, n = dim(ctx, "t"), radius(ctx, "r", 2), ctx.choice("n", NR)
    b = r * F(3, 2) + dim(ctx, "b")
    c3, s3 = cossin(ctx, F(1, 6))  # 30 degrees
    default = ctx.choice("d_b", ["default", "given"]) == "default"
    tan = s3 / c3
    # the 30 degree underside touches the bulb's circle and meets the web d_b below the top
    tip = (t / 2 + b - r, r)  # circle centre, depth from the top
    meet = tip[1] + r / c3 + (tip[0] - t / 2) * tan
    db = meet if default else meet + dim(ctx, "db")
    d = db + r + dim(ctx, "d")
    if not default:
        kw["d_b"] = db
    g = M.steel_sections.bulb_section(d=d, b=b, t=t, r=r, n_r=n, **kw)

    def arc(o, first, total, s):
        return [] if isinstance(r, int) else arc_about(
            ctx, o, r, first, lambda k: cossin(ctx, F(k, n - 1) * total), n, s)

    pts = [(-t / 2, 0), (t / 2, 0)]
    pts += arc((t / 2 + r, d - db - r * tan), (-1, 0), F(1, 3), -1) or [(t / 2, d - db)]
    cs, sn = cossin(ctx, F(1, 3))
    o = (t / 2 + b - r, d - r)
    low = arc(o, (cs, -sn), F(1, 3), 1)
    pts += (low[:-1] + arc(o, (1, 0), F(1, 2), 1)) if low else [(t / 2 + b, d)]
    return g, [pts + [(-t / 2, d)]]


FNS = [by_area, polygon_hollow, tapered_i, tapered_channel, box_girder, bulb, rectangular, circular, elliptical, triangular, triangular_radius, cruciform, chs, ehs, rhs,
       i_sec, mono_i, channel, tee, angle, cee, zed]
P = {"patch": patch}
HARNESSES = [(f.__name__, mk(f), {**P, "cost": 2}) for f in FNS] + [
    ("polygon_refused", polygon_refused, {**P, "cost": 1}),
    ("angle_refused", angle_refused, {**P, "cost": 1}),
]
