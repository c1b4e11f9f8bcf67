"""Disjoint and overlapping regions, for every arrangement of the regions.

The regions are stand-ins for polygons: a symbolic contact value per pair of regions decides
whether the pair touches, and symbolic areas of the pieces shared by two or three regions decide
how much is shared.  The library's own search runs on them.
"""

import itertools
from fractions import Fraction as F

from props.common import fixed_points, mk_section, num, patch_all, quad_mesh, swapped

BOUNDS = (
    "up to four regions with any contact pattern (five in the thorough tier); up to three regions "
    "with any shared areas, total area 0.03 to 30; shared area exactly zero or at least one "
    "millionth of the total"
)
ASSUMPTIONS = ["the geometry kernel computes intersections, unions and areas correctly"]


class World:
    """regions over pieces: piece -> area; a pair touches if it shares area or its contact
    value is positive"""

    def __init__(self, n, pieces, contact):
        self.n, self.pieces, self.contact = n, pieces, contact

    def regions(self):
        return [Region(self, [p for p in self.pieces if i in p], i) for i in range(self.n)]


class Region:
    """a polygon made of pieces"""

    geom_type = "Polygon"

    def __init__(self, world, pieces, idx=None, touch=None):
        self.w, self.pieces, self.idx, self.touch = world, list(pieces), idx, touch

    @property
    def area(self):
        t = 0
        for p in self.pieces:
            t = t + self.w.pieces[p]
        return t

    def _touching(self, o):
        for p in self.pieces:
            if p in o.pieces and bool(self.w.pieces[p] > 0):
                return True
        if self.idx is not None and o.idx is not None and self.idx != o.idx:
            return bool(self.w.contact[min(self.idx, o.idx), max(self.idx, o.idx)] > 0)
        return self.idx == o.idx

    def intersection(self, o, **k):
        return Region(self.w, [p for p in self.pieces if p in o.pieces], None,
                      lambda: self._touching(o))

    __and__ = intersection

    def union(self, o, **k):
        return Region(self.w, self.pieces + [p for p in o.pieces if p not in self.pieces])

    __or__ = union

    def difference(self, o, **k):
        return Region(self.w, [p for p in self.pieces if p not in o.pieces])

    __sub__ = difference

    @property
    def is_empty(self):
        return not bool(self)

    def __bool__(self):
        if self.touch is not None:
            return self.touch()
        return any(bool(self.w.pieces[p] > 0) for p in self.pieces)

    def intersects(self, o):
        return self._touching(o)

    def disjoint(self, o):
        return not self._touching(o)

    def touches(self, o):
        return self._touching(o) and not any(
            bool(self.w.pieces[p] > 0) for p in self.pieces if p in o.pieces)

    def overlaps(self, o):
        return any(bool(self.w.pieces[p] > 0) for p in self.pieces if p in o.pieces)

    def distance(self, o):
        return 0.0 if self._touching(o) else 1.0


def union_all(lop, *a, **k):
    lop = list(lop)
    r = lop[0]
    for p in lop[1:]:
        r = r.union(p)
    return r


def shapely_swaps(M):
    g = M.geometry
    names = {"unary_union": union_all, "union_all": union_all,
             "intersection": lambda a, b, **k: a.intersection(b),
             "intersects": lambda a, b: a.intersects(b)}
    return swapped(*[(g, k, v) for k, v in names.items() if hasattr(g, k)])


def connected(ctx, n, c):
    """condition: every region is reachable from the first"""
    terms = []
    pairs = list(itertools.combinations(range(n), 2))
    for k in range(n - 1, n):
        for es in itertools.combinations(pairs, k):
            seen = {0}
            grew = True
            while grew:
                grew = False
                for a, b in es:
                    if (a in seen) != (b in seen):
                        seen |= {a, b}
                        grew = True
            if len(seen) == n:
                terms.append(ctx.all(*[c[e] > 0 for e in es]))
    return ctx.any(*terms) if terms else True


def contacts(ctx, n):
    return {p: ctx.real(f"c{p[0]}{p[1]}", -1, 1) for p in itertools.combinations(range(n), 2)}


def disjoint(n):
    def h(ctx, M):
        c = contacts(ctx, n)
        w = World(n, {(i,): num(ctx, 1) for i in range(n)}, c)
        with shapely_swaps(M):
            r = bool(M.geometry.check_geometry_disjoint(w.regions()))
        k = connected(ctx, n, c)
        ctx.true("disjoint" if r else "connected",
                 (ctx.neg(k) if not isinstance(k, bool) else not k) if r else k)

    return h


def h_overlapping_contact(ctx, M):
    """regions that share area are connected even without a common edge"""
    n = 3
    c = contacts(ctx, n)
    a = {p: ctx.real(f"s{p[0]}{p[1]}", 0, 1) for p in c}
    pieces = {(i,): num(ctx, 1) for i in range(n)}
    pieces.update(a)
    w = World(n, pieces, c)
    with shapely_swaps(M):
        r = bool(M.geometry.check_geometry_disjoint(w.regions()))
    j = {p: ctx.any(c[p] > 0, a[p] > 0) for p in c}
    k = ctx.any(*[ctx.all(j[p], j[q]) for p, q in itertools.combinations(list(c), 2)])
    ctx.true("disjoint" if r else "connected", ctx.neg(k) if r else k)


def overlaps(n):
    def h(ctx, M):
        pieces = {(i,): ctx.pos(f"a{i}", F(1, 100), 10) for i in range(n)}
        shared = []
        for k in range(2, n + 1):
            for p in itertools.combinations(range(n), k):
                pieces[p] = ctx.real("s" + "".join(map(str, p)), 0, 1)
                shared.append(pieces[p])
        w = World(n, pieces, {p: num(ctx, 1) for p in itertools.combinations(range(n), 2)})
        tot = sum(shared, num(ctx, 0))
        ctx.assume(ctx.any(tot <= 0, tot >= F(1, 10**5)) if ctx.symbolic
                   else (tot <= 0 or tot >= 1e-5))
        with shapely_swaps(M):
            r = bool(M.geometry.check_geometry_overlaps(w.regions()))
        if r:
            ctx.true("shares area", tot > 0)
        else:
            ctx.true("shares nothing", tot <= 0)

    return h


def h_warnings(ctx, M):
    """the warping and plastic analyses warn exactly when the checks say so"""
    import warnings as W

    p = fixed_points(ctx, [(0, 0), (4, 0), (0, 4), (4, 4)])
    mats = [M.pre.Material(n, num(ctx, 1 + i), num(ctx, 0), num(ctx, 1), num(ctx, 1), "w")
            for i, n in enumerate("ab")]
    sec = mk_section(ctx, M, *quad_mesh(p, [(0, 1, 2), (1, 3, 2)]), [0, 1], mats)
    which = ctx.choice("analysis", ["warping", "plastic"])
    c, s = ctx.real("c01", -1, 1), ctx.real("s01", 0, 1)
    ctx.assume(ctx.any(s <= 0, s >= F(1, 1000)) if ctx.symbolic else (s <= 0 or s >= 1e-3))
    w = World(2, {(0,): num(ctx, 2), (1,): num(ctx, 3), (0, 1): s}, {(0, 1): c})
    for g, r in zip(sec.geometry.geoms, w.regions()):
        g.geom = r
    sec.calculate_geometric_properties()

    class Stop(Exception):
        pass

    def stop(*a, **k):
        raise Stop

    reps = [(M.section, "coo_matrix", stop), (M.section.Section, "assemble_torsion", stop),
            (M.plastic_section, "PlasticSection", stop)]
    with shapely_swaps(M), swapped(*reps), W.catch_warnings(record=True) as ws:
        W.simplefilter("always")
        try:
            if which == "warping":
                sec.calculate_warping_properties()
            else:
                sec.calculate_plastic_properties()
            ctx.fail("analysis not reached")
        except Stop:
            pass
    word = {"warping": "disjoint", "plastic": "overlapping"}[which]
    told = any(word in str(x.message) for x in ws)
    if which == "warping":
        k = ctx.any(c > 0, s > 0)
        k = ctx.neg(k)
    else:
        k = s > 0
    ctx.true("warned" if told else "not warned", k if told else ctx.neg(k))


HARNESSES = [
    ("disjoint1", disjoint(1), {}),
    ("disjoint2", disjoint(2), {}),
    ("disjoint3", disjoint(3), {}),
    ("disjoint4", disjoint(4), {"max_paths": 2000}),
    ("disjoint5", disjoint(5), {"max_paths": 5000, "tier": "thorough"}),
    ("overlapping_contact", h_overlapping_contact, {"max_paths": 2000}),
    ("overlaps2", overlaps(2), {}),
    ("overlaps3", overlaps(3), {}),
    ("warnings", h_warnings, {"patch": patch_all}),
]
