"""Exact boolean operations on axis-parallel polygons with symbolic coordinates.

The coordinates are ordered by a sample of the current path and the order is then proved, so the
result holds for every value on the path.  Small round bars are cut out as whole holes.
"""

from __future__ import annotations

from symx.core import SymError


def orthogonal(ring):
    """every edge is horizontal or vertical"""
    from symx.shapemodel import same

    return all(same(a[0], b[0]) or same(a[1], b[1]) for a, b in zip(ring, ring[1:] + ring[:1]))


def polys(g):
    from symx.shapemodel import Multi

    return list(g.geoms) if isinstance(g, Multi) else [g] if not g.is_empty else []


def in_ring(q, ring):
    c = False
    for a, b in zip(ring, ring[1:] + ring[:1]):
        if (a[1] > q[1]) != (b[1] > q[1]):
            if q[0] < a[0] + (q[1] - a[1]) * (b[0] - a[0]) / (b[1] - a[1]):
                c = not c
    return c


KNOWN: set = set()  # comparisons proved on this path


def proved(c):
    from symx import shapemodel

    if isinstance(c, bool):
        return c
    k = c.key()
    if k in KNOWN:
        return True
    r = shapemodel.proved(c)
    if r:
        KNOWN.add(k)
    return r


def ordered(vals, f):
    """distinct values in increasing order"""
    out = []
    for v in sorted(vals, key=f):
        if out and abs(f(out[-1]) - f(v)) < 1e-9:
            if not (v - out[-1]).same(0) and not proved(v == out[-1]):
                raise SymError("coordinates that may coincide")
            continue
        if out and not proved(out[-1] < v):
            raise SymError("order of coordinates is not fixed")
        out.append(v)
    return out


def trace(cells, xs, ys):
    """rings of a set of grid cells (outer counter-clockwise, holes clockwise)"""
    nxt = {}
    for i, j in cells:
        for (a, b), (di, dj) in ((((i, j), (i + 1, j)), (0, -1)), (((i + 1, j), (i + 1, j + 1)), (1, 0)),
                                 (((i + 1, j + 1), (i, j + 1)), (0, 1)), (((i, j + 1), (i, j)), (-1, 0))):
            if (i + di, j + dj) not in cells:
                nxt.setdefault(a, []).append(b)
    rings = []
    while nxt:
        a = min(nxt)
        ring, prev = [a], None
        cur = a
        while True:
            opts = nxt[cur]
            if len(opts) > 1 and prev is not None:  # corners that touch: turn left
                d = (cur[0] - prev[0], cur[1] - prev[1])
                opts.sort(key=lambda n: -(d[0] * (n[1] - cur[1]) - d[1] * (n[0] - cur[0])))
            n = opts.pop(0)
            if not opts:
                del nxt[cur]
            prev, cur = cur, n
            if cur == a:
                break
            ring.append(cur)
        keep = []
        for k, p in enumerate(ring):
            u, v = ring[k - 1], ring[(k + 1) % len(ring)]
            if (p[0] - u[0]) * (v[1] - p[1]) != (p[1] - u[1]) * (v[0] - p[0]):
                keep.append((xs[p[0]], ys[p[1]]))
        rings.append((keep, ring))
    return rings


def area2(r):
    return sum(a[0] * b[1] - b[0] * a[1] for a, b in zip(r, r[1:] + r[:1]))


def combine(f, groups, keep):
    """the region where keep(inside flags of the groups), as a list of ring lists"""
    allp = [p for g in groups for q in g for r in q for p in r]
    xs, ys = ordered([p[0] for p in allp], f), ordered([p[1] for p in allp], f)
    num = [[[[(f(p[0]), f(p[1])) for p in r] for r in q] for q in g] for g in groups]
    cells = set()
    for i in range(len(xs) - 1):
        for j in range(len(ys) - 1):
            q = ((f(xs[i]) + f(xs[i + 1])) / 2, (f(ys[j]) + f(ys[j + 1])) / 2)
            flags = [any(sum(in_ring(q, r) for r in rings) % 2 for rings in g) for g in num]
            if keep(*flags):
                cells.add((i, j))
    outer, holes = [], []
    for ring, idx in trace(cells, xs, ys):
        (outer if area2(idx) > 0 else holes).append((ring, idx))
    res = [[r] for r, _ in outer]
    for h, idx in holes:
        q = (idx[0][0] + 1e-6, idx[0][1] + 1e-6)
        inside = [k for k, (_, o) in enumerate(outer) if in_ring((idx[0][0] - .5, idx[0][1] + .5), o)]
        inside = inside or [k for k, (_, o) in enumerate(outer) if in_ring(q, o)]
        best = min(inside, key=lambda k: area2(outer[k][1]))
        res[best].append(h)
    return res


def rings(p):
    return [list(r._p) for r in (p.exterior, *p.interiors)]


def result(parts):
    from symx.shapemodel import MultiPolygon, Polygon

    ps = [Polygon(r[0], r[1:]) for r in parts]
    return Polygon() if not ps else ps[0] if len(ps) == 1 else MultiPolygon(ps)


def hooks(ctx):
    """difference, union, intersection and symmetric difference hooks"""
    from props.shapes import numeric

    state = {}
    KNOWN.clear()

    def f(v):
        from symx.core import ENGINE

        k = len(ENGINE.facts)
        if state.get("k") != k:
            state["k"], state["f"] = k, numeric(ctx)
        return state["f"](v)

    def op(keep, name):
        def run(a, b):
            pa, pb = polys(a), polys(b)
            round_a = [p for p in pa if not all(orthogonal(r) for r in rings(p))]
            round_b = [p for p in pb if not all(orthogonal(r) for r in rings(p))]
            if not round_a and not round_b:
                return result(combine(f, [[rings(p) for p in pa], [rings(p) for p in pb]], keep))
            if name != "difference":
                raise SymError(f"{name} of round shapes")
            return drill(f, pa, pb)

        return run

    return {
        "difference": op(lambda x, y: x and not y, "difference"),
        "union": lambda *a: merged(f, [p for g in (a[0] if len(a) == 1 else a) for p in polys(g)]),
        "intersection": op(lambda x, y: x and y, "intersection"),
        "symmetric_difference": op(lambda x, y: x != y, "symmetric_difference"),
    }


def drill(f, pa, pb):
    """round bars cut out of the polygons that contain their middle"""
    out = []
    for p in pa:
        rs = rings(p)
        num = [[(f(x), f(y)) for x, y in r] for r in rs]
        same = [b for b in pb if same_turn(rs[0], rings(b)[0])]
        if same and len(rs) == 1:
            out.extend([h] for h in rings(same[0])[1:])  # what remains are the holes of b
            continue
        extra = []
        for b in pb:
            r = list(b.exterior._p)
            n = [(f(x), f(y)) for x, y in r]
            c = (sum(q[0] for q in n) / len(n), sum(q[1] for q in n) / len(n))
            if sum(in_ring(c, q) for q in num) % 2:
                if b.interiors:
                    raise SymError("bar with a hole")
                extra.append(r)
        out.append([*rs, *extra])
    return result(out)


def merged(f, ps):
    """union; round pieces must fill holes of their own shape"""
    rs = [rings(p) for p in ps]
    plugs, flat = [], []
    for r in rs:
        (flat if len(r) > 1 or orthogonal(r[0]) else plugs).append(r)
    left = list(plugs)

    def filled(h):
        for q in left:
            if len(q) == 1 and same_turn(h, q[0]):
                left.remove(q)
                return True
        return False

    open_rings = [[r[0]] + [h for h in r[1:] if not filled(h)] for r in flat]
    if len(open_rings) == 1 and not left:
        return result(open_rings)
    if len(ps) == 1:
        return ps[0]
    if left:
        return result(rs)  # pieces that stand apart
    if not all(orthogonal(r[0]) for r in open_rings):
        raise SymError("union of round shapes")
    whole = combine(f, [[[r[0]] + [h for h in r[1:] if orthogonal(h)]] for r in open_rings],
                    lambda *a: any(a))
    num = [[(f(x), f(y)) for x, y in r[0]] for r in whole]
    for h in [h for r in open_rings for h in r[1:] if not orthogonal(h)]:
        n = [(f(x), f(y)) for x, y in h]
        c = (sum(q[0] for q in n) / len(n), sum(q[1] for q in n) / len(n))
        [r for r, q in zip(whole, num) if in_ring(c, q)][0].append(h)
    return result(whole)


def same_turn(a, b):
    """the same ring from another start or in the other direction"""
    from symx.shapemodel import same_pt

    if len(a) != len(b):
        return False
    return any(same_ring(a, c[i:] + c[:i]) for c in (b, b[::-1]) for i in range(len(b))
               if same_pt(a[0], c[i]))


def same_ring(a, b):
    from symx.shapemodel import same_pt

    return len(a) == len(b) and all(same_pt(p, q) for p, q in zip(a, b))
