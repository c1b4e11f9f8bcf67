"""Shared harness pieces: symbolic triangles, materials and reference integrals."""

from __future__ import annotations

from fractions import Fraction as F


def half(a, b):
    return (a + b) / 2


def tri_points(ctx, n=3, tag="", lo=-10, hi=10):
    """n symbolic points."""
    return [(ctx.real(f"x{tag}{i}", lo, hi), ctx.real(f"y{tag}{i}", lo, hi)) for i in range(n)]


def cross3(p):
    (x1, y1), (x2, y2), (x3, y3) = p[:3]
    return (x2 - x1) * (y3 - y1) - (x3 - x1) * (y2 - y1)


def tri6_coords(ctx, p):
    """2x6 coordinates in the library's element order (vertices, mid 12, 23, 31)."""
    (x1, y1), (x2, y2), (x3, y3) = p
    return ctx.arr(
        [
            [x1, x2, x3, half(x1, x2), half(x2, x3), half(x3, x1)],
            [y1, y2, y3, half(y1, y2), half(y2, y3), half(y3, y1)],
        ]
    )


def mk_material(ctx, M, tag=""):
    return M.pre.Material(
        name=f"m{tag}",
        elastic_modulus=ctx.pos(f"E{tag}"),
        poissons_ratio=ctx.real(f"nu{tag}", 0, F(49, 100)),
        yield_strength=ctx.pos(f"fy{tag}"),
        density=ctx.pos(f"rho{tag}"),
        color="w",
    )


def unit(ctx, k):
    """10**-k, exact in the symbolic run"""
    return ctx.const(F(1, 10**k)) if ctx.symbolic else 10.0 ** (-k)


def small_points(ctx, p, k):
    """the same triangle in units 10**k times larger"""
    return [(x * unit(ctx, k), y * unit(ctx, k)) for x, y in p] if k else p


def mk_element(ctx, M, tag="", small=0):
    """one element; small=k divides every coordinate by 10**k"""
    p = tri_points(ctx, 3, tag)
    ctx.assume(cross3(p) > F(1, 100))
    p = small_points(ctx, p, small)
    mat = mk_material(ctx, M, tag)
    el = M.fea.Tri6(0, tri6_coords(ctx, p), [0, 1, 2, 3, 4, 5], mat)
    return p, el, mat


def closed_form(p):
    """(A, Qx, Qy, Ixx, Iyy, Ixy) of a triangle about the global axes."""
    a = cross3(p) / 2
    xs = [q[0] for q in p]
    ys = [q[1] for q in p]
    sx, sy = xs[0] + xs[1] + xs[2], ys[0] + ys[1] + ys[2]
    ixx = a / 12 * (sum(y * y for y in ys) + sy * sy)
    iyy = a / 12 * (sum(x * x for x in xs) + sx * sx)
    ixy = a / 12 * (sum(x * y for x, y in zip(xs, ys)) + sx * sy)
    return a, a * sy / 3, a * sx / 3, ixx, iyy, ixy


class Perim:
    """Geometry stand-in: a mesh, materials and a perimeter (Section's only inputs)."""


def _mk_geometry(M, verts, tris, attrs, mats, perimeter=1, compound=None):
    import numpy as np

    if compound is None:
        compound = len(mats) > 1
    base = M.geometry.CompoundGeometry if compound else M.geometry.Geometry
    cls = type("Stand" + base.__name__, (base,), {"__module__": "props.common"})
    g = cls.__new__(cls)
    nv = np.empty((len(verts), 2), dtype=object if M.symbolic else float)
    for i, (x, y) in enumerate(verts):
        nv[i, 0], nv[i, 1] = x, y
    g.mesh = {
        "vertices": nv,
        "triangles": np.array(tris, dtype=int),
        "triangle_attributes": np.array([[float(a)] for a in attrs]),
    }
    if compound:
        g.geoms = []
        for m in mats:
            s = Perim()
            s.material = m
            s.geom = None
            g.geoms.append(s)
    else:
        g.material = mats[0]
    g.geom = None
    g.calculate_perimeter = lambda: perimeter
    return g


def quad_mesh(corners, tris3):
    """Six-noded mesh from corner nodes and 3-node triangles, in Triangle's node order.

    Triangle orders the mid-side nodes opposite to vertices 1, 2 and 3.
    """
    verts = list(corners)
    mids = {}

    def mid(a, b):
        k = (min(a, b), max(a, b))
        if k not in mids:
            mids[k] = len(verts)
            verts.append((half(corners[a][0], corners[b][0]), half(corners[a][1], corners[b][1])))
        return mids[k]

    tris = [[a, b, c, mid(b, c), mid(c, a), mid(a, b)] for a, b, c in tris3]
    return verts, tris


class StubPolygon:
    def __init__(self, pts, *a, **k):
        self.pts = [tuple(p) for p in pts]


class StubPoint:
    def __init__(self, *a):
        p = a[0] if len(a) == 1 else a
        self.x, self.y = p[0], p[1]
        self.coords = [(self.x, self.y)]


class StubTree:
    """Point-in-triangle search (the STRtree intersects query on single triangles)."""

    def __init__(self, polys):
        self.polys = polys

    def query(self, pt, predicate=None, **k):
        import numpy as np

        out = []
        for i, p in enumerate(self.polys):
            (x1, y1), (x2, y2), (x3, y3) = p.pts[:3]
            d1 = (x2 - x1) * (pt.y - y1) - (pt.x - x1) * (y2 - y1)
            d2 = (x3 - x2) * (pt.y - y2) - (pt.x - x2) * (y3 - y2)
            d3 = (x1 - x3) * (pt.y - y3) - (pt.x - x3) * (y1 - y3)
            if bool(d1 >= 0) and bool(d2 >= 0) and bool(d3 >= 0):
                out.append(i)
        return np.array(out, dtype=int)


def patch_section(M):
    """Stand-ins for the geometry kernel inside the section module (symbolic runs)."""
    M.section.Polygon = StubPolygon
    M.section.Point = StubPoint
    M.section.STRtree = StubTree


def mk_section(ctx, M, verts, tris, attrs, mats, perimeter=1, compound=None, time_info=False):
    g = _mk_geometry(M, verts, tris, attrs, mats, perimeter, compound)
    return M.section.Section(g, time_info=time_info)


def two_tri_corners(ctx, lo=-10, hi=10):
    """Two triangles sharing an edge, all four corners symbolic, positively oriented."""
    p = tri_points(ctx, 4, "", lo, hi)
    ctx.assume(cross3([p[0], p[1], p[2]]) > F(1, 100))
    ctx.assume(cross3([p[1], p[3], p[2]]) > F(1, 100))
    return p, [(0, 1, 2), (1, 3, 2)]


def default_material(M):
    return M.pre.DEFAULT_MATERIAL


# -- exact integration over a triangle (area coordinates) ------------------------------
class BP:
    """Polynomial in the area coordinates z1, z2, z3; coefficients are numbers or symbols."""

    def __init__(self, d):
        self.d = d

    @staticmethod
    def z(i):
        return BP({tuple(int(k == i) for k in range(3)): 1})

    @staticmethod
    def c(v):
        return BP({(0, 0, 0): v})

    @staticmethod
    def lift(o):
        return o if isinstance(o, BP) else BP.c(o)

    def __add__(self, o):
        o = BP.lift(o)
        d = dict(self.d)
        for k, v in o.d.items():
            d[k] = d[k] + v if k in d else v
        return BP(d)

    __radd__ = __add__

    def __neg__(self):
        return BP({k: -v for k, v in self.d.items()})

    def __sub__(self, o):
        return self + (-BP.lift(o))

    def __rsub__(self, o):
        return BP.lift(o) - self

    def __mul__(self, o):
        o = BP.lift(o)
        d = {}
        for a, u in self.d.items():
            for b, v in o.d.items():
                k = (a[0] + b[0], a[1] + b[1], a[2] + b[2])
                d[k] = d[k] + u * v if k in d else u * v
        return BP(d)

    __rmul__ = __mul__

    def diff(self, i):
        d = {}
        for k, v in self.d.items():
            if k[i]:
                e = list(k)
                e[i] -= 1
                e = tuple(e)
                d[e] = d[e] + v * k[i] if e in d else v * k[i]
        return BP(d)

    def integral(self, area, exact):
        """over a triangle of the given area"""
        import math

        t = 0
        for k, v in self.d.items():
            q = F(2 * math.factorial(k[0]) * math.factorial(k[1]) * math.factorial(k[2]),
                  math.factorial(sum(k) + 2))
            t = t + v * (q if exact else float(q))
        return t * area

    def at(self, z):
        t = 0
        for k, v in self.d.items():
            m = v
            for i in range(3):
                for _ in range(k[i]):
                    m = m * z[i]
            t = t + m
        return t


Z1, Z2, Z3 = BP.z(0), BP.z(1), BP.z(2)
SHAPE = [Z1 * (2 * Z1 - 1), Z2 * (2 * Z2 - 1), Z3 * (2 * Z3 - 1), 4 * Z1 * Z2, 4 * Z2 * Z3,
         4 * Z3 * Z1]


class TriRef:
    """Reference quantities of a straight six-noded triangle."""

    def __init__(self, ctx, p):
        self.exact = ctx.symbolic
        (x1, y1), (x2, y2), (x3, y3) = p
        self.a2 = cross3(p)
        self.area = self.a2 / 2
        self.x = x1 * Z1 + x2 * Z2 + x3 * Z3
        self.y = y1 * Z1 + y2 * Z2 + y3 * Z3
        # twice the area times the gradients of the area coordinates
        self.gx = [y2 - y3, y3 - y1, y1 - y2]
        self.gy = [x3 - x2, x1 - x3, x2 - x1]

    def integral(self, f):
        return f.integral(self.area, self.exact)

    def grad2a(self, f):
        """(df/dx, df/dy) times twice the area"""
        gx, gy = BP({}), BP({})
        for i in range(3):
            d = f.diff(i)
            gx = gx + d * self.gx[i]
            gy = gy + d * self.gy[i]
        return gx, gy

    def field(self, nodal):
        t = BP({})
        for n, v in zip(SHAPE, nodal):
            t = t + n * v
        return t


class DenseStub:
    """coo_matrix / csc_matrix stand-in: a dense array, duplicates summed."""

    def __init__(self, arg, shape=None, dtype=None, **k):
        import numpy as np

        if isinstance(arg, DenseStub):
            self.a = arg.a
            self.shape = arg.shape
            return
        if isinstance(arg, np.ndarray):
            self.a = arg
            self.shape = arg.shape
            return
        data, (row, col) = arg
        if shape is None:
            shape = (max(row) + 1, max(col) + 1)
        a = np.empty(shape, dtype=object)
        a[...] = 0
        for v, r, c in zip(data, row, col, strict=True):
            a[int(r), int(c)] = a[int(r), int(c)] + v
        self.a = a
        self.shape = shape

    def __getitem__(self, k):
        r = self.a[k]
        import numpy as np

        return DenseStub(r) if isinstance(r, np.ndarray) and r.ndim == 2 else r

    def toarray(self):
        return self.a

    def tocsc(self, *a, **k):
        return self

    tocsr = tocoo = tocsc
    todense = toarray

    def dot(self, v):
        return self.a.dot(v)

    def __matmul__(self, v):
        return self.a.dot(v)

    @property
    def T(self):
        return DenseStub(self.a.T)


def patch_sparse(M):
    for m in (M.section, M.solver):
        for n in ("coo_matrix", "csc_matrix", "csr_matrix", "lil_matrix", "coo_array",
                  "csc_array", "csr_array"):
            if hasattr(m, n):
                setattr(m, n, DenseStub)


def patch_all(M):
    patch_section(M)
    patch_sparse(M)


def dense(m):
    return m.toarray()


# -- warping analysis with an arbitrary solver ------------------------------------------
import contextlib  # noqa: E402


@contextlib.contextmanager
def swapped(*triples):
    """temporarily replaces module attributes"""
    old = [(o, n, getattr(o, n, None)) for o, n, _ in triples]
    try:
        for o, n, v in triples:
            setattr(o, n, v)
        yield
    finally:
        for o, n, v in old:
            setattr(o, n, v)


def num(ctx, v):
    """an exact constant usable in both modes"""
    if ctx.symbolic:
        return ctx.const(F(v)) if not hasattr(v, "n") or isinstance(v, F) else v
    return float(v)


def fixed_points(ctx, pts):
    return [(num(ctx, a), num(ctx, b)) for a, b in pts]


class WarpRef:
    """Reference element loop of the warping analysis about (cx, cy)."""

    def __init__(self, ctx, M, p, tris, attrs, mats, cx, cy):
        self.ctx = ctx
        self.els = []
        self.n = 1 + max(max(t) for t in tris)
        for tri, a in zip(tris, attrs):
            ids = [tri[0], tri[1], tri[2], tri[5], tri[3], tri[4]]
            q = [(p[i][0] - cx, p[i][1] - cy) for i in tri[:3]]
            self.els.append((ids, TriRef(ctx, q), mats[a], q,
                             M.fea.Tri6(0, tri6_coords(ctx, q), ids, mats[a])))

    def scatter(self, f):
        out = [0] * self.n
        for ids, t, mat, q, el in self.els:
            v = f(t, mat.elastic_modulus)
            for i, k in enumerate(ids):
                out[k] = out[k] + v[i]
        return out

    def torsion_load(self):
        def f(t, e):
            r = []
            for n in SHAPE:
                gx, gy = t.grad2a(n)
                r.append(e * t.integral(gx * t.y - gy * t.x) / t.a2)
            return r

        return self.scatter(f)

    def shear_loads(self, ixx, iyy, ixy, nu):
        def load(which):
            def f(t, e):
                r2 = t.x * t.x - t.y * t.y
                q2 = 2 * t.x * t.y
                if which == 0:
                    d1, d2 = ixx * r2 - ixy * q2, ixy * r2 + ixx * q2
                    lin = ixx * t.x - ixy * t.y
                else:
                    d1, d2 = -ixy * r2 + iyy * q2, -iyy * r2 - ixy * q2
                    lin = iyy * t.y - ixy * t.x
                r = []
                for n in SHAPE:
                    gx, gy = t.grad2a(n)
                    r.append(e * (nu / 2 * t.integral(gx * d1 + gy * d2) / t.a2
                                  + 2 * (1 + nu) * t.integral(n * lin)))
                return r

            return f

        return self.scatter(load(0)), self.scatter(load(1))


class Solver:
    """Answers K u = f, c.u = 0 with an arbitrary symbolic vector per known load."""

    def __init__(self, ctx, n, lo=-5, hi=5):
        self.ctx, self.n = ctx, n
        self.vec = {}
        for k in ("omega", "psi", "phi"):
            self.vec[k] = ctx.vec([ctx.real(f"{k}{i}", lo, hi) for i in range(n)])
        self.refs = {}
        self.asked = []
        self.pre = []

    def match(self, f):
        for k, r in self.refs.items():
            if k in self.asked_now():
                pass
            ok = True
            scale = 1.0
            if not self.ctx.symbolic:
                scale = max([abs(v) for v in r] + [1e-12])
            for a, b in zip(f, r):
                if self.ctx.symbolic:
                    d = a - b
                    if not (d.is_const() and abs(d.cval()) < F(1, 10**12)):
                        if not self.prove_zero(d):
                            ok = False
                            break
                elif abs(a - b) > 1e-7 * scale:
                    ok = False
                    break
            if ok:
                return k
        return None

    def prove_zero(self, d):
        from symx.core import ENGINE

        import z3

        c = d != 0
        if isinstance(c, bool):
            return not c
        return ENGINE.check(ENGINE.relevant(c) + [c], 3000) == z3.unsat

    def asked_now(self):
        return self.asked

    def answer(self, f):
        self.ctx.free_answer = True  # what follows may divide by an arbitrary answer
        k = self.match(f)
        self.asked.append(k)
        if k is None:
            return self.ctx.vec([num(self.ctx, 0)] * self.n)
        return self.vec[k].copy()

    def direct(self, *a, **kw):
        k_lg = kw.get("k_lg", a[0] if a else None)
        f = kw.get("f", a[1] if len(a) > 1 else None)
        self.k = k_lg
        return self.answer(f)

    def cgs(self, *a, **kw):
        self.pre.append(kw.get("m", a[2] if len(a) > 2 else None))
        return self.direct(*a, **kw)

    def installed(self, M):
        class Ilu:
            def __init__(s, *a, **k):
                pass

            def solve(s, b):
                return b

        reps = [(M.solver, "solve_direct_lagrange", self.direct),
                (M.solver, "solve_cgs_lagrange", self.cgs)]
        if M.symbolic:
            for m in (M.section, M.solver):
                if hasattr(m, "spilu"):
                    reps.append((m, "spilu", Ilu))
                if hasattr(m, "LinearOperator"):
                    reps.append((m, "LinearOperator", lambda *a, **k: ("precond", a)))
        return swapped(*reps)
