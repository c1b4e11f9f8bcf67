"""numpy / math stand-ins that carry ``Sym`` values through the library's code."""

from __future__ import annotations

import math as _math
import types
from fractions import Fraction

import numpy as _np

from .core import (
    ENGINE, NUM, UFUNCS, Cond, Sym, SymError, _L, all_of, any_of, rat, symmax, symmin,
)

FLOATS = (float, _np.float64, _np.double, _np.float32, "float", "float64", "d")


class SymFloatMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, float | Sym)

    def __call__(cls, *a, **k):
        if a and isinstance(a[0], Sym):
            return a[0]
        if a and isinstance(a[0], _np.ndarray) and a[0].dtype == object:
            return a[0].item()
        return float(*a, **k)

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)


class SymFloat(metaclass=SymFloatMeta):
    """Replaces the builtin ``float`` in the modules under analysis."""

    @staticmethod
    def fromhex(s):
        return float.fromhex(s)


def is_floaty(dt):
    if dt is None:
        return False
    if dt is SymFloat:
        return True
    try:
        return _np.dtype(dt).kind == "f"
    except TypeError:
        return False


class SymArr(_np.ndarray):
    """Object arrays whose reductions know about symbolic values."""

    def _ext(self, sign, axis, keepdims=False):
        vals = _np.asarray(self)
        f = symmax if sign > 0 else symmin
        if vals.dtype != object or vals.size == 0:
            return (vals.max if sign > 0 else vals.min)(axis=axis)
        if axis is None:
            return f(list(vals.ravel()))
        r = _np.apply_along_axis(lambda v: _o0(f(list(v))), axis, vals)
        return r[()] if r.ndim == 0 else r.view(SymArr)

    def max(self, axis=None, out=None, **k):
        return self._ext(1, axis)

    def min(self, axis=None, out=None, **k):
        return self._ext(-1, axis)

    def argmax(self, axis=None, out=None, **k):
        if axis is not None or self.dtype != object:
            return _np.asarray(self).argmax(axis=axis)
        return NpProxy.argmax(list(_np.asarray(self).ravel()))

    def argmin(self, axis=None, out=None, **k):
        if axis is not None or self.dtype != object:
            return _np.asarray(self).argmin(axis=axis)
        return NpProxy.argmin(list(_np.asarray(self).ravel()))

    def mean(self, axis=None, **k):
        a = _np.asarray(self)
        if a.dtype != object:
            return a.mean(axis=axis)
        n = a.size if axis is None else a.shape[axis]
        return a.sum(axis=axis) / n

    def any(self, axis=None, **k):
        if axis is not None or self.dtype != object:
            return _np.asarray(self).any(axis=axis)
        return NpProxy.any(self)

    def all(self, axis=None, **k):
        if axis is not None or self.dtype != object:
            return _np.asarray(self).all(axis=axis)
        return NpProxy.all(self)

    def astype(self, dtype, *a, **k):
        if is_floaty(dtype):
            return self.copy()
        return _np.asarray(self).astype(dtype, *a, **k)

    def __array_wrap__(self, arr, context=None, return_scalar=False):
        if arr.ndim == 0:
            return arr[()]
        return _np.asarray(arr).view(SymArr)


def conv(x):
    """Float arrays become object arrays of exact constants."""
    if isinstance(x, _np.ndarray):
        if x.dtype == object:
            out = _np.empty(x.shape, dtype=object)
            for i, v in _np.ndenumerate(x):
                out[i] = Sym.const(v) if isinstance(v, float | _np.floating) else v
            return out.view(SymArr)
        if x.dtype.kind == "f":
            out = _np.empty(x.shape, dtype=object)
            for i, v in _np.ndenumerate(x):
                out[i] = Sym.const(v)
            return out.view(SymArr)
        return x
    return x


def _has_sym(x):
    if isinstance(x, Sym):
        return True
    if isinstance(x, _np.ndarray):
        return x.dtype == object
    if isinstance(x, list | tuple):
        return any(_has_sym(v) for v in x)
    return False


def _mk(x, dtype=None, **kw):
    kw.pop("copy", None)
    if isinstance(x, types.GeneratorType):
        x = list(x)
    if dtype is SymFloat:
        dtype = float
    if is_floaty(dtype):
        a = _np.array(x, dtype=object)
        out = _np.empty(a.shape, dtype=object)
        for i, v in _np.ndenumerate(a):
            out[i] = v if isinstance(v, Sym) else Sym.const(v)
        return out.view(SymArr)
    if dtype is not None:
        return _np.array(x, dtype=dtype)
    if _has_sym(x):
        return conv(_np.array(x, dtype=object))
    return conv(_np.array(x))


def _fill(shape, v, dtype=float, order=None):
    if dtype is None or is_floaty(dtype) or dtype is SymFloat:
        out = _np.empty(shape, dtype=object)
        out[...] = None
        for i in _np.ndindex(out.shape):
            out[i] = v if isinstance(v, Sym) else Sym.const(v)
        return out.view(SymArr)
    return _np.full(shape, v, dtype=dtype)


def lin_solve(a, b):
    """Gaussian elimination over the field of rational functions."""
    a = _np.array(a, dtype=object)
    b = _np.array(b, dtype=object)
    n = a.shape[0]
    vec = b.ndim == 1
    m = [[_L(v) for v in row] for row in a]
    r = [[_L(v) for v in (row if not vec else [row])] for row in b]
    if n <= 3:
        # Cramer / adjugate: keeps one common denominator
        det = _det(m)
        if det.is_const() and det.cval() == 0:
            raise _np.linalg.LinAlgError("Singular matrix")
        adj = [[_cof(m, j, i) for j in range(n)] for i in range(n)]
        inv = det.inv()
        out = _np.empty((n, len(r[0])), dtype=object)
        for i in range(n):
            for k in range(len(r[0])):
                s = Sym.const(0)
                for j in range(n):
                    s = s + adj[i][j] * r[j][k]
                out[i, k] = s * inv
        return out[:, 0] if vec else out
    for i in range(n):
        p = None
        for q in range(i, n):
            if m[q][i].is_const() and m[q][i].cval() != 0:
                p = q
                break
        if p is None:
            for q in range(i, n):
                if not m[q][i].is_const():
                    p = q
                    break
        if p is None:
            raise _np.linalg.LinAlgError("Singular matrix")
        m[i], m[p] = m[p], m[i]
        r[i], r[p] = r[p], r[i]
        iv = 1 / m[i][i]
        for q in range(n):
            if q == i or (m[q][i].is_const() and m[q][i].cval() == 0):
                continue
            f = m[q][i] * iv
            m[q] = [x - f * y for x, y in zip(m[q], m[i], strict=True)]
            r[q] = [x - f * y for x, y in zip(r[q], r[i], strict=True)]
    out = _np.empty((n, len(r[0])), dtype=object)
    for i in range(n):
        for k in range(len(r[0])):
            out[i, k] = r[i][k] / m[i][i]
    return out[:, 0] if vec else out


def _minor(m, i, j):
    return [[m[a][b] for b in range(len(m)) if b != j] for a in range(len(m)) if a != i]


def _cof(m, i, j):
    if len(m) == 1:
        return Sym.const(1)
    d = _det(_minor(m, i, j))
    return -d if (i + j) % 2 else d


def _det(m):
    n = len(m)
    if n == 1:
        return _L(m[0][0])
    if n == 2:
        return _L(m[0][0]) * m[1][1] - _L(m[0][1]) * m[1][0]
    s = Sym.const(0)
    for j in range(n):
        if isinstance(m[0][j], Sym) and m[0][j].is_const() and m[0][j].cval() == 0:
            continue
        d = _L(m[0][j]) * _det(_minor(m, 0, j))
        s = s - d if j % 2 else s + d
    return s


class LinalgProxy:
    LinAlgError = _np.linalg.LinAlgError

    @staticmethod
    def det(a):
        return _det([[_L(v) for v in row] for row in a])

    @staticmethod
    def solve(a, b):
        return lin_solve(a, b)

    @staticmethod
    def inv(a):
        n = len(a)
        return lin_solve(a, _np.array([[int(i == j) for j in range(n)] for i in range(n)]))

    @staticmethod
    def norm(a, ord=None, axis=None):
        a = _np.array(a, dtype=object)
        if axis is None:
            s = Sym.const(0)
            for v in a.ravel():
                s = s + _L(v) * v
            return s.sqrt()
        return _vec(lambda v: v.sqrt(), (a * a).sum(axis=axis))

    def __getattr__(self, k):
        raise SymError(f"np.linalg.{k}")


def _vec(f, *args):
    if any(isinstance(a, _np.ndarray | list | tuple) for a in args):
        arrs = [
            conv(_np.array(a, dtype=object)) if not isinstance(a, Sym) else a for a in args
        ]
        arrs = [_o0(a) for a in arrs]
        r = _np.frompyfunc(f, len(arrs), 1)(*arrs)
        return r
    return f(*args)


def _truth(v):
    if isinstance(v, Sym):
        return v != 0
    return v if isinstance(v, Cond) else bool(v)


def _spans(x):
    """three rows of an n x 2 array certainly make a triangle (so some entry is not zero)"""
    a = _np.asarray(x, dtype=object)
    if a.ndim != 2 or a.shape[1] != 2 or len(a) < 3 or not _has_sym(x):
        return False
    u, v = a[1] - a[0], a[2] - a[0]
    c = u[0] * v[1] - u[1] * v[0]
    return not isinstance(c, Sym) or ENGINE.entailed(c != 0, 1000)


def _o0(a):
    if isinstance(a, _np.ndarray):
        return a
    z = _np.empty((), dtype=object)
    z[()] = a
    return z


def _uf(name):
    f = UFUNCS[name]

    def g(*args, **kw):
        args = [list(a) if isinstance(a, range) else a for a in args]
        if not any(_has_sym(a) for a in args):
            r = getattr(_np, name)(*args, **kw)
            if name in ("sqrt", "cos", "sin", "tan", "arctan2", "arctan", "hypot"):
                if name == "sqrt" and _np.ndim(r) == 0:
                    return Sym.lift(args[0]).sqrt()
                return conv(r) if isinstance(r, _np.ndarray) else Sym.const(r)
            return r
        return _vec(f, *args)

    return g


class NpProxy(types.ModuleType):
    linalg = LinalgProxy()

    def __init__(self):
        super().__init__("numpy")

    @property
    def pi(self):
        return ENGINE.PI

    @staticmethod
    def array(x, dtype=None, **kw):
        return _mk(x, dtype, **kw)

    @staticmethod
    def asarray(x, dtype=None, **kw):
        if isinstance(x, _np.ndarray) and (dtype is None or is_floaty(dtype)):
            return x if x.dtype == object else _mk(x, dtype)
        return _mk(x, dtype, **kw)

    ascontiguousarray = asfarray = asarray

    @staticmethod
    def zeros(shape, dtype=float, order="C"):
        return _fill(shape, 0, dtype)

    @staticmethod
    def ones(shape, dtype=float, order="C"):
        return _fill(shape, 1, dtype)

    @staticmethod
    def empty(shape, dtype=float, order="C"):
        return _fill(shape, 0, dtype)

    @staticmethod
    def full(shape, v, dtype=None):
        return _fill(shape, v, dtype)

    @staticmethod
    def zeros_like(a, dtype=None):
        return _fill(_np.shape(a), 0, dtype)

    @staticmethod
    def ones_like(a, dtype=None):
        return _fill(_np.shape(a), 1, dtype)

    @staticmethod
    def full_like(a, v, dtype=None):
        return _fill(_np.shape(a), v, dtype)

    @staticmethod
    def eye(n, *a, **k):
        return conv(_np.eye(n))

    identity = eye

    @staticmethod
    def diag(v, k=0):
        v = _np.array(v, dtype=object)
        if v.ndim == 1:
            out = _fill((len(v), len(v)), 0)
            for i in range(len(v)):
                out[i, i] = v[i]
            return out
        return _np.array([v[i, i] for i in range(min(v.shape))], dtype=object)

    @staticmethod
    def linspace(start, stop, num=50, endpoint=True, **kw):
        a, b = start, stop
        if not _has_sym(a) and not _has_sym(b):
            return conv(_np.linspace(a, b, num, endpoint=endpoint))
        n = num - 1 if endpoint else num
        a, b = _L(a), _L(b)
        return _mk([a + (b - a) * Fraction(i, max(n, 1)) for i in range(num)])

    @staticmethod
    def arange(*a, **k):
        if any(_has_sym(x) for x in a):
            raise SymError("np.arange of symbolic")
        return conv(_np.arange(*[float(x) if isinstance(x, Sym) else x for x in a], **k))

    @staticmethod
    def dot(a, b):
        a, b = _np.asarray(a), _np.asarray(b)
        if a.ndim == 0 or b.ndim == 0:
            return a * b
        r = _np.dot(a.astype(object), b.astype(object))
        return r

    matmul = dot
    vdot = dot
    inner = dot

    @staticmethod
    def cross(a, b, **k):
        a, b = _np.asarray(a, dtype=object), _np.asarray(b, dtype=object)
        if a.shape[-1] == 2:
            return a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]
        return _np.array(
            [
                a[1] * b[2] - a[2] * b[1],
                a[2] * b[0] - a[0] * b[2],
                a[0] * b[1] - a[1] * b[0],
            ],
            dtype=object,
        )

    @staticmethod
    def outer(a, b):
        a, b = _np.asarray(a, dtype=object).ravel(), _np.asarray(b, dtype=object).ravel()
        return a[:, None] * b[None, :]

    @staticmethod
    def isclose(a, b, rtol=1e-5, atol=1e-8, **k):
        def f(x, y):
            return bool(abs(_L(x) - y) <= _L(abs(_L(y))) * rtol + atol)

        return _vec(f, a, b)

    @staticmethod
    def allclose(a, b, rtol=1e-5, atol=1e-8, **k):
        r = NpProxy.isclose(a, b, rtol, atol)
        return all(r.ravel()) if isinstance(r, _np.ndarray) else r

    @staticmethod
    def round(x, decimals=0, **k):
        if _has_sym(x):
            return _vec(lambda v: round(v, decimals) if decimals else v.rint(), x)
        return conv(_np.round(x, decimals))

    around = round

    @staticmethod
    def sum(x, axis=None, **k):
        a = _np.array(list(x) if isinstance(x, types.GeneratorType) else x, dtype=object)
        return a.sum(axis=axis)

    @staticmethod
    def average(x, axis=None, weights=None):
        a = _np.array(x, dtype=object)
        if weights is not None:
            w = _np.array(weights, dtype=object)
            return (a * w).sum(axis=axis) / w.sum()
        n = a.size if axis is None else a.shape[axis]
        s = a.sum(axis=axis)
        return s * Sym.const(Fraction(1, n)) if isinstance(s, Sym) else s / n

    mean = average

    @staticmethod
    def max(x, axis=None, **k):
        return _np.array(x, dtype=object).view(SymArr).max(axis=axis)

    amax = max

    @staticmethod
    def min(x, axis=None, **k):
        return _np.array(x, dtype=object).view(SymArr).min(axis=axis)

    amin = min

    @staticmethod
    def argmax(x, axis=None):
        if not _has_sym(x):
            return _np.argmax(x, axis=axis)
        x = list(x)
        b = 0
        for i in range(1, len(x)):
            if bool(_L(x[i]) > x[b]):
                b = i
        return b

    @staticmethod
    def argmin(x, axis=None):
        if not _has_sym(x):
            return _np.argmin(x, axis=axis)
        x = list(x)
        b = 0
        for i in range(1, len(x)):
            if bool(_L(x[i]) < x[b]):
                b = i
        return b

    @staticmethod
    def where(c, *ab):
        c = _np.asarray(c)
        if c.dtype == object:
            c = _np.array([bool(v) for v in c.ravel()]).reshape(c.shape)
        if not ab:
            return _np.where(c)
        a, b = ab
        if not _has_sym(a) and not _has_sym(b):
            return _np.where(c, a, b)
        return _vec(lambda t, x, y: x if t else y, c, a, b)

    @staticmethod
    def clip(x, lo, hi):
        def f(v):
            v = _L(v)
            if lo is not None and bool(v < lo):
                return lo
            if hi is not None and bool(v > hi):
                return hi
            return v

        return _vec(f, x)

    @staticmethod
    def all(x, **k):
        return bool(all_of(*[_truth(v) for v in _np.asarray(x, dtype=object).ravel()]))

    @staticmethod
    def any(x, **k):
        if _spans(x):
            return True
        return bool(any_of(*[_truth(v) for v in _np.asarray(x, dtype=object).ravel()]))

    @staticmethod
    def append(a, b, axis=None):
        return _np.append(_np.asarray(a, dtype=object), _np.asarray(b, dtype=object), axis)

    @staticmethod
    def transpose(a, *k):
        return _np.transpose(_np.asarray(a), *k)

    @staticmethod
    def einsum(*a, **k):
        raise SymError("np.einsum")

    @staticmethod
    def finfo(t):
        return _np.finfo(float)

    @staticmethod
    def isscalar(x):
        return isinstance(x, Sym) or _np.isscalar(x)

    def __getattr__(self, k):
        if k in UFUNCS and UFUNCS[k] is not None:
            f = _uf(k)
            setattr(self, k, f)
            return f
        return getattr(_np, k)


NP = NpProxy()


class MathProxy(types.ModuleType):
    inf = _math.inf
    nan = _math.nan
    e = _math.e

    def __init__(self):
        super().__init__("math")

    @property
    def pi(self):
        return ENGINE.PI

    @property
    def tau(self):
        return 2 * ENGINE.PI

    def __getattr__(self, k):
        m = {
            "sqrt": lambda x: _L(x).sqrt(),
            "cos": lambda x: _L(x).cos(),
            "sin": lambda x: _L(x).sin(),
            "tan": lambda x: _L(x).tan(),
            "atan2": lambda y, x: _L(y).arctan2(_L(x)),
            "atan": lambda x: _L(x).arctan(),
            "hypot": lambda *a: sum((_L(x) ** 2 for x in a), Sym.const(0)).sqrt(),
            "fabs": lambda x: abs(x),
            "pow": lambda x, y: _L(x) ** y,
            "radians": lambda x: _L(x) * ENGINE.PI / 180,
            "degrees": lambda x: _L(x) * 180 / ENGINE.PI,
            "floor": lambda x: _math.floor(x),
            "ceil": lambda x: _math.ceil(x),
            "isclose": lambda a, b, rel_tol=1e-9, abs_tol=0.0: bool(
                abs(_L(a) - b) <= max(rel_tol * max(abs(_L(a)), abs(_L(b))), abs_tol)
            ),
            "isnan": lambda x: False,
            "isinf": lambda x: False,
            "isfinite": lambda x: True,
            "fsum": lambda xs: sum(xs, Sym.const(0)),
            "prod": lambda xs: _prod(xs),
            "dist": lambda p, q: sum(
                ((_L(a) - b) ** 2 for a, b in zip(p, q, strict=True)), Sym.const(0)
            ).sqrt(),
            "copysign": lambda a, b: abs(_L(a)) if bool(_L(b) >= 0) else -abs(_L(a)),
        }
        if k in m:
            f = m[k]
            setattr(self, k, f)
            return f
        raw = getattr(_math, k)
        return raw


def _prod(xs):
    r = Sym.const(1)
    for x in xs:
        r = r * x
    return r


MATH = MathProxy()
