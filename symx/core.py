"""Symbolic reals, conditions and the path explorer.

``Sym`` overloads Python arithmetic so that the *real* functions of the library under
test execute on symbolic inputs.  A comparison yields a ``Cond``; taking its truth
value forks the path (depth-first re-execution), each fork being checked for
feasibility by z3.
"""

from __future__ import annotations

import math
import random
import time
from fractions import Fraction

import numpy as np
import z3

from . import poly as P


class SymError(Exception):
    """The engine cannot carry the computation further (inconclusive, not a result)."""


class PathAbort(BaseException):
    """The current path is infeasible or out of scope."""


class Blowup(SymError):
    pass


# ---------------------------------------------------------------- numbers


_RATCACHE: dict[float, Fraction] = {}


def rat(f):
    """The rational a float literal stands for.

    The simplest rational with a denominator of at most 5000 within 4 ulp, or the
    float's exact dyadic value where there is none: floats are read as reals.
    """
    if isinstance(f, bool | np.bool_):
        return int(f)
    if isinstance(f, int):
        return f
    if isinstance(f, np.integer):
        return int(f)
    if isinstance(f, Fraction):
        return P.norm(f)
    f = float(f)
    r = _RATCACHE.get(f)
    if r is None:
        if math.isnan(f) or math.isinf(f):
            raise SymError(f"non-finite constant {f}")
        x = Fraction(f)
        r = P.norm(x)
        if x.denominator != 1:
            s = x.limit_denominator(5000)
            if abs(s - x) <= 4 * Fraction(math.ulp(f)):
                r = P.norm(s)
        _RATCACHE[f] = r
    return r


NUM = (int, float, Fraction, np.integer, np.floating)

MAXTERMS = 60000


def _chk(p):
    if len(p) > MAXTERMS:
        raise Blowup(f"polynomial of {len(p)} terms")
    return p


class Sym:
    """A rational function num / prod(den)."""

    __slots__ = ("n", "d", "_h", "ang")
    __array_priority__ = 1000

    def __init__(self, n, d=None, ang=None):
        self.n = n
        self.d = d or {}
        self._h = None
        self.ang = ang

    # -- construction
    @staticmethod
    def const(c):
        return Sym(P.pconst(rat(c)))

    @staticmethod
    def lift(o):
        if isinstance(o, Sym):
            return o
        if isinstance(o, NUM):
            return Sym.const(o)
        if isinstance(o, np.ndarray) and o.ndim == 0:
            return Sym.lift(o.item())
        if isinstance(o, bool | np.bool_):
            return Sym.const(int(o))
        return None

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise SymError("pickle")

    # -- inspection
    def is_const(self):
        return not self.d and (not self.n or (len(self.n) == 1 and 0 in self.n))

    def cval(self):
        return self.n.get(0, 0)

    def __repr__(self):
        if self.is_const():
            return f"Sym({float(self.cval())})"
        s = " + ".join(
            f"{float(c):g}" + "".join(f"*{P.VARS[i]}^{e}" for i, e in P.exps(m))
            for m, c in sorted(self.n.items(), reverse=True)[:6]
        )
        if len(self.n) > 6:
            s += f" + ...({len(self.n)})"
        return f"Sym({s} / {len(self.d)}f)"

    def __hash__(self):
        if self._h is None:
            if self.is_const():
                self._h = hash(self.cval())
            else:
                self._h = hash(
                    (P.pkey(self.n), frozenset((k.key, e) for k, e in self.d.items()))
                )
        return self._h

    def same(self, o):
        o = Sym.lift(o)
        return o is not None and self.n == o.n and self.d == o.d

    # -- arithmetic
    def _den_to(self, L):
        """num scaled to denominator L (a dict of factors)."""
        n = self.n
        for f, e in L.items():
            k = e - self.d.get(f, 0)
            for _ in range(k):
                n = _chk(P.pmul(n, f.poly))
        return n

    def __add__(self, o):
        o2 = Sym.lift(o)
        if o2 is None:
            return _arr(o, lambda x: self + x)
        if not self.d and not o2.d:
            return Sym(P.padd(self.n, o2.n))
        if not o2.n:
            return self
        if not self.n:
            return o2
        if self.d == o2.d:
            return _simplify(P.padd(self.n, o2.n), dict(self.d))
        L = dict(self.d)
        for f, e in o2.d.items():
            L[f] = max(L.get(f, 0), e)
        return _simplify(P.padd(self._den_to(L), o2._den_to(L)), L)

    __radd__ = __add__

    def __neg__(self):
        return Sym(P.pneg(self.n), self.d, (_ang_scale(self.ang, -1)))

    def __pos__(self):
        return self

    def __sub__(self, o):
        o2 = Sym.lift(o)
        if o2 is None:
            return _arr(o, lambda x: self - x)
        return self + Sym(P.pneg(o2.n), o2.d)

    def __rsub__(self, o):
        o2 = Sym.lift(o)
        if o2 is None:
            return _arr(o, lambda x: x - self)
        return o2 + Sym(P.pneg(self.n), self.d)

    def __mul__(self, o):
        o2 = Sym.lift(o)
        if o2 is None:
            return _arr(o, lambda x: self * x)
        if not self.n or not o2.n:
            return Sym({})
        if not self.d and not o2.d:
            if len(self.n) * len(o2.n) > 4_000_000:
                raise Blowup("product too large")
            return Sym(_chk(P.pmul(self.n, o2.n)))
        n1, d1 = _cancel(self.n, o2.d)
        n2, d2 = _cancel(o2.n, self.d)
        if len(n1) * len(n2) > 4_000_000:
            raise Blowup("product too large")
        d = dict(d2)
        for f, e in d1.items():
            d[f] = d.get(f, 0) + e
        n = _chk(P.pmul(n1, n2))
        if P.RULES:
            n, d = _cancel(n, d)
        return Sym(n, d)

    __rmul__ = __mul__

    def inv(self):
        if not self.n:
            raise ZeroDivisionError("division by zero")
        if self.is_const():
            return Sym.const(Fraction(1) / self.cval())
        ENGINE.division(self)
        lc, p = P.monic(self.n)
        num = P.pconst(Fraction(1) / lc)
        for f, e in self.d.items():
            for _ in range(e):
                num = _chk(P.pmul(num, f.poly))
        d: dict = {}
        g = P.mono_gcd(p)
        if g:
            p = {m - g: c for m, c in p.items()}
            for i, e in P.exps(g):
                f = P.factor_of(P.pvar(i))
                d[f] = d.get(f, 0) + e
        if not (len(p) == 1 and 0 in p):
            # split off known factors
            if len(p) > 1:
                for f in list(P.FACTORS.values()):
                    if len(f.poly) < 2 or len(f.poly) > len(p):
                        continue
                    while len(p) > 1:
                        q = P.pdivexact(p, f.poly)
                        if q is None:
                            break
                        p = q
                        d[f] = d.get(f, 0) + 1
            if len(p) > 1:
                r = _perfect_square(p)
                if r is not None:
                    lc2, r = P.monic(r)
                    f = P.factor_of(r)
                    d[f] = d.get(f, 0) + 2
                else:
                    f = P.factor_of(p)
                    d[f] = d.get(f, 0) + 1
            elif not (len(p) == 1 and 0 in p):
                raise SymError("monomial content left")
            else:
                c = p[0]
                if c != 1:
                    num = P.pscale(num, Fraction(1) / c)
        return _simplify(num, d)

    def __truediv__(self, o):
        o2 = Sym.lift(o)
        if o2 is None:
            return _arr(o, lambda x: self / x)
        if o2.is_const():
            c = o2.cval()
            if not c:
                raise ZeroDivisionError("division by zero")
            return Sym(P.pscale(self.n, Fraction(1) / c), self.d)
        return self * o2.inv()

    def __rtruediv__(self, o):
        o2 = Sym.lift(o)
        if o2 is None:
            return _arr(o, lambda x: x / self)
        return o2 * self.inv()

    def __pow__(self, k):
        if isinstance(k, Sym):
            if not k.is_const():
                raise SymError("symbolic exponent")
            k = k.cval()
        k = rat(k)
        if isinstance(k, int):
            if k < 0:
                return (self ** (-k)).inv()
            r = Sym.const(1)
            b = self
            while k:
                if k & 1:
                    r = r * b
                k >>= 1
                if k:
                    b = b * b
            return r
        if k.denominator == 2:
            s = self.sqrt()
            return s ** int(k.numerator)
        if self.is_const():
            return Sym.const(float(self.cval()) ** float(k))
        raise SymError(f"power {k}")

    def __rpow__(self, o):
        if self.is_const():
            return Sym.lift(o) ** self.cval()
        raise SymError("symbolic exponent")

    def __abs__(self):
        if self.is_const():
            return Sym.const(abs(self.cval()))
        if ENGINE.merge and not ENGINE.havoc:
            return ENGINE.extremum([self, -self], 1)
        if bool(self >= 0):
            return self
        return -self

    def __mod__(self, o):
        o2 = Sym.lift(o)
        if self.is_const() and o2.is_const():
            return Sym.const(self.cval() % o2.cval())
        if o2.is_const() and o2.cval() > 0:
            # a branch: only values already known to be in range are supported
            if bool((self >= 0) & (self < o2)):
                return self
        raise SymError("symbolic modulo")

    def __floordiv__(self, o):
        o2 = Sym.lift(o)
        if self.is_const() and o2.is_const():
            return int(self.cval() // o2.cval())
        return (self / o2).__floor__()

    def __rfloordiv__(self, o):
        return Sym.lift(o) // self

    def __divmod__(self, o):
        return (self // o, self % o)

    def __float__(self):
        if self.is_const():
            return float(self.cval())
        raise SymError("float() of a symbolic value")

    def __int__(self):
        if self.is_const():
            return int(self.cval())
        return ENGINE.concretise(self, "trunc")

    def __floor__(self):
        if self.is_const():
            return math.floor(self.cval())
        return ENGINE.concretise(self, "floor")

    def __ceil__(self):
        if self.is_const():
            return math.ceil(self.cval())
        return ENGINE.concretise(self, "ceil")

    def __trunc__(self):
        return int(self)

    def __round__(self, nd=None):
        if self.is_const():
            return Sym.const(round(self.cval(), nd)) if nd is not None else round(
                self.cval()
            )
        if nd is None:
            return ENGINE.concretise(self, "round")
        if ENGINE.rounding is not None:
            return ENGINE.rounded(self, nd)
        return self  # rounding to digits is read as the identity on reals

    def __complex__(self):
        raise SymError("complex()")

    def is_integer(self):
        if self.is_const():
            return Fraction(self.cval()).denominator == 1
        raise SymError("is_integer")

    def __format__(self, spec):
        if self.is_const():
            return format(float(self.cval()), spec)
        if spec and spec[-1] == "d":
            raise SymError("format d")
        return TOKENS.token(self)

    def __str__(self):
        if self.is_const():
            return str(float(self.cval()))
        return TOKENS.token(self)

    # -- numpy object-array hooks
    def sqrt(self):
        return ENGINE.sqrt(self)

    def conjugate(self):
        return self

    def cos(self):
        return ENGINE.trig(self)[0]

    def sin(self):
        return ENGINE.trig(self)[1]

    def tan(self):
        c, s = ENGINE.trig(self)
        if bool(c == 0):  # no float is exactly a right angle
            return s * Fraction(16331239353195370)
        return s / c

    def arctan2(self, o):
        return ENGINE.atan2(self, Sym.lift(o))

    def arctan(self):
        return ENGINE.atan2(self, Sym.const(1))

    def rint(self):
        return self.__round__(0) if not self.is_const() else Sym.const(
            round(self.cval())
        )

    def fabs(self):
        return abs(self)

    def absolute(self):
        return abs(self)

    def item(self):
        return self

    @property
    def real(self):
        return self

    # -- comparison
    def _cmp(self, o, op):
        o2 = Sym.lift(o)
        if o2 is None:
            if isinstance(o, np.ndarray):
                return _arr(o, lambda x: self._cmp(x, op))
            if isinstance(o, float) and math.isinf(o):
                raise SymError("inf compare")
            return NotImplemented
        return mkcond(self - o2, op)

    def __lt__(self, o):
        if _isinf(o):
            return o > 0
        return self._cmp(o, "<")

    def __le__(self, o):
        if _isinf(o):
            return o > 0
        return self._cmp(o, "<=")

    def __gt__(self, o):
        if _isinf(o):
            return o < 0
        o2 = Sym.lift(o)
        if o2 is None:
            return self._cmp(o, ">") if False else _arr(o, lambda x: self > x)
        return mkcond(o2 - self, "<")

    def __ge__(self, o):
        if _isinf(o):
            return o < 0
        o2 = Sym.lift(o)
        if o2 is None:
            return _arr(o, lambda x: self >= x)
        return mkcond(o2 - self, "<=")

    def __eq__(self, o):
        if o is None or isinstance(o, str | tuple | list | dict):
            return False
        return self._cmp(o, "==")

    def __ne__(self, o):
        if o is None or isinstance(o, str | tuple | list | dict):
            return True
        return self._cmp(o, "!=")

    def __bool__(self):
        return bool(self != 0)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        if method != "__call__":
            return NotImplemented
        out = kw.pop("out", None)
        f = UFUNCS.get(ufunc.__name__)
        if f is None:
            raise SymError(f"ufunc {ufunc.__name__}")
        arrs = [
            x if isinstance(x, np.ndarray) else _obj0(x)
            for x in inputs
        ]
        res = np.frompyfunc(f, len(inputs), 1)(*[_asobj(a) for a in arrs])
        if out is not None:
            out[0][...] = res
            return out[0]
        return res


def _obj0(x):
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def _asobj(a):
    return a if a.dtype == object else a.astype(object)


def _isinf(o):
    return isinstance(o, float | np.floating) and math.isinf(o)


def _arr(o, f):
    if isinstance(o, np.ndarray):
        r = np.empty(o.shape, dtype=object)
        for i, x in np.ndenumerate(o):
            r[i] = f(x)
        return r
    return NotImplemented


def _ang_scale(a, k):
    return None if a is None else a.scale(k)


def _cancel(n, d):
    """Cancels denominator factors that divide n exactly."""
    if not d:
        return n, d
    dd = {}
    for f, e in d.items():
        if len(f.poly) == 1:
            ((m, _),) = f.poly.items()
            k = e
            while k and all(P.divides(m, x) for x in n):
                n = {x - m: c for x, c in n.items()}
                k -= 1
        else:
            k = e
            while k:
                if len(n) < 2 or len(f.poly) > len(n) * 4 + 64:
                    break
                q = P.pdivexact(n, f.poly)
                if q is None:
                    break
                n = q
                k -= 1
        if k:
            dd[f] = k
    return n, dd


def _simplify(n, d):
    if not n:
        return Sym({})
    _chk(n)
    n, d = _cancel(n, d)
    return Sym(n, d)


def _perfect_square(p):
    """r with r*r == p, or None (plain polynomials, positive square lead)."""
    if len(p) < 2 or len(p) > 400:
        return None
    lm = max(p)
    r: dict = {}
    e = P.exps(lm)
    if any(x % 2 for _, x in e):
        return None
    sm = min(p)
    if any(x % 2 for _, x in P.exps(sm)):
        return None
    c = _isqrt(p[lm])
    if c is None:
        return None
    hm = sum((x // 2) << (P.W * i) for i, x in e)
    r = {hm: c}
    rem = {m: v for m, v in p.items() if m != lm}
    for _ in range(60):
        if not rem:
            return r
        m = max(rem)
        if not P.divides(hm, m):
            return None
        t = m - hm
        ct = P.norm(Fraction(rem[m]) / (2 * c))
        # (r + ct*t)^2 = r^2 + 2 r ct t + ct^2 t^2
        sub: dict = {}
        for mr, cr in r.items():
            sub[mr + t] = sub.get(mr + t, 0) + 2 * cr * ct
        sub[t + t] = sub.get(t + t, 0) + ct * ct
        if t in r:
            return None
        r[t] = ct
        rem = P.psub(rem, {a: P.norm(b) for a, b in sub.items() if b})
    return None


_RATS: dict = {}


def _rat(c):
    c = Fraction(c)
    z = _RATS.get(c)
    if z is None:
        if len(_RATS) > 200000:
            _RATS.clear()
        z = _RATS[c] = z3.RatVal(c.numerator, c.denominator)
    return z


def _isqrt(c):
    c = Fraction(c)
    if c < 0:
        return None
    a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if a * a == c.numerator and b * b == c.denominator:
        return P.norm(Fraction(a, b))
    return None


# ---------------------------------------------------------------- conditions


class Cond:
    """A boolean combination of polynomial sign conditions."""

    __slots__ = ("op", "args")

    def __init__(self, op, args):
        self.op = op  # '<','<=','==','!=' with args=(poly,), or 'and','or'
        self.args = args

    def __bool__(self):
        return ENGINE.decide(self)

    def __invert__(self):
        if self.op == "and":
            return Cond("or", tuple(~a for a in self.args))
        if self.op == "or":
            return Cond("and", tuple(~a for a in self.args))
        p = self.args[0]
        if self.op == "<":
            return Cond("<=", (P.pneg(p),))
        if self.op == "<=":
            return Cond("<", (P.pneg(p),))
        return Cond("!=" if self.op == "==" else "==", (p,))

    def __and__(self, o):
        if isinstance(o, bool | np.bool_):
            return self if o else False
        return Cond("and", (self, o))

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, bool | np.bool_):
            return True if o else self
        return Cond("or", (self, o))

    __ror__ = __or__

    def __eq__(self, o):
        if isinstance(o, bool | np.bool_):
            return bool(self) == bool(o)
        return NotImplemented

    def key(self):
        if self.op in ("and", "or"):
            return (self.op, tuple(a.key() for a in self.args))
        return (self.op, P.pkey(self.args[0]))

    def __hash__(self):
        return hash(self.key())

    def z3(self):
        if self.op == "and":
            return z3.And(*[a.z3() for a in self.args])
        if self.op == "or":
            return z3.Or(*[a.z3() for a in self.args])
        e = ENGINE.zpoly(self.args[0])
        if self.op == "<":
            return e < 0
        if self.op == "<=":
            return e <= 0
        if self.op == "==":
            return e == 0
        return e != 0

    def vars(self):
        if self.op in ("and", "or"):
            s = set()
            for a in self.args:
                s |= a.vars()
            return s
        return P.pvars(self.args[0])

    def evalf(self, vals):
        if self.op == "and":
            return all(a.evalf(vals) for a in self.args)
        if self.op == "or":
            return any(a.evalf(vals) for a in self.args)
        v = P.to_float_eval(self.args[0], vals)
        if self.op == "==" and abs(v) >= 1e-9:
            size = P.to_float_eval({m: abs(c) for m, c in self.args[0].items()}, [abs(x) for x in vals])
            return abs(v) < 1e-12 * size
        return {"<": v < 0, "<=": v <= 1e-12, "==": abs(v) < 1e-9, "!=": v != 0}[
            self.op
        ]

    def __repr__(self):
        if self.op in ("and", "or"):
            return f"({f' {self.op} '.join(map(repr, self.args))})"
        return f"[{Sym(self.args[0])!r} {self.op} 0]"


def mkcond(s: Sym, op: str):
    """Condition  s op 0."""
    n = s.n
    if not n:
        return op in ("<=", "==")
    if s.is_const():
        c = s.cval()
        return {"<": c < 0, "<=": c <= 0, "==": c == 0, "!=": c != 0}[op]
    if s.d and op in ("<", "<="):
        for f, e in s.d.items():
            if e % 2:
                sg = ENGINE.sign_of_factor(f)
                if sg is None:
                    n = P.pmul(n, f.poly)
                elif sg < 0:
                    n = P.pneg(n)
    # normalise scale (positive)
    g = P.mono_gcd(n)
    if g:
        # divide out variables of known nonzero sign
        for i, e in P.exps(g):
            sg = ENGINE.signs.get(i)
            if sg in (1, -1):
                n = {m - (e << (P.W * i)): c for m, c in n.items()}
                if sg < 0 and e % 2:
                    n = P.pneg(n)
        if len(n) == 1 and 0 in n:
            c = n[0]
            return {"<": c < 0, "<=": c <= 0, "==": c == 0, "!=": c != 0}[op]
    lc = abs(n[max(n)])
    if lc != 1:
        n = P.pscale(n, Fraction(1) / lc)
    if op in ("==", "!="):
        if n[max(n)] < 0:
            n = P.pneg(n)
    # quick sign: every term of known sign
    q = ENGINE.quick_sign(n)
    if q is not None:
        lo, hi = q  # strict flags: n>0 -> (True..)
        if lo == "pos":
            return op in ("!=",) if op in ("==", "!=") else False
        if lo == "neg":
            return op in ("<", "<=", "!=")
        if lo == "nonneg" and op == "<":
            return False
        if lo == "nonpos" and op == "<=":
            return True
    return Cond(op, (n,))


def all_of(*cs):
    r = True
    for c in cs:
        if isinstance(c, bool | np.bool_):
            if not c:
                return False
        else:
            r = c if r is True else (r & c)
    return r


def any_of(*cs):
    r = False
    for c in cs:
        if isinstance(c, bool | np.bool_):
            if c:
                return True
        else:
            r = c if r is False else (r | c)
    return r


def negate(c):
    if isinstance(c, bool | np.bool_):
        return not c
    return ~c


# ---------------------------------------------------------------- angles


class Ang:
    """k0*PI-multiple + sum k_i * base angles (radians), k rational."""

    __slots__ = ("pi", "terms")

    def __init__(self, pi=0, terms=None):
        self.pi = pi
        self.terms = terms or {}

    def scale(self, k):
        return Ang(self.pi * k, {b: c * k for b, c in self.terms.items()})


# ---------------------------------------------------------------- text tokens


class Tokens:
    """Text written from symbolic values carries tokens that can be looked up."""

    def __init__(self):
        self.by_id = {}

    def token(self, s):
        i = len(self.by_id) + 1
        t = f"<<{i}>>"
        self.by_id[t] = s
        return t


TOKENS = Tokens()

# ---------------------------------------------------------------- engine


class Engine:
    def __init__(self):
        self.reset_all()

    def reset_all(self):
        P.reset()
        TOKENS.by_id.clear()
        self.inputs = []  # (name, index, lo, hi)
        self.pins = {}  # inputs fixed by a choice
        self.facts = []  # Cond: assumptions, definitions, decisions
        self.sq = {}
        self.angles = {}
        self.trigcache = {}
        self.exts = {}
        self.signs = {}
        self.pi = None
        self.zv = {}
        self.zm = {}
        self.decisions = []
        self.pos = 0
        self.known = {}
        self.div_check = False
        self.stats_paths = getattr(self, "stats_paths", 0)
        self.queries = getattr(self, "queries", 0)
        self.solver_s = getattr(self, "solver_s", 0.0)
        self.feas_timeout = 3000
        self.unknown_forks = getattr(self, "unknown_forks", 0)
        self.defs = {}  # aux var -> evaluator(vals)
        self.concretised = 0
        self.assumed_div = getattr(self, "assumed_div", 0)
        self.theta_yx = {}
        self.havoc = False
        self.havocked = 0
        self.rounding = None  # or a table: rounding to digits gives a fresh nearby value
        self.generic = False  # read == of different expressions as false
        self._mkpi()

    def _mkpi(self):
        # always variable 0, so that pi can be stored in module globals
        i = P.new_var("PI", lo=3.14, hi=3.15)
        self.pi = i
        s = Sym(P.pvar(i))
        self.signs[i] = 1
        self.facts.append(Cond("<", ((Sym.const(Fraction(314159, 100000)) - s).n,)))
        self.facts.append(Cond("<", ((s - Sym.const(Fraction(31416, 10000))).n,)))
        self.defs[i] = lambda vals: math.pi

    # -- variables
    def var(self, name, lo=None, hi=None, **info):
        i = P.new_var(name, lo=lo, hi=hi, **info)
        s = Sym(P.pvar(i))
        v = None
        if lo is not None:
            lo = rat(lo)
            if lo >= 0:
                self.signs[i] = 1 if lo > 0 or info.get("strict") else 0
            self.facts.append(
                Cond("<" if info.get("strict") else "<=", ((Sym.const(lo) - s).n,))
            )
        if hi is not None:
            hi = rat(hi)
            if hi <= 0:
                self.signs[i] = -1 if hi < 0 else 0
                if lo is None or lo < 0:
                    self.signs.pop(i, None)
                    if hi < 0 or info.get("strict"):
                        self.signs[i] = -1
            self.facts.append(
                Cond("<" if info.get("strict") else "<=", ((s - Sym.const(hi)).n,))
            )
        return s

    def input(self, name, lo=None, hi=None, strict=False):
        s = self.var(name, lo, hi, strict=strict, input=True)
        self.inputs.append((name, len(P.VARS) - 1, lo, hi))
        return s

    @property
    def PI(self):
        return Sym(P.pvar(self.pi))

    # -- sign reasoning without the solver
    def quick_sign(self, n):
        """('pos'|'neg'|'nonneg'|'nonpos', None) if syntactically evident."""
        pos = neg = False
        strict = False
        for m, c in n.items():
            s = 1
            st = True
            for i, e in P.exps(m):
                sg = self.signs.get(i)
                if sg is None:
                    if e % 2:
                        return None
                    st = False
                elif sg == 0:
                    st = False
                elif sg < 0 and e % 2:
                    s = -s
            if c < 0:
                s = -s
            if s > 0:
                pos = True
            else:
                neg = True
            if pos and neg:
                return None
            strict = strict or st
        if pos:
            return ("pos" if strict else "nonneg", None)
        return ("neg" if strict else "nonpos", None)

    def sign_of_factor(self, f):
        k = ("sgn", f.key)
        if k in self.known:
            return self.known[k]
        q = self.quick_sign(f.poly)
        r = None
        if q:
            if q[0] in ("pos", "nonneg"):
                r = 1
            else:
                r = -1
        if r is None:
            for c in self.facts:
                if c.op == "<":
                    a = c.args[0]
                    if len(a) == len(f.poly):
                        lc, mp = P.monic(a)
                        if mp == f.poly:
                            r = -1 if lc > 0 else 1
                            break
                if c.op in ("<", "<="):
                    # the fact bounds the factor away from zero: a = k*f + c0 < 0
                    a = c.args[0]
                    if len(a) - (0 in a) == len(f.poly) - (0 in f.poly) and len(a) > 1:
                        mx = max(f.poly)
                        if mx in a and mx:
                            k = Fraction(a[mx]) / Fraction(f.poly[mx])
                            if all(
                                m == 0 or Fraction(a.get(m, 0)) == k * v
                                for m, v in f.poly.items()
                            ) and all(m == 0 or m in f.poly for m in a):
                                c0 = Fraction(a.get(0, 0)) - k * Fraction(f.poly.get(0, 0))
                                if c0 > 0 or (c0 == 0 and c.op == "<"):
                                    r = 1 if k < 0 else -1
                                    break
        if r is not None:
            self.known[k] = r
        return r

    # -- z3 terms
    def zvar(self, i):
        v = self.zv.get(i)
        if v is None:
            v = z3.Real(f"{P.VARS[i]}!{i}")
            self.zv[i] = v
        return v

    abstract = False

    def zmono(self, m):
        if self.abstract:
            e = P.exps(m)
            if len(e) == 1 and e[0][1] == 1:
                return self.zvar(e[0][0])
            self.nonlin.add(m)
            return z3.Real(f"mono!{m}")
        z = self.zm.get(m)
        if z is None:
            t = []
            for i, e in P.exps(m):
                t.extend([self.zvar(i)] * e)
            z = t[0] if len(t) == 1 else z3.Product(*t)
            self.zm[m] = z
        return z

    def zpoly(self, p):
        ts = []
        for m, c in p.items():
            k = _rat(c)
            if m == 0:
                ts.append(k)
            elif c == 1:
                ts.append(self.zmono(m))
            else:
                ts.append(k * self.zmono(m))
        if not ts:
            return z3.RealVal(0)
        return ts[0] if len(ts) == 1 else z3.Sum(*ts)

    # -- solving
    def check(self, conds, timeout=None, want_model=False, extra=()):
        """sat / unsat / unknown for facts relevant to conds + conds."""
        # monomials uninterpreted first: linear, fast, and unsat carries over
        t = time.time()
        self.abstract, self.nonlin = True, set()
        try:
            zs = [c.z3() if isinstance(c, Cond) else z3.BoolVal(bool(c)) for c in conds]
        finally:
            self.abstract = False
        if self.nonlin and not extra:
            for m in self.nonlin:
                sg, strict = 1, True
                for i, e in P.exps(m):
                    k = self.signs.get(i)
                    if e % 2 == 0:
                        strict = strict and k in (1, -1)
                    elif k is None:
                        sg = 0
                        break
                    elif k == 0:
                        strict = False
                    else:
                        sg *= k
                if sg:
                    v = z3.Real(f"mono!{m}") * sg
                    zs.append(v > 0 if strict else v >= 0)
            ls = z3.SimpleSolver()
            ls.set("timeout", min(2000, timeout or self.feas_timeout))
            ls.add(*zs)
            r = ls.check()
            if r == z3.unsat:
                self.solver_s += time.time() - t
                self.queries += 1
                return (r, None) if want_model else r
        s = z3.Solver()
        s.set("timeout", timeout or self.feas_timeout)
        for c in conds:
            s.add(c.z3() if isinstance(c, Cond) else z3.BoolVal(bool(c)))
        for e in extra:
            s.add(e)
        r = s.check()
        self.solver_s += time.time() - t
        self.queries += 1
        if r == z3.sat and want_model:
            return r, s.model()
        return (r, None) if want_model else r

    def relevant(self, cond):
        """Facts sharing variables (transitively) with cond."""
        vs = set(cond.vars()) if isinstance(cond, Cond) else set()
        pend = [(c, c.vars()) for c in self.facts]
        out = []
        ch = True
        while ch:
            ch = False
            rest = []
            for c, v in pend:
                if v & vs:
                    out.append(c)
                    if not v <= vs:
                        vs |= v
                        ch = True
                else:
                    rest.append((c, v))
            pend = rest
        return out

    def entailed(self, cond, timeout=None):
        if isinstance(cond, bool | np.bool_):
            return bool(cond)
        neg = ~cond
        if neg.op not in ("and", "or"):
            r = self.lin_check(neg)
            if r:
                return True
        return self.check(self.relevant(cond) + [neg], timeout) == z3.unsat

    def lin_check(self, neg):
        """True if neg is already refuted by a stored fact syntactically."""
        k = neg.key()
        return any((~c).key() == k for c in self.facts if c.op not in ("and", "or"))

    def assume(self, cond):
        if isinstance(cond, bool | np.bool_):
            if not cond:
                raise PathAbort
            return
        if cond.op == "and":
            for a in cond.args:
                self.assume(a)
            return
        self.facts.append(cond)
        if cond.op == "<" and len(cond.args[0]) == 1:
            ((m, c),) = cond.args[0].items()
            e = P.exps(m)
            if len(e) == 1 and e[0][1] == 1:
                self.signs[e[0][0]] = -1 if c > 0 else 1

    havoc = False

    def decide(self, cond):
        if self.havoc:
            # results that cannot depend on this comparison are being computed
            self.havocked += 1
            return True
        if self.generic and cond.op in ("==", "!="):
            return cond.op == "!="
        k = cond.key()
        if k in self.known:
            return self.known[k]
        nk = (~cond).key()
        if nk in self.known:
            return not self.known[nk]
        if self.pos < len(self.decisions):
            val, forced = self.decisions[self.pos]
            self.pos += 1
        else:
            # feasibility of both branches
            rel = self.relevant(cond)
            rt = self.check(rel + [cond])
            rf = z3.sat
            if rt == z3.unsat:
                val, forced = False, True
            else:
                rf = self.check(rel + [~cond])
                if rf == z3.unsat:
                    val, forced = True, True
                else:
                    val, forced = True, False
                    if z3.unknown in (rt, rf):
                        self.unknown_forks += 1
            self.decisions.append((val, forced))
            self.pos += 1
        self.known[k] = val
        self.assume(cond if val else ~cond)
        return val

    def branch(self):
        """An unconstrained two-way fork."""
        if self.pos < len(self.decisions):
            val, _ = self.decisions[self.pos]
        else:
            val = True
            self.decisions.append((True, False))
        self.pos += 1
        return val

    def choice(self, name, n):
        """An integer input 0..n-1; every value gets its own path."""
        s = self.input(name, 0, n - 1)
        k = 0
        while k < n - 1 and not self.branch():
            k += 1
        self.pins[name] = Fraction(k)
        self.facts.append(Cond("==", ((s - Sym.const(k)).n,)))
        return k

    def concretise(self, s, mode):
        """Forks over the integer values of floor/ceil/round/trunc(s)."""
        k = (mode, P.pkey(s.n), frozenset((f.key, e) for f, e in s.d.items()))
        if k in self.known:
            return self.known[k]
        lo, hi = self.int_window
        for v in range(lo, hi + 1):
            if mode == "floor":
                c = all_of(s >= v, s < v + 1)
            elif mode == "ceil":
                c = all_of(s > v - 1, s <= v)
            elif mode == "round":
                c = all_of(s >= v - Fraction(1, 2), s < v + Fraction(1, 2))
            else:
                c = (
                    all_of(s >= v, s < v + 1)
                    if v > 0
                    else all_of(s > v - 1, s < 1)
                    if v == 0
                    else all_of(s > v - 1, s <= v)
                )
            if bool(c):
                self.known[k] = v
                self.concretised += 1
                return v
        # outside the declared window: out of the stated bounds
        raise PathAbort

    int_window = (0, 12)

    # -- division
    def division(self, s):
        if self.div_check:
            if bool(Sym(s.n) == 0):
                raise ZeroDivisionError("division by zero")
        else:
            self.assumed_div += 1
            if self.on_div is not None:
                self.on_div(s)

    on_div = None

    # -- sqrt
    def sqrt(self, s):
        if s.is_const():
            c = s.cval()
            if c < 0:
                raise ValueError("math domain error")
            r = _isqrt(c)
            if r is not None:
                return Sym.const(r)
            if self.num_sqrt:
                return Sym.const(_sqrt_approx(c))
        # sqrt(n/d) = sqrt(n*odd d)/|..|
        den = Sym.const(1)
        n = s.n
        for f, e in s.d.items():
            if e % 2:
                n = P.pmul(n, f.poly)
                e += 1
            den = den * Sym(P.ppow(f.poly, e // 2))
        den = abs(den)
        # content
        lc = Fraction(n[max(n)])
        g = P.mono_gcd(n)
        pre = Sym.const(1)
        for i, e in P.exps(g):
            if e >= 2:
                k = e // 2
                v = Sym(P.pvar(i))
                vk = v**k
                pre = pre * (vk if k % 2 == 0 else abs(vk))
                n = {m - ((2 * k) << (P.W * i)): c for m, c in n.items()}
        r = _isqrt(abs(lc))
        if r is None:
            # pull out the square part of numerator and denominator of the content
            num, dd = abs(lc).numerator, abs(lc).denominator
            r = Fraction(_sqpart(num * dd), dd)
        n = P.pscale(n, 1 / Fraction(r) ** 2)
        pre = pre * Sym.const(r) / den
        sq = _perfect_square(n) if len(n) > 1 else None
        if len(n) == 1 and 0 in n and _isqrt(n[0]) is not None:
            return pre * Sym.const(_isqrt(n[0]))
        if sq is not None:
            sq = Sym(sq)
            return pre * abs(sq)
        for vi, rp in P.RULES.items():
            # v**2 == rp, so sqrt(q*q*rp) = q*|v|
            if len(rp) == len(n) and set(rp) == set(n):
                m0 = max(n)
                q = Fraction(n[m0]) / Fraction(rp[m0])
                rq = _isqrt(q) if q > 0 else None
                if rq is not None and all(Fraction(n[m]) == q * rp[m] for m in n):
                    v = Sym(P.pvar(vi))
                    if self.signs.get(vi) in (0, 1):
                        return pre * v * Sym.const(rq)
                    return pre * Sym.const(rq) * (v if bool(v >= 0) else -v)
        k = P.pkey(n)
        i = self.sq.get(k)
        if i is None:
            arg = Sym(n)
            if arg.is_const():
                if arg.cval() < 0:
                    raise ValueError("math domain error")
            elif self.neg_sqrt_check and not self.entailed(arg >= 0):
                if bool(arg < 0):
                    raise ValueError("math domain error: sqrt of a negative number")
            i = P.new_var(f"sqrt{len(self.sq)}", lo=0)
            self.sq[k] = i
            self.signs[i] = 1 if (arg.is_const() or self.quick_sign(n) == ("pos", None)) else 0
            v = Sym(P.pvar(i))
            self.facts.append(Cond("<=", (P.pneg(v.n),)))
            # definitional fact, before the rewrite rule exists
            sqm = {2 << (P.W * i): 1}
            self.facts.append(Cond("==", (P.psub(sqm, n),)))
            P.set_rule(i, n)
            self.defs[i] = lambda vals, n=n: math.sqrt(max(0.0, P.to_float_eval(n, vals)))
        return pre * Sym(P.pvar(i))

    neg_sqrt_check = True
    merge = False
    num_sqrt = False

    def rounded(self, s, nd):
        """rounding to nd digits: some value within half a unit, the same for the same
        argument, and unchanged by rounding again"""
        if not s.d and len(s.n) == 1:
            ((m, c),) = s.n.items()
            e = P.exps(m) if m else ()
            if c == 1 and len(e) == 1 and e[0][1] == 1:
                k = self.rounding.get(e[0][0])
                if k is not None and k <= nd:
                    return s
        key = (hash(s), nd)
        if key not in self.rounding:
            i = P.new_var("round")
            v = Sym(P.pvar(i))
            h = Fraction(1, 2) / Fraction(10) ** nd
            self.assume(v - s <= h)
            self.assume(s - v <= h)
            self.defs[i] = lambda vals: round(symf(s, vals), nd)
            self.rounding[i] = nd
            self.rounding[key] = v
        return self.rounding[key]

    def extremum(self, vals, sign):
        """max (sign 1) or min (-1) as a fresh value with its defining facts."""
        items = []
        for v in vals:
            v = Sym.lift(v)
            sub = None
            if not v.d and len(v.n) == 1:
                ((m, c),) = v.n.items()
                if c == 1:
                    e = P.exps(m)
                    if len(e) == 1 and e[0][1] == 1:
                        sub = self.exts.get((e[0][0], sign))
            for x in sub if sub else [v]:
                if not any(x.same(y) for y in items):
                    items.append(x)
        # drop what is syntactically dominated
        keep = []
        for i, a in enumerate(items):
            dom = False
            for j, b in enumerate(items):
                if i == j:
                    continue
                d = (b - a) if sign > 0 else (a - b)
                if d.is_const():
                    if d.cval() > 0 or (d.cval() == 0 and j < i):
                        dom = True
                elif not d.d:
                    q = self.quick_sign(d.n)
                    if q and (q[0] == "pos" or (q[0] == "nonneg")):
                        dom = True
                if dom:
                    break
            if not dom:
                keep.append(a)
        items = keep or items[:1]
        if len(items) == 1:
            return items[0]
        key = ("ext", sign, tuple(sorted(hash(x) for x in items)))
        got = self.trigcache.get(key)
        if got is not None:
            return got
        i = P.new_var("max" if sign > 0 else "min")
        v = Sym(P.pvar(i))
        for x in items:
            self.assume((v >= x) if sign > 0 else (v <= x))
        self.assume(any_of(*[v == x for x in items]))
        f = max if sign > 0 else min
        self.defs[i] = lambda vals, items=tuple(items): f(symf(x, vals) for x in items)
        self.exts[(i, sign)] = items
        if sign > 0:
            # a maximum of x and -x
            if len(items) == 2 and items[0].same(-items[1]):
                self.signs[i] = 0
                self.assume(v >= 0)
            elif any(x.is_const() and x.cval() > 0 for x in items):
                self.signs[i] = 1
            elif any(x.is_const() and x.cval() == 0 for x in items):
                self.signs[i] = 0
        self.trigcache[key] = v
        return v

    # -- angles
    def new_angle(self, name, c, s, evalf):
        """A Sym angle with cos c and sin s."""
        i = P.new_var(name)
        self.angles[i] = (c, s)
        self.defs[i] = evalf
        return Sym(P.pvar(i))

    def angle_input(self, name, lo=None, hi=None):
        """An arbitrary angle in radians, as a symbolic input."""
        th = self.input(name, lo, hi)
        i = len(P.VARS) - 1
        self.angle_atoms(i, name, 1)
        return th

    def angle_atoms(self, i, name, q):
        """cos/sin variables for (angle var i)/q."""
        key = (i, q)
        if key in self.trigcache:
            return self.trigcache[key]
        if q == 1 and i in self.angles:
            return self.angles[i]
        ci = P.new_var(f"cos_{name}_{q}", lo=-1, hi=1)
        si = P.new_var(f"sin_{name}_{q}", lo=-1, hi=1)
        c, s = Sym(P.pvar(ci)), Sym(P.pvar(si))
        self.facts.append(
            Cond("==", (P.psub({2 << (P.W * si): 1, 2 << (P.W * ci): 1}, {0: 1}),))
        )
        for x in (c, s):
            self.facts.append(Cond("<=", ((x - 1).n,)))
            self.facts.append(Cond("<=", ((-1 - x).n,)))
        P.set_rule(si, {0: 1, 2 << (P.W * ci): -1})
        self.defs[ci] = lambda vals: math.cos(vals[i] / q)
        self.defs[si] = lambda vals: math.sin(vals[i] / q)
        self.trigcache[key] = (c, s)
        if q == 1:
            self.angles[i] = (c, s)
        return c, s

    def trig(self, a: Sym):
        """(cos a, sin a)."""
        if a.is_const():
            v = float(a.cval())
            return Sym.const(math.cos(v)), Sym.const(math.sin(v))
        if a.d:
            if all(len(f.poly) == 1 for f in a.d) and False:
                pass
            raise SymError("trig of a rational expression")
        c, s = Sym.const(1), Sym.const(0)
        pib = None if self.pi is None else 1 << (P.W * self.pi)
        for m, k in a.n.items():
            if m == 0:
                cc, ss = Sym.const(math.cos(k)), Sym.const(math.sin(k))
            elif m == pib:
                k = Fraction(k)
                cc, ss = Sym.const(_cospi(k)), Sym.const(_sinpi(k))
            else:
                e = P.exps(m)
                if len(e) != 1 or e[0][1] != 1:
                    raise SymError(f"trig of {a!r}")
                i = e[0][0]
                k = Fraction(k)
                c1, s1 = self.angle_atoms(i, P.VARS[i], 1) if k.denominator == 1 else (
                    self.angle_atoms(i, P.VARS[i], k.denominator)
                )
                n = abs(k.numerator)
                cc, ss = Sym.const(1), Sym.const(0)
                for _ in range(n):
                    cc, ss = cc * c1 - ss * s1, ss * c1 + cc * s1
                if k < 0:
                    ss = -ss
            c, s = c * cc - s * ss, s * cc + c * ss
        return c, s

    def atan2(self, y: Sym, x: Sym):
        if y.is_const() and x.is_const():
            fy, fx = float(y.cval()), float(x.cval())
            if fy == 0 and fx < 0:
                return self.PI
            if fy == 0:
                return Sym.const(0)
            if fx == 0:
                return self.PI * Fraction(1 if fy > 0 else -1, 2)
            if abs(fx) == abs(fy):
                return self.PI * (
                    Fraction(1 if fx > 0 else 3, 4) * (1 if fy > 0 else -1)
                )
        key = ("atan2", hash(y), hash(x))
        if key in self.trigcache:
            return self.trigcache[key]
        # both zero: angle 0
        if not (y.is_const() and x.is_const()):
            if bool(all_of(y == 0, x == 0)):
                return Sym.const(0)
        r = (x * x + y * y).sqrt()
        c, s = x / r, y / r
        yy, xx = y, x
        i = P.new_var("theta")
        self.angles[i] = (c, s)
        t = Sym(P.pvar(i))
        pi = self.PI
        self.facts.append(Cond("<=", ((t - pi).n,)))
        self.facts.append(Cond("<=", ((-pi - t).n,)))
        self.defs[i] = lambda vals: math.atan2(symf(yy, vals), symf(xx, vals))
        self.trigcache[key] = t
        self.theta_yx[i] = (y, x)
        return t


def _sqrt_approx(c):
    """rational square root, relative error below 1e-30"""
    c = Fraction(c)
    k = 10**40
    n, d = c.numerator, c.denominator
    return Fraction(math.isqrt(n * d * k * k), d * k)


def _sqpart(n):
    """largest r with r*r | n (trial division up to 2000)."""
    r = 1
    d = 2
    while d * d <= n and d < 2000:
        while n % (d * d) == 0:
            n //= d * d
            r *= d
        d += 1
    k = math.isqrt(n)
    if k * k == n:
        r *= k
    return r


_EX = {
    Fraction(0): 1, Fraction(1, 3): Fraction(1, 2), Fraction(1, 2): 0,
    Fraction(2, 3): Fraction(-1, 2), Fraction(1): -1,
}  # fmt: skip


def _cospi(k):
    k = Fraction(k) % 2
    if k > 1:
        k = 2 - k
    if k in _EX:
        return _EX[k]
    return math.cos(math.pi * float(k))


def _sinpi(k):
    return _cospi(Fraction(k) - Fraction(1, 2))


def symf(s, vals):
    """Float value of a Sym at vals."""
    if not isinstance(s, Sym):
        return float(s)
    v = P.to_float_eval(s.n, vals)
    for f, e in s.d.items():
        v /= P.to_float_eval(f.poly, vals) ** e
    return v


ENGINE = Engine()


def _symext(f, sign):
    def g(*a, key=None, **k):
        xs = list(a[0]) if len(a) == 1 else list(a)
        if (
            ENGINE.merge
            and not ENGINE.havoc
            and key is None
            and xs
            and any(isinstance(x, Sym) for x in xs)
            and all(Sym.lift(x) is not None for x in xs)
        ):
            return ENGINE.extremum(xs, sign)
        if key is not None:
            k["key"] = key
        return f(xs, **k)

    return g


symmax = _symext(max, 1)
symmin = _symext(min, -1)


def _max(a, b):
    return a if bool(a >= b) else b


def _min(a, b):
    return a if bool(a <= b) else b


def _L(x):
    r = Sym.lift(x)
    if r is None:
        raise SymError(f"cannot lift {type(x)}")
    return r


UFUNCS = {
    "add": lambda a, b: a + b,
    "subtract": lambda a, b: a - b,
    "multiply": lambda a, b: a * b,
    "divide": lambda a, b: _L(a) / b,
    "true_divide": lambda a, b: _L(a) / b,
    "floor_divide": lambda a, b: a // b,
    "power": lambda a, b: _L(a) ** b,
    "float_power": lambda a, b: _L(a) ** b,
    "square": lambda a: a * a,
    "negative": lambda a: -a,
    "positive": lambda a: a,
    "sqrt": lambda a: _L(a).sqrt(),
    "cos": lambda a: _L(a).cos(),
    "sin": lambda a: _L(a).sin(),
    "tan": lambda a: _L(a).tan(),
    "arctan2": lambda a, b: _L(a).arctan2(_L(b)),
    "arctan": lambda a: _L(a).arctan(),
    "hypot": lambda a, b: (_L(a) ** 2 + _L(b) ** 2).sqrt(),
    "absolute": lambda a: abs(a),
    "fabs": lambda a: abs(a),
    "maximum": _max,
    "minimum": _min,
    "fmax": _max,
    "fmin": _min,
    "less": lambda a, b: a < b,
    "less_equal": lambda a, b: a <= b,
    "greater": lambda a, b: a > b,
    "greater_equal": lambda a, b: a >= b,
    "equal": lambda a, b: a == b,
    "not_equal": lambda a, b: a != b,
    "reciprocal": lambda a: 1 / _L(a),
    "deg2rad": lambda a: _L(a) * ENGINE.PI / 180,
    "radians": lambda a: _L(a) * ENGINE.PI / 180,
    "rad2deg": lambda a: _L(a) * 180 / ENGINE.PI,
    "degrees": lambda a: _L(a) * 180 / ENGINE.PI,
    "floor": lambda a: Sym.const(math.floor(a)),
    "ceil": lambda a: Sym.const(math.ceil(a)),
    "rint": lambda a: Sym.const(round(a)),
    "sign": lambda a: 0 if bool(_L(a) == 0) else (1 if bool(_L(a) > 0) else -1),
    "matmul": None,
    "isfinite": lambda a: True,
    "isnan": lambda a: False,
    "isinf": lambda a: False,
    "logical_and": lambda a, b: bool(a) and bool(b),
    "logical_or": lambda a, b: bool(a) or bool(b),
    "logical_not": lambda a: not bool(a),
}
