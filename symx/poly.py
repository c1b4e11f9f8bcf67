"""Exact multivariate polynomials / rational functions with algebraic side relations.

A monomial is one Python int: variable i owns bits [W*i, W*(i+1)); multiplying
monomials is integer addition.  Coefficients are ints or Fractions.  Some variables
carry a rewrite rule  v**2 -> polynomial  (square roots, sin from cos); products are
kept reduced modulo those rules, so algebraic identities become syntactic ones before
the query is sent to the SMT solver.
"""

from __future__ import annotations

from fractions import Fraction

W = 10
MASK = (1 << W) - 1

VARS: list[str] = []  # index -> name
VARINFO: list[dict] = []  # index -> info
RULES: dict[int, dict] = {}  # var index -> polynomial for v**2
_RULE_MASK = 0  # bits set for "exponent >= 2" of ruled variables


def reset() -> None:
    global _RULE_MASK
    VARS.clear()
    VARINFO.clear()
    RULES.clear()
    _RULE_MASK = 0
    FACTORS.clear()


def new_var(name: str, **info) -> int:
    VARS.append(name)
    VARINFO.append(info)
    return len(VARS) - 1


def set_rule(i: int, p: dict) -> None:
    global _RULE_MASK
    RULES[i] = p
    _RULE_MASK |= (MASK ^ 1) << (W * i)


def norm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


def pconst(c) -> dict:
    c = norm(c)
    return {0: c} if c else {}


def pvar(i: int) -> dict:
    return {1 << (W * i): 1}


def padd(a: dict, b: dict) -> dict:
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m)
        if v is None:
            r[m] = c
        else:
            v = v + c
            if v:
                r[m] = v
            else:
                del r[m]
    return r


def pneg(a: dict) -> dict:
    return {m: -c for m, c in a.items()}


def psub(a: dict, b: dict) -> dict:
    return padd(a, pneg(b))


def pscale(a: dict, k) -> dict:
    if not k:
        return {}
    if k == 1:
        return a
    return {m: norm(c * k) for m, c in a.items()}


def pmul(a: dict, b: dict) -> dict:
    if not a or not b:
        return {}
    if len(a) > len(b):
        a, b = b, a
    if len(a) == 1:
        ((ma, ca),) = a.items()
        if ma == 0:
            return pscale(b, ca)
        r = {m + ma: c * ca for m, c in b.items()}
    else:
        r = {}
        get = r.get
        for ma, ca in a.items():
            for mb, cb in b.items():
                m = ma + mb
                r[m] = get(m, 0) + ca * cb
        r = {m: c for m, c in r.items() if c}
    if _RULE_MASK:
        return preduce(r)
    return r


def preduce(r: dict) -> dict:
    """Applies v**2 -> rule until no ruled variable has exponent >= 2."""
    if not any(m & _RULE_MASK for m in r):
        return r
    out: dict = {}
    work = r
    # reduce the youngest ruled variable first: rules refer to older variables only
    while True:
        hi = {m: c for m, c in work.items() if m & _RULE_MASK}
        lo = {m: c for m, c in work.items() if not m & _RULE_MASK}
        out = padd(out, lo) if out else lo
        if not hi:
            return out
        nxt: dict = {}
        for m, c in hi.items():
            for i in sorted(RULES, reverse=True):
                e = (m >> (W * i)) & MASK
                if e >= 2:
                    break
            base = m - ((e - e % 2) << (W * i))
            q = _ppow_raw(RULES[i], e // 2)
            for mq, cq in q.items():
                mm = base + mq
                v = nxt.get(mm, 0) + c * cq
                if v:
                    nxt[mm] = v
                else:
                    nxt.pop(mm, None)
        work = nxt


def _ppow_raw(p: dict, n: int) -> dict:
    r = {0: 1}
    for _ in range(n):
        r2: dict = {}
        for ma, ca in r.items():
            for mb, cb in p.items():
                v = r2.get(ma + mb, 0) + ca * cb
                if v:
                    r2[ma + mb] = v
                else:
                    r2.pop(ma + mb, None)
        r = r2
    return r


def ppow(p: dict, n: int) -> dict:
    r = {0: 1}
    for _ in range(n):
        r = pmul(r, p)
    return r


def pkey(p: dict):
    return frozenset(p.items())


def exps(m: int):
    """(var, exponent) pairs of a monomial."""
    i = 0
    out = []
    while m:
        e = m & MASK
        if e:
            out.append((i, e))
        m >>= W
        i += 1
    return out


def divides(a: int, b: int) -> bool:
    """monomial a divides monomial b."""
    if a > b:
        return False
    while a:
        if (a & MASK) > (b & MASK):
            return False
        a >>= W
        b >>= W
    return True


def mono_gcd(p: dict) -> int:
    it = iter(p)
    g = next(it)
    for m in it:
        if not g:
            return 0
        r = 0
        sh = 0
        a, b = g, m
        while a and b:
            e = min(a & MASK, b & MASK)
            r |= e << sh
            a >>= W
            b >>= W
            sh += W
        g = r
    return g


def pdivexact(a: dict, b: dict, limit: int = 200000):
    """a / b if b divides a exactly (as plain polynomials), else None."""
    if not a:
        return {}
    lb = max(b)
    cb = b[lb]
    if not divides(lb, max(a)):
        return None
    sb = min(b)
    if not divides(sb, min(a)):
        return None
    r = dict(a)
    q: dict = {}
    steps = 0
    rest = [(m, c) for m, c in b.items() if m != lb]
    import heapq

    heap = [-m for m in r]
    heapq.heapify(heap)
    while r:
        while True:
            m = -heap[0]
            if m in r:
                break
            heapq.heappop(heap)
        if not divides(lb, m):
            return None
        c = r.pop(m)
        qm = m - lb
        if isinstance(c, int) and isinstance(cb, int):
            qc = c // cb if c % cb == 0 else Fraction(c, cb)
        else:
            qc = norm(Fraction(c) / cb)
        q[qm] = qc
        for mb, cbb in rest:
            mm = qm + mb
            v = r.get(mm)
            if v is None:
                r[mm] = -qc * cbb
                heapq.heappush(heap, -mm)
            else:
                v = v - qc * cbb
                if v:
                    r[mm] = v
                else:
                    del r[mm]
        steps += len(b)
        if steps > limit:
            return None
    return q


FACTORS: dict = {}  # pkey -> Factor


class Factor:
    """An interned monic denominator factor."""

    __slots__ = ("poly", "key", "ruled")

    def __init__(self, poly, key):
        self.poly = poly
        self.key = key
        self.ruled = any(
            (m >> (W * i)) & MASK for m in poly for i in RULES
        )


def factor_of(p: dict) -> Factor:
    k = pkey(p)
    f = FACTORS.get(k)
    if f is None:
        f = Factor(p, k)
        FACTORS[k] = f
    return f


def monic(p: dict):
    """(leading coefficient, p / leading coefficient)."""
    lc = p[max(p)]
    if lc == 1:
        return 1, p
    inv = Fraction(1) / lc
    return lc, {m: norm(c * inv) for m, c in p.items()}


def to_float_eval(p: dict, vals) -> float:
    """Float evaluation at vals (list indexed by variable)."""
    s = 0.0
    for m, c in p.items():
        t = float(c)
        for i, e in exps(m):
            t *= vals[i] ** e
        s += t
    return s


def pvars(p: dict) -> set:
    o = 0
    for m in p:
        o |= m
    return {i for i, _ in exps(o)}


def pdegree(p: dict) -> int:
    return max((sum(e for _, e in exps(m)) for m in p), default=0)
