"""Linear solver wrappers: what is asked, what is returned, when the answer is refused.

The sparse solver underneath is replaced by one that returns an arbitrary vector (and, for the
iterative solver, an arbitrary exit code); the wrappers run on it unchanged.
"""

from fractions import Fraction as F

import numpy as np

from props.common import num, swapped

BOUNDS = (
    "systems of two unknowns and one multiplier, any right-hand side, any answer in [-10,10]^3; "
    "a factor of two around each tolerance is left open; iterative tolerance in [1e-6, 1e-2]"
)
ASSUMPTIONS = ["the underlying sparse solvers solve the system they are given (or report failure)"]


class Under:
    """the sparse solvers underneath"""

    def __init__(self, ctx, n, info=0):
        self.ctx, self.info, self.calls = ctx, info, []
        self.u = ctx.vec([ctx.real(f"u{i}") for i in range(n)])

    def spsolve(self, A, b, **kw):
        self.calls.append(dict(A=A, b=b))
        return self.u.copy()

    def cgs(self, A, b, x0=None, *, rtol=1e-5, atol=0.0, maxiter=None, M=None, callback=None):
        self.calls.append(dict(A=A, b=b, rtol=rtol, atol=atol, M=M, x0=x0, maxiter=maxiter))
        return self.u.copy(), self.info

    def installed(self, M):
        s = M.solver
        t = [(s, n, f) for n, f in (("sp_solve", self.spsolve), ("spsolve", self.spsolve),
                                    ("cgs", self.cgs)) if hasattr(s, n)]
        return swapped(*t)


def asked(ctx, un, k, f, extra, tag=""):
    ctx.true(tag + "one solve", len(un.calls) == 1)
    c = un.calls[-1]
    ctx.true(tag + "matrix", c["A"] is k)
    b = list(c["b"])
    ctx.true(tag + "length", len(b) == len(f) + extra)
    for i, v in enumerate(b):
        ctx.eq(f"{tag}rhs{i}", v, f[i] if i < len(f) else num(ctx, 0))
    return c




def h_plain(ctx, M):
    """without a multiplier the answer is passed through"""
    it = ctx.choice("iterative", 2)
    un = Under(ctx, 2, ctx.choice("info", [0, 3, -1]) if it else 0)
    f = ctx.vec([ctx.real("f0"), ctx.real("f1")])
    k, pre = object(), object()
    tol = ctx.real("tol", F(1, 10**6), F(1, 100))
    try:
        with un.installed(M):
            if it:
                r = M.solver.solve_cgs(k, f, pre, tol)
            else:
                r = M.solver.solve_direct(k, f)
    except RuntimeError:
        ctx.true("refused without failure", it == 1 and un.info != 0)
        return
    ctx.true("failure accepted", un.info == 0)
    c = asked(ctx, un, k, f, 0)
    if it:
        ctx.true("preconditioner", c["M"] is pre)
        ctx.eq("tolerance", c["rtol"], tol)
    ctx.true("size", len(r) == 2)
    for i in range(2):
        ctx.eq(f"u{i}", r[i], un.u[i])


def lagrange(ctx, M, iterative):
    un = Under(ctx, 3, ctx.choice("info", [0, 3, -1]) if iterative else 0)
    f = ctx.vec([ctx.real("f0"), ctx.real("f1")])
    k, pre = object(), object()
    tol = ctx.real("tol", F(1, 10**6), F(1, 100)) if iterative else num(ctx, F(1, 10**7))
    u = un.u
    mult = abs(u[2])
    ctx.assume(ctx.any(abs(u[0]) > F(1, 100), abs(u[1]) > F(1, 100), abs(u[2]) > F(1, 100)))
    case = ctx.choice("multiplier", ["small", "large"])
    if case == "small":
        ctx.assume(ctx.any(mult * 2 <= tol * abs(u[0]), mult * 2 <= tol * abs(u[1])))
    else:
        for v in u[:2]:
            ctx.assume(mult >= 2 * tol * abs(v))
        ctx.assume(mult >= F(1, 10**12))
    try:
        with un.installed(M):
            if iterative:
                r = M.solver.solve_cgs_lagrange(k, f, pre, tol)
            else:
                r = M.solver.solve_direct_lagrange(k, f)
    except RuntimeError:
        ctx.true("valid answer refused", case == "large" or un.info != 0)
        return
    ctx.true("bad answer accepted", case == "small" and un.info == 0)
    c = asked(ctx, un, k, f, 1)
    if iterative:
        ctx.true("preconditioner", c["M"] is pre)
        ctx.eq("tolerance", c["rtol"], tol)
    ctx.true("size", len(r) == 2)
    for i in range(2):
        ctx.eq(f"u{i}", r[i], u[i])


def h_direct(ctx, M):
    lagrange(ctx, M, False)


def h_cgs(ctx, M):
    lagrange(ctx, M, True)


def h_rounding(ctx, M):
    """a multiplier at the level of rounding is accepted by the direct solver"""
    un = Under(ctx, 3)
    f = ctx.vec([ctx.real("f0"), ctx.real("f1")])
    m = ctx.real("m", -1, 1) * F(1, 10**16)
    un.u[2] = m
    ctx.assume(abs(un.u[0]) > F(1, 10**6))
    with un.installed(M):
        r = M.solver.solve_direct_lagrange(object(), f)
    ctx.true("size", len(r) == 2)
    for i in range(2):
        ctx.eq(f"u{i}", r[i], un.u[i])


HARNESSES = [
    ("plain", h_plain, {}),
    ("direct", h_direct, {}),
    ("cgs", h_cgs, {}),
    ("rounding", h_rounding, {}),
]
