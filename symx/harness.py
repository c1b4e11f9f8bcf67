"""Harness contexts, claims and the obligation discharger."""

from __future__ import annotations

import math
import os
import random
import time
import traceback
from fractions import Fraction

import numpy as np
import z3

from . import core as C
from . import poly as P
from .core import ENGINE, Cond, PathAbort, Sym, SymError, all_of, any_of, negate


class Fail:
    """An undischarged obligation with candidate inputs."""

    def __init__(self, label, cands, why):
        self.label, self.cands, self.why = label, cands, why


DIV_S = float(os.environ.get("VERIF_DIV_S", 25))


class SymCtx:
    symbolic = True
    free_answer = False  # set by stand-ins for the linear solver

    def __init__(self, opts):
        self.fails: list[Fail] = []
        self.unknown: list[str] = []
        self.claims = 0
        self.discharged = 0
        self.trivial = 0
        self.opts = opts
        self.rng = random.Random(opts.get("seed", 1))
        self.timeout = opts.get("timeout", 20000)
        self.failed_labels = set()
        self.zeros: list = []
        self.nonzero: set = set()

    # divisors ----------------------------------------------------------
    def on_div(self, s):
        """A division by the library: is there an admissible input with divisor zero?"""
        lc, p = P.monic(s.n)
        k = tuple(sorted(p.items()))
        if k in self.nonzero:
            return
        self.nonzero.add(k)
        loc = _lib_frame()
        if loc is None or self.free_answer:
            return
        q = ENGINE.quick_sign(p)
        if q and q[0] in ("pos", "neg"):
            return
        seen = self.opts.setdefault("_div", {"n": {}, "t": 0.0})
        if seen["n"].get(loc, 0) >= 4 or seen["t"] > self.opts.get("div_s", DIV_S):
            return
        seen["n"][loc] = seen["n"].get(loc, 0) + 1
        t0 = time.time()
        try:
            c = Cond("==", (p,))
            r = ENGINE.check(ENGINE.relevant(c) + [c], 700)
            if r == z3.sat:
                r, m = ENGINE.check(list(ENGINE.facts) + [c], 2500, want_model=True)
                if r == z3.sat:
                    seen["n"][loc] += 1
                    self.zeros.append((loc, self.model_inputs(m)))
        finally:
            seen["t"] += time.time() - t0

    def zero_candidates(self):
        out = []
        for loc, inp in self.zeros:
            cs = []
            for _ in range(3):
                c = dict(inp)
                for n, _i, lo, hi in ENGINE.inputs:
                    if n not in c:
                        c[n] = Fraction(ENGINE.pins[n]) if n in ENGINE.pins else (
                            self.draw(lo, hi))
                cs.append(c)
            out.append((loc, cs))
        return out

    # inputs ------------------------------------------------------------
    def real(self, name, lo=-10, hi=10, strict=False):
        return ENGINE.input(name, lo, hi, strict)

    def pos(self, name, lo=Fraction(1, 100), hi=10):
        return ENGINE.input(name, lo, hi)

    def angle(self, name, lo=None, hi=None):
        """an angle in radians"""
        return ENGINE.angle_input(
            name, lo if lo is not None else Fraction(-63, 10),
            hi if hi is not None else Fraction(63, 10))

    def angle_deg(self, name):
        return self.angle(name) * 180 / ENGINE.PI

    def choice(self, name, options):
        """one of the options (a count or a list); each is explored"""
        opts = list(range(options)) if isinstance(options, int) else list(options)
        return opts[ENGINE.choice(name, len(opts))]

    def parse(self, text):
        """the number written in a text"""
        t = str(text).strip()
        return C.TOKENS.by_id[t] if t in C.TOKENS.by_id else Sym.const(Fraction(float(t)))

    @property
    def pi(self):
        return ENGINE.PI

    def const(self, v):
        return Sym.const(v)

    def vec(self, xs):
        a = np.empty(len(xs), dtype=object)
        for i, x in enumerate(xs):
            a[i] = Sym.lift(x)
        return a

    def arr(self, xs):
        a = np.array(xs, dtype=object)
        for i, x in np.ndenumerate(a):
            a[i] = Sym.lift(x)
        return a

    def assume(self, c):
        ENGINE.assume(c)

    def sqrt(self, x):
        return Sym.lift(x).sqrt()

    def cos(self, x):
        return Sym.lift(x).cos()

    def sin(self, x):
        return Sym.lift(x).sin()

    def all(self, *cs):
        return all_of(*cs)

    def any(self, *cs):
        return any_of(*cs)

    def neg(self, c):
        return negate(c)

    def havoc(self, on=True):
        """From here on comparisons do not constrain the path (used to run past code
        whose outcome the following claims do not depend on)."""
        ENGINE.havoc = on

    # claims ------------------------------------------------------------
    def _reg(self, label):
        self.claims += 1
        ENGINE.havoc = False
        return label

    def eq(self, label, a, b, tol=1e-9, ctol=None, scale=0):
        self._reg(label)
        if label in self.failed_labels:
            return
        a, b = Sym.lift(a), Sym.lift(b)
        if a is None or b is None:
            self.fails.append(Fail(label, self.models([]), "not a number"))
            return
        if scale:
            a, b = a + scale, b + scale
        L = dict(a.d)
        for f, e in b.d.items():
            L[f] = max(L.get(f, 0), e)
        A, B = a._den_to(L), b._den_to(L)
        N = P.psub(A, B)
        # 1. the solver on the two normal forms (monomials uninterpreted)
        if self.abstract_eq(A, B, N, tol):
            self.discharged += 1
            return
        # 2. real arithmetic with the path's facts
        if P.RULES:
            N = P.preduce(N)
        cond = Cond("!=", (N,)) if not (len(N) == 1 and 0 in N) else True
        ok = self.discharge(label, cond, N=N, big=len(N) > 400)
        if ok:
            self.discharged += 1

    def abstract_eq(self, A, B, N, tol):
        """|A-B| <= tol * largest term, for every value of the monomials in the box."""
        mons = set(A) | set(B)
        U = {}
        scale = Fraction(0)
        for m in mons:
            u = 1.0
            for i, e in P.exps(m):
                u *= self.bound(i) ** e
            U[m] = u
            scale = max(scale, abs(Fraction(A.get(m, 0))) * Fraction(u),
                        abs(Fraction(B.get(m, 0))) * Fraction(u))
        s = z3.SimpleSolver()
        s.set("timeout", 20000)
        ts, us = [], []
        for side, out in ((A, ts), (B, us)):
            for m, c in side.items():
                k = C._rat(Fraction(c) * Fraction(U[m]))
                out.append(k * _unit(m)[0] if m else k)
        for m in mons:
            if m:
                s.add(*_unit(m)[1])
        d = (z3.Sum(ts) if ts else z3.RealVal(0)) - (z3.Sum(us) if us else z3.RealVal(0))
        lim = _rv(Fraction(tol).limit_denominator(10**15) * scale)
        s.add(z3.Or(d > lim, d < -lim))
        t0 = time.time()
        r = s.check()
        ENGINE.solver_s += time.time() - t0
        ENGINE.queries += 1
        if not N:
            self.trivial += 1
        return r == z3.unsat

    def bound(self, i):
        info = P.VARINFO[i]
        lo, hi = info.get("lo"), info.get("hi")
        if lo is None or hi is None:
            return 100.0
        return max(abs(float(lo)), abs(float(hi)), 1e-6)

    def close(self, a, b, rtol=1e-9):
        """a == b up to rounding, as a condition for any()/all()"""
        return Sym.lift(a) == Sym.lift(b)

    def true(self, label, cond):
        self._reg(label)
        if label in self.failed_labels:
            return
        neg = negate(cond)
        if isinstance(neg, bool):
            if not neg:
                # decided while normalising; still a query
                ENGINE.check([])
                self.discharged += 1
                self.trivial += 1
                return
            neg = True
        elif isinstance(neg, Cond) and neg.op == "or":
            # discharge each disjunct separately
            parts = neg.args
            for p in _flat_or(neg):
                if not self.discharge(label, p):
                    return
            self.discharged += 1
            return
        if self.discharge(label, neg):
            self.discharged += 1

    def le(self, label, a, b, tol=1e-9):
        self.true(label, Sym.lift(a) <= Sym.lift(b))

    def lt(self, label, a, b):
        self.true(label, Sym.lift(a) < Sym.lift(b))

    def fail(self, label):
        """This point must be unreachable."""
        self._reg(label)
        if label in self.failed_labels:
            return
        self.discharge(label, True)

    def discharge(self, label, neg, N=None, big=False):
        """True if facts & neg is unsat."""
        facts = ENGINE.relevant(neg) if isinstance(neg, Cond) else list(ENGINE.facts)
        q = facts + ([neg] if isinstance(neg, Cond) else [])
        if not big:
            if isinstance(neg, Cond) and len(facts) > 6:
                # facts over the claim's own variables often suffice
                vs = set(neg.vars())
                near = [f for f in facts if f.vars() <= vs]
                if len(near) < len(facts):
                    if ENGINE.check(near + [neg], 500) == z3.unsat:
                        return True
            r = ENGINE.check(q, min(4000, self.timeout))
            if r == z3.unsat:
                return True
        # look for a counterexample with most inputs pinned
        cands = self.models([neg], N=N)
        if cands:
            self.fails.append(Fail(label, cands, "counterexample"))
            self.failed_labels.add(label)
            return False
        r, m = ENGINE.check(q, self.timeout, want_model=True)
        if r == z3.unsat:
            return True
        if r == z3.sat:
            c = self.model_inputs(self.completed(neg, m))
            self.fails.append(Fail(label, [c], "counterexample (solver model)"))
            self.failed_labels.add(label)
            return False
        self.unknown.append(label)
        self.failed_labels.add(label)
        return False

    def completed(self, neg, m):
        """a model of all facts that extends the model of the claim's own"""
        conds = list(ENGINE.facts) + ([neg] if isinstance(neg, Cond) else [])
        vs = set()
        if isinstance(neg, Cond):
            for f in [*ENGINE.relevant(neg), neg]:
                vs |= f.vars()
        pins = []
        for _, i, _, _ in ENGINE.inputs:
            if i in vs:
                v = m.eval(ENGINE.zvar(i), model_completion=True)
                if z3.is_rational_value(v):
                    pins.append(ENGINE.zvar(i) == v)
        for extra in (pins, []):
            r, full = ENGINE.check(conds, 4000, want_model=True, extra=extra)
            if r == z3.sat:
                return full
        return m

    def model_inputs(self, m):
        out = {}
        for name, i, lo, hi in ENGINE.inputs:
            if name in ENGINE.pins:
                out[name] = Fraction(ENGINE.pins[name])
                continue
            v = m.eval(ENGINE.zvar(i), model_completion=True)
            out[name] = _num(v)
            # an angle is only known to the solver by its cosine and sine
            qs = [k[1] for k in ENGINE.trigcache if len(k) == 2 and k[0] == i]
            if qs:
                q = max(qs)
                c, s = (
                    float(_num(m.eval(ENGINE.zvar(P.exps(next(iter(a.n)))[0][0]), model_completion=True)))
                    for a in ENGINE.trigcache[(i, q)]
                )
                t = math.atan2(s, c) * q
                for k in (-1, 1):
                    u = t + k * 2 * math.pi * q
                    if not float(lo) <= t <= float(hi) and float(lo) <= u <= float(hi):
                        t = u
                out[name] = Fraction(t)
        return out

    def models(self, extra, N=None, want=4, tries=60):
        """Input assignments that satisfy the facts and ``extra`` (numeric guess, then
        a solver query with the inputs pinned)."""
        got = []
        conds = [c for c in extra if isinstance(c, Cond)]
        t0 = time.time()
        deadline = t0 + self.opts.get("model_s", 20)
        for attempt in range(tries * 20):
            if time.time() > deadline or len(got) >= want:
                break
            vals, inp = self.sample(attempt)
            if vals is None:
                continue
            try:
                if not all(c.evalf(vals) for c in ENGINE.facts if c.op != "=="):
                    continue
                if not all(
                    c.evalf(vals) for c in ENGINE.facts if c.op == "=="
                ):
                    continue
                if N is not None:
                    v = P.to_float_eval(N, vals)
                    mag = sum(abs(_term(m, c, vals)) for m, c in N.items()) or 1.0
                    if abs(v) < 1e-4 * mag:
                        continue
                elif not all(c.evalf(vals) for c in conds):
                    continue
            except (ValueError, ZeroDivisionError, OverflowError):
                continue
            # the solver's verdict on the pinned point
            if len(got) == 0 and conds and N is None:
                pins = [
                    ENGINE.zvar(i) == _rv(Fraction(inp[n]))
                    for n, i, _, _ in ENGINE.inputs
                ]
                r = ENGINE.check(conds + ENGINE.relevant(conds[0]), 5000, extra=pins)
                if r == z3.unsat:
                    continue
            got.append(inp)
        if not got:
            # pin a random subset and let the solver choose the rest
            n_in = len(ENGINE.inputs)
            base = list(ENGINE.facts) + conds
            for k in range(8):
                if time.time() > deadline + 20:
                    break
                keep = self.rng.sample(range(n_in), max(0, n_in - 1 - k))
                pins = []
                for j in keep:
                    n, i, lo, hi = ENGINE.inputs[j]
                    if n not in ENGINE.pins:
                        pins.append(ENGINE.zvar(i) == _rv(self.draw(lo, hi)))
                r, m = ENGINE.check(base, 3000, want_model=True, extra=pins)
                if r == z3.sat:
                    got.append(self.model_inputs(m))
                    break
        return got

    def draw(self, lo, hi):
        lo = -10 if lo is None else float(lo)
        hi = 10 if hi is None else float(hi)
        v = Fraction(self.rng.uniform(lo, hi)).limit_denominator(64)
        if not Fraction(lo) <= v <= Fraction(hi):
            v = (Fraction(lo) + Fraction(hi)) / 2
        return v

    def sample(self, attempt):
        vals = [0.0] * len(P.VARS)
        inp = {}
        for n, i, lo, hi in ENGINE.inputs:
            v = ENGINE.pins[n] if n in ENGINE.pins else self.draw(lo, hi)
            inp[n] = v
            vals[i] = float(v)
        try:
            for i in range(len(P.VARS)):
                f = ENGINE.defs.get(i)
                if f is not None:
                    vals[i] = f(vals)
        except (ValueError, ZeroDivisionError, OverflowError):
            return None, None
        return vals, inp


_UNITS: dict = {}


def _unit(m):
    """a monomial as a variable within [-1, 1]"""
    u = _UNITS.get(m)
    if u is None:
        if len(_UNITS) > 100000:
            _UNITS.clear()
        t = z3.Real(f"m{m}")
        u = _UNITS[m] = (t, (t <= 1, t >= -1))
    return u


def _flat_or(c):
    if c.op == "or":
        r = []
        for a in c.args:
            r += _flat_or(a)
        return r
    return [c]


def _term(m, c, vals):
    t = float(c)
    for i, e in P.exps(m):
        t *= vals[i] ** e
    return t


def _rv(f):
    f = Fraction(f)
    return z3.RatVal(f.numerator, f.denominator)


def _num(v):
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return Fraction(0)


class ConcFail(Exception):
    pass


class ConcCtx:
    """Runs a harness on floats against the unmodified library."""

    symbolic = False
    free_answer = False

    def __init__(self, values):
        self.values = values
        self.failed = []
        self.claims = 0

    def real(self, name, lo=-10, hi=10, strict=False):
        return float(Fraction(self.values[name]))

    def pos(self, name, lo=None, hi=None):
        return float(Fraction(self.values[name]))

    def angle(self, name, lo=None, hi=None):
        return float(Fraction(self.values[name]))

    def angle_deg(self, name):
        return float(Fraction(self.values[name])) * 180 / math.pi

    def choice(self, name, options):
        opts = list(range(options)) if isinstance(options, int) else list(options)
        return opts[int(round(Fraction(self.values[name])))]

    pi = math.pi

    def parse(self, text):
        return float(str(text))

    def havoc(self, on=True):
        pass

    def const(self, v):
        return float(v)

    def vec(self, xs):
        return np.array(xs, dtype=float)

    def arr(self, xs):
        return np.array(xs, dtype=float)

    def assume(self, c):
        if not c:
            raise PathAbort

    def sqrt(self, x):
        return math.sqrt(x)

    def cos(self, x):
        return math.cos(x)

    def sin(self, x):
        return math.sin(x)

    def all(self, *cs):
        return all(bool(c) for c in cs)

    def any(self, *cs):
        return any(bool(c) for c in cs)

    def neg(self, c):
        return not c

    def eq(self, label, a, b, tol=1e-9, ctol=None, scale=0):
        self.claims += 1
        a, b = float(a), float(b)
        ctol = ctol or 1e-6
        if not (abs(a - b) <= ctol * max(abs(a), abs(b), scale) + 1e-9):
            self.failed.append((label, f"{a!r} != {b!r}"))

    def close(self, a, b, rtol=1e-6):
        return abs(a - b) <= rtol * max(abs(a), abs(b)) + 1e-9

    def true(self, label, cond):
        self.claims += 1
        if not cond:
            self.failed.append((label, "false"))

    def le(self, label, a, b, tol=1e-9):
        self.claims += 1
        a, b = float(a), float(b)
        if not a <= b + 1e-7 * max(abs(a), abs(b)) + 1e-9:
            self.failed.append((label, f"{a!r} > {b!r}"))

    def lt(self, label, a, b):
        self.le(label, a, b)

    def fail(self, label):
        self.claims += 1
        self.failed.append((label, "reached"))


class Result:
    def __init__(self, name):
        self.name = name
        self.paths = 0
        self.aborted = 0
        self.claims = 0
        self.discharged = 0
        self.trivial = 0
        self.fails = []  # (label, cands, why)
        self.unknown = []
        self.errors = []
        self.witnesses = []
        self.queries = 0
        self.solver_s = 0.0
        self.wall = 0.0
        self.exhausted = True
        self.unknown_forks = 0
        self.assumed_div = 0
        self.labels = set()
        self.functions = []
        self.zeros: list = []


def explore(M, name, fn, opts):
    """Runs harness fn over all feasible paths."""
    from .load import clear_caches

    res = Result(name)
    t0 = time.time()
    ENGINE.queries = 0
    ENGINE.solver_s = 0.0
    ENGINE.unknown_forks = 0
    ENGINE.assumed_div = 0
    decisions: list = []
    maxp = opts.get("max_paths", 400)
    budget = opts.get("budget_s", 300)
    rec = opts.get("recorder")
    failed_labels: set = set()
    while True:
        ENGINE.reset_all()
        ENGINE.merge = opts.get("merge", False)
        ENGINE.num_sqrt = opts.get("num_sqrt", False)
        ENGINE.div_check = opts.get("div_check", False)
        ENGINE.feas_timeout = opts.get("feas_timeout", 3000)
        ENGINE.neg_sqrt_check = opts.get("neg_sqrt_check", True)
        ENGINE.int_window = opts.get("int_window", (0, 12))
        ENGINE.decisions = decisions
        ENGINE.pos = 0
        clear_caches(M)
        ctx = SymCtx(opts)
        ctx.failed_labels = failed_labels
        ENGINE.on_div = ctx.on_div
        done = False
        try:
            if rec is not None and res.paths == 0:
                with rec:
                    fn(ctx, M)
            else:
                fn(ctx, M)
            done = True
        except PathAbort:
            res.aborted += 1
        except SymError as e:
            res.errors.append(f"{type(e).__name__}: {e} @ {_where()}")
            c = ctx.models([], want=6)
            if c:
                res.fails.append(("engine-limit", c, "engine limit; replayed"))
        except RecursionError as e:
            res.errors.append(f"recursion: {e}")
        except Exception as e:
            w = _where()
            stub = stub_limit(e)
            if stub:
                res.errors.append(f"stand-in limit: {type(e).__name__}: {e} @ {w}")
            c = [] if stub else ctx.models([], want=3)
            if stub:
                pass
            elif c:
                res.fails.append((f"exception:{type(e).__name__}", c, f"{e} @ {w}"))
            else:
                r = ENGINE.check(list(ENGINE.facts), 10000)
                if r != z3.unsat:
                    res.errors.append(f"{type(e).__name__}: {e} @ {w}")
                else:
                    res.aborted += 1
        ENGINE.on_div = None
        for loc, cs in ctx.zero_candidates():
            res.zeros.append((loc, cs))
        if done or ctx.claims:
            res.paths += 1
            res.claims += ctx.claims
            res.discharged += ctx.discharged
            res.trivial += ctx.trivial
            for f in ctx.fails:
                res.fails.append((f.label, f.cands, f.why))
            res.unknown += ctx.unknown
            if len(res.witnesses) < opts.get("witnesses", 3) and done and ctx.claims:
                w = ctx.models([], want=1, tries=20)
                if w:
                    res.witnesses.append(w[0])
        # next path
        while decisions and (decisions[-1][1] or decisions[-1][0] is False):
            decisions.pop()
        if not decisions:
            break
        decisions[-1] = (False, True)
        if res.paths + res.aborted >= maxp or time.time() - t0 > budget:
            res.exhausted = False
            break
        if len(res.fails) >= 6 or len(res.errors) >= 4:
            res.exhausted = False
            break
    res.queries = ENGINE.queries
    res.solver_s = ENGINE.solver_s
    res.unknown_forks = ENGINE.unknown_forks
    res.assumed_div = ENGINE.assumed_div
    res.wall = time.time() - t0
    return res


def _lib_frame():
    """file:line of the innermost frame outside the engine, if it is library code"""
    import sys as _s

    from .load import SRC

    f = _s._getframe(2)
    while f is not None:
        n = f.f_code.co_filename
        if n.startswith(SRC):
            return f"{n[len(SRC) + 18:]}:{f.f_code.co_name}:{f.f_lineno}"
        if "/symx/" not in n:
            return None
        f = f.f_back
    return None


def _where():
    tb = traceback.format_exc().strip().splitlines()
    loc = [ln.strip() for ln in tb if ln.strip().startswith("File")]
    return " <- ".join(x.replace("/repo/src/sectionproperties/", "") for x in loc[-4:])


def stub_limit(e):
    """the library used something of a stand-in object that the stand-in does not have"""
    if isinstance(e, AttributeError):
        o = getattr(e, "obj", None)
        t = o if isinstance(o, type) else type(o)
        mod = getattr(t, "__module__", "") or ""
        return mod.startswith(("props.", "symx."))
    if isinstance(e, TypeError) and ("argument" in str(e)):
        import re
        import sys as _s

        m = re.match(r"([\w.<>]+)\(\)", str(e))
        if m:
            q = m.group(1)
            for n, mod in list(_s.modules.items()):
                if n.startswith(("props.", "symx.")):
                    o = mod
                    for part in q.split("."):
                        o = getattr(o, part, None)
                    if o is not None and (getattr(o, "__module__", "") or "").startswith(
                            ("props.", "symx.")):
                        return True
    return False


def run_concrete(M, fn, values, divzero=None):
    """(failed list, exception or None, claims)."""
    import warnings

    ctx = ConcCtx(values)
    exc = None
    with warnings.catch_warnings(record=divzero is not None) as ws:
        warnings.simplefilter("ignore" if divzero is None else "always")
        try:
            fn(ctx, M)
        except PathAbort:
            return ctx.failed, "abort", ctx.claims
        except Exception as e:
            if stub_limit(e):
                return ctx.failed, "abort", ctx.claims
            exc = f"{type(e).__name__}: {e} @ {_where()}"
        if divzero is not None:
            bad = exc is not None or any(
                x in str(w.message) for w in ws for x in ("divide by zero", "invalid value")
            ) or "nan" in repr(ctx.failed)
            if not bad:
                return [], "abort", ctx.claims
    return ctx.failed, exc, ctx.claims
