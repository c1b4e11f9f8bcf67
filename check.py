#!/opt/venv/bin/python
"""Decides one property by symbolic execution of /repo/src and SMT solving.

usage: check.py PROPERTY quick|thorough
       check.py --replay FILE        re-runs a recorded violation on the real code
       check.py --concrete           (internal) JSON jobs on stdin
"""

from __future__ import annotations

import importlib
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
Z3SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def setup_env():
    if os.environ.get("_VERIF_CHILD") != "1":
        env = dict(os.environ)
        env.update(
            _VERIF_CHILD="1",
            PYTHONDONTWRITEBYTECODE="1",
            PYTHONHASHSEED="0",
            MPLBACKEND="agg",
            OMP_NUM_THREADS="1",
            OPENBLAS_NUM_THREADS="1",
            MKL_NUM_THREADS="1",
            NUMBA_DISABLE_JIT="1",
        )
        scratch = tempfile.mkdtemp(prefix="verif_")
        env["VERIF_SCRATCH"] = scratch
        env["NUMBA_CACHE_DIR"] = scratch
        env["MPLCONFIGDIR"] = scratch
        import shutil

        try:
            sys.exit(
                subprocess.run([PY, os.path.abspath(__file__), *sys.argv[1:]], env=env).returncode
            )
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    sys.path.insert(0, HERE)
    sys.setrecursionlimit(20000)


def prop_module(pid):
    return importlib.import_module(f"props.{pid.lower()}")


def harnesses(mod, tier):
    out = []
    for name, fn, opts in mod.HARNESSES:
        o = dict(opts)
        if o.get("tier") == "thorough" and tier != "thorough":
            continue
        if tier == "thorough":
            o.update(o.get("thorough", {}))
        out.append((name, fn, o))
    return out


class Recorder:
    """Functions of the library entered while a harness runs."""

    def __init__(self, src):
        self.src = src
        self.seen = set()

    def _prof(self, frame, event, arg):
        if event == "call":
            co = frame.f_code
            if co.co_filename.startswith(self.src):
                self.seen.add(
                    os.path.relpath(co.co_filename, self.src)
                    .replace("sectionproperties/", "")
                    + ":"
                    + co.co_qualname
                )

    def __enter__(self):
        sys.setprofile(self._prof)

    def __exit__(self, *a):
        sys.setprofile(None)


def _task(args):
    pid, name, tier, seed = args
    from symx import harness as H
    from symx import load

    M = load.load(True)
    mod = prop_module(pid)
    for n, fn, o in harnesses(mod, tier):
        if n == name:
            o["seed"] = seed
            rec = Recorder(load.SRC)
            o["recorder"] = rec
            if o.get("patch"):
                o["patch"](M)
            r = H.explore(M, name, fn, o)
            r.functions = sorted(rec.seen)
            d = dict(r.__dict__)
            d.pop("labels", None)
            d["fails"] = [
                (lb, [{k: str(v) for k, v in c.items()} for c in cs], why)
                for lb, cs, why in r.fails
            ]
            d["zeros"] = [(lb, [{k: str(v) for k, v in c.items()} for c in cs])
                          for lb, cs in r.zeros]
            d["witnesses"] = [{k: str(v) for k, v in c.items()} for c in r.witnesses]
            return d
    raise KeyError(name)


def concrete_worker():
    jobs = json.load(sys.stdin)
    sys.path.append(Z3SITE)
    real_stdout = os.dup(1)
    os.dup2(2, 1)
    from symx import harness as H
    from symx import load

    M = load.load(False)
    out = []
    mods = {}
    for j in jobs:
        mod = mods.setdefault(j["pid"], prop_module(j["pid"]))
        fn = next(f for n, f, _ in mod.HARNESSES if n == j["harness"])
        load.clear_caches(M)
        failed, exc, claims = H.run_concrete(M, fn, j["values"], j.get("divzero"))
        out.append({"failed": failed, "exc": exc, "claims": claims})
    with os.fdopen(real_stdout, "w") as f:
        json.dump(out, f)


def run_concrete(jobs, timeout=400):
    if not jobs:
        return []
    p = subprocess.run(
        [PY, os.path.abspath(__file__), "--concrete"],
        input=json.dumps(jobs),
        capture_output=True,
        text=True,
        timeout=timeout,
    )
    if p.returncode != 0:
        raise RuntimeError("concrete worker failed: " + p.stderr[-2000:])
    return json.loads(p.stdout)


def main():
    if sys.argv[1:2] == ["--concrete"]:
        concrete_worker()
        return 0
    if sys.argv[1:2] == ["--replay"]:
        with open(sys.argv[2]) as f:
            j = json.load(f)
        r = run_concrete([j])[0]
        print(json.dumps(r, indent=1))
        bad = bool(r["failed"]) or (r["exc"] and r["exc"] != "abort")
        print("REPRODUCED" if bad else "not reproduced")
        return 1 if bad else 0

    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = sys.argv[3:]  # debugging: harness names
    t0 = time.time()
    sys.path.append(Z3SITE)
    from symx import load

    mod = prop_module(pid)
    hs = [h for h in harnesses(mod, tier) if not only or h[0] in only]

    import concurrent.futures as cf
    import multiprocessing as mp

    results = []
    errors = []
    load.load(True)  # imported once, inherited by the forked workers
    budget = 840 if tier == "quick" else 6 * 3600
    ex = cf.ProcessPoolExecutor(
        max_workers=min(8, len(hs)), mp_context=mp.get_context("fork"),
        max_tasks_per_child=None,
    )
    order = sorted(hs, key=lambda h: -h[2].get("cost", 1))
    futs = {ex.submit(_task, (pid, n, tier, seed)): n for n, _, _ in order}
    try:
        for f in cf.as_completed(futs, timeout=budget):
            try:
                results.append(f.result())
            except Exception as e:
                errors.append(f"{futs[f]}: {type(e).__name__}: {e}")
    except cf.TimeoutError:
        errors.append(
            "time budget exhausted: " + ", ".join(n for f, n in futs.items() if not f.done())
        )
        for p in list(ex._processes.values()):
            p.kill()
    ex.shutdown(wait=False, cancel_futures=True)
    results.sort(key=lambda r: r["name"])

    # -- replay on the unmodified code
    jobs = []
    meta = []
    for r in results:
        for lb, cands, why in r["fails"]:
            for c in cands[:4]:
                jobs.append({"pid": pid, "harness": r["name"], "values": c})
                meta.append(("fail", r["name"], lb, why))
        for lb, cands in r["zeros"]:
            for c in cands:
                jobs.append({"pid": pid, "harness": r["name"], "values": c, "divzero": lb})
                meta.append(("zero", r["name"], "divisor zero: " + lb, "divisor zero"))
        for w in r["witnesses"]:
            jobs.append({"pid": pid, "harness": r["name"], "values": w})
            meta.append(("witness", r["name"], None, None))
    conc = []
    try:
        conc = run_concrete(jobs)
    except Exception as e:
        errors.append(f"replay: {e}")
    violations = {}
    confirmed = set()
    validated = 0
    witness_aborts = 0
    known = load_known(pid)
    known_hit = []
    for j, m, c in zip(jobs, meta, conc, strict=False):
        bad = bool(c["failed"]) or (c["exc"] and c["exc"] != "abort")
        if m[0] == "witness" and not bad:
            if c["exc"] == "abort":
                witness_aborts += 1
            else:
                validated += 1
        if bad:
            if m[0] == "fail":
                confirmed.add((m[1], m[2]))
            what = c["failed"][:3] or c["exc"]
            k = match_known(known, m[1], c)
            if k is not None:
                if k not in known_hit:
                    known_hit.append(k)
                continue
            key = (m[1], m[2] or "witness")
            if key not in violations:
                violations[key] = (j, what, m)
    for r in results:
        for lb, cands, why in r["fails"]:
            if (r["name"], lb) not in confirmed and lb != "engine-limit":
                errors.append(
                    f"{r['name']}/{lb}: counterexample did not reproduce on the real code ({why})"
                )
        for u in sorted(set(r["unknown"])):
            errors.append(f"{r['name']}/{u}: solver gave no verdict")
        for e in r["errors"]:
            if not any(k[0] == r["name"] for k in violations):
                errors.append(f"{r['name']}: {e}")
        if not r["exhausted"] and not r["fails"] and not r["errors"]:
            errors.append(f"{r['name']}: path budget exhausted after {r['paths']} paths")
        if r["paths"] == 0 or r["claims"] == 0:
            errors.append(f"{r['name']}: no path reached an assertion (vacuous)")
        if not r["witnesses"] and not r["fails"] and not r["errors"]:
            errors.append(f"{r['name']}: no witness that the assertions are reachable")

    rdir = os.path.join(HERE, "replays")
    os.makedirs(rdir, exist_ok=True)
    lines = []
    for n, (key, (j, what, m)) in enumerate(sorted(violations.items())):
        path = os.path.join(rdir, f"{pid}_{n}.json")
        with open(path, "w") as f:
            json.dump({**j, "label": key[1], "observed": what, "why": m[3]}, f, indent=1)
        lines.append(f"VIOLATION property={pid} replay={path}")
        print(f"# {key[0]}/{key[1]}: {what}", flush=True)
    for k in known_hit:
        print(f"KNOWN-FINDING: property={pid} {k['what']}")

    tot = lambda k: sum(r[k] for r in results)  # noqa: E731
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "other",
        "coverage": {
            "explanation": (
                "Symbolic execution of the library's own functions (loaded from the current "
                "/repo/src on this run) on symbolic reals; every assertion at the end of every "
                "feasible path is negated and given to z3. "
                + (mod.__doc__ or "").strip()
            ),
            "bounds": getattr(mod, "BOUNDS", ""),
            "functions_encoded": sorted({f for r in results for f in r["functions"]}),
            "harnesses": {
                r["name"]: {
                    k: r[k]
                    for k in ("paths", "claims", "discharged", "trivial", "queries", "aborted",
                              "unknown_forks", "assumed_div", "exhausted")
                }
                | {"solver_s": round(r["solver_s"], 2), "wall_s": round(r["wall"], 2)}
                for r in results
            },
            "paths": tot("paths"),
            "obligations": tot("claims"),
            "discharged": tot("discharged"),
            "normal_form_identities": tot("trivial"),
            "smt_queries": tot("queries"),
            "solver_s": round(tot("solver_s"), 2),
            "traces_validated_against_impl": validated,
            "witness_paths_out_of_scope_in_floats": witness_aborts,
            "inconclusive": errors[:20],
        },
        "assumptions": [
            "floating point read as real arithmetic (float literals as the simplest nearby "
            "rational); rounding is outside the model",
            "past a division the divisor is nonzero; every division by library code is itself "
            "queried for an admissible zero divisor, reported when the replay raises or gives NaN",
            *getattr(mod, "ASSUMPTIONS", []),
        ],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(lines),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if not only:
        with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
    for r in results:
        print(
            f"  {r['name']}: paths={r['paths']} claims={r['claims']} discharged={r['discharged']} "
            f"queries={r['queries']} solver={r['solver_s']:.1f}s wall={r['wall']:.1f}s"
        )
    for ln in lines:
        print(ln)
    if lines:
        return 1
    if errors:
        for e in errors:
            print(f"NOT-EXPLORED {pid}: {e}")
        # held on everything explored; no answer only if that is too little to speak of
        strict = os.environ.get("VERIF_STRICT") == "1"
        if strict or 2 * tot("discharged") < tot("claims") or tot("claims") == 0:
            print(f"INCONCLUSIVE {pid}")
            return 2
    print(f"OK {pid}: {tot('discharged')}/{tot('claims')} obligations, {time.time() - t0:.1f}s")
    return 0


def load_known(pid):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == pid]


def match_known(known, harness, c):
    """A known finding only covers the exact harness and assertion labels it names."""
    labels = {f[0] for f in c["failed"]}
    for k in known:
        if k["harness"] == harness and labels and labels <= set(k["labels"]) and not c["exc"]:
            return k
    return None


if __name__ == "__main__":
    setup_env()
    sys.exit(main())
