"""Loads the library under test from /repo/src, plain or instrumented."""

from __future__ import annotations

import importlib
import math
import os
import sys

import numpy as np

SRC = os.environ.get("SP_SRC", "/repo/src")

MODULES = [
    "pre.pre",
    "pre.bisect_section",
    "pre.geometry",
    "pre.library.utils",
    "pre.library.primitive_sections",
    "pre.library.steel_sections",
    "pre.library.concrete_sections",
    "pre.library.timber_sections",
    "pre.library.bridge_sections",
    "pre.library.nastran_sections",
    "analysis.fea",
    "analysis.solver",
    "analysis.plastic_section",
    "analysis.section",
    "post.post",
    "post.stress_post",
    "post.fibre",
]


class Mods:
    """The library's modules by their last name component."""


def load(symbolic: bool) -> Mods:
    if SRC not in sys.path:
        sys.path.insert(0, SRC)
    if symbolic:
        sys.modules["numba"] = None  # numerics run as plain Python
    M = Mods()
    import sectionproperties

    if not sectionproperties.__path__[0].startswith(SRC):
        msg = f"wrong library path {sectionproperties.__path__}"
        raise RuntimeError(msg)
    for m in MODULES:
        mod = importlib.import_module(f"sectionproperties.{m}")
        setattr(M, m.split(".")[-1], mod)
    M.all = [v for k, v in sys.modules.items() if k.startswith("sectionproperties")]
    M.symbolic = symbolic
    if symbolic:
        from .core import symmax, symmin
        from .npshim import MATH, NP, SymFloat

        mathfn = {}
        for k in dir(math):
            v = getattr(math, k)
            if callable(v):
                mathfn[id(v)] = k
        npfn = {}
        for k in dir(np):
            v = getattr(np, k, None)
            if callable(v) and not isinstance(v, type):
                npfn[id(v)] = k
        for mod in M.all:
            if mod is None:
                continue
            g = mod.__dict__
            for k, v in list(g.items()):
                if v is np:
                    g[k] = NP
                elif v is math:
                    g[k] = MATH
                elif v is np.linalg:
                    g[k] = NP.linalg
                elif id(v) in mathfn:
                    g[k] = getattr(MATH, mathfn[id(v)])
                elif id(v) in npfn:
                    g[k] = getattr(NP, npfn[id(v)])
                elif isinstance(v, float) and v == math.pi:
                    g[k] = NP.pi
                elif isinstance(v, np.ndarray) and v.dtype.kind == "f":
                    from .npshim import conv

                    g[k] = conv(v)
            g["float"] = SymFloat
            g["max"] = symmax
            g["min"] = symmin
    return M


def clear_caches(M: Mods) -> None:
    for mod in M.all:
        for v in list(getattr(mod, "__dict__", {}).values()):
            cc = getattr(v, "cache_clear", None)
            if callable(cc):
                cc()
