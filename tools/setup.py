#!/opt/venv/bin/python
"""Checks that the interpreter, the solver and the library are reachable."""
import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import numpy, scipy, shapely, z3  # noqa: E401,F401,E402
x = z3.Real("x")
s = z3.Solver()
s.add(x * x < 0)
assert s.check() == z3.unsat
print("ready: z3", z3.get_version_string(), "numpy", numpy.__version__)
