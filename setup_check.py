#!/usr/bin/env python3
"""setup: nothing to build; make sure the tools are there and the verifier
accepts a true obligation and rejects a false one."""
import os, sys, shutil
VERIF = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/veriftools/pyvenv/bin/python3"
if os.path.exists(PY) and not os.environ.get("FQL_VT") and os.path.realpath(sys.prefix) != os.path.realpath("/opt/veriftools/pyvenv"):
    os.environ["FQL_VT"] = "1"
    os.execv(PY, [PY] + sys.argv)
sys.path[:0] = [VERIF + "/engine"]
import z3
for t in ("/usr/bin/clang-18", "/usr/bin/opt-18", "gcc"):
    assert shutil.which(t), t
x = z3.Int("x")
s = z3.Solver()
s.add(z3.Not(z3.Implies(x > 1, x > 0)))
assert s.check() == z3.unsat
s = z3.Solver()
s.add(z3.Not(x > 0))
assert s.check() == z3.sat
print("ok")
