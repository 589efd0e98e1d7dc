"""setup_cmd: the interpreter, z3 and the encoder load, and a trivial query is decided."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3  # noqa
x = z3.Real("x")
s = z3.Solver()
s.add(x * x < 0)
assert s.check() == z3.unsat
from symx import engine  # noqa


def fn(H, cfg):
    S = H.mod("pymanopt.manifolds.sphere").Sphere(2)
    p = H.reals("p", 2)
    H.eq("projection is tangent", (S.projection(H.arr([1, 0]), p))[0], H.num(0))


r = engine.explore(fn, {})
assert [g["status"] for g in r["results"]] == ["proved"], r
print("ok: z3", z3.get_version_string())
