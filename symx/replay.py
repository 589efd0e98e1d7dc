"""Runs a harness on the real pymanopt with concrete values (candidate
counterexamples, translator validation, fallback inputs)."""

import importlib
import json
import math
import os
import sys
import time
import traceback
import types
import warnings


class AssumeFail(Exception):
    pass


class StopPath(Exception):
    pass


class Default(dict):
    pass


class ConH:
    symbolic = False

    def __init__(self, values, choices):
        import numpy
        self.np = numpy
        self.values = values
        self.choices = choices
        self.failures = []
        self.passed = 0
        self.trace = []
        self.ndraw = 0
        self.drawq = []
        self.draw_range = (0, 1)
        self.nderiv = 0
        self.stubs = set()
        self.missing = 0
        self.clk = []

    # inputs
    def real(self, name, lo=None, hi=None, pos=False, nonneg=False, span=2.0, strict=True):
        v = self.values.get(name)
        if v is None:
            self.missing += 1
            a = lo if lo is not None else (0.0 if pos or nonneg else -span)
            b = hi if hi is not None else max(a, 0.0) + span
            v = float(a + (b - a) * ((hash(name) * 2654435761 % 1000) / 1000 * 0.8 + 0.1)) if False else float(a + (b - a) * self._h(name))
        v = float(v)
        eps = 0.0
        if (lo is not None and v < lo - eps) or (hi is not None and v > hi + eps) or \
                (strict and lo is not None and v <= lo) or (strict and hi is not None and v >= hi) or \
                (pos and v <= 0) or (nonneg and v < 0):
            raise AssumeFail(name)
        return self.np.float64(v)

    @staticmethod
    def _h(name):
        import zlib
        return 0.1 + 0.8 * (zlib.crc32(name.encode()) % 1000) / 1000

    def pos(self, name, lo=None, hi=None, **k):
        return self.real(name, lo if lo is not None else 0, hi, **k)

    def nonneg(self, name, hi=None, **k):
        return self.real(name, 0, hi, strict=False, **k)

    def reals(self, name, *shape, **k):
        r = self.np.empty(shape)
        for i in self.np.ndindex(*shape):
            r[i] = self.real(name + "_" + "_".join(map(str, i)), **k)
        return r

    def cxs(self, name, *shape, **k):
        r = self.np.empty(shape, dtype=complex)
        for i in self.np.ndindex(*shape):
            s = "_".join(map(str, i))
            r[i] = self.real(name + "r_" + s, **k) + 1j * self.real(name + "i_" + s, **k)
        return r

    def nat(self, name, lo=0):
        v = int(round(float(self.values.get(name, 1.0))))
        if v < 0:
            raise AssumeFail(name)
        return lo + v

    def sign(self, name):
        return self.np.float64(1.0 if self.values.get(name, 1.0) >= 0 else -1.0)

    def choose(self, name, n):
        return int(self.choices.get(name, 0))

    def flag(self, name):
        return bool(self.choices.get(name, True))

    def arr(self, x):
        return self.np.array(x, dtype=float)

    def carr(self, x):
        return self.np.array(x, dtype=complex)

    def cx(self, re, im):
        return complex(re, im)

    def num(self, x):
        from fractions import Fraction
        return float(Fraction(x)) if isinstance(x, str) else float(x)

    def uniform_range(self, lo, hi):
        self.draw_range = (self.num(lo), self.num(hi))

    def draws(self, *arrays):
        for a in arrays:
            self.drawq += [float(v) for v in self.np.asarray(a).ravel()]

    @property
    def pi(self):
        return math.pi

    def _nop(self, *a, **k):
        pass

    angle = log_of = frame = similarity = inverse = chol = svdreg = logreg = opt = _nop

    def stub(self, s):
        pass

    def now_first(self):
        return self.clk[0]

    def now_last(self):
        return self.clk[-1]

    def mod(self, name):
        return importlib.import_module(name)

    def fw(self, name):
        return importlib.import_module(name)

    @property
    def ndarray(self):
        return self.np.ndarray

    def assume(self, b):
        if not self.np.all(b):
            raise AssumeFail("assumption")

    def _map2(self, f, ys):
        y = ys[0]
        if isinstance(y, (list, tuple)) and not isinstance(y, self.np.ndarray):
            return [self._map2(f, [z[i] for z in ys]) for i in range(len(y))]
        return f(*[self.np.asarray(z) for z in ys])

    def deriv(self, f, order=1, at=0, pos=False):
        n = self.nderiv
        self.nderiv += 1
        if pos:
            if order != 1:
                raise AssumeFail("one-sided second derivative")
            h = 1e-3
            ys = [f(self.np.float64(at + k * h)) for k in (1, 2, 3, 4, 5)]
            # exact for quartics, extrapolated to the end point
            w = [-77 / 12, 107 / 6, -39 / 2, 61 / 6, -25 / 12]
            return self._map2(lambda *v: sum(a * b for a, b in zip(w, v)) / h, ys)
        if order == 1:
            h = 1e-3
            ys = [f(at + k * h) for k in (-2, -1, 1, 2)]
            return self._map2(lambda a, b, c, d: (a - 8 * b + 8 * c - d) / (12 * h), ys)
        h = 5e-3
        ys = [f(at + k * h) for k in (-2, -1, 0, 1, 2)]
        return self._map2(lambda a, b, c, d, e: (-a + 16 * b - 30 * c + 16 * d - e) / (12 * h * h), ys)

    def at(self, f, value=0):
        self.nderiv += 1
        return f(self.np.float64(value) + 1e-9)

    # goals
    def _flat(self, x):
        np = self.np
        if isinstance(x, (list, tuple)) and not isinstance(x, np.ndarray):
            out, shp = [], []
            for y in x:
                f, s = self._flat(y)
                out += f
                shp.append(s)
            return out, tuple(shp)
        a = np.asarray(x)
        return list(a.ravel()), tuple(a.shape)

    def _rec(self, name, fa):
        if len(self.trace) < 60:
            self.trace.append((name, [[float(complex(v).real), float(complex(v).imag)] for v in fa[:12]]))

    def _ok(self, name):
        self.passed += 1
        return True

    def _bad(self, name, info):
        self.failures.append((name, str(info)[:300]))
        return False

    def eq(self, name, a, b, tol=None, trace=True):
        tol = 1e-6 if tol is None else tol
        fa, sa = self._flat(a)
        fb, sb = self._flat(b)
        if sa != sb:
            return self._bad(name, f"shapes {sa} vs {sb}")
        try:
            if trace:
                self._rec(name, fa)
        except (TypeError, ValueError):
            pass
        worst = 0
        scale = 1.0
        for x in fa + fb:
            try:
                m = abs(complex(x))
                if math.isfinite(m):
                    scale = max(scale, m)
            except (TypeError, ValueError, OverflowError):
                pass
        for x, y in zip(fa, fb):
            x, y = complex(x), complex(y)
            d = abs(x - y)
            if not math.isfinite(d):
                return self._bad(name, f"{x} vs {y}")
            worst = max(worst, d)
        if worst > tol * scale:
            return self._bad(name, f"differ by {worst:.3g} (scale {scale:.3g})")
        return self._ok(name)

    def pyplot(self, plt):
        for n in [n for n in sys.modules if n.startswith("pymanopt.tools.diagnostics")]:
            del sys.modules[n]
        top = None
        if plt is not None:
            top = types.ModuleType("matplotlib")
            top.__path__ = []
            top.pyplot = plt
        sys.modules["matplotlib"], sys.modules["matplotlib.pyplot"] = top, plt

    def printed(self, f):
        import builtins
        import re
        old, text = builtins.print, []
        builtins.print = lambda *a, **k: text.append(" ".join(str(x) for x in a))
        try:
            f()
        finally:
            builtins.print = old
        return [float(t) for t in re.findall(r"(?<![\w.])[-+]?(?:nan|inf|\d+\.?\d*(?:[eE][-+]?\d+)?)", "\n".join(text))]

    def among(self, name, nums, want):
        want = float(want)
        if any(abs(v - want) <= 1e-4 * max(1.0, abs(want)) for v in nums):
            return self._ok(name)
        return self._bad(name, f"{want} is not among {nums[:8]}")

    def true(self, name, b):
        return self._ok(name) if bool(self.np.all(b)) else self._bad(name, "false")

    def le(self, name, a, b, tol=None):
        tol = 1e-8 if tol is None else tol
        a, b = self.np.asarray(a, dtype=float), self.np.asarray(b, dtype=float)
        ok = self.np.all(a <= b + tol * (1 + abs(b)))
        return self._ok(name) if ok else self._bad(name, f"{a} > {b}")

    def lt(self, name, a, b, tol=None):
        a, b = self.np.asarray(a, dtype=float), self.np.asarray(b, dtype=float)
        ok = self.np.all(a < b + (1e-12 if tol is None else tol) * (1 + abs(b)))
        return self._ok(name) if ok else self._bad(name, f"{a} >= {b}")

    def check(self, name, b, info=""):
        return self._ok(name) if bool(b) else self._bad(name, info or "false")

    def finite(self, name, x, trace=True):
        fa, _ = self._flat(x)
        if trace:
            self._rec(name, fa)
        ok = all(math.isfinite(abs(complex(v))) for v in fa)
        return self._ok(name) if ok else self._bad(name, f"not finite: {fa[:8]}")

    def isreal(self, name, x):
        return self.check(name, not self.np.iscomplexobj(x), "complex valued")

    def raises(self, name, f, exc):
        try:
            f()
        except exc:
            return self._ok(name)
        except AssumeFail:
            raise
        except Exception as e:
            return self._bad(name, f"raised {type(e).__name__}: {e}")
        return self._bad(name, "nothing raised")

    def noraise(self, name, f):
        try:
            r = f()
        except AssumeFail:
            raise
        except Exception as e:
            self._bad(name, f"raised {type(e).__name__}: {e}")
            raise StopPath()
        self._ok(name)
        return r

    # jets have no concrete counterpart
    def jet(self, name="eps", order=2):
        raise AssumeFail("jet")

    def taylor(self, f, order):
        np = self.np
        m = order + 5
        h = 0.1
        ts = [h * math.cos(math.pi * (i + 0.5) / m) for i in range(m)]
        V = np.linalg.inv(np.array([[(t / h) ** k for k in range(m)] for t in ts]))
        ys = [f(np.float64(t)) for t in ts]
        return [self._map2(lambda *v, k=k: sum(V[k, i] * v[i] for i in range(m)) / h ** k, ys) for k in range(order + 1)]

    def coef(self, y, k):
        raise AssumeFail("jet")


class FakeRandom:
    def __init__(self, H):
        self.H = H
        import numpy as np
        self.np = np

    def _one(self, kind):
        n = self.H.ndraw
        self.H.ndraw += 1
        if kind != "u" and self.H.drawq:
            return self.H.drawq.pop(0)
        if kind == "u":
            return float(self.H.real(f"rnd{n}", *self.H.draw_range))
        return float(self.H.real(f"rnd{n}", span=1.5))

    def _fill(self, size, kind):
        if size is None:
            return self._one(kind)
        if isinstance(size, (int, self.np.integer)):
            size = (int(size),)
        r = self.np.empty(tuple(size))
        for i in self.np.ndindex(*r.shape):
            r[i] = self._one(kind)
        return r

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self._fill(size, "n")

    def standard_normal(self, size=None):
        return self._fill(size, "n")

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self._fill(size, "u")

    def randn(self, *shape):
        return self._fill(shape if shape else None, "n")

    def rand(self, *shape):
        return self._fill(shape if shape else None, "u")

    def random(self, size=None):
        return self._fill(size, "u")


def block_frameworks():
    for m in ("torch", "tensorflow", "jax", "autograd", "matplotlib", "matplotlib.pyplot"):
        sys.modules[m] = None


def setup(frameworks=False):
    src = os.environ.get("VERIF_SRC", "/repo/src")
    sys.path.insert(0, src)
    if not frameworks:
        block_frameworks()
    if not os.path.exists(os.path.join(src, "pymanopt", "_version.py")):
        v = types.ModuleType("pymanopt._version")
        v.__version__ = "0"
        sys.modules["pymanopt._version"] = v
    warnings.simplefilter("ignore")


def run_one(fn, cfg, values, choices):
    """-> dict(status, failures, trace)"""
    import numpy as np
    H = ConH(values, choices)
    fr = FakeRandom(H)
    saved = {}
    for n in ("normal", "uniform", "randn", "rand", "standard_normal", "random"):
        saved[n] = getattr(np.random, n)
        setattr(np.random, n, getattr(fr, n))
    rt = time.time
    clk = [0.0, 0]

    def fake_time():
        n = clk[1]
        clk[1] += 1
        clk[0] += float(values.get(f"clk{n}", 0.0))
        H.clk.append(clk[0])
        return clk[0]
    if getattr(cfg, "get", lambda *_: None)("clock"):
        time.time = fake_time
    np.seterr(all="ignore")
    status = "ok"
    import builtins
    rp = builtins.print
    builtins.print = lambda *a, **k: None
    try:
        fn(H, cfg)
    except AssumeFail as e:
        status = "assume"
    except StopPath:
        pass
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        loc = next((f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(tb) if "pymanopt" in f.filename), None)
        if loc is None:
            status = "harness-error"
            H.failures.append(("harness error", f"{type(e).__name__}: {e} at {tb[-1].filename}:{tb[-1].lineno}"))
        else:
            H._bad("no unexpected exception", f"{type(e).__name__}: {e} at {loc}")
    finally:
        builtins.print = rp
        for n, f in saved.items():
            setattr(np.random, n, f)
        time.time = rt
    return dict(status=status, failures=H.failures, trace=H.trace, passed=H.passed)


def main():
    job = json.load(sys.stdin)
    real_stdout = os.dup(1)
    os.dup2(2, 1)          # anything printed goes to stderr
    setup(job.get("frameworks", False))
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    mod = importlib.import_module("harness." + job["harness"])
    fns = {c["name"]: c for t in ("quick", "thorough") for c in mod.configs(t)}
    out = []
    with os.fdopen(real_stdout, "w") as so:
        for i, item in enumerate(job["items"]):
            cfg = fns[item["cfg"]]
            try:
                r = run_one(cfg["fn"], cfg, item["values"], item.get("choices", {}))
            except BaseException as e:  # noqa
                r = dict(status="harness-error", failures=[("harness error", repr(e))], trace=[], passed=0)
            so.write(json.dumps(r) + "\n")
            so.flush()


if __name__ == "__main__":
    main()
