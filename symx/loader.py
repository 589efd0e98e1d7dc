"""Loads the real pymanopt sources of /repo with numpy, scipy, math, time and
the autodiff frameworks replaced by their symbolic stand-ins.  The sources are
compiled from /repo's current working tree on every run; nothing is copied."""

import builtins
import importlib
import os
import sys
import types

import numpy as np

from . import rf as R
from . import snp
from .rf import RF, Cx, SymBool

SRC = os.environ.get("VERIF_SRC", "/repo/src")

_builtin_import = builtins.__import__


class sfloat(float):
    pass


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, (builtins.float, RF))


def _float(x=0.0):
    if builtins.isinstance(x, RF):
        return x
    if builtins.isinstance(x, Cx):
        return x.re
    if builtins.isinstance(x, np.ndarray) and x.dtype == object or builtins.isinstance(x, snp.SArr):
        if x.size == 1:
            return _float(x.flat_list()[0] if builtins.isinstance(x, snp.SArr) else x.item())
        raise TypeError("only length-1 arrays can be converted to Python scalars")
    return builtins.float(x)


class FloatProxy(metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        return _float(x)


def int_valued(x):
    """does the symbolic x take integer values at all values of its integer
    variables?  A polynomial of degree d does iff it does at 0..d."""
    x = RF.of(x)
    k = x.const()
    if k is not None:
        return k.denominator == 1
    c = R.CTX
    iv = c.__dict__.get("intvars") or {}
    if not iv or x.den:
        return False
    from . import poly as P
    deg = {}
    for m in x.num:
        i = 0
        while m:
            e = m & 255
            if e:
                deg[i] = max(deg.get(i, 0), e)
            m >>= 8
            i += 1
    if builtins.any(i not in iv for i in deg):
        return False
    pts = [x]
    for i, d in deg.items():
        pts = [c.subst(y, i, RF.of(v), {}) for y in pts for v in range(d + 1)]
    return builtins.all(y.const() is not None and y.const().denominator == 1 for y in pts)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, builtins.int) or builtins.isinstance(x, RF) and int_valued(x)


class IntProxy(metaclass=_IntMeta):
    """int() where sizes are symbolic"""

    def __new__(cls, x=0, *a):
        if builtins.isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            x = x.item()
        if builtins.isinstance(x, RF):
            if not int_valued(x):
                raise R.Unsupported("int() of a symbolic value that need not be an integer")
            return x
        return builtins.int(x, *a)


class _ComplexMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, (builtins.complex, Cx))


class ComplexProxy(metaclass=_ComplexMeta):
    def __new__(cls, re=0.0, im=0.0):
        if builtins.isinstance(re, Cx):
            return re
        return Cx(RF.of(re), RF.of(im))


def _sum(it, start=0):
    acc = start
    for v in it:
        acc = acc + v
    return acc


def _print(*a, **k):
    if PRINT_HOOK[0] is not None:
        PRINT_HOOK[0](a, k)


PRINT_HOOK = [None]


def _isinstance(x, c):
    if c is builtins.float:
        return builtins.isinstance(x, (builtins.float, RF))
    return builtins.isinstance(x, c)


class SymTime:
    """time module stub: an arbitrary non-decreasing clock"""

    def __init__(self):
        self.fixed = None

    def time(self):
        c = R.CTX
        if c is None:
            return 0.0
        if c.opts.get("clock") != "sym":
            return 0
        n = c.__dict__.setdefault("nclock", 0)
        c.nclock += 1
        d = c.real(f"clk{n}", 0, strict=False, span=3.0)
        last = c.__dict__.get("clock_last")
        t = d if last is None else last + d
        c.clock_last = t
        c.__dict__.setdefault("clock_first", t)
        return t

    perf_counter = monotonic = time

    def sleep(self, *a):
        pass

    def __getattr__(self, n):
        raise AttributeError(n)


CODE = {}       # per process, i.e. per configuration


class Loader:
    def __init__(self, shims=None, ints=False):
        self.modules = {}
        self.stack = []
        root = snp.scipy_ns()
        tm = types.ModuleType("time")
        st = SymTime()
        tm.time = st.time
        tm.perf_counter = st.time
        tm.monotonic = st.time
        tm.process_time = st.time
        tm.sleep = st.sleep
        self.shims = {"numpy": snp.NP, "numpy.linalg": snp.NP.linalg, "scipy": root,
                      "scipy.linalg": root.linalg, "scipy.special": root.special,
                      "scipy.version": root.version, "math": snp.math_ns(), "time": tm}
        self.blocked = {"torch", "tensorflow", "jax", "autograd", "matplotlib"}
        if shims:
            for k, v in shims.items():
                self.shims[k] = v
        b = dict(builtins.__dict__)
        b["__import__"] = self._import
        b["float"] = FloatProxy
        if ints:
            b["int"] = IntProxy
        b["sum"] = _sum
        b["print"] = _print
        self.builtins = b
        self.functions = set()

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get("__package__") or globals["__name__"]
            parts = pkg.split(".")
            base = parts[: len(parts) - (level - 1)]
            name = ".".join(base + ([name] if name else []))
        top = name.split(".")[0]
        if name in self.shims or top in self.shims:
            if fromlist:
                m = self.shims.get(name)
                if m is None:
                    m = self.shims[top]
                    for p in name.split(".")[1:]:
                        m = getattr(m, p)
                return m
            return self.shims[top]
        if top in self.blocked:
            raise ImportError(f"No module named {top!r} (not part of this encoding)")
        if top == "pymanopt":
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f):
                        try:
                            self.load(name + "." + f)
                        except ModuleNotFoundError:
                            pass
                return m
            return self.load("pymanopt")
        return _builtin_import(name, globals, locals, fromlist, 0)

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        if "." in name:
            parent = self.load(name.rsplit(".", 1)[0])
            if name in self.modules:
                return self.modules[name]
        path = os.path.join(SRC, *name.split("."))
        if os.path.isdir(path):
            file, ispkg = os.path.join(path, "__init__.py"), True
        else:
            file, ispkg = path + ".py", False
        if not os.path.exists(file):
            if name == "pymanopt._version":       # generated at build time
                m = types.ModuleType(name)
                m.__version__ = "0"
                self.modules[name] = m
                return m
            raise ModuleNotFoundError(f"No module named {name!r}")
        m = types.ModuleType(name)
        m.__file__ = file
        m.__dict__["__builtins__"] = self.builtins
        if ispkg:
            m.__path__ = [path]
            m.__package__ = name
        else:
            m.__package__ = name.rsplit(".", 1)[0]
        self.modules[name] = m
        sys.modules[name] = m
        code = CODE.get(file)
        if code is None:
            with open(file) as fh:
                src = fh.read()
            code = CODE[file] = compile(src, file, "exec")
        try:
            exec(code, m.__dict__)
        except BaseException:
            del self.modules[name]
            sys.modules.pop(name, None)
            raise
        if "." in name:
            setattr(self.load(name.rsplit(".", 1)[0]), name.rsplit(".", 1)[1], m)
        return m
