"""Harness API (symbolic mode), path exploration."""

import math
import random
import re
import sys
import time
import traceback
import types
from fractions import Fraction

import numpy as np

from . import ctx as C
from . import poly as P
from . import rf as R
from . import snp
from .loader import Loader, PRINT_HOOK
from .poly import Blowup
from .rf import RF, Cx, DomainError, SymBool, Unsupported, cond


class SymH:
    """what a harness sees in symbolic mode"""
    symbolic = True

    def __init__(self, c, loader):
        self.c = c
        self.loader = loader
        self.np = snp.NP
        self.trace = []          # (goal, [floats]) on sample 0 for validation
        self.stubs = set()

    # ---- inputs
    def real(self, name, lo=None, hi=None, **k):
        return self.c.real(name, lo, hi, **k)

    def pos(self, name, lo=None, hi=None, **k):
        return self.c.real(name, lo if lo is not None else 0, hi, **k)

    def nonneg(self, name, hi=None, **k):
        return self.c.real(name, 0, hi, strict=False, **k)

    def nat(self, name, lo=0):
        """an integer >= lo (option ints)"""
        x = self.c.real(name, 0, strict=False, span=3.0)
        self.c.__dict__.setdefault("intvars", {})[next(j for j, nm in enumerate(self.c.SP.names) if nm == name)] = 1
        return lo + x

    def reals(self, name, *shape, **k):
        r = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            r[i] = self.real(name + "_" + "_".join(map(str, i)), **k)
        return snp.wrap(r)

    def cxs(self, name, *shape, **k):
        r = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            s = "_".join(map(str, i))
            r[i] = Cx(self.real(name + "r_" + s, **k), self.real(name + "i_" + s, **k))
        return snp.wrap(r)

    def sign(self, name):
        return self.c.signvar(name)

    def choose(self, name, n):
        return self.c.choose(name, n)

    def flag(self, name):
        return self.c.flag(name)

    def arr(self, x):
        return snp.sarr(x)

    def carr(self, x):
        return snp.emap(Cx.of, snp.sarr(x))

    def cx(self, re, im):
        return Cx(RF.of(re), RF.of(im))

    def num(self, x):
        """exact rational constant"""
        return RF.of(Fraction(x) if not isinstance(x, float) else x)

    @property
    def pi(self):
        return self.c.pi()

    def angle(self, name, arg, c, s):
        """cos(arg) == c and sin(arg) == s by construction"""
        self.c.trig_pair(arg, c, s)

    def log_of(self, arg, E):
        """exp(arg) == E by construction"""
        self.c.declare_exp(arg, E)

    def frame(self, V):
        snp.ctx_list("frames").append(np.array(snp.asobj(V)))

    def similarity(self, M, Mi):
        snp.ctx_list("sims").append((np.array(snp.asobj(M)), np.array(snp.asobj(Mi))))

    def draws(self, *arrays):
        """the next normal draws, entry by entry; the caller's parametrization
        must reach (almost) every outcome"""
        q = self.c.__dict__.setdefault("drawq", [])
        for a in arrays:
            q += list(snp.asobj(a).ravel())

    def uniform_range(self, lo, hi):
        """from now on uniform draws lie in [lo, hi]"""
        self.c.__dict__["draw_range"] = (self.num(lo), self.num(hi))

    def inverse(self, A, Ai):
        snp.ctx_list("inverses").append((np.array(snp.asobj(A)), np.array(snp.asobj(Ai))))

    def chol(self, L):
        snp.ctx_list("chols").append(np.array(snp.asobj(L)))

    def svdreg(self, U, s, V):
        snp.ctx_list("svds").append((np.array(snp.asobj(U)), np.array(snp.asobj(s)), np.array(snp.asobj(V))))

    def logreg(self, A, L):
        snp.ctx_list("logs").append((np.array(snp.asobj(A)), np.array(snp.asobj(L))))

    def opt(self, **k):
        self.c.opts.update(k)
        if "div_fork" in k:
            self.c.div_fork = k["div_fork"]

    def stub(self, s):
        self.stubs.add(s)

    def printed(self, f):
        """numbers f prints, in order"""
        vals, text = [], []

        def mark(v):
            vals.append(v)
            return f"\u27e6{len(vals) - 1}\u27e7"
        old = PRINT_HOOK[0], R.FMT[0]
        PRINT_HOOK[0] = lambda a, k: text.append(" ".join(str(x) for x in a))
        R.FMT[0] = mark
        try:
            f()
        finally:
            PRINT_HOOK[0], R.FMT[0] = old
        out = []
        for t in re.findall("\u27e6\\d+\u27e7|(?<![\\w.])[-+]?\\d+\\.?\\d*(?:[eE][-+]?\\d+)?", "\n".join(text)):
            out.append(vals[int(t[1:-1])] if t[0] == "\u27e6" else RF.of(Fraction(t)))
        return out

    def among(self, name, nums, want):
        """some of the numbers is the wanted one"""
        for v in nums:
            d = v - want
            if (d.re.is_zero() and d.im.is_zero()) if isinstance(d, Cx) else d.is_zero():
                return self.eq(name, v, want, trace=False)
        p = RF.of(1)
        for v in nums:
            p = p * (v - want)
        if not nums:
            return self.check(name, False, "nothing printed")
        return self.eq(name, p, RF.of(0), trace=False)

    def now_first(self):
        """first clock reading of the code under test"""
        return self.c.__dict__["clock_first"]

    def now_last(self):
        return self.c.__dict__["clock_last"]

    def mod(self, name):
        return self.loader.load(name)

    def pyplot(self, plt):
        """install a stand-in for matplotlib (None: not available)"""
        for n in [n for n in self.loader.modules if n.startswith("pymanopt.tools.")]:
            del self.loader.modules[n]
        if plt is None:
            for n in ("matplotlib", "matplotlib.pyplot"):
                self.loader.shims.pop(n, None)
            return
        top = types.ModuleType("matplotlib")
        top.__path__ = []
        top.pyplot = plt
        self.loader.shims.update({"matplotlib": top, "matplotlib.pyplot": plt})

    def fw(self, name):
        """an autodiff framework (its stand-in)"""
        return self.loader.shims[name]

    ndarray = np.ndarray

    def assume(self, b):
        if isinstance(b, np.ndarray):
            b = snp._all(b)
        self.c.assume(b)

    # ---- derivatives
    def deriv(self, f, order=1, at=0, pos=False):
        n = self.c.__dict__.setdefault("nderiv", 0)
        self.c.nderiv += 1
        t = self.c.real(f"t!{n}", 0, span=0.5) if pos else self.c.real(f"t!{n}", span=0.5)
        i = len(self.c.kind) - 1
        i = next(j for j, nm in enumerate(self.c.SP.names) if nm == f"t!{n}")
        y = f(t)
        memos = [{} for _ in range(order)]

        def d1(x):
            x = RF.of(x)
            for k in range(order):
                x = self.c.diff(x, i, memos[k] if k == 0 else {})
            return self.c.subst(x, i, RF.of(at), subm)
        subm = {}
        return self._map(lambda v: Cx(d1(v.re), d1(v.im)) if isinstance(v, Cx) else d1(v), y)

    def at(self, f, value=0):
        """limit value f(t -> value) by substitution in the symbolic result"""
        n = self.c.__dict__.setdefault("nderiv", 0)
        self.c.nderiv += 1
        t = self.c.real(f"t!{n}", span=0.5)
        i = next(j for j, nm in enumerate(self.c.SP.names) if nm == f"t!{n}")
        y = f(t)
        m = {}
        return self._map(lambda v: Cx(self.c.subst(v.re, i, RF.of(value), m), self.c.subst(v.im, i, RF.of(value), m))
                         if isinstance(v, Cx) else self.c.subst(RF.of(v), i, RF.of(value), m), y)

    def _map(self, f, y):
        if isinstance(y, (list, tuple)):
            return [self._map(f, v) for v in y]
        if isinstance(y, np.ndarray):
            return snp.emap(f, y)
        return f(snp.to_scalar(y))

    def jet(self, name="eps", order=2):
        """a nilpotent infinitesimal eps with eps**(order+1) == 0"""
        if self.c.SP.nil is None:
            i = self.c._new("eps!", "def", None, lambda s: 0.0, None)
            for s in self.c.samples:
                s.append(0.0)
            self.c.SP.nil = i
            self.c.nil_order = order
            self.c.SP.set_alg(i, order + 1, {})
        return RF.var(self.c.SP.nil)

    def taylor(self, f, order):
        """coefficients 0..order of t -> f(t) at t = 0"""
        y = f(self.jet(order=order))
        return [self.coef(y, k) for k in range(order + 1)]

    def coef(self, y, k):
        return self._map(lambda v: Cx(v.re.nil_coef(k), v.im.nil_coef(k)) if isinstance(v, Cx) else v.nil_coef(k), y)

    # ---- goals
    def _flat(self, x):
        if isinstance(x, (list, tuple)) and not isinstance(x, np.ndarray):
            out = []
            shp = []
            for y in x:
                f, s = self._flat(y)
                out += f
                shp.append(s)
            return out, tuple(shp)
        if isinstance(x, np.ndarray):
            o = snp.asobj(x)
            return [v for v in o.ravel()], tuple(x.shape)
        return [x if isinstance(x, (SymBool, bool)) else snp.to_scalar(x)], ()

    def _num(self, v, s):
        try:
            if isinstance(v, Cx):
                return [self.c.evalf(v.re, s), self.c.evalf(v.im, s)]
            if isinstance(v, RF):
                return [self.c.evalf(v, s), 0.0]
            return [float(bool(v)), 0.0]
        except Exception:
            return [float("nan"), 0.0]

    def _record(self, name, vals):
        if len(self.trace) < 60:
            self.trace.append((name, list(vals[:12])))

    def trace_at(self, s):
        return [(n, [self._num(v, s) for v in vals]) for n, vals in self.trace]

    def eq(self, name, a, b, tol=None, trace=True):
        fa, sa = self._flat(a)
        fb, sb = self._flat(b)
        if sa != sb:
            return self._fail(name, f"shapes {sa} vs {sb}")
        if any(isinstance(v, R.NanS) for v in fa) or any(isinstance(v, R.NanS) for v in fb):
            self.c.stats.goals += 1
            return self._fail(name, "undefined value", counted=True)
        if trace:
            self._record(name, fa)
        nums = []
        for x, y in zip(fa, fb):
            if isinstance(x, Cx) or isinstance(y, Cx):
                x, y = Cx.of(x), Cx.of(y)
                ds = [x.re - y.re, x.im - y.im]
            else:
                ds = [x - y]
            for d in ds:
                if not d.is_zero():
                    nums.append(d)
        self.c.stats.goals += 1
        if not nums:
            self.c.stats.closed += 1
            pairs = []
            for x, y in zip(fa, fb):
                if isinstance(x, Cx) or isinstance(y, Cx):
                    x, y = Cx.of(x), Cx.of(y)
                    pairs += [(x.re, y.re), (x.im, y.im)]
                else:
                    pairs.append((RF.of(x), RF.of(y)))
            self.c.confirm(pairs)
            self._result(name, "proved", via="normal form")
            return True
        # a clearly violating sample?
        bad = []
        for s in self.c.samples:
            for d in nums:
                v = self.c.evalf(d, s)
                if abs(v) > 1e-6 and not math.isinf(v):
                    bad.append(s)
                    break
        tree = None
        for d in sorted(nums, key=lambda d: len(d.num))[:6] if bad else nums:
            t = ("atom", "!=", d.num)
            tree = t if tree is None else ("or", tree, t)
        return self._decide(name, tree, bad)

    def true(self, name, b):
        self.c.stats.goals += 1
        if isinstance(b, np.ndarray):
            b = snp._all(b)
        if isinstance(b, SymBool):
            nb = R.bnot(b).t
            bad = [s for s in self.c.samples if self.c.evalt(nb, s, 1e-7) is True]
            return self._decide(name, nb, bad)
        if bool(b):
            self.c.stats.closed += 1
            self._result(name, "proved", via="concrete on this path")
            return True
        return self._fail(name, "false on this path", counted=True)

    def le(self, name, a, b, tol=None):
        r = None
        for x, y in zip(*self._bc(a, b)):
            c = x <= y
            r = c if r is None else R.band(r, c)
        return self.true(name, r)

    def lt(self, name, a, b, tol=None):
        r = None
        for x, y in zip(*self._bc(a, b)):
            c = x < y
            r = c if r is None else R.band(r, c)
        return self.true(name, r)

    def _bc(self, a, b):
        fa, sa = self._flat(a)
        fb, sb = self._flat(b)
        if len(fa) != len(fb):
            if len(fb) == 1:
                fb = fb * len(fa)
            elif len(fa) == 1:
                fa = fa * len(fb)
        return fa, fb

    def check(self, name, b, info=""):
        """a python-level fact that must hold on every path"""
        self.c.stats.goals += 1
        if isinstance(b, SymBool):
            self.c.stats.goals -= 1
            return self.true(name, b)
        if b:
            self.c.stats.closed += 1
            self._result(name, "proved", via="concrete on this path")
            return True
        return self._fail(name, info or "false on this path", counted=True)

    def finite(self, name, x, trace=True):
        """every entry is a finite number (domain errors are raised earlier)"""
        fa, _ = self._flat(x)
        if any(isinstance(v, R.NanS) for v in fa):
            return self.check(name, False, "undefined value")
        if trace:
            self._record(name, fa)
        return self.check(name, True)

    def isreal(self, name, x):
        fa, _ = self._flat(x)
        return self.check(name, not any(isinstance(v, Cx) for v in fa), "complex valued")

    def raises(self, name, f, exc):
        try:
            f()
        except exc:
            return self.check(name, True)
        except (Unsupported, Blowup, C.Infeasible, C.PathLimit):
            raise
        except Exception as e:
            return self.check(name, False, f"raised {type(e).__name__}: {e}")
        return self.check(name, False, "nothing raised")

    def noraise(self, name, f):
        try:
            r = f()
        except (Unsupported, Blowup, C.Infeasible, C.PathLimit, DomainError):
            raise
        except Exception as e:
            self.check(name, False, f"raised {type(e).__name__}: {e}")
            raise StopPath()
        self.check(name, True)
        return r

    def _result(self, name, status, **k):
        self.c.results.append(dict(name=name, status=status, **k))

    def _fail(self, name, info, counted=False):
        if not counted:
            self.c.stats.goals += 1
        return self._decide(name, None, self.c.samples[:4], info)

    def _values(self, s):
        out = {}
        for i, n in enumerate(self.c.SP.names):
            if self.c.kind[i] == "free":
                out[n] = s[i]
        return out

    def _decide(self, name, tree, bad, info=""):
        """tree: negated goal (None = true)"""
        c = self.c
        cands = []
        trees = [tree] if tree is not None else []
        status = None
        if bad:
            # solver confirms the sample as a model of pc and the negated goal
            for s in bad[:5]:
                pins = [(i, Fraction(s[i]).limit_denominator(10 ** 9)) for i in range(len(s)) if c.kind[i] == "free"]
                r, _ = c.query(trees, 1500, full=True, pins=pins)
                if r == "unsat" and tree is not None and not any(r is not None for r in c.rec):
                    continue
                cands.append(self._values(s))
            if cands:
                status = "refuted"
        if status is None:
            ms = c.opts["goal_ms"]
            r, m = c.query(trees, ms, full=tree is None, want_model=True)
            if r == "unsat":
                self._result(name, "proved", via="z3")
                return True
            if r == "sat":
                status = "refuted"
                vals = c.model_values(m)
                cands.append(self._complete(vals))
                # a full model (all path conditions), and diversified ones
                r2, m2 = c.query(trees, ms, full=True, want_model=True)
                if r2 == "sat":
                    cands.insert(0, self._complete(c.model_values(m2)))
                for q in range(3):
                    pins = []
                    rng = random.Random(q)
                    free = [i for i in range(len(c.kind)) if c.kind[i] == "free" and i not in c.SP.alg]
                    rng.shuffle(free)
                    for i in free[: max(1, len(free) - 2 - q)]:
                        pins.append((i, Fraction(rng.randint(1, 40), 16)))
                    for cut in (len(pins), len(pins) // 2, len(pins) // 4):
                        r3, m3 = c.query(trees, 1000, full=True, pins=pins[:cut], want_model=True)
                        if r3 == "sat":
                            cands.append(self._complete(c.model_values(m3)))
                            break
                for s in c.samples[:2]:
                    cands.append(self._values(s))
            else:
                status = "unknown"
                for s in c.samples[:2]:
                    cands.append(self._values(s))
        self._result(name, status, info=info, cands=cands, choices=dict(c.choices))
        return False

    def _complete(self, vals):
        base = self._values(self.c.samples[0]) if self.c.samples else {}
        out = {}
        for i, n in enumerate(self.c.SP.names):
            if self.c.kind[i] == "free":
                v = vals.get(n)
                if v is None:
                    v = base.get(n)
                if v is None:
                    v = 0.0 if not self.c.sign[i] else 1.0
                out[n] = v
        return out


class StopPath(Exception):
    pass


class Touched:
    """names of the repository functions executed symbolically"""

    def __init__(self):
        self.names = set()

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(m.PROFILER_ID, "symx")

        def start(code, off):
            f = code.co_filename
            i = f.find("pymanopt/")
            if i >= 0 and not code.co_qualname.startswith("<module"):
                self.names.add(f[f.rfind("pymanopt/"):-3].replace("/", ".") + ":" + code.co_qualname.replace(".<locals>", ""))
            return m.DISABLE
        m.register_callback(m.PROFILER_ID, m.events.PY_START, start)
        m.set_events(m.PROFILER_ID, m.events.PY_START)
        m.restart_events()
        return self

    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(m.PROFILER_ID, 0)
        m.register_callback(m.PROFILER_ID, m.events.PY_START, None)
        m.free_tool_id(m.PROFILER_ID)


def explore(*a, **k):
    with Touched() as t:
        out = explore_(*a, **k)
    out["functions"] = sorted(n for n in t.names if not n.endswith(">") and "<" not in n.split(":")[1])
    return out


def explore_(fn, cfg, opts=None, max_paths=200, deadline=None, seed=1, shims=None):
    """run harness fn(H, cfg) over all feasible paths"""
    stats = C.Stats()
    out = dict(results=[], unsupported=[], stats=stats, witness=None, stubs=set(), generic=set(), truncated=False)
    stack = [[]]
    t0 = time.time()
    sys.setrecursionlimit(20000)
    while stack:
        if stats.paths >= max_paths or (deadline and time.time() > deadline):
            out["truncated"] = True
            out["unsupported"].append(f"path budget: {len(stack)} branches left after {stats.paths} paths")
            break
        prefix = stack.pop()
        o = dict(opts or {})
        c = C.Ctx(prefix, seed=seed, stats=stats, opts=o)
        c.deadline = deadline
        R.set_ctx(c)
        H = SymH(c, Loader(shims() if callable(shims) else shims, ints=o.get("ints")))
        PRINT_HOOK[0] = None
        stats.paths += 1
        status = "done"
        try:
            fn(H, cfg)
        except C.Infeasible:
            status = "infeasible"
        except StopPath:
            pass
        except (Unsupported, Blowup, RecursionError, C.PathLimit) as e:
            status = "unsupported"
            msg = f"{type(e).__name__}: {e}"
            if o.get("debug"):
                traceback.print_exc()
            out["unsupported"].append(msg[:200])
            out.setdefault("unsup_cands", []).extend([dict(values=H._values(s), choices=dict(c.choices)) for s in c.samples[:2]])
        except DomainError as e:
            status = "domain"
            H._fail("defined", f"undefined operation: {e}")
        except MemoryError:
            status = "unsupported"
            out["unsupported"].append("MemoryError")
        except Exception as e:
            status = "exception"
            if o.get("debug"):
                traceback.print_exc()
            tb = traceback.extract_tb(e.__traceback__)
            loc = next((f"{f.filename}:{f.lineno}" for f in reversed(tb) if "/repo" in f.filename or "pymanopt" in f.filename), "")
            H._fail("no unexpected exception", f"{type(e).__name__}: {e} {loc}")
        # siblings
        for n in c.alts:
            if n >= len(prefix):
                stack.append(c.decisions[:n] + [False])
        if status == "infeasible":
            stats.pathcut += 1
            continue
        # reachability witness
        wit = None
        if c.samples:
            wit = H._values(c.samples[0])
        elif out["witness"] is None and c.results:
            r, m = c.query([], 2000, full=True, want_model=True)
            if r == "sat":
                wit = H._complete(c.model_values(m))
        if wit is not None:
            stats.witnessed += 1
            if out["witness"] is None or (not out["witness"]["trace"] and H.trace and c.samples):
                out["witness"] = dict(values=wit, choices=dict(c.choices), trace=H.trace_at(c.samples[0]) if c.samples else [])
        feasible_known = wit is not None
        for r in c.results:
            out["results"].append(r)
        out["stubs"] |= H.stubs
        if any(r["status"] == "refuted" for r in c.results) and sum(r["status"] == "refuted" for r in out["results"]) > 25:
            out["truncated"] = True
            break
    out["generic"] = sorted(stats.generic)[:12]
    out["time"] = time.time() - t0
    R.set_ctx(None)
    return out
