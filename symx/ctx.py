"""One symbolic execution path: variables, path condition, definitional
axioms, feasibility and goal queries (z3)."""

import cmath
import math
import random
import time
from fractions import Fraction

import z3

from . import poly as P
from . import rf as R
from .poly import (content, monocontent, pconst, pdiv_exact, pkey, pmul,
                   pscale, psqrt, pvar, pvars)
from .rf import RF, Cx, DomainError, SymBool, Unsupported, cond

ONE = RF({0: 1})
ZERO = RF({})


class Infeasible(Exception):
    """The current path turned out to be infeasible."""


class PathLimit(Exception):
    pass


class Stats:
    def __init__(self):
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.closed = 0       # goals whose negation normalised to false
        self.confirmed = 0    # of these, equalities the solver refuted the negation of
        self.disagree = 0     # ... or found a model of the negation
        self.confirm_s = 0.0
        self.goals = 0
        self.paths = 0
        self.pathcut = 0
        self.witnessed = 0
        self.forks = 0
        self.generic = set()   # generic-position assumptions taken
        self.assumed_domain = 0

    def as_dict(self):
        d = dict(self.__dict__)
        d["generic"] = sorted(self.generic)[:20]
        return d


NSAMP = 16


class Ctx:
    def __init__(self, prefix=(), seed=0, stats=None, opts=None):
        self.opts = dict(branch_ms=400, goal_ms=8000, maxdec=400, nil_order=2,
                         div_fork=False, domain="check", samples=NSAMP, limit=60000,
                         ambient=None)
        if opts:
            self.opts.update(opts)
        SP = P.reset()
        SP.limit = self.opts["limit"]
        self.SP = SP
        R.set_ctx(self)
        self.factors = R.Factors()
        self.nil_order = self.opts["nil_order"]
        self.div_fork = self.opts["div_fork"]
        self.prefix = list(prefix)
        self.decisions = []
        self.alts = []               # (index) positions where the other side is open
        self.stats = stats or Stats()
        self.rng = random.Random(seed)
        self.kind = []               # per var: 'free' | 'def'
        self.sign = []               # 1 positive, 0.5 nonneg, None
        self.ev = []                 # evaluator for derived variables
        self.rec = []                # (op, arg RF) for diff / substitution
        self.pc = []                 # (formula tree, frozenset vars)
        self.known = {}              # pkey -> sign facts
        self.axioms = []             # (tree, vars)
        self.samples = [[] for _ in range(self.opts["samples"])]
        self.zvars = []
        self.memo_root = {}
        self.memo_trig = []          # (primitive arg RF, c, s)
        self.memo_acos = {}
        self.memo_exp = {}           # monomial-term key -> RF E
        self.memo_log = {}
        self.memo_atan = {}
        self._pi = None
        self.events = []
        self.free = {}               # name -> RF
        self.results = []            # goal results
        self.choices = {}
        self.branch_cache = {}
        self.observed = {}
        self.deadline = None
        self.resamples = 0
        self.dropped = []            # samples which left the path last
        self.bounds = {}

    # ------------------------------------------------------------ variables
    def _new(self, name, kind, sign=None, ev=None, rec=None):
        i = self.SP.var(name)
        self.kind.append(kind)
        self.sign.append(sign)
        self.ev.append(ev)
        self.rec.append(rec)
        self.zvars.append(z3.Real(f"{name}"))
        return i

    def real(self, name, lo=None, hi=None, pos=False, nonneg=False, span=2.0,
             strict=True):
        """fresh free real.  lo/hi bound it (strictly unless strict=False)."""
        if name in self.free:
            raise ValueError("duplicate variable " + name)
        sign = 1 if pos or (lo is not None and (lo > 0 or (lo == 0 and strict))) else \
            (0.5 if nonneg or (lo is not None and lo >= 0) else None)
        i = self._new(name, "free", sign)
        a = float(lo) if lo is not None else (0.0 if sign else -span)
        b = float(hi) if hi is not None else max(a, 0.0) + span
        self.bounds[i] = (float(lo) if lo is not None else (0.0 if sign else None), float(hi) if hi is not None else None)
        for s in self.samples:
            v = 0.0
            for _ in range(50):
                v = round(self.rng.uniform(a, b) * 64) / 64
                if b - a < 0.5:
                    v = self.rng.uniform(a, b)
                if a < v < b and v != 0:
                    break
            s.append(v)
        r = RF.var(i)
        self.free[name] = r
        if sign == 1:
            self.axiom(("atom", ">", pvar(i)))
        elif sign == 0.5:
            self.axiom(("atom", ">=", pvar(i)))
        op = ">" if strict else ">="
        if lo is not None and lo != 0:
            self.assume(cond(op, r - RF.of(lo)))
        if hi is not None:
            self.assume(cond(op, RF.of(hi) - r))
        return r

    def signvar(self, name):
        """fresh d with d**2 == 1 (an arbitrary sign)"""
        i = self._new(name, "free")
        for s in self.samples:
            s.append(self.rng.choice([-1.0, 1.0]))
        self.SP.set_alg(i, 2, {0: 1})
        self.axiom(("atom", "==", {2 << (8 * i): 1, 0: -1}))
        r = RF.var(i)
        self.free[name] = r
        return r

    def derived(self, name, ev, sign=None, rec=None):
        i = self._new(f"{name}!{len(self.kind)}", "def", sign, ev, rec)
        for s in list(self.samples):
            try:
                s.append(float(ev(s)))
            except (ValueError, ZeroDivisionError, OverflowError, TypeError):
                s.append(float("nan"))
        return i

    def axiom(self, tree):
        self.axioms.append((tree, frozenset(tvars(tree))))

    # ------------------------------------------------------------ samples
    def evalf(self, x, s):
        """float value of an RF (or poly) on a sample"""
        try:
            if isinstance(x, dict):
                return peval_f(x, s)
            v = peval_f(x.num, s) / x.dc
            for f, e in x.den.items():
                v /= peval_f(self.factors.polys[f], s) ** e
            return v
        except (ZeroDivisionError, OverflowError):
            return float("nan")

    def evalt(self, t, s, tol=1e-9):
        """three valued truth of a formula on a sample"""
        k = t[0]
        if k == "atom":
            v = self.evalf(t[2], s)
            if math.isnan(v) or math.isinf(v):
                return None
            op = t[1]
            if abs(v) < tol:
                return None
            return {">": v > 0, ">=": v > 0, "==": False, "!=": True}[op]
        if k == "and":
            a, b = self.evalt(t[1], s, tol), self.evalt(t[2], s, tol)
            if a is False or b is False:
                return False
            return True if a and b else None
        if k == "or":
            a, b = self.evalt(t[1], s, tol), self.evalt(t[2], s, tol)
            if a or b:
                return True
            return False if a is False and b is False else None
        if k == "not":
            a = self.evalt(t[1], s, tol)
            return None if a is None else not a
        raise AssertionError(k)

    def add_sample(self, values):
        """values: dict free-name -> float; derived ones are recomputed"""
        s = []
        for i, name in enumerate(self.SP.names):
            if self.kind[i] == "free":
                s.append(float(values.get(name, 0.0)))
            else:
                try:
                    s.append(float(self.ev[i](s)))
                except (ValueError, ZeroDivisionError, OverflowError, TypeError):
                    s.append(float("nan"))
        return s

    # ------------------------------------------------------------ solver
    def zpoly(self, p):
        terms = []
        for m, c in p.items():
            fs = []
            i = 0
            while m:
                e = m & 0xFF
                for _ in range(e):
                    fs.append(self.zvars[i])
                m >>= 8
                i += 1
            if not fs:
                terms.append(z3.RealVal(c))
            else:
                t = fs[0]
                for f in fs[1:]:
                    t = t * f
                terms.append(t if c == 1 else z3.RealVal(c) * t)
        if not terms:
            return z3.RealVal(0)
        return z3.Sum(terms) if len(terms) > 1 else terms[0]

    def zform(self, t):
        k = t[0]
        if k == "atom":
            v = self.zpoly(t[2])
            return {">": v > 0, ">=": v >= 0, "==": v == 0, "!=": v != 0}[t[1]]
        if k == "and":
            return z3.And(self.zform(t[1]), self.zform(t[2]))
        if k == "or":
            return z3.Or(self.zform(t[1]), self.zform(t[2]))
        if k == "not":
            return z3.Not(self.zform(t[1]))
        if k == "true":
            return z3.BoolVal(True)
        raise AssertionError(k)

    def cone(self, vs):
        vs = set(vs)
        pool = self.pc + self.axioms
        used = [False] * len(pool)
        changed = True
        while changed:
            changed = False
            for j, (t, tv) in enumerate(pool):
                if not used[j] and (tv & vs):
                    used[j] = True
                    if not tv <= vs:
                        vs |= tv
                    changed = True
        return [pool[j][0] for j in range(len(pool)) if used[j]], vs

    def query(self, trees, ms, full=False, pins=None, want_model=False):
        """'sat' | 'unsat' | 'unknown' (and a model) for pc+axioms+trees"""
        vs = set()
        for t in trees:
            vs |= set(tvars(t))
        if full:
            cons = [t for t, _ in self.pc + self.axioms]
        else:
            cons, _ = self.cone(vs)
        size = sum(tsize(t) for t in cons) + sum(tsize(t) for t in trees)
        if size > 40000:
            self.stats.unknown += 1
            return "unknown", None
        t0 = time.time()
        if self.deadline:
            ms = max(50, min(ms, int((self.deadline - t0) * 1000)))
        s = z3.Solver()
        s.set("timeout", int(ms))
        s.set("random_seed", 1)
        for t in cons:
            s.add(self.zform(t))
        for t in trees:
            s.add(self.zform(t))
        if pins:
            for i, v in pins:
                s.add(self.zvars[i] == z3.RealVal(str(v)))
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        self.stats.queries += 1
        dt = time.time() - t0
        self.stats.solver_s += dt
        if r == z3.sat:
            self.stats.sat += 1
            return "sat", (s.model() if want_model else None)
        if r == z3.unsat:
            self.stats.unsat += 1
            return "unsat", None
        self.stats.unknown += 1
        return "unknown", None

    def confirm(self, pairs, ms=300):
        """second opinion on an equality closed by the normal form: is
        "some pair differs" unsatisfiable for the solver, from the two sides
        as computed (not their normalised difference)?"""
        budget = self.opts.get("confirm_s", 2.0)
        if self.stats.confirm_s > budget:
            return
        t0 = time.time()
        ne, vs = [], set()
        for x, y in pairs:
            if x.const() is not None and y.const() is not None:
                continue
            den = {}
            for f, e in list(x.den.items()) + list(y.den.items()):
                den[f] = max(den.get(f, 0), e)
            if len(x.num) + len(y.num) > 150 or sum(len(self.factors.polys[f]) * e for f, e in den.items()) > 60:
                return
            sides = []
            for u in (x, y):
                t = self.zpoly(u.num) * z3.RealVal(str(Fraction(1) / Fraction(u.dc)))
                for f, e in den.items():
                    for _ in range(e - u.den.get(f, 0)):
                        t = t * self.zpoly(self.factors.polys[f])
                sides.append(t)
                vs |= set(pvars(u.num))
            for f in den:
                vs |= set(pvars(self.factors.polys[f]))
            ne.append(sides[0] != sides[1])
        if not ne:
            return
        s = z3.Solver()
        s.set("timeout", ms)
        s.add(z3.Or(*ne))
        r = s.check()
        if r == z3.sat:
            for t in self.cone(vs)[0]:
                s.add(self.zform(t))
            r = s.check()
        st = self.stats
        st.queries += 1
        dt = time.time() - t0
        st.solver_s += dt
        st.confirm_s += dt
        if r == z3.unsat:
            st.unsat += 1
            st.confirmed += 1
        elif r == z3.sat:
            st.sat += 1
            st.disagree += 1
            if self.opts.get("debug"):
                print("DISAGREE", [(str(a), str(b)) for a, b in pairs][:3])
        else:
            st.unknown += 1

    def model_values(self, m):
        out = {}
        for i, name in enumerate(self.SP.names):
            if self.kind[i] != "free":
                continue
            v = m.eval(self.zvars[i], model_completion=False)
            f = zfloat(v)
            out[name] = f
        return out

    def model_full(self, m):
        out = {}
        for i, name in enumerate(self.SP.names):
            f = zfloat(m.eval(self.zvars[i], model_completion=True))
            out[name] = 0.0 if f is None else f
        return out

    # ------------------------------------------------------------ branching
    def _tree(self, b):
        return b.t if isinstance(b, SymBool) else None

    def add_pc(self, tree):
        self.pc.append((tree, frozenset(tvars(tree))))
        self._learn(tree)
        live = [s for s in self.samples if self.evalt(tree, s) is True
                or (tree[0] == "atom" and tree[1] == "==" and self._near(tree[2], s))]
        if self.samples and not live:
            self.dropped = self.samples[:4]
        self.samples = live

    # ------------------------------------------------------------ guided search for a real input on a narrow path
    def _gap(self, t, s):
        """0 if the formula holds on the sample, a measure of its violation otherwise"""
        k = t[0]
        if k == "atom":
            v = self.evalf(t[2], s)
            if math.isnan(v) or math.isinf(v):
                return 1e6
            op = t[1]
            if op == "==":
                return 0.0 if abs(v) < 1e-9 else min(abs(v), 1e5) + 1e-9
            if op == "!=":
                return 0.0 if abs(v) > 1e-9 else 1.0
            return 0.0 if v > 1e-12 or (op == ">=" and v >= 0) else min(-v, 1e5) + 1e-12
        if k == "and":
            return self._gap(t[1], s) + self._gap(t[2], s)
        if k == "or":
            return min(self._gap(t[1], s), self._gap(t[2], s))
        return 0.0

    def guided(self, starts, trees=(), evals=500, seconds=2.0):
        """a sample satisfying the path condition (and the trees) in exact arithmetic up to rounding, found by moving
        variables and groups of variables towards the ends of their ranges; only ever proposes inputs"""
        goals = [t for t, _ in self.pc] + list(trees)
        t0 = time.time()
        free = [i for i in range(len(self.kind)) if self.kind[i] == "free" and i not in self.SP.alg]
        groups = {}
        for i in free:
            n = self.SP.names[i]
            g = n.rstrip("0123456789_[], ") or n
            groups.setdefault(g, []).append(i)
        names = self.SP.names
        count = [0]

        def score(vals):
            count[0] += 1
            s = self.add_sample(vals)
            return sum(self._gap(t, s) for t in goals), s

        def moves(vals):
            for i in free:
                v = vals[names[i]]
                lo, hi = self.bounds.get(i, (None, None))
                out = []
                for k in range(1, 6):
                    f = 10.0 ** -k
                    if lo is not None and hi is not None:
                        out += [lo + (hi - lo) * f, hi - (hi - lo) * f]
                    elif lo is not None:
                        out += [lo + f, lo + 1 / f ** 0.5]
                    elif hi is not None:
                        out += [hi - f]
                    else:
                        out += [f, -f, v * (1 + f), v * (1 - f)]
                if lo is None:
                    out += [-v, 2 * v, 10 * v]
                yield from ({names[i]: x} for x in out)
            for g in groups.values():
                if len(g) > 1:
                    for k in range(1, 6):
                        yield {names[i]: (self.bounds.get(i, (0.0, None))[0] or 0.0) * (1 - 10.0 ** -k) + vals[names[i]] * 10.0 ** -k for i in g}
                    yield {names[i]: 10 * vals[names[i]] for i in g if self.bounds.get(i, (None, None))[1] is None}

        for s0 in starts[:3]:
            vals = {names[i]: (s0[i] if i < len(s0) else 0.5) for i in range(len(names)) if self.kind[i] == "free"}
            best, s = score(vals)
            for _ in range(4):
                if best == 0:
                    return s
                cand = None
                for mv in moves(vals):
                    if count[0] > evals or time.time() - t0 > seconds or (self.deadline and time.time() > self.deadline):
                        return None
                    b, s = score({**vals, **mv})
                    if b == 0:
                        return s
                    if b < best * 0.999 and (cand is None or b < cand[0]):
                        cand = (b, mv)
                if cand is None:
                    break
                best = cand[0]
                vals = {**vals, **cand[1]}
        return None

    def _near(self, p, s):
        v = self.evalf(p, s)
        return abs(v) < 1e-9

    def _learn(self, tree):
        if tree[0] == "atom":
            op, p = tree[1], tree[2]
            g = content(p) or 1
            if p and p[max(p)] < 0:
                g = -g
            q = {m: c // g for m, c in p.items()}
            k = pkey(q)
            sg = 1 if g > 0 else -1
            if op == ">":
                self.known[k] = sg
            elif op == ">=":
                if self.known.get(k) not in (1, -1):
                    self.known[k] = sg * 0.5
            elif op == "!=":
                kn = self.known.get(k)
                if kn in (0.5, -0.5):
                    self.known[k] = 1 if kn > 0 else -1
                elif kn is None:
                    self.known[k] = 2     # nonzero
            if len(q) == 1:
                m = next(iter(q))
                i = onevar(m)
                if i is not None and op in (">", ">=") and sg > 0:
                    self.sign[i] = max(self.sign[i] or 0, 1 if op == ">" else 0.5)
        elif tree[0] == "and":
            self._learn(tree[1])
            self._learn(tree[2])

    def assume(self, b):
        if isinstance(b, SymBool):
            self.add_pc(b.t)
        elif not b:
            raise Infeasible()

    def _skey(self, t):
        if t[0] == "atom":
            return (t[1], pkey(t[2]))
        return (t[0],) + tuple(self._skey(x) for x in t[1:])

    def branch(self, b):
        t = b.t
        key = self._skey(t)
        if key in self.branch_cache:
            return self.branch_cache[key]
        v = self._branch(b, t)
        self.branch_cache[key] = v
        self.branch_cache[self._skey(R.bnot(b).t)] = not v
        return v

    def _branch(self, b, t):
        nb = R.bnot(b).t
        n = len(self.decisions)
        if n < len(self.prefix):
            v = self.prefix[n]
            self.decisions.append(v)
            self.add_pc(t if v else nb)
            if n == len(self.prefix) - 1:
                self.resample()
            return v
        if n > self.opts["maxdec"]:
            raise PathLimit("too many decisions")
        ms = self.opts["branch_ms"]
        st = sf = None
        for s in self.samples:
            w = self.evalt(t, s)
            if w is True:
                st = "sat"
            elif w is False:
                sf = "sat"
            if st and sf:
                break
        if st is None:
            st, m = self.query([t], ms, want_model=True)
        if sf is None:
            sf, m = self.query([nb], ms, want_model=True)
        if st == "unsat" and sf == "unsat":
            raise Infeasible()
        if st == "unsat":
            v = False
        elif sf == "unsat":
            v = True
        else:
            v = True
            self.alts.append(n)
            self.stats.forks += 1
        self.decisions.append(v)
        self.add_pc(t if v else nb)
        self.resample()
        return v

    def resample(self):
        """no sample satisfies the path condition any more: ask the solver"""
        if self.samples or self.opts.get("noresample") or self.resamples > 40:
            return
        self.resamples += 1
        r, m = self.query([], self.opts["branch_ms"], full=True, want_model=True)
        if r == "unsat":
            raise Infeasible()
        starts = []
        if r == "sat":
            s = self.add_sample({k: (v if v is not None else 0.5) for k, v in self.model_values(m).items()})
            if all(self.evalt(t, s) is not False or self.evalt(t, s, 1e-6) is None for t, _ in self.pc):
                self.samples = [s]
                return
            starts = [s]
        s = self.guided(self.dropped[:2] + starts)
        if s is not None:
            self.samples = [s]

    def choose(self, name, n):
        """an arbitrary integer in range(n): forks n ways"""
        for k in range(n - 1):
            d = self.flag(f"{name}?{k}")
            if d:
                self.choices[name] = k
                return k
        self.choices[name] = n - 1
        return n - 1

    def flag(self, name):
        """an unconstrained boolean: always forks"""
        n = len(self.decisions)
        if n < len(self.prefix):
            v = self.prefix[n]
        else:
            v = True
            self.alts.append(n)
            self.stats.forks += 1
        self.decisions.append(v)
        self.choices[name] = v
        return v

    def event(self, s):
        self.events.append(s)

    # ------------------------------------------------------------ facts
    def psign(self, p):
        if not p:
            return 0.5
        sg = 0
        strict = False
        ok = True
        for m, c in p.items():
            ms = 1       # monomial sign: 1 pos, .5 nonneg
            i = 0
            while m:
                e = m & 0xFF
                if e:
                    sv = self.sign[i]
                    if sv == 1:
                        pass
                    elif e % 2 == 0 or sv == 0.5:
                        ms = 0.5
                    else:
                        ok = False
                        break
                m >>= 8
                i += 1
            if not ok:
                break
            cs = 1 if c > 0 else -1
            if sg == 0:
                sg = cs
            elif sg != cs:
                ok = False
                break
            if ms == 1:
                strict = True
        if ok:
            return sg * (1 if strict else 0.5)
        g = content(p)
        if p[max(p)] < 0:
            g = -g
        q = {m: c // g for m, c in p.items()} if g != 1 else p
        k = self.known.get(pkey(q))
        if k is not None and k != 2:
            return k if g > 0 else -k
        mc = monocontent(q)
        if mc:
            # sign of the monomial times sign of the rest
            ms = 1
            for i in range(len(self.SP.names)):
                e = (mc >> (8 * i)) & 0xFF
                if e:
                    sv = self.sign[i]
                    if sv == 1:
                        continue
                    if e % 2 == 0 or sv == 0.5:
                        ms = 0.5
                    else:
                        return None
            s = self.psign({m - mc: c for m, c in q.items()})
            if s is None:
                return None
            s = s if g > 0 else -s
            return s if ms == 1 else (0.5 if s > 0 else -0.5)
        if len(q) <= 400:
            r = psqrt(q)
            if r is not None:
                s = self.psign(r)
                nz = s in (1, -1) or self.known.get(pkey(self._prim(r))) in (1, -1, 2)
                v = 1 if nz else 0.5
                return v if g > 0 else -v
        return None

    def _prim(self, p):
        g = content(p)
        if p[max(p)] < 0:
            g = -g
        return {m: c // g for m, c in p.items()} if g != 1 else p

    def require_nonzero(self, p):
        s = self.psign(p)
        if s in (1, -1):
            return
        q = self._prim(p)
        if self.known.get(pkey(q)) in (1, -1, 2):
            return
        r = psqrt(q) if len(q) < 400 else None
        t = ("atom", "!=", r if r is not None else q)
        # definitely nonzero?
        if self.opts.get("nz_query", True) and len(q) < 200:
            res, _ = self.query([("atom", "==", q)], 150)
            if res == "unsat":
                self.known[pkey(q)] = 2
                return
        self.stats.generic.add(P.pstr(q, 4))
        self.add_pc(t)

    def special_float(self, x):
        if x == math.pi:
            return self.pi()
        if x == -math.pi:
            return -self.pi()
        if x == 2 * math.pi:
            return self.pi() * 2
        if x == math.pi / 2:
            return self.pi() / 2
        if 0 < abs(x) <= 5e-16:
            return Fraction(0)
        r = round(x * 1e12) / 1e12 if abs(x) < 1e6 else None
        # sqrt of small integers
        if r is not None and abs(x) > 1e-8:
            fr = Fraction(x).limit_denominator(2048)
            if float(fr) == x:
                return fr
            sq = Fraction(x * x).limit_denominator(64)
            if abs(math.sqrt(float(sq)) - abs(x)) <= 2.3e-16 * max(1, abs(x)) and sq.denominator <= 64:
                v = RF.of(sq).root(2)
                return v if x > 0 else -v
        return None

    def rationalize(self, p):
        """p = a + b v with v the last algebraic variable of degree 2"""
        for i in reversed(pvars(p)):
            if i in self.SP.alg:
                deg, rhs = self.SP.alg[i]
                if deg != 2:
                    return None
                sh = 8 * i
                a, b = {}, {}
                for m, c in p.items():
                    if (m >> sh) & 0xFF:
                        b[m - (1 << sh)] = c
                    else:
                        a[m] = c
                if not a:
                    # b*v : 1/(b v) = v/(b rhs)
                    return {1 << sh: 1}, pmul(b, rhs)
                if len(p) > 300:
                    return None
                n = P.psub(pmul(a, a), pmul(pmul(b, b), rhs))
                if not n:
                    return None
                cj = P.psub(a, pmul(b, {1 << sh: 1}))
                return cj, n
        return None

    def domain(self, name, c):
        """the current operation is only defined when c holds"""
        if c is True:
            return
        if c is False:
            self.event(name)
            raise DomainError(name)
        mode = self.opts["domain"]
        if mode == "assume":
            self.stats.assumed_domain += 1
            self.assume(c)
            return
        if mode == "check":
            # explore the outside only if a witness exists
            key = self._skey(c.t)
            if key in self.branch_cache:
                if self.branch_cache[key]:
                    return
            n = len(self.decisions)
            if n >= len(self.prefix):
                nb = R.bnot(c).t
                wit = any(self.evalt(nb, s) is True for s in self.samples)
                if not wit:
                    r, _ = self.query([nb], self.opts["branch_ms"])
                    if r == "unknown":
                        self.stats.assumed_domain += 1
                    if r != "sat":
                        self.decisions.append(True)
                        if r == "unknown":
                            self.add_pc(c.t)
                        else:
                            self._learn(c.t)
                        self.branch_cache[key] = True
                        return
                # fork
            if not self.branch(c):
                self.event(name)
                raise DomainError(name)
            return
        if not bool(c):
            self.event(name)
            raise DomainError(name)

    # ------------------------------------------------------------ functions
    def pi(self):
        if self._pi is None:
            i = self.derived("pi", lambda s: math.pi, 1, ("pi", None))
            self._pi = RF.var(i)
            self.axiom(("atom", ">", {1 << (8 * i): 10 ** 10, 0: -31415926535}))
            self.axiom(("atom", ">", {1 << (8 * i): -10 ** 10, 0: 31415926536}))
        return self._pi

    def root(self, x, n):
        c = x.const()
        if c is not None:
            a = iroot(abs(c.numerator), n)
            b = iroot(c.denominator, n)
            if c < 0:
                raise DomainError("root of a negative number")
            if a is not None and b is not None:
                return RF.of(Fraction(a, b))
        if not x.num:
            return x
        key = (x.key(), n)
        if key in self.memo_root:
            return self.memo_root[key]
        r = self._root(x, n)
        self.memo_root[key] = r
        return r

    def absrf(self, x):
        return abs(x)

    def absatom(self, x):
        """|x| without a case split (option abs="atom"; denominator positive)"""
        g = content(x.num)
        N = {m: c // g for m, c in x.num.items()}
        if N[max(N)] < 0:
            N = pscale(N, -1)
        k = (pkey(N), "abs")
        r = self.memo_root.get(k)
        if r is None:
            i = self.derived("abs", lambda s: abs(peval_f(N, s)), 0.5, ("abs", (RF(N, 1, {}),)))
            v = pvar(i)
            self.axiom(("or", ("atom", "==", P.psub(v, N)), ("atom", "==", P.padd(v, N))))
            self.axiom(("atom", ">=", v))
            r = self.memo_root[k] = RF.var(i)
        return r * RF({0: g}, x.dc, dict(x.den))

    def _root(self, x, n):
        # x = num/(dc prod f^e) = N / (dc^n prod f^(n ceil(e/n)))
        F = self.factors
        N = x.num
        out = ONE
        dc = x.dc
        k = 1
        if dc != 1:
            N = pscale(N, dc ** (n - 1))
            out = out / dc
        for f, e in x.den.items():
            q, r = divmod(e, n)
            if r:
                N = pmul(N, P.ppow(F.polys[f], n - r))
                q += 1
            fp = RF(F.polys[f], 1, {})
            if not F.pos[f] and n % 2 == 0:
                fp = abs(fp)
            out = out / fp ** q
        # integer content
        g = content(N)
        gs = 1
        if N[max(N)] < 0 and len(N) == 1:
            pass
        if g > 1:
            a, b = powerpart(g, n)
            gs = a
            N = {m: c // (a ** n) for m, c in N.items()}
        out = out * gs
        # monomial content
        mc = monocontent(N)
        if mc:
            take = 0
            for i in range(len(self.SP.names)):
                e = (mc >> (8 * i)) & 0xFF
                q = e // n
                if q:
                    v = RF.var(i)
                    if n % 2 == 0 and not self.sign[i]:
                        v = abs(v)
                    out = out * v ** q
                    take |= (q * n) << (8 * i)
            if take:
                N = {m - take: c for m, c in N.items()}
        # known factors
        for f, fp in enumerate(list(F.polys)):
            if len(fp) < 2 or len(N) < 2:
                continue
            fn = P.ppow(fp, n)
            while len(N) > 1:
                q = pdiv_exact(N, fn)
                if q is None:
                    break
                N = q
                v = RF(fp, 1, {})
                if n % 2 == 0 and not F.pos[f]:
                    v = abs(v)
                out = out * v
        if n == 2:
            N, o2 = self._sqrt_known(N)
            out = out * o2
            g = content(N)
            if g > 1:
                a, b = powerpart(g, 2)
                if a > 1:
                    out = out * a
                    N = {m: c // (a * a) for m, c in N.items()}
        if N == {0: 1}:
            return out
        nk = (pkey(N), n, "N")
        if nk in self.memo_root:
            return out * self.memo_root[nk]
        # single positive variables and integer contents are split off
        mc = monocontent(N)
        if mc and len(N) >= 1:
            parts = []
            rest = N
            for i in range(len(self.SP.names)):
                e = (mc >> (8 * i)) & 0xFF
                if e and self.sign[i]:
                    parts.append((i, e))
                    rest = {m - (e << (8 * i)): c for m, c in rest.items()}
            if parts and not (len(parts) == 1 and parts[0][1] == 1 and rest == {0: 1}):
                for i, e in parts:
                    out = out * self.root(RF.var(i), n) ** e
                return out * self.root(RF(rest, 1, {}), n)
        g = content(N)
        if g > 1 and len(N) > 1:
            a = self.root(RF.of(g), n)
            return out * a * self.root(RF({m: c // g for m, c in N.items()}, 1, {}), n)
        sg = self.psign(N)
        if sg in (-1,):
            self.event("root of a negative number")
            raise DomainError("root of a negative number")
        if n % 2 == 0 and sg not in (1, 0.5):
            self.domain("sqrt", cond(">=", RF(N, 1, {})))
            sg = self.psign(N)
        NN = N
        i = self.derived(f"r{n}", lambda s: peval_f(NN, s) ** (1.0 / n),
                         1 if sg == 1 else 0.5, ("root", (RF(N, 1, {}), n)))
        self.SP.set_alg(i, n, N)
        p = P.psub({n << (8 * i): 1}, N)
        self.axiom(("atom", "==", p))
        self.axiom(("atom", ">" if sg == 1 else ">=", pvar(i)))
        r = RF.var(i)
        self.memo_root[nk] = r
        return out * r

    def _sqrt_known(self, N):
        """pull squares out of N: returns (rest, root)"""
        out = ONE
        r = psqrt(N) if len(N) < 3000 else None
        if r is not None:
            v = RF(r, 1, {})
            return {0: 1}, abs(v)
        # N == k * rhs * q^2 for a declared algebraic variable v^2 = rhs
        for i, (deg, rhs) in list(self.SP.alg.items()):
            if deg != 2 or len(rhs) < 2:
                continue
            for sgn in (1, -1):
                q = pdiv_exact(N, rhs if sgn == 1 else pscale(rhs, -1))
                if q is not None:
                    break
            if q is None or sgn == -1:
                continue
            g = content(q)
            a, b = powerpart(g, 2)
            q1 = {m: c // g for m, c in q.items()}
            r = psqrt(q1)
            if r is not None:
                return {0: b}, abs(RF.var(i)) * abs(RF(r, 1, {})) * a
        return N, out

    # trig --------------------------------------------------------------
    def _primarg(self, x):
        g = content(x.num)
        if x.num[max(x.num)] < 0:
            g = -g
        q = Fraction(g, x.dc)
        return q, RF({m: c // g for m, c in x.num.items()}, 1, dict(x.den))

    def trig_pair(self, arg, c, s):
        """declare cos(arg)=c, sin(arg)=s (harness parametrisation)"""
        q, b = self._primarg(arg)
        self.memo_trig.append((b, q, c, s))

    def _signfactor(self, x):
        """a sign variable (square one) that divides x"""
        mc = monocontent(x.num)
        if mc:
            for i in range(len(self.SP.names)):
                if (mc >> (8 * i)) & 0xFF == 1 and self.SP.alg.get(i) == (2, {0: 1}):
                    return RF.var(i)
        return None

    def cossin(self, x):
        if x.is_zero():
            return ONE, ZERO
        sg = self._signfactor(x)
        if sg is not None:
            c, s = self.cossin(x * sg)
            return c, s * sg
        q, b = self._primarg(x)
        for (bb, qq, c, s) in self.memo_trig:
            if bb.den == b.den and bb.num == b.num:
                ratio = q / qq
                if ratio.denominator == 1:
                    k = int(ratio)
                    C, S = ONE, ZERO
                    for _ in range(abs(k)):
                        C, S = C * c - S * s, S * c + C * s
                    return (C, S) if k > 0 else (C, -S)
                if ratio.denominator == 2 and ratio.numerator == 1:
                    pass
        if self._pi is not None and b.num == self._pi.num and not b.den:
            k2 = q * 2
            if k2.denominator == 1:
                k = int(k2) % 4
                return [(ONE, ZERO), (ZERO, ONE), (-ONE, ZERO), (ZERO, -ONE)][k]
            if q.denominator == 4:
                h = RF.of(Fraction(1, 2)).root(2)
                k = int(q * 4) % 8
                return {1: (h, h), 3: (-h, h), 5: (-h, -h), 7: (h, -h)}[k]
        # angle addition when the terms are all known
        if len(b.num) > 1 and len(b.num) <= 4:
            C, S = ONE, ZERO
            okk = True
            for m, cc in b.num.items():
                term = RF({m: cc * q.numerator}, q.denominator, dict(b.den))
                term = RF.make(term.num, term.dc, term.den)
                tq, tb = self._primarg(term)
                hit = None
                for (bb, qq, c, s) in self.memo_trig:
                    if bb.den == tb.den and bb.num == tb.num and (tq / qq).denominator == 1:
                        hit = self.cossin(term)
                        break
                if hit is None:
                    okk = False
                    break
                C, S = C * hit[0] - S * hit[1], S * hit[0] + C * hit[1]
            if okk:
                return C, S
        arg = RF.make(pscale(b.num, q.numerator if q > 0 else -q.numerator), q.denominator, dict(b.den))
        aq = abs(q)
        ic = self.derived("cos", lambda s: math.cos(self.evalf(arg, s)), None, ("cos", arg))
        sgn = None
        isn = self.derived("sin", lambda s: math.sin(self.evalf(arg, s)), None, ("sin", arg))
        c, s = RF.var(ic), RF.var(isn)
        rhs = {0: 1, 2 << (8 * ic): -1}
        self.SP.set_alg(isn, 2, rhs)
        self.axiom(("atom", "==", P.psub({2 << (8 * isn): 1}, rhs)))
        self.memo_trig.append((b, aq, c, s))
        # facts for small angles: 0 < arg < pi => sin > 0
        pos = self._nonneg(arg)
        if pos and self._below_pi(arg):
            st = pos == 1
            self.sign[isn] = 1 if st else 0.5
            self.axiom(("atom", ">" if st else ">=", pvar(isn)))
            # sin(x) <= x ;  cos(x) >= 1 - x^2/2
            if len(arg.num) < 8:
                self.axiom(cond(">=", arg - s).t if isinstance(cond(">=", arg - s), SymBool) else ("true",))
                e = cond(">=", c - 1 + arg * arg / 2)
                if isinstance(e, SymBool):
                    self.axiom(e.t)
        if st_half(self, arg):
            self.sign[ic] = 1
            self.axiom(("atom", ">", pvar(ic)))
        return (c, s) if q > 0 else (c, -s)

    def _nonneg(self, x):
        s = self.psign(x.num)
        if s in (1, 0.5) and x._densign():
            return s
        return None

    def _below_pi(self, x):
        """is x < pi (pc entails)?"""
        c = cond(">", self.pi() - x)
        if c is True:
            return True
        if c is False:
            return False
        r, _ = self.query([R.bnot(c).t], 300)
        return r == "unsat"

    def entails(self, c, ms=400):
        if c is True or c is False:
            return c
        s = self.query([R.bnot(c).t], ms)[0]
        return s == "unsat"

    def arccos(self, x):
        c = x.const()
        if c is not None:
            if c == 1:
                return ZERO
            if c == -1:
                return self.pi()
            if c == 0:
                return self.pi() / 2
            if abs(c) > 1:
                self.event("arccos domain")
                raise DomainError("arccos")
        k = x.key()
        if k in self.memo_acos:
            return self.memo_acos[k]
        # arccos(cos t) = t for 0 <= t <= pi, also for sums of known angles
        for (b, q, cc, ss) in list(self.memo_trig):
            arg = RF.make(pscale(b.num, q.numerator), q.denominator, dict(b.den))
            for mult in (1, 2):
                C, S = self.cossin(arg * mult)
                for sgn in (1, -1):
                    d = x - C if sgn == 1 else x + C
                    if not d.is_zero():
                        continue
                    a = arg * mult if sgn == 1 else self.pi() - arg * mult
                    # bring into [0, pi]
                    if self.entails(cond(">=", a)) and self.entails(cond(">=", self.pi() - a)):
                        self.memo_acos[k] = a
                        return a
                    if self.entails(cond(">=", -a)) and self.entails(cond(">=", self.pi() + a)):
                        self.memo_acos[k] = -a
                        return -a
                    if self.entails(cond(">=", a - self.pi())) and self.entails(cond(">=", 2 * self.pi() - a)):
                        r = 2 * self.pi() - a
                        self.memo_acos[k] = r
                        return r
        self.domain("arccos", R.band(cond(">=", 1 - x), cond(">=", 1 + x)))
        xx = x
        i = self.derived("acos", lambda s: math.acos(self.evalf(xx, s)), 0.5, ("arccos", x))
        a = RF.var(i)
        self.axiom(("atom", ">=", pvar(i)))
        e = cond(">=", self.pi() - a)
        self.axiom(e.t)
        # cos a = x, sin a = sqrt(1-x^2)
        s = (1 - x * x).root(2)
        self.memo_trig.append((a, Fraction(1), x, s))
        # a >= sin a ; a == 0 iff x == 1
        for f in (cond(">=", a - s),
                  R.bor(cond("!=", a), cond("==", x - 1)),
                  R.bor(cond("==", a), cond("!=", x - 1)),
                  cond(">=", a * a / 2 - (1 - x)), cond(">=", 5 * (1 - x) - a * a),
                  cond(">=", 5 * (1 + x) - (self.pi() - a) ** 2)):
            if isinstance(f, SymBool):
                self.axiom(f.t)
        self.memo_acos[k] = a
        return a

    def arctan2(self, y, x):
        """angle of the point (x, y) in (-pi, pi]"""
        if y.is_zero():
            return ZERO if bool(x >= 0) else self.pi()
        k = (y.key(), x.key())
        if k in self.memo_atan:
            return self.memo_atan[k]
        f = self._signfactor(y)
        if f is not None and self.entails(cond(">", -y * f)):
            f = -f
        if f is not None and (self.entails(cond(">", y * f)) or self.entails(cond(">", x))):
            return self.arctan2(y * f, x) * f
        for (b, q, cc, ss) in list(self.memo_trig):
            arg = RF.make(pscale(b.num, q.numerator), q.denominator, dict(b.den))
            for sg in (1, -1):
                if (x * ss * sg - y * cc).is_zero() and self.entails(cond(">", x * cc + y * ss * sg)):
                    a = arg * sg
                    if self.entails(cond(">=", self.pi() - a)) and self.entails(cond(">", self.pi() + a)):
                        self.memo_atan[k] = a
                        return a
        h2 = x * x + y * y
        if not bool(h2 > 0):
            return ZERO
        h = h2.root(2)
        xx, yy = x, y
        i = self.derived("ang", lambda s: math.atan2(self.evalf(yy, s), self.evalf(xx, s)), None, ("arctan2", (y, x)))
        a = RF.var(i)
        c, s = x / h, y / h
        self.memo_trig.append((a, Fraction(1), c, s))
        for f in (cond(">=", self.pi() - a), cond(">", self.pi() + a),
                  R.bor(cond(">=", -y), cond(">", a)), R.bor(cond(">=", y), cond(">", -a)),
                  R.bor(cond("!=", y), R.bor(cond(">=", -x), cond("==", a))),
                  R.bor(cond("!=", y), R.bor(cond(">=", x), cond("==", a - self.pi()))),
                  R.bor(cond("!=", a), cond("==", y)),
                  cond(">=", a * a / 2 - (1 - c)), cond(">=", 5 * (1 - c) - a * a),
                  R.bor(cond(">=", -y), cond(">=", 5 * (1 + c) - (self.pi() - a) ** 2)),
                  R.bor(cond(">=", y), cond(">=", 5 * (1 + c) - (self.pi() + a) ** 2))):
            if isinstance(f, SymBool):
                self.axiom(f.t)
        self.memo_atan[k] = a
        return a

    def arctan(self, x):
        if x.is_zero():
            return ZERO
        if x.num[max(x.num)] < 0:
            return -self.arctan(-x)
        k = x.key()
        if k in self.memo_atan:
            return self.memo_atan[k]
        for (b, q, cc, ss) in list(self.memo_trig):
            if (x * cc - ss).is_zero():
                arg = RF.make(pscale(b.num, q.numerator), q.denominator, dict(b.den))
                if self.entails(cond(">", self.pi() / 2 - arg)) and self.entails(cond(">", self.pi() / 2 + arg)):
                    self.memo_atan[k] = arg
                    return arg
        xx = x
        i = self.derived("atan", lambda s: math.atan(self.evalf(xx, s)), None, ("arctan", x))
        a = RF.var(i)
        h = (1 + x * x).root(2)
        self.memo_trig.append((a, Fraction(1), 1 / h, x / h))
        self.axiom(cond(">", self.pi() / 2 - a).t)
        self.axiom(cond(">", self.pi() / 2 + a).t)
        for f in (cond(">=", x * x - a * a), R.bor(cond("!=", a), cond("==", x)), R.bor(cond("==", a), cond("!=", x)),
                  R.bor(cond(">=", -a), cond(">", x)), R.bor(cond(">=", a), cond(">", -x))):
            if isinstance(f, SymBool):
                self.axiom(f.t)
        self.memo_atan[k] = a
        return a

    # exp / log -----------------------------------------------------------
    def exp(self, x):
        c = x.const()
        if c == 0:
            return ONE
        if isinstance(x, RF):
            out = ONE
            for m, k in sorted(x.num.items()):
                term = RF.make({m: k}, x.dc, dict(x.den))
                out = out * self._exp_term(term)
            return out
        raise Unsupported("exp")

    def _exp_term(self, term):
        q, b = self._primarg(term)
        # exp(q * log f) = f^q
        if not b.den and len(b.num) == 1:
            m = next(iter(b.num))
            i = onevar(m)
            if i is not None and self.rec[i] and self.rec[i][0] == "log":
                f = self.rec[i][1]
                return f.root(q.denominator) ** q.numerator if q.denominator > 1 else f ** int(q)
        k = b.key()
        if k not in self.memo_exp:
            bb = b
            i = self.derived("E", lambda s: math.exp(self.evalf(bb, s)), 1, ("exp", b))
            self.axiom(("atom", ">", pvar(i)))
            E = RF.var(i)
            for f in (cond(">=", E - 1 - b), R.bor(cond("!=", b), cond("==", E - 1)),
                      R.bor(cond("==", b), cond("!=", E - 1)), cond(">=", E * (b - 1) + 1)):
                if isinstance(f, SymBool):
                    self.axiom(f.t)
            self.memo_exp[k] = E
        E = self.memo_exp[k]
        if q.denominator == 1:
            n = int(q)
            return E ** n
        return E.root(q.denominator) ** q.numerator

    def declare_exp(self, b, E):
        """declare exp(b) == E (harness parametrisation, b primitive)"""
        q, bb = self._primarg(b)
        self.memo_exp[bb.key()] = E if q == 1 else E ** (1 / q)

    def log(self, x):
        c = x.const()
        if c is not None:
            if c == 1:
                return ZERO
            if c <= 0:
                self.event("log of a non-positive number")
                raise DomainError("log")
        # x = num / (dc * prod f^e)
        s = self.psign(x.num)
        if not (s == 1 and x._densign()):
            self.domain("log", cond(">", x))
        out = ZERO
        num = x.num
        g = content(num)
        if g > 1:
            num = {m: c // g for m, c in num.items()}
        q = Fraction(g, x.dc)
        sgn = 1
        if num[max(num)] < 0:
            sgn = -1
        if q != 1:
            out = out + self._log_const(q)
        mc = monocontent(num)
        if mc:
            for i in range(len(self.SP.names)):
                e = (mc >> (8 * i)) & 0xFF
                if e and self.sign[i] == 1:
                    out = out + self._log_var(i) * e
                    num = {m - (e << (8 * i)): c for m, c in num.items()}
        rest_den = {}
        neg = []
        for f, fp in enumerate(list(self.factors.polys)):
            if self.factors.pos[f]:
                while len(num) > 1:
                    d = pdiv_exact(num, fp)
                    if d is None:
                        break
                    num = d
                    out = out + self._log_poly(fp)
        for f, e in x.den.items():
            if self.factors.pos[f]:
                out = out - self._log_poly(self.factors.polys[f]) * e
            else:
                rest_den[f] = e
        if rest_den or num != {0: 1}:
            if rest_den:
                out = out + self._log_any(RF.make(num, 1, rest_den))
            else:
                r = psqrt(num)
                e = 1
                while r is not None and len(num) > 1:
                    if self.psign(r) == -1:
                        r = pscale(r, -1)
                    if self.psign(r) != 1 and not self.entails(cond(">", RF(r, 1, {}))):
                        if self.entails(cond(">", RF(pscale(r, -1), 1, {}))):
                            r = pscale(r, -1)
                        else:
                            break
                    num = r
                    e *= 2
                    r = psqrt(num)
                out = out + self._log_poly(num) * e
        return out

    def _log_const(self, q):
        out = ZERO
        for n, s in ((q.numerator, 1), (q.denominator, -1)):
            n = abs(n)
            p = 2
            while n > 1 and p < 1000:
                while n % p == 0:
                    out = out + self._log_any(RF.of(p)) * s
                    n //= p
                p += 1
            if n > 1:
                out = out + self._log_any(RF.of(n)) * s
        return out

    def _log_var(self, i):
        r = self.rec[i]
        if r and r[0] == "exp":
            return r[1]
        if r and r[0] == "root":
            return self.log(r[1][0]) / r[1][1]
        # declared exp
        v = RF.var(i)
        for k, E in self.memo_exp.items():
            if (E - v).is_zero():
                return RF(dict(k[0]), k[1], dict(k[2]))
        return self._log_any(v)

    def _log_poly(self, p):
        if len(p) == 1:
            m = next(iter(p))
            i = onevar(m)
            if i is not None and p[m] == 1:
                return self._log_var(i)
        return self._log_any(RF(p, 1, {}))

    def _log_any(self, x):
        k = x.key()
        if k in self.memo_log:
            return self.memo_log[k]
        xx = x
        i = self.derived("L", lambda s: math.log(self.evalf(xx, s)), None, ("log", x))
        L = RF.var(i)
        self.memo_log[k] = L
        for f in (cond(">=", x - 1 - L), cond(">=", L * x - x + 1),
                  R.bor(cond("!=", L), cond("==", x - 1)),
                  R.bor(cond("==", L), cond("!=", x - 1))):
            if isinstance(f, SymBool):
                self.axiom(f.t)
        return L

    # ------------------------------------------------------------ calculus
    def dvar(self, i, j, memo):
        """d var_i / d var_j"""
        if i == j:
            return ONE
        key = i
        if key in memo:
            return memo[key]
        r = self.rec[i]
        if r is None:
            v = ZERO
        else:
            op, a = r
            if op == "root":
                x, n = a
                d = self.diff(x, j, memo)
                v = ZERO if d.is_zero() else d * RF.var(i) / (x * n)
            elif op == "pi":
                v = ZERO
            elif op == "arctan2":
                y, x = a
                v = (x * self.diff(y, j, memo) - y * self.diff(x, j, memo)) / (x * x + y * y)
            else:
                d = self.diff(a, j, memo)
                if d.is_zero():
                    v = ZERO
                elif op == "cos":
                    v = -d * self.cossin(a)[1]
                elif op == "sin":
                    v = d * self.cossin(a)[0]
                elif op == "exp":
                    v = d * RF.var(i)
                elif op == "log":
                    v = d / a
                elif op == "arccos":
                    v = -d / (1 - a * a).root(2)
                elif op == "arctan":
                    v = d / (1 + a * a)
                elif op == "fn":
                    raise Unsupported("derivative of an opaque function")
                else:
                    raise Unsupported("derivative of " + op)
        memo[key] = v
        return v

    def diff(self, x, j, memo=None):
        """derivative of the RF x with respect to variable index j"""
        memo = {} if memo is None else memo
        out = ZERO
        terms = self._pdiff(x.num, j, memo)
        out = RF.make(terms.num, terms.dc * x.dc, _merge(terms.den, x.den))
        for f, e in x.den.items():
            fp = self.factors.polys[f]
            d = self._pdiff(fp, j, memo)
            if not d.is_zero():
                out = out - x * d * e / RF(fp, 1, {})
        return out

    def _pdiff(self, p, j, memo):
        out = ZERO
        for i in pvars(p):
            dv = self.dvar(i, j, memo)
            if dv.is_zero():
                continue
            sh = 8 * i
            q = {}
            for m, c in p.items():
                e = (m >> sh) & 0xFF
                if e:
                    q[m - (1 << sh)] = c * e
            out = out + RF.make(P.preduce(q), 1, {}) * dv
        return out

    def subst(self, x, j, val, memo=None):
        """x with variable j := val, derived variables recomputed"""
        memo = {} if memo is None else memo

        def image(i):
            if i == j:
                return val
            if i in memo:
                return memo[i]
            r = self.rec[i]
            if r is None:
                v = RF.var(i)
            else:
                op, a = r
                if op == "pi":
                    v = RF.var(i)
                elif op == "arctan2":
                    b = sub(a[0]), sub(a[1])
                    v = RF.var(i) if same(a[0], b[0]) and same(a[1], b[1]) else self.arctan2(*b)
                elif op == "root":
                    b = sub(a[0])
                    v = RF.var(i) if same(a[0], b) else b.root(a[1])
                else:
                    b = sub(a)
                    if same(a, b):
                        v = RF.var(i)
                    elif op == "cos":
                        v = self.cossin(b)[0]
                    elif op == "sin":
                        v = self.cossin(b)[1]
                    elif op == "exp":
                        v = self.exp(b)
                    elif op == "log":
                        v = self.log(b)
                    elif op == "arccos":
                        v = self.arccos(b)
                    elif op == "arctan":
                        v = self.arctan(b)
                    else:
                        raise Unsupported("substitution in " + op)
            memo[i] = v
            return v

        def same(a, b):
            return (a - b).is_zero()

        def subp(p):
            vs = pvars(p)
            im = {}
            ident = True
            for i in vs:
                im[i] = image(i)
                if im[i].num != pvar(i) or im[i].den or im[i].dc != 1:
                    ident = False
            if ident:
                return RF(p, 1, {})
            out = ZERO
            pows = {}
            for m, c in p.items():
                t = RF.of(c)
                for i in vs:
                    e = (m >> (8 * i)) & 0xFF
                    if e:
                        if (i, e) not in pows:
                            pows[i, e] = im[i] ** e
                        t = t * pows[i, e]
                        if t.is_zero():
                            break
                out = out + t
            return out

        def sub(x):
            n = subp(x.num)
            d = ONE
            for f, e in x.den.items():
                d = d * subp(self.factors.polys[f]) ** e
            if d.is_zero():
                raise DomainError("substitution hits a pole")
            return n / (d * x.dc)

        return sub(x)


def _merge(a, b):
    d = dict(a)
    for f, e in b.items():
        d[f] = d.get(f, 0) + e
    return d


def st_half(ctx, arg):
    c = cond(">", ctx.pi() / 2 - arg)
    d = cond(">", ctx.pi() / 2 + arg)
    if ctx.psign(arg.num) is None:
        return False
    return ctx.entails(c, 200) and ctx.entails(d, 200)


def tvars(t):
    if t[0] == "atom":
        return pvars(t[2])
    out = []
    for x in t[1:]:
        out += tvars(x)
    return out


def tsize(t):
    if t[0] == "atom":
        return len(t[2])
    return sum(tsize(x) for x in t[1:])


def onevar(m):
    """index if the monomial is a single variable to the first power"""
    if m == 0:
        return None
    b = m.bit_length() - 1
    if b % 8 == 0 and m == 1 << b:
        return b // 8
    return None


def iroot(n, k):
    if n < 0:
        return None
    r = round(n ** (1.0 / k)) if n < 2 ** 50 else int(z3_iroot(n, k))
    for c in (r - 1, r, r + 1):
        if c >= 0 and c ** k == n:
            return c
    return None


def z3_iroot(n, k):
    lo, hi = 0, 1 << (n.bit_length() // k + 1)
    while lo < hi:
        mid = (lo + hi + 1) // 2
        if mid ** k <= n:
            lo = mid
        else:
            hi = mid - 1
    return lo


def powerpart(g, n):
    """g = a**n * b"""
    a = 1
    p = 2
    b = g
    while p ** n <= b and p < 2000:
        while b % (p ** n) == 0:
            b //= p ** n
            a *= p
        p += 1
    return a, b


def peval_f(p, s):
    tot = 0.0
    for m, c in p.items():
        t = float(c)
        i = 0
        while m:
            e = m & 0xFF
            if e:
                t = t * s[i] ** e
            m >>= 8
            i += 1
        tot += t
    return tot


def zfloat(v):
    if v is None:
        return None
    if z3.is_rational_value(v):
        return float(v.as_fraction())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return float(a.as_fraction())
    return None
