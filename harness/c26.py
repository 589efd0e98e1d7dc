"""C26: results are truthful and do not depend on earlier runs"""
import contextlib
import io

from .optstub import Oracle, make_man, STUB, Pt

OPT = "pymanopt.optimizers."
BOUNDS = ("two consecutive runs of 1 to 2 iterations on two problems with arbitrary costs, gradients and Hessians, for every optimizer, with the "
          "library's own line searches (up to 2 backtracks) and a stateful one; every verbosity level; logs of 1 to 3 iterations; default limits on "
          "manifolds of dimension 1 and 600 in both orders")
ASSUMPTIONS = [STUB, "gradients are nonzero (positive in comparisons of two runs)", "attraction factors of the swarm are zero in comparisons of two runs"]


class Stateful:
    """line search that remembers (in containers) how often it was used; any step it returns"""

    def __init__(self, H):
        self.num = lambda k: H.num(k)
        self.used = {"searches": []}

    def search(self, objective, manifold, x, d, f0, df0):
        self.used["searches"].append(1)
        a = self.num(len(self.used["searches"]))
        nx = manifold.retraction(x, a * d)
        objective(nx)
        return a, nx


class World:
    def __init__(self, H, n, names, positive=True, bounded=False):
        self.H = H
        self.man = make_man(H, n, log=lambda H: H.arr([H.num(1)] * n), dist=lambda H: H.num(1))
        self.o = Oracle(H, self.man, names=names)
        H.stub(STUB)
        known = {}

        def random_tangent_vector(p):
            if p.i not in known:
                known[p.i] = H.reals(f"{names}rt{p.i}", n)
            return known[p.i]
        self.man.random_tangent_vector = random_tangent_vector
        if bounded:
            def f(p):
                if p.i not in self.o.costs:
                    self.o.costs[p.i] = H.nonneg(f"{names}f{p.i}", 1)
                return self.o.costs[p.i]
            self.o.f = f
            self.o.hmat = lambda p: [[H.num(1)] * n] * n
        g0 = self.o.g

        def g(p):
            new = p.i not in self.o.grads
            v = g0(p)
            if new:
                H.assume(v[0] > 0 if positive else v[0] != 0)
            return v
        self.o.g = g

    def reset(self):
        """forget the points of a run; values at equally numbered points stay the same"""
        self.man.points, self.man.retractions = [], []
        self.o.evals, self.o.gevals = [], []


def make(H, kind, verbosity=0, **k):
    m = H.mod(OPT + {"sd": "steepest_descent", "cg": "conjugate_gradient", "tr": "trust_regions", "nm": "nelder_mead", "pso": "particle_swarm"}[kind.split("+")[0]])
    k.update(verbosity=verbosity)
    backtracks = k.pop("backtracks", 1)
    if kind[:2] in ("sd", "cg"):
        how = kind.split("+")[1]
        ls = Stateful(H) if how == "stateful" else getattr(H.mod(OPT + "line_search"), how)(max_iterations=backtracks)
        C = m.SteepestDescent if kind[:2] == "sd" else m.ConjugateGradient
        if kind[:2] == "cg":
            k["beta_rule"] = "FletcherReeves"
        o = C(line_searcher=ls, min_step_size=0, min_gradient_norm=0, max_time=1e30, **k)
        return o, ls
    if kind == "tr":
        return m.TrustRegions(min_gradient_norm=-1, max_time=1e30, rho_regularization=0, **k), None
    if kind == "nm":
        return m.NelderMead(max_time=1e30, **k), None
    return m.ParticleSwarm(max_time=1e30, population_size=k.pop("pop", 2), social=0, nostalgia=0, **k), None


@contextlib.contextmanager
def quiet_centroid(H, man):
    m = H.mod(OPT + "nelder_mead")
    old = getattr(m, "compute_centroid", None)
    if old is not None:
        m.compute_centroid = lambda manifold, points: manifold.new()
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield
    finally:
        if old is not None:
            m.compute_centroid = old


def start(kind, man):
    n = man.dim
    if kind == "nm":
        return [man.new() for _ in range(n + 1)]
    if kind == "pso":
        return [man.new() for _ in range(2)]
    return man.new()


def go(H, w, kind, opt, **k):
    w.reset()
    x = start(kind, w.man)
    copy = list(x) if isinstance(x, list) else x
    if kind == "tr":
        k.update(Delta0=H.num(1), Delta_bar=H.num(2))
    with quiet_centroid(H, w.man):
        r = opt.run(w.o.problem, initial_point=x, **k)
    if isinstance(x, list):
        H.check("initial points are left alone", len(x) == len(copy) and all(a is b for a, b in zip(x, copy)))
    return r, [p.vec for p in w.man.retractions], [p.i for p in w.o.evals]


def same(H, t, a, b):
    (r, vr, er), (s, vs, es) = a, b
    H.check(t + "same returned point", r.point.i == s.point.i, f"{r.point} and {s.point}")
    H.eq(t + "same cost", r.cost, s.cost)
    H.check(t + "same iterations", r.iterations == s.iterations)
    H.check(t + "same reason", r.stopping_criterion.split("after")[0] == s.stopping_criterion.split("after")[0], f"{r.stopping_criterion}")
    for f in ("step_size", "gradient_norm", "cost_evaluations"):
        u, v = getattr(r, f), getattr(s, f)
        H.check(t + f"same kind of {f}", (u is None) == (v is None))
        if u is not None and v is not None:
            H.eq(t + f"same {f}", H.num(1) * u, H.num(1) * v)
    H.check(t + "same evaluations", er == es, f"{er} and {es}")
    H.check(t + "same number of trial points", len(vr) == len(vs))
    for u, v in zip(vr, vs):
        if u is None or v is None:
            H.check(t + "same trial points", u is None and v is None)
        else:
            H.eq(t + "same trial points", u, v)
    la, lb = r.log, s.log
    H.check(t + "same log", (la is None) == (lb is None) and (la is None or set(la) == set(lb)))
    if la and lb:
        for k in la["stopping_criteria"]:
            H.check(t + f"same limit {k}", str(la["stopping_criteria"][k]) == str(lb["stopping_criteria"].get(k)), f"{la['stopping_criteria'][k]}")
        ia, ib = la["iterations"], lb["iterations"]
        H.check(t + "same logged iterations", (ia is None) == (ib is None) and (ia is None or list(ia.get("iteration", [])) == list(ib.get("iteration", []))))


def twice(H, cfg):
    """a used optimizer does what a fresh one does"""
    kind, N = cfg["kind"], cfg["N"]
    a, b = World(H, 1, "a", bounded=kind == "tr"), World(H, 1, "b", bounded=kind == "tr")
    kw = dict(max_iterations=N, log_verbosity=1, backtracks=cfg.get("backtracks", 1))
    used, _ = make(H, kind, **kw)
    fresh, _ = make(H, kind, **kw)
    first = go(H, a, kind, used)
    n1 = len((first[0].log["iterations"] or {}).get("iteration", []))
    second = go(H, b, kind, used)
    third = go(H, b, kind, fresh)
    same(H, "", second, third)
    H.check("log of the first result is left alone", len((first[0].log["iterations"] or {}).get("iteration", [])) == n1)
    H.check("results have logs of their own", first[0].log is not second[0].log)


def reuse(H, cfg):
    """line-search state is carried over exactly when asked for, and the user's object is never touched"""
    kind = cfg["kind"]
    w = World(H, 1, "a")
    opt, ls = make(H, kind, max_iterations=2)
    k = 2 if kind.startswith("sd") else 1
    r1 = go(H, w, kind, opt)[0]
    H.eq("first run starts from the given line search", r1.step_size, H.num(k))
    r2 = go(H, w, kind, opt, reuse_line_searcher=True)[0]
    H.eq("requested reuse carries on", r2.step_size, H.num(2 * k))
    r3 = go(H, w, kind, opt)[0]
    H.eq("no reuse without request", r3.step_size, H.num(k))
    r4 = go(H, w, kind, opt, reuse_line_searcher=True)[0]
    H.eq("reuse refers to the latest run", r4.step_size, H.num(2 * k))
    H.check("the given line search itself is left alone", not ls.used["searches"], str(ls.used))
    fresh, _ = make(H, kind, max_iterations=2)
    r5 = go(H, w, kind, fresh, reuse_line_searcher=True)[0]
    H.eq("reuse on a fresh optimizer starts anew", r5.step_size, H.num(k))


def verbose(H, cfg):
    """printing changes nothing"""
    kind, N = cfg["kind"], cfg["N"]
    w = World(H, 1, "a")
    v = 1 + H.choose("verbosity", 3)
    a, _ = make(H, kind, max_iterations=N)
    b, _ = make(H, kind, verbosity=v, max_iterations=N)
    same(H, "", go(H, w, kind, a), go(H, w, kind, b))


def log(H, cfg):
    kind, N = cfg["kind"], cfg["N"]
    w = World(H, 1, "a", positive=False)
    lv = H.choose("log verbosity", 3)
    opt, _ = make(H, kind, max_iterations=N, log_verbosity=lv)
    r, vecs, evals = go(H, w, kind, opt)
    H.check("returned point was visited", any(r.point is p for p in w.man.points))
    H.eq("returned cost is the cost of the returned point", r.cost, w.o.f(r.point))
    H.check("reports the iterations made", r.iterations == N, str(r.iterations))
    if r.cost_evaluations is not None:
        H.eq("reported evaluations are the evaluations made", H.num(1) * r.cost_evaluations, H.num(len(evals)))
    if r.gradient_norm is not None:
        H.eq("reported gradient norm is that of the returned point", r.gradient_norm, w.man.norm(r.point, w.o.g(r.point)))
    H.check("log names the optimizer", r.log["optimizer"] == type(opt).__name__, str(r.log["optimizer"]))
    lim = r.log["stopping_criteria"]
    H.check("log lists the limits", lim["max_iterations"] == N and lim["max_time"] == 1e30, str(lim))
    it = r.log["iterations"]
    H.check("iterations are logged on request only", (it is not None) == (lv > 0))
    if it and kind[:2] in ("sd", "cg"):
        H.check("logs every iteration once", list(it["iteration"]) == list(range(1, N + 1)), str(it["iteration"]))
        H.check("logs one point, cost and time per iteration", all(len(it[k]) == N for k in ("point", "cost", "time", "gradient_norm")))
        H.check("first logged point is the initial point", it["point"][0].i == 0)
        for p, c, g in zip(it["point"], it["cost"], it["gradient_norm"]):
            H.eq("logged cost is the cost of the logged point", c, w.o.f(p))
            H.eq("logged gradient norm is that of the logged point", g, w.man.norm(p, w.o.g(p)))
        for p, q in zip(it["point"], it["point"][1:]):
            H.check("logged points follow each other", q is p or q.parent is p)
        if kind[:2] == "cg":
            H.check("last logged point is the returned one", it["point"][-1] is r.point)


def limits(H, cfg):
    """default limits belong to the problem at hand"""
    kind = cfg["kind"]
    dims = (1, 600) if H.choose("order", 2) else (600, 1)
    k = H.choose("given limit", 4)
    given = [{}, dict(max_iterations=7), dict(max_cost_evaluations=9), dict(max_iterations=7, max_cost_evaluations=9)][k]
    m = H.mod(OPT + {"nm": "nelder_mead", "pso": "particle_swarm"}[kind])
    C = m.NelderMead if kind == "nm" else m.ParticleSwarm
    mk = lambda: C(max_time=0, verbosity=0, **given)
    used = mk()
    out = []
    for d in dims:
        for opt in (used, mk()):
            man = make_man(H, 1)
            man._dimension = d
            man.random_tangent_vector = man.zero_vector
            o = Oracle(H, man)
            o.f = lambda p: H.num(p.i)
            H.stub(STUB)
            r = opt.run(o.problem)
            out.append((d, r, len(o.evals)))
    for (d, r, n), (_, s, q) in (out[0:2], out[2:4]):
        t = f"dimension {d}: "
        H.check(t + "same limits as a fresh optimizer", r.log["stopping_criteria"] == s.log["stopping_criteria"], f"{r.log['stopping_criteria']}")
        H.check(t + "same number of evaluations", n == q, f"{n} and {q}")
        H.check(t + "same reported evaluations", r.cost_evaluations == s.cost_evaluations == n)
        lim = s.log["stopping_criteria"]
        for key in given:
            H.check(t + "given limits are kept", lim[key] == given[key], str(lim))
        if kind == "nm":
            H.check(t + "documented defaults", lim["max_iterations"] == given.get("max_iterations", max(2000, 4 * d))
                    and lim["max_cost_evaluations"] == given.get("max_cost_evaluations", max(1000, 2 * d)), str(lim))
        else:
            H.check(t + "documented defaults", lim["max_iterations"] == given.get("max_iterations", max(500, 4 * d))
                    and lim["max_cost_evaluations"] == given.get("max_cost_evaluations", max(5000, 2 * d)) and n == min(40, 10 * d), str(lim))


def population(H, cfg):
    """swarm sizes belong to the run at hand"""
    m = H.mod(OPT + "particle_swarm")
    size = [None, 3][H.choose("given size", 2)]
    mk = lambda: m.ParticleSwarm(max_time=0, verbosity=0, population_size=size)
    used = mk()

    def run(opt, k):
        man = make_man(H, 1)
        man.random_tangent_vector = man.zero_vector
        o = Oracle(H, man)
        o.f = lambda p: H.num(p.i)
        H.stub(STUB)
        with contextlib.redirect_stdout(io.StringIO()):
            r = opt.run(o.problem, **({"initial_point": [man.new() for _ in range(k)]} if k else {}))
        return len(o.evals), r.cost_evaluations
    k1, k2 = H.choose("first population", 3), H.choose("second population", 3)
    k1, k2 = [0, 2, 3][k1], [0, 2, 3][k2]
    run(used, k1)
    a, b = run(used, k2), run(mk(), k2)
    H.check("same population as a fresh optimizer", a == b, f"{a} and {b}")
    H.check("evaluations match the population", b == ((k2 or size or 10),) * 2, str(b))


KINDS = ("sd+AdaptiveLineSearcher", "sd+BackTrackingLineSearcher", "sd+stateful", "cg+AdaptiveLineSearcher", "cg+BackTrackingLineSearcher", "cg+stateful", "tr", "nm", "pso")


def configs(tier):
    T = tier != "quick"
    out = []
    for kind in KINDS:
        nls = kind[:2] in ("sd", "cg") and not kind.endswith("stateful")
        for N in (1, 2) if T or not nls else ((1,) if kind[:2] == "sd" else (2,)):
            if kind == "tr" and N > 1:
                continue
            if kind[:2] == "cg" and N == 1:
                continue
            out.append(dict(name=f"two_runs:{kind}:{N}", fn=twice, kind=kind, N=N, max_paths=4000, weight=N * 5, timeout=150 if not T else 600))
        out.append(dict(name=f"verbosity:{kind}", fn=verbose, kind=kind, N=2 if kind[:2] == "cg" else 1, max_paths=4000, weight=5, timeout=150))
        for N in (1, 2, 3) if kind.endswith("stateful") else (1, 2) if T or kind[:2] in ("cg", "ps") else (1,):
            out.append(dict(name=f"log:{kind}:{N}", fn=log, kind=kind, N=N, max_paths=4000, weight=N * 2, timeout=150))
    for kind in ("sd+stateful", "cg+stateful"):
        out.append(dict(name=f"reuse:{kind}", fn=reuse, kind=kind))
    for kind in ("nm", "pso"):
        out.append(dict(name=f"limits:{kind}", fn=limits, kind=kind))
    out.append(dict(name="population", fn=population))
    return out
