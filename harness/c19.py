"""C19: stopping criteria - an optimizer stops when, and only when, a limit is
reached, and names the limit that was reached."""
from .optstub import AnyStep, Oracle, make_man, STUB

OPT = "pymanopt.optimizers."
BOUNDS = ("arbitrary nonnegative real limits, clock and measurements; whole runs: max_iterations 1..3, abstract "
          "manifold of dimension 1, arbitrary line search (one step per iteration), swarm of 1-2 particles")
COVERS = ["Optimizer._check_stopping_criterion", "SteepestDescent.run", "ConjugateGradient.run",
          "TrustRegions.run", "NelderMead.run", "ParticleSwarm.run", "Optimizer._return_result"]
ASSUMPTIONS = [STUB, "the clock is an arbitrary non-decreasing sequence of reals"]


def unit(H, cfg):
    m = H.mod(OPT + "optimizer")

    class O(m.Optimizer):
        def run(self, problem, **k):
            raise NotImplementedError

    lim = dict(max_time=H.pos("max_time"), max_iterations=H.nonneg("max_it"), min_gradient_norm=H.pos("min_g"),
               min_step_size=H.pos("min_s"), max_cost_evaluations=H.nonneg("max_ev"))
    o = O(**lim)
    start = H.real("start")
    kw = dict(iteration=H.real("it", span=5), gradient_norm=H.nonneg("gn"), step_size=H.nonneg("ss"),
              cost_evaluations=H.real("ev", span=5))
    use = cfg["use"]
    kw = {k: v for k, v in kw.items() if k in use}
    r = o._check_stopping_criterion(start_time=start, **kw)
    t1 = H.now_last()
    t0 = H.now_first()
    A = {"iteration": lambda: kw["iteration"] >= lim["max_iterations"],
         "gradient_norm": lambda: kw["gradient_norm"] < lim["min_gradient_norm"],
         "step_size": lambda: kw["step_size"] < lim["min_step_size"],
         "cost_evaluations": lambda: kw["cost_evaluations"] >= lim["max_cost_evaluations"]}
    H.check("reason is text or None", r is None or isinstance(r, str))
    if r is None:
        H.true("no limit exceeded: time", t0 - start < lim["max_time"])
        for k in kw:
            # run continues only while the limit is not reached
            H.true("no limit exceeded: " + k, {
                "iteration": lambda: kw["iteration"] < lim["max_iterations"],
                "gradient_norm": lambda: kw["gradient_norm"] >= lim["min_gradient_norm"],
                "step_size": lambda: kw["step_size"] >= lim["min_step_size"],
                "cost_evaluations": lambda: kw["cost_evaluations"] < lim["max_cost_evaluations"]}[k]())
    else:
        k = reason(r)
        H.check("reason names a limit", k is not None, r)
        if k == "time":
            H.true("time limit really reached", t1 - start >= lim["max_time"])
        elif k in kw:
            H.true("limit really reached: " + k, A[k]())
        else:
            H.check("reason refers to a supplied measurement", False, r)


def reason(r):
    r = r.lower()
    r = r.split("after")[0] if "after" in r else r
    if "time" in r:
        return "time"
    if "grad" in r:
        return "gradient_norm"
    if "step" in r:
        return "step_size"
    if "eval" in r:
        return "cost_evaluations"
    if "iter" in r:
        return "iteration"
    return None


def mkopt(H, cfg, **k):
    kind = cfg["kind"]
    if kind == "sd":
        k.pop("max_cost_evaluations", None)
        ls = AnyStep(H)
        return H.mod(OPT + "steepest_descent").SteepestDescent(line_searcher=ls, verbosity=0, **k), ls
    if kind == "cg":
        k.pop("max_cost_evaluations", None)
        ls = AnyStep(H)
        return H.mod(OPT + "conjugate_gradient").ConjugateGradient(
            beta_rule=cfg.get("beta", "FletcherReeves"), line_searcher=ls, verbosity=0, **k), ls
    if kind == "tr":
        k.pop("max_cost_evaluations", None)
        k.pop("min_step_size", None)
        return H.mod(OPT + "trust_regions").TrustRegions(verbosity=0, **k), None
    k.pop("min_gradient_norm", None)
    k.pop("min_step_size", None)
    if kind == "nm":
        return H.mod(OPT + "nelder_mead").NelderMead(verbosity=0, **k), None
    return H.mod(OPT + "particle_swarm").ParticleSwarm(population_size=cfg.get("pop", 1), verbosity=0, **k), None


def run(H, cfg):
    """whole run with arbitrary limits"""
    kind = cfg["kind"]
    man = make_man(H, 1, dist=lambda H: H.num(1), log=lambda H: H.reals(f"lg{len(man.points)}_{nlog(man)}", 1)
                   if kind == "pso" else H.arr([H.num(1)]))
    o = Oracle(H, man)
    H.stub(STUB)
    N = cfg["N"]
    if cfg.get("quad"):
        o.hmat = lambda p: [[1]]
    lim = dict(max_time=H.pos("max_time", span=20), max_iterations=N, min_gradient_norm=H.pos("min_g", span=1.5),
               min_step_size=H.pos("min_s"), max_cost_evaluations=H.pos("max_ev", span=30))
    for k in cfg.get("off", ()):
        lim[k] = {"max_time": 1e30, "min_gradient_norm": 0, "min_step_size": 0, "max_cost_evaluations": 1e30}[k]
    opt, ls = mkopt(H, cfg, log_verbosity=1, **lim)
    for p in man.points:
        H.assume(o.g(p)[0] != 0)
    x0 = man.new()
    kw = {}
    if kind in ("sd", "cg", "tr"):
        kw["initial_point"] = x0
        H.assume(o.g(x0)[0] != 0)
    if kind == "tr":
        kw.update(maxinner=1, Delta_bar=8, Delta0=1)
    if cfg.get("rejected"):
        # the first proposal is worse than the start
        g0, f0 = o.g, o.f
        for p in man.points:
            H.assume(o.g(p)[0] > 0)
        fx = f0(x0)
        o.f = lambda p: f0(p) if p is x0 or p.i in o.costs or len(man.retractions) != 1 else o.costs.setdefault(p.i, fx + H.pos("rise"))
    if kind == "pso":
        kw["initial_point"] = [man.new() for _ in range(cfg.get("pop", 1))]
    r = opt.run(o.problem, **kw)
    k = reason(r.stopping_criterion or "")
    H.check("iteration limit respected", r.iterations <= N)
    H.check("a reason is reported", k is not None, r.stopping_criterion)
    if k == "iteration":
        H.check("iteration limit really reached", r.iterations >= N)
    elif k == "time":
        H.true("time limit really reached", r.time >= lim["max_time"])
        H.check("time limit was set", "max_time" not in cfg.get("off", ()))
    elif k == "gradient_norm":
        H.check("optimizer uses gradients", kind in ("sd", "cg", "tr"))
        H.true("gradient norm really below the threshold", r.gradient_norm < lim["min_gradient_norm"])
        # the norm was measured at the last or the next-to-last iterate
        last = [abs(o.g(p)[0]) for p in o.gevals]
        ok = last[-1] < lim["min_gradient_norm"]
        H.true("threshold met at an iterate", ok)
    elif k == "step_size":
        H.check("optimizer uses steps", ls is not None)
        H.true("step really below the threshold", ls.calls[-1][4] < lim["min_step_size"])
    elif k == "cost_evaluations":
        H.check("optimizer counts evaluations", kind in ("nm", "pso"))
        H.true("evaluation limit really reached", r.cost_evaluations >= lim["max_cost_evaluations"])
    # nothing had been reached one iteration earlier
    if kind in ("sd", "cg"):
        prev = ls.calls[:-1] if kind == "sd" else ls.calls
        for c in (ls.calls[:-1]):
            H.true("stops at the first small step", c[4] >= lim["min_step_size"])
        gs = [abs(o.g(p)[0]) for p in o.gevals]
        for g in gs[:-1]:
            H.true("stops at the first small gradient", g >= lim["min_gradient_norm"])
    if kind == "tr":
        gs = [abs(o.g(p)[0]) for p in o.gevals]
        for g in gs[1:-1]:
            H.true("stops at the first small gradient", g >= lim["min_gradient_norm"])
        # also when the first step was rejected
        for q in man.retractions[1:]:
            H.true("no further step from a point with a small gradient", abs(o.g(q.parent)[0]) >= lim["min_gradient_norm"])


def nlog(man):
    man.nt += 1
    return man.nt


def configs(tier):
    out = []
    for use in (("iteration",), ("gradient_norm",), ("step_size",), ("cost_evaluations",), (),
                ("iteration", "gradient_norm"), ("iteration", "cost_evaluations"), ("step_size", "gradient_norm"),
                ("iteration", "gradient_norm", "step_size"), ("iteration", "gradient_norm", "step_size", "cost_evaluations")):
        out.append(dict(name="unit:" + "+".join(use), fn=unit, use=use, opts=dict(clock="sym"), clock=True))
    mx = 2 if tier == "quick" else 3
    for kind in ("sd", "cg", "tr", "nm", "pso"):
        for N in range(1, mx + 1):
            if kind == "tr" and N == 2:
                out.append(dict(name=f"run:{kind}:{N}:first_step_rejected", fn=run, kind=kind, N=N, off=("max_time",), rejected=True,
                                max_paths=3000, weight=100, timeout=300, quad=True))
            if kind == "tr" and N > 1:
                if tier == "quick" or N > 2:
                    continue
                out.append(dict(name=f"run:{kind}:{N}:frozen clock", fn=run, kind=kind, N=N, off=("max_time",),
                                max_paths=6000, weight=100 * N, timeout=400, quad=True))
                continue
            out.append(dict(name=f"run:{kind}:{N}", fn=run, kind=kind, N=N, opts=dict(clock="sym"), clock=True,
                            max_paths=3000, weight=10 * N))
    return out
