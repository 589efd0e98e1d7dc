"""C20: line searches - sufficient decrease, no increase, consistent result,
bounded work."""
from .optstub import Oracle, make_man, STUB

LS = "pymanopt.optimizers.line_search"
BOUNDS = ("arbitrary real cost values, step parameters, directional derivative < 0; up to 3 (thorough: 5) "
          "backtracking steps per search, up to 2 (3) consecutive searches")
COVERS = ["BackTrackingLineSearcher.search", "AdaptiveLineSearcher.search"]
ASSUMPTIONS = [STUB, "df0 < 0 (descent direction), |d| > 0, costs non-increasing between consecutive searches"]


def make(H, cfg):
    m = H.mod(LS)
    kw = dict(contraction_factor=H.real("contraction", 0, 1), sufficient_decrease=H.real("decrease", 0, 1),
              max_iterations=cfg["maxit"], initial_step_size=H.pos("initial"))
    if cfg["kind"] == "bt":
        opt = H.pos("optimism", 1)
        return m.BackTrackingLineSearcher(optimism=opt, **kw), kw, opt
    return m.AdaptiveLineSearcher(**kw), kw, None


def search(H, cfg):
    man = make_man(H, 1)
    o = Oracle(H, man)
    H.stub(STUB)
    ls, kw, optimism = make(H, cfg)
    x = man.new()
    prev = None
    for k in range(cfg["rounds"]):
        f0 = o.f(x)
        d = H.reals(f"d{k}", 1)
        H.assume(d[0] != 0)
        df0 = -H.pos(f"slope{k}")
        n0, r0 = len(o.evals), len(man.retractions)
        step, nx = ls.search(o.problem.cost, man, x, d, f0, df0)
        ev = o.evals[n0:]
        rt = man.retractions[r0:]
        H.check("bounded work", 1 <= len(ev) <= cfg["maxit"] + 1, f"{len(ev)} evaluations")
        H.check("every trial is a retraction of x along d", all(p.parent is x for p in rt))
        H.check("costs evaluated at the trial points", all(any(e is p for p in rt + [x]) for e in ev))
        if not rt:
            return
        dn = abs(d[0])
        f1 = o.f(nx)
        H.le("cost never increases", f1, f0)
        alphas = [p.vec[0] / d[0] for p in rt]
        for a, b in zip(alphas, alphas[1:]):
            H.eq("trial steps contract", b, kw["contraction_factor"] * a)
        for p, a in zip(rt[:-1], alphas[:-1]):
            H.true("a trial with sufficient decrease is taken", o.f(p) > f0 + kw["sufficient_decrease"] * a * df0)
        if nx is x:
            H.eq("rejection reports a zero step", step, H.num(0))
            H.true("rejects only non-decreasing trials", o.f(rt[-1]) > f0)
            H.check("rejects only after all trials", len(ev) == cfg["maxit"] + 1 or k > 0)
        else:
            H.check("new point is the last trial", nx is rt[-1])
            H.eq("step size is the length of the step taken", step, abs(nx.vec[0]))
            if len(ev) <= cfg["maxit"]:
                H.le("sufficient decrease", f1, f0 + kw["sufficient_decrease"] * alphas[-1] * df0)
        H.le("step size nonnegative", H.num(0), step)
        if k == 0:
            H.eq("first trial has the initial length", alphas[0] * dn, kw["initial_step_size"])
        elif cfg["kind"] == "bt":
            H.eq("initial step from the previous decrease", alphas[0], optimism * 2 * (f0 - prev[0]) / df0)
        elif prev[2] is not x or True:
            want = prev[1] if prev[3] == 2 else 2 * prev[1]
            H.eq("initial step from the previous search", alphas[0], want)
        prev = (f0, alphas[-1] if nx is not x else H.num(0), x, len(ev))
        x = nx


def still(H, cfg):
    """along a vanishing direction there is nowhere to go"""
    man = make_man(H, 1)
    o = Oracle(H, man)
    H.stub(STUB)
    ls, kw, _ = make(H, cfg)
    x = man.new()
    for k in range(cfg["rounds"]):
        last = k == cfg["rounds"] - 1
        d = H.arr([H.num(0)]) if last else H.reals(f"d{k}", 1)
        if not last:
            H.assume(d[0] != 0)
        n0 = len(o.evals)
        step, nx = ls.search(o.problem.cost, man, x, d, o.f(x), H.num(0) if last else -H.pos(f"slope{k}"))
        H.check("bounded work", len(o.evals) - n0 <= cfg["maxit"] + 1)
        if last:
            H.eq("step size is zero", step * H.num(1), H.num(0))
            H.check("stays where it is", nx is x or nx.parent is x)
            if nx is not x:
                H.eq("does not move", nx.vec, d)
                H.finite("finite move", nx.vec)
            H.le("cost never increases", o.f(nx), o.f(x))
        x = nx


def configs(tier):
    out = []
    T = tier != "quick"
    for kind in ("bt", "ad"):
        for rounds in (1, 2, 3) if T else (1, 2):
            for maxit in (0, 1, 2, 3, 4, 5) if T else (0, 1, 2, 3):
                if rounds > 1 and maxit > (3 if T else 2):
                    continue
                out.append(dict(name=f"{kind}:{rounds} searches:{maxit} backtracks", fn=search, kind=kind, rounds=rounds,
                                maxit=maxit, weight=rounds * 3 + maxit, max_paths=2000))
        for rounds in (1, 2):
            out.append(dict(name=f"{kind}:no direction:{rounds} searches", fn=still, kind=kind, rounds=rounds, maxit=2))
    return out
