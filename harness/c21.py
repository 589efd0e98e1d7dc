"""C21: steepest descent"""
from .optstub import AnyStep, Oracle, make_man, STUB

OPT = "pymanopt.optimizers."
BOUNDS = ("arbitrary real costs, gradients, point-dependent metrics and line-search outcomes; 1 to 3 iterations (thorough 5), dimension 1 and "
          "2; with the library's own line searches: 1 to 2 iterations and up to 2 backtracks")
ASSUMPTIONS = [STUB, "point-dependent diagonal metric"]


def run(H, cfg):
    n, N = cfg["n"], cfg["N"]
    man = make_man(H, n, metric=True)
    o = Oracle(H, man)
    H.stub(STUB)
    ls = AnyStep(H)
    opt = H.mod(OPT + "steepest_descent").SteepestDescent(line_searcher=ls, verbosity=0, max_iterations=N, max_time=1e30,
                                                         min_gradient_norm=0, min_step_size=0, log_verbosity=1)
    given = H.choose("initial point given", 2)
    x0 = man.new() if given else None
    r = opt.run(o.problem, **({"initial_point": x0} if given else {}))
    if not given:
        x0 = man.points[0]
    H.check("one search per iteration", len(ls.calls) == N, f"{len(ls.calls)} searches")
    x = x0
    for c in ls.calls:
        H.check("continues from the point the line search returned", c[0] is x, f"{c[0]} instead of {x}")
        g = o.g(x)
        H.eq("searches along the negative gradient", c[1], -g)
        H.eq("line search gets the true cost", c[2], o.f(x))
        H.eq("line search gets the true slope", c[3], -man.inner_product(x, g, g))
        x = c[5]
    H.check("returns the last point", r.point is x, f"{r.point}")
    H.eq("returns its cost", r.cost, o.f(x))
    H.eq("reports the last step", r.step_size, ls.calls[-1][4])
    H.check("reports the number of iterations", r.iterations == N, str(r.iterations))


def descent(H, cfg):
    """with the line searches of the library"""
    n, N = 1, cfg["N"]
    man = make_man(H, n)
    o = Oracle(H, man)
    H.stub(STUB)
    m = H.mod(OPT + "line_search")
    ls = None if cfg["ls"] == "default" else getattr(m, cfg["ls"])(max_iterations=cfg["maxit"])
    if ls is None:
        o.f = quick_cost(H, o, man, cfg["maxit"])
    opt = H.mod(OPT + "steepest_descent").SteepestDescent(line_searcher=ls, verbosity=0, max_iterations=N, max_time=1e30,
                                                         min_gradient_norm=0, min_step_size=0)
    x0 = man.new()
    r = opt.run(o.problem, initial_point=x0)
    H.eq("returned cost is the cost of the returned point", r.cost, o.f(r.point))
    H.le("never worse than the initial point", r.cost, o.f(x0))
    H.finite("finite step", r.step_size * H.num(1))
    for p in man.retractions:
        H.check("steps start at visited points", p.parent is not None)
        H.le("trials never go uphill", p.vec[0] * o.g(p.parent)[0], H.num(0))


def quick_cost(H, o, man, k):
    """costs that bring the default search to an end after k backtracks"""
    f = o.f

    def g(p):
        v = f(p)
        if len(man.retractions) > k and p.parent is not None and p.i >= k:
            H.assume(v < f(p.parent) + p.vec[0] * o.g(p.parent)[0])
        return v
    return g


def configs(tier):
    out = []
    T = tier != "quick"
    for n in (1, 2):
        for N in (1, 2, 3, 4, 5) if T else (1, 2, 3):
            out.append(dict(name=f"directions:dimension {n}:{N} iterations", fn=run, n=n, N=N))
    for ls in ("BackTrackingLineSearcher", "AdaptiveLineSearcher"):
        for N, k in ((1, 1), (1, 2), (2, 1), (2, 2)) + (((3, 1), (3, 2)) if T else ()):
            out.append(dict(name=f"descent:{ls}:{N} iterations:{k} backtracks", fn=descent, N=N, ls=ls, maxit=k, weight=N * k, max_paths=3000, opts=dict(div_fork=True)))
    out.append(dict(name="descent:default searcher", fn=descent, N=1, ls="default", maxit=2))
    return out
