"""C22: conjugate gradient"""
from .optstub import AnyStep, Oracle, make_man, STUB

OPT = "pymanopt.optimizers."
RULES = ("FletcherReeves", "PolakRibiere", "HestenesStiefel", "HagerZhang", "LiuStorey")
BOUNDS = ("arbitrary real costs, gradients, line-search outcomes, point-dependent diagonal metrics and positive definite preconditioners, "
          "arbitrary linear transports; all five rules; 2 to 3 directions in dimension 1 and 2 (thorough 4); restart threshold symbolic, "
          "infinite and zero")
ASSUMPTIONS = [STUB, "gradients are nonzero", "denominators of the Hager-Zhang and Liu-Storey rules are nonzero (undefined otherwise)",
               "transport is an arbitrary linear map for each pair of points"]


def top(a, b):
    return a if bool(a >= b) else b


def low(a, b):
    return a if bool(a <= b) else b


def beta(H, man, rule, x, y, g, gn, Pg, Pn, To, Td, TPg):
    """the documented rules (Hager & Zhang 2006, on manifolds): To, Td, TPg are transported old gradient, direction, Pg"""
    ip = man.inner_product
    yk = gn - To
    if rule == "FletcherReeves":
        return ip(y, gn, Pn) / ip(x, g, Pg)
    if rule == "PolakRibiere":
        return top(H.num(0), ip(y, Pn, yk) / ip(x, g, Pg))
    if rule == "HestenesStiefel":
        den = ip(y, yk, Td)
        if bool(den == 0):
            return H.num(1)
        return top(H.num(0), ip(y, Pn, yk) / den)
    if rule == "HagerZhang":
        den = ip(y, yk, Td)
        H.assume(den != 0)
        H.assume(ip(y, Td, Td) != 0)
        b = ip(y, yk, Pn) / den - 2 * ip(y, yk, Pn - TPg) * ip(y, Td, gn) / (den * den)
        eta = -1 / (man.norm(y, Td) * low(H.num(0.01), man.norm(x, g)))
        return top(b, eta)
    den = -ip(x, g, Td)
    H.assume(den != 0)
    return top(H.num(0), low(ip(y, Pn, yk) / den, ip(y, gn, Pn) / den))


def run(H, cfg):
    n, N, rule = cfg["n"], cfg["N"], cfg["rule"]
    man = make_man(H, n, metric=cfg.get("metric", True), transport="lin")
    o = Oracle(H, man, pre=cfg.get("pre", True))
    H.stub(STUB)
    if n == 2:
        plane(H, man, o)
    g0 = o.g

    def g(p):
        known = p.i in o.grads
        v = g0(p)
        if not known and n == 1:
            H.assume(v[0] != 0)
        return v
    o.g = g
    orth = H.np.inf
    if cfg["orth"] == "symbolic":
        orth = H.pos("restart threshold", span=2)
    elif cfg["orth"] == "zero":
        orth = H.num(0)
    kw = {} if cfg["orth"] == "inf" else dict(orth_value=orth)
    x0 = man.new()
    ls = AnyStep(H)
    opt = H.mod(OPT + "conjugate_gradient").ConjugateGradient(
        beta_rule=rule, line_searcher=Chain(ls, reference(H, man, o, rule, orth if kw else None, x0, N), N), verbosity=0,
        max_iterations=N + 1, max_time=1e30, min_gradient_norm=0, min_step_size=0, **kw)
    try:
        opt.run(o.problem, initial_point=x0)
    except Done:
        pass
    H.check("one search per iteration", len(ls.calls) == N, f"{len(ls.calls)} searches")


def plane(H, man, o):
    """dimension 2 in orthonormal coordinates whose first axis is the gradient: the gradient is (c, 0), the
    preconditioned gradient (p, q) with p c > 0, and the transport takes them to arbitrary vectors u and v"""
    gam, pq, maps = {}, {}, {}

    def g(p):
        if p.i not in gam:
            gam[p.i] = H.pos(f"g{p.i}", span=3)
            pq[p.i] = (H.pos(f"p{p.i}", span=2), H.real(f"q{p.i}", span=2), H.pos(f"s{p.i}", span=2))
            H.assume(pq[p.i][1] != 0)
            o.grads[p.i] = H.arr([gam[p.i], H.num(0)])
        return o.grads[p.i]

    def pre(p, v):
        g(p)
        c, (a, b, s) = gam[p.i], pq[p.i]
        s = s + b * b / (c * a)     # any positive definite matrix mapping (c, 0) to (a, b)
        return H.arr([(a * v[0] + b * v[1]) / c, b * v[0] / c + s * v[1]])

    def transport(x, y, w):
        if x is y:
            return w
        g(x)
        k = (x.i, y.i)
        if k not in maps:
            maps[k] = H.reals(f"u{k[0]}_{k[1]}", 2), H.reals(f"v{k[0]}_{k[1]}", 2)
        u, v = maps[k]
        b = w[1] / pq[x.i][1]
        a = (w[0] - b * pq[x.i][0]) / gam[x.i]
        return a * u + b * v
    o.g, o.p, man.transport = g, pre, transport
    o.problem._preconditioner = pre


def result(H, cfg):
    """what a run reports"""
    n, N = 1, cfg["N"]
    man = make_man(H, n)
    o = Oracle(H, man)
    H.stub(STUB)
    g0 = o.g

    def g(p):
        known = p.i in o.grads
        v = g0(p)
        if not known:
            H.assume(v[0] != 0)
        return v
    o.g = g
    x0 = man.new()
    ls = AnyStep(H)
    opt = H.mod(OPT + "conjugate_gradient").ConjugateGradient(beta_rule=cfg["rule"], line_searcher=ls, verbosity=0, max_iterations=N + 1,
                                                              max_time=1e30, min_gradient_norm=0, min_step_size=0)
    r = opt.run(o.problem, initial_point=x0)
    H.check("one search per iteration", len(ls.calls) == N, f"{len(ls.calls)} searches")
    H.check("returns the last point", r.point is ls.calls[-1][5], f"{r.point}")
    H.eq("returns its cost", r.cost, o.f(r.point))
    H.eq("reports the gradient norm of the returned point", r.gradient_norm, man.norm(r.point, o.g(r.point)))
    H.eq("reports the last step", r.step_size, ls.calls[-1][4])


class Done(Exception):
    """enough searches seen"""


class Chain:
    """records the search and lets the reference check it right away"""

    def __init__(self, ls, ref, N):
        self.ls, self.ref, self.N = ls, ref, N
        next(ref)

    def __deepcopy__(self, memo):
        return self

    def search(self, *a):
        out = self.ls.search(*a)
        self.ref.send(self.ls.calls[-1])
        if len(self.ls.calls) == self.N:
            raise Done
        return out


def reference(H, man, o, rule, orth, x, N):
    ip = man.inner_product
    gx = o.g(x)
    pre = o.p if o.pre else (lambda p, v: v)
    Px = pre(x, gx)
    d = -Px
    k = 0
    while True:
        slope = ip(x, gx, d)
        if bool(slope >= 0):
            d, slope = -Px, -ip(x, gx, Px)
        call = yield
        t = f"search {k + 1}: "
        H.check(t + "continues from the point the line search returned", call[0] is x, f"{call[0]} instead of {x}")
        H.eq(t + "direction follows the rule", call[1], d)
        H.eq(t + "line search gets the true cost", call[2], o.f(x))
        H.eq(t + "line search gets the true slope", call[3], slope)
        H.lt(t + "direction is a descent direction", call[3], H.num(0))
        k += 1
        if k == N:
            yield
        y = call[5]
        gn = o.g(y)
        Pn = pre(y, gn)
        To, Td = man.transport(x, y, gx), man.transport(x, y, d)
        lost = False
        if orth is not None:
            q = ip(y, To, Pn)
            q = q if bool(q >= 0) else -q
            lost = bool(q >= orth * ip(y, gn, Pn))
        if lost:
            d = -Pn
        else:
            b = beta(H, man, rule, x, y, gx, gn, Px, Pn, To, Td, man.transport(x, y, Px))
            d = -Pn + b * Td
        x, gx, Px = y, gn, Pn


def descent(H, cfg):
    """with the line searches of the library the cost never rises"""
    man = make_man(H, 1, transport="lin")
    o = Oracle(H, man)
    H.stub(STUB)
    m = H.mod(OPT + "line_search")
    ls = getattr(m, cfg["ls"])(max_iterations=cfg["maxit"])
    g0 = o.g

    def g(p):
        known = p.i in o.grads
        v = g0(p)
        if not known:
            H.assume(v[0] != 0)
        return v
    o.g = g
    opt = H.mod(OPT + "conjugate_gradient").ConjugateGradient(beta_rule=cfg["rule"], line_searcher=ls, verbosity=0,
                                                              max_iterations=cfg["N"] + 1, max_time=1e30, min_gradient_norm=0,
                                                              min_step_size=0)
    x0 = man.new()
    r = opt.run(o.problem, initial_point=x0)
    H.eq("returned cost is the cost of the returned point", r.cost, o.f(r.point))
    H.le("never worse than the initial point", r.cost, o.f(x0))


def invalid(H, cfg):
    C = H.mod(OPT + "conjugate_gradient").ConjugateGradient
    H.raises("unknown rules are rejected", lambda: C(beta_rule="Newton"), ValueError)
    for r in RULES:
        H.noraise(f"rule {r} is accepted", lambda: C(beta_rule=r))


def configs(tier):
    out = [dict(name="rules", fn=invalid)]
    T = tier != "quick"
    for rule in RULES:
        hz = rule == "HagerZhang"
        for n, N in ((1, 2), (1, 3), (2, 2)) + (((1, 4),) if T and rule in ("FletcherReeves", "HestenesStiefel") else ()):
            for orth in ("inf", "symbolic") + (("zero",) if N == 2 else ()):
                w = n == 1 and N == 2 or T and N == 3 and not hz
                out.append(dict(name=f"directions:{rule}:dimension_{n}:{N}_searches:threshold_{orth}" + (":metric" if w else ""), fn=run, n=n, N=N, rule=rule,
                                orth=orth, metric=w, pre=w or n == 2, weight=N * n, max_paths=3000))
        out.append(dict(name=f"result:{rule}", fn=result, rule=rule, N=1))
        if rule in ("FletcherReeves", "PolakRibiere", "HestenesStiefel"):
            out.append(dict(name=f"descent:{rule}", fn=descent, rule=rule, N=2 if T else 1, ls="BackTrackingLineSearcher", maxit=1,
                            max_paths=2000))
    return out
