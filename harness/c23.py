"""C23: the truncated conjugate gradient solver of the trust-region subproblem"""
from .optstub import Oracle, make_man, STUB

OPT = "pymanopt.optimizers."
BOUNDS = ("dimension 1: arbitrary gradient (zero included), Hessian, metric weight, preconditioner, radius, 0 to 3 inner iterations; dimension 2: "
          "arbitrary symmetric Hessian and gradient in orthonormal coordinates along the gradient, without and with an arbitrary positive "
          "definite preconditioner, 1 to 3 inner iterations; dimension 3: 1 to 2 (thorough 4) inner iterations; theta 0, 1 and 2, kappa symbolic; randomised variant: any starting vector inside the radius, dimension 1 and 2")
ASSUMPTIONS = [STUB, "exact Hessian (linear, symmetric)", "dimension 2 configurations assume a nonzero gradient"]


def world(H, cfg):
    n = cfg["n"]
    man = make_man(H, n, metric=n == 1 and not cfg.get("rand"))
    o = Oracle(H, man, pre=cfg.get("pre", False))
    H.stub(STUB)
    x = man.new()
    if n >= 2:
        c = H.pos("g0", span=3)
        o.grads[x.i] = H.arr([c] + [H.num(0)] * (n - 1))
        if n == 3:
            # the second axis is chosen in the plane of the gradient and its Hessian image
            A = o.hmat(x)
            A[0][2] = A[2][0] = H.num(0)
        if o.pre:
            # coordinates in which the preconditioned norm is the standard one: the metric is then an arbitrary
            # positive definite M, the preconditioner acts as M and the preconditioned gradient is (c, 0)
            s, b, t = H.pos("s0", span=2), H.real("s1", span=2), H.pos("s2", span=2)
            t = t + b * b / s
            det = s * t - b * b
            M = [[t / det, -b / det], [-b / det, s / det]]
            o.grads[x.i] = H.arr([s * c, b * c])
            mul = lambda A, v: H.arr([A[0][0] * v[0] + A[0][1] * v[1], A[1][0] * v[0] + A[1][1] * v[1]])
            o.p = lambda p, v: mul(M, v)

            def ip(p, u, v):
                w = mul(M, v)
                return u[0] * w[0] + u[1] * w[1]
            man.inner_product = ip
            h = o.h
            o.h = lambda p, v: mul([[s, b], [b, t]], h(p, v))
    return n, man, o, x


def judge(H, cfg, man, o, x, eta, Delta, heta=None):
    n = cfg["n"]
    ip = man.inner_product
    g = o.g(x)
    Pg = o.p(x, g) if o.pre else g
    if heta is not None:
        H.eq("Hessian image belongs to the step", heta, o.h(x, eta))
    # squared length of the step in the norm of the preconditioner
    if o.pre and n == 1:
        e2 = ip(x, eta, eta) / o.p(x, H.arr([H.num(1)]))[0]
    elif o.pre:
        e2 = eta[0] * eta[0] + eta[1] * eta[1]
    else:
        e2 = ip(x, eta, eta)
    if cfg.get("tiny"):
        # relative to the radius
        H.le("step stays in the trust region", e2 / (Delta * Delta), H.num(1))
    else:
        H.le("step stays in the trust region", e2, Delta * Delta)
    m = ip(x, g, eta) + ip(x, eta, o.h(x, eta)) / 2
    c = ip(x, g, Pg)
    if not bool(c == 0):
        k = ip(x, Pg, o.h(x, Pg))
        H.lt("model decreases", m, H.num(0)) if not cfg.get("rand") else None
        if bool(k <= 0) or bool(c * c * c >= Delta * Delta * k * k):
            t = Delta / H.np.sqrt(c)
        else:
            t = c / k
        H.le("model is no worse than at the Cauchy point", m, -t * c + t * t * k / 2)
    return e2


def direct(H, cfg):
    n, man, o, x = world(H, cfg)
    T = H.mod(OPT + "trust_regions").TrustRegions
    opt = T(verbosity=0)
    if not hasattr(opt, "_truncated_conjugate_gradient"):
        return H.check("(solver is not separate; judged by the configurations that run the optimizer)", True)
    Delta = H.pos("Delta", span=3)
    theta, maxinner, mininner = cfg.get("theta", 1), cfg["maxinner"], cfg.get("mininner", 1)
    kappa = H.pos("kappa", span=1.5) if cfg.get("kappa", True) else H.num("1/10")
    g = o.g(x)
    eta, heta, j, why = opt._truncated_conjugate_gradient(o.problem, x, g, man.zero_vector(x), Delta, theta, kappa, mininner, maxinner)
    e2 = None
    if maxinner:
        e2 = judge(H, cfg, man, o, x, eta, Delta, heta)
    else:
        H.eq("no step without inner iterations", eta, man.zero_vector(x))
    H.check("at most the allowed number of inner iterations", o.hevals - (2 if maxinner else 0) <= max(maxinner + 2, 0) and j < max(maxinner, 1))
    res = g + o.h(x, eta)
    ip = man.inner_product
    r2, g2 = ip(x, res, res), ip(x, g, g)
    if why in (T.NEGATIVE_CURVATURE, T.EXCEEDED_TR):
        H.eq("stops on the boundary", e2, Delta * Delta)
        A = o.hmat(x)
        if why == T.NEGATIVE_CURVATURE:
            bad = bool(A[0][0] <= 0) or n >= 2 and bool(A[0][0] * A[1][1] <= A[0][1] * A[0][1])
            if n == 3 and not bad:
                d = A[0][0] * (A[1][1] * A[2][2] - A[1][2] * A[1][2]) - A[0][1] * (A[0][1] * A[2][2] - A[1][2] * A[0][2]) \
                    + A[0][2] * (A[0][1] * A[1][2] - A[1][1] * A[0][2])
                bad = bool(d <= 0)
            H.check("negative curvature is real", bad)
    elif why in (T.REACHED_TARGET_LINEAR, T.REACHED_TARGET_SUPERLINEAR):
        gt = {0: H.num(1), 1: H.np.sqrt(g2), 2: g2}[theta]
        lin = bool(kappa < gt)
        H.le("residual target is reached", r2, g2 * (kappa * kappa if lin else gt * gt))
        H.check("linear or superlinear target is told apart", (why == T.REACHED_TARGET_LINEAR) == lin)
        H.check("not before the minimal number of iterations", j >= mininner or bool(r2 == 0))
    elif why == T.MAX_INNER_ITER:
        H.check("all inner iterations are used up", j == max(maxinner - 1, 0), str(j))
        if maxinner:
            H.lt("step is inside the trust region", e2, Delta * Delta)
    else:
        H.check("the model never increases with an exact Hessian", False, str(why))


def started(H, cfg):
    """the solver from an arbitrary starting vector inside the region (randomised variant)"""
    n = cfg["n"]
    man = make_man(H, n)
    o = Oracle(H, man)
    H.stub(STUB)
    x = man.new()
    T = H.mod(OPT + "trust_regions").TrustRegions
    opt = T(verbosity=0, use_rand=True)
    if not hasattr(opt, "_truncated_conjugate_gradient"):
        return H.check("(solver is not separate; judged by the configurations that run the optimizer)", True)
    ip = man.inner_product
    s = H.reals("start", n)
    # coordinates along the first residual
    r = H.arr([H.pos("r0", span=2)] + [H.num(0)] * (n - 1))
    hs = o.h(x, s)
    o.grads[x.i] = r - hs
    g = o.g(x)
    D = H.pos("Delta", span=3)
    H.assume(ip(x, s, s) <= D * D)
    eta, heta, j, why = opt._truncated_conjugate_gradient(o.problem, x, g, s, D, 1, H.num("1/10"), 1, cfg["maxinner"])
    H.eq("Hessian image belongs to the step", heta, o.h(x, eta))
    e2 = ip(x, eta, eta)
    H.le("step stays in the trust region", e2, D * D)
    m = lambda v: ip(x, g, v) + ip(x, v, o.h(x, v)) / 2
    gain = m(s) - m(eta)
    if not cfg["maxinner"]:
        return H.eq("no step without inner iterations", eta, s)
    if why in (T.NEGATIVE_CURVATURE, T.EXCEEDED_TR):
        H.eq("stops on the boundary", e2, D * D)
    if n > 1 and cfg["maxinner"] > 1:
        # beyond the solver's reach
        return
    H.le("model is no worse than at the start", H.num(0), gain)
    # best reduction along the first residual: r0^2 t - h t^2 r0^2 / 2 for t up to the boundary
    k = o.hmat(x)[0][0]
    c = r[0]
    # boundary: |s - t r| = D
    far = (s[0] + H.np.sqrt(s[0] * s[0] + D * D - ip(x, s, s))) / c
    t = 1 / k if bool(k > 0) and bool(far * k > 1) else far
    H.le("model is no worse than at the best point along the residual", c * c * (t - k * t * t / 2), gain)


class Stop(Exception):
    pass


def public(H, cfg):
    n, man, o, x = world(H, cfg)
    T = H.mod(OPT + "trust_regions").TrustRegions
    opt = T(verbosity=0, max_iterations=1, min_gradient_norm=0, max_time=1e30, use_rand=bool(cfg.get("rand")))
    Delta, bar = H.pos("Delta", span=5e-9 if cfg.get("tiny") else 3), H.pos("Delta_bar", span=3)
    g = o.g(x)
    if cfg.get("rand"):
        H.assume(g[0] != 0)
        man.random_tangent_vector = lambda p: H.reals("start", n)
        s = H.reals("start", n)
        H.assume(s[0] * s[0] <= 1)
        H.assume(Delta > H.num("1/10000000000000" if cfg.get("tiny") else "1/100000"))
        if cfg.get("tiny"):
            H.assume(Delta < H.num("1/100000000"))
        man.random_tangent_vector = lambda p: s
    seen = []

    def retraction(p, v):
        seen.append((p, v))
        raise Stop
    man.retraction = retraction
    try:
        opt.run(o.problem, initial_point=x, Delta0=Delta, Delta_bar=bar, **({} if cfg["maxinner"] is None else dict(maxinner=cfg["maxinner"])))
    except Stop:
        pass
    H.check("one step from the current point", len(seen) == 1 and seen[0][0] is x)
    judge(H, cfg, man, o, x, seen[0][1], Delta)


def configs(tier):
    T = tier != "quick"
    out = []
    for mx in (0, 1, 2, 3):
        for pre in (False, True):
            for mn in (0, 1):
                out.append(dict(name=f"solver:dimension_1:{mx}_inner_iterations:at_least_{mn}" + (":preconditioned" if pre else ""), fn=direct, n=1, pre=pre,
                                maxinner=mx, mininner=mn))
    cases = [(2, 1, 0, 1, 1, 0), (2, 2, 0, 1, 1, 1), (2, 1, 1, 1, 1, 0), (2, 1, 0, 1, 0, 1), (2, 1, 0, 0, 0, 1), (2, 1, 0, 2, 0, 1),
             (2, 2, 0, 0, 1, 1), (2, 2, 1, 1, 1, 0), (2, 3, 0, 1, 1, 1), (2, 3, 0, 2, 1, 1), (2, 3, 1, 1, 1, 0), (3, 1, 0, 1, 0, 1), (3, 2, 0, 1, 1, 1)]
    if T:
        cases += [(2, 2, 0, 2, 1, 1), (2, 2, 1, 1, 0, 1), (2, 3, 1, 1, 0, 1), (2, 3, 0, 0, 0, 1), (3, 2, 0, 1, 0, 1), (3, 2, 0, 2, 1, 1), (3, 3, 0, 1, 1, 1), (3, 4, 0, 1, 1, 1)]
    for n, mx, pre, theta, mn, kap in cases:
        out.append(dict(name=f"solver:dimension_{n}:{mx}_inner_iterations:at_least_{mn}:theta_{theta}" + (":preconditioned" if pre else ""), fn=direct, n=n,
                        pre=bool(pre), maxinner=mx, mininner=mn, theta=theta, kappa=bool(kap), weight=mx * 3, max_paths=3000))
    for n, mx, pre in ((1, None, 0), (1, None, 1), (1, 2, 1), (2, 1, 0), (2, None, 0)):
        out.append(dict(name=f"run:dimension_{n}:{mx}_inner_iterations" + (":preconditioned" if pre else ""), fn=public, n=n, maxinner=mx, pre=bool(pre), weight=n))
    out.append(dict(name="run:dimension_1:randomised_start", fn=public, n=1, maxinner=None, rand=True))
    for n, mx, ti in ((1, 0, 0), (1, 0, 1), (2, 0, 0), (1, 1, 1)):
        out.append(dict(name=f"run:dimension_{n}:{mx}_inner_iterations:randomised_start" + (":tiny_radius" if ti else ""), fn=public, n=n, maxinner=mx, tiny=ti, rand=True,
                        opts=dict(eps="exact") if ti else {}))
    for n, mx in ((1, 0), (1, 1), (1, 2), (2, 1), (2, 2)) + (((3, 1), (3, 2)) if T else ()):
        out.append(dict(name=f"solver:dimension_{n}:{mx}_inner_iterations:any_start", fn=started, n=n, maxinner=mx))
    return out
