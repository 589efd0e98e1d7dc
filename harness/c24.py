"""C24: acceptance and radius rules of the trust-region method"""
from .optstub import Oracle, make_man, STUB

OPT = "pymanopt.optimizers."
BOUNDS = ("dimension 1 (the subproblem is then solved exactly by the reference), arbitrary costs, gradients, Hessians, radii, threshold rho_prime in "
          "[0, 1/4), regularisation off / default / symbolic; beyond one iteration gradients are taken positive and costs nonnegative (the method is "
          "invariant under both), between 0 and 1 where the regularisation is off; 1 to 2 outer iterations with the default settings of the solver (thorough 3); "
          "dimension 2 for the never-worse guarantee; 8 to 14 iterations of every listed sequence of step qualities (rejected, poor, fair, good) under "
          "negative curvature, maximal radius between 1 and 2, 4 and 8, or 4096 and 8192 initial radii, verbosity 0 to 3")
ASSUMPTIONS = [STUB, "initial radius at most the maximal radius (Delta_bar)", "without regularisation gradients are nonzero"]


def run(H, cfg):
    n, N = 1, cfg["N"]
    man = make_man(H, n, typical=H.pos("typical distance") if cfg.get("radius") == "typical" else None)
    o = Oracle(H, man)
    H.stub(STUB)
    kw, ro = {}, {}
    reg = H.num(1000)
    g0 = o.g
    if cfg["reg"] == "off":
        kw["rho_regularization"] = reg = H.num(0)

        def g(p):
            known = p.i in o.grads
            v = g0(p)
            if not known:
                H.assume(v[0] > 0 if cfg.get("up") else v[0] != 0)
            return v
        o.g = g
        if cfg.get("up"):
            o.f = lambda p: o.costs[p.i] if p.i in o.costs else o.costs.setdefault(p.i, H.nonneg(f"f{p.i}", 1))
    elif cfg["reg"] == "symbolic":
        kw["rho_regularization"] = reg = H.pos("regularisation", span=3) * H.num(2 ** 52)
        if cfg.get("up"):
            o.g = lambda p: o.grads[p.i] if p.i in o.grads else o.grads.setdefault(p.i, H.arr([H.nonneg(f"g{p.i}")]))
            o.f = lambda p: o.costs[p.i] if p.i in o.costs else o.costs.setdefault(p.i, H.nonneg(f"f{p.i}"))
    rp = H.num(0.1)
    if cfg.get("rp"):
        kw["rho_prime"] = rp = H.nonneg("rho_prime", 0.24)
    if cfg.get("radius") is None:
        bar, Delta = H.pos("Delta_bar", span=3), H.pos("Delta0", span=3)
        H.assume(Delta <= bar)
        ro = dict(Delta_bar=bar, Delta0=Delta)
    elif cfg["radius"] == "bar":
        bar = H.pos("Delta_bar", span=3)
        ro = dict(Delta_bar=bar)
        Delta = bar / 8
    else:
        bar = man.typical_dist if cfg["radius"] == "typical" else H.num(1)
        # the default radius has nothing to do with the number of inner iterations
        ro = dict(maxinner=3)
        Delta = bar / 8
    x0 = man.new()
    opt = H.mod(OPT + "trust_regions").TrustRegions(verbosity=0, max_iterations=N, min_gradient_norm=-1, max_time=1e30, **kw)
    r = opt.run(o.problem, initial_point=x0, **ro)
    H.check("one proposal per iteration", len(man.retractions) == N, str(len(man.retractions)))
    x = x0
    for k, q in enumerate(man.retractions):
        t = f"iteration {k + 1}: "
        H.check(t + "continues from the accepted point", q.parent is x, f"{q.parent} instead of {x}")
        gx, h, fx = o.g(x)[0], o.hmat(x)[0][0], o.f(x)
        a = gx if bool(gx >= 0) else -gx
        edge = bool(h <= 0) or bool(a >= Delta * h)
        if bool(gx == 0):
            eta, edge = H.num(0), False
        elif edge:
            eta = -Delta if bool(gx > 0) else Delta
        else:
            eta = -gx / h
        H.eq(t + "step of the current radius", q.vec[0], eta)
        m = -(gx * eta + h * eta * eta / 2)
        rr = H.num(0)
        if cfg["reg"] != "off":
            af = fx if bool(fx >= 0) else -fx
            rr = (af if bool(af >= 1) else H.num(1)) * H.np.spacing(1) * reg
        num, den = fx - o.f(q) + rr, m + rr
        if bool(4 * num < den):
            Delta = Delta / 4
        elif bool(4 * num > 3 * den) and edge:
            Delta = 2 * Delta if bool(2 * Delta <= bar) else bar
        H.le(t + "radius never exceeds the maximum", Delta, bar)
        if bool(num > rp * den):
            H.le(t + "accepted steps do not raise the cost (up to the regularisation)", o.f(q), fx + rr)
            x = q
    H.check("returns the accepted point", r.point is x, f"{r.point} instead of {x}")
    H.eq("returns its cost", r.cost, o.f(x))
    H.eq("returns its gradient norm", r.gradient_norm, man.norm(x, o.g(x)))
    H.check("reports the iterations made", r.iterations == N, str(r.iterations))


RATIO = {"r": (-1, "1/10"), "a": ("1/10", "1/4"), "k": ("1/4", "3/4"), "g": ("3/4", 2)}


def trend(H, cfg):
    """many iterations with a prescribed quality of every step: r(ejected), a(ccepted but
    poor), k (fair: radius kept), g(ood); negative curvature throughout, so that every
    step reaches the boundary"""
    pat = cfg["pattern"]
    N = len(pat)
    man = make_man(H, 1)
    o = Oracle(H, man)
    H.stub(STUB)
    grads = []

    def g(p):
        if p.i not in o.grads:
            o.grads[p.i] = H.arr([H.pos(f"g{p.i}", span=1)])
        return o.grads[p.i]

    def hmat(p):
        if p.i not in o.hess:
            o.hess[p.i] = [[-H.pos(f"h{p.i}", span=0.01)]]
        return o.hess[p.i]

    def gain(x, v):
        return -(g(x)[0] * v[0] + hmat(x)[0][0] * v[0] * v[0] / 2)
    ratio = {}

    def f(p):
        if p.i not in o.costs:
            if p.parent is None:
                # the method is invariant under adding a constant to the cost
                o.costs[p.i] = 1 + H.pos("f0", span=400 if "gg" in pat else 20)
            else:
                k = man.retractions.index(p)
                ratio[k] = H.real(f"ratio{k}", *map(H.num, RATIO[pat[k]]))
                lo, hi = map(H.num, RATIO[pat[k]])
                if pat[k] != "k":
                    H.assume(ratio[k] > lo)
                    H.assume(ratio[k] < hi)
                o.costs[p.i] = f(p.parent) - ratio[k] * gain(p.parent, p.vec)
                H.assume(o.costs[p.i] > 1)
        return o.costs[p.i]
    o.g, o.f, o.hmat = g, f, hmat
    Delta = H.pos("Delta0", span=0.2)
    bar = H.pos("Delta_bar", span=1)
    m = cfg["room"]
    # the maximal radius lies between 2^m and 2^(m+1) initial radii
    bar = Delta * (2 ** m + bar * 2 ** m / 2)
    x0 = man.new()
    opt = H.mod(OPT + "trust_regions").TrustRegions(verbosity=cfg["verbosity"], max_iterations=N, min_gradient_norm=-1, max_time=1e30,
                                                    rho_regularization=0)
    r = opt.run(o.problem, initial_point=x0, Delta_bar=bar, Delta0=Delta)
    H.check("one proposal per iteration", len(man.retractions) == N, str(len(man.retractions)))
    x = x0
    for k, q in enumerate(man.retractions):
        t = f"iteration {k + 1} ({pat[:k + 1]}): "
        H.check(t + "continues from the accepted point", q.parent is x, f"{q.parent} instead of {x}")
        H.eq(t + "step of the current radius", q.vec[0], -Delta)
        if pat[k] in "ra":
            Delta = Delta / 4
        elif pat[k] == "g":
            Delta = 2 * Delta if bool(2 * Delta <= bar) else bar
        if pat[k] != "r":
            x = q
    H.check("returns the accepted point", r.point is x, f"{r.point} instead of {x}")
    H.eq("returns its cost", r.cost, o.f(x))
    H.eq("returns its gradient norm", r.gradient_norm, g(x)[0])
    H.check("reports the iterations made", r.iterations == N, str(r.iterations))


def safe(H, cfg):
    """never worse than the start; the cost and gradient reported are those of the returned point"""
    n, N = cfg["n"], cfg["N"]
    man = make_man(H, n, metric=True)
    o = Oracle(H, man, pre=cfg.get("pre", False))
    H.stub(STUB)
    g0 = o.g

    def g(p):
        known = p.i in o.grads
        v = g0(p)
        if not known:
            H.assume(v[0] != 0)
        return v
    o.g = g
    x0 = man.new()
    Delta = H.pos("Delta0", span=3)
    opt = H.mod(OPT + "trust_regions").TrustRegions(verbosity=0, max_iterations=N, min_gradient_norm=-1, max_time=1e30, rho_regularization=0,
                                                    use_rand=cfg.get("rand", False))
    if cfg.get("rand"):
        s = H.reals("start", n)
        H.assume(s[0] * s[0] <= 1)
        H.assume(Delta > H.num("1/100000"))
        man.random_tangent_vector = lambda p: s
    o.f = lambda p: o.costs[p.i] if p.i in o.costs else o.costs.setdefault(p.i, H.nonneg(f"f{p.i}", 1))
    r = opt.run(o.problem, initial_point=x0, Delta0=Delta, Delta_bar=2 * Delta, maxinner=cfg.get("maxinner"))
    H.check("returns a visited point", any(r.point is p for p in man.points))
    H.eq("returned cost is the cost of the returned point", r.cost, o.f(r.point))
    H.eq("reported gradient norm is that of the returned point", r.gradient_norm, man.norm(r.point, o.g(r.point)))
    H.le("never worse than the start", r.cost, o.f(x0))
    x = x0
    for k, q in enumerate(man.retractions):
        H.check("each step starts at the current iterate", q.parent is x, f"{q.parent} instead of {x}")
        v = q.vec
        m = -man.inner_product(x, o.g(x), v) - man.inner_product(x, v, o.h(x, v)) / 2
        nxt = man.retractions[k + 1].parent if k + 1 < len(man.retractions) else r.point
        num = o.f(x) - o.f(q)
        if nxt is q:
            H.le("accepted steps reach the threshold", m / 10, num)
            H.le("accepted steps decrease the model", H.num(0), m)
        elif bool(m > 0):
            H.le("rejected steps do not reach the threshold", num, m / 10)
        x = nxt


def configs(tier):
    T = tier != "quick"
    out = []
    base = dict(fn=run, opts=dict(eps="exact"), timeout=300, max_paths=6000)
    for reg in ("off", "default", "symbolic"):
        out.append(dict(base, name=f"rules:1_iteration:regularisation_{reg}:any_sign", N=1, reg=reg, weight=3))
    for N in (2, 3) if T else (2,):
        out.append(dict(base, name=f"rules:{N}_iterations:regularisation_off", N=N, reg="off", weight=N * 5, up=True))
        out.append(dict(base, name=f"rules:{N}_iterations:symbolic_threshold", N=N, reg="off", rp=True, weight=N * 5, up=True))
    if T:
        out.append(dict(base, name="rules:2_iterations:regularisation_symbolic", N=2, reg="symbolic", weight=20, up=True))
    for rad in ("bar", "typical", "default"):
        out.append(dict(base, name=f"rules:2_iterations:{rad}_radius", N=2, reg="off", radius=rad, weight=5, up=True))
    for pat in ("rrrrrrrr", "aaaaaaaa", "gggggggg", "rrrrrgrr", "gggggrgg", "kkkkkkkk", "rarakgrarara") + \
            (("rrrrrrkrrrrrrg", "ggggggkggggggr", "gagagagagagaga") if T else ()):
        for room in ((12, 2, 0) if "gg" in pat else (3,)):
            for vb in (0, 1, 3) if pat[:5] in ("rrrrr", "ggggg") else (2,):
                out.append(dict(name=f"trend:{pat}:room_{room}:verbosity_{vb}", fn=trend, pattern=pat, room=room, verbosity=vb, timeout=240, opts=dict(eps="exact")))
    for n, N, pre in ((1, 1, 0), (1, 1, 1), (2, 1, 0)) + (((1, 2, 0), (1, 2, 1), (2, 1, 1)) if T else ()):
        out.append(dict(name=f"safe:dimension_{n}:{N}_iterations" + (":preconditioned" if pre else ""), fn=safe, timeout=240, n=n, N=N, pre=bool(pre), weight=n * 3,
                        max_paths=2000, maxinner=n if n == 1 else 1))
    out.append(dict(name="safe:randomised_start", fn=safe, timeout=240, n=1, N=1, rand=True))
    for n, mi in ((1, 0),):
        out.append(dict(name=f"safe:randomised_start:dimension_{n}:{mi}_inner_iterations", fn=safe, timeout=240, n=n, N=1, rand=True, maxinner=mi))
    return out
