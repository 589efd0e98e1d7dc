"""C25: derivative-free optimizers"""
from .optstub import Oracle, make_man, STUB

OPT = "pymanopt.optimizers."
BOUNDS = ("arbitrary costs at every point; Nelder-Mead: dimension 1 and 2 (thorough 3), 0 to 3 iterations, symbolic reflection, expansion and contraction "
          "factors, given or random simplex; particle swarm: 1 to 3 particles, 0 to 2 iterations (thorough 3), every outcome of the random generator, "
          "symbolic social and nostalgia factors")
ASSUMPTIONS = [STUB, "centroids are arbitrary points (the Karcher mean routine is checked by its own configurations)",
               "logarithms are arbitrary vectors, zero between a point and itself", "velocity and simplex rules: costs are distinct"]


def world(H, n, **k):
    man = make_man(H, n, **k)
    o = Oracle(H, man)
    H.stub(STUB)
    man.logs = {}

    def log(a, b):
        if a is b:
            return H.np.zeros(n)
        if (a.i, b.i) not in man.logs:
            man.logs[a.i, b.i] = H.reals(f"log{a.i}_{b.i}", n)
        return man.logs[a.i, b.i]
    man.log = log
    return man, o


def distinct(H, o):
    f0 = o.f

    def f(p):
        new = p.i not in o.costs
        old = list(o.costs.values())
        v = f0(p)
        if new:
            for w in old:
                H.assume(v != w)
        return v
    o.f = f


def truthful(H, o, r, start):
    H.check("returned point was evaluated", any(r.point is p for p in o.evals), f"{r.point}")
    H.eq("returned cost is the cost of the returned point", r.cost, o.f(r.point))
    seen = {p.i: p for p in o.evals}
    for p in seen.values():
        H.le("no evaluated point was better", r.cost, o.f(p))
    for p in start:
        H.le("not worse than the initial points", r.cost, o.f(p))
    H.eq("reported evaluations are the evaluations made", H.num(1) * r.cost_evaluations, H.num(len(o.evals)))


def nm(H, cfg):
    n, N = cfg["n"], cfg["N"]
    man, o = world(H, n)
    if cfg.get("distinct"):
        distinct(H, o)
    if cfg.get("sorted"):
        f0 = o.f

        def f(p):
            new = p.i not in o.costs
            c = f0(p)
            if new and 0 < p.i <= n:
                H.assume(c >= o.f(man.points[p.i - 1]))
            return c
        o.f = f
    m = H.mod(OPT + "nelder_mead")
    kw = dict(reflection=H.pos("reflection", span=2), expansion=H.pos("expansion", span=3), contraction=H.pos("contraction", span=1)) if cfg.get("par") else {}
    R, E, C = kw.get("reflection", 1), kw.get("expansion", 2), kw.get("contraction", H.num("1/2"))
    cents = []
    old = getattr(m, "compute_centroid", None)

    def centroid(manifold, points):
        c = man.new()
        cents.append((c, list(points)))
        return c
    means = []
    pm = man.pair_mean

    def pair_mean(a, b):
        p = pm(a, b)
        means.append((p, a, b))
        return p
    man.pair_mean = pair_mean
    given = cfg.get("given", True)
    simplex = [man.new() for _ in range(n + 1)] if given else []
    opt = m.NelderMead(max_iterations=N + 1, max_cost_evaluations=1e9, max_time=1e30, verbosity=0, **kw)
    if old is not None:
        m.compute_centroid = centroid
    try:
        r = opt.run(o.problem, **({"initial_point": simplex} if given else {}))
    finally:
        if old is not None:
            m.compute_centroid = old
    start = simplex or man.points[:n + 1]
    truthful(H, o, r, start)
    H.check("reports the iterations made", r.iterations == N + 1, str(r.iterations))
    if not given:
        H.check("random simplex has dimension + 1 points", [p.i for p in o.evals[:n + 1]] == list(range(n + 1)))
    if old is None or not cfg.get("distinct"):
        return
    # ---- the rules, against an independent simulation
    ev = list(o.evals)
    S = ev[:n + 1]
    k = n + 1
    for it, (c, pts) in enumerate(cents):
        t = f"iteration {it + 1}: "
        S = sort(S, o)
        worst = S[-1]
        H.check(t + "centroid of all points but the worst", {p.i for p in pts} == {p.i for p in S[:-1]}, f"{pts}")
        vec = man.log(c, worst)

        def trial(what, fac):
            nonlocal k
            p = ev[k] if k < len(ev) else None
            k += 1
            ok = p is not None and p.parent is c
            H.check(t + what + " is tried next", ok, f"{p}")
            if ok:
                H.eq(t + what, p.vec, vec * fac)
            return p if ok else None
        xr = trial("reflection", -R)
        if xr is None:
            return
        fr = o.f(xr)
        if bool(fr < o.f(S[0])):
            xe = trial("expansion", -E)
            if xe is None:
                return
            S[-1] = xe if bool(o.f(xe) < fr) else xr
        elif bool(fr < o.f(S[-2])):
            S[-1] = xr
        else:
            out = bool(fr < o.f(worst))
            xc = trial("contraction", -C if out else C)
            if xc is None:
                return
            if bool(o.f(xc) < (fr if out else o.f(worst))):
                S[-1] = xc
            else:
                for j in range(1, n + 1):
                    p = ev[k] if k < len(ev) else None
                    k += 1
                    ab = next(((a, b) for q, a, b in means if q is p), None)
                    ok = ab is not None and {ab[0].i, ab[1].i} == {S[0].i, S[j].i}
                    H.check(t + "simplex shrinks towards the best point", ok, f"{p}: {ab}")
                    if not ok:
                        return
                    S[j] = p
    H.check("no other evaluations", k == len(ev), f"{len(ev)} evaluations, {k} expected")


def sort(S, o):
    out = []
    for p in S:
        j = 0
        while j < len(out) and bool(o.f(out[j]) < o.f(p)):
            j += 1
        out.insert(j, p)
    return out


def simplices(H, cfg):
    """only simplices of dimension + 1 points are accepted"""
    n = cfg["n"]
    man, o = world(H, n)
    m = H.mod(OPT + "nelder_mead")
    k = H.choose("points", n + 4)
    kind = [list, tuple][H.choose("sequence", 2)]
    opt = m.NelderMead(max_iterations=1, max_time=1e30, verbosity=0)
    run = lambda: opt.run(o.problem, initial_point=kind(man.new() for _ in range(k)))
    if k == n + 1:
        H.noraise("valid simplex is accepted", run)
    else:
        H.raises("simplex of the wrong size is rejected", run, ValueError)
        H.check("nothing is evaluated before that", not o.evals)


def pso(H, cfg):
    n, N, P = cfg["n"], cfg["N"], cfg["P"]
    man, o = world(H, n, transport="lin")
    rule = cfg.get("rule")
    if rule:
        distinct(H, o)
        H.uniform_range("1/16", "15/16")
    kw = {}
    if rule == "social":
        kw = dict(nostalgia=0, social=H.pos("social", span=2))
    elif rule == "nostalgia":
        kw = dict(nostalgia=H.pos("nostalgia", span=2), social=0)
    elif rule == "inertia":
        kw = dict(nostalgia=0, social=0)
    mi = 4 if N < 4 else 8        # the evaluation limit ends the run
    given = cfg.get("given", True)
    x = [man.new() for _ in range(P)] if given else None
    mine = list(x or ())
    v = []
    rt = man.random_tangent_vector

    def random_tangent_vector(p):
        w = rt(p)
        v.append((p, w))
        return w
    man.random_tangent_vector = random_tangent_vector
    opt = H.mod(OPT + "particle_swarm").ParticleSwarm(max_iterations=mi, max_cost_evaluations=P * (N + 1), max_time=1e30, verbosity=0,
                                                      **({} if given else dict(population_size=P)), **kw)
    r = opt.run(o.problem, **({"initial_point": x} if given else {}))
    start = man.points[:P]
    truthful(H, o, r, start)
    H.check("initial population is left alone", x is None or len(x) == P and all(a is b for a, b in zip(x, mine)))
    H.check("reports the iterations made", r.iterations == N + 1, str(r.iterations))
    H.check("every particle moves once per iteration", len(man.retractions) == N * P, str(len(man.retractions)))
    H.check("evaluated points are the initial points and the new positions",
            {p.i for p in o.evals} == {p.i for p in start} | {p.i for p in man.retractions} and len(o.evals) == P * (N + 1))
    pos = list(start)
    vel = {p.i: w for p, w in v}
    vel = [vel.get(p.i) for p in start]
    prev = list(start)
    best = list(start)
    g = sort(start, o)[0] if rule else None
    if len(man.retractions) != N * P or any(w is None for w in vel):
        return
    for it in range(N):
        w = H.num("2/5") + H.num("1/2") * (1 - H.num(it + 1) / mi)
        moves = {}
        for q in man.retractions[it * P:(it + 1) * P]:
            moves.setdefault(q.parent.i if q.parent is not None else None, q)
        H.check("every particle moves from its previous position", set(moves) == {p.i for p in pos}, f"{list(moves)}")
        if set(moves) != {p.i for p in pos}:
            return
        new = []
        for i in range(P):
            q = moves[pos[i].i]
            inert = w * man.transport(prev[i], pos[i], vel[i])
            if rule:
                rest = q.vec - inert
                tgt = {"social": g, "nostalgia": best[i], "inertia": pos[i]}[rule]
                L = man.log(pos[i], tgt)
                fac = kw.get(rule)
                if tgt is pos[i]:
                    H.eq("velocity is the inertia where no attraction acts", q.vec, inert)
                else:
                    H.assume(L[0] != 0)
                    H.le("attracted towards the target", fac / 16 if fac is not None else H.num(0), rest[0] / L[0])
                    H.le("attraction bounded by its factor", rest[0] / L[0], fac)
                    for j in range(1, n):
                        H.eq("attraction is along the logarithm", rest[j] * L[0], rest[0] * L[j])
            new.append(q)
            vel[i] = q.vec
        prev, pos = pos, new
        for i in range(P):
            if rule and bool(o.f(new[i]) < o.f(best[i])):
                best[i] = new[i]
                if bool(o.f(new[i]) < o.f(g)):
                    g = new[i]


def centroid(H, cfg):
    """the Karcher mean used by Nelder-Mead descends the sum of squared distances with the right gradient"""
    import types
    m = H.mod(OPT + "nelder_mead")
    if not hasattr(m, "compute_centroid") or not hasattr(m, "SteepestDescent"):
        return H.check("(no separate centroid routine)", True)
    mf = H.mod("pymanopt.manifolds")
    lay = cfg["lay"]
    E = [mf.Euclidean(1), mf.Euclidean(2)]
    M = {"1": E[1], "p1": mf.Product([E[1]]), "p2": mf.Product(E)}[lay]
    got = []

    class Opt:
        def __init__(self, *a, **k):
            pass

        def run(self, problem, **k):
            got.append(problem)
            return types.SimpleNamespace(point=None)
    old = m.SteepestDescent
    m.SteepestDescent = Opt
    mk = lambda t: {"1": lambda: H.reals(t, 2), "p1": lambda: [H.reals(t, 2)], "p2": lambda: [H.reals(t + "a", 1), H.reals(t + "b", 2)]}[lay]()
    try:
        K = cfg["K"]
        pts = [mk(f"p{k}") for k in range(K)]
        m.compute_centroid(M, pts)
    finally:
        m.SteepestDescent = old
    P = got[0]
    y = mk("y")
    fl = lambda z: [e for a in z for e in a] if lay != "1" else list(z)
    want = sum(((a - b) * (a - b) for p in pts for a, b in zip(fl(y), fl(p))), H.num(0)) / 2
    H.eq("objective is half the sum of squared distances", P.cost(y), want)
    g = P.riemannian_gradient(y)
    for i, e in enumerate(fl(g)):
        H.eq("gradient of the objective", e, sum((fl(y)[i] - fl(p)[i] for p in pts), H.num(0)))


def configs(tier):
    T = tier != "quick"
    out = []
    for n in (1, 2, 3):
        out.append(dict(name=f"simplices:dimension_{n}", fn=simplices, n=n))
    for n, N in ((1, 0), (1, 1), (1, 2), (2, 1), (2, 2)) + (((1, 3), (3, 1), (1, 4)) if T else ()):
        out.append(dict(name=f"NelderMead:dimension_{n}:{N}_iterations", fn=nm, n=n, N=N, sorted=n * N > 2, weight=n + N, max_paths=3000, timeout=150 if not T else 600))
        if n * N > 3 and not T:
            continue
        out.append(dict(name=f"NelderMead:dimension_{n}:{N}_iterations:rules", fn=nm, n=n, N=N, par=True, distinct=True, sorted=n * N > 2, weight=n + N, max_paths=3000,
                        timeout=150 if not T else 600))
    out.append(dict(name="NelderMead:random_simplex", fn=nm, n=1, N=1, given=False))
    for P, N in ((1, 0), (1, 1), (2, 1), (3, 1), (2, 2)) + (((1, 3), (3, 2)) if T else ()):
        out.append(dict(name=f"ParticleSwarm:{P}_particles:{N}_iterations", fn=pso, n=1, N=N, P=P, weight=P + N, max_paths=3000))
        for rule in ("social", "nostalgia", "inertia"):
            if N:
                out.append(dict(name=f"ParticleSwarm:{P}_particles:{N}_iterations:{rule}", fn=pso, n=2 if N == 1 else 1, N=N, P=P, rule=rule, weight=P + N, max_paths=3000))
    out.append(dict(name="ParticleSwarm:random_population", fn=pso, n=1, N=1, P=2, given=False))
    for lay in ("1", "p1", "p2"):
        for K in (1, 2, 3, 4, 6):
            out.append(dict(name=f"centroid:{lay}:{K}_points", fn=centroid, lay=lay, K=K))
    return out
