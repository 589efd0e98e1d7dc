"""C10: rounding-size perturbations, coincident and antipodal points, zero vectors"""
from .geo import *  # noqa
from .geodesic import data
from fractions import Fraction

SIZE = Fraction(1, 10 ** 12)
BOUNDS = ("all real points whose normalisation is off by any relative error up to 1e-12 (per column / component), paired with: themselves, another "
          "such perturbation of the same point (or orbit), their antipodes, and every point inside the injectivity radius; zero tangent "
          "vectors; sizes up to 3x2, batches of 2")
COVERS = ["*.dist", "*.log", "*.exp", "*.retraction", "*.norm", "*.pair_mean", "*.transport"]
ASSUMPTIONS = ["rounding is represented by errors of up to 1e-12 in the stored points, arithmetic itself is exact",
               "undefined operations give a propagating undefined value, as numpy's NaN; comparisons with it are false"]
NORMED = (GSphere, GSub, GObl, GCirc, GSt, GOrth, GEll)


def err(H, tag):
    return 1 + H.real(tag, -SIZE, SIZE)


def off(H, g, p, tag):
    """the same point with rounding-size denormalisation"""
    if isinstance(g, GObl):
        return p * H.arr([err(H, f"{tag}{j}") for j in range(g.n)])
    if isinstance(g, GCirc):
        return p * H.arr([err(H, f"{tag}{j}") for j in range(g.n)])
    if isinstance(g, GProd):
        return [off(H, x, p[i], f"{tag}{i}") for i, x in enumerate(g.gs)]
    if isinstance(g, GFix):
        m = H.mod(PK + "fixed_rank")
        u, s, vt = p
        return m._FixedRankPoint(u * err(H, tag + "u"), s, vt * err(H, tag + "v"))
    if isinstance(g, NORMED) or isinstance(g, GPd) and g.special:
        if getattr(g, "k", 1) > 1:
            return stack(H, [p[i] * err(H, f"{tag}{i}") for i in range(g.k)])
        return p * err(H, tag)
    return p


def point(H, g):
    if not isinstance(g, GPsd):
        return g.pt(H, "p")
    # points have full rank
    if g.r == 1:
        p = g.pt(H, "p")
        H.assume(H.np.real(det(ct(H, p) @ p)) > 0)
        return p
    U = orth(H, "pu", g.n, 2, cx=g.cx)[:, :2]
    W = orth(H, "pw", 2, cx=g.cx)
    H.frame(W)
    d1 = H.pos("d1")
    return (U * H.arr([d1 + H.nonneg("d0"), d1])) @ ct(H, W)


def tryit(H, f):
    try:
        return f()
    except NotImplementedError:
        return None


def flat(v):
    out = []
    for x in (v if isinstance(v, (list, tuple)) else [v]):
        out.append(x)
    return out


def fin(H, name, v, trace=True):
    if v is None:
        return
    for x in flat(v):
        H.finite(name, x, trace)


def ops(H, M, p, q, what, mean=True, small=False, far=None):
    d = tryit(H, lambda: M.dist(p, q))
    fin(H, f"{what}: distance is finite", d)
    if d is not None:
        H.check(f"{what}: distance is real", not H.np.iscomplexobj(d) if not hasattr(d, "im") else False)
        H.le(f"{what}: distance is not negative", H.num(0), d)
        if small:
            H.le(f"{what}: distance is small", d * d, H.num("1/10000"))
        if far is not None:
            H.le(f"{what}: distance is almost the diameter", H.num("98/10") * far, d * d)
    v = tryit(H, lambda: M.log(p, q))
    fin(H, f"{what}: logarithm is finite", v, trace=not small and far is None and mean is None)
    if v is not None and small is True:
        n = M.norm(p, v)
        H.le(f"{what}: logarithm is small", n * n, H.num("1/10000"))
    if mean:
        fin(H, f"{what}: mean is finite", tryit(H, lambda: M.pair_mean(p, q)))


def same(H, cfg):
    g = cfg["geo"]()
    M = g.make(H)
    p = point(H, g)
    x = off(H, g, p, "e") if cfg["perturb"] else p
    ops(H, M, x, x, "same point", mean=False, small=True)
    z = tryit(H, lambda: M.zero_vector(x))
    if z is not None:
        fin(H, "norm of zero", tryit(H, lambda: M.norm(x, z)))
        fin(H, "exponential of zero is finite", tryit(H, lambda: M.exp(x, z)))
        fin(H, "retraction of zero is finite", tryit(H, lambda: M.retraction(x, z)), trace=not isinstance(g, GFix))


def zero(H, cfg):
    g = cfg["geo"]()
    M = g.make(H)
    p = point(H, g)
    x = off(H, g, p, "e")
    z = tryit(H, lambda: M.zero_vector(x))
    fin(H, "norm of zero", tryit(H, lambda: M.norm(x, z)))
    fin(H, "retraction of zero is finite", tryit(H, lambda: M.retraction(x, z)), trace=not isinstance(g, GFix))


def near(H, cfg):
    g = cfg["geo"]()
    M = g.make(H)
    p = g.pt(H, "p")
    x, y = off(H, g, p, "e"), off(H, g, p, "f")
    if isinstance(g, GGr):
        s = H.sign("sg")
        y = y * s
    ops(H, M, x, y, "perturbed point", mean=not isinstance(g, GGr), small=True if not isinstance(g, (GObl, GCirc)) or g.n == 1 else "distance")


def opposite(H, cfg):
    g = cfg["geo"]()
    M = g.make(H)
    p = g.pt(H, "p")
    x, y = off(H, g, p, "e"), off(H, g, -p, "f")
    ops(H, M, x, y, "antipodal point", mean=False, far=g.n if isinstance(g, (GObl, GCirc)) else 1)


def mixed(H, cfg):
    """some columns coincide, others do not"""
    g = cfg["geo"]()
    M = g.make(H)
    p, v, q, d2 = data(H, g)
    k = H.choose("column", g.n)
    s = H.sign("sg")
    q = H.np.stack([(p[..., j] * s if j == k else q[..., j]) for j in range(g.n)], axis=-1)
    ops(H, M, off(H, g, p, "e"), off(H, g, q, "f"), "partly coincident points", mean=False)


def generic(H, cfg):
    g = cfg["geo"]()
    M = g.make(H)
    p, v, q, d2 = data(H, g)
    x, y = off(H, g, p, "e"), off(H, g, q, "f")
    ops(H, M, x, y, "pair", mean=False)
    fin(H, "exponential is finite", tryit(H, lambda: M.exp(x, v)))


def origin(H, cfg):
    g = cfg["geo"]()
    M = g.make(H)
    q = g.pt(H, "q")
    o = q * 0
    if g.k > 1:
        o = stack(H, [o[0]] + [q[i] for i in range(1, g.k)])
    ops(H, M, o, o, "origin", small=True)
    ops(H, M, o, q, "from the origin")
    ops(H, M, q, o, "to the origin")
    z = M.zero_vector(o)
    fin(H, "exponential of zero at the origin", M.exp(o, z))
    fin(H, "retraction of zero at the origin", M.retraction(o, z))
    fin(H, "exponential at the origin", M.exp(o, g.tv(H, o, "v")))


def vanish(H, cfg):
    """a step that cancels every singular value"""
    g = cfg["geo"]()
    M = g.make(H)
    p = g.pt(H, "p")
    m = H.mod(PK + "fixed_rank")
    U, V = g.UV(p)
    r = g.r
    z = lambda Q: Q[:, :r] * 0
    D = H.arr([[-p[1][i] if i == j else 0 for j in range(r)] for i in range(r)])
    q = M.retraction(p, m._FixedRankTangentVector(z(U), D, z(V)))
    fin(H, "retraction that cancels the singular values is finite", q, trace=False)
    for n, x in g.pos(H, q):
        H.lt(f"retraction that cancels the singular values: {n}", H.num(0), x, 0)


def configs(tier):
    o = dict(opts=dict(eps="exact", nan=True, div_fork=True), timeout=60 if tier == "quick" else 300)
    out = []
    for pert in (False, True):
        out += geo_configs(tier, same, pre="same:" if not pert else "same-off:", perturb=pert, **o)
    out += geo_configs(tier, zero, pre="zero:", **o)
    out += geo_configs(tier, near, pre="near:", skip=lambda g: not isinstance(g, NORMED) or isinstance(g, GEll) or type(g) is GSt, **o)
    out += geo_configs(tier, opposite, pre="opposite:", skip=lambda g: not isinstance(g, (GSphere, GSub, GObl, GCirc)), **o)
    out += geo_configs(tier, mixed, pre="mixed:", skip=lambda g: not isinstance(g, (GObl, GCirc)) or g.n < 2, **o)
    out += geo_configs(tier, generic, pre="pair:", skip=lambda g: not isinstance(g, (GSphere, GSub, GObl, GCirc)), **o)
    out += geo_configs(tier, origin, pre="origin:", skip=lambda g: not isinstance(g, GBall), **o)
    for m, n, k in [(2, 2, 1), (3, 2, 1), (2, 2, 2), (3, 2, 2)]:
        mk = lambda m=m, n=n, k=k: GFix(m, n, k)
        out.append(dict(name="vanish:" + mk().name, fn=vanish, geo=mk, **o))
    return out
