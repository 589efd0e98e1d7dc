"""C07: transport, pair mean and zero vector"""
from .geo import *  # noqa
from .geodesic import data

BOUNDS = ("all real pairs of points and tangent vectors; pair means: all pairs inside the injectivity radius; sizes up to 3x2, "
          "batches of 2")
COVERS = ["*.transport", "*._parallel_transport", "*.pair_mean", "*.zero_vector"]


def flat(v):
    return list(v) if isinstance(v, (list, tuple)) else v


def transp(H, cfg):
    mk = cfg["geo"]
    g, g2 = mk(), mk()
    M = g.make(H)
    p, v = g.pt(H, "p"), None
    v = g.tv(H, p, "v")
    w = g.tv(H, p, "w")
    q = g2.pt(H, "q")
    a, b = H.real("a"), H.real("b")
    tv = M.transport(p, q, v)
    for n, x, y in g2.tan(H, q, tv):
        H.eq(f"transported vector is tangent at the destination: {n}", x, y)
    H.eq("transport is additive", flat(M.transport(p, q, v + w)), flat(tv + M.transport(p, q, w)))
    H.eq("transport is homogeneous", flat(M.transport(p, q, v * a)), flat(tv * a))
    if cfg.get("iso"):
        H.eq("transport is isometric", g.ip(H, q, tv, M.transport(p, q, w)), g.ip(H, p, v, w))


def own(H, cfg):
    g = cfg["geo"]()
    M = g.make(H)
    p = g.pt(H, "p")
    v = g.tv(H, p, "v")
    H.eq("transport to the same point is the identity", flat(M.transport(p, p, v)), flat(v))


def zero(H, cfg):
    g = cfg["geo"]()
    M = g.make(H)
    p = g.pt(H, "p")
    z = M.zero_vector(p)
    v = g.tv(H, p, "v")
    for n, x, y in g.tan(H, p, z):
        H.eq(f"zero vector is tangent: {n}", x, y)
    H.eq("zero vector has norm zero", M.norm(p, z), H.num(0))
    H.eq("zero vector is neutral", flat(v + z), flat(v))


def mean(H, cfg):
    g = cfg["geo"]()
    M = g.make(H)
    p, v, q, d2 = data(H, g, half=True)
    c = M.pair_mean(p, q)
    for n, x, y in g.on(H, c):
        H.eq(f"mean is on the manifold: {n}", x, y)
    for n, x in g.pos(H, c):
        H.lt(f"mean is on the manifold: {n}", H.num(0), x)
    r = M.pair_mean(q, p)
    if isinstance(g, (GEuc, GSym)):
        H.eq("mean is the midpoint", c * 2, p + q)
    elif isinstance(g, (GSphere, GSub)):
        H.eq("mean is equidistant", rdot(H, p, c), rdot(H, q, c))
        H.eq("mean is on the great circle", c * rdot(H, p + q, p + q), (p + q) * rdot(H, p + q, c))
        H.lt("mean is on the short arc", H.num(0), rdot(H, p, c))
    elif isinstance(g, GObl):
        s = H.np.sum
        H.eq("mean is equidistant", s(p * c, axis=0), s(q * c, axis=0))
        e = p + q
        H.eq("mean is on the great circle", c * s(e * e, axis=0), e * s(e * c, axis=0))
        H.lt("mean is on the short arc", H.num(0), s(p * c, axis=0))
    elif isinstance(g, GCirc):
        # square of the mean is the product
        H.eq("mean is the midpoint", c * c, p * q)
        H.lt("mean is on the short arc", H.num(0), H.np.real(H.np.conj(p) * c))
    elif isinstance(g, GOrth):
        e = ct(H, p) @ c
        H.eq("mean is the midpoint", e @ e, ct(H, p) @ q)
        for i in range(g.k):
            ei = e if g.k == 1 else e[i]
            # principal square root: the rotation angle is below a right angle
            H.lt("mean is on the short arc", H.num(0), H.np.real(tr(ei)) - (1 if g.n == 3 else 0))
    elif isinstance(g, GBall):
        H.eq("mean is the midpoint", c, M.exp(p, v / 2))
        H.eq("mean is equidistant", M.dist(p, c), M.dist(q, c))
    if not isinstance(g, GBall):
        H.eq("mean is symmetric", r, c)


def prodmean(H, cfg):
    g = cfg["geo"]()
    M = g.make(H)
    D = [data(H, x, f"f{i}", half=True) for i, x in enumerate(g.gs)]
    c = M.pair_mean([d[0] for d in D], [d[2] for d in D])
    for x, d, y in zip(g.gs, D, c):
        H.eq("mean is the mean of the components", y, x.make(H).pair_mean(d[0], d[2]))


def configs(tier):
    out = []
    small = lambda g: isinstance(g, GFix) and g.r > 1 and tier == "quick"
    out += geo_configs(tier, transp, pre="transport:", skip=lambda g: small(g) or isinstance(g, GBall) or isinstance(g, GEll) and g.n > 2,
                       extra=lambda g: dict(iso=isinstance(g, (GEuc, GSym, GOrth)) or isinstance(g, GPos) and g.par))
    out += geo_configs(tier, own, pre="self transport:", skip=lambda g: isinstance(g, GBall))
    out += geo_configs(tier, zero, pre="zero:")
    out += geo_configs(tier, mean, pre="mean:", skip=lambda g: not isinstance(
        g, (GEuc, GSym, GSphere, GSub, GObl, GCirc, GOrth, GBall)) or g.rank() == 0)
    out.append(dict(name="mean:product", fn=prodmean, geo=lambda: GProd(GSphere(2), GEuc((2,)))))
    return out
