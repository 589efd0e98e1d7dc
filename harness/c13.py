"""C13: operations leave their arguments alone"""
from .geo import *  # noqa
from .geodesic import data

BOUNDS = ("all points, tangent vectors and ambient vectors at sizes up to 3x2 and batches of 2 (products, fixed-rank points and their "
          "composite vectors included); every operation of every manifold class")
COVERS = ["manifolds.*"]
ASSUMPTIONS = ["arguments are snapshotted before the call and compared entry by entry with their value after it"]


def snap(H, x):
    if isinstance(x, (list, tuple)):
        return [snap(H, e) for e in x]
    return x * 1


def leaves(x):
    if isinstance(x, (list, tuple)):
        return [e for y in x for e in leaves(y)]
    return [x]


def same(H, op, before, after):
    b, a = leaves(before), leaves(after)
    H.check(f"{op}: arguments keep their structure", len(b) == len(a) and all(
        tuple(x.shape) == tuple(y.shape) for x, y in zip(b, a)), "structure changed")
    for i, (x, y) in enumerate(zip(b, a)):
        H.eq(f"{op}: arguments are unchanged", y, x)


def guard(H, op, f, *args):
    before = [snap(H, a) for a in args]
    try:
        r = f(*args)
    except NotImplementedError:
        return None
    same(H, op, before, list(args))
    return r


def basic(H, cfg):
    g = cfg["geo"]()
    M = g.make(H)
    p = g.pt(H, "p")
    v, w = g.tv(H, p, "v"), g.tv(H, p, "w")
    guard(H, "inner_product", M.inner_product, p, v, w)
    guard(H, "norm", M.norm, p, v)
    guard(H, "zero_vector", M.zero_vector, p)
    guard(H, "embedding", M.embedding, p, v)
    if not isinstance(g, GEll) or g.n < 3:
        guard(H, "projection", M.projection, p, g.amb(H, p, "a"))
        if isinstance(g, GFix):
            t = H.mod("pymanopt.manifolds.fixed_rank")._FixedRankTangentVector
            b = t(H.reals("b", g.m, g.r), H.reals("bM", g.r, g.r), H.reals("bV", g.n, g.r))
            guard(H, "projection of factors", M.projection, p, (H.reals("U", g.m, 2), H.reals("S", 2, 2), H.reals("V", g.n, 2)))
        else:
            b = g.amb(H, p, "b")
        guard(H, "to_tangent_space", M.to_tangent_space, p, b)


def convert(H, cfg):
    g = cfg["geo"]()
    M = g.make(H)
    p = g.pt(H, "p")
    v = g.tv(H, p, "v")
    e, h = g.amb(H, p, "e"), g.amb(H, p, "h")
    guard(H, "euclidean_to_riemannian_gradient", M.euclidean_to_riemannian_gradient, p, e)
    guard(H, "euclidean_to_riemannian_hessian", M.euclidean_to_riemannian_hessian, p, e, h, v)


def wein(H, cfg):
    g = cfg["geo"]()
    M = g.make(H)
    p = g.pt(H, "p")
    v = g.tv(H, p, "v")
    guard(H, "weingarten", M.weingarten, p, v, g.amb(H, p, "n"))


def move(H, cfg):
    g, g2 = cfg["geo"](), cfg["geo"]()
    M = g.make(H)
    p = g.pt(H, "p")
    v = g.tv(H, p, "v")
    q = g2.pt(H, "q")
    guard(H, "transport", M.transport, p, q, v)


def rtv(H, cfg):
    g = cfg["geo"]()
    M = g.make(H)
    p = g.pt(H, "p")
    from .c08 import prepare_tangent
    prepare_tangent(H, g, p)
    guard(H, "random_tangent_vector", M.random_tangent_vector, p)


def retr(H, cfg):
    from .c03 import vec
    g = cfg["geo"]()
    M = g.make(H)
    p = g.pt(H, "p")
    v = vec(H, g, p, "v")
    guard(H, "retraction", M.retraction, p, v)


def geod(H, cfg):
    g = cfg["geo"]()
    M = g.make(H)
    p, v, q, d2 = data(H, g, half=True)
    guard(H, "exp", M.exp, p, v)
    guard(H, "dist", M.dist, p, q)
    guard(H, "log", M.log, p, q)
    guard(H, "pair_mean", M.pair_mean, p, q)


def stexp(H, cfg):
    g = cfg["geo"]()
    M = g.make(H)
    p = g.pt(H, "p")
    v = g.tv(H, p, "v")
    before = snap(H, [p, v])
    H.taylor(lambda t: M.exp(p, v * t), 1)
    same(H, "exp", before, [p, v])


def rpt(H, cfg):
    """successive random points are separate objects"""
    g = cfg["geo"]()
    M = g.make(H)
    p = M.random_point()
    before = snap(H, p)
    q = M.random_point()
    same(H, "random_point", before, p)


def configs(tier):
    none = lambda g: isinstance(g, (GFix, GEll, GProd)) or type(g) is GSt or g.rank() == 0 or isinstance(g, GPsd) and g.r > 1
    small = lambda g: isinstance(g, GFix) and g.r > 1 and tier == "quick"
    out = geo_configs(tier, basic, pre="metric:")
    out += geo_configs(tier, convert, pre="conversion:", skip=lambda g: isinstance(g, GFix) or isinstance(g, GPd) and g.special or
                       isinstance(g, GEll) and g.n > 2)
    out += geo_configs(tier, wein, pre="weingarten:", skip=lambda g: not (type(g) in (GSphere, GSt) or isinstance(g, GSub)))
    out += geo_configs(tier, move, pre="transport:", skip=lambda g: small(g) or isinstance(g, GBall) or isinstance(g, GEll) and g.n > 2)
    out += geo_configs(tier, rtv, pre="random tangent vector:", skip=lambda g: g.rank() == 0 or isinstance(g, GEll) and g.n > 2)
    out += geo_configs(tier, rpt, pre="random point:", skip=lambda g: isinstance(g, GPd) and g.n > 1 or isinstance(g, GOrth) and
                       g.n > 1 or isinstance(g, GFix) or isinstance(g, GSt) and g.k > 1 or isinstance(g, GSt) and g.p > 1)
    out += geo_configs(tier, retr, pre="retraction:")
    from .c03 import special
    for mk in special(tier):
        out.append(dict(name="retraction:" + mk().name, fn=retr, geo=mk))
    out += geo_configs(tier, geod, pre="geodesic:", skip=none)
    out += geo_configs(tier, stexp, pre="geodesic:", skip=lambda g: type(g) is not GSt)
    return out
