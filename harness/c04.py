"""C04: exponential map, logarithm and distance"""
from .geo import *  # noqa
from .geodesic import data

BOUNDS = ("all real base points, directions and lengths inside the injectivity radius (angles below 3.14); sizes up to 3x2, "
          "batches of 2; Stiefel exponential: geodesic equation up to fourth order in the step")
COVERS = ["*.exp", "*.log", "*.dist"]


def expo(H, cfg):
    g = cfg["geo"]()
    M = g.make(H)
    p, v, q, d2 = data(H, g)
    e = M.exp(p, v)
    g.same(H, "exponential follows the geodesic", e, q)
    for n, x, y in g.on(H, e):
        H.eq(f"exponential stays on the manifold: {n}", x, y)


def expzero(H, cfg):
    g = cfg["geo"]()
    M = g.make(H)
    p, v, q, d2 = data(H, g)
    g.same(H, "exponential of the zero vector", M.exp(p, M.zero_vector(p)), p)


def loga(H, cfg):
    g = cfg["geo"]()
    M = g.make(H)
    p, v, q, d2 = data(H, g)
    w = M.log(p, q)
    H.eq("logarithm inverts the exponential", w, v)
    for n, x, y in g.tan(H, p, w):
        H.eq(f"logarithm is tangent: {n}", x, y)


def dista(H, cfg):
    g = cfg["geo"]()
    M = g.make(H)
    p, v, q, d2 = data(H, g)
    d = M.dist(p, q)
    H.isreal("distance is real", d)
    H.check("distance is a scalar", H.np.ndim(d) == 0, "not a scalar")
    H.eq("distance is the length of the geodesic", d * d, d2)
    H.le("distance is nonnegative", H.num(0), d)
    H.eq("distance is the length of the tangent vector", M.norm(p, v), d)


def distb(H, cfg):
    g = cfg["geo"]()
    M = g.make(H)
    p, v, q, d2 = data(H, g)
    d = M.dist(q, p)
    H.eq("distance is symmetric", d * d, d2)
    H.le("reversed distance is nonnegative", H.num(0), d)


def distz(H, cfg):
    g = cfg["geo"]()
    M = g.make(H)
    if isinstance(g, GPsd) and g.r > 1:
        # p = F diag(s) W^H: the decomposition of p^H p is known to the engine
        F, W = orth(H, "F", g.n, g.r, cx=g.cx), orth(H, "W", g.r, g.r, cx=g.cx)
        sv = H.np.array([H.pos(f"s{j}", span=1.5) for j in range(g.r)])
        p = (F[:, :g.r] * sv) @ ct(H, W)
        H.svdreg(W, sv * sv, W)
    else:
        p, v, q, d2 = data(H, g)
    H.eq("distance of a point to itself", M.dist(p, p * 1), H.num(0))


def stiefel(H, cfg):
    """Taylor expansion of t -> exp(p, t v) against the geodesic equation
    g'' + g (g'^T g') = 0 and the constraint g^T g = I"""
    g = cfg["geo"]()
    M = g.make(H)
    p = g.pt(H, "p")
    v = g.tv(H, p, "v")
    N = cfg["order"]
    c = H.taylor(lambda t: M.exp(p, v * t), N)
    c = [H.np.array(x) for x in c]
    tol = 1e-4
    H.eq("starts at the point", c[0], p, tol)
    H.eq("with the given velocity", c[1], v, tol)
    I = eye(H, g.p) if g.k == 1 else stack(H, [eye(H, g.p)] * g.k)
    for n in range(N + 1):
        s = 0
        for a in range(n + 1):
            s = s + T(H, c[a]) @ c[n - a]
        H.eq(f"stays on the manifold, order {n}", s, I if n == 0 else I * 0, tol)
    for n in range(N - 1):
        # coefficient n of g'' and of g (g'^T g')
        s = (n + 2) * (n + 1) * c[n + 2]
        for a in range(n + 1):
            for b in range(n + 1 - a):
                e = n - a - b
                s = s + c[a] @ T(H, (b + 1) * c[b + 1]) @ ((e + 1) * c[e + 1])
        H.eq(f"geodesic equation, order {n}", s, c[0] * 0, tol)


def circle_mixed(H, cfg):
    """one zero component"""
    g = cfg["geo"]()
    M = g.make(H)
    p, v, q, d2 = data(H, g)
    v0 = H.carr([v[0], 0 * v[1]])
    e = M.exp(p, v0)
    H.eq("exponential with a zero component", e, H.carr([q[0], p[1]]))


def configs(tier):
    none = lambda g: isinstance(g, (GFix, GEll, GProd)) or type(g) is GSt or g.rank() == 0
    noq = lambda g: none(g) or isinstance(g, GPsd) and False
    if tier == "quick":
        big = lambda g: isinstance(g, GGr) and g.p > 1 and g.n > 3
    else:
        big = lambda g: False
    out = []
    for nm, f in (("exp", expo), ("exp zero", expzero), ("log", loga), ("dist", dista), ("dist reversed", distb),
                  ("dist self", distz)):
        # eps is a number, not an infinitesimal, where zero is promised
        k = dict(opts=dict(eps="exact")) if f is distz else {}
        out += geo_configs(tier, f, pre=nm + ":", skip=lambda g: noq(g) or big(g), **k)
    for n, p, k, o in [(2, 1, 1, 4), (3, 1, 1, 4), (2, 2, 1, 4), (3, 2, 1, 3), (2, 1, 2, 4)] + \
            ([(3, 2, 1, 4), (4, 2, 1, 3), (3, 3, 1, 3), (2, 2, 2, 4)] if tier != "quick" else []):
        mk = lambda n=n, p=p, k=k: GSt(n, p, k)
        out.append(dict(name=f"exp:{mk().name} order {o}", fn=stiefel, geo=mk, order=o))
    for n, p, cx in [(3, 2, False), (3, 2, True), (4, 2, False), (4, 2, True)]:
        mk = lambda n=n, p=p, cx=cx: fixed(GGr(n, p, cx=cx))
        for nm, f in (("exp", expo), ("log", loga), ("dist", dista)):
            out.append(dict(name=f"{nm}:{mk().name}", fn=f, geo=mk))
    out.append(dict(name="exp:circle(2) zero component", fn=circle_mixed, geo=lambda: GCirc(2)))
    return out
