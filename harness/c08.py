"""C08: random points and tangent vectors"""
from .geo import *  # noqa

BOUNDS = ("all outcomes of the random generator (normal draws: all reals, uniform draws: the open unit interval) outside the null set "
          "where a norm or pivot vanishes; all points; sizes up to 3x2, batches of 2")
COVERS = ["*.random_point", "*.random_tangent_vector"]


def upper(H, tag, n, cx):
    """upper triangular with positive diagonal"""
    R = [[(H.pos(f"{tag}d{i}", span=1.5) if i == j else
           (H.cx(H.real(f"{tag}r{i}{j}"), H.real(f"{tag}i{i}{j}")) if cx else H.real(f"{tag}r{i}{j}")) if i < j else 0)
          for j in range(n)] for i in range(n)]
    return H.carr(R) if cx else H.arr(R)


def prepare_point(H, g):
    """draw square matrices as Q R: every invertible matrix is reached"""
    if isinstance(g, GPd) and g.n > 1:
        A = orth(H, "Q", g.n, cx=True) @ upper(H, "R", g.n, True)
        H.draws(H.np.real(A), H.np.imag(A))
    elif isinstance(g, GOrth) and not g.cx and g.n > 2:
        H.draws(*[orth(H, f"Q{i}", g.n) @ upper(H, f"R{i}", g.n, False) for i in range(g.k)])


def prepare_tangent(H, g, p):
    """draw vectors in an orthonormal frame of the point: every vector is reached"""
    if type(g) is GSt and g.p > 1:
        H.draws(*[Q @ H.reals(f"C{i}", g.n, g.p) for i, Q in enumerate(g.Qs(p))])
    elif isinstance(g, GFix) and g.r > 1:
        U, V = g.UV(p)
        H.draws(U @ H.reals("C", g.m, g.r), V @ H.reals("D", g.n, g.r))


def point(H, cfg):
    g = cfg["geo"]()
    M = g.make(H)
    prepare_point(H, g)
    for rep in range(cfg.get("reps", 1)):
        p = M.random_point()
        if not isinstance(g, (GFix, GProd)):
            H.check("random point has the documented shape", tuple(p.shape) == tuple(g.shape()), f"shape {p.shape}")
        for n, x, y in g.on(H, p):
            H.eq(f"random point is on the manifold: {n}", x, y)
        for n, x in g.pos(H, p):
            H.lt(f"random point is on the manifold: {n}", H.num(0), x)


def flat(v):
    return list(v) if isinstance(v, (list, tuple)) else v


def tangent(H, cfg):
    g = cfg["geo"]()
    M = g.make(H)
    p = g.pt(H, "p")
    prepare_tangent(H, g, p)
    v = M.random_tangent_vector(p)
    for n, x, y in g.tan(H, p, v):
        H.eq(f"random tangent vector is tangent: {n}", x, y)
    H.eq("random tangent vector has unit norm", g.ip(H, p, v, v), H.num(1))


def configs(tier):
    out = geo_configs(tier, point, pre="point:", skip=lambda g: getattr(g, "fixed", False))
    out += geo_configs(tier, tangent, pre="tangent:", skip=lambda g: g.rank() == 0 or isinstance(g, GEll) and g.n > 2)
    return out
