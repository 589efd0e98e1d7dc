"""C01: metric and norm"""
from .geo import geo_configs, GFix, GProd

BOUNDS = "all real points and vectors; sizes: sphere/Stiefel/... up to 3x2 (thorough 4), batches up to 3"
COVERS = ["*.inner_product", "*.norm"]


def metric(H, cfg):
    g = cfg["geo"]()
    M = g.make(H)
    p = g.pt(H, "p")
    u, v, w = g.tv(H, p, "u"), g.tv(H, p, "v"), g.tv(H, p, "w")
    a = H.real("a")
    uv = M.inner_product(p, u, v)
    H.isreal("inner product is real", uv)
    H.check("inner product is a scalar", H.np.ndim(uv) == 0, "not a scalar")
    H.eq("inner product equals the documented metric", uv, g.ip(H, p, u, v))
    H.eq("symmetric", uv, M.inner_product(p, v, u))
    H.eq("linear", M.inner_product(p, a * u + w, v), a * uv + M.inner_product(p, w, v))
    uu = M.inner_product(p, u, u)
    H.isreal("squared norm is real", uu)
    H.eq("same vector object", uu, g.ip(H, p, u, u))
    n = M.norm(p, u)
    H.isreal("norm is real", n)
    H.check("norm is a scalar", H.np.ndim(n) == 0, "not a scalar")
    H.eq("norm squared", n * n, uu)
    H.le("norm nonnegative", H.num(0), n)


def definite(H, cfg):
    g = cfg["geo"]()
    M = g.make(H)
    p = g.pt(H, "p")
    u = g.tv(H, p, "u")
    H.le("squared length nonnegative", H.num(0), M.inner_product(p, u, u))
    z = M.zero_vector(p)
    H.eq("zero vector has norm zero", M.norm(p, z), H.num(0))
    H.eq("zero vector is orthogonal to everything", M.inner_product(p, z, u), H.num(0))


def configs(tier):
    return geo_configs(tier, metric) + geo_configs(tier, definite, pre="definite:")
