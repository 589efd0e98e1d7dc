"""C05: Euclidean gradient -> Riemannian gradient"""
from .geo import geo_configs, GFix, GProd, GPsd, GEll, rdot, symm, ct, T

BOUNDS = "all real points, Euclidean gradients and tangent vectors; matrices up to 3x3 (thorough 4x2), batches up to 3"
COVERS = ["*.euclidean_to_riemannian_gradient", "*.projection"]


def egrad(H, g, p, tag):
    """Euclidean gradient in the representation users supply, and the pairing
    with an (embedded) tangent vector"""
    if isinstance(g, GProd):
        xs = [egrad(H, x, p[i], f"{tag}{i}_") for i, x in enumerate(g.gs)]
        return [x[0] for x in xs], lambda v: sum((x[1](v[i]) for i, x in enumerate(xs)), 0)
    if isinstance(g, GFix):
        # cost F(u diag(s) vt) with gradient C in matrix space
        C = H.reals(tag + "C", g.m, g.n)
        u, s, vt = p
        du = C @ T(H, vt) * s
        core = T(H, u) @ C @ T(H, vt)
        ds = H.np.array([core[i, i] for i in range(g.r)])
        dvt = (T(H, u * s)) @ C
        return (du, ds, dvt), lambda v: rdot(H, C, g.embed(H, p, v))
    if isinstance(g, (GPsd, GEll)):
        # cost f(Y Y^H): gradient S Y, S Hermitian
        E = symm(H, tag + "S", g.n, g.cx) @ p
    else:
        E = g.amb(H, p, tag)
    return E, lambda v: rdot(H, E, g.embed(H, p, v))


def grad(H, cfg):
    g = cfg["geo"]()
    M = g.make(H)
    p = g.pt(H, "p")
    E, pair = egrad(H, g, p, "E")
    v = g.tv(H, p, "v")
    r = M.euclidean_to_riemannian_gradient(p, E)
    for n, x, y in g.tan(H, p, r):
        H.eq(f"gradient is tangent: {n}", x, y)
    H.eq("gradient represents the differential", g.ip(H, p, r, v), pair(v))
    H.eq("with the library's own metric", M.inner_product(p, r, v), pair(v))


def configs(tier):
    return geo_configs(tier, grad)
