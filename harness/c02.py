"""C02: projection"""
from .geo import geo_configs, GFix, GProd, GOrth, GPd, GEuc, rdot, eye, ct, T

BOUNDS = "all real points and ambient vectors; matrices up to 3x3 (thorough 4x2), batches up to 3"
COVERS = ["*.projection", "*.to_tangent_space"]


def ambip(H, g, p, a, v):
    """inner product of an ambient vector and a tangent vector"""
    if isinstance(g, GProd):
        return sum((ambip(H, x, p[i], a[i], v[i]) for i, x in enumerate(g.gs)), 0)
    if isinstance(g, GPd):
        return g.ip(H, p, a, v)
    return rdot(H, a, g.embed(H, p, v))


def sub(a, b, g):
    if isinstance(g, GProd):
        return [sub(x, y, h) for x, y, h in zip(a, b, g.gs)]
    return a - b


def lin(H, g, a, x, y):
    if isinstance(g, GProd):
        return [lin(H, h, a, x[i], y[i]) for i, h in enumerate(g.gs)]
    return a * x + y


def flat(v):
    return list(v) if isinstance(v, (list, tuple)) else v


def proj(H, cfg):
    g = cfg["geo"]()
    M = g.make(H)
    p = g.pt(H, "p")
    A, B = g.amb(H, p, "A"), g.amb(H, p, "B")
    a = H.real("a")
    P = M.projection(p, A)
    for n, x, y in g.tan(H, p, P):
        H.eq(f"projected vector is tangent: {n}", x, y)
    H.eq("linear", flat(M.projection(p, lin(H, g, a, A, B))), flat(a * P + M.projection(p, B)))


def fixes(H, cfg):
    g = cfg["geo"]()
    M = g.make(H)
    p = g.pt(H, "p")
    A = g.amb(H, p, "A")
    v = g.tv(H, p, "v")
    H.eq("tangent vectors are unchanged", flat(M.projection(p, g.embed(H, p, v))), flat(v))
    P = M.projection(p, A)
    H.eq("removed part is orthogonal", ambip(H, g, p, sub(A, g.embed(H, p, P), g), v), H.num(0))


def vert(H, cfg):
    g = cfg["geo"]()
    M = g.make(H)
    p = g.pt(H, "p")
    w = g.vertical(H, p, "w")
    H.eq("vertical vectors are removed", M.projection(p, w), w * 0)
    v = g.tv(H, p, "v")
    H.eq("horizontal part is kept", M.projection(p, v + w), v)


def tangentialize(H, cfg):
    g = cfg["geo"]()
    M = g.make(H)
    p = g.pt(H, "p")
    v = g.tv(H, p, "v")
    H.eq("to_tangent_space keeps tangent vectors", flat(M.to_tangent_space(p, v)), flat(v))
    if isinstance(g, GFix):
        t = H.mod("pymanopt.manifolds.fixed_rank")._FixedRankTangentVector
        w = t(H.reals("a", g.m, g.r), H.reals("M", g.r, g.r), H.reals("b", g.n, g.r))
    else:
        w = g.amb(H, p, "A")
    r = M.to_tangent_space(p, w)
    for n, x, y in g.tan(H, p, r):
        H.eq(f"to_tangent_space result is tangent: {n}", x, y)


def lowrank(H, cfg):
    """ambient vectors given as (U, S, V) triples"""
    g = cfg["geo"]()
    M = g.make(H)
    p = g.pt(H, "p")
    U, S, V = H.reals("U", g.m, 2), H.reals("S", 2, 2), H.reals("V", g.n, 2)
    H.eq("factored ambient vectors", list(M.projection(p, (U, S, V))), list(M.projection(p, U @ S @ T(H, V))))
    v = g.tv(H, p, "v")
    U, S, V = M.embedding(p, v)
    H.eq("embedding represents the tangent vector", U @ S @ T(H, V), g.embed(H, p, v))
    H.eq("projection inverts the embedding", list(M.projection(p, M.embedding(p, v))), list(v))


def configs(tier):
    return (geo_configs(tier, proj) + geo_configs(tier, fixes, pre="fixed:") +
            geo_configs(tier, vert, pre="vertical:", skip=lambda g: not g.quotient) +
            geo_configs(tier, tangentialize, pre="retangent:") +
            geo_configs(tier, lowrank, pre="factored:", skip=lambda g: not isinstance(g, GFix)))
