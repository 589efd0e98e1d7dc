"""C28: retractions of second order"""
from .geo import *  # noqa
from .c03 import vec

BOUNDS = ("second Taylor coefficient of t -> retraction(p, t v) at zero, all real points and tangent vectors (polar retractions with two columns: all "
          "tangent vectors, through their singular frame; fixed rank, where the retraction is compared with the closest matrix of that rank: rank one, and rank two along vectors with aligned factors); sizes up to 3x2, batches of 2 and 3")
COVERS = ["*.retraction", "*._retraction_polar", "*._normalize*"]


def second(H, cfg):
    g = cfg["geo"]()
    M = g.make(H)
    p = g.pt(H, "p")
    v = vec(H, g, p, "v")
    tol = 1e-4
    if isinstance(g, GFix):
        # the closest matrix of the given rank, hence of second order [AM2012]
        q = M.retraction(p, v)
        U, s, Vt = q
        E = g.full(H, p) + g.embed(H, p, v) - g.full(H, q)
        a, b = T(H, U) @ E, E @ T(H, Vt)
        H.eq("remainder is normal (left)", a, a * 0)
        H.eq("remainder is normal (right)", b, b * 0)
        return H.le("no other rank-one part is larger", rdot(H, E, E), s[g.r - 1] * s[g.r - 1] * g.r)
    R = lambda t: M.retraction(p, t * v)
    if isinstance(g, GGr):
        # only the class of the point counts: compare R R^H with that of the geodesic
        def f(t):
            q = R(t)
            return q @ ct(H, q)
        c = H.taylor(f, 2)
        A = v @ ct(H, v)
        B = p @ (ct(H, v) @ v) @ ct(H, p)
        return H.eq("second coefficient is that of the geodesic", c[2], A - B, tol)
    c = H.taylor(R, 2)
    w = c[2]
    if isinstance(g, GPos):
        return H.eq("second coefficient is that of the geodesic", w, v * v / p / 2, tol)
    if isinstance(g, GPd):
        if g.k == 1:
            ref = v @ g.pinv(H, p) @ v / 2
        else:
            ref = stack(H, [v[i] @ g.pinv(H, p[i]) @ v[i] / 2 for i in range(g.k)])
        return H.eq("second coefficient is that of the geodesic", w, ref, tol)
    if isinstance(g, GOrth):
        # left-trivialised vectors: X^H c2 has no skew part
        a = ct(H, p) @ w
        return H.eq("acceleration is normal", a, ct(H, a), tol)
    if isinstance(g, GSt):
        a = ct(H, p) @ w
        H.eq("acceleration is normal (rotation)", a, ct(H, a), tol)
        return H.eq("acceleration is normal (complement)", w, p @ a, tol)
    if isinstance(g, GSphere):
        return H.eq("acceleration is normal", w, p * rdot(H, p, w), tol)
    if isinstance(g, GObl):
        return H.eq("acceleration is normal", w, p * H.np.sum(p * w, axis=0), tol)
    if isinstance(g, GCirc):
        a = H.np.conj(p) * w
        return H.eq("acceleration is normal", H.np.imag(a), H.np.imag(a) * 0, tol)
    if isinstance(g, (GEuc, GSym)):
        return H.eq("straight line", w, w * 0, tol)
    raise TypeError(g)


def configs(tier):
    from .c03 import special
    no = lambda g: isinstance(g, (GBall, GPsd, GEll, GProd, GSub)) or type(g) is GSt or isinstance(g, GOrth) or g.rank() == 0
    out = geo_configs(tier, second, skip=no)
    for mk in special(tier):
        out.append(dict(name=mk().name, fn=second, geo=mk))
    return out
