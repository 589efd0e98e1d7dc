"""C06: Euclidean Hessian -> Riemannian Hessian.  The reference is the
covariant derivative of the Riemannian gradient field, computed analytically
from the first and second order data (gradient E, derivative D along v)."""
from .geo import (geo_configs, GFix, GProd, GPsd, GEll, GEuc, GSym, GSphere, GSub, GObl, GCirc, GSt, GGr, GOrth, GPos, GPd,
                  GBall, rdot, symm, herm, skewh, ct, T, inv2, stack, rmat)

BOUNDS = "all real points, Euclidean gradients, Hessians and tangent vectors; matrices up to 3x3 (thorough 4x2), batches up to 3"
COVERS = ["*.euclidean_to_riemannian_hessian", "*.weingarten"]


def colsum(H, a):
    return H.np.sum(a, axis=0)


def rowdot(H, a, b):
    return H.np.sum(a * b, axis=1)[:, None]


def rproj(H, g, p, A):
    """reference projection"""
    if isinstance(g, GSym):
        return (A - T(H, A)) / 2 if g.sk else (A + T(H, A)) / 2
    if isinstance(g, GEuc):
        return A
    if isinstance(g, GSub):
        B = g.B(H)
        A = B @ (T(H, B) @ A)
        return A - p * rdot(H, p, A)
    if isinstance(g, GSphere):
        return A - p * rdot(H, p, A)
    if isinstance(g, GObl):
        return A - p * colsum(H, p * A)
    if isinstance(g, GCirc):
        return A - p * H.np.real(H.np.conj(p) * A)
    if isinstance(g, GGr):
        return A - p @ (ct(H, p) @ A)
    if isinstance(g, GSt):
        return A - p @ herm(H, ct(H, p) @ A)
    if isinstance(g, GOrth):
        return skewh(H, ct(H, p) @ A)
    raise TypeError(g)


def dproj(H, g, p, v, A):
    """derivative of the (ambient-valued) projection along the ambient vector v"""
    if isinstance(g, (GSym, GEuc)):
        return A * 0
    if isinstance(g, GSub):
        B = g.B(H)
        A = B @ (T(H, B) @ A)
    if isinstance(g, (GSphere, GSub)):
        return -v * rdot(H, p, A) - p * rdot(H, v, A)
    if isinstance(g, GObl):
        return -v * colsum(H, p * A) - p * colsum(H, v * A)
    if isinstance(g, GCirc):
        return -v * H.np.real(H.np.conj(p) * A) - p * H.np.real(H.np.conj(v) * A)
    if isinstance(g, GGr):
        return -v @ (ct(H, p) @ A) - p @ (ct(H, v) @ A)
    if isinstance(g, GSt):
        return -v @ herm(H, ct(H, p) @ A) - p @ herm(H, ct(H, v) @ A)
    if isinstance(g, GOrth):
        return v @ skewh(H, ct(H, p) @ A) + p @ skewh(H, ct(H, v) @ A)
    raise TypeError(g)


def reference(H, g, M, p, v, E, D):
    """covariant derivative of grad f along v"""
    if isinstance(g, GPos):
        dg = 2 * p * v * E + p * p * D                  # d(x^2 E)
        return dg - v * (p * p * E) / p
    if isinstance(g, GPd):
        if g.k > 1:
            return stack(H, [_spd(H, p[i], v[i], E[i], D[i]) for i in range(g.k)])
        return _spd(H, p, v, E, D)
    if isinstance(g, GBall):
        lam = g.lam(H, p)
        xi = E / lam ** 2
        xv = H.np.sum(p * v, axis=-1, keepdims=True)
        dlam = lam ** 2 * xv                            # lam = 2/(1-|x|^2)
        dxi = D / lam ** 2 - 2 * E * dlam / lam ** 3
        gl = lam * p                                    # gradient of log lam
        s = lambda a, b: H.np.sum(a * b, axis=-1, keepdims=True)
        return dxi + s(v, gl) * xi + s(xi, gl) * v - s(v, xi) * gl
    if isinstance(g, GPsd):
        return None
    if isinstance(g, GProd):
        return [reference(H, x, None, p[i], v[i], E[i], D[i]) for i, x in enumerate(g.gs)]
    a = g.embed(H, p, v)
    return rproj(H, g, p, dproj(H, g, p, a, E) + (D if not isinstance(g, GOrth) else p @ skewh(H, ct(H, p) @ D)))


def _spd(H, p, v, E, D):
    S, SD = herm(H, E), herm(H, D)
    pi = inv2(H, p)
    xi = p @ S @ p
    dxi = v @ S @ p + p @ S @ v + p @ SD @ p
    return dxi - (v @ pi @ xi + xi @ pi @ v) / 2


def data(H, g, p, tag):
    if isinstance(g, GProd):
        return [data(H, x, p[i], f"{tag}{i}_") for i, x in enumerate(g.gs)]
    return g.amb(H, p, tag)


def flat(v):
    return list(v) if isinstance(v, (list, tuple)) else v


def hess(H, cfg):
    g = cfg["geo"]()
    M = g.make(H)
    p = g.pt(H, "p")
    v = g.tv(H, p, "v")
    E, D = data(H, g, p, "E"), data(H, g, p, "D")
    r = M.euclidean_to_riemannian_hessian(p, E, D, v)
    ref = reference(H, g, M, p, v, E, D)
    H.eq("Hessian equals the covariant derivative of the gradient", flat(r), flat(ref))
    for n, x, y in g.tan(H, p, r):
        H.eq(f"tangent: {n}", x, y)


def inner(H, cfg):
    """quotients of matrix space: the horizontal part of the derivative of the
    horizontal lift of the gradient, tested against every horizontal vector;
    the cost is f(Y Y^H), with gradient S Y and derivative S V + dS Y"""
    g = cfg["geo"]()
    M = g.make(H)
    p = g.pt(H, "p")
    v, w = g.tv(H, p, "v"), g.tv(H, p, "w")
    S, dS = symm(H, "S", g.n, g.cx), symm(H, "U", g.n, g.cx)
    E = S @ p
    D = S @ v + dS @ p
    r = M.euclidean_to_riemannian_hessian(p, E, D, v)
    for n, x, y in g.tan(H, p, r):
        H.eq(f"tangent: {n}", x, y)
    if isinstance(g, GEll):
        dg = D - v * rowdot(H, E, p) - p * (rowdot(H, E, v) + rowdot(H, D, p))
    else:
        dg = D
    H.eq("Hessian is the horizontal part of the derivative of the gradient", rdot(H, r, w), rdot(H, dg, w))


def form(H, cfg):
    """bilinear form: linear and self-adjoint for E fixed, D = L v with L symmetric"""
    g = cfg["geo"]()
    M = g.make(H)
    p = g.pt(H, "p")
    v, w = g.tv(H, p, "v"), g.tv(H, p, "w")
    if isinstance(g, (GPsd, GEll)):
        # f(Y Y^H) with Hessian of f a rank-one operator c <C,.> C
        S, C = symm(H, "S", g.n, g.cx), symm(H, "C", g.n, g.cx)
        E = S @ p
        D = (lambda u: S @ u) if g.n > 2 else \
            lambda u: S @ u + C @ p * rdot(H, C, u @ ct(H, p) + p @ ct(H, u))
    elif isinstance(g, GGr):
        # invariant cost <C, X X^H> + <A, X X^H>^2 / 2
        A, C = symm(H, "A", g.n, g.cx), symm(H, "C", g.n, g.cx)
        if g.k > 1:
            A, C = stack(H, [A] * g.k), stack(H, [C] * g.k)
        if g.cx and (g.k > 1 or g.n > 2):
            A = A * 0
        ac = rdot(H, A, p @ ct(H, p))
        E = 2 * (C @ p) + 2 * (A @ p) * ac
        D = lambda u: 2 * (C @ u) + 2 * (A @ u) * ac + 2 * (A @ p) * rdot(H, A, u @ ct(H, p) + p @ ct(H, u))
    else:
        E, C = data(H, g, p, "E"), data(H, g, p, "C")
        D = lambda u: C * rdot(H, C, g.embed(H, p, u))
    h = lambda u: M.euclidean_to_riemannian_hessian(p, E, D(u), u)
    H.eq("self-adjoint", g.ip(H, p, h(v), w), g.ip(H, p, v, h(w)))
    a = H.real("a")
    H.eq("linear", flat(h(a * v + w)), flat(a * h(v) + h(w)))


def wein(H, cfg):
    g = cfg["geo"]()
    M = g.make(H)
    p = g.pt(H, "p")
    v = g.tv(H, p, "v")
    A = g.amb(H, p, "A")
    N = A - rproj(H, g, p, A)
    H.eq("Weingarten map is the derivative of the projector on the normal vector",
         M.weingarten(p, v, N), rproj(H, g, p, dproj(H, g, p, v, N)))


def nohess(g):
    return isinstance(g, GFix) or isinstance(g, GPd) and g.special


def configs(tier):
    return (geo_configs(tier, hess, skip=lambda g: nohess(g) or isinstance(g, (GPsd, GEll))) +
            geo_configs(tier, inner, skip=lambda g: not isinstance(g, (GPsd, GEll))) +
            geo_configs(tier, form, pre="form:", skip=lambda g: nohess(g) or isinstance(g, GProd) or isinstance(g, GEll) and g.n > 2) +
            geo_configs(tier, wein, pre="weingarten:",
                        skip=lambda g: not (type(g) is GSphere or type(g) is GSt or isinstance(g, GSub))))
