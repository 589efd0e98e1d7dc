"""C03: retractions"""
from .geo import *  # noqa
from . import geo as G_

BOUNDS = ("all real points and tangent vectors (polar retractions with two columns: all tangent vectors, through their singular "
          "frame; fixed rank: rank one, and rank two along vectors with aligned factors); sizes up to 3x2")
COVERS = ["*.retraction", "*._retraction_qr", "*._retraction_polar", "*._normalize*", "*.exp"]


def flat(v):
    return list(v) if isinstance(v, (list, tuple)) else v


def polar_vec(H, g, p, tag):
    """all tangent vectors with the eigenvectors of V^H V known to the engine"""
    out = []
    Qs = g.Qs(p) if isinstance(g, GSt) else None
    for i in range(g.k):
        t = f"{tag}k{i}_"
        if isinstance(g, GOrth):
            out.append(alg(H, t, g.n, g.cx))
            continue
        Q, n, q = Qs[i], g.n, g.p
        r = n - q
        if q == 1:
            v = Q[:, :0] @ H.np.zeros((0, 1)) if False else Q[:, :1] * 0
            if isinstance(g, GSt) and not isinstance(g, GGr) or not r:
                pass
            if r:
                v = v + Q[:, 1:] @ rmat(H, t + "B", r, 1, cx=g.cx)
            out.append(v)
            continue
        if q == 2:
            W = orth(H, t + "W", 2, cx=g.cx)
            H.frame(W)
            if r >= 2:
                # B = U diag(b) W^H
                U = orth(H, t + "U", r, 2, cx=g.cx)[:, :2]
                B = (U * H.arr([H.real(t + "b0"), H.real(t + "b1")])) @ ct(H, W)
            elif r == 1:
                B = H.np.stack([W[:, 0] * H.real(t + "b0")]).conj()
            v = Q[:, :2] * 0
            if r:
                v = v + Q[:, 2:] @ B
            if not isinstance(g, GGr):
                a = H.real(t + "a")
                v = v + Q[:, :2] @ H.arr([[0, a], [-a, 0]])
            out.append(v)
            continue
        # square Stiefel, q = 3
        out.append(Q[:, :3] @ alg(H, t, 3, g.cx))
    return out[0] if g.k == 1 else stack(H, out)


def alg(H, t, n, cx):
    """generic skew-Hermitian matrix with known eigenvectors"""
    if cx:
        W = orth(H, t + "W", n, cx=True) if n > 1 else H.carr([[1]])
        if n > 1:
            H.frame(W)
        return (W * H.carr([H.cx(0, H.real(f"{t}a{j}")) for j in range(n)])) @ ct(H, W)
    if n <= 2:
        return skew(H, t, n)
    F = orth(H, t + "F", 3, 2, det=True)
    H.frame(F)
    a = H.real(t + "a")
    return F @ H.arr([[0, 0, 0], [0, 0, -a], [0, a, 0]]) @ T(H, F)


def vec(H, g, p, tag):
    if isinstance(g, GGr) or isinstance(g, (GSt, GOrth)) and g.retr == "polar":
        return polar_vec(H, g, p, tag)
    if isinstance(g, GProd):
        return g.TV(H, [vec(H, x, p[i], f"{tag}{i}_") for i, x in enumerate(g.gs)])
    if isinstance(g, GFix) and g.r > 1:
        # aligned factors: diagonal M, Up and Vp acting on the same singular direction
        m = H.mod(PK + "fixed_rank")
        U, V = g.UV(p)
        e = H.arr([[1] + [0] * (g.r - 1)])
        Up = U[:, g.r:g.r + 1] @ (e * H.real(tag + "a")) if g.m > g.r else U[:, :g.r] * 0
        Vp = V[:, g.r:g.r + 1] @ (e * H.real(tag + "b")) if g.n > g.r else V[:, :g.r] * 0
        D = H.arr([[H.real(f"{tag}d{i}", -1) if i == j else 0 for j in range(g.r)] for i in range(g.r)])
        return m._FixedRankTangentVector(Up, D, Vp)
    return g.tv(H, p, tag)


def on(H, cfg):
    g = cfg["geo"]()
    M = g.make(H)
    p = g.pt(H, "p")
    v = vec(H, g, p, "v")
    q = M.retraction(p, v)
    for n, x, y in g.on(H, q):
        H.eq(f"retracted point on the manifold: {n}", x, y)
    for n, x in g.pos(H, q):
        H.lt(f"retracted point on the manifold: {n}", H.num(0), x)
    z = M.retraction(p, M.zero_vector(p))
    g.same(H, "zero vector is retracted to the point itself", z, p)
    for n, x, y in g.on(H, z):
        H.eq(f"retraction of zero: {n}", x, y)


def first(H, cfg):
    g = cfg["geo"]()
    M = g.make(H)
    p = g.pt(H, "p")
    v = vec(H, g, p, "v")
    if g.quotient:
        d = H.deriv(lambda t: M.retraction(p, t * v))
        z = M.retraction(p, v * 0)
        # only the class of the point counts: compare derivatives of R R^H
        H.eq("derivative at zero is the tangent vector", z @ ct(H, d) + d @ ct(H, z), v @ ct(H, p) + p @ ct(H, v))
    elif isinstance(g, GFix):
        d = H.deriv(lambda t: g.full(H, M.retraction(p, t * v)))
        H.eq("derivative at zero is the tangent vector", d, g.embed(H, p, v))
    else:
        d = H.deriv(lambda t: M.retraction(p, t * v))
        H.eq("derivative at zero is the tangent vector", flat(d), flat(g.embed(H, p, v)))


def spd_on(H, cfg):
    """positive definiteness in the coordinates of the Cholesky factor"""
    g = cfg["geo"]()
    M = g.make(H)
    p = g.pt(H, "p")
    Ls = g.Ls(p)
    vs = []
    for i, L in enumerate(Ls):
        S = symm(H, f"vk{i}", g.n, g.cx)
        if g.special:
            S = S - H.carr(eye(H, g.n)) * (tr(S) / g.n)
        vs.append(L @ S @ ct(H, L))
    v = vs[0] if g.k == 1 else stack(H, vs)
    q = M.retraction(p, v)
    for i, L in enumerate(Ls):
        Li = H.carr(trilinv(H, L)) if g.cx else H.arr(trilinv(H, L))
        C = Li @ (q if g.k == 1 else q[i]) @ ct(H, Li)
        H.eq("Hermitian", C, ct(H, C))
        H.lt("first minor positive", H.num(0), H.np.real(C[0, 0]), 0)
        if g.n > 1:
            H.lt("determinant positive", H.num(0), H.np.real(det(C)), 0)
    if g.special:
        for n, x, y in g.on(H, q):
            H.eq(f"on the manifold: {n}", x, y)
    z = M.retraction(p, M.zero_vector(p))
    H.eq("zero vector is retracted to the point itself", z, p)


def ball(H, cfg):
    """v = (2 tau / lambda) u with unit u"""
    g = cfg["geo"]()
    M = g.make(H)
    p = g.pt(H, "p")
    lam = g.lam(H, p)
    u = unit(H, g)
    tau = H.pos("tau", span=1)
    q = M.retraction(p, u * (2 * tau) / lam)
    for n, x in g.pos(H, q):
        H.lt(f"retracted point {n}", H.num(0), x)
    z = M.retraction(p, M.zero_vector(p))
    H.eq("zero vector is retracted to the point itself", z, p)
    d = H.deriv(lambda t: M.retraction(p, u * (2 * t) / lam), pos=True)
    H.eq("derivative at zero is the tangent vector", d, u * 2 / lam)


def unit(H, g):
    us = []
    for i in range(g.k):
        if g.n == 1:
            us.append(H.arr([H.sign(f"u{i}")]))
        else:
            us.append(orth(H, f"u{i}", g.n, 1)[:, 0])
    return us[0] if g.k == 1 else stack(H, us)


def special(tier):
    q = [lambda: GSt(2, 1, retr="polar"), lambda: GSt(3, 1, retr="polar"), lambda: GSt(2, 2, retr="polar"),
         lambda: GSt(3, 2, retr="polar"), lambda: GSt(2, 1, 2, retr="polar"),
         lambda: GOrth(2, retr="polar"), lambda: GOrth(1, cx=True, retr="polar"), lambda: GOrth(2, 2, retr="polar")]
    t = [lambda: GOrth(3, retr="polar"), lambda: GOrth(2, cx=True, retr="polar"), lambda: GSt(4, 2, retr="polar"),
         lambda: GSt(3, 3, retr="polar"), lambda: GSt(2, 2, 2, retr="polar")]
    return q if tier == "quick" else q + t


def configs(tier):
    sk = lambda g: isinstance(g, (GPd, GBall)) and not (isinstance(g, GPd) and False)
    out = geo_configs(tier, on, skip=sk)
    out += geo_configs(tier, first, pre="first order:", skip=lambda g: isinstance(g, GBall))
    out += geo_configs(tier, spd_on, skip=lambda g: not isinstance(g, GPd))
    out += geo_configs(tier, ball, skip=lambda g: not isinstance(g, GBall))
    for mk in special(tier):
        out.append(dict(name=mk().name, fn=on, geo=mk))
        out.append(dict(name="first order:" + mk().name, fn=first, geo=mk))
    return out
