"""C14: batched operations against slices"""
from .geo import *  # noqa
from .geodesic import data

BOUNDS = ("all points, vectors and matrices; batches of 1 to 3 matrices of size up to 3x2 in the helpers, batches of 2 (3 in the thorough "
          "tier) in the manifolds")
TOOLS = "pymanopt.tools.multi"


# ------------------------------------------------------------------ manifolds
def one(g):
    """the same manifold with a single copy, and the axis of the copies"""
    if isinstance(g, GSym):
        return GSym(g.n, 1, g.sk), 0
    if isinstance(g, GGr):
        return GGr(g.n, g.p, 1, g.cx), 0
    if isinstance(g, GSt):
        return GSt(g.n, g.p, 1, g.retr), 0
    if isinstance(g, GOrth):
        return GOrth(g.n, 1, g.cx, g.retr), 0
    if isinstance(g, GPos):
        return GPos(g.m, g.n, 1, g.par), 0
    if isinstance(g, GPd):
        return GPd(g.n, 1, g.cx, g.special), 0
    if isinstance(g, GBall):
        return GBall(g.n, 1), 0
    if isinstance(g, GObl):
        return GSphere(g.m), 1
    if isinstance(g, GCirc):
        return GCirc(1), 2


def copies(g):
    return g.n if isinstance(g, (GObl, GCirc)) else g.k


def cut(H, ax, x, i):
    return x[i] if ax == 0 else x[:, i] if ax == 1 else x[i:i + 1]


def setup(H, cfg):
    g = cfg["geo"]()
    h, ax = one(g)
    return g, g.make(H), h.make(H), ax, range(copies(g))


def each(H, name, g, ax, r, f):
    """batched result r against f(i) for every copy"""
    for i in range(copies(g)):
        want = f(i)
        H.eq(f"{name} acts on every copy separately", cut(H, ax, r, i), want)


def basic(H, cfg):
    g, M, N, ax, R = setup(H, cfg)
    p = g.pt(H, "p")
    v, w = g.tv(H, p, "v"), g.tv(H, p, "w")
    c = lambda x, i: cut(H, ax, x, i)
    s = sum((N.inner_product(c(p, i), c(v, i), c(w, i)) for i in R), H.num(0))
    H.eq("inner product is the sum over copies", M.inner_product(p, v, w), s)
    n = M.norm(p, v)
    H.eq("squared norm is the sum over copies", n * n, sum((N.norm(c(p, i), c(v, i)) ** 2 for i in R), H.num(0)))
    a = g.amb(H, p, "a")
    each(H, "projection", g, ax, M.projection(p, a), lambda i: N.projection(c(p, i), c(a, i)))
    each(H, "to_tangent_space", g, ax, M.to_tangent_space(p, a), lambda i: N.to_tangent_space(c(p, i), c(a, i)))
    each(H, "embedding", g, ax, M.embedding(p, v), lambda i: N.embedding(c(p, i), c(v, i)))
    each(H, "zero_vector", g, ax, M.zero_vector(p), lambda i: N.zero_vector(c(p, i)))
    H.eq("dimension is the number of copies times that of one copy", H.num(M.dim), H.num(N.dim) * len(R))


def convert(H, cfg):
    g, M, N, ax, R = setup(H, cfg)
    p = g.pt(H, "p")
    v = g.tv(H, p, "v")
    e, h = g.amb(H, p, "e"), g.amb(H, p, "h")
    c = lambda x, i: cut(H, ax, x, i)
    each(H, "gradient conversion", g, ax, M.euclidean_to_riemannian_gradient(p, e),
         lambda i: N.euclidean_to_riemannian_gradient(c(p, i), c(e, i)))
    if not (isinstance(g, GPd) and g.special):
        each(H, "Hessian conversion", g, ax, M.euclidean_to_riemannian_hessian(p, e, h, v),
             lambda i: N.euclidean_to_riemannian_hessian(c(p, i), c(e, i), c(h, i), c(v, i)))
    if type(g) is GSt:
        each(H, "weingarten", g, ax, M.weingarten(p, v, h), lambda i: N.weingarten(c(p, i), c(v, i), c(h, i)))


def move(H, cfg):
    g, M, N, ax, R = setup(H, cfg)
    g2 = cfg["geo"]()
    p = g.pt(H, "p")
    v = g.tv(H, p, "v")
    q = g2.pt(H, "q")
    c = lambda x, i: cut(H, ax, x, i)
    each(H, "transport", g, ax, M.transport(p, q, v), lambda i: N.transport(c(p, i), c(q, i), c(v, i)))


def retr(H, cfg):
    from .c03 import vec
    g, M, N, ax, R = setup(H, cfg)
    p = g.pt(H, "p")
    v = vec(H, g, p, "v")
    c = lambda x, i: cut(H, ax, x, i)
    each(H, "retraction", g, ax, M.retraction(p, v), lambda i: N.retraction(c(p, i), c(v, i)))


def put(H, ax, x, y, i):
    """x with its i-th copy taken from y"""
    if ax == 2:
        return H.np.concatenate([(y if j == i else x)[j:j + 1] for j in range(len(x))])
    return H.np.stack([cut(H, ax, y if j == i else x, j) for j in range(x.shape[ax])], axis=ax)


def geod(H, cfg):
    g, M, N, ax, R = setup(H, cfg)
    p, v, q, d2 = data(H, g, half=True)
    if cfg.get("partly"):
        # one of the copies stays where it is
        k = H.choose("copy", copies(g))
        v, q = put(H, ax, v, v * 0, k), put(H, ax, q, p, k)
    c = lambda x, i: cut(H, ax, x, i)

    def attempt(f, *a):
        try:
            return f(*a)
        except NotImplementedError:
            return None
    e = attempt(M.exp, p, v)
    if e is not None:
        each(H, "exp", g, ax, e, lambda i: N.exp(c(p, i), c(v, i)))
    d = attempt(M.dist, p, q)
    if d is not None:
        H.check("distance is a scalar", H.np.ndim(d) == 0, "not a scalar")
        H.eq("squared distance is the sum over copies", d * d, sum((N.dist(c(p, i), c(q, i)) ** 2 for i in R), H.num(0)))
    w = attempt(M.log, p, q)
    if w is not None:
        each(H, "log", g, ax, w, lambda i: N.log(c(p, i), c(q, i)))
    if cfg.get("partly"):
        H.finite("exp is finite", e if e is not None else v)
        if isinstance(g, (GBall, GObl, GCirc)):
            each(H, "retraction", g, ax, M.retraction(p, v), lambda i: N.retraction(c(p, i), c(v, i)))
        return
    m = attempt(M.pair_mean, p, q)
    if m is not None:
        each(H, "pair_mean", g, ax, m, lambda i: N.pair_mean(c(p, i), c(q, i)))


def stexp(H, cfg):
    g, M, N, ax, R = setup(H, cfg)
    p = g.pt(H, "p")
    v = g.tv(H, p, "v")
    A = H.taylor(lambda t: M.exp(p, v * t), 2)
    for i in R:
        B = H.taylor(lambda t: N.exp(p[i], v[i] * t), 2)
        for j in range(3):
            H.eq("exp acts on every copy separately", A[j][i], B[j], 1e-4)


# ------------------------------------------------------------------ helpers
def batch(H, cfg, f):
    """k = 0: a single matrix"""
    k = cfg["k"]
    xs = [f(f"A{i}_") for i in range(max(k, 1))]
    return (xs[0] if k == 0 else stack(H, xs)), xs


def res(cfg, r, i):
    return r if cfg["k"] == 0 else r[i]


def simple(H, cfg):
    m = H.mod(TOOLS)
    a, b, cx = cfg["n"], cfg["p"], cfg["cx"]
    A, xs = batch(H, cfg, lambda t: rmat(H, t, a, b, cx=cx))
    for i, x in enumerate(xs):
        def each(name, f):
            r = f(A)
            H.check(f"{name}: batch shape", r.ndim == (2 if cfg["k"] == 0 else 3) and (cfg["k"] == 0 or r.shape[0] == cfg["k"]), str(r.shape))
            return res(cfg, r, i)
        tx = H.carr([[x[q, p] for q in range(a)] for p in range(b)]) if cx else H.arr([[x[q, p] for q in range(a)] for p in range(b)])
        hx = H.np.conj(tx)
        H.eq("transpose", each("multitransp", m.multitransp), tx)
        H.eq("conjugate transpose", each("multihconj", m.multihconj), hx)
        if a == b:
            H.eq("symmetric part", each("multisym", m.multisym) * 2, x + tx)
            H.eq("skew part", each("multiskew", m.multiskew) * 2, x - tx)
            H.eq("Hermitian part", each("multiherm", m.multiherm) * 2, x + hx)
            H.eq("skew-Hermitian part", each("multiskewh", m.multiskewh) * 2, x - hx)
    if cfg["k"] and a == b:
        I = m.multieye(cfg["k"], a)
        H.check("identity: shape", tuple(I.shape) == (cfg["k"], a, a), str(I.shape))
        H.eq("identity", I, stack(H, [eye(H, a)] * cfg["k"]))


def qr(H, cfg):
    from .c08 import upper
    m = H.mod(TOOLS)
    n, p, cx = cfg["n"], cfg["p"], cfg["cx"]
    W = [orth(H, f"W{i}_", n, p, cx=cx)[:, :p] for i in range(max(cfg["k"], 1))]
    U = [upper(H, f"U{i}_", p, cx) for i in range(max(cfg["k"], 1))]
    xs = [w @ u for w, u in zip(W, U)]
    A = xs[0] if cfg["k"] == 0 else stack(H, xs)
    Q, R = m.multiqr(A)
    for i, x in enumerate(xs):
        q, r = res(cfg, Q, i), res(cfg, R, i)
        H.eq("factors multiply to the matrix", q @ r, x)
        # the factorisation with positive diagonal is unique
        H.eq("orthonormal factor", q, W[i])
        H.eq("triangular factor with positive diagonal", r, U[i])


def qrzero(H, cfg):
    """rank deficient: zero diagonal entries"""
    m = H.mod(TOOLS)
    n, p = cfg["n"], cfg["p"]
    k = cfg["k"]
    xs = [orth(H, f"W{i}_", n, 1)[:, :1] @ H.arr([[H.pos(f"c{i}")] + [H.real(f"d{i}{j}") for j in range(p - 1)]]) for i in range(max(k, 1))]
    A = xs[0] if k == 0 else stack(H, xs)
    Q, R = m.multiqr(A)
    for i, x in enumerate(xs):
        q, r = res(cfg, Q, i), res(cfg, R, i)
        H.eq("factors multiply to the matrix", q @ r, x)
        H.eq("orthonormal factor", T(H, q) @ q, eye(H, min(n, p)))
        for j in range(min(n, p)):
            H.le("diagonal is nonnegative", H.num(0), r[j, j])


def expo(H, cfg):
    """Hermitian matrices with known frame"""
    m = H.mod(TOOLS)
    n, cx, k = cfg["n"], cfg["cx"], cfg["k"]
    S, E = [], []
    for i in range(max(k, 1)):
        W = orth(H, f"W{i}_", n, n, cx=cx) if n > 1 else (H.carr([[1]]) if cx else eye(H, 1))
        lam = [H.real(f"l{i}{j}", span=1.0) for j in range(n)]
        dg = lambda xs: H.carr(xs) if cx else H.np.array(xs)
        if n > 1:
            H.frame(W)
            H.similarity(W, ct(H, W))
        S.append((W * dg(lam)) @ ct(H, W))
        E.append((W * dg([H.np.exp(x) for x in lam])) @ ct(H, W))
    A, B = (S[0], E[0]) if k == 0 else (stack(H, S), stack(H, E))
    H.eq("exponential of symmetric matrices", m.multiexpm(A, symmetric=True), B)
    H.eq("exponential of general matrices", m.multiexpm(A), B)
    L = m.multilogm(B, positive_definite=True)
    H.eq("logarithm of positive definite matrices", L, A)
    H.check("real matrices have real images", bool(H.np.iscomplexobj(L)) == cx and
            bool(H.np.iscomplexobj(m.multiexpm(A, symmetric=True))) == cx, "wrong dtype")


def rot(H, cfg):
    """logarithm and exponential of plane rotations"""
    m = H.mod(TOOLS)
    k = cfg["k"]
    S, E = [], []
    for i in range(max(k, 1)):
        th, sg = H.pos(f"th{i}", 0, H.num("157/50"), span=0.9), H.sign(f"sg{i}")
        c, s = H.np.cos(th), H.np.sin(th)
        S.append(H.arr([[0, -th * sg], [th * sg, 0]]))
        E.append(H.arr([[c, -s * sg], [s * sg, c]]))
    A, B = (S[0], E[0]) if k == 0 else (stack(H, S), stack(H, E))
    H.eq("exponential", m.multiexpm(A), B)
    H.eq("logarithm", m.multilogm(B), A)


def reject(H, cfg):
    m = H.mod(TOOLS)
    H.raises("QR of a vector is rejected", lambda: m.multiqr(H.reals("a", 2)), ValueError)
    H.raises("QR of a four-dimensional array is rejected", lambda: m.multiqr(H.reals("b", 1, 1, 2, 2)), ValueError)


def configs(tier):
    out = []
    big = tier != "quick"
    nok = lambda g: one(g) is None or copies(g) == 1
    more = [lambda: GOrth(2, 2, retr="polar"), lambda: GSt(2, 1, 2, retr="polar"), lambda: GPos(2, 2, 2)]
    none = lambda g: nok(g) or type(g) is GSt or g.rank() == 0
    def add(fn, pre, skip, **k):
        nonlocal out
        out += geo_configs(tier, fn, pre=pre, skip=skip, **k)
        for mk in more:
            if not skip(mk()):
                out.append(dict(name=pre + "*" + mk().name, fn=fn, geo=mk, **k))
    add(basic, "metric:", nok)
    add(convert, "conversion:", nok)
    add(move, "transport:", lambda g: nok(g) or isinstance(g, GBall))
    add(retr, "retraction:", nok)
    add(geod, "geodesic:", none)
    add(geod, "partly_coincident:", none, partly=True, opts=dict(eps="exact", nan=True, div_fork=True))
    add(stexp, "geodesic:", lambda g: nok(g) or type(g) is not GSt)
    for k in (0, 1, 2, 3):
        for cx in (False, True):
            t = f"{'complex' if cx else 'real'} {k if k else 'single'}"
            for n, p in ((1, 1), (2, 2), (3, 2), (2, 3), (3, 3)):
                out.append(dict(name=f"parts:{t} {n}x{p}", fn=simple, n=n, p=p, k=k, cx=cx))
            for n, p in ((1, 1), (2, 1), (2, 2), (3, 1) if cx else (3, 2)) + (((3, 3),) if big and not cx else ()):
                if k < 3 or n * p < 5 or big:
                    out.append(dict(name=f"qr:{t} {n}x{p}", fn=qr, n=n, p=p, k=k, cx=cx))
            for n in (1, 2) + ((3,) if big and not cx else ()):
                if k < 3 or n == 1 or big:
                    out.append(dict(name=f"exp and log:{t} {n}x{n}", fn=expo, n=n, k=k, cx=cx))
        out.append(dict(name=f"rotations:{k if k else 'single'}", fn=rot, k=k))
        if k < 3:
            out.append(dict(name=f"qr of rank one:{k if k else 'single'} 2x2", fn=qrzero, n=2, p=2, k=k))
    out.append(dict(name="rejections", fn=reject))
    return out
