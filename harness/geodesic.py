"""Reference geodesics: base point p, tangent vector v of known length d inside
the injectivity radius and its end point q, for every manifold with exp."""
from .geo import *  # noqa

PI = "157/50"       # a rational slightly below pi
HPI = "157/100"


def _f(s):
    from fractions import Fraction
    return Fraction(s)


def unit(H, g, tag):
    us = []
    for i in range(g.k):
        us.append(H.arr([H.sign(f"{tag}{i}")]) if g.n == 1 else orth(H, f"{tag}{i}_", g.n, 1)[:, 0])
    return us[0] if g.k == 1 else stack(H, us)


HALF = [False]


def angle(H, tag, hi=PI, lo=0):
    if HALF[0]:
        # a multiple of a half angle the engine knows
        h = H.pos(tag, _f(lo), _f(hi) / 2, span=0.9)
        H.np.cos(h)
        return 2 * h
    return H.pos(tag, _f(lo), _f(hi), span=0.9)


def data(H, g, tag="", half=False):
    """(p, v, q, d squared)"""
    HALF[0] = half
    try:
        return _data(H, g, tag)
    finally:
        HALF[0] = False


def _data(H, g, tag):
    c, s = H.np.cos, H.np.sin
    if isinstance(g, (GEuc, GSym)):
        p = g.pt(H, tag + "p")
        v = g.tv(H, p, tag + "v")
        return p, v, p + v, rdot(H, v, v)
    if isinstance(g, (GSphere, GSub)):
        n = g.n if isinstance(g, GSphere) else g.d
        Q = orth(H, tag + "p", n, 2)
        if n == 2:
            Q = H.np.stack([Q[:, 0], Q[:, 1]], axis=1)
        F = Q if isinstance(g, GSphere) else g.B(H) @ Q
        th = angle(H, tag + "th")
        sh = lambda x: H.np.reshape(x, g.shape())
        p, u = F[:, 0], F[:, 1]
        return sh(p), sh(u * th), sh(p * c(th) + u * s(th)), th * th
    if isinstance(g, GObl):
        P, V, Q, d = [], [], [], 0
        for j in range(g.n):
            F = orth(H, f"{tag}p{j}_", g.m, 2)
            th = angle(H, f"{tag}th{j}")
            P.append(F[:, 0])
            V.append(F[:, 1] * th)
            Q.append(F[:, 0] * c(th) + F[:, 1] * s(th))
            d = d + th * th
        st = lambda x: H.np.stack(x, axis=1)
        return st(P), st(V), st(Q), d
    if isinstance(g, GCirc):
        p = g.pt(H, tag + "p")
        V, Q, d = [], [], 0
        for j in range(g.n):
            # the code treats angles up to 1e-6 as already linear
            th = angle(H, f"{tag}th{j}", lo="1/100000")
            sg = H.sign(f"{tag}sg{j}")
            V.append(p[j] * H.cx(0, th * sg))
            Q.append(p[j] * H.cx(c(th), s(th) * sg))
            d = d + th * th
        return p, H.carr(V), H.carr(Q), d
    if isinstance(g, GGr):
        P, V, Q, d = [], [], [], 0
        for i in range(g.k):
            t = f"{tag}{i}_"
            F = fixed_frame(H, g.n, g.cx) if g.fixed else orth(H, t + "p", g.n, min(g.n, 2 * g.p), cx=g.cx)
            p = F[:, :g.p]
            r = min(g.p, g.n - g.p)
            W = fixed_frame(H, g.p, g.cx, [1, -3]) if g.fixed else orth(H, t + "w", g.p, g.p, cx=g.cx) if g.p > 1 else (H.carr([[1]]) if g.cx else eye(H, 1))
            ths = []
            acc = 0
            for j in range(r):
                th = angle(H, f"{t}th{j}", HPI)
                ths.append(th)
                d = d + th * th
            U = F[:, g.p:g.p + r]
            if g.p > 1:
                H.frame(W)
            v, q = p * 0, p
            if r:
                q = p @ W
                cols_q, cols_v = [], []
                for j in range(g.p):
                    if j < r:
                        cols_v.append(U[:, j] * ths[j])
                        cols_q.append(q[:, j] * c(ths[j]) + U[:, j] * s(ths[j]))
                    else:
                        cols_v.append(U[:, 0] * 0)
                        cols_q.append(q[:, j])
                v = H.np.stack(cols_v, axis=1) @ ct(H, W)
                q = H.np.stack(cols_q, axis=1) @ ct(H, W)
            P.append(p)
            V.append(v)
            Q.append(q)
        f = (lambda x: x[0]) if g.k == 1 else (lambda x: stack(H, x))
        return f(P), f(V), f(Q), d
    if isinstance(g, GOrth):
        P, V, Q, d = [], [], [], 0
        for i in range(g.k):
            t = f"{tag}{i}_"
            p = g._pt(H, t + "p")
            n = g.n
            if g.cx:
                W = orth(H, t + "w", n, cx=True) if n > 1 else H.carr([[1]])
                if n > 1:
                    H.similarity(W, ct(H, W))
                al = [angle(H, f"{t}th{j}") for j in range(n)]
                sg = [H.sign(f"{t}sg{j}") for j in range(n)]
                v = (W * H.carr([H.cx(0, a * b) for a, b in zip(al, sg)])) @ ct(H, W)
                E = (W * H.carr([H.cx(c(a), s(a) * b) for a, b in zip(al, sg)])) @ ct(H, W)
                d = d + sum((a * a for a in al), 0)
            elif n == 1:
                v, E = p * 0, eye(H, 1)
            elif n == 2:
                th, sg = angle(H, t + "th"), H.sign(t + "sg")
                v = H.arr([[0, -th * sg], [th * sg, 0]])
                E = H.arr([[c(th), -s(th) * sg], [s(th) * sg, c(th)]])
                d = d + 2 * th * th
            else:
                F = orth(H, t + "F", 3, 2, det=True)
                th = angle(H, t + "th")
                v = F @ H.arr([[0, 0, 0], [0, 0, -th], [0, th, 0]]) @ T(H, F)
                E = F @ H.arr([[1, 0, 0], [0, c(th), -s(th)], [0, s(th), c(th)]]) @ T(H, F)
                d = d + 2 * th * th
            P.append(p)
            V.append(v)
            Q.append(p @ E)
        f = (lambda x: x[0]) if g.k == 1 else (lambda x: stack(H, x))
        return f(P), f(V), f(Q), d
    if isinstance(g, GPos):
        p = g.pt(H, tag + "p")
        x = H.reals(tag + "x", *g.shape(), span=1.0)
        return p, p * x, p * H.np.exp(x), H.np.sum(x * x)
    if isinstance(g, GPd):
        P, V, Q, d = [], [], [], 0
        for i in range(g.k):
            t = f"{tag}{i}_"
            L = g._L(H, t + "p")
            H.chol(L)
            n = g.n
            W = orth(H, t + "w", n, n, cx=g.cx) if n > 1 else (H.carr([[1]]) if g.cx else eye(H, 1))
            lam = [H.real(f"{t}l{j}", span=1.0) for j in range(n)]
            if g.special:
                lam[-1] = -sum(lam[:-1], H.num(0))
            if n > 1:
                H.frame(W)
                Li = H.carr(trilinv(H, L)) if g.cx else H.arr(trilinv(H, L))
                H.similarity(ct(H, Li) @ W, ct(H, W) @ ct(H, L))
            dg = lambda xs: H.carr(xs) if g.cx else H.np.array(xs)
            LW = L @ W
            V.append((LW * dg(lam)) @ ct(H, LW))
            Q.append((LW * dg([H.np.exp(x) for x in lam])) @ ct(H, LW))
            P.append(L @ ct(H, L))
            d = d + sum((x * x for x in lam), 0)
        f = (lambda x: x[0]) if g.k == 1 else (lambda x: stack(H, x))
        return f(P), f(V), f(Q), d
    if isinstance(g, GBall):
        p = g.pt(H, tag + "p")
        lam = g.lam(H, p)
        u = unit(H, g, tag + "u")
        tau = [H.pos(f"{tag}tau{i}", span=0.8) for i in range(g.k)]
        if HALF[0]:
            [H.np.tanh(t) for t in tau]
            tau = [2 * t for t in tau]
        ta = H.np.array(tau) if g.k == 1 else H.np.array([[x] for x in tau])
        th = H.np.tanh(ta)
        y = u * th
        s2 = lambda a, b: H.np.sum(a * b, axis=-1, keepdims=True)
        num = p * (1 + 2 * s2(p, y) + s2(y, y)) + y * (1 - s2(p, p))
        q = num / (1 + 2 * s2(p, y) + s2(p, p) * s2(y, y))
        return p, u * (2 * ta) / lam, q, sum((4 * x * x for x in tau), 0)
    if isinstance(g, GPsd):
        # q^H p = M Hermitian positive definite with known frame
        p = g.pt(H, tag + "p")
        W = orth(H, tag + "w", g.r, g.r, cx=g.cx) if g.r > 1 else (H.carr([[1]]) if g.cx else eye(H, 1))
        sg = [H.pos(f"{tag}s{j}", span=1.5) for j in range(g.r)]
        M = (W * H.np.array(sg)) @ ct(H, W)
        H.svdreg(W, H.np.array(sg), W)
        Gi = inv2(H, ct(H, p) @ p)
        v = p @ (Gi @ M) - p
        if g.n > g.r:
            Z = rmat(H, tag + "Z", g.n, g.r, cx=g.cx)
            v = v + Z - p @ (Gi @ (ct(H, p) @ Z))
        return p, v, p + v, rdot(H, v, v)
    raise TypeError(g)
