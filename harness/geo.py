"""Reference geometry: parametrised points, tangent vectors and the defining
equations of every manifold, written independently of the code under test.
Works on both the symbolic and the concrete harness API."""

PK = "pymanopt.manifolds."


# ------------------------------------------------------------------ helpers
def mat(H, rows):
    return H.arr(rows)


def T(H, a):
    return H.np.swapaxes(a, -1, -2)


def ct(H, a):
    return H.np.conj(H.np.swapaxes(a, -1, -2))


def tr(a):
    s = 0
    for i in range(a.shape[0]):
        s = s + a[i, i]
    return s


def rdot(H, a, b):
    """real Euclidean inner product of two arrays"""
    return H.np.real(H.np.sum(H.np.conj(a) * b))


def eye(H, n):
    return H.arr([[1 if i == j else 0 for j in range(n)] for i in range(n)])


def stack(H, xs):
    return H.np.stack(xs)


def sym(H, a):
    return (a + T(H, a)) / 2


def herm(H, a):
    return (a + ct(H, a)) / 2


def skewh(H, a):
    return (a - ct(H, a)) / 2


def rot2(H, tag):
    """(cos, sin) of an arbitrary angle, rational"""
    t = H.real(tag)
    d = 1 + t * t
    return (1 - t * t) / d, 2 * t / d


def house(H, tag, n, cx=False):
    """Householder reflection with first entry 1: a generic reflection of size n"""
    if cx:
        w = [H.cx(1, 0)] + [H.cx(H.real(f"{tag}r{i}", span=1.5), H.real(f"{tag}i{i}", span=1.5)) for i in range(1, n)]
        d = 1
        for i in range(1, n):
            d = d + (w[i] * w[i].conjugate()).real
        M = [[(1 if i == j else 0) - w[i] * w[j].conjugate() * 2 / d for j in range(n)] for i in range(n)]
        return H.carr(M)
    w = [H.num(1)] + [H.real(f"{tag}{i}", span=1.5) for i in range(1, n)]
    d = 1
    for i in range(1, n):
        d = d + w[i] * w[i]
    return H.arr([[(1 if i == j else 0) - 2 * w[i] * w[j] / d for j in range(n)] for i in range(n)])


def orth(H, tag, n, p=None, cx=False, det=False):
    """generic n x n orthogonal (unitary) matrix; the first p columns are
    generically arbitrary.  det=True: determinant one (real)"""
    p = n if p is None else p
    M = None
    cnt = 0
    for j in range(min(p, n - 1) if n > 1 else 0):
        h = house(H, f"{tag}h{j}_", n - j, cx)
        cnt += 1
        if j == 0:
            M = h
        else:
            B = [[(1 if a == b else 0) if a < j or b < j else h[a - j, b - j] for b in range(n)] for a in range(n)]
            M = M @ (H.carr(B) if cx else H.arr(B))
    if M is None:
        M = H.carr([[1]]) if cx else eye(H, n)
    if cx:
        ph = []
        for j in range(p):
            c, s = rot2(H, f"{tag}p{j}")
            ph.append(H.cx(c, s))
        ph += [H.cx(1, 0)] * (n - p)
        M = H.carr([[M[i, j] * ph[j] for j in range(n)] for i in range(n)])
        return M
    if det:
        s = [1] * n
        if cnt % 2:
            s[-1] = -1
        return H.arr([[M[i, j] * s[j] for j in range(n)] for i in range(n)])
    if p == n:
        d = H.sign(f"{tag}sg")
        s = [1] * (n - 1) + [d]
        return H.arr([[M[i, j] * s[j] for j in range(n)] for i in range(n)])
    return M


def fixed_frame(H, n, cx=False, w=None):
    """a fixed rational orthogonal (unitary) matrix without zeros"""
    w = w or list(range(1, n + 1))
    s = H.num(sum(x * x for x in w))
    M = [[(1 if i == j else 0) - 2 * H.num(w[i] * w[j]) / s for j in range(n)] for i in range(n)]
    if cx:
        ph = [H.cx(H.num(3) / 5, H.num(4) / 5), H.cx(0, 1), H.cx(H.num(-5) / 13, H.num(12) / 13), H.cx(1, 0)]
        # phases on both sides: no column is a multiple of a real one
        return H.carr([[ph[(i + 3) % 4] * M[i][j] * ph[j % 4] for j in range(n)] for i in range(n)])
    return H.arr(M)


def weights(tag, i, n):
    j = (sum(map(ord, tag)) + i) % 4
    return [(x * (j + 1)) % 5 + 1 for x in range(1, n + 1)]


def fixed(g):
    """the same manifold at fixed base points only (one per tag)"""
    g.fixed = True
    g.name += ",fixed frame"
    return g


def rmat(H, tag, *shape, cx=False, span=2.0):
    return H.cxs(tag, *shape, span=span) if cx else H.reals(tag, *shape, span=span)


def symm(H, tag, n, cx=False):
    A = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(i, n):
            if i == j:
                A[i][i] = H.cx(H.real(f"{tag}{i}{i}"), 0) if cx else H.real(f"{tag}{i}{i}")
            elif cx:
                re, im = H.real(f"{tag}r{i}{j}"), H.real(f"{tag}i{i}{j}")
                A[i][j], A[j][i] = H.cx(re, im), H.cx(re, -im)
            else:
                A[i][j] = A[j][i] = H.real(f"{tag}{i}{j}")
    return H.carr(A) if cx else H.arr(A)


def skew(H, tag, n, cx=False):
    A = [[0] * n for _ in range(n)]
    for i in range(n):
        if cx:
            A[i][i] = H.cx(0, H.real(f"{tag}d{i}"))
        for j in range(i + 1, n):
            if cx:
                re, im = H.real(f"{tag}r{i}{j}"), H.real(f"{tag}i{i}{j}")
                A[i][j], A[j][i] = H.cx(re, im), H.cx(-re, im)
            else:
                v = H.real(f"{tag}{i}{j}")
                A[i][j], A[j][i] = v, -v
    return H.carr(A) if cx else H.arr(A)


def ltri(H, tag, n, cx=False):
    """lower triangular with positive diagonal"""
    A = [[0] * n for _ in range(n)]
    for i in range(n):
        A[i][i] = H.cx(H.pos(f"{tag}{i}{i}", span=1.5), 0) if cx else H.pos(f"{tag}{i}{i}", span=1.5)
        for j in range(i):
            A[i][j] = H.cx(H.real(f"{tag}r{i}{j}", span=1), H.real(f"{tag}i{i}{j}", span=1)) if cx \
                else H.real(f"{tag}{i}{j}", span=1)
    return H.carr(A) if cx else H.arr(A)


def inv2(H, A):
    """exact inverse by cofactors (n <= 3)"""
    n = A.shape[0]
    if n == 1:
        return H.np.array([[1 / A[0, 0]]])
    if n == 2:
        d = A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]
        return H.np.array([[A[1, 1] / d, -A[0, 1] / d], [-A[1, 0] / d, A[0, 0] / d]])
    C = [[None] * 3 for _ in range(3)]
    for i in range(3):
        for j in range(3):
            a, b = [x for x in range(3) if x != i], [x for x in range(3) if x != j]
            m = A[a[0], b[0]] * A[a[1], b[1]] - A[a[0], b[1]] * A[a[1], b[0]]
            C[j][i] = m * (-1) ** (i + j)
    d = sum(A[0, j] * C[j][0] for j in range(3))
    return H.np.array([[C[i][j] / d for j in range(3)] for i in range(3)])


def trilinv(H, L):
    """inverse of a lower triangular matrix"""
    n = L.shape[0]
    X = [[0] * n for _ in range(n)]
    for j in range(n):
        for i in range(n):
            if i < j:
                continue
            s = 1 if i == j else 0
            for k in range(j, i):
                s = s - L[i, k] * X[k][j]
            X[i][j] = s / L[i, i]
    return X


def det(A):
    n = A.shape[0]
    if n == 1:
        return A[0, 0]
    if n == 2:
        return A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]
    return (A[0, 0] * (A[1, 1] * A[2, 2] - A[1, 2] * A[2, 1]) - A[0, 1] * (A[1, 0] * A[2, 2] - A[1, 2] * A[2, 0])
            + A[0, 2] * (A[1, 0] * A[2, 1] - A[1, 1] * A[2, 0]))


# ------------------------------------------------------------------ base
class G:
    cx = False
    quotient = False
    k = 1
    ops = ()            # optional operations provided by the class
    inv = False         # gradients of invariant costs only

    def __init__(self):
        self.aux = {}

    def shape(self):
        raise NotImplementedError

    def amb(self, H, p, tag):
        return rmat(H, tag, *self.shape(), cx=self.cx)

    def zero(self, H):
        return H.carr(H.np.zeros(self.shape())) if self.cx else H.np.zeros(self.shape())

    def ip(self, H, p, a, b):
        return rdot(H, a, b)

    def embed(self, H, p, v):
        return v

    def same(self, H, name, p, q):
        """points equal"""
        H.eq(name, p, q)

    def pos(self, H, p):
        return []

    def vertical(self, H, p, tag):
        return None

    def rank(self):
        """real dimension of the tangent space"""
        raise NotImplementedError


class GEuc(G):
    def __init__(self, shape, cx=False):
        super().__init__()
        self.sh, self.cx = tuple(shape), cx
        self.name = ("C" if cx else "R") + "x".join(map(str, shape))

    def make(self, H):
        m = H.mod(PK + "euclidean")
        return (m.ComplexEuclidean if self.cx else m.Euclidean)(*self.sh)

    def shape(self):
        return self.sh

    def pt(self, H, tag):
        return rmat(H, tag, *self.sh, cx=self.cx)

    def tv(self, H, p, tag):
        return rmat(H, tag, *self.sh, cx=self.cx)

    def on(self, H, p):
        return []

    def tan(self, H, p, v):
        return []

    def rank(self):
        n = 1
        for s in self.sh:
            n *= s
        return n * (2 if self.cx else 1)


class GSym(G):
    def __init__(self, n, k=1, sk=False):
        super().__init__()
        self.n, self.k, self.sk = n, k, sk
        self.name = ("skew" if sk else "sym") + f"({n}" + (f",k={k})" if k > 1 else ")")

    def make(self, H):
        m = H.mod(PK + "euclidean")
        return (m.SkewSymmetric if self.sk else m.Symmetric)(self.n, self.k)

    def shape(self):
        return (self.n, self.n) if self.k == 1 else (self.k, self.n, self.n)

    def _one(self, H, tag):
        return skew(H, tag, self.n) if self.sk else symm(H, tag, self.n)

    def pt(self, H, tag):
        if self.k == 1:
            return self._one(H, tag)
        return stack(H, [self._one(H, f"{tag}k{i}_") for i in range(self.k)])

    def tv(self, H, p, tag):
        return self.pt(H, tag)

    def on(self, H, p):
        return [("symmetry type", p, -T(H, p) if self.sk else T(H, p))]

    def tan(self, H, p, v):
        return self.on(H, v)

    def rank(self):
        return self.k * self.n * (self.n + (-1 if self.sk else 1)) // 2


class GSphere(G):
    def __init__(self, *sh):
        super().__init__()
        self.sh = sh
        self.n = 1
        for s in sh:
            self.n *= s
        self.name = "sphere" + "x".join(map(str, sh))

    def make(self, H):
        return H.mod(PK + "sphere").Sphere(*self.sh)

    def shape(self):
        return self.sh

    def frame(self, H, tag):
        Q = orth(H, tag, self.n, 1)
        if self.n == 1:
            Q = Q * H.sign(tag + "s1") if False else Q
        return Q

    def pt(self, H, tag):
        Q = self.frame(H, tag)
        p = H.np.reshape(Q[:, 0], self.sh)
        self.aux[tag] = Q
        self.fr = getattr(self, "fr", [])
        self.fr.append((p, Q))
        return p

    def Q(self, p):
        return next(q for x, q in self.fr if x is p)

    def tv(self, H, p, tag):
        Q = self.Q(p)
        v = 0
        for j in range(1, self.n):
            v = v + Q[:, j] * H.real(f"{tag}{j}")
        if self.n == 1:
            v = Q[:, 0] * 0
        return H.np.reshape(v, self.sh)

    def on(self, H, p):
        return [("unit norm", rdot(H, p, p), H.num(1))]

    def tan(self, H, p, v):
        return [("orthogonal to the point", rdot(H, p, v), H.num(0))]

    def rank(self):
        return self.n - 1


class GSub(G):
    """sphere intersected with a (complement of a) subspace"""

    def __init__(self, matrix, basis, complement, name):
        super().__init__()
        self.matrix, self.basis, self.complement, self.name = matrix, basis, complement, name
        self.n, self.d = len(matrix), len(basis[0])

    def make(self, H):
        m = H.mod(PK + "sphere")
        c = m.SphereSubspaceComplementIntersection if self.complement else m.SphereSubspaceIntersection
        return c(H.arr(self.matrix))

    def shape(self):
        return (self.n,)

    def B(self, H):
        """orthonormal basis of the subspace"""
        cols = []
        for j in range(self.d):
            n2 = sum(self.basis[i][j] ** 2 for i in range(self.n))
            r = H.np.sqrt(H.num(n2))
            cols.append([self.basis[i][j] / r for i in range(self.n)])
        return H.arr([[cols[j][i] for j in range(self.d)] for i in range(self.n)])

    def pt(self, H, tag):
        Q = orth(H, tag, self.d, 1)
        F = self.B(H) @ Q
        p = F[:, 0]
        self.fr = getattr(self, "fr", [])
        self.fr.append((p, F))
        return p

    def tv(self, H, p, tag):
        F = next(q for x, q in self.fr if x is p)
        v = F[:, 0] * 0
        for j in range(1, self.d):
            v = v + F[:, j] * H.real(f"{tag}{j}")
        return v

    def _in(self, H, v):
        B = self.B(H)
        return ("in the subspace", B @ (T(H, B) @ v), v)

    def on(self, H, p):
        return [("unit norm", rdot(H, p, p), H.num(1)), self._in(H, p)]

    def tan(self, H, p, v):
        return [("orthogonal to the point", rdot(H, p, v), H.num(0)), self._in(H, v)]

    def rank(self):
        return self.d - 1


class GObl(G):
    def __init__(self, m, n):
        super().__init__()
        self.m, self.n = m, n
        self.name = f"oblique({m},{n})"

    def make(self, H):
        return H.mod(PK + "oblique").Oblique(self.m, self.n)

    def shape(self):
        return (self.m, self.n)

    def pt(self, H, tag):
        Qs = [orth(H, f"{tag}c{j}_", self.m, 1) for j in range(self.n)]
        p = H.np.stack([Q[:, 0] for Q in Qs], axis=1)
        self.fr = getattr(self, "fr", [])
        self.fr.append((p, Qs))
        return p

    def tv(self, H, p, tag):
        Qs = next(q for x, q in self.fr if x is p)
        cols = []
        for j, Q in enumerate(Qs):
            v = Q[:, 0] * 0
            for a in range(1, self.m):
                v = v + Q[:, a] * H.real(f"{tag}c{j}_{a}")
            cols.append(v)
        return H.np.stack(cols, axis=1)

    def on(self, H, p):
        return [("unit columns", H.np.sum(p * p, axis=0), H.np.ones(self.n))]

    def tan(self, H, p, v):
        return [("orthogonal columns", H.np.sum(p * v, axis=0), H.np.zeros(self.n))]

    def rank(self):
        return (self.m - 1) * self.n


class GCirc(G):
    cx = True

    def __init__(self, n):
        super().__init__()
        self.n = n
        self.name = f"circle({n})"

    def make(self, H):
        return H.mod(PK + "complex_circle").ComplexCircle(self.n)

    def shape(self):
        return (self.n,)

    def pt(self, H, tag):
        out = []
        for i in range(self.n):
            c, s = rot2(H, f"{tag}{i}")
            out.append(H.cx(c, s))
        return H.carr(out)

    def tv(self, H, p, tag):
        return p * H.carr([H.cx(0, H.real(f"{tag}{i}")) for i in range(self.n)])

    def on(self, H, p):
        return [("unit modulus", H.np.real(p * H.np.conj(p)), H.np.ones(self.n))]

    def tan(self, H, p, v):
        return [("orthogonal to the point", H.np.real(H.np.conj(p) * v), H.np.zeros(self.n))]

    def rank(self):
        return self.n


class GSt(G):
    """Stiefel"""
    fixed = False

    def __init__(self, n, p, k=1, retr="qr"):
        super().__init__()
        self.n, self.p, self.k, self.retr = n, p, k, retr
        self.name = f"stiefel({n},{p}" + (f",k={k}" if k > 1 else "") + (f",{retr})" if retr != "qr" else ")")
        self.fr = []

    def make(self, H):
        return H.mod(PK + "stiefel").Stiefel(self.n, self.p, k=self.k, retraction=self.retr)

    def shape(self):
        return (self.n, self.p) if self.k == 1 else (self.k, self.n, self.p)

    def pt(self, H, tag):
        if self.fixed:
            Qs = [fixed_frame(H, self.n, self.cx, weights(tag, i, self.n)) for i in range(self.k)]
        else:
            Qs = [orth(H, f"{tag}k{i}_" if self.k > 1 else tag, self.n, self.p, cx=self.cx) for i in range(self.k)]
        ps = [Q[:, :self.p] for Q in Qs]
        p = ps[0] if self.k == 1 else stack(H, ps)
        self.fr.append((p, Qs))
        return p

    def Qs(self, p):
        return next(q for x, q in self.fr if x is p)

    def tv(self, H, p, tag):
        out = []
        for i, Q in enumerate(self.Qs(p)):
            t = f"{tag}k{i}_" if self.k > 1 else tag
            X = Q[:, :self.p]
            v = X @ skew(H, t + "A", self.p, self.cx)
            if self.n > self.p:
                v = v + Q[:, self.p:] @ rmat(H, t + "B", self.n - self.p, self.p, cx=self.cx)
            out.append(v)
        return out[0] if self.k == 1 else stack(H, out)

    def on(self, H, p):
        I = eye(H, self.p)
        return [("orthonormal columns", ct(H, p) @ p, I if self.k == 1 else stack(H, [I] * self.k))]

    def tan(self, H, p, v):
        a = ct(H, p) @ v
        return [("X^T V is skew", a, -ct(H, a))]

    def rank(self):
        return self.k * (self.n * self.p - self.p * (self.p + 1) // 2)


class GGr(GSt):
    quotient = True

    def __init__(self, n, p, k=1, cx=False):
        super().__init__(n, p, k)
        self.cx = cx
        self.name = ("c" if cx else "") + f"grassmann({n},{p}" + (f",k={k})" if k > 1 else ")")

    def make(self, H):
        m = H.mod(PK + "grassmann")
        return (m.ComplexGrassmann if self.cx else m.Grassmann)(self.n, self.p, k=self.k)

    def tv(self, H, p, tag):
        out = []
        for i, Q in enumerate(self.Qs(p)):
            t = f"{tag}k{i}_" if self.k > 1 else tag
            if self.n > self.p:
                v = Q[:, self.p:] @ rmat(H, t + "B", self.n - self.p, self.p, cx=self.cx)
            else:
                v = Q[:, :self.p] * 0
            out.append(v)
        return out[0] if self.k == 1 else stack(H, out)

    def tan(self, H, p, v):
        a = ct(H, p) @ v
        return [("horizontal", a, a * 0)]

    def vertical(self, H, p, tag):
        if self.k > 1:
            return stack(H, [p[i] @ skew(H, f"{tag}k{i}", self.p, self.cx) for i in range(self.k)])
        return p @ skew(H, tag, self.p, self.cx)

    def same(self, H, name, p, q):
        H.eq(name, p @ ct(H, p), q @ ct(H, q))

    def rank(self):
        return self.k * self.p * (self.n - self.p) * (2 if self.cx else 1)


class GOrth(G):
    """SO(n) / U(n): tangent vectors in the Lie algebra"""
    fixed = False

    def __init__(self, n, k=1, cx=False, retr="qr"):
        super().__init__()
        self.n, self.k, self.cx, self.retr = n, k, cx, retr
        self.name = ("U" if cx else "SO") + f"({n}" + (f",k={k}" if k > 1 else "") + (f",{retr})" if retr != "qr" else ")")

    def make(self, H):
        m = H.mod(PK + "group")
        return (m.UnitaryGroup if self.cx else m.SpecialOrthogonalGroup)(self.n, k=self.k, retraction=self.retr)

    def shape(self):
        return (self.n, self.n) if self.k == 1 else (self.k, self.n, self.n)

    def _pt(self, H, tag):
        if self.fixed:
            Q = fixed_frame(H, self.n, self.cx, weights(tag, 0, self.n))
            # a single reflection has determinant -1
            return Q if self.cx else Q * H.arr([1] * (self.n - 1) + [-1])
        if self.cx:
            return orth(H, tag, self.n, cx=True)
        return orth(H, tag, self.n, det=True)

    def pt(self, H, tag):
        if self.k == 1:
            return self._pt(H, tag)
        return stack(H, [self._pt(H, f"{tag}k{i}_") for i in range(self.k)])

    def tv(self, H, p, tag):
        if self.k == 1:
            return skew(H, tag, self.n, self.cx)
        return stack(H, [skew(H, f"{tag}k{i}_", self.n, self.cx) for i in range(self.k)])

    def on(self, H, p):
        I = eye(H, self.n)
        out = [("orthogonal", ct(H, p) @ p, I if self.k == 1 else stack(H, [I] * self.k))]
        if not self.cx:
            ps = [p] if self.k == 1 else [p[i] for i in range(self.k)]
            if self.n <= 3:
                out.append(("determinant one", H.arr([det(x) for x in ps]), H.np.ones(self.k)))
        return out

    def tan(self, H, p, v):
        return [("skew", v, -ct(H, v))]

    def embed(self, H, p, v):
        return p @ v

    def rank(self):
        return self.k * (self.n ** 2 if self.cx else self.n * (self.n - 1) // 2)


class GPos(G):
    def __init__(self, m, n, k=1, par=False):
        super().__init__()
        self.m, self.n, self.k, self.par = m, n, k, par
        self.name = f"positive({m},{n}" + (f",k={k}" if k > 1 else "") + (",parallel)" if par else ")")

    def make(self, H):
        return H.mod(PK + "positive").Positive(self.m, self.n, k=self.k, use_parallel_transport=self.par)

    def shape(self):
        return (self.m, self.n) if self.k == 1 else (self.k, self.m, self.n)

    def pt(self, H, tag):
        return H.reals(tag, *self.shape(), pos=True)

    def tv(self, H, p, tag):
        return H.reals(tag, *self.shape())

    def on(self, H, p):
        return []

    def pos(self, H, p):
        return [("positive entries", p)]

    def tan(self, H, p, v):
        return []

    def ip(self, H, p, a, b):
        return H.np.sum(a * b / (p * p))

    def rank(self):
        return self.k * self.m * self.n


class GPd(G):
    def __init__(self, n, k=1, cx=False, special=False):
        super().__init__()
        self.n, self.k, self.cx, self.special = n, k, cx, special
        self.name = ("S" if special else "") + ("H" if cx else "S") + f"PD({n}" + (f",k={k})" if k > 1 else ")")
        self.fr = []

    def make(self, H):
        m = H.mod(PK + "positive_definite")
        c = m.SpecialHermitianPositiveDefinite if self.special else \
            m.HermitianPositiveDefinite if self.cx else m.SymmetricPositiveDefinite
        return c(self.n, k=self.k)

    def shape(self):
        return (self.n, self.n) if self.k == 1 else (self.k, self.n, self.n)

    def _L(self, H, tag):
        L = ltri(H, tag, self.n, self.cx)
        if self.special:
            # unit determinant: last diagonal entry is the inverse of the product of the others
            d = 1
            for i in range(self.n - 1):
                d = d * H.np.real(L[i, i])
            rows = [[L[i, j] for j in range(self.n)] for i in range(self.n)]
            rows[-1][-1] = H.cx(1 / d, 0)
            L = H.carr(rows)
        return L

    def pt(self, H, tag):
        Ls = [self._L(H, f"{tag}k{i}_" if self.k > 1 else tag) for i in range(self.k)]
        ps = []
        for L in Ls:
            p = L @ ct(H, L)
            H.chol(L)
            ps.append(p)
        p = ps[0] if self.k == 1 else stack(H, ps)
        self.fr.append((p, Ls))
        return p

    def Ls(self, p):
        return next(q for x, q in self.fr if x is p)

    def _tv(self, H, p, tag):
        S = symm(H, tag, self.n, self.cx)
        if self.special:
            # tr(P^-1 V) = 0 : V = L S0 L^H with tr S0 = 0
            L = self.Ls(p)[0] if self.k == 1 else None
            t = tr(S) / self.n
            S = S - H.carr(eye(H, self.n)) * t
            return L @ S @ ct(H, L)
        return S

    def tv(self, H, p, tag):
        if self.k == 1:
            return self._tv(H, p, tag)
        if self.special:
            out = []
            for i, L in enumerate(self.Ls(p)):
                S = symm(H, f"{tag}k{i}_", self.n, self.cx)
                S = S - H.carr(eye(H, self.n)) * (tr(S) / self.n)
                out.append(L @ S @ ct(H, L))
            return stack(H, out)
        return stack(H, [self._tv(H, p[i], f"{tag}k{i}_") for i in range(self.k)])

    def each(self, p):
        return [p] if self.k == 1 else [p[i] for i in range(self.k)]

    def on(self, H, p):
        out = [("Hermitian", p, ct(H, p))]
        if self.special:
            out.append(("unit determinant", H.carr([det(x) for x in self.each(p)]), H.np.ones(self.k)))
        return out

    def pos(self, H, p):
        out = []
        for x in self.each(p):
            out.append(("leading minor 1", H.np.real(x[0, 0])))
            if self.n > 1:
                out.append(("leading minor 2", H.np.real(x[0, 0] * x[1, 1] - x[0, 1] * x[1, 0])))
            if self.n > 2:
                out.append(("leading minor 3", H.np.real(det(x))))
        return out

    def pinv(self, H, p):
        return inv2(H, p)

    def tan(self, H, p, v):
        out = [("Hermitian", v, ct(H, v))]
        if self.special:
            for x, y in zip(self.each(p), self.each(v)):
                out.append(("trace free", tr(self.pinv(H, x) @ y), H.cx(0, 0)))
        return out

    def ip(self, H, p, a, b):
        s = 0
        for x, u, v in zip(self.each(p), self.each(a), self.each(b)):
            i = self.pinv(H, x)
            s = s + H.np.real(tr(i @ u @ i @ v))
        return s

    def rank(self):
        n = self.n
        r = n * n if self.cx else n * (n + 1) // 2
        return self.k * (r - (1 if self.special else 0))


class GBall(G):
    def __init__(self, n, k=1):
        super().__init__()
        self.n, self.k = n, k
        self.name = f"ball({n}" + (f",k={k})" if k > 1 else ")")

    def make(self, H):
        return H.mod(PK + "hyperbolic").PoincareBall(self.n, k=self.k)

    def shape(self):
        return (self.n,) if self.k == 1 else (self.k, self.n)

    def pt(self, H, tag):
        p = H.reals(tag, *self.shape(), span=0.5)
        for x in ([p] if self.k == 1 else [p[i] for i in range(self.k)]):
            H.assume(1 - rdot(H, x, x) > 0)
        return p

    def tv(self, H, p, tag):
        return H.reals(tag, *self.shape())

    def on(self, H, p):
        return []

    def pos(self, H, p):
        return [("inside the ball", 1 - rdot(H, x, x)) for x in ([p] if self.k == 1 else [p[i] for i in range(self.k)])]

    def tan(self, H, p, v):
        return []

    def lam(self, H, p):
        return 2 / (1 - H.np.sum(p * p, axis=-1, keepdims=True))

    def ip(self, H, p, a, b):
        return H.np.sum(a * b * self.lam(H, p) ** 2)

    def rank(self):
        return self.n * self.k


class GPsd(G):
    quotient = True
    inv = True

    def __init__(self, n, k, cx=False):
        super().__init__()
        self.n, self.r, self.cx = n, k, cx
        self.name = ("c" if cx else "") + f"psd({n},{k})"

    def make(self, H):
        m = H.mod(PK + "psd")
        return (m.PSDFixedRankComplex if self.cx else m.PSDFixedRank)(self.n, self.r)

    def shape(self):
        return (self.n, self.r)

    def pt(self, H, tag):
        # Y = Q D R with Q orthonormal columns, D positive diagonal; R dropped (right
        # rotation) would lose generality, so Y is a free full matrix
        return rmat(H, tag, self.n, self.r, cx=self.cx)

    def tv(self, H, p, tag):
        # horizontal vectors: Y (Y^H Y)^-1 S + (component orthogonal to range Y), scaled:
        # parametrise V = Y M + Z with Y^H Z = 0 and (Y^H Y) M Hermitian
        G = ct(H, p) @ p
        Gi = inv2(H, G)
        V = p @ (Gi @ symm(H, tag + "S", self.r, self.cx))
        if self.n > self.r:
            W = rmat(H, tag + "W", self.n, self.r, cx=self.cx)
            V = V + W - p @ (Gi @ (ct(H, p) @ W))
        return V

    def on(self, H, p):
        return []

    def tan(self, H, p, v):
        a = ct(H, p) @ v
        return [("horizontal", a, ct(H, a))]

    def vertical(self, H, p, tag):
        return p @ skew(H, tag, self.r, self.cx)

    def same(self, H, name, p, q):
        H.eq(name, p @ ct(H, p), q @ ct(H, q))

    def rank(self):
        n, k = self.n, self.r
        return 2 * n * k - k * k if self.cx else n * k - k * (k - 1) // 2


class GEll(G):
    quotient = True
    inv = True

    def __init__(self, n, k):
        super().__init__()
        self.n, self.r = n, k
        self.name = f"elliptope({n},{k})"

    def make(self, H):
        return H.mod(PK + "psd").Elliptope(self.n, self.r)

    def shape(self):
        return (self.n, self.r)

    def pt(self, H, tag):
        rows = []
        for i in range(self.n):
            Q = orth(H, f"{tag}r{i}_", self.r, 1)
            rows.append(Q[:, 0])
        return H.np.stack(rows)

    def tv(self, H, p, tag):
        """row-tangent vectors made horizontal by an independent formula (r = 2)"""
        W = H.reals(tag, self.n, self.r)
        E = W - p * H.np.sum(p * W, axis=1)[:, None]
        if self.r == 2:
            # Omega = w J, tr(Y^T Y) w = (Y^T E - E^T Y)_{01}
            a = T(H, p) @ E
            w = (a[0, 1] - a[1, 0]) / rdot(H, p, p)
            J = H.arr([[0, 1], [-1, 0]])
            return E - p @ (J * w)
        return E

    def on(self, H, p):
        return [("unit rows", H.np.sum(p * p, axis=1), H.np.ones(self.n))]

    def tan(self, H, p, v):
        a = T(H, p) @ v
        return [("rows orthogonal", H.np.sum(p * v, axis=1), H.np.zeros(self.n)), ("horizontal", a, T(H, a))]

    def vertical(self, H, p, tag):
        return p @ skew(H, tag, self.r)

    def same(self, H, name, p, q):
        H.eq(name, p @ T(H, p), q @ T(H, q))

    def rank(self):
        return self.n * (self.r - 1) - self.r * (self.r - 1) // 2


class GFix(G):
    """fixed rank, points (u, s, vt), tangent vectors (Up, M, Vp)"""

    def __init__(self, m, n, k):
        super().__init__()
        self.m, self.n, self.r = m, n, k
        self.name = f"fixedrank({m},{n},{k})"
        self.fr = []

    def make(self, H):
        return H.mod(PK + "fixed_rank").FixedRankEmbedded(self.m, self.n, self.r)

    def pt(self, H, tag):
        m = H.mod(PK + "fixed_rank")
        U = orth(H, tag + "u", self.m, self.r)
        V = orth(H, tag + "v", self.n, self.r)
        s = []
        acc = 0
        for i in reversed(range(self.r)):
            acc = acc + H.pos(f"{tag}s{i}", span=1.5)
            s.insert(0, acc)
        p = m._FixedRankPoint(U[:, :self.r], H.arr(s), T(H, V[:, :self.r]))
        self.fr.append((p, U, V))
        return p

    def UV(self, p):
        return next((u, v) for x, u, v in self.fr if x is p)

    def tv(self, H, p, tag):
        m = H.mod(PK + "fixed_rank")
        U, V = self.UV(p)
        r = self.r
        Up = U[:, r:] @ H.reals(tag + "a", self.m - r, r) if self.m > r else U[:, :r] * 0
        Vp = V[:, r:] @ H.reals(tag + "b", self.n - r, r) if self.n > r else V[:, :r] * 0
        return m._FixedRankTangentVector(Up, H.reals(tag + "M", r, r), Vp)

    def full(self, H, p):
        u, s, vt = p
        return (u * s) @ vt

    def embed(self, H, p, v):
        u, s, vt = p
        Up, M, Vp = v
        return u @ M @ vt + Up @ vt + u @ T(H, Vp)

    def amb(self, H, p, tag):
        return H.reals(tag, self.m, self.n)

    def ip(self, H, p, a, b):
        return rdot(H, self.embed(H, p, a), self.embed(H, p, b))

    def on(self, H, p):
        u, s, vt = p
        I = eye(H, self.r)
        return [("U orthonormal", T(H, u) @ u, I), ("V orthonormal", vt @ T(H, vt), I)]

    def pos(self, H, p):
        return [("singular values positive", p[1])]

    def tan(self, H, p, v):
        u, s, vt = p
        Up, M, Vp = v
        a, b = T(H, u) @ Up, vt @ Vp
        return [("Up orthogonal to U", a, a * 0), ("Vp orthogonal to V", b, b * 0)]

    def same(self, H, name, p, q):
        H.eq(name, self.full(H, p), self.full(H, q))

    def rank(self):
        return (self.m + self.n - self.r) * self.r


class GProd(G):
    def __init__(self, *gs):
        super().__init__()
        self.gs = gs
        self.name = "product[" + ",".join(g.name for g in gs) + "]"

    def make(self, H):
        return H.mod(PK + "product").Product([g.make(H) for g in self.gs])

    def TV(self, H, xs):
        return H.mod(PK + "product")._ProductTangentVector(xs)

    def pt(self, H, tag):
        return [g.pt(H, f"{tag}f{i}") for i, g in enumerate(self.gs)]

    def tv(self, H, p, tag):
        return self.TV(H, [g.tv(H, p[i], f"{tag}f{i}") for i, g in enumerate(self.gs)])

    def amb(self, H, p, tag):
        return [g.amb(H, p[i], f"{tag}f{i}") for i, g in enumerate(self.gs)]

    def on(self, H, p):
        return [(f"{i}:{n}", a, b) for i, g in enumerate(self.gs) for n, a, b in g.on(H, p[i])]

    def pos(self, H, p):
        return [(f"{i}:{n}", a) for i, g in enumerate(self.gs) for n, a in g.pos(H, p[i])]

    def tan(self, H, p, v):
        return [(f"{i}:{n}", a, b) for i, g in enumerate(self.gs) for n, a, b in g.tan(H, p[i], v[i])]

    def ip(self, H, p, a, b):
        return sum((g.ip(H, p[i], a[i], b[i]) for i, g in enumerate(self.gs)), 0)

    def embed(self, H, p, v):
        return [g.embed(H, p[i], v[i]) for i, g in enumerate(self.gs)]

    def same(self, H, name, p, q):
        for i, g in enumerate(self.gs):
            g.same(H, f"{name} {i}", p[i], q[i])

    def rank(self):
        return sum(g.rank() for g in self.gs)


def real_point(g):
    """the same manifold at points stored as real arrays (np.eye(n) as a unitary
    matrix, say), with complex tangent vectors"""
    orig = g.pt
    g.name += ",real-point"

    def pt(H, tag):
        if isinstance(g, GCirc):
            return H.arr([H.sign(f"{tag}{i}") for i in range(g.n)])
        g.cx = False
        try:
            return orig(H, tag)
        finally:
            g.cx = True
    g.pt = pt
    return g


SUB = [([[1, 0], [0, 1], [0, 0]], [[1, 0], [0, 1], [0, 0]], False, "sphere-in-plane"),
       ([[1, 2], [1, -1], [1, 1]], [[1, 4], [1, -5], [1, 1]], False, "sphere-in-tilted-plane"),
       ([[1], [1], [1]], [[1, 1], [-1, 1], [0, -2]], True, "sphere-off-line")]


def allgeo(tier="quick", what=None):
    """fresh specification objects (they hold per-path state)"""
    q = [
        lambda: GEuc((2,)), lambda: GEuc((2, 2)), lambda: GEuc((2, 1, 2)),
        lambda: GEuc((2,), True), lambda: GEuc((1, 2), True),
        lambda: GSym(2), lambda: GSym(2, 2), lambda: GSym(3),
        lambda: GSym(2, sk=True), lambda: GSym(2, 2, sk=True), lambda: GSym(3, sk=True),
        lambda: GSphere(2), lambda: GSphere(3), lambda: GSphere(2, 2),
        lambda: GSub(*SUB[0]), lambda: GSub(*SUB[1]), lambda: GSub(*SUB[2]),
        lambda: GObl(2, 1), lambda: GObl(2, 2), lambda: GObl(3, 2),
        lambda: GCirc(1), lambda: GCirc(2),
        lambda: GSt(2, 1), lambda: GSt(2, 2), lambda: GSt(3, 1), lambda: GSt(3, 2), lambda: GSt(2, 1, 2), lambda: GSt(2, 2, 2),
        lambda: GGr(2, 1), lambda: GGr(3, 1), lambda: GGr(3, 2), lambda: GGr(2, 1, 2), lambda: GGr(2, 2),
        lambda: GGr(2, 1, cx=True), lambda: GGr(3, 1, cx=True), lambda: GGr(2, 1, 2, cx=True), lambda: GGr(2, 2, cx=True),
        lambda: GOrth(1), lambda: GOrth(2), lambda: GOrth(3), lambda: GOrth(2, 2),
        lambda: GOrth(1, cx=True), lambda: GOrth(2, cx=True), lambda: GOrth(1, 2, cx=True),
        lambda: GPos(1, 2), lambda: GPos(2, 2), lambda: GPos(2, 1, 2), lambda: GPos(2, 1, 2, par=True), lambda: GPos(1, 2, par=True),
        lambda: GPd(1), lambda: GPd(2), lambda: GPd(2, 2), lambda: GPd(1, 2),
        lambda: GPd(1, cx=True), lambda: GPd(2, cx=True), lambda: GPd(2, 2, cx=True),
        lambda: GPd(2, cx=True, special=True), lambda: GPd(1, 2, cx=True, special=True),
        lambda: GBall(1), lambda: GBall(2), lambda: GBall(2, 2),
        lambda: GPsd(2, 1), lambda: GPsd(2, 2), lambda: GPsd(3, 1), lambda: GPsd(2, 1, True), lambda: GPsd(1, 1, True),
        lambda: GEll(2, 2), lambda: GEll(3, 2),
        lambda: GFix(2, 2, 1), lambda: GFix(3, 2, 1), lambda: GFix(3, 2, 2),
        lambda: GProd(GSphere(2), GEuc((2,))), lambda: GProd(GSphere(2)), lambda: GProd(GPos(1, 1), GSphere(2), GEuc((1,))),
        # three copies and sizes that differ from one another (axis mix-ups)
        lambda: GEuc((1, 2, 1, 2)), lambda: GSym(2, 3), lambda: GSphere(4), lambda: GSphere(2, 1, 2), lambda: GObl(2, 3), lambda: GCirc(3),
        lambda: GSt(2, 1, 3), lambda: GSt(3, 1, 2), lambda: GGr(3, 1, 2), lambda: GGr(2, 1, 3), lambda: GOrth(2, 3), lambda: GPos(2, 1, 3), lambda: GPd(1, 3),
        lambda: GPd(2, 3), lambda: GPd(2, 2, cx=True, special=True), lambda: GBall(3), lambda: GBall(2, 3),
        # larger matrices at fixed base points, all vectors
        lambda: fixed(GGr(3, 2, cx=True)), lambda: fixed(GGr(4, 2)), lambda: fixed(GGr(3, 2, 2)), lambda: fixed(GGr(3, 2, 2, cx=True)),
        lambda: fixed(GSt(4, 2)), lambda: fixed(GSt(4, 3)), lambda: fixed(GSt(3, 2, 2)),
        lambda: fixed(GOrth(4)), lambda: fixed(GOrth(3, 2)), lambda: fixed(GOrth(3, cx=True)),
        lambda: real_point(GEuc((2,), True)), lambda: real_point(GCirc(2)), lambda: real_point(GGr(2, 1, cx=True)),
        lambda: real_point(GOrth(2, cx=True)), lambda: real_point(GPd(2, cx=True)), lambda: real_point(GPsd(2, 1, True)),
    ]
    t = [
        lambda: GSphere(5), lambda: GSphere(1, 3), lambda: GObl(4, 1),
        lambda: GSt(4, 1), lambda: GSt(3, 3), lambda: GSt(2, 2, 3), lambda: GSt(4, 2), lambda: GSt(3, 2, 2),
        lambda: GGr(4, 1), lambda: GGr(4, 2), lambda: GGr(3, 2, 2), lambda: GGr(3, 2, cx=True),
        lambda: GOrth(3, 2), lambda: GOrth(4), lambda: GOrth(2, 2, cx=True),
        lambda: GPos(2, 3), lambda: GPos(2, 2, 2), lambda: GPd(3),
        lambda: GBall(1, 3), lambda: GBall(3, 2),
        lambda: GPsd(3, 2), lambda: GPsd(4, 1), lambda: GPsd(3, 1, True), lambda: GPsd(2, 2, True),
        lambda: GEll(4, 2), lambda: GFix(3, 3, 1), lambda: GFix(3, 3, 2), lambda: GFix(4, 2, 1),
        lambda: GProd(GSphere(2), GOrth(2), GPd(1)),
    ]
    return q if tier == "quick" else q + t


# configurations whose encoding outgrows the quick tier's time: they run in the thorough tier only
HEAVY = {
    ("quick", "c01"): {"definite:SPD(2,k=3)", "definite:ball(2,k=3)"},
    ("quick", "c03"): {"SO(2,k=3)", "SO(3,k=2),fixed frame", "SO(4),fixed frame", "U(3),fixed frame", "first order:SO(4),fixed frame",
                       "first order:U(3),fixed frame", "stiefel(4,3),fixed frame"},
    ("quick", "c04"): {f"{x}:{y},fixed frame" for x in ("exp", "exp zero", "log", "dist", "dist reversed", "dist self") for y in ("SO(4)", "U(3)")},
    ("quick", "c07"): {"mean:SO(4),fixed frame", "mean:U(3),fixed frame"},
    ("quick", "c13"): {"geodesic:SO(4),fixed frame", "geodesic:U(3),fixed frame", "retraction:U(3),fixed frame", "geodesic:ball(2,k=3)"},
    ("quick", "c06"): {"form:grassmann(3,1,k=2)"},
    ("quick", "c08"): {"point:SO(2,k=3)", "tangent:SHPD(2,k=2)"},
    ("quick", "c10"): {"mixed:oblique(2,3)", "opposite:oblique(2,3)", "pair:oblique(2,3)", "near:oblique(2,3)", "near:grassmann(2,1,k=3)",
                       "same-off:grassmann(2,1,k=3)", "near:grassmann(3,1,k=2)", "same-off:grassmann(3,1,k=2)", "origin:ball(2,k=3)"},
    ("quick", "c14"): {"geodesic:ball(2,k=3)", "geodesic:ball(3)", "geodesic:grassmann(2,1,k=3)", "retraction:SO(3,k=2),fixed frame", "partly_coincident:grassmann(2,1,k=3)", "retraction:SO(2,k=3)"} |
                      {f"{x}:{y},fixed frame" for x in ("geodesic", "partly_coincident") for y in ("cgrassmann(3,2,k=2)", "grassmann(3,2,k=2)", "SO(3,k=2)")},

}
# the engine cannot relate these to the reference at any budget
for _k in ("c04", "c07", "c13"):
    HEAVY["thorough", _k] = {x for x in HEAVY["quick", _k] if "SO(4)" in x}


def geo_configs(tier, fn, pre="", skip=None, weight=None, extra=None, **kw):
    out = []
    for mk in allgeo(tier):
        g = mk()
        if skip and skip(g) or pre + g.name in HEAVY.get((tier, fn.__module__.split(".")[-1]), ()):
            continue
        c = dict(name=pre + g.name, fn=fn, geo=mk, weight=(weight(g) if weight else 1), **kw)
        if extra:
            c.update(extra(g))
        out.append(c)
    return out
