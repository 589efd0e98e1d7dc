"""Arbitrary manifold / cost oracles for the optimizer harnesses.

The manifold is abstract: points are opaque tokens, tangent vectors are
coordinate vectors with the standard inner product, retraction returns an
arbitrary new point, and cost / gradient / Hessian at every point are fresh
symbolic reals (same point -> same value)."""

STUB = ("optimizers run on an abstract manifold: opaque points, standard inner product on coordinate vectors, "
        "arbitrary (fresh) cost, gradient and symmetric Hessian at every point")


class Pt:
    """an opaque point"""
    __array_ufunc__ = None

    def __init__(self, i, parent=None, vec=None):
        self.i, self.parent, self.vec = i, parent, vec

    def __repr__(self):
        return f"<point {self.i}>"

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def make_man(H, n=1, typical=None, transport="id", dist=None, log=None, metric=False, names=""):
    Manifold = H.mod("pymanopt.manifolds.manifold").Manifold

    class Man(Manifold):
        """abstract manifold of dimension n"""

        def __init__(self):
            super().__init__("abstract manifold", n)
            self.n = n
            self.points = []
            self.nt = 0
            self.retractions = []
            self.wts, self.maps = {}, {}

        def __deepcopy__(self, memo):
            return self

        @property
        def typical_dist(self):
            if typical is None:
                raise NotImplementedError
            return typical

        def new(self, parent=None, vec=None):
            p = Pt(len(self.points), parent, vec)
            self.points.append(p)
            return p

        def weights(self, point):
            """diagonal of the metric at a point"""
            if not metric:
                return [1] * n
            if point.i not in self.wts:
                self.wts[point.i] = [H.pos(f"{names}w{point.i}_{i}", span=1.5) for i in range(n)]
            return self.wts[point.i]

        def inner_product(self, point, a, b):
            s = 0
            w = self.weights(point)
            for i in range(n):
                s = s + w[i] * a[i] * b[i]
            return s

        def norm(self, point, v):
            if n == 1 and not metric:
                return abs(v[0])
            return H.np.sqrt(self.inner_product(point, v, v))

        def zero_vector(self, point):
            return H.np.zeros(n)

        def random_point(self):
            return self.new()

        def random_tangent_vector(self, point):
            self.nt += 1
            return H.reals(f"rt{self.nt}", n)

        def retraction(self, point, tangent_vector):
            p = self.new(point, tangent_vector)
            self.retractions.append(p)
            return p

        exp = retraction

        def to_tangent_space(self, point, vector):
            return vector

        projection = to_tangent_space
        embedding = to_tangent_space

        def euclidean_to_riemannian_gradient(self, point, g):
            return g

        def euclidean_to_riemannian_hessian(self, point, g, h, v):
            return h

        def transport(self, point_a, point_b, v):
            if point_a is point_b or transport == "id":
                return v
            if transport == "lin":
                k = (point_a.i, point_b.i)
                if k not in self.maps:
                    self.maps[k] = H.reals(f"{names}T{k[0]}_{k[1]}", n, n)
                return H.arr([sum((self.maps[k][i, j] * v[j] for j in range(n)), H.num(0)) for i in range(n)])
            self.nt += 1
            return H.reals(f"tr{self.nt}", n)

        def log(self, point_a, point_b):
            if log is not None:
                return log(H)
            self.nt += 1
            return H.reals(f"lg{self.nt}", n)

        def pair_mean(self, point_a, point_b):
            return self.new(point_a)

        def dist(self, point_a, point_b):
            if dist is not None:
                return dist(H)
            self.nt += 1
            return H.nonneg(f"di{self.nt}")

    return Man()


class Oracle:
    """arbitrary cost, gradient and (linear, symmetric) Hessian"""

    def __init__(self, H, man, pre=False, span=3.0, names=""):
        self.H, self.manifold = H, man
        self.names = names
        self.pres, self.pre = {}, pre
        self.span = span
        self.costs = {}      # point id -> value
        self.evals = []      # points in evaluation order
        self.grads = {}
        self.gevals = []
        self.hess = {}
        self.hevals = 0
        pm = H.mod("pymanopt")
        dec = pm.function.numpy(man)

        def cost(point):
            self.evals.append(point)
            return self.f(point)

        def gradient(point):
            self.gevals.append(point)
            return H.np.array(self.g(point))

        def hessian(point, vector):
            self.hevals += 1
            return self.h(point, vector)

        self.problem = pm.Problem(man, dec(cost), riemannian_gradient=dec(gradient),
                                  riemannian_hessian=dec(hessian), preconditioner=(lambda p, v: self.p(p, v)) if pre else None)

    def f(self, p):
        if p.i not in self.costs:
            self.costs[p.i] = self.H.real(f"{self.names}f{p.i}", span=self.span)
        return self.costs[p.i]

    def g(self, p):
        if p.i not in self.grads:
            self.grads[p.i] = self.H.reals(f"{self.names}g{p.i}", self.manifold.n)
        return self.grads[p.i]

    def p(self, p, v):
        """diagonal positive definite preconditioner"""
        n = self.manifold.n
        if p.i not in self.pres:
            self.pres[p.i] = [self.H.pos(f"{self.names}P{p.i}_{i}", span=1.5) for i in range(n)]
        return self.H.arr([self.pres[p.i][i] * v[i] for i in range(n)])

    def hmat(self, p):
        H, n = self.H, self.manifold.n
        if p.i not in self.hess:
            A = [[None] * n for _ in range(n)]
            for i in range(n):
                for j in range(i, n):
                    A[i][j] = A[j][i] = H.real(f"{self.names}h{p.i}_{i}{j}", span=3.0)
            self.hess[p.i] = A
        return self.hess[p.i]

    def h(self, p, v):
        n = self.manifold.n
        A = self.hmat(p)
        out = []
        for i in range(n):
            s = 0
            for j in range(n):
                s = s + A[i][j] * v[j]
            out.append(s)
        return self.H.arr(out)


class AnyStep:
    """a line search that may return anything"""

    def __init__(self, H, tag="ls", zero=False):
        self.H, self.tag = H, tag
        self.calls = []
        self.zero = zero

    def __deepcopy__(self, memo):
        return self

    def search(self, objective, manifold, x, d, f0, df0):
        k = len(self.calls)
        s = self.H.nonneg(f"{self.tag}{k}")
        nx = manifold.new(x, d)
        self.calls.append((x, d, f0, df0, s, nx))
        return s, nx
