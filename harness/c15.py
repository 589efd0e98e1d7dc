"""C15: problems over an abstract manifold with an arbitrary point layout"""
from .geo import *  # noqa

BOUNDS = ("all points, vectors and derivative values (real pairs per array); twelve point layouts with up to four arrays; all 36 combinations of "
          "supplied derivatives; backends: numpy and an abstract automatic-differentiation backend; calls repeated and reordered up to "
          "five times, also after the caller overwrites its arrays in place; manifold conversions and embedding are arbitrary affine maps with symbolic coefficients")
LAYOUTS = [1, 2, 3, 4, (1,), (1, 1), (1, 2), (2, 1), (3, 1), (1, 1, 1), [2, 2], [1, 2, 1]]


def total(lay):
    return sum(lay) if isinstance(lay, (tuple, list)) else lay


def shape(lay, flat):
    """arrange a flat list in the layout of points"""
    if lay == 1 and not isinstance(lay, (tuple, list)):
        return flat[0]
    if isinstance(lay, int):
        return list(flat)
    out, i = [], 0
    for n in lay:
        out.append(flat[i] if n == 1 else list(flat[i:i + n]))
        i += n
    return out


def leaves(x):
    if isinstance(x, (list, tuple)):
        return [e for y in x for e in leaves(y)]
    return [x]


def nested(x):
    """nesting of lists only"""
    return [nested(e) for e in x] if isinstance(x, (list, tuple)) else 0


class Vec(list):
    """composite vector of the stub manifold"""

    def __add__(self, other):
        return Vec(a + b if isinstance(a, Vec) else b + a for a, b in zip(self, other))


def vec(x):
    return Vec(vec(e) for e in x) if isinstance(x, (list, tuple)) else x


class Model:
    """coefficients of all maps"""

    def __init__(self, H, n):
        self.H, self.n = H, n
        self.c = {k: [H.reals(f"{k}{i}", 2) for i in range(n)] for k in
                  ("cost", "eg", "rg", "eh", "eh2", "rh", "rh2", "cg", "cg2", "ch0", "ch1", "ch2", "ch3", "em", "em2", "bg", "bh", "bh2")}

    def lin(self, k, xs):
        return [a * x for a, x in zip(self.c[k], xs)]

    def add(self, *xs):
        return [sum(t[1:], t[0]) for t in zip(*xs)]

    def cost(self, xs):
        return sum((self.H.np.sum(a) for a in self.lin("cost", xs)), self.H.num(0))

    def egrad(self, xs):
        return [a * x * x for a, x in zip(self.c["eg"], xs)]

    def rgrad(self, xs):
        return [a * x * x for a, x in zip(self.c["rg"], xs)]

    def ehess(self, xs, vs):
        return self.add(self.lin("eh", xs), self.lin("eh2", vs))

    def rhess(self, xs, vs):
        return self.add(self.lin("rh", xs), self.lin("rh2", vs))

    # derivatives made by the backend
    def bgrad(self, xs):
        return [a * x * x for a, x in zip(self.c["bg"], xs)]

    def bhess(self, xs, vs):
        return self.add(self.lin("bh", xs), self.lin("bh2", vs))

    # manifold
    def conv_g(self, xs, g):
        return self.add(self.lin("cg", xs), self.lin("cg2", g))

    def conv_h(self, xs, g, h, v):
        return self.add(self.lin("ch0", xs), self.lin("ch1", g), self.lin("ch2", h), self.lin("ch3", v))

    def embed(self, xs, v):
        return self.add(self.lin("em", xs), self.lin("em2", v))


def manifold(H, m, lay):
    Mf = H.mod(PK + "manifold").Manifold

    class Stub(Mf):
        def __init__(self):
            super().__init__("stub", 3, lay)

        def euclidean_to_riemannian_gradient(self, point, euclidean_gradient):
            return shape(lay, m.conv_g(leaves(point), leaves(euclidean_gradient)))

        def euclidean_to_riemannian_hessian(self, point, euclidean_gradient, euclidean_hessian, tangent_vector):
            return shape(lay, m.conv_h(leaves(point), leaves(euclidean_gradient), leaves(euclidean_hessian), leaves(tangent_vector)))

        def embedding(self, point, tangent_vector):
            return shape(lay, m.embed(leaves(point), leaves(tangent_vector)))
        def zero_vector(self, point):
            return vec(shape(lay, [H.np.zeros(2) for _ in range(total(lay))]))
    Stub.__abstractmethods__ = frozenset()
    return Stub()


def backend(H, m):
    """an automatic differentiation backend whose operators are arbitrary"""
    B = H.mod("pymanopt.autodiff.backends._backend").Backend

    class Abstract(B):
        def __init__(self):
            super().__init__("abstract")

        @staticmethod
        def is_available():
            return True

        def prepare_function(self, function):
            return function

        def generate_gradient_operator(self, function, num_arguments):
            def grad(*args):
                assert len(args) == num_arguments
                r = m.bgrad(list(args))
                return r[0] if num_arguments == 1 else r
            return grad

        def generate_hessian_operator(self, function, num_arguments):
            def hess(*args):
                assert len(args) == 2 * num_arguments
                r = m.bhess(list(args[:num_arguments]), list(args[num_arguments:]))
                return r[0] if num_arguments == 1 else r
            return hess
    return H.mod("pymanopt.autodiff").backend_decorator_factory(Abstract)


def one(n, r, lay):
    """single arrays for manifolds with one array (compound layouts need sequences)"""
    return r[0] if n == 1 and isinstance(lay, int) else r


def same(H, name, lay, got, want):
    H.check(f"{name}: arranged in the point layout", nested(got) == nested(shape(lay, want)), f"{nested(got)}")
    H.eq(name, leaves(got), want)


def main(H, cfg):
    lay = cfg["lay"]
    n = total(lay)
    m = Model(H, n)
    M = manifold(H, m, lay)
    ad = cfg["ad"]
    dec = (backend(H, m) if ad else H.mod("pymanopt.function").numpy)(M)
    given = {}
    if cfg["g"] == 1:
        given["euclidean_gradient"] = dec(lambda *x: one(n, m.egrad(list(x)), lay))
    if cfg["g"] == 2:
        given["riemannian_gradient"] = dec(lambda *x: one(n, m.rgrad(list(x)), lay))
    if cfg["h"] == 1:
        given["euclidean_hessian"] = dec(lambda *x: one(n, m.ehess(list(x[:n]), list(x[n:])), lay))
    if cfg["h"] == 2:
        given["riemannian_hessian"] = dec(lambda *x: one(n, m.rhess(list(x[:n]), list(x[n:])), lay))
    Pr = H.mod("pymanopt.core.problem").Problem(M, dec(lambda *x: m.cost(list(x))), **given)

    eg = m.egrad if cfg["g"] == 1 else m.bgrad
    rg = m.rgrad if cfg["g"] == 2 else (lambda x: m.conv_g(x, eg(x)))
    eh = (lambda x, v: m.ehess(x, m.embed(x, v))) if cfg["h"] == 1 else (lambda x, v: m.bhess(x, m.embed(x, v)))
    rh = m.rhess if cfg["h"] == 2 else (lambda x, v: m.conv_h(x, eg(x), eh(x, v), v))
    pts = [[H.reals(f"x{k}_{i}", 2) for i in range(n)] for k in range(2)]
    vs = [[H.reals(f"v{k}_{i}", 2) for i in range(n)] for k in range(2)]
    made = {}

    def sh(t):
        # the same point object at every call
        return made.setdefault(id(t), (shape(lay, t), t))[0]
    can_eg = ad or cfg["g"] == 1
    can_rg = ad or cfg["g"] > 0
    can_eh = ad or cfg["h"] == 1
    can_rh = cfg["h"] == 2 or can_eg and can_eh

    def c(k):
        H.eq("cost is the supplied cost", Pr.cost(sh(pts[k])), m.cost(pts[k]))

    def geg(k):
        if can_eg:
            same(H, "Euclidean gradient", lay, Pr.euclidean_gradient(sh(pts[k])), eg(pts[k]))

    def grg(k):
        if can_rg:
            same(H, "Riemannian gradient", lay, Pr.riemannian_gradient(sh(pts[k])), rg(pts[k]))

    def geh(k):
        if can_eh:
            same(H, "Euclidean Hessian", lay, Pr.euclidean_hessian(sh(pts[k]), sh(vs[k])), eh(pts[k], vs[k]))

    def grh(k):
        if can_rh:
            same(H, "Riemannian Hessian", lay, Pr.riemannian_hessian(sh(pts[k]), sh(vs[k])), rh(pts[k], vs[k]))
    calls = [c, geg, grg, geh, grh]
    if H.choose("order", 2):
        calls = calls[::-1]
    for k in (0, 1, 0):
        for f in calls:
            f(k)
    # the caller may reuse its arrays for another point or vector
    for i in range(n):
        pts[0][i][...] = H.reals(f"y{i}", 2)
    for f in calls:
        f(0)
    for i in range(n):
        vs[0][i][...] = H.reals(f"w{i}", 2)
    for f in calls:
        f(0)
    if not can_rh:
        H.raises("missing Hessian is an error", lambda: Pr.riemannian_hessian(sh(pts[0]), sh(vs[0])), NotImplementedError)
    if not can_rg:
        H.raises("missing gradient is an error", lambda: Pr.riemannian_gradient(sh(pts[0])), NotImplementedError)


def wrong(H, cfg):
    """operators that return the wrong number of arrays"""
    lay = cfg["lay"]
    n = total(lay)
    m = Model(H, n)
    M = manifold(H, m, lay)
    dec = H.mod("pymanopt.function").numpy(M)
    P = H.mod("pymanopt.core.problem").Problem
    x = [H.reals(f"x{i}", 2) for i in range(n)]
    k = H.choose("returned", n + 2)
    bad = [m.c["eg"][0]] * k if k else m.c["eg"][0]
    Pr = P(M, dec(lambda *a: m.cost(list(a))), euclidean_gradient=dec(lambda *a: bad), euclidean_hessian=dec(lambda *a: bad))
    if k == n or k == 0 and n == 1:
        return
    H.raises("wrong number of gradients is an error", lambda: Pr.euclidean_gradient(shape(lay, x)), ValueError)
    H.raises("wrong number of Hessians is an error", lambda: Pr.euclidean_hessian(shape(lay, x), shape(lay, x)), ValueError)


def precon(H, cfg):
    m = Model(H, 1)
    M = manifold(H, m, 1)
    dec = H.mod("pymanopt.function").numpy(M)
    P = H.mod("pymanopt.core.problem").Problem
    x, v = H.reals("x", 2), H.reals("v", 2)
    c = dec(lambda a: m.cost([a]))
    H.eq("default preconditioner is the identity", P(M, c).preconditioner(x, v), v)
    f = lambda p, t: p * 2 + t * 3
    Pr = P(M, c, preconditioner=f)
    H.eq("supplied preconditioner is used", Pr.preconditioner(x, v), x * 2 + v * 3)
    H.check("manifold is kept", Pr.manifold is M)


def real(H, cfg):
    """quadratic cost over a real manifold: derived operators against the definitions"""
    g = cfg["geo"]()
    M = g.make(H)
    dec = H.mod("pymanopt.function").numpy(M)
    p = g.pt(H, "p")
    v, w = g.tv(H, p, "v"), g.tv(H, p, "w")
    A = g.amb(H, p, "A")
    B = g.amb(H, p, "B")
    eg = lambda x: A + B * H.np.sum(B * x)
    eh = lambda x, u: B * H.np.sum(B * u)
    Pr = H.mod("pymanopt.core.problem").Problem(M, dec(lambda x: H.np.sum(A * x) + H.np.sum(B * x) ** 2 / 2),
                                                euclidean_gradient=dec(eg), euclidean_hessian=dec(eh))
    r = Pr.riemannian_gradient(p)
    H.eq("Riemannian gradient represents the differential", g.ip(H, p, r, v), rdot(H, eg(p), g.embed(H, p, v)))
    h = Pr.riemannian_hessian(p, v)
    H.eq("Riemannian Hessian is self-adjoint", g.ip(H, p, h, w), g.ip(H, p, v, Pr.riemannian_hessian(p, w)))
    H.eq("Euclidean Hessian acts on embedded vectors", Pr.euclidean_hessian(p, v), eh(p, g.embed(H, p, v)))


def composite(H, cfg):
    """user-defined Riemannian derivatives on composite manifolds are tangent vectors, whatever sequence the user returns"""
    mf = H.mod("pymanopt.manifolds")
    M = {"R2 x S1": lambda: mf.Product([mf.Euclidean(2), mf.Sphere(2)]), "S1": lambda: mf.Product([mf.Sphere(2)]),
         "fixed rank": lambda: mf.FixedRankEmbedded(3, 2, 1),
         "fixed rank x R2": lambda: mf.Product([mf.FixedRankEmbedded(3, 2, 1), mf.Euclidean(2)])}[cfg["on"]]()
    sizes = {"R2 x S1": [(2,), (2,)], "S1": [(2,)], "fixed rank": [(3, 1), (1,), (1, 2)], "fixed rank x R2": [(3, 1), (1,), (1, 2), (2,)]}[cfg["on"]]
    tsizes = [(3, 1), (1, 1), (2, 1)] + sizes[3:] if "fixed" in cfg["on"] else sizes
    lay = M.point_layout
    mk = lambda t, sz: [H.reals(f"{t}{i}", *s) for i, s in enumerate(sz)]
    x, v, g, h = mk("x", sizes), mk("v", tsizes), mk("g", tsizes), mk("h", tsizes)
    kind = [tuple, list][H.choose("sequence", 2)]
    dec = H.mod("pymanopt.function").numpy(M)
    P = H.mod("pymanopt.core.problem").Problem(M, dec(lambda *a: H.num(0)), riemannian_gradient=dec(lambda *a: kind(g)),
                                               riemannian_hessian=dec(lambda *a: kind(h)))
    pt = shape(lay, x)
    G, Hs = P.riemannian_gradient(pt), P.riemannian_hessian(pt, shape(lay, v))
    same(H, "gradient", lay, G, g)
    same(H, "Hessian", lay, Hs, h)
    a = H.real("a")
    for name, val, want in (("negative", lambda: -G, [-e for e in g]), ("multiple", lambda: a * Hs, [a * e for e in h]),
                            ("difference", lambda: Hs - G, [p - q for p, q in zip(h, g)]), ("sum", lambda: G + a * Hs, [q + a * p for p, q in zip(h, g)])):
        z = H.noraise(f"{name} of user-defined derivatives exists", val)
        if z is not None:
            same(H, name + " of user-defined derivatives", lay, z, want)


def configs(tier):
    out = []
    for lay in LAYOUTS + ([(2, 3), [1, 3, 2]] if tier != "quick" else []):
        for ad in (0, 1):
            for g in (0, 1, 2):
                for h in (0, 1, 2):
                    out.append(dict(name=f"layout {lay}: {'autodiff' if ad else 'numpy'} gradient {'-ER'[g]} Hessian {'-ER'[h]}",
                                    fn=main, lay=lay, ad=ad, g=g, h=h))
        if not isinstance(lay, int):
            out.append(dict(name=f"layout {lay}: wrong operators", fn=wrong, lay=lay))
    for on in ("R2 x S1", "S1", "fixed rank", "fixed rank x R2"):
        out.append(dict(name="composite:" + on.replace(" ", "_"), fn=composite, on=on))
    out.append(dict(name="preconditioner", fn=precon))
    for mk in (lambda: GSphere(2), lambda: GOrth(2), lambda: GSt(2, 1), lambda: GPos(1, 2), lambda: GEuc((2,)), lambda: GPd(2)):
        out.append(dict(name="manifold:" + mk().name, fn=real, geo=mk))
    return out
