"""C11: product manifolds, with arbitrary (abstract) factor manifolds"""
from .geo import *  # noqa

BOUNDS = ("one to three (thorough four) factors that are arbitrary manifolds (their operations are uninterpreted: every scalar they return is a "
          "free real, every other result an opaque value), any dimensions, the same factor object at one or several positions, layouts of one to three arrays per factor")
COVERS = ["Product.*"]


class Tok:
    """opaque result of an operation of one factor"""

    def __init__(self, *key):
        self.key = key

    def __eq__(self, o):
        return isinstance(o, Tok) and o.key == self.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return repr(self.key)


def factor_class(H):
    Mf = H.mod(PK + "manifold").Manifold

    class Factor(Mf):
        def __init__(self, i, dim, layout, typ):
            super().__init__(f"factor {i}", dim, layout)
            self.i, self.typ, self.scal = i, typ, {}
            self.calls = []

        typical_dist = property(lambda self: self.typ)

        def s(self, op, args, make):
            k = (op, args)
            self.calls.append(k)
            if k not in self.scal:
                self.scal[k] = make(f"f{self.i}{op}{len(self.scal)}")
            return self.scal[k]

        def inner_product(self, p, a, b):
            if a == b:
                return self.s("inner", (p, a, b), lambda n: H.nonneg(n))
            return self.s("inner", (p, a, b), lambda n: H.real(n))

        def norm(self, p, a):
            return H.np.sqrt(self.inner_product(p, a, a))

        def dist(self, a, b):
            return self.s("dist", (a, b), lambda n: H.nonneg(n))

        def random_tangent_vector(self, p):
            self.calls.append(("rtv", p))
            if not hasattr(self, "r"):
                self.r = H.reals(f"rtv{self.i}", 2)
            return self.r

    def op(name):
        def f(self, *a):
            self.calls.append((name, a))
            return Tok(self.i, name, a)
        return f
    for name in OPS:
        setattr(Factor, name, op(name))
    Factor.__abstractmethods__ = frozenset()
    return Factor


OPS = {"projection": 2, "to_tangent_space": 2, "euclidean_to_riemannian_gradient": 2, "euclidean_to_riemannian_hessian": 4,
       "exp": 2, "retraction": 2, "log": 2, "random_point": 0, "transport": 3, "pair_mean": 2, "zero_vector": 1}
TVS = {"projection", "to_tangent_space", "euclidean_to_riemannian_gradient", "euclidean_to_riemannian_hessian", "log", "transport",
       "zero_vector", "random_tangent_vector"}


def build(H, n, layouts=None, share=None):
    """share: which factor object stands at each position"""
    F = factor_class(H)
    share = share or list(range(n))
    fs = [F(i, H.nat(f"dim{i}"), (layouts or [1] * n)[i], H.pos(f"typ{i}")) for i in range(max(share) + 1)]
    fs = [fs[i] for i in share]
    pm = H.mod(PK + "product")
    return fs, pm.Product(fs), pm


def seq(H, name, got, want):
    H.check(f"{name}: one result per factor", isinstance(got, (list, tuple)) and len(got) == len(want), repr(got))
    for i, (x, y) in enumerate(zip(got, want)):
        H.check(f"{name}: component {i} is the factor's result", x == y, f"{x!r} instead of {y!r}")


def args(n, k, tag="x"):
    """k opaque arguments with n components each"""
    return [[Tok("arg", tag, j, i) for i in range(n)] for j in range(k)]


def ops(H, cfg):
    n = cfg["n"]
    fs, M, pm = build(H, n, share=cfg.get("share"))
    names = list(OPS)
    name = names[H.choose("op", len(names))]
    k = OPS[name]
    a = args(n, k)
    tup = H.choose("container", 2)
    if tup:
        a = [tuple(x) for x in a]
    r = getattr(M, name)(*a)
    seq(H, name, r, [Tok(f.i, name, tuple(x[i] for x in a)) for i, f in enumerate(fs)])
    if name in TVS:
        H.check(f"{name}: result supports vector operations", isinstance(r, pm._ProductTangentVector), type(r).__name__)
    for i, f in enumerate(fs):
        H.check(f"{name}: each factor is used once", len(f.calls) == sum(x is f for x in fs), str(f.calls))


def scalars(H, cfg):
    n = cfg["n"]
    fs, M, pm = build(H, n, share=cfg.get("share"))
    p, u, v, q = args(n, 4)
    r = M.inner_product(p, u, v)
    H.check("inner product is a scalar", H.np.ndim(r) == 0)
    H.eq("inner products add up", r, sum((f.inner_product(p[i], u[i], v[i]) for i, f in enumerate(fs)), H.num(0)))
    w = M.norm(p, u)
    H.eq("squared norms add up", w * w, sum((f.inner_product(p[i], u[i], u[i]) for i, f in enumerate(fs)), H.num(0)))
    H.le("norm is nonnegative", H.num(0), w)
    d = M.dist(p, q)
    H.check("distance is a scalar", H.np.ndim(d) == 0)
    H.eq("squared distances add up", d * d, sum((f.dist(p[i], q[i]) ** 2 for i, f in enumerate(fs)), H.num(0)))
    H.le("distance is nonnegative", H.num(0), d)
    t = M.typical_dist
    H.eq("squared typical distances add up", t * t, sum((f.typical_dist ** 2 for f in fs), H.num(0)))
    H.le("typical distance is nonnegative", H.num(0), t)
    H.eq("dimensions add up", M.dim + H.num(0), sum((f.dim for f in fs), H.num(0)), trace=False)


def rtv(H, cfg):
    n = cfg["n"]
    fs, M, pm = build(H, n, share=cfg.get("share"))
    (p,) = args(n, 1)
    r = M.random_tangent_vector(p)
    H.check("one component per factor", len(r) == n and isinstance(r, pm._ProductTangentVector))
    for i, f in enumerate(fs):
        H.eq("components share the unit norm equally", r[i] * r[i] * n, f.random_tangent_vector(p[i]) ** 2)
        H.eq("components keep their direction", r[i][0] * f.random_tangent_vector(p[i])[1], r[i][1] * f.random_tangent_vector(p[i])[0])
        H.check("drawn at the component", ("rtv", p[i]) in f.calls)


def layouts(H, cfg):
    n = cfg["n"]
    ls = [1 + H.choose(f"l{i}", 3) for i in range(n)]
    fs, M, pm = build(H, n, ls)
    H.check("layout lists the factors' layouts", tuple(M.point_layout) == tuple(ls), repr(M.point_layout))
    H.check("number of arrays is the total", M.num_values == sum(ls), repr(M.num_values))
    H.check("factors are kept in order", len(M.manifolds) == n and all(a is b for a, b in zip(M.manifolds, fs)))


def real(H, cfg):
    """a product of real factors against the factors themselves"""
    g = cfg["geo"]()
    M = g.make(H)
    p = g.pt(H, "p")
    v, w = g.tv(H, p, "v"), g.tv(H, p, "w")
    H.eq("inner product", M.inner_product(p, v, w), sum((x.make(H).inner_product(p[i], v[i], w[i]) for i, x in enumerate(g.gs)), H.num(0)))
    H.eq("retraction", list(M.retraction(p, v)), [x.make(H).retraction(p[i], v[i]) for i, x in enumerate(g.gs)])
    H.eq("transport", list(M.transport(p, p, v)), list(v))


def embed(H, cfg):
    g = cfg["geo"]()
    M = g.make(H)
    p = g.pt(H, "p")
    v = g.tv(H, p, "v")
    H.eq("embedding embeds every component", list(M.embedding(p, v)), [x.make(H).embedding(p[i], v[i]) for i, x in enumerate(g.gs)])


def configs(tier):
    out = []
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        o = dict(ints=True)
        out.append(dict(name=f"operations:{n}", fn=ops, n=n, opts=o, max_paths=400))
        out.append(dict(name=f"scalars:{n}", fn=scalars, n=n, opts=o))
        out.append(dict(name=f"random tangent vector:{n}", fn=rtv, n=n, opts=o))
        out.append(dict(name=f"layouts:{n}", fn=layouts, n=n, opts=o, max_paths=400))
    for share in [(0, 0), (0, 1, 0)] + ([(0, 0, 0), (0, 1, 1, 0)] if tier != "quick" else []):
        n, t = len(share), "".join(map(str, share))
        for nm, f in (("operations", ops), ("scalars", scalars), ("random tangent vector", rtv)):
            out.append(dict(name=f"{nm}:repeated factor {t}", fn=f, n=n, share=share, opts=dict(ints=True), max_paths=400))
    for mk in (lambda: GProd(GOrth(2), GEuc((2,))), lambda: GProd(GSphere(2), GPd(1), GOrth(2))):
        out.append(dict(name="factors:" + mk().name, fn=real, geo=mk))
        out.append(dict(name="embedding:" + mk().name, fn=embed, geo=mk))
    out.append(dict(name="embedding:plain", fn=embed, geo=lambda: GProd(GEuc((2,)), GSphere(2))))
    return out
