"""C09: reported dimension and constructor arguments.

`rank`: at a symbolic point the rank of the tangent space is the trace of the
(idempotent, see C02) projection over a real basis of the ambient space.
`formula`: the constructors run with symbolic integer sizes and the reported
dimension is compared with the true one for all of them."""
import warnings
from .geo import *  # noqa

BOUNDS = ("rank of the projection: all points, sizes up to 3x3, batches of 2; dimension formulas and rejected arguments: all integer "
          "sizes of one or two array axes")
COVERS = ["*.__init__", "*.dim", "*.projection"]


def basis(H, shape, cx):
    for i in range(int(np_prod(shape))):
        for im in ((0, 1) if cx else (0,)):
            e = [0] * int(np_prod(shape))
            e[i] = 1
            if cx:
                e[i] = H.cx(0, 1) if im else H.cx(1, 0)
            E = H.np.reshape(H.carr(e) if cx else H.arr(e), shape)
            yield E, i, im


def np_prod(shape):
    r = 1
    for s in shape:
        r *= s
    return r


def trace(H, g, M, p, project=None):
    shape = (g.m, g.n) if isinstance(g, GFix) else g.shape()
    project = project or M.projection
    t = 0
    for E, i, im in basis(H, shape, g.cx):
        y = H.np.reshape(g.embed(H, p, project(p, E)), (-1,))[i]
        t = t + (y.imag if im else y.real if g.cx else y)
    return t


def wrong_hpd(g, M):
    """the recorded finding: n(n+1) instead of n^2"""
    return isinstance(g, GPd) and g.cx and int(M.dim) == g.k * (g.n * (g.n + 1) - (1 if g.special else 0))


def rank(H, cfg):
    g = cfg["geo"]()
    M = g.make(H)
    p = g.pt(H, "p")
    if isinstance(g, GProd):
        t = 0
        for i, x in enumerate(g.gs):
            t = t + trace(H, x, x.make(H), p[i])
    else:
        t = trace(H, g, M, p)
    name = "reported dimension equals the rank of the projection"
    if wrong_hpd(g, M):
        name = "dimension n(n+1) reported equals the rank of the projection"
    H.eq(name, H.num(int(M.dim)), t)
    H.check("dimension is a nonnegative integer", int(M.dim) == M.dim and M.dim >= 0)


# ---------------------------------------------------------------- all sizes
def combos(H, names, los):
    """symbolic sizes; in replay all small sizes"""
    if H.symbolic:
        yield [H.nat(n, lo) for n, lo in zip(names, los)]
        return
    import itertools
    yield from itertools.product(*[range(lo, lo + 4) for lo in los])


def C(H, name):
    mod, cls = name.rsplit(".", 1)
    return getattr(H.mod(PK + mod), cls)


def half(x):
    return x / 2


def formula(H, cfg):
    for sz in combos(H, cfg["names"], cfg["los"]):
        sz = list(sz)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            M, d = cfg["make"](H, *sz)
        name = "reported dimension for all sizes"
        w = cfg.get("wrong")
        if w is not None:
            e = M.dim - w(*sz)
            if e.is_zero() if H.symbolic else e == 0:
                name = "dimension n(n+1) reported for all sizes"
        H.eq(name, M.dim + H.num(0), d + H.num(0), trace=False)


def reject(H, cfg):
    for sz in combos(H, cfg["names"], cfg["los"]):
        H.raises("arguments outside the documented range are rejected", lambda: cfg["make"](H, *sz), (ValueError, TypeError))


def base(H):
    Mf = H.mod(PK + "manifold").Manifold
    return type("X", (Mf,), {n: (lambda self, *a, **k: None) for n in Mf.__abstractmethods__})


def layout(H, cfg):
    """the base class validates dimension and layout"""
    cls = base(H)
    what = H.choose("what", 5)
    if what == 0:
        H.raises("negative dimension is rejected", lambda: cls("x", -1 - H.choose("d", 3)), ValueError)
    elif what == 1:
        H.raises("non-integer dimension is rejected", lambda: cls("x", [2.5, "2", None][H.choose("e", 3)]), TypeError)
    elif what == 2:
        bad = [0, -1, (1, 0), (2, -1), [0]]
        H.raises("non-positive layout is rejected", lambda: cls("x", 1, bad[H.choose("l", len(bad))]), ValueError)
    elif what == 3:
        badt = ["1", 1.5, None]
        H.raises("layout of a wrong type is rejected", lambda: cls("x", 1, badt[H.choose("t", len(badt))]), TypeError)
    else:
        good = [1, 3, (1, 1), (1, 3), [1, 2]]
        want = [1, 3, 2, 4, 3]
        i = H.choose("g", len(good))
        d = H.choose("gd", 3)
        M = cls("name", d, good[i])
        H.check("dimension reported as given", M.dim == d)
        H.check("number of values is the total of the layout", M.num_values == want[i], str(M.num_values))
        H.check("name is reported", str(M) == "name")


def nested(H, cfg):
    P = H.mod(PK + "product").Product
    E = H.mod(PK + "euclidean").Euclidean
    inner = P([E(1), E(2)])
    pos = H.choose("pos", 3)
    ms = [E(1), E(3)]
    ms.insert(pos, inner)
    H.raises("nested products are rejected", lambda: P(ms), ValueError)


def span(H, cfg):
    """sphere-subspace intersections: dimension from the rank of the matrix"""
    sp = H.mod(PK + "sphere")
    A = H.arr(cfg["A"])
    cls = sp.SphereSubspaceComplementIntersection if cfg["comp"] else sp.SphereSubspaceIntersection
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        if cfg["dim"] is None:
            H.raises("span matrix outside the documented range is rejected", lambda: cls(A), ValueError)
            return
        M = cls(A)
    H.check("dimension is the subspace dimension minus one", M.dim == cfg["dim"], str(M.dim))
    H.check("warning exactly for dimension zero", (len(w) > 0) == (cfg["dim"] == 0), str(len(w)))


def kk(f, *a):
    """k = 1 and all k >= 2"""
    return a


FORM = []


def add(name, names, los, make, wrong=None):
    FORM.append(dict(name="formula:" + name, fn=formula, names=names, los=los, make=make, opts=dict(ints=True), wrong=wrong))


def addk(name, names, los, make, wrong=None):
    """with number of copies: one, and two or more"""
    add(name + " single", names, los, lambda H, *s: make(H, *s, 1), (lambda *s: wrong(*s, 1)) if wrong else None)
    add(name + " batch", names + ["k"], los + [2], make, wrong)


addk("symmetric", ["n"], [1], lambda H, n, k: (C(H, "euclidean.Symmetric")(n, k), k * n * (n + 1) / 2))
addk("skew", ["n"], [1], lambda H, n, k: (C(H, "euclidean.SkewSymmetric")(n, k), k * n * (n - 1) / 2))
for i in (1, 2, 3, 4, 5):
    nm = ["a", "b", "c", "d", "e"][:i]
    add(f"euclidean rank {i}", nm, [1] * i, lambda H, *s: (C(H, "euclidean.Euclidean")(*s), np_prod(s)))
    add(f"complex euclidean rank {i}", nm, [1] * i, lambda H, *s: (C(H, "euclidean.ComplexEuclidean")(*s), 2 * np_prod(s)))
    add(f"sphere rank {i}", nm, [2] + [1] * (i - 1), lambda H, *s: (C(H, "sphere.Sphere")(*s), np_prod(s) - 1))
add("circle", ["n"], [1], lambda H, n: (C(H, "complex_circle.ComplexCircle")(n), n))
add("oblique", ["m", "n"], [1, 1], lambda H, m, n: (C(H, "oblique.Oblique")(m, n), (m - 1) * n))
addk("stiefel", ["r", "p"], [0, 1], lambda H, r, p, k: (C(H, "stiefel.Stiefel")(p + r, p, k=k), k * ((p + r) * p - p * (p + 1) / 2)))
addk("grassmann", ["r", "p"], [0, 1], lambda H, r, p, k: (C(H, "grassmann.Grassmann")(p + r, p, k=k), k * r * p))
addk("complex grassmann", ["r", "p"], [0, 1], lambda H, r, p, k: (C(H, "grassmann.ComplexGrassmann")(p + r, p, k=k), 2 * k * r * p))
addk("rotations", ["n"], [1], lambda H, n, k: (C(H, "group.SpecialOrthogonalGroup")(n, k=k), k * n * (n - 1) / 2))
addk("unitary", ["n"], [1], lambda H, n, k: (C(H, "group.UnitaryGroup")(n, k=k), k * n * n))
addk("positive", ["m", "n"], [1, 1], lambda H, m, n, k: (C(H, "positive.Positive")(m, n, k=k), k * m * n))
addk("SPD", ["n"], [1], lambda H, n, k: (C(H, "positive_definite.SymmetricPositiveDefinite")(n, k=k), k * n * (n + 1) / 2))
addk("HPD", ["n"], [1], lambda H, n, k: (C(H, "positive_definite.HermitianPositiveDefinite")(n, k=k), k * n * n),
     lambda n, k: k * n * (n + 1))
addk("SHPD", ["n"], [1], lambda H, n, k: (C(H, "positive_definite.SpecialHermitianPositiveDefinite")(n, k=k), k * (n * n - 1)),
     lambda n, k: k * n * (n + 1) - k)
addk("ball", ["n"], [1], lambda H, n, k: (C(H, "hyperbolic.PoincareBall")(n, k=k), n * k))
add("psd", ["r", "k"], [0, 1], lambda H, r, k: (C(H, "psd.PSDFixedRank")(k + r, k), (k + r) * k - k * (k - 1) / 2))
add("complex psd", ["r", "k"], [0, 1], lambda H, r, k: (C(H, "psd.PSDFixedRankComplex")(k + r, k), 2 * (k + r) * k - k * k))
add("elliptope", ["r", "k"], [0, 2], lambda H, r, k: (C(H, "psd.Elliptope")(k + r, k), (k + r) * (k - 1) - k * (k - 1) / 2))
add("fixed rank", ["a", "b", "k"], [0, 0, 1], lambda H, a, b, k: (C(H, "fixed_rank.FixedRankEmbedded")(k + a, k + b, k), (k + a + k + b - k) * k))


def prodm(H, a, b, r, p):
    E, S = C(H, "euclidean.Euclidean")(a), C(H, "sphere.Sphere")(b)
    G_ = C(H, "stiefel.Stiefel")(p + r, p)
    return C(H, "product.Product")([E, S, G_]), a + b - 1 + (p + r) * p - p * (p + 1) / 2


add("product", ["a", "b", "r", "p"], [1, 2, 0, 1], prodm)

REJ = []


def rej(name, names, los, make):
    REJ.append(dict(name="rejects:" + name, fn=reject, names=names, los=los, make=make, opts=dict(ints=True)))


for mod, cls in (("stiefel", "Stiefel"), ("grassmann", "Grassmann"), ("grassmann", "ComplexGrassmann")):
    f = lambda H, n, p, k, _c=f"{mod}.{cls}": C(H, _c)(n, p, k=k)
    rej(f"{cls} n < p", ["n", "x"], [1, 1], lambda H, n, x, f=f: f(H, n, n + x, 1))
    rej(f"{cls} p < 1", ["n", "x"], [1, 0], lambda H, n, x, f=f: f(H, n, -x, 1))
    rej(f"{cls} k < 1", ["r", "p", "x"], [0, 1, 0], lambda H, r, p, x, f=f: f(H, p + r, p, -x))
for mod, cls in (("euclidean", "Symmetric"), ("euclidean", "SkewSymmetric"), ("group", "SpecialOrthogonalGroup"), ("group", "UnitaryGroup"),
                 ("hyperbolic", "PoincareBall")):
    rej(f"{cls} k < 1", ["n", "x"], [1, 0], lambda H, n, x, _c=f"{mod}.{cls}": C(H, _c)(n, k=-x))
rej("PoincareBall n < 1", ["x", "k"], [0, 1], lambda H, x, k: C(H, "hyperbolic.PoincareBall")(-x, k=k))
for cls in ("euclidean.Euclidean", "euclidean.ComplexEuclidean", "sphere.Sphere"):
    rej(f"{cls} without shape", [], [], lambda H, _c=cls: C(H, _c)())
for cls in ("stiefel.Stiefel", "group.SpecialOrthogonalGroup", "group.UnitaryGroup"):
    rej(f"{cls} unknown retraction", ["r", "p"], [0, 1],
        lambda H, r, p, _c=cls: C(H, _c)(*((p + r, p) if "stiefel" in _c else (p,)), retraction="cayley"))


SPANS = [([[1, 0], [0, 1], [0, 0]], False, 1), ([[1, 2], [1, 2], [1, 2]], False, 0), ([[1], [1], [1]], False, 0),
         ([[1, 0, 0], [0, 1, 0], [0, 0, 1]], False, 2), ([[1], [2], [2]], True, 1), ([[1, 0], [0, 1], [1, 1]], True, 0),
         ([[1, 0, 0], [0, 1, 0]], False, None), ([[1, 0, 0], [0, 1, 0]], True, None), ([1, 2, 3], False, None), ([1, 2], True, None),
         ([[3, 4], [0, 0], [1, 0], [0, 0]], True, 1),
         ([[1, 2], [1, 2], [1, 2]], True, 1), ([[1, 0], [2, 0], [0, 0]], True, 1), ([[0], [0], [0]], True, 2), ([[2, 0], [2, 0], [0, 0]], False, 0),
         ([[1, 1], [1, 1 + 2 ** -10], [1, 1]], True, 0), ([[1, 1], [1, 1 + 2 ** -10], [1, 1]], False, 1)]


def configs(tier):
    out = geo_configs(tier, rank, pre="rank:")
    out += [dict(c) for c in FORM] + [dict(c) for c in REJ]
    out += [dict(name="base class arguments", fn=layout, max_paths=2000), dict(name="nested product", fn=nested)]
    out += [dict(name=f"span:{i}", fn=span, A=A, comp=c, dim=d) for i, (A, c, d) in enumerate(SPANS)]
    return out
