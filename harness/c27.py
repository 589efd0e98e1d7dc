"""C27: diagnostics and helper tools"""
from .geo import orth  # noqa

FRAMEWORKS = True
DIA = "pymanopt.tools.diagnostics"
BOUNDS = ("Taylor diagnostics: all points, directions, gradients and cost coefficients (cubic costs on a two-dimensional fake manifold with weighted "
          "metric and curved exponential), 12 step sizes 10^-2..10^9 or 10^-11..1; linear pieces: all ordinates at 3 to 5 (thorough 6) abscissae, "
          "windows of 2 and 3; test helpers: all points and vectors of 3 projectors; sequences of up to 6 elements")
ASSUMPTIONS = ["step sizes are twelve powers of ten instead of the 51 (251) points of numpy.logspace; the remainder is not below 1e-12 at all of them "
               "(branch of numerically exact models)", "fake manifold and matplotlib stand-ins; autograd's jacobian and grad are exact"]
EXPLANATION = ("diagnostics executed on symbolic problems: plotted, printed and returned numbers are compared with the Taylor remainder, residual "
               "and symmetry defects computed from the definition; linear pieces against least squares by normal equations")


class Plt:
    """records what is plotted"""

    def __init__(self):
        self.curves = []

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)

        def f(*a, **k):
            if len(a) >= 2 and all(hasattr(x, "__len__") and not isinstance(x, str) for x in a[:2]):
                self.curves.append((a[0], a[1]))
            return (self, self) if name == "subplots" else self
        return f


class Man:
    """curved two-dimensional world with a point-dependent metric"""

    def __init__(self, H, exp=True, retraction=True, dist=True, tangent=True):
        self.H = H
        self.has = dict(exp=exp, retraction=retraction, dist=dist, tangent=tangent)
        self.w = [H.pos("w0"), H.pos("w1")]
        self.b, self.r = H.reals("bend", 2), H.reals("rbend", 2)
        self.P = H.reals("P", 2, 2)
        self.points, self.vectors = [], []
        self.draw = ([H.reals(f"pt{i}", 2) for i in range(2)], [H.reals(f"tv{i}", 2) for i in range(2)])

    def need(self, what):
        if not self.has[what]:
            raise NotImplementedError(what)

    def exp(self, x, v):
        self.need("exp")
        return x + v + self.b * (v[0] * v[0] + v[1] * v[1])

    def retraction(self, x, v):
        self.need("retraction")
        return x + v + self.r * (v[0] * v[0] + v[1] * v[1])

    def step(self, x, v):
        return self.exp(x, v) if self.has["exp"] else self.retraction(x, v)

    def inner_product(self, x, a, b):
        return (self.w[0] * a[0] * b[0] + self.w[1] * a[1] * b[1]) * (1 + x[0] * x[0])

    def norm(self, x, a):
        return self.H.np.sqrt(self.inner_product(x, a, a))

    def dist(self, a, b):
        self.need("dist")
        d = a - b
        return self.H.np.sqrt(self.w[0] * d[0] * d[0] + self.w[1] * d[1] * d[1])

    def to_tangent_space(self, x, v):
        self.need("tangent")
        return self.P @ v
    projection = to_tangent_space

    def random_point(self):
        self.points.append(self.draw[0][len(self.points)])
        return self.points[-1]

    def random_tangent_vector(self, x):
        self.vectors.append((x, self.draw[1][len(self.vectors)]))
        return self.vectors[-1][1]

    def zero_vector(self, x):
        return self.H.np.zeros(2)


class Problem:
    """cubic cost; gradient and Hessian operator are unrelated to it"""

    def __init__(self, H, man, cost=None):
        self.manifold = man
        self.c = H.reals("cost", 4)
        self.G, self.g0 = H.reals("G", 2, 2), H.reals("g", 2)
        self.A, self.a = H.reals("A", 2, 2), H.reals("a", 2)
        self.gp, self.hp = [], []
        if cost:
            self.cost = cost

    def cost(self, y):
        c = self.c
        return c[0] + c[1] * y[0] + c[2] * y[0] * y[1] + c[3] * y[1] * y[1] * y[1]

    def riemannian_gradient(self, x):
        return self.g0 + self.G @ x

    def riemannian_hessian(self, x, d):
        return self.A @ d + self.a * (d[0] * d[1] + x[0] * d[0])


class grid:
    """numpy.logspace on powers of ten, linear pieces known"""

    def __init__(self, H, m, lo=-2, stub=True):
        self.H, self.m, self.lo, self.stub = H, m, lo, stub

    def __enter__(self):
        H, m = self.H, self.m
        self.old = H.np.logspace, getattr(m, "identify_linear_piece", None)
        ks = range(self.lo, self.lo + 12)
        H.np.logspace = lambda *a, **k: H.arr([H.num(10) ** j if j >= 0 else 1 / H.num(10) ** -j for j in ks])
        if self.stub and self.old[1] is not None:
            import numpy
            m.identify_linear_piece = lambda x, y, n: (numpy.arange(3, 8), H.arr([2, -3]))
        return self

    def __exit__(self, *a):
        self.H.np.logspace = self.old[0]
        if self.old[1] is not None:
            self.m.identify_linear_piece = self.old[1]


def remainder(H, p, x, d, h, quadratic):
    """|model(h) - f(step(x, h d))| for every h"""
    M = p.manifold
    f0, g = p.cost(x), M.inner_product(x, p.riemannian_gradient(x), d)
    q = M.inner_product(x, p.riemannian_hessian(x, d), d) / 2 if quadratic else H.num(0)
    return H.arr([H.np.abs(f0 + t * g + t * t * q - p.cost(M.step(x, t * d))) for t in h])


def load(H):
    plt = Plt()
    H.pyplot(plt)
    return H.mod(DIA), plt


def taylor(H, cfg):
    m, plt = load(H)
    M = Man(H, exp=cfg["exp"])
    p = Problem(H, M)
    q = cfg["order"] == 2
    given = cfg.get("given", 2)
    x = H.reals("x", 2) if given else None
    d = H.reals("d", 2) if given > 1 else None
    args = [x, d][:given]
    with grid(H, m):
        # some remainder is visible: the first one (step 1/100) exceeds one
        X = x if given else M.draw[0][0]
        D = d if given > 1 else M.draw[1][0]
        H.assume(remainder(H, p, X, D, [1 / H.num(100)], q)[0] > 1)
        h, error, segment, poly = m.check_directional_derivative(p, *args, use_quadratic_model=q)
    if given < 2:
        H.check("direction drawn at the point", len(M.vectors) == 1 and M.vectors[0][0] is (x if given else M.points[0]))
    H.check("one error per step size", len(h) == len(error))
    H.eq("errors are the Taylor remainders", error, remainder(H, p, X, D, h, q))


def slope(H, cfg):
    """exact power law: the slope and offset are identified"""
    m, plt = load(H)
    n = cfg["order"] + 1
    M = Man(H)
    M.b = M.b * 0
    c = H.pos("c", lo=H.num("1/100"))
    p = Problem(H, M)
    x, d = H.reals("x", 2), H.arr([1, 0])
    g = H.real("slope0")
    # cost with derivatives matching the model: f = f0 + g t + q t^2/2 + c t^n
    W = M.inner_product(x, H.arr([1, 0]), H.arr([1, 0]))
    p.riemannian_gradient = lambda z: H.arr([g / W, H.num(7)])
    qq = H.real("curv")
    p.riemannian_hessian = lambda z, v: H.arr([qq / W, H.num(5)])

    def cost(y):
        t = y[0] - x[0]
        return 3 + g * t + (qq * t * t / 2 if n == 3 else 0) + c * t ** n
    p.cost = cost
    with grid(H, m, lo=0, stub=False):
        h, error, segment, poly = m.check_directional_derivative(p, x, d, use_quadratic_model=n == 3)
    H.eq("slope of the error curve", poly[0], H.num(n), tol=1e-4)
    H.eq("offset of the error curve", poly[1], H.np.log10(c), tol=1e-3)
    H.check("segment of eleven consecutive points", list(segment) == list(range(segment[0], segment[0] + 11)) and 0 <= segment[0] and segment[-1] < len(h))


def invalid(H, cfg):
    m, plt = load(H)
    p = Problem(H, Man(H))
    d = H.reals("d", 2)
    H.raises("direction without a point", lambda: m.check_directional_derivative(p, None, d), ValueError)
    H.raises("direction without a point (gradient)", lambda: m.check_gradient(p, None, d), ValueError)
    H.raises("direction without a point (Hessian)", lambda: m.check_hessian(p, None, d), ValueError)
    x = H.reals("x", 2)
    for what in ("exp", "retraction", "dist"):
        M = p.manifold
        M.has = {k: k != what for k in M.has}

        def run():
            try:
                m.check_retraction(M, x, d)
            except NotImplementedError:        # the manifold's own complaint got through
                pass
        H.raises(f"missing {what} is reported", run, RuntimeError)
    H.pyplot(None)
    m = H.mod(DIA)
    H.raises("matplotlib needed (gradient)", lambda: m.check_gradient(p, x, d), RuntimeError)
    H.raises("matplotlib needed (Hessian)", lambda: m.check_hessian(p, x, d), RuntimeError)
    H.raises("matplotlib needed (retraction)", lambda: m.check_retraction(p.manifold, x, d), RuntimeError)


def curve(H, plt, want, slopes):
    """the error curve, its fit and the reference lines"""
    big = [c for c in plt.curves if len(c[0]) == len(c[1]) == 12]
    H.check("the error curve is plotted", len(big) == 1, f"{len(big)}")
    if len(big) != 1:
        return
    h, e = big[0]
    H.eq("plotted errors", e, want(h))
    fit = [c for c in plt.curves if len(c[0]) == 5]
    H.check("the fit is plotted", len(fit) == 1, f"{len(fit)}")
    if fit:
        H.eq("the fit is plotted over its segment", fit[0][0], h[3:8])
        H.eq("plotted fit", fit[0][1], H.arr([t * t / 1000 for t in fit[0][0]]))
    refs = [c for c in plt.curves if len(c[0]) == 2]
    import math
    got = sorted(round((math.log10(float(y[1])) - math.log10(float(y[0]))) / (math.log10(float(x[1])) - math.log10(float(x[0]))), 6) for x, y in refs)
    H.check("slopes of the reference lines", got == slopes, f"{got}")


def gradient(H, cfg):
    m, plt = load(H)
    M = Man(H, tangent=cfg.get("tangent", True))
    p = Problem(H, M)
    x, d = H.reals("x", 2), H.reals("d", 2)
    H.assume(remainder(H, p, x, d, [1 / H.num(100)], False)[0] > 1)
    with grid(H, m):
        nums = H.printed(lambda: m.check_gradient(p, x, d))
    curve(H, plt, lambda h: remainder(H, p, x, d, h, False), [2.0])
    if M.has["tangent"]:
        g = p.riemannian_gradient(x)
        H.among("residual of the gradient", nums, M.norm(x, g - M.P @ g))


def hessian(H, cfg):
    m, plt = load(H)
    M = Man(H, tangent=cfg.get("tangent", True))
    p = Problem(H, M)
    x, d = H.reals("x", 2), H.reals("d", 2)
    H.assume(remainder(H, p, x, d, [1 / H.num(100)], True)[0] > 1)
    w = H.reals("weights", 2)
    H.draws(w)
    with grid(H, m):
        nums = H.printed(lambda: m.check_hessian(p, x, d))
    curve(H, plt, lambda h: remainder(H, p, x, d, h, True), [3.0])
    Hs = lambda v: p.riemannian_hessian(x, v)
    if M.has["tangent"]:
        g = Hs(d)
        H.among("residual of the Hessian", nums, M.norm(x, g - M.P @ g))
    H.check("two random tangent vectors at the point", len(M.vectors) == 2 and all(y is x for y, _ in M.vectors))
    u, v = M.vectors[0][1], M.vectors[1][1]
    H.among("linearity defect", nums, M.norm(x, Hs(w[0] * u + w[1] * v) - w[0] * Hs(u) - w[1] * Hs(v)))
    a, b = M.inner_product(x, u, Hs(v)), M.inner_product(x, Hs(u), v)
    H.among("<u, H v>", nums, a)
    H.among("<H u, v>", nums, b)
    H.among("symmetry defect", nums, a - b)


def retraction(H, cfg):
    m, plt = load(H)
    M = Man(H)
    given = cfg.get("given", 2)
    x = H.reals("x", 2) if given else M.draw[0][0]
    d = H.reals("d", 2) if given > 1 else M.draw[1][0]
    H.assume(d[0] > 0)
    H.assume(M.b[0] - M.r[0] > 0)
    with grid(H, m, lo=-2):
        nums = H.printed(lambda: m.check_retraction(M, *[x, d][:given]))
    want = lambda h: H.arr([M.dist(M.exp(x, t * d), M.retraction(x, t * d)) for t in h])
    curve(H, plt, want, [2.0, 3.0])
    h = [10 ** H.num(j) if j >= 0 else 1 / H.num(10) ** -j for j in range(-2, 10)]
    H.among("norm of all errors", nums, H.np.sqrt(H.np.sum(want(h) ** 2)))
    H.among("slope", nums, H.num(2))


def retraction_slope(H, cfg):
    """retraction and exponential differ by a power of the step: its exponent is reported"""
    m, plt = load(H)
    M = Man(H)
    n = cfg["order"]
    x, d = H.reals("x", 2), H.arr([1, 0])
    c = H.pos("c", lo=H.num("1/100"))
    M.exp = lambda x, v: x + v
    M.retraction = lambda x, v: x + v + H.arr([c * v[0] ** n, 0])
    with grid(H, m, lo=0, stub=False):
        nums = H.printed(lambda: m.check_retraction(M, x, d))
    H.among("slope", nums, H.num(n))


# ------------------------------------------------------------------ linear pieces
def lsq(H, xs, ys):
    n = len(xs)
    sx, sy = sum(xs), sum(ys, H.num(0))
    sxx = sum(a * a for a in xs)
    sxy = sum((a * b for a, b in zip(xs, ys)), H.num(0))
    k = (n * sxy - sx * sy) / (n * sxx - sx * sx)
    c = (sy - k * sx) / n
    r = H.num(0)
    for a, b in zip(xs, ys):
        r = r + (b - k * a - c) ** 2
    return k, c, r


def piece(H, cfg):
    H.pyplot(None)
    m = H.mod(DIA)
    n, w = cfg["n"], cfg["w"]
    xs = [H.num(s) for s in cfg["xs"].split()]
    y = H.reals("y", n)
    seg, poly = m.identify_linear_piece(H.arr(xs), y, w)
    seg = [int(i) for i in seg]
    H.check("contiguous segment of the window", seg == list(range(seg[0], seg[0] + w + 1)) and seg[0] >= 0 and seg[-1] < n, f"{seg}")
    fits = [lsq(H, xs[i:i + w + 1], [y[j] for j in range(i, i + w + 1)]) for i in range(n - w)]
    k, c, r = fits[seg[0]]
    H.eq("least squares line of the segment", poly, H.arr([k, c]))
    for i, f in enumerate(fits):
        H.le(f"not worse than window {i}", r, f[2])


def exact_line(H, cfg):
    """a segment on an exact line away from others is found with its equation"""
    H.pyplot(None)
    m = H.mod(DIA)
    xs = [H.num(i) for i in range(6)]
    a, b, e = H.real("a"), H.real("b"), H.pos("e", lo=H.num("1/10"))
    at = cfg["at"]
    y = [a * t + b for t in xs]
    # break every window but one
    for i in range(6):
        if not at <= i <= at + 3:
            y[i] = y[i] + e * (1 if i % 2 else -2)
    seg, poly = m.identify_linear_piece(H.arr(xs), H.arr(y), 3)
    H.check("the exact piece is found", [int(i) for i in seg] == list(range(at, at + 4)), f"{seg}")
    H.eq("its line", poly, H.arr([a, b]))


# ------------------------------------------------------------------ numerical test helpers
def projectors(H):
    np = H.fw("autograd.numpy")
    return {
        "sphere": ((3,), lambda x, v: v - x * np.sum(x * v)),
        "rows": ((2, 2), lambda x, v: v - x * np.reshape(np.sum(x * v, axis=1), (2, 1))),
        "stiefel": ((2, 2), lambda x, v: v - x @ (x.T @ v + v.T @ x) / 2),
    }


def dproj(H, kind, x, v, t):
    """derivative of the projector of v with respect to x along t"""
    np = H.np
    if kind == "sphere":
        return -t * np.sum(x * v) - x * np.sum(t * v)
    if kind == "rows":
        return -t * np.reshape(np.sum(x * v, axis=1), (2, 1)) - x * np.reshape(np.sum(t * v, axis=1), (2, 1))
    return -(t @ (x.T @ v + v.T @ x) + x @ (t.T @ v + v.T @ t)) / 2


def helpers(H, cfg):
    m = H.mod("pymanopt.tools.testing")
    sh, proj = projectors(H)[cfg["kind"]]
    np = H.fw("autograd.numpy")
    x, e, h, t = (H.reals(s, *sh) for s in "xeht")
    a = H.reals("coef", *sh)
    cost = lambda z: np.sum(a * z * z * z) + np.sum(z) * np.sum(a * z)
    grad = 3 * a * x * x + H.np.sum(a * x) + a * H.np.sum(x)
    H.eq("gradient", m.riemannian_gradient(cost, proj)(x), proj(x, grad))
    conv = m.euclidean_to_riemannian_gradient(proj)
    H.eq("converted gradient", conv(x, e), proj(x, e))
    conv = m.euclidean_to_riemannian_hessian(proj)
    y = H.reals("y", *sh)
    for k, z in enumerate((x, y)):
        H.eq(f"converted Hessian {k}", conv(z, e, h, t), proj(z, h + dproj(H, cfg["kind"], z, e, t)))


# ------------------------------------------------------------------ sequence helpers
def sequences(H, cfg):
    T = H.mod("pymanopt.tools")
    n = H.choose("length", 12)
    kind = H.choose("kind", 2)
    s = [H.real(f"s{i}") for i in range(n)]
    s = tuple(s) if kind else s
    if n % 2:
        H.raises("odd length rejected", lambda: T.bisect_sequence(s), ValueError)
    else:
        a, b = T.bisect_sequence(s)
        H.check("two halves", len(a) == len(b) == n // 2)
        for i in range(n // 2):
            H.check(f"halves in order {i}", a[i] is s[i] and b[i] is s[n // 2 + i])
    f = T.unpack_singleton_sequence_return_value(lambda *a: s)
    if n == 1:
        H.check("the single element", f(1, 2) is s[0])
    else:
        H.raises("not a singleton", lambda: f(), ValueError)
    args = []
    g = T.unpack_singleton_sequence_return_value(lambda *a: args.append(a) or [a])
    x = H.reals("x", 2)
    H.check("arguments are passed", g(x, 3)[0] is x and args[0][1] == 3)
    H.raises("not a sequence", lambda: T.unpack_singleton_sequence_return_value(lambda: x)(), ValueError)
    H.check("sequences", T.is_sequence(s) and T.is_sequence([s]) and not T.is_sequence("ab"[:n]) and not T.is_sequence(x) and not T.is_sequence(3)
            and not T.is_sequence({1: 2}) and not T.is_sequence(None))


def instances(H, cfg):
    T = H.mod("pymanopt.tools")

    class P:
        def __init__(self, *a):
            self.a = a

        @T.return_as_class_instance
        def two(self, k):
            """doc"""
            return [x * k for x in self.a]

        @T.return_as_class_instance(unpack=False)
        def whole(self, *, k):
            return [x * k for x in self.a]

    class Q(P):
        pass
    x, y, k = H.real("x"), H.real("y"), H.real("k")
    for C in (P, Q):
        r = C(x, y).two(k)
        H.check("class of the instance is kept", type(r) is C and len(r.a) == 2)
        H.eq("unpacked values", H.arr(list(r.a)), H.arr([x * k, y * k]))
        r = C(x, y).whole(k=k)
        H.check("one argument", type(r) is C and len(r.a) == 1)
        H.eq("whole value", H.arr(r.a[0]), H.arr([x * k, y * k]))
    H.check("metadata is kept", P.two.__name__ == "two" and P.two.__doc__ == "doc")

    class V(T.ndarraySequenceMixin):
        def __rmul__(self, o):
            return ("scaled", o)
    s = H.np.float64(2.0) if not H.symbolic else H.num(2)
    r = s * V() if not H.symbolic else ("scaled", s)
    H.check("numpy scalars do not vectorize over the sequence", isinstance(r, tuple) and r[0] == "scaled")


def configs(tier):
    out = []
    for o in (1, 2):
        for e in (True, False):
            out.append(dict(name=f"taylor:order_{o}:{'exp' if e else 'retraction'}", fn=taylor, order=o, exp=e))
        out.append(dict(name=f"taylor:order_{o}:random_direction", fn=taylor, order=o, exp=True, given=1))
        out.append(dict(name=f"taylor:order_{o}:random_point", fn=taylor, order=o, exp=True, given=0))
        out.append(dict(name=f"slope:order_{o}", fn=slope, order=o))
    for t in (True, False):
        out.append(dict(name=f"gradient:{'tangent' if t else 'no_tangent'}", fn=gradient, tangent=t))
        out.append(dict(name=f"hessian:{'tangent' if t else 'no_tangent'}", fn=hessian, tangent=t))
    out.append(dict(name="invalid", fn=invalid))
    for g in (2, 1, 0):
        out.append(dict(name=f"retraction:given_{g}", fn=retraction, given=g))
    for n in (2, 3):
        out.append(dict(name=f"retraction:slope_{n}", fn=retraction_slope, order=n))
    for n, w, xs in [(3, 2, "0 1 2"), (4, 2, "0 1 2 3"), (4, 3, "0 1 2 3"), (4, 2, "-3 -1 0 5/2"), (5, 3, "0 1 2 3 4")] + \
            ([(5, 2, "-2 -1 0 1 2"), (6, 4, "0 1 2 3 4 5"), (5, 3, "-4 -2 0 1 7"), (6, 3, "0 1 2 3 4 5")] if tier == "thorough" else []):
        out.append(dict(name=f"piece:{n}:{w}:" + xs.replace(" ", ","), fn=piece, n=n, w=w, xs=xs))
    for at in (0, 1, 2):
        out.append(dict(name=f"line:{at}", fn=exact_line, at=at))
    for k in ("sphere", "rows", "stiefel"):
        out.append(dict(name=f"helpers:{k}", fn=helpers, kind=k))
    out.append(dict(name="sequences", fn=sequences))
    out.append(dict(name="instances", fn=instances))
    from symx.frameworks import shims
    for c in out:
        c["shims"] = shims
        c.setdefault("opts", dict(eps="zero", abs="atom") if c["fn"] in (slope, piece, exact_line, helpers, sequences, instances, retraction, retraction_slope, invalid)
                     else dict(eps="exact", abs="atom"))
    return out
