"""Autodiff backends (C17, C18): cost functions with symbolic coefficients,
run through the real backend code on stand-ins of the frameworks."""
from symx.frameworks import shims

BACKENDS = ["autograd", "jax", "pytorch", "tensorflow"]
MODULE = {"autograd": "autograd.numpy", "jax": "jax.numpy", "pytorch": "torch", "tensorflow": "tensorflow"}

# cost terms: ("poly", {argument: (p, q)}): Re sum(c * z^p * conj(z)^q ...), equal shapes
#             ("bil", k, l): Re sum(a z_k) * Re sum(b z_l);  ("exp", k): exp(Re sum(a z_k))
COSTS = {
    "lin": [("poly", {0: (1, 0)})],
    "quad": [("poly", {0: (1, 0)}), ("poly", {0: (2, 0)})],
    "cubic": [("poly", {0: (3, 0)}), ("poly", {0: (1, 0)})],
    "form": [("bil", 0, 0), ("poly", {0: (2, 0)})],
    "exp": [("exp", 0)],
    "herm": [("poly", {0: (1, 1)}), ("poly", {0: (2, 0)}), ("poly", {0: (2, 1)})],
    "lin2": [("poly", {0: (1, 0)}), ("poly", {1: (1, 0)})],
    "cross2": [("poly", {0: (1, 0), 1: (1, 0)}), ("poly", {0: (2, 0)}), ("poly", {1: (3, 0)})],
    "herm2": [("poly", {0: (1, 1), 1: (1, 0)}), ("poly", {0: (0, 1), 1: (2, 0)})],
    "bil2": [("bil", 0, 1), ("bil", 1, 1), ("poly", {0: (1, 1)})],
    "bil3": [("bil", 0, 1), ("bil", 1, 2), ("bil", 0, 2), ("poly", {2: (2, 0)}), ("poly", {1: (1, 0)})],
    "only0": [("poly", {0: (2, 0)})],
    "only1": [("poly", {1: (2, 0)}), ("poly", {1: (1, 0)})],
    "only1lin": [("poly", {1: (1, 0)})],
    "half2": [("poly", {0: (1, 0)}), ("poly", {1: (2, 0)})],
    "mid3": [("poly", {1: (3, 0)})],
}


class Ops:
    def __init__(self, H, backend):
        self.b = backend
        self.m = H.fw(MODULE[backend])

    def const(self, c):
        return self.m.from_numpy(c) if self.b == "pytorch" else self.m.constant(c) if self.b == "tensorflow" else c

    def sum(self, x):
        return self.m.reduce_sum(x) if self.b == "tensorflow" else self.m.sum(x)

    def real(self, x):
        return self.m.math.real(x) if self.b == "tensorflow" else self.m.real(x)

    def conj(self, x):
        return self.m.math.conj(x) if self.b == "tensorflow" else self.m.conj(x)

    def exp(self, x):
        return self.m.exp(x)


class Problem:
    def __init__(self, H, cfg):
        self.H, self.cfg = H, cfg
        self.shapes = cfg["shapes"]
        self.cplx = cfg.get("cplx", [False] * len(self.shapes))
        self.terms = []
        for i, t in enumerate(COSTS[cfg["cost"]]):
            if t[0] == "poly":
                ks = sorted(t[1])
                cs = [self.coef(f"c{i}", self.shapes[ks[0]], any(self.cplx[k] for k in ks))]
            elif t[0] == "bil":
                cs = [self.coef(f"a{i}", self.shapes[t[1]], self.cplx[t[1]]), self.coef(f"b{i}", self.shapes[t[2]], self.cplx[t[2]])]
            else:
                cs = [self.coef(f"a{i}", self.shapes[t[1]], self.cplx[t[1]])]
            self.terms.append((t, cs))

    def coef(self, name, shape, cx):
        return self.H.cxs(name, *shape) if cx else self.H.reals(name, *shape)

    def point(self, name):
        return [self.coef(f"{name}{k}", s, c) for k, (s, c) in enumerate(zip(self.shapes, self.cplx))]

    # ---- the cost in the framework's own operations
    def cost(self, ops):
        def f(*args):
            total = None

            def resum(c, x, cx):
                s = ops.sum(ops.const(c) * x)
                return ops.real(s) if cx else s
            for t, cs in self.terms:
                if t[0] == "poly":
                    z = None
                    for k in sorted(t[1]):
                        p, q = t[1][k]
                        for w in [args[k]] * p + ([ops.conj(args[k]) if self.cplx[k] else args[k]] * q):
                            z = w if z is None else z * w
                    v = resum(cs[0], z, any(self.cplx[k] for k in t[1]))
                elif t[0] == "bil":
                    v = resum(cs[0], args[t[1]], self.cplx[t[1]]) * resum(cs[1], args[t[2]], self.cplx[t[2]])
                else:
                    v = ops.exp(resum(cs[0], args[t[1]], self.cplx[t[1]]))
                total = v if total is None else total + v
            return total
        n = len(self.shapes)
        if self.cfg.get("varargs"):
            return f
        return [None, lambda x: f(x), lambda x, y: f(x, y), lambda x, y, z: f(x, y, z)][n]

    # ---- the oracle, in plain numpy
    def re(self, x):
        return self.H.np.real(x)

    def value(self, xs):
        np = self.H.np
        total = 0
        for t, cs in self.terms:
            if t[0] == "poly":
                total = total + self.re(np.sum(cs[0] * self.mono(xs, t[1])))
            elif t[0] == "bil":
                total = total + self.lin(cs[0], xs[t[1]]) * self.lin(cs[1], xs[t[2]])
            else:
                total = total + np.exp(self.lin(cs[0], xs[t[1]]))
        return total

    def lin(self, a, x):
        return self.re(self.H.np.sum(a * x))

    def mono(self, xs, exps):
        z = 1
        for k in exps:
            p, q = exps[k]
            for _ in range(p):
                z = z * xs[k]
            for _ in range(q):
                z = z * self.H.np.conj(xs[k])
        return z

    def dmono(self, xs, exps, vs):
        """directional derivative of the monomial"""
        total = 0
        for k in exps:
            for w in (0, 1):
                e = exps[k][w]
                if e:
                    low = dict(exps)
                    low[k] = (e - 1, exps[k][1]) if w == 0 else (exps[k][0], e - 1)
                    total = total + e * self.mono(xs, low) * (vs[k] if w == 0 else self.H.np.conj(vs[k]))
        return total

    def gradient(self, xs, vs=None):
        """gradient, or its derivative along vs"""
        np = self.H.np
        out = [0 * x for x in xs]
        for t, cs in self.terms:
            if t[0] == "poly":
                for k in t[1]:
                    for w in (0, 1):
                        e = t[1][k][w]
                        if not e:
                            continue
                        low = dict(t[1])
                        low[k] = (e - 1, t[1][k][1]) if w == 0 else (t[1][k][0], e - 1)
                        m = self.mono(xs, low) if vs is None else self.dmono(xs, low, vs)
                        s = e * cs[0] * m
                        # d f = Re(s d) or Re(s conj(d)); the gradient g has d f = Re(conj(g) d)
                        s = np.conj(s) if w == 0 else s
                        out[k] = out[k] + (s if self.cplx[k] else self.re(s))
            elif t[0] == "bil":
                for (k, a), (l, b) in (((t[1], cs[0]), (t[2], cs[1])), ((t[2], cs[1]), (t[1], cs[0]))):
                    out[k] = out[k] + np.conj(a) * self.lin(b, (xs if vs is None else vs)[l])
            else:
                k, a = t[1], cs[0]
                e = np.exp(self.lin(a, xs[k]))
                out[k] = out[k] + np.conj(a) * (e if vs is None else e * self.lin(a, vs[k]))
        return out

    def manifold(self):
        man = self.H.mod("pymanopt.manifolds")
        ms = [(man.ComplexEuclidean if c else man.Euclidean)(*s) for s, c in zip(self.shapes, self.cplx)]
        return ms[0] if len(ms) == 1 else man.Product(ms)

    def function(self):
        F = self.H.mod("pymanopt.function")
        ops = Ops(self.H, self.cfg["backend"])
        return getattr(F, self.cfg["backend"])(self.manifold())(self.cost(ops))

    def view(self, xs):
        """the same values in another memory layout"""
        if self.cfg.get("layout") == "reversed":
            return [x[::-1] for x in xs]
        if self.cfg.get("layout") == "transposed":
            return [x.T for x in xs]
        if self.cfg.get("layout") == "flipped":
            return [x[..., ::-1] for x in xs]
        if self.cfg.get("layout") == "strided":
            return [self.H.np.stack([x, x + 1], axis=-1)[..., 0] for x in xs]
        return xs


def compare(H, p, name, result, want):
    n = len(p.shapes)
    if n == 1:
        H.check(name + " is a bare array", not isinstance(result, (list, tuple)))
        result = [result]
    else:
        H.check(name + " has one entry per argument", len(result) == n, str(len(result)))
    for k, (r, w) in enumerate(zip(result, want)):
        nm = f"{name} {k}" if n > 1 else name
        if not H.check(nm + " is a numpy array", isinstance(r, H.ndarray), type(r).__name__):
            continue
        if not H.check(nm + " has the argument's shape", tuple(r.shape) == tuple(p.shapes[k]), str(r.shape)):
            continue
        H.check(nm + " has the argument's field", H.np.iscomplexobj(r) == p.cplx[k])
        H.eq(nm, r, w)


def configs(tier, ranks):
    out = []
    for b in BACKENDS:
        def add(name, cost, shapes, cplx=None, **k):
            out.append(dict(name=f"{b}:{name}", backend=b, cost=cost, shapes=shapes,
                            cplx=cplx or [False] * len(shapes), shims=shims, **k))
        V, M = (2,), (2, 2)
        add("linear", "lin", [V])
        add("quadratic", "quad", [V], varargs=True)
        add("matrix", "form", [M])
        add("batch", "form", [(2, 2, 2)])
        add("batch-thin", "form", [(1, 2, 2)])
        add("two-batches", "bil2", [(2, 1, 2), V])
        add("complex-batch", "herm", [(2, 1, 2)], [True])
        add("cubic", "cubic", [V])
        add("exponential", "exp", [V])
        add("complex-linear", "lin", [V], [True])
        add("complex", "herm", [V], [True])
        add("two-linear", "lin2", [V, V])
        add("two", "cross2", [V, V], varargs=True)
        add("two-shapes", "bil2", [V, M])
        add("two-complex", "herm2", [V, V], [True, True])
        add("mixed", "bil2", [V, V], [True, False])
        add("mixed-reverse", "bil2", [V, V], [False, True])
        add("three", "bil3", [V, (3,), (1,)])
        add("three-mixed", "bil3", [V, (1,), M], [False, True, False])
        add("unused-second", "only0", [V, V])
        add("unused-first", "only1", [V, M])
        add("unused-first-linear", "only1lin", [V, V])
        add("unused-complex", "only0", [V, V], [False, True])
        add("unused-real", "only1", [V, V], [False, True])
        add("half-linear", "half2", [V, V])
        add("unused-three", "mid3", [V, (1,), V])
        add("reversed-view", "cubic", [V], layout="reversed")
        add("flipped-view", "form", [M], layout="flipped")
        add("strided-view", "cubic", [V], layout="strided")
        add("transposed-view", "form", [M], layout="transposed")
        if tier == "thorough":
            add("quartic", "quartic", [V])
            add("long", "cross2", [(4,), (4,)])
            add("wide", "form", [(2, 3)])
            add("complex-matrix", "herm", [M], [True])
            add("two-complex-matrix", "herm2", [M, M], [True, True])
            add("complex-exponential", "exp", [V], [True])
            add("three-complex", "bil3", [V, V, V], [True, True, True])
            add("complex-reversed", "herm", [V], [True], layout="reversed")
    return out


COSTS["quartic"] = [("poly", {0: (4, 0)}), ("poly", {0: (3, 0)}), ("bil", 0, 0)]
