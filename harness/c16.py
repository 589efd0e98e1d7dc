"""C16: rejection of invalid problems and cost functions"""
from .geo import *  # noqa

BOUNDS = ("all 3*4^4 combinations of decorated / undecorated / non-callable cost with missing / decorated / undecorated / non-callable derivatives; all signatures made of up to two "
          "plain parameters, defaults, *args, keyword-only parameters and **kwargs; available and unavailable backends")
STATES = ["missing", "decorated", "plain function", "no function"]
SLOTS = ["euclidean_gradient", "riemannian_gradient", "euclidean_hessian", "riemannian_hessian"]


def build(H, cfg):
    M = GEuc((2,)).make(H)
    dec = H.mod("pymanopt.function").numpy(M)
    P = H.mod("pymanopt.core.problem").Problem
    plain = lambda *x: 0
    val = lambda i: [None, dec(plain), plain, 3][i]
    cost = cfg["cost"]
    st = [H.choose(s, 4) for s in SLOTS]
    kw = {s: val(i) for s, i in zip(SLOTS, st)}
    ok = cost == 1 and all(i < 2 for i in st) and not (st[0] == 1 and st[1] == 1) and not (st[2] == 1 and st[3] == 1)
    f = lambda: P(M, val(cost), **kw)
    if ok:
        H.noraise("valid combination is accepted", f)
    else:
        H.raises("invalid combination is rejected", f, ValueError)


SIGS = [("lambda a: 0", True), ("lambda a, b: 0", True), ("lambda *a: 0", True), ("lambda a, *b: 0", False), ("lambda: 0", False),
        ("lambda **k: 0", False), ("lambda a, **k: 0", False), ("lambda a, *, k: 0", False), ("lambda a, *, k=1: 0", False),
        ("lambda *a, k: 0", False), ("lambda *a, **k: 0", False), ("lambda a=1: 0", True), ("lambda a, b=1: 0", True),
        ("lambda a, b, *c: 0", False), ("lambda *, k: 0", False), ("lambda a, b, *, k: 0", False), ("lambda a, b, **k: 0", False),
        ("lambda a=1, *c: 0", False), ("lambda a, /: 0", True), ("lambda a, /, b: 0", True)]


def abstract(H, avail):
    B = H.mod("pymanopt.autodiff.backends._backend").Backend

    class Abstract(B):
        def __init__(self):
            super().__init__("abstract")

        @staticmethod
        def is_available():
            return avail

        @B._assert_backend_available
        def prepare_function(self, function):
            return function

        @B._assert_backend_available
        def generate_gradient_operator(self, function, num_arguments):
            return ("gradient", function, num_arguments)

        @B._assert_backend_available
        def generate_hessian_operator(self, function, num_arguments):
            return ("hessian", function, num_arguments)
    return Abstract


def signature(H, cfg):
    i = H.choose("signature", len(SIGS))
    src, ok = SIGS[i]
    n = H.choose("arrays", 2)
    M = GEuc((2,)).make(H) if n == 0 else GFix(2, 2, 1).make(H)
    f = eval(src)
    ad = H.mod("pymanopt.autodiff")
    dec = (ad.backend_decorator_factory(abstract(H, True)) if cfg["ad"] else H.mod("pymanopt.function").numpy)(M)
    if ok:
        F = dec(f)
        H.check("result is a cost function", isinstance(F, ad.Function), repr(F))
        if cfg["ad"]:
            k = M.num_values
            H.check("gradient operator is made for the function and its number of arguments", F.get_gradient_operator() == ("gradient", f, k))
            H.check("Hessian operator is made for the function and its number of arguments", F.get_hessian_operator() == ("hessian", f, k))
            H.check("gradient operator is stable", F.get_gradient_operator() is F.get_gradient_operator())
            H.check("Hessian operator is stable", F.get_hessian_operator() == ("hessian", f, k))
        else:
            for op in (F.get_gradient_operator, F.get_hessian_operator):
                H.raises("numpy functions have no derivatives", op, NotImplementedError)
    else:
        H.raises("unsupported signature is rejected", lambda: dec(f), ValueError)


def unavailable(H, cfg):
    ad = H.mod("pymanopt.autodiff")
    M = GEuc((2,)).make(H)
    A = abstract(H, False)
    H.raises("unavailable backend is rejected", lambda: ad.backend_decorator_factory(A)(M)(lambda a: 0), RuntimeError)
    b = A()
    H.raises("unavailable backend prepares nothing", lambda: b.prepare_function(lambda a: 0), RuntimeError)
    H.raises("unavailable backend makes no gradient", lambda: b.generate_gradient_operator(lambda a: 0, 1), RuntimeError)
    H.raises("unavailable backend makes no Hessian", lambda: b.generate_hessian_operator(lambda a: 0, 1), RuntimeError)
    if cfg.get("missing"):
        # the frameworks are not importable in the symbolic run
        fn = H.mod("pymanopt.function")
        for n in ("autograd", "jax", "pytorch", "tensorflow"):
            H.raises("missing framework is rejected", lambda: getattr(fn, n)(M)(lambda a: 0), RuntimeError)
    for x in (None, 3, "sphere", type(M), lambda a: 0):
        H.raises("decorator without manifold is rejected", lambda: H.mod("pymanopt.function").numpy(x), TypeError)
    H.raises("not callable", lambda: ad.Function(function=3, manifold=M, backend=abstract(H, True)()), TypeError)


def protected(H, cfg):
    M, N = GEuc((2,)).make(H), GSphere(2).make(H)
    dec = H.mod("pymanopt.function").numpy(M)
    pre = (lambda p, v: v) if H.choose("pre", 2) else None
    P = H.mod("pymanopt.core.problem").Problem(M, dec(lambda x: 0), preconditioner=pre)
    old = P.preconditioner
    H.raises("manifold cannot be replaced", lambda: setattr(P, "manifold", [M, N][H.choose("same", 2)]), AttributeError)
    H.raises("preconditioner cannot be replaced", lambda: setattr(P, "preconditioner", lambda p, v: -v), AttributeError)
    H.check("manifold is kept", P.manifold is M)
    H.check("preconditioner is kept", P.preconditioner is old)


def value(H, cfg):
    """a decorated function evaluates the function"""
    M = GEuc((2,)).make(H)
    a, x = H.reals("a", 2), H.reals("x", 2)
    F = H.mod("pymanopt.function").numpy(M)(lambda y: H.np.sum(a * y))
    H.eq("decorated function evaluates the function", F(x), a[0] * x[0] + a[1] * x[1])


def layout(H, cfg):
    """manifold constructor arguments"""
    Mf = H.mod(PK + "manifold").Manifold
    lays = [(1, True), (3, True), ((1, 2), True), ([2, 1], True), (0, False), (-1, False), ((1, 0), False), ([2, -1], False),
            ("1", False), (1.0, False), (None, False)]
    i = H.choose("layout", len(lays))
    lay, ok = lays[i]

    class Stub(Mf):
        pass
    Stub.__abstractmethods__ = frozenset()
    if ok:
        s = Stub("s", 1, lay)
        H.check("layout is kept", s.point_layout == lay)
        H.check("number of arrays", s.num_values == (sum(lay) if isinstance(lay, (list, tuple)) else lay))
    else:
        H.raises("invalid layout is rejected", lambda: Stub("s", 1, lay), (TypeError, ValueError))
    H.raises("fractional dimension is rejected", lambda: Stub("s", 1.5), TypeError)
    H.raises("negative dimension is rejected", lambda: Stub("s", -1), ValueError)


def configs(tier):
    out = [dict(name=f"problem: {STATES[c]} cost", fn=build, cost=c, max_paths=600) for c in range(1, 4)]
    out.append(dict(name="signatures: numpy", fn=signature, ad=0))
    out.append(dict(name="signatures: autodiff", fn=signature, ad=1))
    out.append(dict(name="backends", fn=unavailable))
    out.append(dict(name="missing frameworks", fn=unavailable, missing=1, noreplay=True))
    out.append(dict(name="protected attributes", fn=protected))
    out.append(dict(name="values", fn=value))
    out.append(dict(name="layouts", fn=layout))
    return out
