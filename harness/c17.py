"""C17: backend gradients are the gradients of the cost"""
from . import ad

FRAMEWORKS = True
BOUNDS = ("all points and coefficients of costs built from linear, quadratic, cubic (thorough: quartic), bilinear and exponential terms; 1 to 3 arguments "
          "of shapes up to (2,2) and (2,2,2) (thorough (4,), (2,3)), real, complex and mixed, with unused arguments and reversed or transposed memory layouts")
ASSUMPTIONS = ["the frameworks differentiate correctly: they are replaced by stand-ins with exact symbolic differentiation and the documented "
               "conventions (complex gradients, None for unused inputs, graph lifetime); every configuration is also replayed on the real frameworks",
               "the cost depends on at least one argument (PyTorch refuses to differentiate other functions)"]


def run(H, cfg):
    p = ad.Problem(H, cfg)
    f = p.function()
    xs, ys = p.point("x"), p.point("y")
    H.eq("value", f(*p.view(xs)), p.value(p.view(xs)))
    g = H.noraise("gradient operator runs", lambda: f.get_gradient_operator()(*p.view(xs)))
    ad.compare(H, p, "gradient", g, p.gradient(p.view(xs)))
    g2 = H.noraise("gradient operator runs again", lambda: f.get_gradient_operator()(*ys))
    ad.compare(H, p, "gradient at another point", g2, p.gradient(ys))
    # what was returned first is not overwritten by the second call
    for k, (a, b) in enumerate(zip([g] if len(xs) == 1 else g, p.gradient(p.view(xs)))):
        H.eq(f"first result {k} kept", a, b)


def unchanged(H, cfg):
    """a second function with the same backend object's class keeps its own operators; inputs are not modified"""
    p = ad.Problem(H, cfg)
    F = H.mod("pymanopt.function")
    dec = getattr(F, cfg["backend"])(p.manifold())
    ops = ad.Ops(H, cfg["backend"])
    f = dec(p.cost(ops))
    three = ops.const(H.carr([3])[0] if p.cplx[0] and False else H.arr([3.0]))
    f2 = dec(lambda *a: ops.sum(three * p.cost(ops)(*a)))
    xs = p.point("x")
    keep = [x.copy() for x in xs]
    g, g2 = f.get_gradient_operator()(*xs), f2.get_gradient_operator()(*xs)
    want = p.gradient(xs)
    ad.compare(H, p, "gradient", g, want)
    ad.compare(H, p, "gradient of another function", g2, [3 * w for w in want])
    for k, (x, y) in enumerate(zip(xs, keep)):
        H.eq(f"argument {k} unchanged", x, y)


def rejected(H, cfg):
    F = H.mod("pymanopt.function")
    man = H.mod("pymanopt.manifolds").Euclidean(2)
    dec = getattr(F, cfg["backend"])
    f = dec(man)(lambda x: x)
    if cfg["backend"] == "numpy":
        x = H.reals("x", 2)
        H.eq("value", f(x), x)
        H.raises("no gradient", lambda: f.get_gradient_operator()(x), NotImplementedError)
        H.raises("no Hessian", lambda: f.get_hessian_operator()(x, x), NotImplementedError)
    H.raises("manifold required", lambda: dec(lambda x: x), TypeError)
    H.raises("callable required", lambda: dec(man)(3), TypeError)
    for nm, g in (("no arguments", lambda: 0), ("keyword arguments", lambda x, **k: 0), ("keyword-only arguments", lambda x, *, y: 0),
                  ("positional and variadic arguments", lambda x, *y: 0)):
        H.raises(nm + " rejected", lambda: dec(man)(g), ValueError)


def configs(tier):
    out = [dict(c, fn=run) for c in ad.configs(tier, 1)]
    for c in ad.configs(tier, 1):
        if c["name"].split(":")[1] in ("quadratic", "two-shapes", "complex"):
            out.append(dict(c, fn=unchanged, name=c["name"] + ":two-functions"))
    for b in ad.BACKENDS + ["numpy"]:
        out.append(dict(name=f"{b}:rejected", backend=b, fn=rejected, shims=ad.shims))
    return out
