"""C18: backend Hessian-vector products are directional derivatives of the gradient"""
from . import ad

FRAMEWORKS = True
BOUNDS = ("all points, vectors and coefficients of costs built from linear, quadratic, cubic (thorough: quartic), bilinear and exponential terms; "
                 "1 to 3 arguments of shapes up to (2,2) and (2,2,2) (thorough (4,), (2,3)), real, complex and mixed, with unused arguments, arguments "
                 "on which the cost depends linearly, zero vectors and reversed or transposed memory layouts")
from .c17 import ASSUMPTIONS  # noqa: E402


def run(H, cfg):
    p = ad.Problem(H, cfg)
    f = p.function()
    xs, vs, ws = p.point("x"), p.point("v"), p.point("w")
    op = f.get_hessian_operator()
    h = H.noraise("Hessian operator runs", lambda: op(*p.view(xs), *p.view(vs)))
    want = p.gradient(p.view(xs), p.view(vs))
    ad.compare(H, p, "Hessian-vector product", h, want)
    zero = [0 * x for x in xs]
    hz = H.noraise("Hessian operator runs on zero vectors", lambda: op(*xs, *zero))
    ad.compare(H, p, "product with zero", hz, zero)
    # interleaved with the gradient operator, at another point
    g = f.get_gradient_operator()(*ws)
    ad.compare(H, p, "gradient", g, p.gradient(ws))
    h2 = H.noraise("Hessian operator runs again", lambda: f.get_hessian_operator()(*ws, *xs))
    ad.compare(H, p, "product at another point", h2, p.gradient(ws, xs))
    if len(xs) > 1:
        part = [vs[0]] + [0 * v for v in vs[1:]]
        h3 = op(*xs, *part)
        ad.compare(H, p, "product along the first argument", h3, p.gradient(xs, part))
    for k, (a, b) in enumerate(zip([h] if len(xs) == 1 else h, want)):
        H.eq(f"first result {k} kept", a, b)


def unchanged(H, cfg):
    p = ad.Problem(H, cfg)
    f = p.function()
    xs, vs = p.point("x"), p.point("v")
    kx, kv = [x.copy() for x in xs], [v.copy() for v in vs]
    f.get_hessian_operator()(*xs, *vs)
    for k in range(len(xs)):
        H.eq(f"point {k} unchanged", xs[k], kx[k])
        H.eq(f"vector {k} unchanged", vs[k], kv[k])


def configs(tier):
    out = [dict(c, fn=run) for c in ad.configs(tier, 2)]
    for c in ad.configs(tier, 2):
        if c["name"].split(":")[1] in ("quadratic", "two-shapes", "complex"):
            out.append(dict(c, fn=unchanged, name=c["name"] + ":unmodified"))
    return out
