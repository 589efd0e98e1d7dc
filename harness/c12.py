"""C12: vector-space structure of composite tangent vectors"""
from .geo import *  # noqa

BOUNDS = "all component arrays and scalars; one to five components of shapes (2,), (2,1), (1,2), real and complex"
COVERS = ["_ProductTangentVector.*", "_FixedRankTangentVector.*", "_FixedRankPoint.*", "_ndarraySequence.*", "return_as_class_instance"]


def comps(H, kind, tag):
    R, Cx = H.reals, H.cxs
    if kind == "1":
        return [R(tag + "a", 2)]
    if kind == "2":
        return [R(tag + "a", 2), R(tag + "b", 2, 1)]
    if kind == "2eq":
        return [R(tag + "a", 2), R(tag + "b", 2)]
    if kind == "3":
        return [R(tag + "a", 2), Cx(tag + "b", 1, 2), R(tag + "c", 1)]
    if kind in ("4eq", "5eq"):
        return [R(f"{tag}{c}", 2) for c in "abcde"[:int(kind[0])]]
    if kind == "nested":
        return [R(tag + "a", 2), fr(H, comps(H, "fixed", tag + "f"))]
    return [R(tag + "u", 2, 1), R(tag + "m", 1, 1), R(tag + "v", 3, 1)]


def fr(H, c):
    return H.mod(PK + "fixed_rank")._FixedRankTangentVector(*c)


def mk(H, kind, cs):
    if kind == "fixed":
        return fr(H, cs)
    if kind == "point":
        return H.mod(PK + "fixed_rank")._FixedRankPoint(*cs)
    return H.mod(PK + "product")._ProductTangentVector(cs)


def snap(x):
    if isinstance(x, (list, tuple)):
        return [snap(y) for y in x]
    return x * 1


def flat(x):
    return [flat(y) if isinstance(y, (list, tuple)) else y for y in x]


def same(H, name, got, want, cls, n):
    H.check(f"{name}: keeps its type", type(got) is cls, type(got).__name__)
    H.check(f"{name}: keeps its length", len(got) == n, str(len(got)))
    H.eq(f"{name}: component by component", flat(got), flat(want))


def lw(f, *xs):
    """component by component on nested lists"""
    if isinstance(xs[0], (list, tuple)):
        return [lw(f, *ys) for ys in zip(*xs)]
    return f(*xs)


def laws(H, cfg):
    kind = cfg["kind"]
    cu, cv = comps(H, kind, "u"), comps(H, kind, "v")
    u, v = mk(H, kind, cu), mk(H, kind, cv)
    a, b = H.real("a"), H.real("b")
    if cfg["scalar"] == "int":
        a, b = [-1, 0, 2, 3][H.choose("ia", 4)], 2
    su, sv = snap(cu), snap(cv)
    n, cls = len(cu), type(u)
    point = kind == "point"
    ops = []
    if not point:
        ops += [("u + v", lambda: u + v, lw(lambda x, y: x + y, su, sv)), ("u - v", lambda: u - v, lw(lambda x, y: x - y, su, sv))]
    ops += [("a u", lambda: a * u, lw(lambda x: x * a, su)), ("u a", lambda: u * a, lw(lambda x: x * a, su)),
            ("-u", lambda: -u, lw(lambda x: -x, su)), ("u / b", lambda: u / b, lw(lambda x: x / b, su))]
    for name, f, want in ops:
        same(H, name, f(), want, cls, n)
        H.eq(f"{name}: operands unchanged", [flat(u), flat(v)], [su, sv])
    if point:
        return
    # in-place forms bind a new value and leave other references alone
    w = u
    w += v
    same(H, "u += v", w, lw(lambda x, y: x + y, su, sv), cls, n)
    H.eq("u += v: operands unchanged", [flat(u), flat(v)], [su, sv])
    w = u
    w -= v
    same(H, "u -= v", w, lw(lambda x, y: x - y, su, sv), cls, n)
    w = u
    w *= a
    same(H, "u *= a", w, lw(lambda x: x * a, su), cls, n)
    H.eq("u *= a: operands unchanged", [flat(u), flat(v)], [su, sv])
    w = u
    w /= b
    same(H, "u /= b", w, lw(lambda x: x / b, su), cls, n)
    H.eq("u /= b: operands unchanged", [flat(u), flat(v)], [su, sv])
    # laws
    H.eq("addition commutes", flat(u + v), flat(v + u))
    H.eq("scalars distribute", flat(a * (u + v)), flat(a * u + a * v))
    H.eq("scalars combine", flat((a * b) * u), flat(a * (b * u)))
    H.eq("difference with itself vanishes", flat(u - u), flat(u * 0))
    H.eq("negation is subtraction", flat(v + (-u)), flat(v - u))
    H.eq("division undoes multiplication", flat((u * b) / b), flat(u))


def npscalar(H, cfg):
    """numpy scalars on either side are not vectorised over the sequence"""
    kind = cfg["kind"]
    cu = comps(H, kind, "u")
    u = mk(H, kind, cu)
    su = snap(cu)
    a = H.np.float64(3) if not H.symbolic else H.num(3)
    same(H, "numpy scalar times vector", a * u, lw(lambda x: x * 3, su), type(u), len(cu))
    same(H, "vector times numpy scalar", u * a, lw(lambda x: x * 3, su), type(u), len(cu))
    cl = type(u)
    H.check("opts out of numpy's vectorisation", getattr(cl, "__array_ufunc__", 1) is None and getattr(cl, "__array_priority__", 0) > 0)


def mismatch(H, cfg):
    u, v = mk(H, "2", comps(H, "2", "u")), mk(H, "3", comps(H, "3", "v"))
    H.raises("different lengths are rejected in sums", lambda: u + v, ValueError)
    H.raises("different lengths are rejected in differences", lambda: u - v, ValueError)


def configs(tier):
    out = []
    for kind in ("1", "2", "2eq", "3", "4eq", "5eq", "nested", "fixed", "point"):
        for s in ("real", "int"):
            out.append(dict(name=f"{kind}:{s}", fn=laws, kind=kind, scalar=s))
        out.append(dict(name=f"numpy scalar:{kind}", fn=npscalar, kind=kind))
    out.append(dict(name="length mismatch", fn=mismatch))
    return out
