"""A stand-in for the numpy / scipy namespaces over arrays of exact symbolic
scalars.  Everything elementwise or structural runs through numpy's own object
arrays; transcendental functions and matrix factorisations are replaced by
their mathematical contract."""

import builtins
import functools
import itertools
import math
import types
from fractions import Fraction

import numpy as np

from . import poly as P
from . import rf as R
from .rf import RF, Cx, DomainError, SymBool, Unsupported, band, bor, bnot, cond

ZERO, ONE = R.ZERO, R.ONE


def ctx():
    return R.CTX


def is_sym(x):
    return isinstance(x, (RF, Cx))


def to_scalar(x):
    """python/numpy number -> RF/Cx"""
    if isinstance(x, (RF, Cx)):
        return x
    if isinstance(x, SymBool):
        return RF.of(x)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return to_scalar(x.item())
    if isinstance(x, (complex, np.complexfloating)):
        return Cx.of(x)
    r = RF.of(x)
    if r is None:
        if isinstance(x, (float, np.floating)) and x != x and ctx().opts.get("nan"):
            return R.NAN
        raise Unsupported(f"non-finite or non-numeric entry {x!r}")
    return r


def _isboolish(x):
    return isinstance(x, (bool, np.bool_, SymBool))


class SArr(np.ndarray):
    """object array of RF / Cx (or of SymBool)"""
    __array_priority__ = 20.0

    def __array_finalize__(self, obj):
        pass

    # ---- element classes
    def _iscx(self):
        return any(isinstance(x, Cx) for x in np.ndarray.ravel(self.view(np.ndarray)))

    @property
    def real(self):
        return emap(lambda x: x.re if isinstance(x, Cx) else x, self)

    @property
    def imag(self):
        return emap(lambda x: x.im if isinstance(x, Cx) else ZERO, self)

    @property
    def dtype(self):
        b = np.ndarray.ravel(self.view(np.ndarray))
        if len(b) and all(_isboolish(x) for x in b):
            return np.dtype(bool)
        return np.dtype(complex) if self._iscx() else np.dtype(float)

    def conj(self):
        return emap(lambda x: x.conjugate() if isinstance(x, Cx) else x, self)

    conjugate = conj

    def astype(self, dtype, *a, **k):
        return cast(self, dtype)

    def copy(self, order="C"):
        return wrap(np.array(self.view(np.ndarray), dtype=object, copy=True))

    def __deepcopy__(self, memo):
        return self.copy()

    def __copy__(self):
        return self.copy()

    def item(self, *a):
        return np.ndarray.item(self.view(np.ndarray), *a)

    def tolist(self):
        return self.view(np.ndarray).tolist()

    # ---- indexing
    def __getitem__(self, idx):
        r = self.view(np.ndarray)[fixidx(idx)]
        if isinstance(r, np.ndarray):
            return wrap(r)
        return r

    def __setitem__(self, idx, val):
        idx = fixidx(idx)
        base = self.view(np.ndarray)
        cx = self._iscx()
        if isinstance(val, np.ndarray) or isinstance(val, (list, tuple)):
            v = asobj(val)
            if not cx:
                v = np.frompyfunc(lambda x: x.re if isinstance(x, Cx) else to_scalar(x), 1, 1)(v)
            else:
                v = np.frompyfunc(Cx.of, 1, 1)(v)
            if not isinstance(base[idx], np.ndarray):
                if v.size != 1:
                    raise ValueError("setting an array element with a sequence.")
                v = v.reshape(-1)[0]
            base[idx] = v
        else:
            v = to_scalar(val)
            if isinstance(v, Cx) and not cx:
                v = v.re
            if cx:
                v = Cx.of(v)
            tgt = base[idx]
            if isinstance(tgt, np.ndarray):
                w = np.empty(tgt.shape, dtype=object)
                w[...] = v
                base[idx] = w
            else:
                base[idx] = v

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __contains__(self, v):
        return builtins.any(bool(x == v) for x in self.flat_list())

    def flat_list(self):
        return list(np.ndarray.ravel(self.view(np.ndarray)))

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous.")
        return bool(self.flat_list()[0])

    def __float__(self):
        if self.size != 1:
            raise TypeError("only length-1 arrays can be converted")
        return float(self.flat_list()[0])

    # ---- reductions / methods
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return asum(self, axis, keepdims)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return areduce(lambda a, b: a * b, self, axis, keepdims, ONE)

    def mean(self, axis=None, keepdims=False, **kw):
        s = asum(self, axis, keepdims)
        n = self.size if axis is None else np.prod([self.shape[a] for a in np.atleast_1d(axis)])
        return s / int(n)

    def max(self, axis=None, keepdims=False, **kw):
        return areduce(smax, self, axis, keepdims)

    def min(self, axis=None, keepdims=False, **kw):
        return areduce(smin, self, axis, keepdims)

    def any(self, axis=None, out=None, keepdims=False, **kw):
        return _any(self, axis, keepdims)

    def all(self, axis=None, out=None, keepdims=False, **kw):
        return _all(self, axis, keepdims)

    def argmin(self, axis=None, **k):
        return _argmin(self, axis)

    def argmax(self, axis=None, **k):
        return _argmax(self, axis)

    def argsort(self, axis=-1, **k):
        return _argsort(self, axis)

    def sort(self, axis=-1, **k):
        self.view(np.ndarray)[...] = asobj(_sort(self, axis))

    def std(self, axis=None, ddof=0, keepdims=False, **k):
        return NP.sqrt(self.var(axis, ddof=ddof, keepdims=keepdims))

    def var(self, axis=None, ddof=0, keepdims=False, **k):
        d = self - self.mean(axis, keepdims=True) if self.ndim else self * 0
        d = d * d.conj() if self._iscx() else d * d
        n = self.size if axis is None else int(np.prod([self.shape[a] for a in np.atleast_1d(axis)]))
        return NP.real(asum(d, axis, keepdims)) / (n - ddof)

    def dot(self, o):
        return matmul_like(self, o, "dot")

    def trace(self, offset=0, axis1=0, axis2=1, **k):
        return _trace(self, axis1=axis1, axis2=axis2)

    def round(self, decimals=0, **k):
        return NP.round(self, decimals)

    def clip(self, lo=None, hi=None, **k):
        return NP.clip(self, lo, hi)

    def fill(self, v):
        self[...] = v

    # ---- numpy protocols
    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        return ufunc_impl(ufunc, method, inputs, out, kw)

    def __array_function__(self, func, types_, args, kwargs):
        name = func.__name__
        mod = getattr(func, "__module__", "") or ""
        table = LINALG if "linalg" in mod else None
        f = None
        if table is not None:
            f = getattr(table, name, None)
        if f is None:
            f = OVERRIDES.get(name)
        if f is not None:
            return f(*args, **kwargs)
        return delegate(func, args, kwargs)


def delegate(func, args, kwargs):
    """run a structural numpy function on plain object arrays"""
    r = getattr(func, "__wrapped__", func)
    a = tree(args, lambda x: x.view(np.ndarray) if isinstance(x, SArr) else x)
    k = {kk: tree(v, lambda x: x.view(np.ndarray) if isinstance(x, SArr) else x)
         for kk, v in kwargs.items()}
    return rewrap(func(*a, **k))


def tree(x, f):
    if isinstance(x, tuple):
        if hasattr(x, "_fields"):
            return tuple(tree(y, f) for y in x)
        return tuple(tree(y, f) for y in x)
    if isinstance(x, list):
        return [tree(y, f) for y in x]
    return f(x)


def rewrap(r):
    if isinstance(r, tuple):
        return tuple(rewrap(x) for x in r)
    if isinstance(r, list):
        return [rewrap(x) for x in r]
    if isinstance(r, np.ndarray) and r.dtype == object:
        return wrap(r)
    return r


def wrap(a):
    return a.view(SArr)


def wrap0(a):
    """0-d object results become scalars"""
    if isinstance(a, np.ndarray):
        if a.ndim == 0:
            return a.item() if not isinstance(a, SArr) else a.view(np.ndarray).item()
        return wrap(a)
    return a


def asobj(x):
    """anything array-like -> plain object ndarray of scalars"""
    if isinstance(x, SArr):
        return x.view(np.ndarray)
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return x
        return np.frompyfunc(to_scalar, 1, 1)(x) if x.ndim else _zero_d(to_scalar(x.item()))
    if isinstance(x, (RF, Cx, SymBool)):
        return _zero_d(x)
    if isinstance(x, (list, tuple)):
        parts = [asobj(y) for y in x]
        if not parts:
            return np.empty((0,), dtype=object)
        shp = parts[0].shape
        if builtins.any(p.shape != shp for p in parts):
            raise ValueError("setting an array element with a sequence. The requested "
                             "array has an inhomogeneous shape")
        r = np.empty((len(parts),) + shp, dtype=object)
        for i, p in enumerate(parts):
            r[i] = p if shp else p.item()
        return r
    if isinstance(x, (bool, np.bool_)):
        return _zero_d(x)
    if hasattr(x, "__sym_array__"):
        return asobj(x.__sym_array__())
    return _zero_d(to_scalar(x))


def _zero_d(v):
    r = np.empty((), dtype=object)
    r[()] = v
    return r


def sarr(x):
    return wrap(np.array(asobj(x), dtype=object, copy=True))


def has_sym(x):
    if isinstance(x, (RF, Cx, SymBool, SArr)):
        return True
    if isinstance(x, (list, tuple)):
        return builtins.any(has_sym(y) for y in x)
    return hasattr(x, "__sym_array__")


def emap(f, x):
    if isinstance(x, np.ndarray):
        o = asobj(x)
        if o.ndim == 0:
            return f(o.item())
        r = np.empty(o.shape, dtype=object)
        rf = r.ravel()
        for i, v in enumerate(o.ravel()):
            rf[i] = f(v)
        return wrap(rf.reshape(o.shape))
    if isinstance(x, (list, tuple)):
        return emap(f, wrap(asobj(x)))
    return f(x if _isboolish(x) else to_scalar(x))


def bmap(f, x, y):
    a, b = asobj(x), asobj(y)
    a, b = np.broadcast_arrays(a, b)
    if a.ndim == 0:
        return f(a.item(), b.item())
    r = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        r[i] = f(a[i], b[i])
    return wrap(r)


def fixidx(idx):
    """turn masks of (symbolic) booleans into concrete index arrays"""
    if isinstance(idx, tuple):
        return tuple(fixidx(i) for i in idx)
    if isinstance(idx, SArr) or (isinstance(idx, np.ndarray) and idx.dtype == object):
        o = idx.view(np.ndarray) if isinstance(idx, SArr) else idx
        fl = list(o.ravel())
        if all(_isboolish(v) for v in fl):
            return np.array([bool(v) for v in fl], dtype=bool).reshape(o.shape)
        return np.array([int(v) for v in fl], dtype=int).reshape(o.shape)
    if isinstance(idx, SymBool):
        return bool(idx)
    if isinstance(idx, RF):
        return int(idx)
    return idx


def _ax(axis, nd):
    if axis is None:
        return tuple(range(nd))
    if isinstance(axis, (int, np.integer)):
        axis = (axis,)
    return tuple(int(a) % nd for a in axis)


def areduce(f, x, axis=None, keepdims=False, initial=None):
    o = asobj(x)
    if o.ndim == 0:
        return o.item()
    ax = _ax(axis, o.ndim)
    keep = [i for i in range(o.ndim) if i not in ax]
    t = np.transpose(o, keep + list(ax))
    kshape = tuple(o.shape[i] for i in keep)
    t = t.reshape(kshape + (-1,))
    r = np.empty(kshape, dtype=object)
    for i in np.ndindex(*kshape):
        row = t[i]
        vals = list(row) if len(kshape) else list(t)
        if not vals:
            if initial is None:
                raise ValueError("zero-size array to reduction operation which has no identity")
            r[i] = initial
        else:
            acc = vals[0] if not _isboolish(vals[0]) or f in (_bor, _band) else RF.of(int(bool(vals[0])))
            for v in vals[1:]:
                acc = f(acc, v)
            r[i] = acc
    if keepdims:
        r = r.reshape(tuple(1 if i in ax else o.shape[i] for i in range(o.ndim)))
    return wrap0(r)


def asum(x, axis=None, keepdims=False):
    return areduce(lambda a, b: a + b, x, axis, keepdims, ZERO)


def smax(a, b):
    c = a >= b
    return a if bool(c) else b


def smin(a, b):
    c = a <= b
    return a if bool(c) else b


def _bor(a, b):
    return bor(a, b)


def _band(a, b):
    return band(a, b)


def tobool(v):
    if _isboolish(v):
        return v
    if isinstance(v, (RF, Cx)):
        return v != 0
    return bool(v)


def _any(x, axis=None, keepdims=False, **k):
    o = emap(tobool, x)
    if not isinstance(o, np.ndarray):
        return o
    if o.size == 0:
        return False
    return areduce(_bor, o, axis, keepdims)


def _all(x, axis=None, keepdims=False, **k):
    o = emap(tobool, x)
    if not isinstance(o, np.ndarray):
        return o
    if o.size == 0:
        return True
    return areduce(_band, o, axis, keepdims)


def _along(f, o, axis, dtype=int):
    """f of one-dimensional slices along axis (f returns a scalar or a slice)"""
    o = np.moveaxis(o, axis, -1)
    rows = {i: f(o[i]) for i in np.ndindex(*o.shape[:-1])}
    first = next(iter(rows.values()))
    if isinstance(first, np.ndarray):
        r = np.empty(o.shape, dtype=dtype)
    else:
        r = np.empty(o.shape[:-1], dtype=dtype)
    for i, v in rows.items():
        r[i] = v
    return np.moveaxis(r, -1, axis) if isinstance(first, np.ndarray) else r


def _argsort(x, axis=-1, **k):
    o = asobj(x)
    if o.ndim > 1:
        if axis is None:
            return _argsort(o.ravel())
        return _along(_argsort, o, axis)
    vals = list(o)

    # stable insertion sort with explicit (possibly symbolic) comparisons
    order = []
    for i, v in enumerate(vals):
        pos = len(order)
        while pos > 0 and bool(vals[order[pos - 1]] > v):
            pos -= 1
        order.insert(pos, i)
    return np.array(order, dtype=int)


def _argmin(x, axis=None, **k):
    o = asobj(x)
    if axis is not None and o.ndim > 1:
        return _along(_argmin, o, axis)
    vals = list(o.ravel())
    b = 0
    for i in range(1, len(vals)):
        if bool(vals[i] < vals[b]):
            b = i
    return b


def _argmax(x, axis=None, **k):
    o = asobj(x)
    if axis is not None and o.ndim > 1:
        return _along(_argmax, o, axis)
    vals = list(o.ravel())
    b = 0
    for i in range(1, len(vals)):
        if bool(vals[i] > vals[b]):
            b = i
    return b


def _trace(x, offset=0, axis1=0, axis2=1, **k):
    o = asobj(x)
    return asum(wrap(np.diagonal(o, offset, axis1, axis2)), -1) if o.ndim > 2 else \
        asum(wrap(np.diagonal(o, offset, axis1, axis2)))


def matmul_like(a, b, kind):
    A, B = asobj(a), asobj(b)
    if A.ndim == 0 or B.ndim == 0:
        if kind == "matmul":
            raise ValueError("matmul: Input operand does not have enough dimensions")
        return wrap0(A * B) if (A.ndim or B.ndim) else A.item() * B.item()
    f = np.matmul if kind == "matmul" else np.dot
    if (A.shape[-1] if A.ndim else 0) == 0:
        r = f(A.astype(float), B.astype(float))
        return wrap0(np.zeros(r.shape)) if isinstance(r, np.ndarray) else RF.of(0)
    r = f(A, B)
    if isinstance(r, np.ndarray):
        return wrap0(r)
    return r


UN = {
    "sqrt": lambda x: x.sqrt(), "exp": lambda x: x.exp(), "log": lambda x: x.log(),
    "cos": lambda x: x.cos(), "sin": lambda x: x.sin(), "tan": lambda x: x.sin() / x.cos(),
    "arccos": lambda x: x.arccos(), "arcsin": lambda x: x.arcsin(), "arctan": lambda x: x.arctan(),
    "tanh": lambda x: x.tanh(), "sinh": lambda x: x.sinh(), "cosh": lambda x: x.cosh(),
    "arctanh": lambda x: x.arctanh(), "arccosh": lambda x: x.arccosh(), "arcsinh": lambda x: x.arcsinh(),
    "absolute": lambda x: abs(x), "fabs": lambda x: abs(x), "sign": lambda x: x.sign(),
    "square": lambda x: x * x, "reciprocal": lambda x: 1 / x, "negative": lambda x: -x,
    "positive": lambda x: x, "conjugate": lambda x: x.conjugate(), "conj": lambda x: x.conjugate(),
    "log1p": lambda x: x.log1p(), "expm1": lambda x: x.expm1(), "log10": lambda x: x.log10(),
    "log2": lambda x: x.log2(), "isnan": lambda x: False, "isfinite": lambda x: True,
    "isinf": lambda x: False, "cbrt": lambda x: x.root(3) if bool(x >= 0) else -((-x).root(3)),
    "trunc": lambda x: x.floor() if bool(x >= 0) else -((-x).floor()),
    "degrees": lambda x: x * 180 / ctx().pi(), "radians": lambda x: x * ctx().pi() / 180, "rad2deg": lambda x: x * 180 / ctx().pi(),
    "logical_not": lambda x: bnot(tobool(x)), "invert": lambda x: bnot(x) if _isboolish(x) else ~x,
    "rint": lambda x: x.rint(), "floor": lambda x: x.floor(), "ceil": lambda x: -((-x).floor()),
    "deg2rad": lambda x: x * ctx().pi() / 180,
}


def _arctan2(y, x):
    if isinstance(y, R.NanS) or isinstance(x, R.NanS):
        return R.NAN
    if y.has_nil() or x.has_nil():
        if bool(x.split_nil()[0] > 0):
            return (y / x).arctan()
        raise Unsupported("arctan2 of a jet")
    return ctx().arctan2(y, x)


BIN = {
    "add": lambda a, b: a + b, "subtract": lambda a, b: a - b, "multiply": lambda a, b: a * b,
    "divide": lambda a, b: sdiv(a, b), "true_divide": lambda a, b: sdiv(a, b),
    "power": lambda a, b: a ** b, "float_power": lambda a, b: a ** b,
    "maximum": smax, "minimum": smin, "fmax": smax, "fmin": smin,
    "greater": lambda a, b: a > b, "greater_equal": lambda a, b: a >= b,
    "less": lambda a, b: a < b, "less_equal": lambda a, b: a <= b,
    "equal": lambda a, b: a == b, "not_equal": lambda a, b: a != b,
    "logical_and": lambda a, b: band(tobool(a), tobool(b)),
    "logical_or": lambda a, b: bor(tobool(a), tobool(b)),
    "logical_xor": lambda a, b: bool(tobool(a)) != bool(tobool(b)),
    "bitwise_and": lambda a, b: band(a, b), "bitwise_or": lambda a, b: bor(a, b),
    "hypot": lambda a, b: (a * a + b * b).sqrt(), "arctan2": _arctan2,
    "floor_divide": lambda a, b: (a / b).floor(),
}


def sdiv(a, b):
    a, b = to_scalar(a), to_scalar(b)
    try:
        return a / b
    except ZeroDivisionError:
        if ctx().opts.get("nan"):
            return R.NAN
        ctx().event("division by zero")
        raise DomainError("array division by zero")


def _lift(v):
    if _isboolish(v):
        return v
    return to_scalar(v)


def _nanable(f):
    """undefined values instead of errors, as numpy does (option nan=True)"""
    def g(*a):
        try:
            return f(*a)
        except (DomainError, ZeroDivisionError):
            if ctx().opts.get("nan"):
                return R.NAN
            raise
    return g


for _n in ("sqrt", "log", "arccos", "arcsin", "arctanh", "arccosh", "log1p", "log10", "log2", "reciprocal", "tan", "cbrt"):
    UN[_n] = _nanable(UN[_n])
for _n in ("power", "float_power", "floor_divide", "arctan2"):
    BIN[_n] = _nanable(BIN[_n])
UN["isnan"] = lambda x: isinstance(x, R.NanS)
UN["isfinite"] = lambda x: not isinstance(x, R.NanS)


def ufunc_impl(ufunc, method, inputs, out, kw):
    name = ufunc.__name__
    where = kw.get("where", True)
    if method == "__call__":
        if name in ("matmul", "vecdot", "matvec", "vecmat"):
            if name != "matmul":
                raise Unsupported(name)
            r = matmul_like(inputs[0], inputs[1], "matmul")
        elif name in UN:
            r = emap(lambda x: UN[name](_lift(x)), wrap(asobj(inputs[0])) if not isinstance(inputs[0], SArr) else inputs[0])
        elif name in BIN:
            f = BIN[name]
            if name == "power" and not has_sym(inputs[1]):
                e = inputs[1]
                if not isinstance(e, np.ndarray):
                    r = emap(lambda x: _lift(x) ** e, inputs[0])
                else:
                    r = bmap(lambda a, b: _lift(a) ** _lift(b), inputs[0], e)
            elif name in ("greater", "greater_equal", "less", "less_equal", "equal", "not_equal") \
                    and isinstance(inputs[1], float) and (math.isinf(inputs[1]) or math.isnan(inputs[1])):
                r = emap(lambda x: f(x, inputs[1]), inputs[0])
            else:
                r = bmap(lambda a, b: f(_lift(a), _lift(b)), inputs[0], inputs[1])
        else:
            raise Unsupported("ufunc " + name)
        if out is not None:
            tgt = out[0] if isinstance(out, tuple) else out
            if isinstance(tgt, SArr):
                if has_cx(r) and not tgt._iscx():
                    raise TypeError("Cannot cast ufunc output from complex to float with casting rule 'same_kind'")
                if where is not True:
                    m = np.broadcast_to(np.array([[bool(v)] for v in np.ravel(asobj(where))]).reshape(np.shape(asobj(where))), tgt.shape)
                    rr = np.broadcast_to(asobj(r), tgt.shape)
                    for i in np.ndindex(*tgt.shape):
                        if m[i]:
                            tgt[i] = rr[i]
                    return tgt
                tgt[...] = r
                return tgt
            raise TypeError("cannot store symbolic values in a float array")
        if where is not True:
            raise Unsupported("ufunc where= without out=")
        return r
    if method == "reduce":
        x = inputs[0]
        axis = kw.get("axis", 0)
        kd = kw.get("keepdims", False)
        if name == "add":
            return asum(x, axis, kd)
        if name == "multiply":
            return areduce(lambda a, b: a * b, x, axis, kd, ONE)
        if name == "maximum":
            return areduce(smax, x, axis, kd)
        if name == "minimum":
            return areduce(smin, x, axis, kd)
        if name == "logical_or":
            return _any(x, axis, kd)
        if name == "logical_and":
            return _all(x, axis, kd)
    if method == "outer":
        a, b = asobj(inputs[0]), asobj(inputs[1])
        return ufunc_impl(ufunc, "__call__", (wrap(a.reshape(a.shape + (1,) * b.ndim)), wrap(b)), None, {})
    if method == "accumulate" and name == "add":
        return wrap(np.add.accumulate(asobj(inputs[0]), kw.get("axis", 0)))
    raise Unsupported(f"ufunc {name}.{method}")


def has_cx(x):
    if isinstance(x, Cx):
        return True
    if isinstance(x, np.ndarray):
        if x.dtype == complex:
            return True
        return builtins.any(isinstance(v, Cx) for v in asobj(x).ravel()) if isinstance(x, SArr) else np.iscomplexobj(x)
    if isinstance(x, (list, tuple)):
        return builtins.any(has_cx(y) for y in x)
    return isinstance(x, complex)


def cast(x, dtype):
    if dtype is None or dtype is object:
        return x
    d = np.dtype(dtype) if not isinstance(dtype, np.dtype) else dtype
    if d.kind == "c":
        return emap(Cx.of, x) if isinstance(x, np.ndarray) else Cx.of(x)
    if d.kind == "f":
        return emap(lambda v: v.re if isinstance(v, Cx) else (RF.of(int(bool(v))) if _isboolish(v) else v), x)
    if d.kind == "b":
        return emap(lambda v: tobool(v), x)
    if d.kind in "iu":
        return np.array([int(v) for v in asobj(x).ravel()], dtype=d).reshape(np.shape(asobj(x)))
    raise Unsupported(f"cast to {d}")


# ------------------------------------------------------------------ creation

def _full(shape, v, dtype=None):
    if isinstance(shape, (int, np.integer)):
        shape = (int(shape),)
    if isinstance(shape, RF):
        shape = (int(shape),)
    shape = tuple(int(s) for s in shape)
    d = np.dtype(dtype) if dtype is not None else np.dtype(float)
    if d.kind == "b":
        r = np.empty(shape, dtype=object)
        r[...] = bool(v)
        return wrap(r)
    if d.kind in "iu" and not is_sym(v):
        return np.full(shape, v, dtype=d)
    r = np.empty(shape, dtype=object)
    s = to_scalar(v)
    if d.kind == "c":
        s = Cx.of(s)
    for i in np.ndindex(*shape):
        r[i] = s
    return wrap(r)


def zeros(shape, dtype=None, order="C", **k):
    return _full(shape, 0, dtype)


def ones(shape, dtype=None, order="C", **k):
    return _full(shape, 1, dtype)


def empty(shape, dtype=None, order="C", **k):
    if dtype is object:
        return np.empty(shape, dtype=object)
    return _full(shape, 0, dtype)


def full(shape, fill_value, dtype=None, **k):
    if dtype is None:
        v = to_scalar(fill_value)
        return _full(shape, v, complex if isinstance(v, Cx) else float)
    return _full(shape, fill_value, dtype)


def _like(v):
    def f(a, dtype=None, **k):
        if dtype is None:
            dtype = complex if has_cx(a) else (a.dtype if isinstance(a, np.ndarray) and a.dtype.kind in "ib" and not isinstance(a, SArr) else float)
        return _full(np.shape(asobj(a)), v, dtype)
    return f


def full_like(a, v, dtype=None, **k):
    return _full(np.shape(asobj(a)), v, dtype or (complex if has_cx(a) else float))


def eye(n, m=None, k=0, dtype=None, **kw):
    n = int(n)
    m = n if m is None else int(m)
    r = _full((n, m), 0, dtype)
    for i in range(n):
        if 0 <= i + k < m:
            r[i, i + k] = 1
    return r


def array(x, dtype=None, copy=True, ndmin=0, **k):
    if isinstance(x, types.GeneratorType):
        raise Unsupported("array of generator")
    if has_sym(x):
        o = asobj(x)
        if dtype is object:
            return np.array(o, dtype=object)
        r = wrap(np.array(o, dtype=object, copy=True))
        if dtype is not None and r.ndim:
            r = cast(r, dtype)
        while r.ndim < ndmin:
            r = r[None]
        return r
    a = np.array(x, dtype=dtype, ndmin=ndmin)
    if a.dtype.kind in "fc":
        if not np.all(np.isfinite(a)):
            return a
        return wrap(np.array(asobj(a), dtype=object))
    return a


def asarray(x, dtype=None, **k):
    if isinstance(x, SArr):
        return x if dtype is None else cast(x, dtype)
    return array(x, dtype)


def arange(*a, **k):
    vals = [int(x) if isinstance(x, RF) else x for x in a]
    r = np.arange(*vals, **k)
    return r if r.dtype.kind in "iu" else array(r)


def diag(v, k=0):
    o = asobj(v)
    if o.ndim == 1:
        n = len(o) + abs(k)
        cx = has_cx(v) if isinstance(v, np.ndarray) else builtins.any(isinstance(x, Cx) for x in o)
        r = _full((n, n), 0, complex if cx else float)
        for i, x in enumerate(o):
            r[i + (-k if k < 0 else 0), i + (k if k > 0 else 0)] = x
        return r
    return wrap(np.diagonal(o, k).copy())


def where(c, *xy):
    if not xy:
        o = asobj(c) if not isinstance(c, np.ndarray) else c
        m = np.array([bool(tobool(v)) for v in np.ravel(asobj(o))]).reshape(np.shape(o))
        return np.where(m)
    x, y = xy
    cc, a, b = np.broadcast_arrays(asobj(c), asobj(x), asobj(y))
    r = np.empty(cc.shape, dtype=object)
    cx = has_cx(x) or has_cx(y)
    for i in np.ndindex(*cc.shape):
        v = a[i] if bool(tobool(cc[i])) else b[i]
        r[i] = Cx.of(v) if cx else v
    return wrap0(r)


def clip(x, a_min=None, a_max=None, out=None, min=None, max=None, **k):
    lo = a_min if a_min is not None else min
    hi = a_max if a_max is not None else max
    r = x
    if lo is not None:
        r = bmap(smax, r, lo)
    if hi is not None:
        r = bmap(smin, r, hi)
    if out is not None:
        out[...] = r
        return out
    return r


def sinc(x):
    return emap(lambda v: v.sinc(), x)


def tensordot(a, b, axes=2):
    A, B = asobj(a), asobj(b)
    if isinstance(axes, (list, tuple)) or hasattr(axes, "__iter__"):
        return wrap0(np.tensordot(A, B, axes=axes))
    axes = int(axes)
    if axes == 0:
        return wrap0(np.tensordot(A, B, axes=0))
    if A.shape[A.ndim - axes:] != B.shape[:axes]:
        raise ValueError("shape-mismatch for sum")
    r = np.tensordot(A, B, axes=axes)
    return wrap0(r) if isinstance(r, np.ndarray) else r


def einsum(sub, *ops, **k):
    ops = [asobj(o) for o in ops]
    return wrap0(np.einsum(sub, *ops, optimize=False)) if False else _einsum(sub, ops)


def _einsum(sub, ops):
    sub = sub.replace(" ", "")
    if "->" in sub:
        ins, out = sub.split("->")
    else:
        ins = sub
        letters = sub.replace(",", "").replace(".", "")
        out = ("..." if "..." in sub else "") + "".join(sorted(c for c in set(letters) if letters.count(c) == 1))
    ins = ins.split(",")
    if "..." in sub:
        nb = builtins.max(o.ndim - len(i.replace("...", "")) for i, o in zip(ins, ops) if "..." in i)
        bl = "ABCDEFGH"[:nb]
        ins = [i.replace("...", bl[nb - (o.ndim - len(i.replace("...", ""))):]) for i, o in zip(ins, ops)]
        out = out.replace("...", bl)
    dims = {}
    for i, o in zip(ins, ops):
        for c, n in zip(i, o.shape):
            if dims.get(c, 1) in (1, n):
                dims[c] = builtins.max(n, dims.get(c, 1))
            elif n != 1:
                raise ValueError("einsum: operands could not be broadcast together")
    summed = [c for c in dims if c not in out]
    r = np.empty(tuple(dims[c] for c in out), dtype=object)
    for idx in np.ndindex(*r.shape):
        env = dict(zip(out, idx))
        acc = ZERO
        for sidx in itertools.product(*[range(dims[c]) for c in summed]):
            env.update(zip(summed, sidx))
            t = None
            for i, o in zip(ins, ops):
                v = o[tuple(env[c] if o.shape[j] != 1 else 0 for j, c in enumerate(i))]
                t = v if t is None else t * v
            acc = acc + t
        r[idx] = acc
    return wrap0(r)


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return _all(isclose(a, b, rtol, atol))


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return bmap(lambda x, y: abs(x - y) <= RF.of(atol) + RF.of(rtol) * abs(y), a, b)


def vectorize(pyfunc=None, otypes=None, doc=None, excluded=None, cache=False, signature=None):
    if pyfunc is None:
        return lambda f: vectorize(f, signature=signature)
    if signature is None:
        def g(*args):
            arrs = np.broadcast_arrays(*[asobj(a) for a in args])
            r = np.empty(arrs[0].shape, dtype=object)
            for i in np.ndindex(*r.shape):
                r[i] = to_scalar(pyfunc(*[a[i] for a in arrs]))
            return wrap0(r)
        return g
    ins, outs = signature.replace(" ", "").split("->")
    nin = [len([d for d in s.strip("()").split(",") if d]) for s in _split(ins)]
    nout = len(_split(outs))

    def h(*args):
        arrs = [asobj(a) for a in args]
        for a, n in zip(arrs, nin):
            if a.ndim < n:
                raise ValueError("not enough dimensions for the signature")
        bshape = np.broadcast_shapes(*[a.shape[:a.ndim - n] for a, n in zip(arrs, nin)])
        arrs = [np.broadcast_to(a, bshape + a.shape[a.ndim - n:]) for a, n in zip(arrs, nin)]
        res = [[] for _ in range(nout)]
        for i in np.ndindex(*bshape):
            r = pyfunc(*[wrap(np.array(a[i], dtype=object)) for a in arrs])
            r = r if nout > 1 else (r,)
            for j in range(nout):
                res[j].append(asobj(r[j]))
        out = []
        for j in range(nout):
            if not res[j]:
                raise ValueError("cannot call `vectorize` with a signature on size 0 inputs")
            s = np.stack(res[j]) if bshape else res[j][0]
            if bshape:
                s = s.reshape(bshape + res[j][0].shape)
            cx = builtins.any(isinstance(v, Cx) for v in s.ravel())
            s = wrap(np.array(s, dtype=object))
            out.append(emap(Cx.of, s) if cx else s)
        return tuple(out) if nout > 1 else wrap0(out[0])
    return h


def _split(s):
    out = []
    depth = 0
    cur = ""
    for c in s:
        if c == "(":
            depth += 1
        if c == ")":
            depth -= 1
        if c == "," and depth == 0:
            out.append(cur)
            cur = ""
        else:
            cur += c
    out.append(cur)
    return out


def real(x):
    return emap(lambda v: v.re if isinstance(v, Cx) else v, x) if has_sym(x) else np.real(x)


def imag(x):
    return emap(lambda v: v.im if isinstance(v, Cx) else ZERO, x) if has_sym(x) else np.imag(x)


def iscomplexobj(x):
    return has_cx(x)


def isrealobj(x):
    return not has_cx(x)


def polyfit(x, y, deg, rcond=None, full=False, w=None, cov=False):
    """least squares polynomial of degree at most one"""
    if w is not None or cov or deg not in (0, 1):
        raise Unsupported("polyfit")
    X, Y = [to_scalar(v) for v in asobj(x).ravel()], [to_scalar(v) for v in asobj(y).ravel()]
    n = len(X)
    if n == 0:
        raise TypeError("expected non-empty vector for x")
    if len(Y) != n:
        raise TypeError("expected x and y to have same length")
    mx, my = _ssum(X) / n, _ssum(Y) / n
    if deg == 0:
        p, rank = [my], 1
    else:
        sxx = _ssum([(v - mx) * (v - mx) for v in X])
        if not bool(sxx > 0):
            raise Unsupported("polyfit: coincident abscissae")
        sl = _ssum([(v - mx) * (u - my) for v, u in zip(X, Y)]) / sxx
        p, rank = [sl, my - sl * mx], 2
    P_ = array(p)
    if not full:
        return P_
    rs = []
    if n > deg + 1:
        r = ZERO
        for v, u in zip(X, Y):
            d = u - (p[0] if deg == 0 else p[0] * v + p[1])
            r = r + d * d
        rs = [r]
    return P_, array(rs), rank, None, None


def _ssum(xs):
    a = ZERO
    for v in xs:
        a = a + v
    return a


def polyval(p, x):
    o = list(asobj(p))
    acc = ZERO
    for c in o:
        acc = acc * x + c
    return acc


def _sort(x, axis=-1, **k):
    o = asobj(x)
    if o.ndim > 1:
        if axis is None:
            return _sort(o.ravel())
        return wrap(_along(lambda r: asobj(_sort(r)), o, axis, object))
    return wrap(np.array([o[i] for i in _argsort(o)], dtype=object)) if len(o) else wrap(o)


def logspace(a, b, num=50, **k):
    r = np.logspace(float(a), float(b), num)
    return array(r)


def linspace(a, b, num=50, **k):
    r = np.empty(num, dtype=object)
    a, b = to_scalar(a), to_scalar(b)
    for i in range(num):
        r[i] = a + (b - a) * Fraction(i, builtins.max(1, num - 1))
    return wrap(r)


def spacing(x):
    return EPS()


def EPS():
    c = ctx()
    mode = c.opts.get("eps", "zero")
    if mode == "zero":
        return ZERO
    if mode == "exact":
        return RF.of(Fraction(1, 2 ** 52))
    if "eps" not in c.free:
        c.real("eps", 0, RF.of(Fraction(1, 10 ** 15)))
    return c.free["eps"]


class finfo:
    def __init__(self, t):
        pass

    max = 1.7976931348623157e308
    min = -1.7976931348623157e308
    tiny = ZERO
    resolution = RF.of(Fraction(1, 10 ** 15))

    @property
    def eps(self):
        return EPS()


# ------------------------------------------------------------------ linalg

def _mats(a):
    """iterate over the stacked matrices"""
    o = asobj(a)
    return o


def _batch(f, a, nout=1):
    o = asobj(a)
    if o.ndim < 2:
        raise np.linalg.LinAlgError(f"{o.ndim}-dimensional array given. Array must be at least two-dimensional")
    if o.ndim == 2:
        return f(o)
    res = [f(o[i]) for i in np.ndindex(*o.shape[:-2])]
    if nout == 1:
        return _stack(res, o.shape[:-2])
    return tuple(_stack([r[j] for r in res], o.shape[:-2]) for j in range(nout))


def _stack(res, bshape):
    parts = [asobj(r) for r in res]
    s = np.empty((len(parts),) + parts[0].shape, dtype=object)
    for i, p in enumerate(parts):
        s[i] = p if p.ndim else p.item()
    s = s.reshape(tuple(bshape) + parts[0].shape)
    if builtins.any(isinstance(v, Cx) for v in s.ravel()):
        s = np.frompyfunc(Cx.of, 1, 1)(s)
    return wrap(s)


def _det(o):
    n = o.shape[0]
    if o.shape[0] != o.shape[1]:
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    if n == 1:
        return o[0, 0]
    if n == 2:
        return o[0, 0] * o[1, 1] - o[0, 1] * o[1, 0]
    acc = ZERO
    for j in range(n):
        if _isz(o[0, j]):
            continue
        m = np.delete(np.delete(o, 0, 0), j, 1)
        t = o[0, j] * _det(m)
        acc = acc + t if j % 2 == 0 else acc - t
    return acc


def _isz(v):
    if isinstance(v, Cx):
        return v.re.is_zero() and v.im.is_zero()
    return v.is_zero()


def det(a):
    r = _batch(lambda o: _det(o), a)
    return r


def slogdet(a):
    d = det(a)
    return np.sign(d), abs(d).log()


def _inv(o):
    n = o.shape[0]
    if o.shape[0] != o.shape[1]:
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    if all(_isz(o[i, j]) for i in range(n) for j in range(n) if i != j):
        r = np.empty((n, n), dtype=object)
        r[...] = ZERO
        for i in range(n):
            r[i, i] = 1 / o[i, i]
        return r
    d = _det(o)
    if _isz(d):
        raise np.linalg.LinAlgError("Singular matrix")
    for (A, Ai) in ctx_list("inverses"):
        if A.shape == o.shape and _eqm(A, o):
            return Ai
    r = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            m = np.delete(np.delete(o, j, 0), i, 1)
            c = _det(m) if n > 1 else ONE
            r[i, j] = (c if (i + j) % 2 == 0 else -c) / d
    return r


def inv(a):
    return _wrapcx(_batch(lambda o: _inv(o), a))


def _wrapcx(r):
    o = asobj(r)
    if builtins.any(isinstance(v, Cx) for v in o.ravel()):
        o = np.frompyfunc(Cx.of, 1, 1)(o)
    return wrap0(o)


def solve(a, b):
    A, B = asobj(a), asobj(b)
    if B.ndim == 1:
        return matmul_like(inv(A), wrap(B), "matmul")
    return _wrapcx(matmul_like(inv(A), wrap(B), "matmul"))


def lstsq(*a, **k):
    raise Unsupported("lstsq")


def pinv(a, *args, **k):
    A = wrap(asobj(a))
    h = A.conj().T
    o = asobj(a)
    if builtins.all(RF.of(v).const() is not None for v in o.ravel() if not isinstance(v, Cx)) and \
            not builtins.any(isinstance(v, Cx) for v in o.ravel()):
        # rank factorisation A = B F: independent columns B
        keep = []
        for j in range(o.shape[1]):
            if matrix_rank(wrap(o[:, keep + [j]])) == len(keep) + 1:
                keep.append(j)
        if not keep:
            return h * 0
        B = wrap(o[:, keep])
        F = inv(B.T @ B) @ B.T @ A
        return F.T @ inv(F @ F.T) @ inv(B.T @ B) @ B.T
    if A.shape[0] >= A.shape[1]:
        return inv(h @ A) @ h
    return h @ inv(A @ h)


def norm(x, ord=None, axis=None, keepdims=False):
    o = asobj(x)
    if axis is None and ord in (None, "fro", 2) and (ord != 2 or o.ndim == 1):
        s = ZERO
        for v in o.ravel():
            s = s + _abs2(v)
        r = s.sqrt()
        if keepdims:
            return wrap(np.array(asobj(r)).reshape((1,) * o.ndim))
        return r
    if axis is not None and ord in (None, 2, "fro") and (ord != 2 or not isinstance(axis, tuple)):
        s = asum(emap(_abs2, wrap(o)), axis, keepdims)
        return emap(lambda v: v.sqrt(), s)
    if ord in (1, np.inf) and o.ndim == 1 and axis is None:
        v = [abs(t) for t in o]
        return functools.reduce((lambda a, b: a + b) if ord == 1 else smax, v)
    if ord == 2 and o.ndim == 2:
        return svd(x, compute_uv=False)[0]
    raise Unsupported(f"norm ord={ord} axis={axis}")


def _abs2(v):
    if isinstance(v, Cx):
        return v.abs2()
    v = to_scalar(v)
    return v * v if isinstance(v, RF) else v.abs2()


def matrix_rank(a, *args, **k):
    o = np.array(asobj(a), dtype=object, copy=True)
    if o.ndim != 2:
        raise Unsupported("matrix_rank")
    m, n = o.shape
    r = 0
    for j in range(n):
        p = next((i for i in range(r, m) if not _isz(o[i, j])), None)
        if p is None:
            continue
        o[[r, p]] = o[[p, r]]
        for i in range(r + 1, m):
            f = o[i, j] / o[r, j]
            for c in range(j, n):
                o[i, c] = o[i, c] - f * o[r, c]
        r += 1
    return r


def ctx_list(name):
    return ctx().__dict__.setdefault("reg_" + name, [])


def _eqm(A, B):
    return all(_isz(x - y) for x, y in zip(A.ravel(), B.ravel()))


def _isdiag(o):
    return all(_isz(o[i, j]) for i in range(o.shape[0]) for j in range(o.shape[1]) if i != j)


def _h(o):
    return np.array(wrap(np.array(o, dtype=object)).conj().view(np.ndarray).T)


def _sgn(name="d"):
    c = ctx()
    if c.opts.get("signs", True):
        n = c.__dict__.setdefault("nsign", 0)
        c.nsign += 1
        return c.signvar(f"sgn{n}")
    return ONE


def _order(w, desc=False):
    """indices sorting the (symbolic) values"""
    idx = []
    for i, v in enumerate(w):
        pos = len(idx)
        while pos > 0 and (bool(w[idx[pos - 1]] < v) if desc else bool(w[idx[pos - 1]] > v)):
            pos -= 1
        idx.insert(pos, i)
    return idx


def _frames(n):
    return [f for f in ctx_list("frames") if f.shape[0] == n]


def _eig_hermitian(o):
    """unsorted eigen-decomposition of a Hermitian matrix: (w list, V)"""
    n = o.shape[0]
    cx = builtins.any(isinstance(v, Cx) for v in o.ravel())
    I = np.array(eye(n).view(np.ndarray))
    if n == 1:
        v = o[0, 0]
        return [v.re if isinstance(v, Cx) else v], I
    if _isdiag(o):
        return [v.re if isinstance(v, Cx) else v for v in np.diagonal(o)], I
    for V in _frames(n):
        D = _h(V) @ o @ V
        if _isdiag(D):
            return [v.re if isinstance(v, Cx) else v for v in np.diagonal(D)], V
    if n == 2:
        a, d = o[0, 0], o[1, 1]
        b = o[0, 1]
        a = a.re if isinstance(a, Cx) else a
        d = d.re if isinstance(d, Cx) else d
        bb = _abs2(b)
        disc = ((a - d) * (a - d) + 4 * bb).sqrt()
        l1, l2 = (a + d + disc) / 2, (a + d - disc) / 2
        # eigenvector for l1: (b, l1 - a) ; for l2: (l1 - a)->(-(l1-a), conj b)
        t = l1 - a
        nn = (bb + t * t).sqrt()
        bc = b.conjugate() if isinstance(b, Cx) else b
        V = np.empty((2, 2), dtype=object)
        V[0, 0], V[1, 0] = b / nn, t / nn
        V[0, 1], V[1, 1] = -t / nn, bc / nn
        if cx:
            V = np.frompyfunc(Cx.of, 1, 1)(V)
        return [l1, l2], V
    # block structure: one coordinate decoupled
    for i in range(n):
        if all(_isz(o[i, j]) and _isz(o[j, i]) for j in range(n) if j != i):
            rest = [j for j in range(n) if j != i]
            w, V = _eig_hermitian(o[np.ix_(rest, rest)])
            W = np.array(eye(n).view(np.ndarray))
            for p, r in enumerate(rest):
                for q, c in enumerate(rest):
                    W[r, c] = V[p, q]
            ww = [None] * n
            v = o[i, i]
            ww[i] = v.re if isinstance(v, Cx) else v
            for p, r in enumerate(rest):
                ww[r] = w[p]
            return ww, W
    raise Unsupported(f"eigen-decomposition of a general {n}x{n} matrix")


def _eigh1(o, UPLO="L"):
    n = o.shape[0]
    # LAPACK only reads one triangle
    s = np.array(o, dtype=object, copy=True)
    for i in range(n):
        for j in range(i):
            if UPLO == "L":
                v = s[i, j]
                s[j, i] = v.conjugate() if isinstance(v, Cx) else v
            else:
                v = s[j, i]
                s[i, j] = v.conjugate() if isinstance(v, Cx) else v
        if isinstance(s[i, i], Cx):
            s[i, i] = Cx(s[i, i].re, ZERO)
    w, V = _eig_hermitian(s)
    idx = _order(w)
    w = [w[i] for i in idx]
    V = V[:, idx]
    V = np.array(V, dtype=object)
    if n > 1:
        for j in range(n):
            d = _sgn()
            for i in range(n):
                V[i, j] = V[i, j] * d
    if builtins.any(isinstance(v, Cx) for v in o.ravel()):
        V = np.frompyfunc(Cx.of, 1, 1)(V)
    ww = np.empty(n, dtype=object)
    ww[:] = w
    return ww, V


def eigh(a, UPLO="L"):
    r = _batch(lambda o: _eigh1(o, UPLO), a, 2)
    return tuple(wrap(asobj(x)) for x in r)


def eigvalsh(a, UPLO="L"):
    return eigh(a)[0]


def _complete(cols, m, cx):
    """extend orthonormal columns to an orthonormal basis (m <= 3 or trivial)"""
    k = len(cols)
    while len(cols) < m:
        cand = None
        if m == 2 and len(cols) == 1:
            u = cols[0]
            c0 = u[0].conjugate() if isinstance(u[0], Cx) else u[0]
            c1 = u[1].conjugate() if isinstance(u[1], Cx) else u[1]
            cand = np.array([-c1, c0], dtype=object)
        elif m == 3 and len(cols) == 2:
            u, v = cols
            x = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
            cand = np.array([t.conjugate() if isinstance(t, Cx) else t for t in x], dtype=object)
        else:
            # Gram-Schmidt on a canonical vector
            for e in range(m):
                v = np.array([ONE if i == e else ZERO for i in range(m)], dtype=object)
                for u in cols:
                    ip = functools.reduce(lambda a, b: a + b, [(ui.conjugate() if isinstance(ui, Cx) else ui) * vi for ui, vi in zip(u, v)])
                    v = np.array([vi - ui * ip for ui, vi in zip(u, v)], dtype=object)
                nn = functools.reduce(lambda a, b: a + b, [_abs2(t) for t in v])
                if nn.is_zero():
                    continue
                r = nn.sqrt()
                cand = np.array([t / r for t in v], dtype=object)
                break
        if cand is None:
            raise Unsupported("orthonormal completion")
        cols.append(cand)
    return cols


def _svd1(o, full, uv):
    m, n = o.shape
    cx = builtins.any(isinstance(v, Cx) for v in o.ravel())
    k = builtins.min(m, n)
    # registered decompositions (unique up to signs for distinct singular values)
    hit = None
    for (U, s, V) in ctx_list("svds"):
        if U.shape[0] == m and V.shape[0] == n and len(s) == k:
            A = (U * s[None, :]) @ _h(V)
            if _eqm(A, o):
                hit = (list(s), [U[:, i] for i in range(k)], [V[:, i] for i in range(k)])
                break
    if hit is None:
        if all(_isz(v) for v in o.ravel()):
            I = eye(builtins.max(m, n)).view(np.ndarray)
            hit = ([ZERO] * k, [I[:m, i] for i in range(k)], [I[:n, i] for i in range(k)])
        else:
            # candidate frame pairs
            for V in _frames(n):
                AV = o @ V
                G = _h(AV) @ AV
                if _isdiag(G) and m >= n:
                    w = [v.re if isinstance(v, Cx) else v for v in np.diagonal(G)]
                    hit = _from_gram(o, w, V, m, n, cx)
                    break
            if hit is None:
                if n <= m:
                    w, V = _eig_hermitian(_h(o) @ o)
                    hit = _from_gram(o, w, V, m, n, cx)
                else:
                    w, U = _eig_hermitian(o @ _h(o))
                    s, Vc, Uc = _from_gram(_h(o), w, U, n, m, cx)
                    hit = (s, Uc, Vc)
    s, Uc, Vc = hit
    idx = _order(s, desc=True)
    s = [s[i] for i in idx]
    Uc = [Uc[i] for i in idx]
    Vc = [Vc[i] for i in idx]
    ss = np.empty(k, dtype=object)
    ss[:] = s
    if not uv:
        return ss
    if not (m == 1 and n == 1 and False):
        U2, V2 = [], []
        for u, v in zip(Uc, Vc):
            d = _sgn()
            U2.append(np.array([t * d for t in u], dtype=object))
            V2.append(np.array([t * d for t in v], dtype=object))
        Uc, Vc = U2, V2
    if full:
        Uc = _complete(Uc, m, cx)
        Vc = _complete(Vc, n, cx)
    U = np.stack(Uc, axis=1)
    V = np.stack(Vc, axis=1)
    if cx:
        U = np.frompyfunc(Cx.of, 1, 1)(U)
        V = np.frompyfunc(Cx.of, 1, 1)(V)
    return U, ss, _h(V)


def vanishes(x):
    """explore the null set where a pivot vanishes (option div_fork)"""
    return ctx().div_fork and x.const() is None and ctx().psign(x.num) != 1 and not bool(x > 0)


def _from_gram(o, w, V, m, n, cx):
    s, Uc, Vc = [], [], []
    zeroes = []
    for i in range(n):
        v = V[:, i]
        Av = o @ v
        lam = w[i]
        if lam.is_zero() or vanishes(lam):
            zeroes.append(i)
            s.append(ZERO)
            Uc.append(None)
        else:
            r = lam.sqrt()
            s.append(r)
            Uc.append(np.array([t / r for t in Av], dtype=object))
        Vc.append(v)
    if zeroes:
        have = [u for u in Uc if u is not None]
        extra = _complete(list(have), m, cx)[len(have):]
        for i in zeroes:
            Uc[i] = extra.pop(0)
    return s, Uc, Vc


def svd(a, full_matrices=True, compute_uv=True, hermitian=False):
    o = asobj(a)
    if not compute_uv:
        return wrap(asobj(_batch(lambda x: _svd1(x, False, False), o)))
    r = _batch(lambda x: _svd1(x, full_matrices, True), o, 3)
    return tuple(wrap(asobj(x)) for x in r)


def svdvals(a):
    return svd(a, compute_uv=False)


def _qr1(o, mode):
    m, n = o.shape
    cx = builtins.any(isinstance(v, Cx) for v in o.ravel())
    k = builtins.min(m, n)
    Q, Rm = [], np.empty((k, n), dtype=object)
    Rm[...] = ZERO
    for j in range(n):
        v = o[:, j]
        for i, q in enumerate(Q):
            ip = functools.reduce(lambda a, b: a + b, [(x.conjugate() if isinstance(x, Cx) else x) * y for x, y in zip(q, o[:, j])])
            Rm[i, j] = ip
            v = np.array([y - x * ip for x, y in zip(q, v)], dtype=object)
        if len(Q) < k:
            nn = functools.reduce(lambda a, b: a + b, [_abs2(t) for t in v])
            if nn.is_zero() or vanishes(nn):
                Q2 = _complete(list(Q), len(Q) + 1 if False else m, cx)
                Q.append(Q2[len(Q)])
                continue
            r = nn.sqrt()
            Rm[len(Q), j] = r
            Q.append(np.array([t / r for t in v], dtype=object))
    if mode == "complete":
        Q = _complete(Q, m, cx)
        R2 = np.empty((m, n), dtype=object)
        R2[...] = ZERO
        R2[:k] = Rm
        Rm = R2
    Qm = np.stack(Q, axis=1)
    for i in range(k):
        d = _sgn()
        for r in range(m):
            Qm[r, i] = Qm[r, i] * d
        for c in range(n):
            Rm[i, c] = Rm[i, c] * d
    if cx:
        Qm = np.frompyfunc(Cx.of, 1, 1)(Qm)
        Rm = np.frompyfunc(Cx.of, 1, 1)(Rm)
    return Qm, Rm


def qr(a, mode="reduced"):
    if mode == "r":
        return _batch(lambda o: _qr1(o, "reduced"), a, 2)[1]
    r = _batch(lambda o: _qr1(o, mode), a, 2)
    return tuple(wrap(asobj(x)) for x in r)


def _chol1(o):
    n = o.shape[0]
    for L in ctx_list("chols"):
        if L.shape[0] == n and _eqm(L @ _h(L), o):
            return L
    L = np.empty((n, n), dtype=object)
    L[...] = ZERO
    cx = builtins.any(isinstance(v, Cx) for v in o.ravel())
    for j in range(n):
        s = o[j, j]
        s = s.re if isinstance(s, Cx) else s
        for k in range(j):
            s = s - _abs2(L[j, k])
        ctx().domain("cholesky: matrix is not positive definite", cond(">", s))
        L[j, j] = s.sqrt()
        for i in range(j + 1, n):
            t = o[i, j]
            for k in range(j):
                b = L[j, k]
                t = t - L[i, k] * (b.conjugate() if isinstance(b, Cx) else b)
            L[i, j] = t / L[j, j]
    if cx:
        L = np.frompyfunc(Cx.of, 1, 1)(L)
    return L


def cholesky(a, **k):
    return wrap(asobj(_batch(_chol1, a)))


def matrix_power(a, n):
    r = eye(np.shape(asobj(a))[-1])
    for _ in range(n):
        r = r @ a
    return r


def multi_dot(xs):
    r = xs[0]
    for x in xs[1:]:
        r = r @ x
    return r


def eig(a):
    raise Unsupported("eig")


# matrix functions -----------------------------------------------------

def _smul(c, M):
    r = np.empty(M.shape, dtype=object)
    for i in np.ndindex(*M.shape):
        r[i] = M[i] * c
    return r


def _expm1(o):
    n = o.shape[0]
    I = np.array(eye(n).view(np.ndarray))
    cx = builtins.any(isinstance(v, Cx) for v in o.ravel())

    def fin(r):
        return np.frompyfunc(Cx.of, 1, 1)(r) if cx else r
    if all(_isz(v) for v in o.ravel()):
        return fin(I)
    if _isdiag(o):
        r = I.copy()
        for i in range(n):
            r[i, i] = o[i, i].exp()
        return fin(r)
    # nilpotent: finite series (also covers jets without constant part)
    pw, acc, f = o, I + o, 1
    base = _basepart(o)
    base_nil, mm = all(_isz(v) for v in base.ravel()), 1
    if not base_nil and P.space().nil is not None:
        # nilpotent constant part: products vanish once they hold too many infinitesimals
        bp = base
        for mm in range(2, n + 1):
            bp = bp @ base
            if all(_isz(v) for v in bp.ravel()):
                base_nil = True
                break
    top = (ctx().nil_order + 1) * mm + 1 if P.space().nil is not None else 3
    for k in range(2, top if base_nil else 3):
        pw = pw @ o
        f *= k
        if all(_isz(v) for v in pw.ravel()):
            return fin(acc)
        acc = acc + _smul(RF.of(Fraction(1, f)), pw)
    if base_nil:
        return fin(acc)
    for (M, Mi) in ctx_list("sims"):
        if M.shape[0] == n:
            D = Mi @ o @ M
            if _isdiag(D):
                E = I.copy()
                for i in range(n):
                    v = D[i, i]
                    E[i, i] = v.exp()
                return fin(M @ E @ Mi)
    # scalar part
    tr = functools.reduce(lambda a, b: a + b, [o[i, i] for i in range(n)]) / n
    if not _isz(tr):
        B = o.copy()
        for i in range(n):
            B[i, i] = B[i, i] - tr
        return fin(_smul(tr.exp(), _expm1(B)))
    A2 = o @ o
    # A^3 = c A with a scalar c  (2x2 traceless, 3x3 skew, ...)
    A3 = A2 @ o
    piv = next((i for i in np.ndindex(n, n) if not _isz(o[i])), None)
    c = A3[piv] / o[piv]
    if isinstance(c, Cx):
        if not c.im.is_zero():
            raise Unsupported("expm: complex eigenvalues")
        c = c.re
    if _eqm(A3, _smul(c, o)):
        if c.is_zero():
            return fin(I + o + _smul(RF.of(Fraction(1, 2)), A2))
        if bool(c < 0):
            th = (-c).sqrt()
            s1, c1 = th.sin() / th, (1 - th.cos()) / (-c)
        else:
            if not bool(c > 0):
                return fin(I + o + _smul(RF.of(Fraction(1, 2)), A2))
            th = c.sqrt()
            s1, c1 = th.sinh() / th, (th.cosh() - 1) / c
        return fin(I + _smul(s1, o) + _smul(c1, A2))
    # block diagonal
    blocks = _blocks(o)
    if len(blocks) > 1:
        r = I.copy()
        for b in blocks:
            r[np.ix_(b, b)] = _expm1(np.array(o[np.ix_(b, b)], dtype=object))
        return fin(r)
    # symmetric 2x2 / known frame
    if _eqm(o, _h(o)):
        w, V = _eig_hermitian(o)
        E = I.copy()
        for i in range(n):
            E[i, i] = w[i].exp()
        return fin(V @ E @ _h(V))
    raise Unsupported(f"expm of a general {n}x{n} matrix")


def _basepart(o):
    if P.space().nil is None:
        return o
    r = np.empty(o.shape, dtype=object)
    for i in np.ndindex(*o.shape):
        v = o[i]
        r[i] = v.split_nil()[0] if isinstance(v, RF) else Cx(v.re.split_nil()[0], v.im.split_nil()[0])
    return r


def _blocks(o):
    n = o.shape[0]
    seen = set()
    out = []
    for i in range(n):
        if i in seen:
            continue
        st, comp = [i], []
        seen.add(i)
        while st:
            x = st.pop()
            comp.append(x)
            for j in range(n):
                if j not in seen and (not _isz(o[x, j]) or not _isz(o[j, x])):
                    seen.add(j)
                    st.append(j)
        out.append(sorted(comp))
    return out


def expm(a):
    return _wrapcx(_batch(_expm1, a))


def _clog(v):
    """principal logarithm of a positive or unit-modulus number"""
    if isinstance(v, Cx) and not v.im.is_zero():
        if not (v.abs2() - 1).is_zero():
            raise Unsupported("logm: complex")
        ang = v.re.arccos()
        return Cx(ZERO, ang if bool(v.im >= 0) else -ang)
    return (v.re if isinstance(v, Cx) else v).log()


def _logm1(o):
    n = o.shape[0]
    I = np.array(eye(n).view(np.ndarray))
    if _eqm(o, I):
        return _smul(ZERO, I)
    for (A, L) in ctx_list("logs"):
        if A.shape == o.shape and _eqm(A, o):
            return L
    if _isdiag(o):
        r = np.empty((n, n), dtype=object)
        r[...] = ZERO
        for i in range(n):
            r[i, i] = _clog(o[i, i])
        return r
    for (M, Mi) in ctx_list("sims"):
        if M.shape[0] == n:
            D = Mi @ o @ M
            if _isdiag(D):
                E = _smul(ZERO, I)
                for i in range(n):
                    E[i, i] = _clog(D[i, i])
                return M @ E @ Mi
    H = _h(o)
    if _eqm(H, o):
        w, V = _eig_hermitian(o)
        E = _smul(ZERO, I)
        for i in range(n):
            E[i, i] = w[i].log()
        return V @ E @ _h(V)
    cx = builtins.any(isinstance(v, Cx) for v in o.ravel())
    if _eqm(o @ H, I) and not cx:
        if n == 2 and _isz(_det(o) - 1):
            ang = o[0, 0].arccos()
            if not bool(o[1, 0] >= 0):
                ang = -ang
            return np.array([[ZERO, -ang], [ang, ZERO]], dtype=object)
        if n == 3 and _isz(_det(o) - 1):
            c = (o[0, 0] + o[1, 1] + o[2, 2] - 1) / 2
            th = c.arccos()
            s = th.sin()
            return _smul(th / (2 * s), o - o.T)
    if _eqm(o @ H, I) and cx and n == 2:
        tr = (o[0, 0] + o[1, 1]) / 2
        if tr.im.is_zero() and _isz(_det(o) - 1):
            th = tr.re.arccos()
            s = th.sin()
            return _smul(th / (2 * s), o - H)
    raise Unsupported(f"logm of a general {n}x{n} matrix")


def logm(a, disp=True):
    return _wrapcx(_logm1(asobj(a)))


def sqrtm(a, *k, **kw):
    o = asobj(a)
    if _eqm(o, _h(o)):
        w, V = _eig_hermitian(o)
        E = _smul(ZERO, np.array(eye(o.shape[0]).view(np.ndarray)))
        for i in range(o.shape[0]):
            E[i, i] = w[i].sqrt()
        return wrap(V @ E @ _h(V))
    raise Unsupported("sqrtm")


def _gauss(A, b):
    """solve A x = b exactly over the field"""
    n = len(b)
    M = [list(A[i]) + [b[i]] for i in range(n)]
    for j in range(n):
        piv = None
        best = None
        for i in range(j, n):
            if not _isz(M[i][j]):
                sz = _size(M[i][j])
                if best is None or sz < best:
                    best, piv = sz, i
        if piv is None:
            raise np.linalg.LinAlgError("Singular matrix")
        M[j], M[piv] = M[piv], M[j]
        ip = 1 / M[j][j]
        M[j] = [v * ip for v in M[j]]
        for i in range(n):
            if i != j and not _isz(M[i][j]):
                f = M[i][j]
                M[i] = [a - f * c for a, c in zip(M[i], M[j])]
    return [M[i][n] for i in range(n)]


def _size(v):
    if isinstance(v, Cx):
        return len(v.re.num) + len(v.im.num)
    return len(v.num)


def solve_continuous_lyapunov(a, q):
    """A X + X A^H = Q"""
    A, Q = asobj(a), asobj(q)
    n = A.shape[0]
    H = _h(A)
    if _isdiag(A):
        X = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                X[i, j] = Q[i, j] / (A[i, i] + H[j, j])
        return _wrapcx(X)
    for V in _frames(n):
        D = _h(V) @ A @ V
        if _isdiag(D):
            Y = _h(V) @ Q @ V
            dh = _h(D)
            X = np.empty((n, n), dtype=object)
            for i in range(n):
                for j in range(n):
                    X[i, j] = Y[i, j] / (D[i, i] + dh[j, j])
            return _wrapcx(V @ X @ _h(V))
    if n == 2 and _eqm(A, H):
        # Hermitian 2x2:  closed form avoiding the 4x4 elimination
        # X = (d Q + adj(A) Q adj(A)) / (2 t d),  t = tr A, d = det A
        t = A[0, 0] + A[1, 1]
        d = _det(A)
        J = np.array([[A[1, 1], -A[0, 1]], [-A[1, 0], A[0, 0]]], dtype=object)
        num = _smul(d, Q) + J @ Q @ J
        X = np.empty((2, 2), dtype=object)
        den = 2 * t * d
        for i in np.ndindex(2, 2):
            X[i] = num[i] / den
        return _wrapcx(X)
    M = np.empty((n * n, n * n), dtype=object)
    M[...] = ZERO
    for i in range(n):
        for j in range(n):
            for k in range(n):
                M[i * n + j, k * n + j] = M[i * n + j, k * n + j] + A[i, k]
                M[i * n + j, i * n + k] = M[i * n + j, i * n + k] + H[k, j]
    x = _gauss(M, list(Q.ravel()))
    return _wrapcx(np.array(x, dtype=object).reshape(n, n))


def solve_sylvester(a, b, q):
    A, B, Q = asobj(a), asobj(b), asobj(q)
    n, m = A.shape[0], B.shape[0]
    M = np.empty((n * m, n * m), dtype=object)
    M[...] = ZERO
    for i in range(n):
        for j in range(m):
            for k in range(n):
                M[i * m + j, k * m + j] = M[i * m + j, k * m + j] + A[i, k]
            for k in range(m):
                M[i * m + j, i * m + k] = M[i * m + j, i * m + k] + B[k, j]
    return _wrapcx(np.array(_gauss(M, list(Q.ravel())), dtype=object).reshape(n, m))


# ------------------------------------------------------------------ random

class Random:
    def _draw(self, kind, lo=None, hi=None):
        c = ctx()
        n = c.__dict__.setdefault("ndraw", 0)
        c.ndraw += 1
        q = c.__dict__.get("drawq")
        if q and kind == "n":
            return q.pop(0)
        if kind == "u":
            return c.real(f"rnd{n}", *c.__dict__.get("draw_range", (0, 1)))
        return c.real(f"rnd{n}", span=1.5)

    def _size(self, size):
        if size is None:
            return None
        if isinstance(size, (int, np.integer)):
            return (int(size),)
        return tuple(int(s) for s in size)

    def _fill(self, size, f):
        if size is None:
            return f()
        r = np.empty(size, dtype=object)
        for i in np.ndindex(*size):
            r[i] = f()
        return wrap0(r) if size == () else wrap(r)

    def normal(self, loc=0.0, scale=1.0, size=None):
        simple = not has_sym(loc) and not has_sym(scale) and loc == 0.0 and scale == 1.0
        z = self._fill(self._size(size), lambda: self._draw("n"))
        return z if simple else loc + scale * z

    def standard_normal(self, size=None, **k):
        return self.normal(size=size)

    def uniform(self, low=0.0, high=1.0, size=None):
        z = self._fill(self._size(size), lambda: self._draw("u"))
        if not has_sym(low) and not has_sym(high) and low == 0.0 and high == 1.0:
            return z
        return low + (high - low) * z

    def randn(self, *shape):
        return self.normal(size=shape if shape else None)

    def rand(self, *shape):
        return self.uniform(size=shape if shape else None)

    def random(self, size=None):
        return self.uniform(size=size)

    random_sample = random

    def seed(self, *a):
        pass

    def default_rng(self, *a):
        return self

    def __getattr__(self, name):
        raise Unsupported("np.random." + name)


# ------------------------------------------------------------------ namespaces

LINALG = types.SimpleNamespace(
    norm=norm, det=det, inv=inv, solve=solve, svd=svd, qr=qr, eigh=eigh, eigvalsh=eigvalsh,
    cholesky=cholesky, matrix_rank=matrix_rank, slogdet=slogdet, pinv=pinv, lstsq=lstsq, svdvals=svdvals,
    matrix_power=matrix_power, multi_dot=multi_dot, eig=eig, LinAlgError=np.linalg.LinAlgError,
    trace=lambda x: _trace(x, axis1=-2, axis2=-1),
    matrix_transpose=lambda x: NP.swapaxes(x, -1, -2),
    vector_norm=lambda x, axis=None, keepdims=False, ord=2: norm(x if axis is not None else NP.ravel(x), ord if ord != 2 else None, axis, keepdims)
    if not keepdims or axis is not None else _unsup("vector_norm")(x),
    matrix_norm=lambda x, keepdims=False, ord="fro": norm(x, ord, (-2, -1), keepdims),
    outer=lambda a, b: NP.outer(a, b), vecdot=lambda a, b, axis=-1: _vecdot(a, b, axis), tensordot=lambda a, b, axes=2: tensordot(a, b, axes),
    cross=lambda a, b: _cross(a, b), diagonal=lambda x, offset=0: NP.diagonal(x, offset, -2, -1), matmul=lambda a, b: NP.matmul(a, b))


def _delegating(name):
    f = getattr(np, name)

    def g(*a, **k):
        sym = has_sym(list(a)) or has_sym(list(k.values()))
        if not sym:
            r = f(*a, **k)
            return r
        a2 = tree(a, lambda x: x.view(np.ndarray) if isinstance(x, SArr) else
                  (asobj(x) if isinstance(x, (RF, Cx)) else
                   (asobj(x) if isinstance(x, np.ndarray) and x.dtype.kind in "fc" else x)))
        k2 = {kk: tree(v, lambda x: x.view(np.ndarray) if isinstance(x, SArr) else x) for kk, v in k.items()}
        r = f(*a2, **k2)
        if isinstance(r, np.ndarray) and r.dtype == object:
            return fixcx(wrap(r))
        return rewrap(r)
    return g


def fixcx(a):
    """uniform element class after a concatenation"""
    fl = a.flat_list()
    c = [isinstance(v, Cx) for v in fl]
    if builtins.any(c) and not builtins.all(c):
        return emap(Cx.of, a)
    if builtins.any(not isinstance(v, (RF, Cx, SymBool, bool)) for v in fl):
        return emap(_lift, a)
    return a


def _unary(name):
    f = UN[name]
    nf = getattr(np, name, None)

    def g(x, out=None, where=True, **k):
        if not has_sym(x) and name not in ("sqrt",):
            a = np.asarray(x)
            if a.dtype.kind in "biu" and name in ("conjugate", "conj", "absolute", "negative", "positive",
                                                  "logical_not", "invert", "isnan", "isfinite", "isinf", "sign", "square"):
                return nf(x)
            if a.dtype.kind == "f" and not np.all(np.isfinite(a)):
                return nf(x)
        if isinstance(x, (list, tuple)):
            x = wrap(asobj(x))
        r = emap(lambda v: f(_lift(v)), x)
        if out is not None:
            out[...] = r
            return out
        return r
    return g


def _binary(name):
    f = BIN[name]
    nf = getattr(np, name, None)

    def g(a, b, out=None, where=True, **k):
        if where is not True:
            # masked entries keep what is in out (zero when there is none)
            a_, b_, w_ = np.broadcast_arrays(asobj(a), asobj(b), asobj(where))
            r = np.empty(a_.shape, dtype=object)
            o = np.broadcast_to(asobj(out), a_.shape) if out is not None else None
            for i in np.ndindex(*a_.shape):
                if bool(tobool(w_[i])):
                    r[i] = to_scalar(g(a_[i], b_[i]))
                else:
                    r[i] = to_scalar(o[i]) if o is not None else R.NAN
            r = fixcx(wrap(r))
            if out is not None and isinstance(out, SArr):
                out[...] = r
                return out
            return wrap0(asobj(r))
        if not has_sym(a) and not has_sym(b) and out is None:
            return nf(a, b)
        if name in ("power", "float_power") and not has_sym(b) and not isinstance(b, np.ndarray):
            r = emap(lambda x: _lift(x) ** b, a)
        elif isinstance(b, float) and not math.isfinite(b):
            r = emap(lambda x: f(x, b), a)
        elif isinstance(a, float) and not math.isfinite(a):
            r = emap(lambda x: f(a, x), b)
        else:
            r = bmap(lambda x, y: f(_lift(x), _lift(y)), a, b)
        if out is not None:
            out[...] = r
            return out
        return r
    return g


class _Ufunc:
    """a function with the reductions of a ufunc"""

    def __init__(self, name, f):
        self.__name__, self.f = name, f

    def __call__(self, *a, **k):
        return self.f(*a, **k)

    def outer(self, a, b, **k):
        a, b = wrap(asobj(a)), wrap(asobj(b))
        return self.f(a.reshape(a.shape + (1,) * b.ndim), b)

    def reduce(self, x, axis=0, keepdims=False, **k):
        if self.__name__ == "logical_and":
            return _all(x, axis, keepdims)
        if self.__name__ == "logical_or":
            return _any(x, axis, keepdims)
        return areduce(lambda p, q: self.f(p, q), x, axis, keepdims)

    def accumulate(self, x, axis=0):
        o = np.moveaxis(asobj(x), axis, 0)
        out = [wrap0(o[0])]
        for v in o[1:]:
            out.append(self.f(out[-1], wrap0(np.asarray(v, dtype=object))))
        return NP.stack(out, axis=axis)

    def at(self, *a):
        raise Unsupported("ufunc.at")


class _Ix:
    def __init__(self, col):
        self.col = col

    def __getitem__(self, key):
        key = key if isinstance(key, tuple) else (key,)
        if builtins.any(isinstance(k, (slice, str)) for k in key):
            raise Unsupported("np.r_ with slices")
        if self.col:
            return NP.column_stack([wrap(asobj(k)) for k in key])
        return NP.concatenate([wrap(np.atleast_1d(asobj(k))) for k in key])


class Namespace(types.ModuleType):
    def __init__(self, name, table, fallback=None):
        super().__init__(name)
        self.__dict__.update(table)
        self.__dict__["_fallback"] = fallback
        self.__dict__["__path__"] = []

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        fb = self.__dict__.get("_fallback")
        if fb is None:
            raise AttributeError(f"{self.__name__}.{name}")
        return fb(name)


OVERRIDES = {}


class _F64(np.float64):
    """np.float64(x) of a symbolic scalar is the scalar"""

    def __new__(cls, x=0.0):
        if isinstance(x, np.ndarray) and has_sym(x):
            if x.size != 1:
                return wrap(asobj(x))
            x = asobj(x).ravel()[0]
        if isinstance(x, Cx):
            raise TypeError("float() argument must be a real number")
        return x if is_sym(x) else np.float64(x)


def _np_fallback(name):
    f = getattr(np, name)     # AttributeError if numpy has no such name
    if isinstance(f, np.ufunc):
        raise Unsupported("np." + name)
    if callable(f) and not isinstance(f, type):
        return _delegating(name)
    return f


def build():
    t = {}
    for n in UN:
        if hasattr(np, n):
            t[n] = _unary(n)
    t["abs"] = t["absolute"]
    t["acos"], t["asin"], t["atan"] = t["arccos"], t["arcsin"], t["arctan"]
    t["acosh"], t["atanh"], t["asinh"] = t["arccosh"], t["arctanh"], t["arcsinh"]
    for n in BIN:
        if hasattr(np, n):
            t[n] = _Ufunc(n, _binary(n))
    t["atan2"] = t["arctan2"]
    t["pow"] = t["power"]
    t.update(
        zeros=zeros, ones=ones, empty=empty, full=full, zeros_like=_like(0), ones_like=_like(1),
        empty_like=_like(0), full_like=full_like, eye=eye, identity=lambda n, dtype=None: eye(n, dtype=dtype),
        array=array, asarray=asarray, asanyarray=asarray, ascontiguousarray=asarray, arange=arange,
        diag=diag, where=where, clip=clip, sinc=sinc, tensordot=tensordot, einsum=einsum, allclose=allclose,
        isclose=isclose, vectorize=vectorize, real=real, imag=imag, iscomplexobj=iscomplexobj,
        isrealobj=isrealobj, polyval=polyval, sort=_sort, argsort=_argsort, argmin=_argmin, argmax=_argmax,
        any=_any, all=_all, trace=_trace, logspace=logspace, linspace=linspace, spacing=spacing, finfo=finfo,
        sum=_sum, var=lambda x, axis=None, **k: wrap(asobj(x)).var(axis, **k), std=lambda x, axis=None, **k: wrap(asobj(x)).std(axis, **k),
        average=_average, r_=_Ix(False), c_=_Ix(True), vecdot=_vecdot, select=_select,
        heaviside=lambda x, h: emap(lambda v: ONE if bool(v > 0) else ZERO if bool(v < 0) else to_scalar(h), x),
        copysign=lambda x, y: bmap(lambda a, b: abs(a) if bool(b >= 0) else -abs(a), x, y),
        prod=lambda x, axis=None, keepdims=False, **k: areduce(lambda a, b: a * b, x, axis, keepdims, ONE) if has_sym(x) else np.prod(x, axis=axis, keepdims=keepdims),
        mean=lambda x, axis=None, keepdims=False, **k: wrap(asobj(x)).mean(axis, keepdims),
        max=_extremum(smax, np.max), min=_extremum(smin, np.min),
        dot=lambda a, b, **k: matmul_like(a, b, "dot"), matmul=lambda a, b, **k: matmul_like(a, b, "matmul"),
        inner=lambda a, b: tensordot(a, b, axes=(-1, -1)) if asobj(a).ndim and asobj(b).ndim else a * b,
        vdot=lambda a, b: asum(emap(lambda v: v.conjugate(), wrap(asobj(a).ravel())) * wrap(asobj(b).ravel())),
        outer=lambda a, b: wrap(asobj(a).ravel()[:, None]) * wrap(asobj(b).ravel()[None, :]),
        iscomplex=lambda x: emap(lambda v: isinstance(v, Cx) and not v.im.is_zero(), x),
        isreal=lambda x: emap(lambda v: not isinstance(v, Cx) or v.im.is_zero(), x),
        isscalar=lambda x: is_sym(x) or np.isscalar(x),
        array_equal=lambda a, b, **k: False if np.shape(asobj(a)) != np.shape(asobj(b)) else _all(wrap(np.atleast_1d(asobj(a))) == wrap(np.atleast_1d(asobj(b)))),
        copy=lambda x, **k: sarr(x) if has_sym(x) else np.copy(x),
        shape=lambda x: np.shape(asobj(x)) if has_sym(x) else np.shape(x),
        ndim=lambda x: np.ndim(asobj(x)) if has_sym(x) else np.ndim(x),
        size=lambda x, axis=None: asobj(x).size if axis is None else asobj(x).shape[axis],
        cumsum=lambda x, axis=None, **k: wrap(np.cumsum(asobj(x), axis=axis)),
        count_nonzero=lambda x, **k: sum(int(bool(tobool(v))) for v in asobj(x).ravel()),
        ix_=np.ix_, inf=np.inf, nan=np.nan, newaxis=None, ndarray=np.ndarray,
        float64=_F64, floating=np.floating, integer=np.integer, complex128=np.complex128,
        random=Random(), linalg=Namespace("numpy.linalg", dict(LINALG.__dict__), lambda n: _la_missing(n)),
        errstate=np.errstate, seterr=np.seterr, nan_to_num=lambda x, nan=0.0, **k: emap(lambda v: to_scalar(nan) if isinstance(v, R.NanS) else v, x),
        fill_diagonal=_fill_diagonal, tril=_tri(np.tril), triu=_tri(np.triu),
        polyfit=polyfit, save=_unsup("save"), cross=_cross,
        angle=_angle, real_if_close=lambda x, **k: x, kron=_kron,
    )
    OVERRIDES.update(t)
    return t


def _sum(x, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None, **k):
    if where is not None:
        x = NP.where(where, x, 0)
    if not has_sym(x):
        r = np.sum(x, axis=axis, keepdims=keepdims)
    else:
        r = asum(x, axis, keepdims)
    if initial is not None:
        r = r + initial
    if out is not None:
        out[...] = r
        return out
    return r


def _extremum(f, nf):
    def g(x, axis=None, out=None, keepdims=False, initial=None, **k):
        if not has_sym(x) and not has_sym(initial):
            return nf(x, axis=axis, keepdims=keepdims, **({} if initial is None else dict(initial=initial)))
        r = areduce(f, x, axis, keepdims)
        return r if initial is None else bmap(f, r, initial)
    return g


def _average(x, axis=None, weights=None, **k):
    x = wrap(asobj(x))
    if weights is None:
        return x.mean(axis)
    w = wrap(asobj(weights))
    if w.shape != x.shape:
        raise Unsupported("np.average with weights of another shape")
    return asum(x * w, axis) / asum(w, axis)


def _vecdot(a, b, axis=-1):
    return asum(NP.conj(wrap(asobj(a))) * wrap(asobj(b)), axis)


def _select(conds, choices, default=0):
    r = default
    for c, v in reversed(list(zip(conds, choices))):
        r = where(c, v, r)
    return r


def _cross(a, b, **k):
    a, b = asobj(a), asobj(b)
    if a.shape[-1] != 3 or b.shape[-1] != 3 or k:
        raise Unsupported("cross")
    g = lambda i, j: wrap(a[..., i]) * wrap(b[..., j]) - wrap(a[..., j]) * wrap(b[..., i]) if a.ndim > 1 or b.ndim > 1 \
        else a[i] * b[j] - a[j] * b[i]
    return NP.stack([g(1, 2), g(2, 0), g(0, 1)], axis=-1)


def _kron(a, b):
    a, b = asobj(a), asobj(b)
    return wrap(np.kron(a, b))


def _angle(z, deg=False):
    return emap(lambda v: _arctan2(v.im, v.re) if isinstance(v, Cx) else _arctan2(ZERO, v), z)


def _num(v):
    return v


def _tri(f):
    def g(m, k=0):
        if not has_sym(m):
            return f(m, k)
        o = asobj(m)
        mask = f(np.ones(o.shape[-2:], dtype=int), k)
        r = np.array(o, dtype=object, copy=True)
        for i in np.ndindex(*o.shape):
            if not mask[i[-2:]]:
                r[i] = Cx.of(0) if isinstance(o[i], Cx) else ZERO
        return wrap(r)
    return g


def _fill_diagonal(a, v, wrap=False):
    n = builtins.min(a.shape)
    vv = asobj(v)
    for i in range(n):
        a[(i,) * a.ndim] = vv.item() if vv.ndim == 0 else vv[i]


def _unsup(n):
    def g(*a, **k):
        raise Unsupported("np." + n)
    return g


def _la_missing(n):
    if hasattr(np.linalg, n):
        raise Unsupported("np.linalg." + n)
    raise AttributeError("numpy.linalg." + n)


NP = Namespace("numpy", {}, _np_fallback)
NP.__dict__.update(build())


class _PiProxy:
    pass


def _np_getattr(name):
    if name == "pi":
        return ctx().pi() if ctx() is not None else math.pi
    return _np_fallback(name)


NP.__dict__["_fallback"] = _np_getattr


def _comb(n, k, exact=False, repetition=False):
    if isinstance(n, RF) and n.const() is None and k in (0, 1, 2):
        return ONE if k == 0 else n if k == 1 else n * (n - 1) / 2
    return math.comb(int(n), int(k))


def _orth(A, rcond=None):
    """an orthonormal basis of the column space: Gram-Schmidt on independent columns"""
    o = asobj(A)
    keep = []
    for j in range(o.shape[1]):
        if matrix_rank(wrap(o[:, keep + [j]])) == len(keep) + 1:
            keep.append(j)
    return qr(wrap(o[:, keep]))[0] if keep else wrap(o[:, :0])


def _null_space(A, rcond=None):
    o = asobj(A)
    n = o.shape[1]
    B = _orth(wrap(_h(o)))
    P_ = eye(n) - B @ wrap(_h(asobj(B)))
    return _orth(P_)


def scipy_ns():
    import scipy.version as sv
    lin = Namespace("scipy.linalg", dict(
        orth=_orth, null_space=_null_space,
        expm=expm, logm=logm, sqrtm=sqrtm, solve_continuous_lyapunov=solve_continuous_lyapunov,
        solve_lyapunov=solve_continuous_lyapunov, solve_sylvester=solve_sylvester,
        solve=lambda a, b, **k: solve(a, b), inv=lambda a, **k: inv(a), det=lambda a, **k: det(a),
        cholesky=lambda a, lower=False, **k: cholesky(a) if lower else wrap(_h(asobj(cholesky(a)))),
        norm=lambda *a, **k: norm(*a, **k), qr=lambda a, mode="full", **k: qr(a, "reduced" if mode == "economic" else "complete"),
        eigh=lambda a, **k: eigh(a), svd=lambda a, full_matrices=True, compute_uv=True, **k: svd(a, full_matrices, compute_uv),
        svdvals=lambda a, **k: svd(a, compute_uv=False), pinv=lambda a, **k: pinv(a), eigvalsh=lambda a, **k: eigvalsh(a),
        solve_triangular=_solve_tri, cho_factor=lambda a, lower=False, **k: (cholesky(a) if lower else wrap(_h(asobj(cholesky(a)))), lower),
        cho_solve=_cho_solve, block_diag=_block_diag, lstsq=lambda a, b, **k: lstsq(a, b),
        polar=_polar, LinAlgError=np.linalg.LinAlgError), lambda n: _sl_missing(n))
    spec = Namespace("scipy.special", dict(comb=_comb, binom=_comb, factorial=lambda n, exact=False: math.factorial(int(n))), _sp_missing)
    ver = Namespace("scipy.version", dict(version=sv.version, full_version=sv.version))
    root = Namespace("scipy", dict(linalg=lin, special=spec, version=ver, __version__=sv.version), _sp_missing)
    return root


def _sl_missing(n):
    import scipy.linalg
    if hasattr(scipy.linalg, n):
        raise Unsupported("scipy.linalg." + n)
    raise AttributeError("scipy.linalg." + n)


def _solve_tri(a, b, trans=0, lower=False, unit_diagonal=False, **k):
    a = NP.tril(wrap(asobj(a))) if lower else NP.triu(wrap(asobj(a)))
    if unit_diagonal:
        raise Unsupported("solve_triangular with unit diagonal")
    if trans in (1, "T"):
        a = NP.swapaxes(a, -1, -2)
    elif trans in (2, "C"):
        a = wrap(_h(asobj(a)))
    return solve(a, b)


def _cho_solve(cl, b, **k):
    c, lower = cl
    c = NP.tril(c) if lower else NP.triu(c)
    h = wrap(_h(asobj(c)))
    return solve(c @ h if lower else h @ c, b)


def _block_diag(*a):
    a = [np.atleast_2d(asobj(x)) for x in a]
    r = np.empty((sum(x.shape[0] for x in a), sum(x.shape[1] for x in a)), dtype=object)
    r[...] = ZERO
    i = j = 0
    for x in a:
        r[i:i + x.shape[0], j:j + x.shape[1]] = x
        i, j = i + x.shape[0], j + x.shape[1]
    return fixcx(wrap(r))


def _sp_missing(n):
    raise Unsupported("scipy " + n)


def _polar(a, side="right"):
    u, s, vh = svd(a, full_matrices=False)
    return u @ vh, wrap(_h(asobj(vh))) @ (wrap(asobj(s)[:, None]) * vh)


def _mfun(name):
    def g(x, *a):
        return UN[name](to_scalar(x))
    return g


def math_ns():
    t = {n: _mfun(n) for n in ("sqrt", "exp", "cos", "sin", "tan", "tanh", "sinh", "cosh", "fabs")}
    t.update(acos=_mfun("arccos"), asin=_mfun("arcsin"), atan=_mfun("arctan"), acosh=_mfun("arccosh"),
             atanh=_mfun("arctanh"), asinh=_mfun("arcsinh"), log=lambda x, b=None: to_scalar(x).log() if b is None else to_scalar(x).log() / to_scalar(b).log(),
             hypot=lambda *a: norm(list(a)), inf=math.inf, nan=math.nan, isnan=lambda x: False if is_sym(x) else math.isnan(x),
             isinf=lambda x: False if is_sym(x) else math.isinf(x), isfinite=lambda x: True if is_sym(x) else math.isfinite(x),
             fsum=lambda x: asum(wrap(asobj(list(x)))), prod=lambda x, start=1: areduce(lambda p, q: p * q, wrap(asobj(list(x))), initial=ONE) * start,
             dist=lambda a, b: norm(wrap(asobj(list(a))) - wrap(asobj(list(b)))), cbrt=_mfun("cbrt"), log1p=_mfun("log1p"), expm1=_mfun("expm1"),
             log2=_mfun("log2"), log10=_mfun("log10"), degrees=_mfun("degrees"), radians=_mfun("radians"), floor=_mfun("floor"), ceil=_mfun("ceil"),
             pow=lambda a, b: to_scalar(a) ** b, copysign=lambda a, b: abs(a) if bool(b >= 0) else -abs(a),
             atan2=lambda y, x: _arctan2(to_scalar(y), to_scalar(x)),
             isclose=lambda a, b, rel_tol=1e-9, abs_tol=0.0: abs(a - b) <= smax(RF.of(rel_tol) * smax(abs(to_scalar(a)), abs(to_scalar(b))), RF.of(abs_tol)))

    def fb(n):
        if n == "pi":
            return ctx().pi()
        f = getattr(math, n)
        return f
    return Namespace("math", t, fb)
