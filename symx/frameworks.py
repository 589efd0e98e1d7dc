"""Symbolic stand-ins of the four autodiff frameworks, as far as pymanopt's
backends and the harness' cost functions use them.  They differentiate by the
engine's exact symbolic calculus: every input entry of a traced function is a
fresh leaf variable, the output is differentiated in the leaf and the leaves
are replaced by their values when a result leaves the framework.

Contracts modelled (checked against the installed frameworks by the replays of
the C17/C18 configurations, which run on the real ones):
  autograd, jax   grad of a real function of z = x + iy is f_x - i f_y; grads
                  w.r.t. a sequence of positions come as a tuple; unused
                  arguments have zero gradients
  torch           .grad / autograd.grad is f_x + i f_y, None where unused;
                  graphs are freed unless create_graph/retain_graph; backward
                  accumulates; numpy() refuses tensors that require grad
  tensorflow      gradients are f_x + i f_y, None where the target does not
                  depend on a watched source through recorded operations;
                  tapes are single-use unless persistent; jvp does not accept
                  None
"""

import types

import numpy as np

from symx import rf as R
from symx import snp
from symx.poly import pvars
from symx.rf import RF, Cx


def ctx():
    return R.CTX


def iscx(x):
    return any(isinstance(v, Cx) for v in snp.asobj(x).ravel())


def amap(f, x):
    o = snp.asobj(x)
    r = np.empty(o.shape, dtype=object)
    for k in np.ndindex(*o.shape):
        r[k] = f(o[k])
    return snp.wrap(r)


class Leaf:
    """fresh variables standing for the entries of values"""

    def __init__(self, values):
        self.values = np.array(snp.asobj(values), dtype=object)
        c = ctx()
        self.cx = iscx(self.values)
        self.vars, self.index, data = [], [], np.empty(self.values.shape, dtype=object)

        def new(v):
            i = c.derived("leaf", lambda s, v=v: c.evalf(v, s))
            self.vars.append((i, v, {}))
            return i
        for k in np.ndindex(*self.values.shape):
            v = snp.to_scalar(self.values[k])
            if self.cx:
                v = Cx.of(v)
                i, j = new(v.re), new(v.im)
                self.index.append((i, j))
                data[k] = Cx(RF.var(i), RF.var(j))
            else:
                i = new(RF.of(v))
                self.index.append((i,))
                data[k] = RF.var(i)
        self.data = data
        self.memo = {}

    def close(self, x):
        """x with the leaf variables replaced by their values"""
        c = ctx()

        def one(y):
            for i, v, memo in self.vars:
                y = c.subst(y, i, v, memo)
            return y

        def f(v):
            v = snp.to_scalar(v)
            return Cx(one(v.re), one(v.im)) if isinstance(v, Cx) else one(RF.of(v))
        return amap(f, x) if isinstance(x, np.ndarray) else f(x)

    def grad(self, out, sign):
        """f_x + sign i f_y of the real scalar out, leaf variables kept"""
        c = ctx()
        out = real_scalar(out)
        g = np.empty(self.values.shape, dtype=object)
        memo = self.memo

        def d(i):
            return c.diff(out, i, memo.setdefault(i, {}))
        for k, ij in zip(np.ndindex(*self.values.shape), self.index):
            g[k] = Cx(d(ij[0]), sign * d(ij[1])) if self.cx else d(ij[0])
        return g

    def directional(self, x, v):
        """derivative of the array x along v, leaf variables kept"""
        c = ctx()
        v = snp.asobj(v)

        def one(y):
            acc = RF.of(0)
            for k, ij in zip(np.ndindex(*self.values.shape), self.index):
                w = snp.to_scalar(v[k])
                parts = (w.re, w.im) if isinstance(w, Cx) else (RF.of(w), RF.of(0))
                for i, p in zip(ij, parts):
                    if not p.is_zero():
                        acc = acc + c.diff(y, i, self.memo.setdefault(i, {})) * p
            return acc

        def f(u):
            u = snp.to_scalar(u)
            return Cx(one(u.re), one(u.im)) if isinstance(u, Cx) else one(RF.of(u))
        return amap(f, x) if isinstance(x, np.ndarray) else f(x)


def rfvars(x):
    vs = set(pvars(x.num))
    for f in x.den:
        vs |= set(pvars(ctx().factors.polys[f]))
    return vs


def real_scalar(x):
    if isinstance(x, np.ndarray):
        if x.size != 1:
            raise TypeError("Grad only applies to real scalar-output functions")
        x = snp.asobj(x).ravel()[0]
    x = snp.to_scalar(x)
    if isinstance(x, Cx):
        raise TypeError("Grad only applies to real-output functions, got a complex output")
    return RF.of(x)


# ------------------------------------------------------------ autograd

def autograd_ns():
    m = types.ModuleType("autograd")

    def grad(fun, argnum=0):
        def gradfun(*args, **kw):
            args = list(args)
            seq = isinstance(argnum, (list, tuple, range))
            nums = list(argnum) if seq else [argnum]
            leaves = []
            for n in nums:
                a = args[n]
                if isinstance(a, (list, tuple)) or not isinstance(a, np.ndarray):
                    a = snp.sarr(a)
                if a.dtype.kind not in "fcO":
                    raise TypeError("Can't differentiate w.r.t. type " + str(a.dtype))
                leaf = Leaf(a)
                args[n] = snp.wrap(leaf.data.copy())
                leaves.append(leaf)
            out = fun(*args, **kw)
            res = []
            for leaf in leaves:
                g = snp.wrap(leaf.grad(out, -1))
                for l2 in leaves:
                    g = l2.close(g)
                res.append(g)
            return tuple(res) if seq else res[0]
        gradfun.__name__ = "grad_of_function"
        return gradfun
    m.grad = grad

    def jacobian(fun, argnum=0):
        def jacfun(*args, **kw):
            args = list(args)
            a = args[argnum]
            if not isinstance(a, np.ndarray):
                a = snp.sarr(a)
            leaf = Leaf(a)
            if leaf.cx:
                raise R.Unsupported("jacobian of a complex argument")
            args[argnum] = snp.wrap(leaf.data.copy())
            out = snp.asobj(fun(*args, **kw))
            res = np.empty(out.shape + leaf.values.shape, dtype=object)
            for k in np.ndindex(*leaf.values.shape):
                e = np.zeros(leaf.values.shape, dtype=object)
                e[k] = 1
                d = snp.asobj(leaf.directional(snp.wrap(np.array(out)), snp.wrap(e)))
                for i in np.ndindex(*out.shape):
                    res[i + k] = d[i]
            return leaf.close(snp.wrap(res))
        return jacfun
    m.jacobian = jacobian
    m.elementwise_grad = m.hessian_vector_product = _missing("autograd")

    def value_and_grad(fun, argnum=0):
        g = grad(fun, argnum)
        return lambda *a, **k: (fun(*a, **k), g(*a, **k))
    m.value_and_grad = value_and_grad
    m.numpy = snp.NP
    m.__path__ = []
    return m


def _missing(what):
    def f(*a, **k):
        raise R.Unsupported(what + " function outside the stand-in")
    return f


# ------------------------------------------------------------ jax

class JaxArray:
    """result of a jax transformation: not a numpy array"""

    def __init__(self, data):
        self.data = data

    def __sym_array__(self):
        return self.data

    shape = property(lambda s: s.data.shape)
    ndim = property(lambda s: s.data.ndim)
    dtype = property(lambda s: s.data.dtype)
    real = property(lambda s: JaxArray(s.data.real))
    T = property(lambda s: JaxArray(s.data.T))

    def conj(self):
        return JaxArray(self.data.conj())
    conjugate = conj

    def _bin(self, o, f):
        return JaxArray(f(self.data, unjax(o)))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._bin(o, lambda a, b: b * a)
    def __neg__(self): return JaxArray(-self.data)


def unjax(x):
    if isinstance(x, JaxArray):
        return x.data
    if isinstance(x, (list, tuple)):
        return type(x)(unjax(y) for y in x)
    return x


class JaxNumpy(types.ModuleType):
    def __init__(self):
        super().__init__("jax.numpy")

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        f = getattr(snp.NP, name)
        if not callable(f) or isinstance(f, type):
            return f

        def g(*a, **k):
            lifted = any(isinstance(x, JaxArray) for x in a)
            r = f(*[unjax(x) for x in a], **{n: unjax(v) for n, v in k.items()})
            return JaxArray(r) if lifted and isinstance(r, np.ndarray) else r
        return g


def jax_ns():
    m = types.ModuleType("jax")
    m.__path__ = []
    m.numpy = JaxNumpy()

    class Config:
        flags = {}

        def update(self, k, v):
            self.flags[k] = v
    m.config = Config()

    def single(x):
        return m.config.flags.get("jax_enable_x64") is not True

    def grad(fun, argnums=0, has_aux=False, holomorphic=False, **kw):
        if holomorphic or has_aux:
            raise R.Unsupported("jax.grad option")

        def gradfun(*args, **kw):
            if single(args):
                raise R.Unsupported("jax in single precision")
            args = list(args)
            seq = not isinstance(argnums, int)
            nums = list(argnums) if seq else [argnums]
            leaves = []
            for n in nums:
                leaf = Leaf(snp.sarr(unjax(args[n])))
                args[n] = snp.wrap(leaf.data.copy())
                leaves.append(leaf)
            out = unjax(fun(*args, **kw))
            res = []
            for leaf in leaves:
                g = snp.wrap(leaf.grad(out, -1))
                for l2 in leaves:
                    g = l2.close(g)
                res.append(JaxArray(g))
            return tuple(res) if seq else res[0]
        return gradfun

    def jvp(fun, primals, tangents, **kw):
        if not isinstance(primals, (list, tuple)) or not isinstance(tangents, (list, tuple)):
            raise TypeError("primal and tangent arguments to jax.jvp must be tuples or lists")
        if type(primals) is not type(tangents) or len(primals) != len(tangents):
            raise TypeError("primal and tangent arguments to jax.jvp must have the same tree structure")
        leaves = []
        for p, t in zip(primals, tangents):
            p, t = unjax(p), unjax(t)
            if snp.asobj(p).shape != snp.asobj(t).shape:
                raise ValueError("jvp called with different primal and tangent shapes")
            if iscx(snp.asobj(p)) != iscx(snp.asobj(t)):
                raise TypeError("primal and tangent arguments to jax.jvp do not match; dtypes must be equal")
            leaves.append((Leaf(p), t))
        out = fun(*[snp.wrap(l.data.copy()) for l, t in leaves])

        def push(x):
            if isinstance(x, (list, tuple)):
                return type(x)(push(y) for y in x)
            x = unjax(x)
            acc = 0
            for l, t in leaves:
                acc = acc + l.directional(x, t)
            for l, t in leaves:
                acc = l.close(acc)
            return JaxArray(acc)

        def val(x):
            if isinstance(x, (list, tuple)):
                return type(x)(val(y) for y in x)
            x = unjax(x)
            for l, t in leaves:
                x = l.close(x)
            return JaxArray(x)
        return val(out), push(out)
    m.grad = grad
    m.jvp = jvp
    m.hessian = m.jacfwd = m.jacrev = m.vjp = _missing("jax")

    def linearize(fun, *primals):
        out, _ = jvp(fun, primals, tuple(snp.NP.zeros_like(unjax(p)) for p in primals))
        return out, lambda *tangents: jvp(fun, primals, tangents)[1]
    m.linearize = linearize

    def value_and_grad(fun, argnums=0, **kw):
        g = grad(fun, argnums, **kw)
        return lambda *a, **k: (fun(*a, **k), g(*a, **k))
    m.value_and_grad = value_and_grad

    def tree_map(f, *ss):
        if isinstance(ss[0], (list, tuple)):
            return type(ss[0])(tree_map(f, *x) for x in zip(*ss))
        return f(*ss)
    m.tree_util = types.SimpleNamespace(tree_map=tree_map)
    m.tree_map = tree_map
    m.tree = types.SimpleNamespace(map=tree_map)
    m.jit = lambda f, **k: f
    m.Array = JaxArray
    return m


# ------------------------------------------------------------ tensors

class Tensor:
    """deps: the leaves this value depends on through recorded operations,
    per recorder (a tape, an accumulator, or torch's global graph)"""
    fw = None

    def __init__(self, data, deps=frozenset()):
        self.data = snp.sarr(data) if not isinstance(data, snp.SArr) else data
        self.leaf = None
        self.deps = deps
        self.grad = None
        self.isleaf = not deps
        self.freed = False
        self.conjbit = False

    # --- common
    @property
    def shape(self):
        return self.data.shape

    @property
    def ndim(self):
        return self.data.ndim

    @property
    def dtype(self):
        return self.data.dtype

    def leafify(self):
        if self.leaf is None:
            self.leaf = Leaf(self.data)
            self.data = wrapnd(self.leaf.data.copy())
            self.fw.leaves.append(self.leaf)
        return self.leaf

    def closed(self):
        x = self.data
        for l in self.fw.leaves:
            x = l.close(x)
        return x

    def op(self, f, *others):
        ts = [o if isinstance(o, Tensor) else None for o in others]
        r = f(self.data, *[t.data if t is not None else o for t, o in zip(ts, others)])
        deps = self.deps
        for t in ts:
            if t is not None:
                deps = deps | t.deps
        t = type(self)(wrapnd(r), self.fw.live(deps))
        return t

    def __add__(self, o): return self.op(lambda a, b: a + b, o)
    def __radd__(self, o): return self.op(lambda a, b: b + a, o)
    def __sub__(self, o): return self.op(lambda a, b: a - b, o)
    def __rsub__(self, o): return self.op(lambda a, b: b - a, o)
    def __mul__(self, o): return self.op(lambda a, b: a * b, o)
    def __rmul__(self, o): return self.op(lambda a, b: b * a, o)
    def __truediv__(self, o): return self.op(lambda a, b: a / b, o)
    def __matmul__(self, o): return self.op(lambda a, b: a @ b, o)
    def __neg__(self): return self.op(lambda a: -a)
    def __pow__(self, n): return self.op(lambda a: a ** n)
    def __getitem__(self, k): return self.op(lambda a: wrapnd(a[k]))

    def __bool__(self):
        raise R.Unsupported("truth value of a tensor")


def wrapnd(r):
    return snp.wrap(np.array(snp.asobj(r), dtype=object))


class Torch(types.ModuleType):
    """eager torch with one global graph"""

    def __init__(self):
        super().__init__("torch")
        fw = self
        self.__path__ = []
        self.__version__ = "2.0.0"
        self.leaves = []

        class TorchTensor(Tensor):
            @property
            def requires_grad(self):
                return bool(self.deps)

            def requires_grad_(self, flag=True):
                if flag:
                    if not self.isleaf:
                        return self
                    l = self.leafify()
                    self.deps = frozenset([l])
                else:
                    self.deps = frozenset()
                return self

            def detach(self):
                return TorchTensor(self.data)

            def clone(self):
                return self.op(lambda a: a.copy())

            def resolve_conj(self):
                t = self.op(lambda a: a.copy())
                return t

            def conj(self):
                t = self.op(lambda a: a.conj())
                t.conjbit = iscx(snp.asobj(self.data)) and not self.conjbit
                return t

            @property
            def real(self):
                return self.op(lambda a: a.real)

            @property
            def is_leaf(self):
                return self.isleaf

            def dim(self):
                return self.ndim

            def sum(self, dim=None, keepdim=False):
                return self.op(lambda a: snp.asum(a, dim, keepdim))

            def mean(self):
                return self.op(lambda a: snp.asum(a) / a.size)

            @property
            def imag(self):
                return self.op(lambda a: a.imag)

            @property
            def T(self):
                return self.op(lambda a: a.T)
            mT = property(lambda s: s.op(lambda a: snp.NP.swapaxes(a, -1, -2)))

            def reshape(self, *n):
                return self.op(lambda a: a.reshape(*n))
            view = reshape

            def flatten(self):
                return self.op(lambda a: a.reshape(-1))
            ravel = flatten

            def is_complex(self):
                return iscx(snp.asobj(self.data))

            def numel(self):
                return self.data.size

            def size(self, k=None):
                return self.shape if k is None else self.shape[k]

            def contiguous(self):
                return self

            def cpu(self):
                return self
            double = to = type = cpu = contiguous

            def resolve_neg(self):
                return self

            def mul(self, o): return self * o
            def add(self, o): return self + o
            def sub(self, o): return self - o
            def div(self, o): return self / o
            def neg(self): return -self
            def pow(self, n): return self ** n
            def matmul(self, o): return self @ o
            def dot(self, o): return self.op(lambda a, b: snp.asum(a * b), o)
            def vdot(self, o): return self.op(lambda a, b: snp.asum(a.conj() * b), o)
            def exp(self): return self.op(lambda a: snp.NP.exp(a))
            def square(self): return self * self

            def zero_(self):
                if self.requires_grad:
                    raise RuntimeError("a leaf Variable that requires grad is being used in an in-place operation.")
                self.data = wrapnd(snp.asobj(self.data) * 0)
                return self

            def item(self):
                return snp.asobj(self.closed()).ravel()[0]

            def numpy(self):
                if self.requires_grad:
                    raise RuntimeError("Can't call numpy() on Tensor that requires grad. Use tensor.detach().numpy() instead.")
                if self.conjbit:
                    raise RuntimeError("Can't call numpy() on Tensor that has conjugate bit set. Use tensor.resolve_conj().numpy() instead.")
                return self.closed()

            def backward(self, gradient=None, retain_graph=None, create_graph=False):
                scalar = self if gradient is None else combined(self, gradient)
                fw._check(scalar)
                for t in list(fw.tracked):
                    if t.leaf in self.deps:
                        g = TorchTensor(wrapnd(t.leaf.grad(scalar.data, 1)))
                        if not create_graph:
                            g.data = g.closed()
                        t.grad = g if t.grad is None else TorchTensor(t.grad.data + g.data)
                fw._free(self, create_graph if retain_graph is None else retain_graph)
        TorchTensor.fw = self
        self.Tensor = TorchTensor
        self.tracked = []
        base = TorchTensor.requires_grad_

        def requires_grad_(t, flag=True):
            r = base(t, flag)
            if flag and t not in fw.tracked:
                fw.tracked.append(t)
            return r
        TorchTensor.requires_grad_ = requires_grad_
        TorchTensor.__eq__ = lambda s, o: s is o
        TorchTensor.__hash__ = object.__hash__

        def from_numpy(a):
            if not isinstance(a, np.ndarray):
                raise TypeError("expected np.ndarray (got " + type(a).__name__ + ")")
            if any(s < 0 for s in a.strides):
                raise ValueError("At least one stride in the given numpy array is negative, and tensors with negative "
                                 "strides are not currently supported.")
            return TorchTensor(snp.wrap(snp.asobj(a)))
        self.from_numpy = from_numpy

        def tensor(a, **k):
            return TorchTensor(snp.sarr(a))
        self.tensor = self.as_tensor = tensor
        self.zeros_like = lambda t, **k: TorchTensor(snp.NP.zeros_like(t.data))
        self.conj = lambda t: t.conj()
        self.real = lambda t: t.real
        self.imag = lambda t: t.imag
        self.sum = lambda t, *a, **k: t.sum(*a, **k)
        self.mean = lambda t: t.mean()
        self.is_complex = lambda t: t.is_complex()
        self.numel = lambda t: t.numel()

        def size_of(a):
            return a[0] if len(a) == 1 and isinstance(a[0], (list, tuple)) else a
        self.zeros = lambda *a, **k: TorchTensor(snp.sarr(np.zeros(size_of(a))))
        self.ones = lambda *a, **k: TorchTensor(snp.sarr(np.ones(size_of(a))))
        self.ones_like = lambda t, **k: TorchTensor(snp.NP.ones_like(t.data))
        for n in ("mul", "add", "sub", "div", "neg", "pow", "matmul", "dot", "vdot", "square", "reshape", "flatten", "ravel"):
            setattr(self, n, (lambda n: lambda t, *a: getattr(t, n)(*a))(n))
        self.multiply, self.subtract, self.divide, self.inner = self.mul, self.sub, self.div, self.dot
        self.resolve_conj = lambda t: t.resolve_conj()
        self.detach = lambda t: t.detach()
        self.clone = lambda t: t.clone()

        def einsum(spec, *ts):
            if len(ts) == 1 and isinstance(ts[0], (list, tuple)):
                ts = ts[0]
            return ts[0].op(lambda *a: snp.NP.einsum(spec, *a), *ts[1:])
        self.einsum = einsum
        self.stack = lambda ts, dim=0: ts[0].op(lambda *a: snp.NP.stack(list(a), dim), *ts[1:])
        self.cat = lambda ts, dim=0: ts[0].op(lambda *a: snp.NP.concatenate(list(a), dim), *ts[1:])
        self.nograd = 0

        class grad_mode:
            def __init__(self, off=True):
                self.off = off

            def __enter__(self):
                self.saved, fw.nograd = fw.nograd, bool(self.off)

            def __exit__(self, *a):
                fw.nograd = self.saved

            def __call__(self, f):
                def g(*a, **k):
                    with grad_mode(self.off):
                        return f(*a, **k)
                return g
        self.no_grad = self.inference_mode = lambda mode=True: grad_mode(True)
        self.enable_grad = lambda: grad_mode(False)
        self.set_grad_enabled = lambda on: grad_mode(not on)
        self.exp = lambda t: t.op(lambda a: snp.NP.exp(a))
        self.tensordot = lambda a, b, dims=2: a.op(lambda x, y: snp.tensordot(x, y, axes=dims), b)
        self.is_tensor = lambda t: isinstance(t, TorchTensor)

        def combined(outputs, grad_outputs):
            """the scalar whose gradient the vector-Jacobian product is"""
            outs = list(outputs) if isinstance(outputs, (list, tuple)) else [outputs]
            gs = list(grad_outputs) if isinstance(grad_outputs, (list, tuple)) else [grad_outputs] * len(outs) \
                if grad_outputs is None or len(outs) == 1 else [grad_outputs]
            if len(gs) != len(outs):
                raise RuntimeError(f"got {len(outs)} tensors and {len(gs)} gradients")
            if len(outs) == 1 and gs[0] is None:
                return outs[0]
            total = None
            for o, g in zip(outs, gs):
                if not o.requires_grad:
                    raise RuntimeError("element 0 of tensors does not require grad and does not have a grad_fn")
                if g is None:
                    fw._check(o)
                    t = o
                else:
                    if tuple(g.shape) != tuple(o.shape):
                        raise RuntimeError(f"Mismatch in shape: grad_output[0] has a shape of {g.shape}")
                    t = o.op(lambda a, b: snp.asum((b.conj() * a).real), g)
                t.freed = o.freed
                total = t if total is None else total + t
            return total

        def agrad(outputs, inputs, grad_outputs=None, retain_graph=None, create_graph=False, allow_unused=None, **k):
            outputs = combined(outputs, grad_outputs)
            single = not isinstance(inputs, (list, tuple))
            ins = [inputs] if single else list(inputs)
            fw._check(outputs)
            res = []
            for t in ins:
                if not t.requires_grad:
                    raise RuntimeError("One of the differentiated Tensors does not require grad")
                if t.leaf is None:
                    raise R.Unsupported("torch.autograd.grad in a non-leaf tensor")
                if t.leaf not in outputs.deps:
                    if not allow_unused:
                        raise RuntimeError("One of the differentiated Tensors appears to not have been used in the graph. "
                                           "Set allow_unused=True if this is the desired behavior.")
                    res.append(None)
                    continue
                g = t.leaf.grad(outputs.data, 1)
                if create_graph:
                    vs = set()
                    for v in g.ravel():
                        for p in ((v.re, v.im) if isinstance(v, Cx) else (v,)):
                            vs |= rfvars(p)
                    deps = frozenset(l for l in outputs.deps if any(i in vs for i, _, _ in l.vars))
                    deps |= frozenset(l for l in outputs.deps if fw._through(l, vs))
                    res.append(TorchTensor(wrapnd(g), deps))
                else:
                    r = TorchTensor(wrapnd(g))
                    r.data = r.closed()
                    res.append(r)
            fw._free(outputs, create_graph if retain_graph is None else retain_graph)
            return tuple(res)
        ag = types.ModuleType("torch.autograd")
        ag.grad = agrad
        ag.functional = types.SimpleNamespace(hvp=_missing("torch"), vhp=_missing("torch"))
        self.autograd = ag
        self.float64, self.complex128 = np.float64, np.complex128

    def _through(self, leaf, vs):
        """do derived variables among vs depend on the leaf"""
        c = ctx()
        for i, _, _ in leaf.vars:
            for j in vs:
                if c.rec[j] is not None and not c.dvar(j, i, {}).is_zero():
                    return True
        return False

    def live(self, deps):
        return frozenset() if self.nograd else deps

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise R.Unsupported("torch." + name)

    def _check(self, t):
        if t.freed:
            raise RuntimeError("Trying to backward through the graph a second time")
        if not t.requires_grad:
            raise RuntimeError("element 0 of tensors does not require grad and does not have a grad_fn")
        if t.data.size != 1:
            raise RuntimeError("grad can be implicitly created only for scalar outputs")
        if iscx(snp.asobj(t.data)):
            raise RuntimeError("grad can be implicitly created only for real scalar outputs but got complex")

    def _free(self, t, keep):
        if not keep:
            t.freed = True


class TensorFlow(types.ModuleType):
    def __init__(self):
        super().__init__("tensorflow")
        fw = self
        self.__path__ = []
        self.leaves = []
        self.active = []         # recorders

        class TFTensor(Tensor):
            def numpy(self):
                return self.closed()

            @property
            def _id(self):
                return id(self)
        TFTensor.fw = self
        self.Tensor = TFTensor

        def constant(v, dtype=None, **k):
            return TFTensor(snp.sarr(v.data if isinstance(v, TFTensor) else v))
        self.constant = self.convert_to_tensor = constant
        self.identity = lambda t: t.op(lambda a: a.copy())
        self.zeros_like = lambda t, **k: TFTensor(snp.NP.zeros_like(t.data if isinstance(t, TFTensor) else t))
        conj = lambda t, **k: t.op(lambda a: a.conj())
        real = lambda t, **k: t.op(lambda a: a.real)
        red = lambda t, **k: t.op(lambda a: snp.asum(a))
        exp = lambda t, **k: t.op(lambda a: snp.NP.exp(a))
        red = lambda t, axis=None, keepdims=False, **k: t.op(lambda a: snp.asum(a, axis, keepdims))

        def lift(f):
            def g(*ts, **k):
                ts = [t if isinstance(t, TFTensor) else constant(t) for t in ts]
                return ts[0].op(f, *ts[1:])
            return g
        both = dict(multiply=lift(lambda a, b: a * b), add=lift(lambda a, b: a + b), subtract=lift(lambda a, b: a - b),
                    negative=lift(lambda a: -a), square=lift(lambda a: a * a), imag=lift(lambda a: a.imag),
                    sqrt=lift(lambda a: snp.NP.sqrt(a)), log=lift(lambda a: snp.NP.log(a)), real=real,
                    reduce_sum=red, exp=exp)
        self.math = types.SimpleNamespace(conj=conj, **both)
        for n, f in both.items():
            setattr(self, n, f)
        self.conj = conj
        self.matmul = lift(lambda a, b: a @ b)
        self.ones_like = lambda t, **k: TFTensor(snp.NP.ones_like(t.data if isinstance(t, TFTensor) else t))
        self.zeros = lambda shape, dtype=None, **k: TFTensor(snp.sarr(np.zeros(shape)))
        self.ones = lambda shape, dtype=None, **k: TFTensor(snp.sarr(np.ones(shape)))
        self.tensordot = lambda a, b, axes: a.op(lambda x, y: snp.tensordot(x, y, axes=axes), b)
        self.reshape = lambda t, shape: t.op(lambda a: a.reshape(tuple(shape)))
        self.einsum = lambda spec, *ts, **k: ts[0].op(lambda *a: snp.NP.einsum(spec, *a), *ts[1:])
        self.stop_gradient = lambda t: TFTensor(t.closed())

        def add_n(ts):
            total = ts[0]
            for t in ts[1:]:
                total = total + t
            return total
        self.add_n = self.math.add_n = add_n

        def map_structure(f, *ss):
            if isinstance(ss[0], (list, tuple)):
                return type(ss[0])(map_structure(f, *x) for x in zip(*ss))
            return f(*ss)

        def flatten(x):
            return [z for y in x for z in flatten(y)] if isinstance(x, (list, tuple)) else [x]
        self.nest = types.SimpleNamespace(map_structure=map_structure, flatten=flatten)
        self.float64, self.complex128 = np.float64, np.complex128

        class UG:
            NONE, ZERO = "none", "zero"
        self.UnconnectedGradients = UG

        def _combine(target, output_gradients):
            """the scalar whose gradient is asked for: the sum over targets of Re <output gradient, target>"""
            ts = list(target) if isinstance(target, (list, tuple)) else [target]
            gs = list(output_gradients) if isinstance(output_gradients, (list, tuple)) else [output_gradients] * len(ts)
            if len(gs) != len(ts):
                raise ValueError("target and output_gradients should have the same length")
            total = None
            for t, g in zip(ts, gs):
                if t is None:
                    raise AttributeError("'NoneType' object has no attribute 'dtype'")
                d = t.deps if g is None else t.deps | g.deps
                t = t.op(lambda a: snp.asum(a)) if g is None else \
                    t.op(lambda a, b: snp.asum((b.conj() * a).real), g)
                deps = d if total is None else d | total.deps
                total = t if total is None else total + t
                total.deps = deps         # the tape may have stopped recording
            return total

        class GradientTape:
            def __init__(self, persistent=False, watch_accessed_variables=True):
                self.persistent = persistent
                self.used = False
                self.recording = False

            def __enter__(self):
                self.recording = True
                fw.active.append(self)
                return self

            def _stop(self):
                if self.recording:
                    self.recording = False
                    fw.active.remove(self)

            def __exit__(self, *a):
                self._stop()

            def watch(self, ts):
                for t in ts if isinstance(ts, (list, tuple)) else [ts]:
                    l = t.leafify()
                    if self.recording:
                        t.deps = t.deps | {(self, l)}

            def gradient(self, target, sources, output_gradients=None, unconnected_gradients="none"):
                if self.used and not self.persistent:
                    raise RuntimeError("A non-persistent GradientTape can only be used to compute one set of gradients "
                                       "(or jacobians)")
                if self.recording and not self.persistent:
                    self._stop()
                self.used = True
                seq = isinstance(sources, (list, tuple))
                ss = list(sources) if seq else [sources]
                target = _combine(target, output_gradients)
                res = []
                for s in ss:
                    if s.leaf is None or (self, s.leaf) not in target.deps:
                        res.append(None if unconnected_gradients == "none" else fw.zeros_like(s))
                        continue
                    deps = frozenset(d for d in target.deps if d[0] is not self)
                    data = s.leaf.grad(fw._realpart(target.data), 1)
                    res.append(TFTensor(wrapnd(data), fw.live(deps)))
                return (type(sources)(res) if seq else res[0])
        self.GradientTape = GradientTape

        class ForwardAccumulator:
            def __init__(self, primals, tangents):
                ps = list(primals) if isinstance(primals, (list, tuple)) else [primals]
                tg = list(tangents) if isinstance(tangents, (list, tuple)) else [tangents]
                if len(ps) != len(tg) or isinstance(primals, (list, tuple)) != isinstance(tangents, (list, tuple)):
                    raise ValueError("primals and tangents have different structure")
                self.pairs = []
                for p, t in zip(ps, tg):
                    if p.shape != t.shape:
                        raise ValueError("primal and tangent shapes differ")
                    l = p.leafify()
                    p.deps = p.deps | {(self, l)}
                    self.pairs.append((l, t))

            def __enter__(self):
                fw.active.append(self)
                return self

            def __exit__(self, *a):
                fw.active.remove(self)

            def jvp(self, primals, unconnected_gradients="none"):
                if isinstance(primals, (list, tuple)):
                    return type(primals)(self.jvp(p, unconnected_gradients) for p in primals)
                if primals is None:
                    raise AttributeError("'NoneType' object has no attribute '_id'")
                mine = [(l, t) for l, t in self.pairs if (self, l) in primals.deps]
                if not mine:
                    return None if unconnected_gradients == "none" else fw.zeros_like(primals)
                acc = 0
                for l, t in mine:
                    acc = acc + l.directional(primals.data, t.data)
                return TFTensor(wrapnd(acc))
        self.autodiff = types.SimpleNamespace(ForwardAccumulator=ForwardAccumulator)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise R.Unsupported("tensorflow." + name)

    @staticmethod
    def _realpart(x):
        # tensorflow differentiates the real part of a complex target
        return x.real if iscx(snp.asobj(x)) else x

    def live(self, deps):
        return frozenset(d for d in deps if d[0] in self.active)


def shims():
    a, j, t, f = autograd_ns(), jax_ns(), Torch(), TensorFlow()
    return {"autograd": a, "autograd.numpy": a.numpy, "jax": j, "jax.numpy": j.numpy,
            "torch": t, "torch.autograd": t.autograd, "tensorflow": f}
