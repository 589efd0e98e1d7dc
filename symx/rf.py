"""Symbolic real scalars: exact rational functions over a tower of algebraic
and transcendental extensions (RF), symbolic complex scalars (Cx) and symbolic
booleans (SymBool).

num / (dc * prod(factor_i ** e_i)), num an integer polynomial in normal form
modulo the rewrite rules of the space (sqrt variables, sin^2 = 1 - cos^2,
signs d^2 = 1, nilpotent perturbations eps^(k+1) = 0).
"""

import cmath
import math
import numbers
from fractions import Fraction
from math import gcd

from . import poly as P
from .poly import (content, divides, monocontent, padd, pconst, pdiv_exact,
                   peval, pkey, pmul, pmul_raw, ppow, preduce, pscale, psqrt,
                   psub, pvar, pvars)

CTX = None  # current path context, set by engine


def set_ctx(c):
    global CTX
    CTX = c


class DomainError(Exception):
    """A function is evaluated outside its domain on the current path."""


class Unsupported(Exception):
    """The encoding does not cover this operation (=> inconclusive)."""


# ---------------------------------------------------------------- factors

class Factors:
    def __init__(self):
        self.polys = []
        self.index = {}
        self.pos = []      # True if known positive

    def get(self, p):
        """p primitive, positive leading coefficient -> id"""
        k = pkey(p)
        i = self.index.get(k)
        if i is None:
            i = len(self.polys)
            self.polys.append(p)
            self.index[k] = i
            s = CTX.psign(p)
            self.pos.append(s == 1)
        return i


def _frac(x):
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, Fraction):
        return x
    import numpy as np
    if isinstance(x, (np.bool_,)):
        return Fraction(int(x))
    if isinstance(x, np.integer):
        return Fraction(int(x))
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if math.isnan(x) or math.isinf(x):
            return None
        f = CTX.special_float(x)
        if f is not None:
            return f
        return Fraction(repr(x))
    return None


FMT = [None]        # while output is captured: value -> marker


class RF:
    __slots__ = ("num", "dc", "den")
    __array_priority__ = 5.0

    def __init__(self, num, dc=1, den=None):
        self.num = num
        self.dc = dc
        self.den = den or {}

    # -- construction
    @staticmethod
    def of(x):
        if type(x) is RF:
            return x
        if isinstance(x, SymBool):
            return RF(pconst(int(bool(x))))
        f = _frac(x)
        if f is None:
            return None
        if isinstance(f, RF):
            return f
        return RF(pconst(f.numerator), f.denominator)

    @staticmethod
    def var(i):
        return RF(pvar(i))

    def is_const(self):
        return not self.den and (not self.num or (len(self.num) == 1 and 0 in self.num))

    def const(self):
        """Fraction value if constant else None"""
        if self.den:
            return None
        if not self.num:
            return Fraction(0)
        if len(self.num) == 1 and 0 in self.num:
            return Fraction(self.num[0], self.dc)
        return None

    def is_zero(self):
        return not self.num

    def key(self):
        return (pkey(self.num), self.dc, tuple(sorted(self.den.items())))

    # -- normalisation
    @staticmethod
    def make(num, dc, den):
        if not num:
            return RF({}, 1, {})
        if den:
            den = dict(den)
            F = CTX.factors
            for f in list(den):
                fp = F.polys[f]
                e = den[f]
                while e:
                    q = pdiv_exact(num, fp)
                    if q is None:
                        break
                    num = q
                    e -= 1
                if e:
                    den[f] = e
                else:
                    del den[f]
        if dc != 1:
            g = gcd(content(num), dc)
            if g != 1:
                num = {m: c // g for m, c in num.items()}
                dc //= g
        return RF(num, dc, den)

    def _lift(self, den):
        """numerator over the common factor multiset den (a superset)"""
        n = self.num
        F = CTX.factors
        for f, e in den.items():
            d = e - self.den.get(f, 0)
            if d:
                n = pmul(n, ppow(F.polys[f], d))
        return n

    @staticmethod
    def _common(a, b):
        if a.den == b.den:
            return a.den
        den = dict(a.den)
        for f, e in b.den.items():
            if den.get(f, 0) < e:
                den[f] = e
        return den

    def _addsub(self, o, sgn):
        if not o.num:
            return self
        if not self.num:
            return o if sgn == 1 else -o
        den = RF._common(self, o)
        a = self._lift(den) if den is not self.den else self.num
        b = o._lift(den)
        g = gcd(self.dc, o.dc)
        ka, kb = o.dc // g, self.dc // g
        a = pscale(a, ka)
        b = pscale(b, kb)
        n = padd(a, b) if sgn == 1 else psub(a, b)
        return RF.make(n, self.dc * ka, den)

    def __add__(self, o):
        if type(o) is not RF:
            if isinstance(o, Cx):
                return NotImplemented
            o = RF.of(o)
            if o is None:
                return NotImplemented
        return self._addsub(o, 1)

    __radd__ = __add__

    def __sub__(self, o):
        if type(o) is not RF:
            if isinstance(o, Cx):
                return NotImplemented
            o = RF.of(o)
            if o is None:
                return NotImplemented
        return self._addsub(o, -1)

    def __rsub__(self, o):
        o = RF.of(o)
        if o is None:
            return NotImplemented
        return o._addsub(self, -1)

    def __neg__(self):
        return RF({m: -c for m, c in self.num.items()}, self.dc, self.den)

    def __pos__(self):
        return self

    def __mul__(self, o):
        if type(o) is not RF:
            if isinstance(o, Cx):
                return NotImplemented
            o = RF.of(o)
            if o is None:
                return NotImplemented
        if not self.num or not o.num:
            return RF({}, 1, {})
        n = pmul(self.num, o.num)
        if self.den:
            if o.den:
                den = dict(self.den)
                for f, e in o.den.items():
                    den[f] = den.get(f, 0) + e
            else:
                den = self.den
        else:
            den = o.den
        return RF.make(n, self.dc * o.dc, den)

    __rmul__ = __mul__

    def inv(self):
        if not self.num:
            raise ZeroDivisionError("division by zero")
        num = self.num
        F = CTX.factors
        SP = P.space()
        # nilpotent part: 1/(a + d) = 1/a - d/a^2 + ...
        if SP.nil is not None:
            base, rest = self.split_nil()
            if not rest.is_zero():
                if base.is_zero():
                    raise DomainError("division by an infinitesimal")
                ib = base.inv()
                t = -(rest * ib)
                acc = ib
                pw = ib
                for _ in range(CTX.nil_order):
                    pw = pw * t
                    acc = acc + pw
                return acc
        g = content(num)
        if num[max(num)] < 0:
            g = -g
        if g != 1:
            num = {m: c // g for m, c in num.items()}
        # outer denominator of self becomes numerator
        top = RF({0: self.dc if g > 0 else -self.dc}, abs(g), {})
        mc = monocontent(num)
        den = {}
        extra = None
        if mc:
            num = {m - mc: c for m, c in num.items()}
            for i in range(len(SP.names)):
                e = (mc >> (8 * i)) & 0xFF
                if not e:
                    continue
                if i in SP.alg:
                    deg, rhs = SP.alg[i]
                    # 1/v^e = v^(deg-e)/rhs
                    t = RF({(deg - e) << (8 * i): 1}, 1, {}) * RF(rhs, 1, {}).inv()
                    extra = t if extra is None else extra * t
                else:
                    CTX.require_nonzero(pvar(i))
                    den[F.get(pvar(i))] = e
        if not (len(num) == 1 and 0 in num):
            # known factors first
            for f, fp in enumerate(F.polys):
                if len(fp) < 2:
                    continue
                while len(num) > 1 or 0 not in num:
                    q = pdiv_exact(num, fp)
                    if q is None:
                        break
                    num = q
                    den[f] = den.get(f, 0) + 1
            if not (len(num) == 1 and 0 in num):
                conj = CTX.rationalize(num)
                if conj is not None:
                    cj, nn = conj      # num * cj == nn, fewer algebraic variables
                    t = RF(cj, 1, {}) * RF(nn, 1, {}).inv()
                    extra = t if extra is None else extra * t
                    num = {0: 1}
                else:
                    r = psqrt(num)
                    e = 1
                    while r is not None and len(r) > 1:
                        num = r
                        e *= 2
                        r = psqrt(num)
                    c0 = content(num)
                    if num[max(num)] < 0:
                        c0 = -c0
                    if c0 != 1:
                        num = {m: c // c0 for m, c in num.items()}
                        top = top * RF({0: 1}, abs(c0) ** e, {})
                        if c0 < 0 and e % 2:
                            top = -top
                    CTX.require_nonzero(num)
                    f = F.get(num)
                    den[f] = den.get(f, 0) + e
                    num = {0: 1}
            if num != {0: 1}:
                c0 = num[0]
                top = top * RF({0: 1 if c0 > 0 else -1}, abs(c0), {})
        r = RF({0: 1}, 1, den) * top
        if extra is not None:
            r = r * extra
        # multiply by own denominator factors
        for f, e in self.den.items():
            r = r * RF(ppow(F.polys[f], e), 1, {})
        return r

    def __truediv__(self, o):
        if type(o) is not RF:
            if isinstance(o, Cx):
                return NotImplemented
            o = RF.of(o)
            if o is None:
                return NotImplemented
        c = o.const()
        if c is not None:
            if c == 0:
                if CTX.opts.get("nan"):
                    return NAN
                CTX.event("division by zero")
                raise ZeroDivisionError("division by zero")
            return RF.make(pscale(self.num, c.denominator if c > 0 else -c.denominator),
                           self.dc * abs(c.numerator), self.den)
        if CTX.div_fork and CTX.psign(o.num) not in (1, -1):
            if bool(o == 0):
                if CTX.opts.get("nan"):
                    return NAN
                CTX.event("division by zero")
                raise ZeroDivisionError("division by zero")
        return self * o.inv()

    def __rtruediv__(self, o):
        o = RF.of(o)
        if o is None:
            return NotImplemented
        return o / self

    def __pow__(self, n):
        if isinstance(n, RF):
            c = n.const()
            if c is None:
                return (n * self.log()).exp()
            n = c
        if not isinstance(n, numbers.Number) and not hasattr(n, "item"):
            return NotImplemented
        f = _frac(n)
        if isinstance(f, RF) or f is None:
            raise Unsupported(f"power {n!r}")
        f = Fraction(f).limit_denominator(64) if not isinstance(n, (int, Fraction)) else Fraction(f)
        if f.denominator == 1:
            k = int(f)
            if k < 0:
                return (1 / self) ** (-k)
            r = RF({0: 1}, 1, {})
            b = self
            while k:
                if k & 1:
                    r = r * b
                k >>= 1
                if k:
                    b = b * b
            return r
        return self.root(f.denominator) ** f.numerator

    def __rpow__(self, o):
        o = RF.of(o)
        c = self.const()
        if c is not None:
            return o ** c
        return (self * o.log()).exp()

    # -- python protocol
    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        s = P.pstr(self.num, 6)
        d = []
        if self.dc != 1:
            d.append(str(self.dc))
        for f, e in self.den.items():
            d.append("(" + P.pstr(CTX.factors.polys[f], 4) + ")" + (f"^{e}" if e > 1 else ""))
        return s if not d else f"({s})/({'*'.join(d)})"

    def __format__(self, spec):
        if FMT[0] is not None:
            return FMT[0](self)
        c = self.const()
        if c is not None and spec:
            return format(float(c), spec) if not spec.endswith("d") else format(int(c), spec)
        return "<sym>"

    def __str__(self):
        return FMT[0](self) if FMT[0] is not None else "<sym>"

    def __float__(self):
        c = self.const()
        if c is None:
            raise Unsupported("float() of a symbolic value")
        return float(c)

    def __int__(self):
        c = self.const()
        if c is None:
            raise Unsupported("int() of a symbolic value")
        return int(c)

    def __index__(self):
        c = self.const()
        if c is None or c.denominator != 1:
            raise Unsupported("index with a symbolic value")
        return int(c)

    def __bool__(self):
        return bool(self != 0)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def item(self):
        return self

    def astype(self, *a, **k):
        return self

    def copy(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return RF({}, 1, {})

    def conjugate(self):
        return self

    conj = conjugate

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    @property
    def size(self):
        return 1

    @property
    def T(self):
        return self

    @property
    def dtype(self):
        import numpy as np
        return np.dtype(float)

    def is_integer(self):
        c = self.const()
        if c is None:
            raise Unsupported("is_integer of a symbolic value")
        return c.denominator == 1

    # -- comparisons
    def _cmp(self, o, op):
        o2 = RF.of(o)
        if o2 is None:
            if isinstance(o, Cx):
                return NotImplemented
            import numpy as np
            if isinstance(o, np.ndarray):
                return NotImplemented
            if isinstance(o, (float, np.floating)):
                # comparison with an infinity or NaN
                o = float(o)
                if math.isnan(o):
                    return op == "!="
                big = o > 0
                return {"<": big, "<=": big, ">": not big, ">=": not big,
                        "==": False, "!=": True}[op]
            if op == "==":
                return False
            if op == "!=":
                return True
            return NotImplemented
        d = (o2 - self) if op in ("<", "<=") else (self - o2)
        o3 = {"<": ">", "<=": ">=", ">": ">", ">=": ">=", "==": "==", "!=": "!="}[op]
        return cond(o3, d)

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        return self._cmp(o, "==")

    def __ne__(self, o):
        return self._cmp(o, "!=")

    # -- nilpotent split
    def split_nil(self):
        SP = P.space()
        i = SP.nil
        if i is None:
            return self, RF({}, 1, {})
        sh = 8 * i
        a, b = {}, {}
        for m, c in self.num.items():
            if (m >> sh) & 0xFF:
                b[m] = c
            else:
                a[m] = c
        if not b:
            return self, RF({}, 1, {})
        return RF.make(a, self.dc, self.den), RF.make(b, self.dc, self.den)

    def nil_coef(self, k):
        """coefficient of eps**k"""
        SP = P.space()
        i = SP.nil
        sh = 8 * i
        a = {m - (k << sh): c for m, c in self.num.items() if ((m >> sh) & 0xFF) == k}
        return RF.make(a, self.dc, self.den)

    def taylor(self, derivs):
        """derivs: list of callables base -> f^(k)(base)"""
        base, d = self.split_nil()
        acc = derivs[0](base)
        pw = RF({0: 1})
        fact = 1
        for k in range(1, CTX.nil_order + 1):
            pw = pw * d
            fact *= k
            if pw.is_zero():
                break
            if k >= len(derivs):
                raise Unsupported("not enough derivatives")
            acc = acc + derivs[k](base) * pw / fact
        return acc

    def has_nil(self):
        return P.space().nil is not None and not self.split_nil()[1].is_zero()

    # -- functions
    def __abs__(self):
        if self.has_nil():
            base, _ = self.split_nil()
            if base.is_zero():
                raise Unsupported("abs of an infinitesimal")
            return self if bool(base > 0) else -self
        if not self.num:
            return self
        s = CTX.psign(self.num)
        t = self._densign()
        if s is not None and t:
            return self if s * t >= 0 else -self
        if t and CTX.opts.get("abs") == "atom":
            return CTX.absatom(self)
        return self if bool(self >= 0) else -self

    def _densign(self):
        """+1 if the denominator is known positive"""
        for f, e in self.den.items():
            if e % 2 and not CTX.factors.pos[f]:
                return 0
        return 1

    def sqrt(self):
        return self.root(2)

    def root(self, n):
        c = self.const()
        if c is not None:
            if c == 0:
                return self
            if c < 0:
                CTX.event("root of a negative number")
                raise DomainError("root of a negative number")
        if self.has_nil():
            if n != 2:
                raise Unsupported("n-th root of a jet")
            base, d = self.split_nil()
            if base.is_zero():
                raise Unsupported("sqrt of an infinitesimal")
            r = base.root(2)
            ir = 1 / r
            # sqrt(b + d) = r (1 + t/2 - t^2/8 + t^3/16), t = d/b
            t = d * (ir * ir)
            acc = RF({0: 1})
            coefs = [Fraction(1, 2), Fraction(-1, 8), Fraction(1, 16), Fraction(-5, 128)]
            pw = RF({0: 1})
            for k in range(CTX.nil_order):
                pw = pw * t
                acc = acc + pw * RF.of(coefs[k])
            return r * acc
        return CTX.root(self, n)

    def exp(self):
        if self.has_nil():
            base, d = self.split_nil()
            e = base.exp()
            acc = RF({0: 1})
            pw = RF({0: 1})
            f = 1
            for k in range(1, CTX.nil_order + 1):
                pw = pw * d
                f *= k
                acc = acc + pw / f
            return e * acc
        return CTX.exp(self)

    def log(self):
        if self.has_nil():
            base, d = self.split_nil()
            t = d / base
            acc = base.log()
            pw = RF({0: 1})
            for k in range(1, CTX.nil_order + 1):
                pw = pw * t
                acc = acc + pw * RF.of(Fraction((-1) ** (k + 1), k))
            return acc
        return CTX.log(self)

    def cos(self):
        if self.has_nil():
            b = self.split_nil()[0]
            c, s = b.cos(), b.sin()
            return self.taylor([lambda _: c, lambda _: -s, lambda _: -c, lambda _: s, lambda _: c])
        return CTX.cossin(self)[0]

    def sin(self):
        if self.has_nil():
            b = self.split_nil()[0]
            c, s = b.cos(), b.sin()
            return self.taylor([lambda _: s, lambda _: c, lambda _: -s, lambda _: -c, lambda _: s])
        return CTX.cossin(self)[1]

    def tan(self):
        return self.sin() / self.cos()

    def arccos(self):
        if self.has_nil():
            b = self.split_nil()[0]
            w = 1 / (1 - b * b).sqrt()
            return self.taylor([lambda _: b.arccos(), lambda _: -w, lambda _: -b * w ** 3])
        return CTX.arccos(self)

    def arcsin(self):
        return CTX.pi() / 2 - self.arccos()

    def arctan(self):
        return CTX.arctan(self)

    def tanh(self):
        # (E-1)/(E+1), E = exp(2x)
        if self.has_nil():
            b = self.split_nil()[0]
            t = b.tanh()
            d1 = 1 - t * t
            return self.taylor([lambda _: t, lambda _: d1, lambda _: -2 * t * d1,
                                lambda _: (6 * t * t - 2) * d1])
        if self.is_zero():
            return self
        e = (self * 2).exp()
        return (e - 1) / (e + 1)

    def sinh(self):
        e = self.exp()
        return (e - 1 / e) / 2

    def cosh(self):
        e = self.exp()
        return (e + 1 / e) / 2

    def arctanh(self):
        if self.is_zero():
            return self
        CTX.domain("arctanh", cond(">", 1 - self * self))
        return ((1 + self) / (1 - self)).log() / 2

    def arccosh(self):
        CTX.domain("arccosh", cond(">=", self - 1))
        return (self + (self * self - 1).sqrt()).log()

    def arcsinh(self):
        return (self + (self * self + 1).sqrt()).log()

    def sign(self):
        if self.is_zero():
            return RF({})
        if bool(self > 0):
            return RF({0: 1})
        if bool(self < 0):
            return RF({0: -1})
        return RF({})

    def square(self):
        return self * self

    def reciprocal(self):
        return 1 / self

    def log1p(self):
        return (1 + self).log()

    def expm1(self):
        return self.exp() - 1

    def log10(self):
        if self.is_const() and self.const() > 0 and self.const().denominator == 1:
            # used by pymanopt for column widths only: exact for powers of ten, else a 17 digit value
            k = int(self.const())
            d = len(str(k)) - 1
            return RF.of(d) if k == 10 ** d else RF.of(Fraction(math.log10(k)))
        if self.is_const() and self.const() > 0 and self.const().numerator == 1:
            k = self.const().denominator
            if k == 10 ** (len(str(k)) - 1):
                return RF.of(1 - len(str(k)))
        return self.log() / RF.of(10).log()

    def log2(self):
        return self.log() / RF.of(2).log()

    def isnan(self):
        return False

    def isfinite(self):
        return True

    def isinf(self):
        return False

    def __floordiv__(self, o):
        return (self / o).floor()

    def __rfloordiv__(self, o):
        return (RF.of(o) / self).floor()

    def __mod__(self, o):
        return self - o * (self / o).floor()

    def __rmod__(self, o):
        return o - self * (RF.of(o) / self).floor()

    def __divmod__(self, o):
        q = (self / o).floor()
        return q, self - q * o

    def rint(self):
        c = self.const()
        if c is None:
            raise Unsupported("rint")
        return RF.of(round(c))

    def floor(self):
        c = self.const()
        if c is None:
            raise Unsupported("floor")
        return RF.of(math.floor(c))

    def sinc(self):
        y = self * CTX.pi()
        if y.has_nil() and y.split_nil()[0].is_zero():
            y2 = y * y
            return 1 - y2 / 6 + y2 * y2 / 120
        if y.is_zero():
            return RF({0: 1})
        if bool(y == 0):
            return RF({0: 1})
        return y.sin() / y


ZERO = RF({})
ONE = RF({0: 1})


class Cx:
    """Symbolic complex number."""
    __slots__ = ("re", "im")
    __array_priority__ = 6.0

    def __init__(self, re, im):
        self.re = re
        self.im = im

    @staticmethod
    def of(x):
        if type(x) is Cx or type(x) is NanS:
            return x
        if type(x) is RF:
            return Cx(x, ZERO)
        import numpy as np
        if isinstance(x, (complex, np.complexfloating)):
            a, b = RF.of(float(x.real)), RF.of(float(x.imag))
            if a is None or b is None:
                return None
            return Cx(a, b)
        r = RF.of(x)
        if r is None:
            return None
        return Cx(r, ZERO)

    def _b(f):
        def g(self, o):
            o = Cx.of(o)
            if o is None or type(o) is NanS:
                return NotImplemented
            return f(self, o)
        return g

    @_b
    def __add__(self, o):
        return Cx(self.re + o.re, self.im + o.im)

    __radd__ = __add__

    @_b
    def __sub__(self, o):
        return Cx(self.re - o.re, self.im - o.im)

    @_b
    def __rsub__(self, o):
        return Cx(o.re - self.re, o.im - self.im)

    @_b
    def __mul__(self, o):
        return Cx(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)

    __rmul__ = __mul__

    @_b
    def __truediv__(self, o):
        if o.im.is_zero():
            return Cx(self.re / o.re, self.im / o.re)
        d = o.re * o.re + o.im * o.im
        t = self * Cx(o.re, -o.im)
        return Cx(t.re / d, t.im / d)

    @_b
    def __rtruediv__(self, o):
        return o / self

    def __pow__(self, n):
        if isinstance(n, RF):
            n = n.const()
        f = Fraction(n)
        if f.denominator != 1:
            if self.im.is_zero():
                return Cx(self.re ** f, ZERO)
            raise Unsupported("fractional power of a complex value")
        k = int(f)
        if k < 0:
            return 1 / (self ** (-k))
        r = Cx(ONE, ZERO)
        for _ in range(k):
            r = r * self
        return r

    def __neg__(self):
        return Cx(-self.re, -self.im)

    def __pos__(self):
        return self

    def conjugate(self):
        return Cx(self.re, -self.im)

    conj = conjugate

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def abs2(self):
        return self.re * self.re + self.im * self.im

    def __abs__(self):
        if self.im.is_zero():
            return abs(self.re)
        return self.abs2().sqrt()

    def exp(self):
        r = self.re.exp()
        return Cx(r * self.im.cos(), r * self.im.sin())

    def sqrt(self):
        if self.im.is_zero():
            if bool(self.re >= 0):
                return Cx(self.re.sqrt(), ZERO)
            return Cx(ZERO, (-self.re).sqrt())
        # principal branch
        m = abs(self)
        a = ((m + self.re) / 2).sqrt()
        b = ((m - self.re) / 2).sqrt()
        return Cx(a, b if bool(self.im >= 0) else -b)

    def arccos(self):
        if self.im.is_zero():
            return Cx(self.re.arccos(), ZERO)
        raise Unsupported("complex arccos")

    def log(self):
        if self.im.is_zero() and bool(self.re > 0):
            return Cx(self.re.log(), ZERO)
        raise Unsupported("complex log")

    def cos(self):
        if self.im.is_zero():
            return Cx(self.re.cos(), ZERO)
        raise Unsupported("complex cos")

    def sin(self):
        if self.im.is_zero():
            return Cx(self.re.sin(), ZERO)
        raise Unsupported("complex sin")

    def arctan(self):
        if self.im.is_zero():
            return Cx(self.re.arctan(), ZERO)
        raise Unsupported("complex arctan")

    def sinc(self):
        if self.im.is_zero():
            return Cx(self.re.sinc(), ZERO)
        raise Unsupported("complex sinc")

    def isnan(self):
        return False

    def isfinite(self):
        return True

    def isinf(self):
        return False

    def __eq__(self, o):
        o = Cx.of(o)
        if o is None:
            return NotImplemented
        return band(cond("==", self.re - o.re), cond("==", self.im - o.im))

    def __ne__(self, o):
        o = Cx.of(o)
        if o is None:
            return NotImplemented
        return bnot(band(cond("==", self.re - o.re), cond("==", self.im - o.im)))

    # numpy orders complex numbers lexicographically
    def _lex(self, o, strict, less):
        o = Cx.of(o)
        if o is None:
            return NotImplemented
        a, b = (self, o) if less else (o, self)
        d = b.re - a.re
        e = b.im - a.im
        return bor(cond(">", d), band(cond("==", d), cond(">" if strict else ">=", e)))

    def __lt__(self, o):
        return self._lex(o, True, True)

    def __le__(self, o):
        return self._lex(o, False, True)

    def __gt__(self, o):
        return self._lex(o, True, False)

    def __ge__(self, o):
        return self._lex(o, False, False)

    def __hash__(self):
        return hash((self.re, self.im))

    def __bool__(self):
        return bool(self != 0)

    def __repr__(self):
        return f"Cx({self.re!r}, {self.im!r})"

    def __format__(self, spec):
        return FMT[0](self) if FMT[0] is not None else "<sym>"

    def __float__(self):
        raise TypeError("can't convert complex to float")

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    ndim = 0
    shape = ()
    size = 1

    @property
    def T(self):
        return self

    @property
    def dtype(self):
        import numpy as np
        return np.dtype(complex)


class NanS(RF):
    """an undefined value (only with the option nan=True): arithmetic propagates it, comparisons with it are false"""
    __slots__ = ()

    def __init__(self):
        super().__init__({}, 1, {})

    def __repr__(self):
        return "nan"

    def _me(self, *a, **k):
        return self

    def _no(self, *a):
        return False

    def is_zero(self):
        return False

    is_const = has_nil = isfinite = isinf = is_zero

    def const(self):
        return None

    def key(self):
        return ("nan",)

    def isnan(self):
        return True

    def __bool__(self):
        return True

    def __ne__(self, o):
        return True

    __hash__ = object.__hash__
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = _no
    re = im = real = imag = property(_me)


for _n in ("add radd sub rsub mul rmul truediv rtruediv pow rpow neg pos abs floordiv rfloordiv mod rmod").split():
    setattr(NanS, f"__{_n}__", NanS._me)
for _n in ("sqrt root exp log cos sin tan arccos arcsin arctan tanh sinh cosh arctanh arccosh arcsinh sign square reciprocal log1p "
           "expm1 log10 log2 conjugate conj rint floor inv cbrt").split():
    setattr(NanS, _n, NanS._me)
NAN = NanS()

# ---------------------------------------------------------------- booleans

class SymBool:
    """Formula over polynomial atoms: ('atom', op, poly) | ('and', ...)"""
    __slots__ = ("t",)
    __array_priority__ = 7.0

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return CTX.branch(self)

    def __and__(self, o):
        return band(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return bor(self, o)

    __ror__ = __or__

    def __invert__(self):
        return bnot(self)

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __ne__(self, o):
        return bool(self) != bool(o)

    def __hash__(self):
        return id(self)

    def _num(self):
        return int(bool(self))

    def __int__(self):
        return self._num()

    __index__ = __int__

    def __float__(self):
        return float(self._num())

    def __add__(self, o):
        return self._num() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self._num() * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return self._num() - o

    def __rsub__(self, o):
        return o - self._num()

    def __neg__(self):
        return -self._num()

    def any(self):
        return self

    def all(self):
        return self

    def item(self):
        return self

    def __repr__(self):
        return f"SymBool({self.t!r})"


def _isb(x):
    import numpy as np
    return isinstance(x, (bool, np.bool_))


def band(a, b):
    if _isb(a):
        return b if a else False
    if _isb(b):
        return a if b else False
    return SymBool(("and", a.t, b.t))


def bor(a, b):
    if _isb(a):
        return True if a else b
    if _isb(b):
        return True if b else a
    return SymBool(("or", a.t, b.t))


def bnot(a):
    if _isb(a):
        return not a
    t = a.t
    if t[0] == "atom":
        _, op, p = t
        if op == ">":
            return SymBool(("atom", ">=", {m: -c for m, c in p.items()}))
        if op == ">=":
            return SymBool(("atom", ">", {m: -c for m, c in p.items()}))
        return SymBool(("atom", "!=" if op == "==" else "==", p))
    if t[0] == "not":
        return SymBool(t[1])
    return SymBool(("not", t))


def cond(op, d):
    """d op 0 for an RF d -> bool or SymBool"""
    if not isinstance(d, RF):
        d = RF.of(d)
    c = d.const()
    if c is not None:
        return {">": c > 0, ">=": c >= 0, "==": c == 0, "!=": c != 0}[op]
    if P.space().nil is not None:
        base, rest = d.split_nil()
        if not rest.is_zero():
            # order of an infinitesimal perturbation: decided by the base
            # value unless it vanishes identically
            if base.is_zero():
                if op in ("==", "!="):
                    return op == "!="
                for k in range(1, CTX.nil_order + 1):
                    ck = d.nil_coef(k)
                    if not ck.is_zero():
                        return cond(op, ck)
            d = base
            c = d.const()
            if c is not None:
                return {">": c > 0, ">=": c >= 0, "==": c == 0, "!=": c != 0}[op]
    p = d.num
    if op in (">", ">="):
        for f, e in d.den.items():
            if e % 2 and not CTX.factors.pos[f]:
                if len(CTX.factors.polys[f]) == 1 or True:
                    p = pmul(p, CTX.factors.polys[f])
        s = CTX.psign(p)
        if s == 1:
            return True
        if s == -1:
            return False
        if s == 0.5 and op == ">=":
            return True
        if s == -0.5 and op == ">":
            return False
    else:
        s = CTX.psign(p)
        if s in (1, -1):
            return op == "!="
        if P.space().algmask == 0 and len(p) == 1:
            pass
    g = content(p)
    if g > 1:
        p = {m: c // g for m, c in p.items()}
    return SymBool(("atom", op, p))


def _scalar_method(name):
    def m(self, *a, **k):
        from . import snp
        return getattr(snp.wrap(snp.asobj(self)), name)(*a, **k)
    m.__name__ = name
    return m


for _n in ("reshape", "ravel", "flatten", "squeeze", "sum", "astype", "mean", "max", "min", "prod",
           "transpose", "swapaxes", "conj", "dot", "clip", "trace", "repeat", "any", "all", "tolist"):
    for _c in (RF, Cx):
        if not hasattr(_c, _n):
            setattr(_c, _n, _scalar_method(_n))


def _scalar_index(self, idx):
    """numpy scalars accept x[()], x[...], x[None] and their combinations."""
    import numpy as np
    from . import snp
    r = np.ndarray.__getitem__(np.asarray(snp.asobj(self)).view(np.ndarray), idx)
    return snp.wrap(r) if isinstance(r, np.ndarray) else r


for _c in (RF, Cx):
    _c.__getitem__ = _scalar_index
    _c.__iter__ = None
