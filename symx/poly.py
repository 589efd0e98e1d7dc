"""Sparse multivariate integer polynomials with packed monomials.

A polynomial is a dict {monomial: int coefficient}.  A monomial is a Python
int in which variable number i owns the byte at bit offset 8*i, so that the
product of two monomials is an integer addition.  Exponents stay below 128:
the top bit of every byte is a guard used by the divisibility test.
"""

import heapq
from math import gcd


class Blowup(Exception):
    """A polynomial grew past the configured term limit (=> inconclusive)."""


class Space:
    """Variable registry of one symbolic execution path."""

    def __init__(self):
        self.names = []
        self.guard = 0
        self.alg = {}          # var -> (degree, rhs poly)   var**degree = rhs
        self.algmask = 0       # bits that are set iff an exponent may need reduction
        self.limit = 60000
        self.nil = None        # the nilpotent variable (index), if any

    def var(self, name):
        i = len(self.names)
        self.names.append(name)
        self.guard |= 0x80 << (8 * i)
        return i

    def set_alg(self, i, degree, rhs):
        """Declare var_i**degree == rhs (rhs an integer polynomial)."""
        self.alg[i] = (degree, rhs)
        self.algmask |= 0xFF << (8 * i)
        self._alglist = sorted(self.alg)


SP = Space()


def reset():
    global SP
    SP = Space()
    return SP


def space():
    return SP


def mono(i, e=1):
    return e << (8 * i)


def expo(m, i):
    return (m >> (8 * i)) & 0xFF


def pvar(i):
    return {1 << (8 * i): 1}


def pconst(c):
    return {0: c} if c else {}


def padd(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        s = r.get(m, 0) + c
        if s:
            r[m] = s
        else:
            del r[m]
    return r


def pscale(a, c):
    if c == 1:
        return a
    if c == 0:
        return {}
    return {m: k * c for m, k in a.items()}


def psub(a, b):
    r = dict(a)
    for m, c in b.items():
        s = r.get(m, 0) - c
        if s:
            r[m] = s
        else:
            del r[m]
    return r


def pmul_raw(a, b):
    if len(a) > len(b):
        a, b = b, a
    if not a:
        return {}
    if len(a) * len(b) > 40 * SP.limit:
        raise Blowup(f"{len(a)}x{len(b)} terms")
    r = {}
    get = r.get
    bi = list(b.items())
    for ma, ca in a.items():
        for mb, cb in bi:
            m = ma + mb
            r[m] = get(m, 0) + ca * cb
    if 0 in r.values():
        r = {m: c for m, c in r.items() if c}
    if len(r) > SP.limit:
        raise Blowup(f"{len(r)} terms")
    # exponents below 64 in both factors cannot reach 128; otherwise look
    o = 0
    for m in a:
        o |= m
    for m, _ in bi:
        o |= m
    g = SP.guard
    if o & (g >> 1):
        for m in r:
            if m & g:
                raise Blowup("exponent above 127")
    return r


def preduce(p):
    """Apply the rewrite rules var**deg -> rhs until none applies."""
    mask = SP.algmask
    if not mask:
        return p
    while True:
        bad = None
        for m in p:
            if m & mask:
                mm = m & mask
                for i in SP._alglist:
                    e = (mm >> (8 * i)) & 0xFF
                    if e and e >= SP.alg[i][0]:
                        bad = i if bad is None else max(bad, i)
        if bad is None:
            return p
        i = bad
        deg, rhs = SP.alg[i]
        sh = 8 * i
        out = {}
        buckets = {}
        for m, c in p.items():
            e = (m >> sh) & 0xFF
            if e >= deg:
                q, r = divmod(e, deg)
                mm = m - ((e - r) << sh)
                bkt = buckets.setdefault(q, {})
                bkt[mm] = bkt.get(mm, 0) + c
            else:
                out[m] = out.get(m, 0) + c
        out = {m: c for m, c in out.items() if c}
        pw = {0: 1}
        last = 0
        for q in sorted(buckets):
            while last < q:
                pw = pmul_raw(pw, rhs)
                last += 1
            out = padd(out, pmul_raw({m: c for m, c in buckets[q].items() if c}, pw))
        p = out


def _needs(p):
    mask = SP.algmask
    if not mask:
        return False
    for m in p:
        if m & mask:
            return True
    return False


def pmul(a, b):
    r = pmul_raw(a, b)
    if SP.algmask and _needs(r):
        r = preduce(r)
    return r


def ppow(a, n):
    r = {0: 1}
    for _ in range(n):
        r = pmul(r, a)
    return r


def content(p):
    g = 0
    for c in p.values():
        g = gcd(g, c)
        if g == 1:
            return 1
    return g


def monocontent(p):
    """The largest monomial dividing every term."""
    if not p:
        return 0
    it = iter(p)
    m0 = next(it)
    if m0 == 0:
        return 0
    n = len(SP.names)
    ex = [(m0 >> (8 * i)) & 0xFF for i in range(n)]
    for m in it:
        alive = False
        for i in range(n):
            if ex[i]:
                e = (m >> (8 * i)) & 0xFF
                if e < ex[i]:
                    ex[i] = e
                if ex[i]:
                    alive = True
        if not alive:
            return 0
    r = 0
    for i in range(n):
        r |= ex[i] << (8 * i)
    return r


def divides(b, a):
    """Does monomial b divide monomial a?"""
    g = SP.guard
    return ((a | g) - b) & g == g


def pdiv_exact(a, b):
    """a / b if b divides a exactly over the integers, else None.

    Only meaningful for polynomials without reducible algebraic variables in
    b (callers guarantee it or accept a None)."""
    if not a:
        return {}
    lb = max(b)
    tb = min(b)
    if not divides(lb, max(a)) or not divides(tb, min(a)):
        return None
    cb = b[lb]
    if len(b) == 1:
        r = {}
        for m, c in a.items():
            if not divides(lb, m) or c % cb:
                return None
            r[m - lb] = c // cb
        return r
    if a[min(a)] % b[tb]:
        return None
    rem = dict(a)
    heap = [-m for m in rem]
    heapq.heapify(heap)
    q = {}
    bi = [(m, c) for m, c in b.items() if m != lb]
    maxq = len(a) * 4 + 16
    while heap:
        m = -heapq.heappop(heap)
        c = rem.pop(m, 0)
        if not c:
            continue
        if not divides(lb, m) or c % cb:
            return None
        qm = m - lb
        qc = c // cb
        q[qm] = qc
        if len(q) > maxq:
            return None
        for mb, k in bi:
            t = qm + mb
            if t in rem:
                s = rem[t] - qc * k
                rem[t] = s
            else:
                rem[t] = -qc * k
                heapq.heappush(heap, -t)
    return q


def isqrt_exact(n):
    from math import isqrt
    if n < 0:
        return None
    r = isqrt(n)
    return r if r * r == n else None


def psqrt(p):
    """Polynomial square root over the integers (up to sign), or None."""
    if not p:
        return {}
    lm = max(p)
    n = len(SP.names)
    for i in range(n):
        if (lm >> (8 * i)) & 1:
            return None
    tm = min(p)
    for i in range(n):
        if (tm >> (8 * i)) & 1:
            return None
    lc = isqrt_exact(p[lm])
    if lc is None or isqrt_exact(p[tm]) is None:
        return None
    root = {lm >> 1: lc}
    rem = dict(p)
    del rem[lm]
    l0, c0 = lm >> 1, lc
    limit = len(p) + 4
    while True:
        rem = {m: c for m, c in rem.items() if c}
        if not rem:
            return root
        m = max(rem)
        c = rem[m]
        if not divides(l0, m) or c % (2 * c0):
            return None
        qm, qc = m - l0, c // (2 * c0)
        if qm >= l0 or qm in root or len(root) > limit:
            return None
        # rem -= 2*q*root + q^2
        for mr, cr in root.items():
            t = mr + qm
            rem[t] = rem.get(t, 0) - 2 * qc * cr
        t = qm + qm
        rem[t] = rem.get(t, 0) - qc * qc
        root[qm] = qc


def peval(p, values):
    """Evaluate with values: list indexed by variable (floats or Fractions)."""
    tot = 0
    for m, c in p.items():
        t = c
        i = 0
        while m:
            e = m & 0xFF
            if e:
                t = t * values[i] ** e
            m >>= 8
            i += 1
        tot = tot + t
    return tot


def pvars(p):
    u = 0
    for m in p:
        u |= m
    r = []
    i = 0
    while u:
        if u & 0xFF:
            r.append(i)
        u >>= 8
        i += 1
    return r


def pkey(p):
    return frozenset(p.items())


def pstr(p, limit=12):
    if not p:
        return "0"
    out = []
    for k, (m, c) in enumerate(sorted(p.items(), reverse=True)):
        if k >= limit:
            out.append(f"... {len(p)} terms")
            break
        fs = []
        i = 0
        while m:
            e = m & 0xFF
            if e:
                fs.append(SP.names[i] + (f"^{e}" if e > 1 else ""))
            m >>= 8
            i += 1
        out.append("*".join(([str(c)] if c != 1 or not fs else []) + fs))
    return " + ".join(out)
