"""Affine integer terms and linear constraints over length variables.

An `Aff` is c + sum(coef * var) with at least one variable; plain numbers are
Python ints. Constraints are kept as `aff >= 0`. Feasibility is decided by
Fourier-Motzkin elimination with integer tightening."""
from math import gcd

NAMES = [None]


def new_var(name):
    NAMES.append(name)
    return len(NAMES) - 1


class Aff:
    __slots__ = ("d", "c", "_k")

    def __init__(self, d, c):
        self.d = d
        self.c = c
        self._k = None

    def key(self):
        if self._k is None:
            self._k = (tuple(sorted(self.d.items())), self.c)
        return self._k

    def __eq__(self, o):
        return type(o) is Aff and self.c == o.c and self.d == o.d

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        r = []
        for v, k in sorted(self.d.items()):
            n = NAMES[v]
            r.append(n if k == 1 else "-" + n if k == -1 else "%d*%s" % (k, n))
        if self.c or not r:
            r.append(str(self.c))
        return "+".join(r).replace("+-", "-")


def mk(d, c):
    return Aff(d, c) if d else c


def var(v):
    return Aff({v: 1}, 0)


def add(a, b):
    if type(a) is int:
        if type(b) is int:
            return a + b
        a, b = b, a
    if type(b) is int:
        return Aff(a.d, a.c + b)
    d = dict(a.d)
    for v, k in b.d.items():
        x = d.get(v, 0) + k
        if x:
            d[v] = x
        else:
            del d[v]
    return mk(d, a.c + b.c)


def scale(a, k):
    if type(a) is int:
        return a * k
    if k == 0:
        return 0
    return Aff({v: x * k for v, x in a.d.items()}, a.c * k)


def sub(a, b):
    return add(a, scale(b, -1))


def tighten(d, c):
    """normal form of d + c >= 0: divided by the gcd, constant floored"""
    g = 0
    for x in d.values():
        g = gcd(g, x)
        if g == 1:
            return d, c
    if g > 1:
        return {v: x // g for v, x in d.items()}, c // g
    return d, c


def keyof(d, c):
    return (tuple(sorted(d.items())), c)


CACHE = {}
LIMIT = 600


def feasible(cons):
    """cons: iterable of (items, c) keys. False only if there is no solution."""
    fs = frozenset(cons)
    r = CACHE.get(fs)
    if r is None:
        r = project(fs, None) is not None
        CACHE[fs] = r
    return r


def reduce_(cons):
    """drop dominated constraints; None when a constant one is violated"""
    best = {}
    for items, c in cons:
        if not items:
            if c < 0:
                return None
            continue
        o = best.get(items)
        if o is None or c < o:
            best[items] = c
    return best


def project(cons, keep):
    """eliminate every variable except `keep`; None when infeasible"""
    best = reduce_(cons)
    if best is None:
        return None
    while True:
        pos = {}
        neg = {}
        for items in best:
            for v, k in items:
                if v == keep:
                    continue
                (pos if k > 0 else neg).setdefault(v, []).append(items)
        vs = set(pos) | set(neg)
        if not vs:
            return best
        v = min(vs, key=lambda x: (len(pos.get(x, ())) * len(neg.get(x, ())), x))
        p = pos.get(v, ())
        n = neg.get(v, ())
        out = [(i, c) for i, c in best.items() if not any(x == v for x, _ in i)]
        if len(p) * len(n) + len(out) > LIMIT:
            return {}
        for a in p:
            da = dict(a)
            ka = da[v]
            ca = best[a]
            for b in n:
                db = dict(b)
                kb = -db[v]
                g = gcd(ka, kb)
                ma, mb = kb // g, ka // g
                d = {x: y * ma for x, y in da.items()}
                for x, y in db.items():
                    z = d.get(x, 0) + y * mb
                    if z:
                        d[x] = z
                    else:
                        d.pop(x, None)
                d, c = tighten(d, ca * ma + best[b] * mb)
                if not d:
                    if c < 0:
                        return None
                    continue
                out.append(keyof(d, c))
        best = reduce_(out)
        if best is None:
            return None


def bounds(cons, a):
    """(lo, hi) of the affine term a under cons; None = unbounded"""
    if type(a) is int:
        return a, a
    t = 0
    d = dict(a.d)
    d[t] = -1
    e1 = keyof(d, a.c)
    e2 = keyof({v: -x for v, x in d.items()}, -a.c)
    r = project(list(cons) + [e1, e2], t)
    if r is None:
        return None
    lo = hi = None
    for items, c in r.items():
        k = items[0][1]
        if k > 0:
            b = -(c // k)
            lo = b if lo is None else max(lo, b)
        else:
            b = c // -k
            hi = b if hi is None else min(hi, b)
    return lo, hi
