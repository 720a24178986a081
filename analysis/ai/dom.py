"""Abstract domain: values, words of nibbles and abstract states.

Integers that count things are affine terms over length variables (`lin.Aff`).
Integers that carry key material are words (`W`): sequences of pieces, most
significant first, with implicit leading zeros.

    ('c', x, len)   run of the constant nibble x
    ('n', id)       one unknown nibble
    ('s', id)       unknown sequence, length SEQ[id]
    ('r', id)       the same sequence reversed

An abstract state is kept in solved form: equalities are substitutions, the
rest are linear inequalities, value sets of nibbles and disequalities of
nibbles, so every state that is kept has instances."""
from . import lin
from .lin import Aff


class Undecided(Exception):
    """The analysis met a construct outside its domain. Never an alarm."""


class Panic(Exception):
    pass


class Fork(Exception):
    """Case split: each option is a function state -> False if infeasible."""

    def __init__(self, opts):
        self.opts = opts


def slots(cls_name, *names):
    def init(self, *a):
        for n, v in zip(names, a):
            setattr(self, n, v)
        for n in names[len(a):]:
            setattr(self, n, None)

    def rep(self):
        return "%s(%s)" % (cls_name, ",".join(repr(getattr(self, n)) for n in names))

    return type(cls_name, (), {"__slots__": names, "__init__": init, "__repr__": rep})


W = slots("W", "p")
UI = slots("UI", "w", "v")
Adt = slots("Adt", "t", "v", "f")
Arr = slots("Arr", "e")
Ptr = slots("Ptr", "base", "path", "start", "n")
ArcV = slots("ArcV", "id")
BoxV = slots("BoxV", "id", "start", "n")
LockV = slots("LockV", "v")
GuardV = slots("GuardV", "ptr", "mode")
SymNode = slots("SymNode", "name", "ty")  # trie node not looked at yet
SymCell = slots("SymCell", "name", "ty")  # content of its cache cell
SymDiscr = slots("SymDiscr", "name", "ds")  # discriminant of an unknown node
IterV = slots("IterV", "kind", "src", "i", "j")
FnVal = slots("FnVal", "callee")
RlpV = slots("RlpV", "n", "items")
Opaque = slots("Opaque", "what")
SBytes = slots("SBytes", "key", "n")  # opaque non-empty byte string
SStr = slots("SStr", "key")  # opaque string
HexCh = slots("HexCh", "nib", "upper")  # character of a nibble
Sym = slots("Sym", "key")  # opaque number
BytesW = slots("BytesW", "p")  # byte string given as a word (two nibbles per byte)


class VecV(Arr):
    __slots__ = ()


Over = slots("Over", "base", "o")  # array with entries (nibble, value) at unknown distinct slots


class StrV(Arr):
    """string of ASCII characters (ints or HexCh)"""

    __slots__ = ()


UNIT = Adt(None, 0, ())

SEQ = [None]  # length of every sequence variable
SEQN = [None]  # its name
NIBN = [None]  # names of nibble variables


def new_seq(name, ln):
    SEQ.append(ln)
    SEQN.append(name)
    return len(SEQ) - 1


def new_nib(name):
    NIBN.append(name)
    return len(NIBN) - 1


def show_word(ps):
    r = []
    for p in ps:
        k = p[0]
        if k == "c":
            r.append("%x" % p[1] if p[2] == 1 else "%x^(%s)" % (p[1], p[2]))
        elif k == "n":
            r.append("<%s>" % NIBN[p[1]])
        elif k == "s":
            r.append("{%s:%s}" % (SEQN[p[1]], SEQ[p[1]]))
        else:
            r.append("{rev %s:%s}" % (SEQN[p[1]], SEQ[p[1]]))
    return ".".join(r) or "-"


class Frame:
    __slots__ = ("fn", "bb", "i", "L", "depth", "dest", "target", "visits")

    def __init__(self, fn, depth, dest, target):
        self.fn = fn
        self.bb = 0
        self.i = 0
        self.L = [None] * len(fn.locals)
        self.depth = depth
        self.dest = dest
        self.target = target
        self.visits = 0

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn
        f.bb = self.bb
        f.i = self.i
        f.L = self.L[:]
        f.depth = self.depth
        f.dest = self.dest
        f.target = self.target
        f.visits = self.visits
        return f


class State:
    __slots__ = ("stack", "heap", "cons", "lsub", "nmask", "nsub", "ndiff", "wsub", "exp", "facts", "cfg", "nid", "steps", "extra", "trace", "phase")

    def __init__(self, cfg=None):
        self.stack = []
        self.heap = {}
        self.cons = ()
        self.lsub = {}
        self.nmask = {}
        self.nsub = {}
        self.ndiff = frozenset()
        self.wsub = {}
        self.exp = {}
        self.facts = {}
        self.cfg = cfg
        self.nid = 1
        self.steps = 0
        self.extra = {}
        self.trace = ()
        self.phase = 0

    def copy(self):
        s = State.__new__(State)
        s.stack = [f.copy() for f in self.stack]
        s.heap = dict(self.heap)
        s.cons = self.cons
        s.lsub = dict(self.lsub)
        s.nmask = dict(self.nmask)
        s.nsub = dict(self.nsub)
        s.ndiff = self.ndiff
        s.wsub = dict(self.wsub)
        s.exp = dict(self.exp)
        s.facts = dict(self.facts)
        s.cfg = self.cfg
        s.nid = self.nid
        s.steps = self.steps
        s.extra = dict(self.extra)
        s.trace = self.trace
        s.phase = self.phase
        return s

    def alloc(self, v):
        i = self.nid
        self.nid = i + 1
        self.heap[i] = v
        return i

    # ---- lengths ----
    def length(self, name, lo=0, hi=64):
        """a fresh length variable"""
        v = lin.new_var(name)
        self.cons = self.cons + (lin.keyof({v: 1}, -lo),)
        if hi is not None:
            self.cons = self.cons + (lin.keyof({v: -1}, hi),)
        return lin.var(v)

    def an(self, a):
        """normal form of an integer term"""
        if type(a) is int:
            return a
        ls = self.lsub
        if not ls:
            return a
        while True:
            for v in a.d:
                if v in ls:
                    break
            else:
                return a
            d = dict(a.d)
            k = d.pop(v)
            a = lin.add(lin.mk(d, a.c), lin.scale(ls[v], k))
            if type(a) is int:
                return a

    def ge0(self, a):
        """assume a >= 0"""
        a = self.an(a)
        if type(a) is int:
            return a >= 0
        d, c = lin.tighten(a.d, a.c)
        k = lin.keyof(d, c)
        if k in self.cons:
            return True
        cons = self.cons + (k,)
        if not lin.feasible(cons):
            return False
        self.cons = cons
        return True

    def eq0(self, a):
        """assume a == 0"""
        a = self.an(a)
        if type(a) is int:
            return a == 0
        g = 0
        for x in a.d.values():
            g = lin.gcd(g, x)
        if a.c % g:
            return False
        if g > 1:
            a = Aff({v: x // g for v, x in a.d.items()}, a.c // g)
        pick = None
        for v, x in a.d.items():
            if x in (1, -1) and (pick is None or v > pick):
                pick = v
        if pick is None:
            return self.ge0(a) and self.ge0(lin.scale(a, -1))
        d = dict(a.d)
        x = d.pop(pick)
        e = lin.scale(lin.mk(d, a.c), -x)
        self.lsub[pick] = e
        new = []
        for items, c in self.cons:
            k = 0
            for v, y in items:
                if v == pick:
                    k = y
            if k:
                dd = dict(items)
                del dd[pick]
                r = lin.add(lin.mk(dd, c), lin.scale(e, k))
                if type(r) is int:
                    if r < 0:
                        return False
                    continue
                new.append(lin.keyof(*lin.tighten(r.d, r.c)))
            else:
                new.append((items, c))
        self.cons = tuple(dict.fromkeys(new))
        return lin.feasible(self.cons)

    def entails_ge0(self, a):
        a = self.an(a)
        if type(a) is int:
            return a >= 0
        n = lin.sub(-1, a)
        return not lin.feasible(self.cons + (lin.keyof(*lin.tighten(n.d, n.c)),))

    def le(self, a, b):
        """is a <= b; splits when undetermined"""
        d = self.an(lin.sub(b, a))
        if type(d) is int:
            return d >= 0
        if self.entails_ge0(d):
            return True
        n = lin.sub(-1, d)
        if self.entails_ge0(n):
            return False
        raise Fork([lambda s: s.ge0(d), lambda s: s.ge0(n)])

    def lt(self, a, b):
        return self.le(lin.add(a, 1), b)

    def eq(self, a, b):
        d = self.an(lin.sub(b, a))
        if type(d) is int:
            return d == 0
        if self.entails_ge0(lin.sub(d, 1)) or self.entails_ge0(lin.sub(-1, d)):
            return False
        if self.entails_ge0(d) and self.entails_ge0(lin.scale(d, -1)):
            self.eq0(d)
            return True
        raise Fork([lambda s: s.eq0(d), lambda s: s.ge0(lin.sub(d, 1)), lambda s: s.ge0(lin.sub(-1, d))])

    def bounds(self, a):
        a = self.an(a)
        r = lin.bounds(self.cons, a)
        if r is None:
            return 0, -1
        return r

    def conc(self, a, limit=300):
        """concrete value of an integer term; splits over its finite range"""
        a = self.an(a)
        if type(a) is int:
            return a
        lo, hi = self.bounds(a)
        if lo is None or hi is None or hi - lo > limit:
            raise Undecided("range of %r is not finite" % (a,))
        raise Fork([(lambda s, k=k: s.eq0(lin.sub(a, k))) for k in range(lo, hi + 1)])

    def divmod(self, a, k):
        """quotient and remainder by a positive constant"""
        a = self.an(a)
        if type(a) is int:
            return a // k, a % k
        if all(x % k == 0 for x in a.d.values()):
            return Aff({v: x // k for v, x in a.d.items()}, a.c // k), a.c % k
        lo, hi = self.bounds(a)
        if lo is not None and hi is not None and lo // k == hi // k:
            q = lo // k
            return q, lin.sub(a, q * k)
        pick = None
        for v, x in a.d.items():
            if x in (1, -1) and (pick is None or v > pick):
                pick = v
        if pick is None:
            raise Undecided("division of %r" % (a,))
        # a = k*q + r with a fresh quotient

        def opt(r):
            def f(s):
                q = s.length("q%d" % len(lin.NAMES), 0, None)
                return s.eq0(lin.sub(lin.add(lin.scale(q, k), r), a))

            return f

        raise Fork([opt(r) for r in range(k)])

    # ---- nibbles ----
    def nn(self, p):
        """normal form of a one-nibble piece"""
        while p[0] == "n":
            q = self.nsub.get(p[1])
            if q is None:
                return p
            p = q
        return p

    def mask(self, p):
        if p[0] == "c":
            return 1 << p[1]
        return self.nmask.get(p[1], 0xFFFF)

    def nib_restrict(self, p, m):
        """assume the nibble lies in the set m"""
        p = self.nn(p)
        o = self.mask(p)
        m &= o
        if m == 0:
            return False
        if m == o:
            return True
        if m & (m - 1) == 0:
            return self.nib_bind(p, ("c", m.bit_length() - 1, 1))
        self.nmask[p[1]] = m
        return True

    def nib_bind(self, p, q):
        """assume two nibbles are equal"""
        p = self.nn(p)
        q = self.nn(q)
        if p == q:
            return True
        if p[0] == "c":
            p, q = q, p
        if p[0] == "c":
            return False
        if not (self.mask(p) & self.mask(q)):
            return False
        if q[0] == "n":
            m = self.mask(p) & self.mask(q)
            if q[1] > p[1]:
                p, q = q, p
            self.nsub[p[1]] = q
            if not self.nib_restrict(q, m):
                return False
        else:
            self.nsub[p[1]] = q
        return self.nib_check()

    def nib_diff(self, p, q):
        """assume two nibbles differ"""
        p = self.nn(p)
        q = self.nn(q)
        if p == q:
            return False
        if p[0] == "c":
            p, q = q, p
        if p[0] == "c":
            return True
        if q[0] == "c":
            return self.nib_restrict(p, 0xFFFF ^ (1 << q[1]))
        self.ndiff = self.ndiff | {(min(p[1], q[1]), max(p[1], q[1]))}
        return True

    def nib_check(self):
        while True:
            new = set()
            again = False
            for a, b in self.ndiff:
                p = self.nn(("n", a))
                q = self.nn(("n", b))
                if p == q:
                    return False
                if p[0] == "c" and q[0] == "c":
                    continue
                if p[0] == "c" or q[0] == "c":
                    if p[0] == "c":
                        p, q = q, p
                    o = self.mask(p)
                    m = o & ~(1 << q[1])
                    if m == 0:
                        return False
                    if m & (m - 1) == 0:
                        self.nsub[p[1]] = ("c", m.bit_length() - 1, 1)
                        again = True
                    else:
                        self.nmask[p[1]] = m
                    continue
                new.add((min(p[1], q[1]), max(p[1], q[1])))
            self.ndiff = frozenset(new)
            if not again:
                return True

    def nib_eq(self, p, q):
        p = self.nn(p)
        q = self.nn(q)
        if p == q:
            return True
        if not (self.mask(p) & self.mask(q)):
            return False
        if p[0] == "n" and q[0] == "n" and (min(p[1], q[1]), max(p[1], q[1])) in self.ndiff:
            return False
        raise Fork([lambda s: s.nib_bind(p, q), lambda s: s.nib_diff(p, q)])

    def nib_conc(self, p):
        p = self.nn(p)
        if p[0] == "c":
            return p[1]
        m = self.mask(p)
        ks = getattr(self.cfg, "follow", None) or range(16)
        raise Fork([(lambda s, k=k: s.nib_restrict(p, 1 << k)) for k in ks if (m >> k) & 1])

    def nib_split(self, p, pred):
        """truth of a predicate on the value of a nibble"""
        p = self.nn(p)
        m = self.mask(p)
        t = 0
        for k in range(16):
            if (m >> k) & 1 and pred(k):
                t |= 1 << k
        if t == m:
            return True
        if t == 0:
            return False
        raise Fork([lambda s: s.nib_restrict(p, t), lambda s: s.nib_restrict(p, m & ~t)])

    # ---- words ----
    def plen(self, p):
        k = p[0]
        if k == "c":
            return self.an(p[2])
        if k == "n":
            return 1
        return self.an(SEQ[p[1]])

    def wn(self, ps):
        """normal form of a word"""
        out = []
        work = list(reversed(ps))
        while work:
            p = work.pop()
            k = p[0]
            if k == "n":
                p = self.nn(p)
                k = p[0]
            if k == "c":
                l = self.an(p[2])
                if l == 0:
                    continue
                if out and out[-1][0] == "c" and out[-1][1] == p[1]:
                    out[-1] = ("c", p[1], self.an(lin.add(out[-1][2], l)))
                else:
                    out.append(("c", p[1], l))
                continue
            if k == "n":
                out.append(p)
                continue
            q = self.wsub.get(p[1])
            if q is not None:
                if k == "s":
                    work.extend(reversed(q))
                else:
                    work.extend(rev_pieces(q)[::-1])
                continue
            l = self.an(SEQ[p[1]])
            if l == 0:
                continue
            if l == 1:
                n = ("n", new_nib(SEQN[p[1]]))
                self.wsub[p[1]] = (n,)
                out.append(n)
                continue
            out.append(p)
        return tuple(out)

    def wlen(self, ps):
        r = 0
        for p in ps:
            r = lin.add(r, self.plen(p))
        return self.an(r)

    def seq(self, name, ln):
        """word consisting of one fresh sequence"""
        return (("s", new_seq(name, ln)),)

    def split_seq(self, sid, right):
        """sid := A.B with len(B) = right"""
        n = SEQN[sid]
        l = self.an(SEQ[sid])
        a = new_seq(n + "'", self.an(lin.sub(l, right)))
        b = new_seq(n + '"', right)
        self.wsub[sid] = (("s", a), ("s", b))

    def cut(self, ps, pos):
        """(hi, lo) with len(lo) = pos; pos must not exceed the length"""
        ps = self.wn(ps)
        pos = self.an(pos)
        i = len(ps)
        acc = 0
        guard = 0
        while True:
            guard += 1
            if guard > 2000:
                raise Undecided("cut")
            rem = self.an(lin.sub(pos, acc))
            if rem == 0 or (type(rem) is Aff and self.eq(rem, 0)):
                return ps[:i], ps[i:]
            if i == 0:
                raise Undecided("cut beyond the word")
            p = ps[i - 1]
            l = self.plen(p)
            if self.le(l, rem):
                acc = self.an(lin.add(acc, l))
                i -= 1
                continue
            if p[0] == "c":
                return ps[: i - 1] + (("c", p[1], self.an(lin.sub(l, rem))),), (("c", p[1], rem),) + ps[i:]
            if p[0] == "s":
                self.split_seq(p[1], rem)
            elif p[0] == "r":
                self.split_seq(p[1], self.an(lin.sub(l, rem)))
            n = len(ps) - i
            ps = self.wn(ps)
            i = len(ps)
            acc = 0

    def head(self, p, l):
        """(first l nibbles of a longer piece, the rest)"""
        if p[0] == "c":
            return ("c", p[1], l), (("c", p[1], self.an(lin.sub(p[2], l))),)
        self.split_seq(p[1], self.an(lin.sub(self.plen(p), l)))
        q = self.wn((p,))
        return q[0], q[1:]

    def relate(self, u, v):
        """how two words compare from the front:
        ('eq',) | ('u',rest) u is longer | ('v',rest) | ('ne', prefix, x, y, ru, rv)"""
        pre = ()
        u = self.wn(u)
        v = self.wn(v)
        guard = 0
        while True:
            guard += 1
            if guard > 400:
                raise Undecided("relate")
            if not u and not v:
                return ("eq",)
            if not u or not v:
                w = u or v
                l = self.wlen(w)
                if self.eq(l, 0):
                    return ("eq",)
                return ("u", u) if u else ("v", v)
            a, b = u[0], v[0]
            if a == b and a[0] != "c":
                pre += (a,)
                u = u[1:]
                v = v[1:]
                continue
            if a[0] == "c" and b[0] == "c" and a[1] == b[1]:
                if a[2] == b[2]:
                    pre += (a,)
                    u = u[1:]
                    v = v[1:]
                    continue
            la, lb = self.plen(a), self.plen(b)
            if a[0] == "r" or b[0] == "r":
                p, l = (a, la) if a[0] == "r" else (b, lb)
                if type(l) is Aff:
                    # decided for short sequences only
                    if not any(self.eq(l, n) for n in range(4)):
                        raise Undecided("comparison with a reversed sequence")
                elif l > 1:
                    self.head(p, 1)
                u, v = self.wn(u), self.wn(v)
                continue
            # both heads non-empty?
            if type(la) is Aff and self.eq(la, 0):
                u = self.wn(u)
                continue
            if type(lb) is Aff and self.eq(lb, 0):
                v = self.wn(v)
                continue
            ru, rv = u[1:], v[1:]
            if la != lb and not self.eq(la, lb):
                if self.le(la, lb):
                    b, more = self.head(b, la)
                    rv = more + rv
                else:
                    a, more = self.head(a, lb)
                    ru = more + ru
                la, lb = self.plen(a), self.plen(b)
            if a[0] != "s" and b[0] != "s":
                # runs or single nibbles
                if la == 1 or lb == 1:
                    a, b = [("c", x[1], 1) if x[0] == "c" else x for x in (a, b)]
                    if self.nib_eq(a, b):
                        pre += (a,)
                        u = self.wn(ru)
                        v = self.wn(rv)
                        continue
                    return ("ne", pre, a, b, ru, rv)
                if a[0] == "c" and b[0] == "c":
                    if a[1] == b[1]:
                        pre += (a,)
                        u = self.wn(ru)
                        v = self.wn(rv)
                        continue
                    l1 = self.an(lin.sub(la, 1))
                    return ("ne", pre, ("c", a[1], 1), ("c", b[1], 1), (("c", a[1], l1),) + ru, (("c", b[1], l1),) + rv)
                raise Undecided("relate")
            if a == b:
                pre += (a,)
                u = self.wn(ru)
                v = self.wn(rv)
                continue

            def same(s, a=a, b=b):
                x, y = (a, b) if a[0] == "s" else (b, a)
                if y[0] == "s" and y[1] > x[1]:
                    x, y = y, x
                s.wsub[x[1]] = (y,)

            def differ(s, a=a, b=b, la=la):
                m = len(lin.NAMES)
                p = s.length("p%d" % m, 0, None)
                r = s.an(lin.sub(lin.sub(la, p), 1))
                if not s.ge0(r):
                    return False
                if a[0] == "s" and b[0] == "s":
                    P = ("s", new_seq("P%d" % m, p))
                else:
                    c = a if a[0] == "c" else b
                    P = ("c", c[1], p)
                ns = []
                for w in (a, b):
                    if w[0] == "s":
                        x = ("n", new_nib(SEQN[w[1]] + "[%d]" % m))
                        s.wsub[w[1]] = (P, x, ("s", new_seq(SEQN[w[1]] + "'", r)))
                    else:
                        x = ("c", w[1], 1)
                    ns.append(x)
                return s.nib_diff(ns[0], ns[1])

            raise Fork([same, differ])

    def words_eq(self, u, v):
        return self.relate(u, v)[0] == "eq"


def rev_pieces(ps):
    out = []
    for p in reversed(ps):
        if p[0] == "s":
            out.append(("r", p[1]))
        elif p[0] == "r":
            out.append(("s", p[1]))
        else:
            out.append(p)
    return out


# ---- fixed width integers given as words ----


def int_pieces(v, n):
    """n nibbles of a non-negative int, most significant first"""
    out = []
    for i in range(n - 1, -1, -1):
        x = (v >> (4 * i)) & 15
        if out and out[-1][1] == x:
            out[-1] = ("c", x, out[-1][2] + 1)
        else:
            out.append(("c", x, 1))
    return tuple(out)


def pieces(v, n):
    if type(v) is W:
        return v.p
    if type(v) is int:
        return int_pieces(v, n)
    raise Undecided("word of %r" % (v,))


def fixed(st, v, n):
    """exactly n nibbles"""
    if type(v) is int:
        return int_pieces(v, n)
    if type(v) is not W:
        raise Undecided("word of %r" % (v,))
    ps = st.wn(v.p)
    l = st.wlen(ps)
    d = st.an(lin.sub(n, l))
    if type(d) is int and d < 0:
        raise Undecided("word longer than its type")
    return st.wn((("c", 0, d),) + ps)


def from_pieces(st, ps):
    """integer value of a word: leading zeros dropped, int when constant"""
    ps = st.wn(ps)
    while ps and ps[0][0] == "c" and ps[0][1] == 0:
        ps = ps[1:]
    v = 0
    for p in ps:
        if p[0] != "c" or type(p[2]) is not int:
            return W(ps)
        for _ in range(p[2]):
            v = v * 16 + p[1]
    return v


def nib4(st, amt):
    """a bit amount as a number of nibbles, or None if it is not aligned"""
    q, r = st.divmod(amt, 4)
    if type(r) is not int:
        r = st.conc(r)
    return q if r == 0 else None


def w_shl(st, v, amt, n):
    if type(v) is int and type(amt) is int:
        return (v << amt) & ((1 << (4 * n)) - 1) if amt < 4 * n else 0
    k = nib4(st, amt)
    if k is None:
        return w_shl(st, w_conc(st, v), st.conc(amt), n)
    if type(k) is not int and not st.lt(k, n):
        return 0
    if type(k) is int and k >= n:
        return 0
    ps = fixed(st, v, n)
    _, lo = st.cut(ps, st.an(lin.sub(n, k)))
    return from_pieces(st, lo + (("c", 0, k),))


def w_shr(st, v, amt, n):
    if type(v) is int and type(amt) is int:
        return v >> amt
    k = nib4(st, amt)
    if k is None:
        return w_shr(st, w_conc(st, v), st.conc(amt), n)
    if type(k) is not int and not st.lt(k, n):
        return 0
    if type(k) is int and k >= n:
        return 0
    ps = fixed(st, v, n)
    hi, _ = st.cut(ps, k)
    return from_pieces(st, hi)


def w_not(st, v, n):
    m = (1 << (4 * n)) - 1
    if type(v) is int:
        return v ^ m
    out = []
    for p in fixed(st, v, n):
        if p[0] != "c":
            raise Undecided("complement of key material")
        out.append(("c", 15 - p[1], p[2]))
    return from_pieces(st, tuple(out))


def align(st, u, v):
    """segments (pu, pv) of equal length, most significant first"""
    u = list(st.wn(u))
    v = list(st.wn(v))
    out = []
    guard = 0
    while u and v:
        guard += 1
        if guard > 2000:
            raise Undecided("align")
        a, b = u.pop(), v.pop()
        na, nb = st.wn((a,)), st.wn((b,))
        if na != (a,) or nb != (b,):
            u.extend(na)
            v.extend(nb)
            continue
        la, lb = st.plen(a), st.plen(b)
        if la == lb:
            out.append((a, b))
        elif st.le(la, lb):
            if st.eq(la, lb):
                out.append((a, b))
                continue
            hi, lo = st.cut((b,), la)
            v.extend(hi)
            v.extend(lo)
            u.append(a)
        else:
            hi, lo = st.cut((a,), lb)
            u.extend(hi)
            u.extend(lo)
            v.append(b)
    for w in (u, v):
        if w and st.an(st.wlen(st.wn(w))) != 0:
            raise Undecided("words of different lengths")
    out.reverse()
    return out


def w_bits(st, op, a, b, n):
    if type(a) is int and type(b) is int:
        return a & b if op == "and" else a | b if op == "or" else a ^ b
    segs = align(st, fixed(st, a, n), fixed(st, b, n))
    out = []
    for p, q in segs:
        p1, q1 = st.wn((p,)), st.wn((q,))
        if not p1 or not q1:
            continue
        if len(p1) == 1 and len(q1) == 1:
            p, q = p1[0], q1[0]
        if p[0] != "c":
            p, q = q, p
        if p[0] == "c":
            x = p[1]
            if q[0] == "c":
                y = q[1]
                out.append(("c", x & y if op == "and" else x | y if op == "or" else x ^ y, p[2]))
                continue
            if op == "and" and x == 0:
                out.append(p)
                continue
            if (op == "and" and x == 15) or (op != "and" and x == 0):
                out.append(q)
                continue
            if op == "or" and x == 15:
                out.append(p)
                continue
            if q[0] == "n":
                y = st.nib_conc(q)
                out.append(("c", x & y if op == "and" else x | y if op == "or" else x ^ y, 1))
                continue
            raise Undecided("bit operation on key material")
        if p == q:
            out.append(p if op != "xor" else ("c", 0, st.plen(p)))
            continue
        if p[0] == "n" and q[0] == "n":
            x, y = st.nib_conc(p), st.nib_conc(q)
            out.append(("c", x & y if op == "and" else x | y if op == "or" else x ^ y, 1))
            continue
        raise Undecided("bit operation on two unknown words")
    return from_pieces(st, tuple(out))


def w_conc(st, v):
    """concrete value of a word of few nibbles"""
    if type(v) is int:
        return v
    if type(v) is Aff:
        return st.conc(v)
    if type(v) is not W:
        raise Undecided("concrete value of %r" % (v,))
    r = 0
    ps = st.wn(v.p)
    if sum(1 for p in ps if p[0] == "n") > 4:
        raise Undecided("concrete value of a long word")
    for p in ps:
        if p[0] == "c":
            for _ in range(st.conc(p[2])):
                r = r * 16 + p[1]
        elif p[0] == "n":
            r = r * 16 + st.nib_conc(p)
        else:
            raise Undecided("concrete value of a sequence")
    return r


def w_range(st, v):
    """(min, max) of a word of known length, or None"""
    lo = hi = 0
    for p in st.wn(v.p):
        l = st.plen(p)
        if type(l) is not int:
            return None
        for _ in range(l):
            if p[0] == "c":
                a = b = p[1]
            elif p[0] == "n":
                m = st.mask(p)
                a = (m & -m).bit_length() - 1
                b = m.bit_length() - 1
            else:
                a, b = 0, 15
            lo = lo * 16 + a
            hi = hi * 16 + b
    return lo, hi


def w_eq(st, a, b, n):
    if type(a) is int and type(b) is int:
        return a == b
    if type(a) is Aff or type(b) is Aff:
        if type(a) is W:
            a = w_conc(st, a)
        if type(b) is W:
            b = w_conc(st, b)
        return st.eq(a, b)
    return st.words_eq(fixed(st, a, n), fixed(st, b, n))


def w_le(st, a, b, n):
    """a <= b"""
    if type(a) is int and type(b) is int:
        return a <= b
    if type(a) is Aff or type(b) is Aff:
        if type(a) is W:
            a = w_conc(st, a)
        if type(b) is W:
            b = w_conc(st, b)
        return st.le(a, b)
    ra = w_range(st, a) if type(a) is W else (a, a)
    rb = w_range(st, b) if type(b) is W else (b, b)
    if ra and rb:
        if ra[1] <= rb[0]:
            return True
        if ra[0] > rb[1]:
            return False
    if type(b) is int and type(a) is W and len(a.p) == 1 and a.p[0][0] == "n":
        return st.nib_split(a.p[0], lambda x: x <= b)
    if type(a) is int and type(b) is W and len(b.p) == 1 and b.p[0][0] == "n":
        return st.nib_split(b.p[0], lambda x: a <= x)
    r = st.relate(fixed(st, a, n), fixed(st, b, n))
    if r[0] == "eq":
        return True
    x, y = st.nn(r[2]), st.nn(r[3])
    if x[0] == "c":
        return st.nib_split(y, lambda k: x[1] < k)
    if y[0] == "c":
        return st.nib_split(x, lambda k: k < y[1])
    return st.nib_conc(x) < st.nib_conc(y)


def w_bitlen(st, v, n):
    """number of significant bits"""
    if type(v) is int:
        return v.bit_length()
    ps = st.wn(v.p)
    while ps:
        p = ps[0]
        if p[0] == "c":
            if p[1] == 0:
                ps = ps[1:]
                continue
            return st.an(lin.add(lin.scale(st.wlen(ps), 4), p[1].bit_length() - 4))
        if p[0] == "n":
            if st.nib_split(p, lambda k: k == 0):
                ps = st.wn(ps)
                continue
            for b in (8, 4, 2):
                if st.nib_split(p, lambda k: k >= b):
                    return st.an(lin.add(lin.scale(st.wlen(ps), 4), b.bit_length() - 4))
            return st.an(lin.add(lin.scale(st.wlen(ps), 4), -3))
        if p[0] == "s":

            def zero(s, p=p):
                s.wsub[p[1]] = (("c", 0, SEQ[p[1]]),)

            def nonzero(s, p=p):
                m = len(lin.NAMES)
                l = s.length("z%d" % m, 0, None)
                r = s.an(lin.sub(lin.sub(SEQ[p[1]], l), 1))
                if not s.ge0(r):
                    return False
                x = ("n", new_nib(SEQN[p[1]] + "[z]"))
                s.wsub[p[1]] = (("c", 0, l), x, ("s", new_seq(SEQN[p[1]] + "'", r)))
                return s.nib_diff(x, ("c", 0, 1))

            raise Fork([zero, nonzero])
        raise Undecided("bit length of a reversed sequence")
    return 0


def w_dec(st, v, n):
    """v - 1; None when v is zero"""
    if type(v) is int:
        return v - 1 if v else None
    ps = list(fixed(st, v, n))
    low = 0
    while ps:
        p = ps.pop()
        if p[0] == "c" and p[1] == 0:
            low = lin.add(low, p[2])
            continue
        if p[0] == "c":
            l = st.an(p[2])
            if type(l) is not int and st.eq(l, 0):
                continue
            out = ps + [("c", p[1], lin.sub(l, 1)), ("c", p[1] - 1, 1), ("c", 15, st.an(low))]
            return from_pieces(st, tuple(out))
        raise Undecided("subtraction from key material")
    return None
