"""Obligations on nibble sequences: every operation against the list operation
it stands for, for sequences of unknown contents and length 0..64."""
from . import lin, lib
from .cfg import Cfg
from .dom import *
from .interp import Interp, analyse

MAXN = 64
U64 = (1 << 64) - 1


class Setup:
    """symbolic arguments"""

    def __init__(self, I):
        self.I = I
        self.st = State(Cfg())
        self.show = []
        self.nt = I.tid["eth_trie_utils::nibbles::Nibbles"]
        f = [x[0] for x in I.types[self.nt][4][0][2]]
        self.ci, self.pi = f.index("count"), f.index("packed")

    def mk(self, count, packed):
        f = [None, None]
        f[self.ci], f[self.pi] = count, UI(512, packed)
        return Adt(self.nt, 0, tuple(f))

    def nibs(self, name, hi=MAXN):
        """(value, word)"""
        n = self.st.length("|%s|" % name, 0, hi)
        w = self.st.seq(name, n)
        self.show.append((name, "w", w))
        return self.mk(n, W(w)), w

    def ref(self, v):
        return Ptr(self.st.alloc(v), ())

    def usize(self, name):
        v = self.st.length(name, 0, U64)
        self.show.append((name, "i", v))
        return v

    def word(self, name, n):
        """integer of n nibbles"""
        w = self.st.seq(name, n)
        self.show.append((name, "w", w))
        return W(w)

    def boolean(self, name):
        v = self.st.length(name, 0, 1)
        self.show.append((name, "i", v))
        return v

    def bytes(self, name, hi=None):
        """slice of unknown bytes: (pointer, word, number of bytes)"""
        n = self.st.length("|%s|" % name, 0, hi)
        w = self.st.seq(name, lin.scale(n, 2))
        self.show.append((name, "w", w))
        i = self.st.alloc(BytesW(w))
        return Ptr(i, (), 0, n), w, n


class Out:
    """what a call did"""

    __slots__ = ("I", "st", "S", "panic", "value")

    def __init__(self, I, st, S):
        self.I = I
        self.st = st
        self.S = S
        self.panic = st.extra.get("panic")
        self.value = st.extra.get("ret")

    def at(self, ptr):
        return self.I.deref(self.st, ptr)


def same_nibs(o, v, want, what="result"):
    """None if the Nibbles value v is the list `want`"""
    st = o.st
    c, p = v.f[o.S.ci], v.f[o.S.pi].v
    want = st.wn(want)
    n = st.wlen(want)
    if not st.eq(c, n):
        return "%s has count %s, expected %s" % (what, st.an(c), st.an(n))
    if not st.words_eq(fixed(st, p, 128), fixed(st, W(want), 128)):
        return "%s is %s, expected %s" % (what, show_val(st, p), show_word(st.wn(want)))
    return None


def show_val(st, p):
    return "%x" % p if type(p) is int else show_word(st.wn(p.p)) if type(p) is W else repr(p)


def same_int(o, v, want, n, what="result"):
    st = o.st
    if not w_eq(st, v, want, n):
        return "%s is %s, expected %s" % (what, show_val(st, v), show_val(st, want))
    return None


BAD = "returns for arguments that must panic"


def cutf(st, w, k):
    """(front of k nibbles, rest)"""
    return st.cut(w, st.an(lin.sub(st.wlen(st.wn(w)), k)))


def nib_arg(S, name):
    """u8 that may exceed 15: (value, low nibble word, high nibble word)"""
    w = S.word(name, 2)
    return w


def is_nib(st, v):
    hi, lo = st.cut(v.p, 1)
    if st.nib_eq(st.wn(hi)[0], ("c", 0, 1)):
        return lo
    return None


# Each obligation: root name -> setup returning (args, spec); spec(o) returns
# ('p', text) for a wrong panic behaviour, ('v', text) for a wrong value.

OBS = {}


def ob(*roots, key=None):
    def d(f):
        for r in roots:
            OBS[r] = (lambda S, r=r: f(S, r)) if len(roots) > 1 else (lambda S: f(S))
        return f

    return d


def guard(valid, o):
    """('p', …) when the call panics exactly on the wrong side"""
    if valid and o.panic:
        return ("p", "panics for valid arguments: %s" % (describe(o.panic),))
    if not valid and not o.panic:
        return ("p", BAD)
    return None


def describe(p):
    return " ".join(str(x) for x in p)


def val(x):
    return None if x is None else ("v", x)


@ob("nb::get_nibble")
def _(S):
    v, w = S.nibs("n")
    i = S.usize("i")

    def spec(o):
        st = o.st
        ok = st.lt(i, st.wlen(w))
        g = guard(ok, o)
        if g or not ok:
            return g
        _, rest = cutf(st, w, i)
        x, _ = cutf(st, rest, 1)
        return val(same_int(o, o.value, W(x), 2))

    return [S.ref(v), i], spec


@ob("nb::pop_next_nibble_front", "nb::pop_next_nibble_back")
def _(S, r):
    v, w = S.nibs("n")
    p = S.ref(v)
    front = r.endswith("front")

    def spec(o):
        st = o.st
        ok = st.lt(0, st.wlen(w))
        g = guard(ok, o)
        if g or not ok:
            return g
        if front:
            x, rest = cutf(st, w, 1)
        else:
            rest, x = st.cut(w, 1)
        return val(same_int(o, o.value, W(x), 2) or same_nibs(o, o.at(p), rest, "remaining sequence"))

    return [p], spec


@ob("nb::get_next_nibbles", "nb::pop_nibbles_front")
def _(S, r):
    v, w = S.nibs("n")
    k = S.usize("k")
    p = S.ref(v)

    def spec(o):
        st = o.st
        ok = st.le(k, st.wlen(w))
        g = guard(ok, o)
        if g or not ok:
            return g
        x, rest = cutf(st, w, k)
        return val(same_nibs(o, o.value, x) or same_nibs(o, o.at(p), rest if "pop" in r else w, "remaining sequence"))

    return [p, k], spec


@ob("nb::pop_nibbles_back")
def _(S):
    v, w = S.nibs("n")
    k = S.usize("k")
    p = S.ref(v)

    def spec(o):
        st = o.st
        ok = st.le(k, st.wlen(w))
        g = guard(ok, o)
        if g or not ok:
            return g
        rest, x = st.cut(w, k)
        return val(same_nibs(o, o.at(p), rest, "remaining sequence") or same_nibs(o, o.value, tuple(rev_pieces(st.wn(x)))))

    return [p, k], spec


@ob("nb::push_nibble_front", "nb::push_nibble_back", "nb::merge_nibble")
def _(S, r):
    v, w = S.nibs("n")
    b = S.word("v", 2)
    p = S.ref(v)

    def spec(o):
        st = o.st
        lo = is_nib(st, b)
        ok = lo is not None and st.lt(st.wlen(w), MAXN)
        g = guard(ok, o)
        if g or not ok:
            return g
        want = lo + w if r.endswith("front") else w + lo
        if r.endswith("merge_nibble"):
            return val(same_nibs(o, o.value, want))
        return val(same_nibs(o, o.at(p), want))

    return [p, b], spec


@ob("nb::push_nibbles_front", "nb::merge_nibbles")
def _(S, r):
    v, w = S.nibs("n")
    v2, w2 = S.nibs("m")
    p = S.ref(v)

    def spec(o):
        st = o.st
        ok = st.le(lin.add(st.wlen(w), st.wlen(w2)), MAXN)
        g = guard(ok, o)
        if g or not ok:
            return g
        if r.endswith("front"):
            return val(same_nibs(o, o.at(p), w2 + w))
        return val(same_nibs(o, o.value, w + w2))

    return [p, S.ref(v2)], spec


@ob("nb::get_nibble_range")
def _(S):
    v, w = S.nibs("n")
    a = S.usize("start")
    e = S.usize("end")

    def spec(o):
        st = o.st
        ok = st.le(a, e) and st.le(e, st.wlen(w))
        g = guard(ok, o)
        if g or not ok:
            return g
        x, _ = cutf(st, w, e)
        _, x = cutf(st, x, a)
        return val(same_nibs(o, o.value, x))

    return [S.ref(v), Adt(None, 0, (a, e))], spec


@ob("nb::truncate_n_nibbles_front", "nb::truncate_n_nibbles_back", "nb::truncate_n_nibbles_front_mut", "nb::truncate_n_nibbles_back_mut")
def _(S, r):
    v, w = S.nibs("n")
    k = S.usize("k")
    p = S.ref(v)

    def spec(o):
        st = o.st
        g = guard(True, o)
        if g:
            return g
        if not st.le(k, st.wlen(w)):
            want = ()
        elif "front" in r:
            _, want = cutf(st, w, k)
        else:
            want, _ = st.cut(w, k)
        return val(same_nibs(o, o.at(p) if r.endswith("mut") else o.value, want))

    return [p, k], spec


@ob("nb::is_empty")
def _(S):
    v, w = S.nibs("n")

    def spec(o):
        g = guard(True, o)
        if g:
            return g
        e = o.st.eq(o.st.wlen(w), 0)
        return val(None if bool(o.value) == e else "is_empty is %s for a sequence of length %s" % (bool(o.value), o.st.wlen(w)))

    return [S.ref(v)], spec


def rel_spec(S, w, w2, judge):
    def spec(o):
        g = guard(True, o)
        if g:
            return g
        return val(judge(o, o.st.relate(w, w2)))

    return spec


@ob("nb::identical_up_to")
def _(S):
    v, w = S.nibs("n")
    v2, w2 = S.nibs("m")

    def judge(o, r):
        want = r[0] != "ne"
        return None if bool(o.value) == want else "answers %s, expected %s" % (bool(o.value), want)

    return [S.ref(v), S.ref(v2)], rel_spec(S, w, w2, judge)


@ob("nb::eq")
def _(S):
    v, w = S.nibs("n")
    v2, w2 = S.nibs("m")

    def judge(o, r):
        want = r[0] == "eq"
        return None if bool(o.value) == want else "answers %s, expected %s" % (bool(o.value), want)

    return [S.ref(v), S.ref(v2)], rel_spec(S, w, w2, judge)


def diff_index(st, w, w2, r):
    if r[0] == "ne":
        return st.wlen(st.wn(r[1]))
    a, b = st.wlen(st.wn(w)), st.wlen(st.wn(w2))
    return a if st.le(a, b) else b


@ob("nb::diff_idx_any")
def _(S):
    v, w = S.nibs("n")
    v2, w2 = S.nibs("m")

    def judge(o, r):
        d = diff_index(o.st, w, w2, r)
        return None if o.st.eq(o.value, d) else "returns %s, first difference is at %s" % (o.st.an(o.value), o.st.an(d))

    return [S.ref(v), S.ref(v2)], rel_spec(S, w, w2, judge)


@ob("nb::diff_idx_eq")
def _(S):
    v, w = S.nibs("n")
    v2, w2 = S.nibs("m")

    def spec(o):
        st = o.st
        ok = st.eq(st.wlen(w), st.wlen(w2))
        g = guard(ok, o)
        if g or not ok:
            return g
        d = diff_index(st, w, w2, st.relate(w, w2))
        return val(None if st.eq(o.value, d) else "returns %s, first difference is at %s" % (st.an(o.value), st.an(d)))

    return [S.ref(v), S.ref(v2)], spec


@ob("nb::split_at_idx", "nb::split_at_idx_prefix", "nb::split_at_idx_postfix")
def _(S, r):
    v, w = S.nibs("n")
    k = S.usize("k")

    def spec(o):
        st = o.st
        ok = st.le(k, st.wlen(w))
        g = guard(ok, o)
        if g or not ok:
            return g
        a, b = cutf(st, w, k)
        if r.endswith("idx"):
            return val(same_nibs(o, o.value.f[0], a, "prefix") or same_nibs(o, o.value.f[1], b, "postfix"))
        return val(same_nibs(o, o.value, a if r.endswith("prefix") else b))

    return [S.ref(v), k], spec


@ob("nb::reverse")
def _(S):
    v, w = S.nibs("n")

    def spec(o):
        g = guard(True, o)
        if g:
            return g
        return val(same_nibs(o, o.value, tuple(rev_pieces(o.st.wn(w)))))

    return [S.ref(v)], spec


@ob("nb::from_nibble")
def _(S):
    b = S.word("v", 2)

    def spec(o):
        lo = is_nib(o.st, b)
        g = guard(lo is not None, o)
        if g or lo is None:
            return g
        return val(same_nibs(o, o.value, lo))

    return [b], spec


@ob("nb::clone")
def _(S):
    v, w = S.nibs("n")

    def spec(o):
        return guard(True, o) or val(same_nibs(o, o.value, w))

    return [S.ref(v)], spec


@ob("nb::default")
def _(S):
    return [], lambda o: guard(True, o) or val(same_nibs(o, o.value, ()))


@ob("nb::min_bytes")
def _(S):
    v, w = S.nibs("n")

    def spec(o):
        g = guard(True, o)
        if g:
            return g
        d = lin.sub(lin.scale(o.value, 2), o.st.wlen(w))  # 0 or 1
        ok = o.st.le(0, d) and o.st.le(d, 1)
        return val(None if ok else "min_bytes is %s for %s nibbles" % (o.st.an(o.value), o.st.wlen(w)))

    return [S.ref(v)], spec


# ---- driver ----


def witness(st, show, budget=4000):
    """a concrete instance of the symbolic arguments in st, or None if there is none"""
    if any(type(k) is tuple and k[0] == "unique" for k in st.facts):
        return None  # how often an Arc is shared is not tracked
    todo = [st.copy()]
    while todo and budget:
        budget -= 1
        s = todo.pop()
        try:
            out = []
            for name, k, v in show:
                if k == "i":
                    x = s.an(v)
                    if type(x) is not int:
                        lo, hi = s.bounds(x)
                        pick = lo if lo is not None else hi
                        if pick is None:
                            pick = 0
                        c = [pick, pick + 1] + ([hi] if hi is not None else [])
                        raise Fork([(lambda z, y=y: z.eq0(lin.sub(x, y))) for y in reversed(c)])
                    out.append("%s=%d" % (name, x))
                else:
                    t = ""
                    for p in s.wn(v):
                        l = s.plen(p)
                        if type(l) is not int:
                            lo, hi = s.bounds(l)
                            lo = max(lo or 0, 0)
                            hi = lo + 70 if hi is None else hi
                            raise Fork([(lambda z, y=y: z.eq0(lin.sub(l, y))) for y in range(min(hi, lo + 130), lo - 1, -1)])
                        if p[0] == "n":
                            t += "%x" % s.nib_conc(p)
                        elif p[0] == "c":
                            t += "%x" % p[1] * l
                        else:
                            t += "*" * l
                    out.append("%s=[%s]" % (name, t))
            # every remaining length must have a value as well
            for items, c in s.cons:
                for vv, _ in items:
                    a = s.an(lin.var(vv))
                    if type(a) is not int:
                        lo, hi = s.bounds(a)
                        lo = 0 if lo is None else lo
                        raise Fork([(lambda z, y=y: z.eq0(lin.sub(a, y))) for y in (lo + 1, lo)])
            return ", ".join(out)
        except Fork as f:
            for o in f.opts:
                s2 = s.copy()
                if o(s2) is not False:
                    todo.append(s2)
        except Undecided:
            pass
    return None


def judge(I, root, setup, joins=True, first=False):
    """analyses one obligation; yields (kind, text, witness) findings"""
    S = Setup(I)
    args, spec = setup(S)
    fn = I.roots[root]
    I.start(S.st, fn, args)
    found = []
    stats = {"states": 0, "undecided": []}

    def after(I, st):
        return spec(Out(I, st, S))

    for kind, v, st in analyse(I, S.st, after=after, joins=joins):
        stats["states"] += 1
        if kind == "undecided":
            stats["undecided"].append(v)
            continue
        if v is None:
            continue
        w = witness(st, S.show)
        if w is None:
            stats["undecided"].append("no instance found for: " + v[1])
            continue
        found.append((v[0], v[1], w, st))
        if first:
            break
    return found, stats
