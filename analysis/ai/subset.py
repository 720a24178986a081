"""Obligations of trie subsets, on tries of bounded height.

Kinds of findings: v a visited node is missing or another part is neither kept
nor replaced by its hash, x a part is kept although no key needs it."""
from . import contracts
from .hashing import INTERN
from . import shapes
from .iters import bounded
from .ops import show_panic
from .trie import *


class SubsetCfg(TrieCfg):
    def hash_intern(self, I, st, a, cx):
        """reference to an input node or a copy of one"""
        if len(a) != 1:
            return NotImplemented
        n = self.node_name(I, st, a[0])
        if n is None:
            r = self.resolve(I, st, a[0])
            if type(r) is tuple or self.bit[r.v] != E:
                return NotImplemented
            small = True
        else:
            small = self.is_small(st, n)
        if n is not None and self.kind(st, n) == H:
            h = I.expand(st, SymNode(n, self.N)).f[0].f[0]
        else:
            h = SBytes(("H", n), 32)
        for i, v in enumerate(I.types[cx.dty][4]):
            if v[0] == ("Raw" if small else "Hashed"):
                return Adt(cx.dty, i, (SBytes(("E", n), None) if small else h,))
        raise Undecided("encoded node")


class SSetup(TSetup):
    def __init__(self, I, tag):
        self.I = I
        self.C = SubsetCfg(I, tag, "subset")
        self.st = State(self.C)
        self.show = []
        n = 0
        for f in I.fns:
            if f.deff.endswith(INTERN):
                self.C.hooks[f.deff] = self.C.hash_intern
                n += 1
        if not n:
            raise RuntimeError("no implementation of hash_intern")


def walk(C, I, st, name, k, out):
    """nodes a lookup visits; True if the key leads into a hash node"""
    n = look(C, I, st, name)
    if n is None:
        raise Undecided("a node is not looked at")
    out.add(name)
    b = C.bit[n.v]
    g = lambda f: n.f[C.fi[b][f]]
    k = st.wn(k)
    if b == H:
        return not st.eq(st.wlen(k), 0)
    if b == X:
        r = st.relate(C.word(st, g("nibbles")), k)
        if r[0] in ("eq", "v"):
            return walk(C, I, st, name + ".x", r[1] if r[0] == "v" else (), out)
    if b == B and not st.eq(st.wlen(k), 0):
        x, rest = first(st, k)
        return walk(C, I, st, "%s.%x" % (name, x), rest, out)
    return False


def kept(C, I, st, name, v, seen):
    """None or (kind, text) of the part of a subset that stands for an input node"""
    n = look(C, I, st, name)
    if n is None:
        raise Undecided("a node is not looked at")
    r = C.resolve(I, st, v)
    if type(r) is tuple:
        raise Undecided("a shared node")
    b, rb = C.bit[n.v], C.bit[r.v]
    extra = None
    if name not in seen:
        if rb == H and b != H:
            if C.vkey(I, st, r.f[0].f[0]) != ("S", ("H", name)):
                return ("v", "a hashed out %s node has another hash" % KN[b])
            if C.is_small(st, name):
                return ("v", "a %s node that is embedded in its parent is hashed out" % KN[b])
            return None
        if b != H and not C.is_small(st, name):
            extra = ("x", "a %s node is kept although no key needs it" % KN[b])
    if b != rb:
        return ("v", "a %s node %s is replaced by a %s node" % (KN[b], "on the path of a key" if name in seen else "", KN[rb]))
    g = lambda m, f: m.f[C.fi[b][f]]
    if b == H and C.vkey(I, st, r.f[0].f[0]) != C.vkey(I, st, n.f[0].f[0]):
        return ("v", "a hash node has another hash")
    if b in (X, L) and not st.words_eq(C.word(st, g(n, "nibbles")), C.word(st, g(r, "nibbles"))):
        return ("v", "the nibbles of a %s node differ" % KN[b])
    if b in (B, L) and C.vkey(I, st, g(n, "value")) != C.vkey(I, st, g(r, "value")):
        return ("v", "the value of a %s node differs" % KN[b])
    sub = []
    if b == X:
        sub = [(name + ".x", g(r, "child"))]
    elif b == B:
        ch = g(r, "children")
        ch = I.flat(st, ch) if type(ch) is Over else ch
        sub = [("%s.%x" % (name, i), c) for i, c in enumerate(ch.e)]
    for m, c in sub:
        e = kept(C, I, st, m, c, seen)
        if e is not None and e[0] == "v":
            return e
        extra = extra or e
    return extra


def subset_ob(tag, levels, pats, deep, sets, kind=ALL, root=None):
    """sets: names of the keys of each subset. Of several keys only those are
    followed that go to occupied slots or to one free slot; the same holds for
    higher tries."""
    multi = len(sets) > 1

    def run(I, first=False):
        S = SSetup(I, tag)
        bounded(S, levels, pats, deep)
        C = S.C
        t = S.trie(kind=kind)
        keys = {}
        if sum(map(len, sets)) > 1 or len(levels) > 2:
            C.follow = sorted({i for p in (pats or []) + (deep or []) for i in p[0]} | {1})
        for s in sets:
            for n in s:
                if n not in keys:
                    keys[n] = S.key(n)
        vs = [VecV(tuple(keys[n][0] for n in s)) for s in sets]

        def spec(I, st):
            marks = []
            for s in sets:
                seen = set()
                for n in s:
                    if walk(C, I, st, "t", keys[n][1], seen):
                        return None
                marks.append(seen)
            if "panic" in st.extra:
                return ("p", "panics: " + show_panic(st))
            r = st.extra["ret"]
            if I.types[r.t][4][r.v][0] != "Ok":
                return ("v", "fails although no key leads into a hash node")
            out = r.f[0].e if multi else (r.f[0],)
            if len(out) != len(sets):
                return ("v", "%d subsets instead of %d" % (len(out), len(sets)))
            extra = None
            for i, (v, seen) in enumerate(zip(out, marks)):
                e = kept(C, I, st, "t", v, seen)
                if e is not None:
                    e = (e[0], e[1] + (" in subset %d" % (i + 1) if multi else ""))
                    if e[0] == "v":
                        return e
                    extra = extra or e
            return extra

        return judge(I, root or "%s::subset%s" % (tag, "s" if multi else ""), S, [t, VecV(tuple(vs)) if multi else vs[0]], spec, first=first)

    return run


def joint_ob(tag, levels, pats, deep, sets):
    """several subsets at once, compared with what a single one was shown to be"""
    single = subset_ob(tag, levels, pats, deep, [("k",)])
    joint = subset_ob(tag, levels, pats, deep, sets)

    def run(I, first=False):
        found, stats = single(I)
        if found or stats["undecided"]:
            return [], {"states": stats["states"], "undecided": stats["undecided"] or ["a single subset is not the exact one: " + found[0][1]]}
        found, s = joint(I, first)
        s["states"] += stats["states"]
        return found, s

    return run


def small(full):
    p = ((9,), True)
    out = [
        ("small root", [shapes.LOW], None, None),
        ("extension above a hash", [X, H], None, None),
        ("extension above a branch", [X, B, LOW_], None, [shapes.DEEP]),
        ("branch 9+value", [B, shapes.LOW], [p], None),
        ("branch 2e", [B, H | L], [((2, 14), False)], None),
        ("two branches", [B, B, LOW_], [p], [shapes.DEEP]),
    ]
    if full:
        out += [("branch 39+value", [B, ALL, LOW_], [((3, 9), True)], [shapes.DEEP]), ("three nodes", [B, X, B, LOW_], [p], [shapes.DEEP])]
    return out


# branches in which two keys reach distant slots
APART = [("branch 0f", [((0, 15), False)]), ("branch 19", [((1, 9), False)])]


def families(full):
    return [f for f in shapes.families(full) if f[1] != [B, L] and f[1] != [B, H]]


LOW_ = H | L
