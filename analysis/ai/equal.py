"""Obligation of equality: two unknown tries."""
from . import contracts
from .ops import cyclic, show_panic
from .trie import *


@summary("eq")
def sum_eq(C, I, st, g, p, args, cx):
    if len(p["node"]) != 2 or I.tname[cx.dty] != "bool":
        return NotImplemented
    n, m = sorted(p["node"])
    if n[0] == m[0]:
        return NotImplemented
    r = same_nodes(C, st, n, m)
    if r is None:
        r = C.fact(st, ("eq", n, m))
    add_rec(st, ("eq", n, m))
    return int(not r if g.name.endswith("::ne") else r)


def same_nodes(C, st, n, m):
    """truth of the equality of two nodes as far as known"""
    a, b = C.kind(st, n), C.kind(st, m)
    if not a & b:
        return False
    if a == E and b == E:
        return True
    return st.facts.get(("eq", n, m))


def conj(C, I, st, n, m):
    """the conditions for two looked at nodes to be equal: (known truth, how to find out)"""
    a, b = look(C, I, st, n), look(C, I, st, m)
    if a is None or b is None:
        r = same_nodes(C, st, n, m)
        return [(r, lambda: C.fact(st, ("eq", n, m)))]
    if a.v != b.v:
        return [(False, None)]
    k = C.bit[a.v]
    g = lambda x, f: x.f[C.fi[k][f]]
    if k == E:
        return []

    def term(x, y):
        x, y = (canon(st, freeze(I, st, I.elems_of(st, z))) for z in (x, y))
        if x == y:
            return (True, None)
        if ("B", ()) in (x, y):
            return (False, None)
        key = ("teq",) + tuple(sorted((x, y), key=repr))
        return (st.facts.get(key), lambda: C.fact(st, key))

    def word(x, y):
        return (None, lambda: st.words_eq(C.word(st, x), C.word(st, y)))

    if k == H:
        return [term(a.f[0].f[0], b.f[0].f[0])]
    if k == L:
        return [word(g(a, "nibbles"), g(b, "nibbles")), term(g(a, "value"), g(b, "value"))]
    if k == X:
        return [word(g(a, "nibbles"), g(b, "nibbles"))] + conj(C, I, st, n + ".x", m + ".x")
    out = [term(g(a, "value"), g(b, "value"))]
    for i in range(16):
        out += conj(C, I, st, "%s.%x" % (n, i), "%s.%x" % (m, i))
    return out


def spec_eq(C, I, st):
    cs = conj(C, I, st, "t", "u")
    if any(r is False for r, _ in cs):
        return False
    return all(r if r is not None else f() for r, f in cs)


def eq_ob(tag, fn, root=None):
    def run(I, first=False):
        S = TSetup(I, tag, "eq")
        contracts.install(S.C, I)
        C = S.C
        args = [S.trie(), S.trie("u")]
        if fn == "node_eq":
            args = [Ptr("N:t", (C.nf,)), Ptr("N:u", (C.nf,))]

        def at(C, I, st, k, v, ty):
            r = spec_eq(C, I, st)
            if v not in (int(r), int(not r)):
                return ("v", "no truth value")
            # equality or its negation
            s = st.extra.setdefault("sense", v == int(r))
            return None if s == (v == int(r)) else ("v", "mixed")

        def spec(I, st):
            if "panic" in st.extra:
                return ("p", "panics: " + show_panic(st))
            want = spec_eq(C, I, st)
            got = bool(st.extra["ret"]) != (fn == "ne")
            if got != want:
                return ("v", "%s tries compare as %s" % ("equal" if want else "different", "equal" if got else "different"))

        return judge(I, root or "%s::%s" % (tag, fn), S, args, spec, at, cyclic(I), first)

    return run
