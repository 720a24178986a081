"""Obligations of the trie statistics, on tries of bounded height."""
import math

from . import lin
from .iters import bounded
from .ops import show_panic
from .query import fields
from .trie import *

P = "eth_trie_utils::debug_tools::stats::"
NAMES = {E: "empty", H: "hash", B: "branch", X: "extension", L: "leaf"}


def count(C, I, st, name, depth, out):
    """numbers of nodes per kind and depths of hash and leaf nodes"""
    n = look(C, I, st, name)
    b = C.kind(st, name) if n is None else C.bit[n.v]
    if b not in KN or n is None and b in (B, X):
        raise Mismatch("a node is not looked at")
    out[b].append(depth)
    if b == X:
        count(C, I, st, name + ".x", depth + 1, out)
    elif b == B:
        for i in range(16):
            count(C, I, st, "%s.%x" % (name, i), depth + 1, out)
    return out


def number(v):
    """value of a floating point term"""
    k = v.key if type(v) is Sym else v
    if type(k) is int:
        return float(k)
    if type(k) is not tuple:
        raise Undecided("number %r" % (k,))
    if k[0] == "float":
        return number(k[1])
    if k[0] == "Div":
        a, b = number(k[1]), number(k[2])
        return a / b if b else math.nan if not a or math.isnan(a) else math.inf
    if k[0] in ("Add", "Sub", "Mul"):
        a, b = number(k[1]), number(k[2])
        return a + b if k[0] == "Add" else a - b if k[0] == "Sub" else a * b
    raise Undecided("number %r" % (k,))


def close(a, b):
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    return abs(a - b) <= 1e-5 * max(1.0, abs(b))


def average(ds):
    return sum(ds) / len(ds) if ds else math.nan


def stats_ob(tag, root, levels, pats, deep=None, named=False):
    def run(I, first=False):
        S = TSetup(I, tag, "stats")
        bounded(S, levels, pats, deep)
        C = S.C
        t = S.trie()
        T = I.tid[P + "TrieStats"]
        tf = fields(I, T)

        def spec(I, st):
            if "panic" in st.extra:
                return ("p", "panics: " + show_panic(st))
            r = st.extra["ret"]
            d = count(C, I, st, "t", 0, {b: [] for b in KN})
            c = r.f[tf["counts"]]
            cf = fields(I, c.t)
            for b, n in NAMES.items():
                g = c.f[cf[n]]
                if not st.eq(g, len(d[b])):
                    return ("v", "%s %s nodes are counted, there are %d" % (g, n, len(d[b])))
            x = r.f[tf["depth_stats"]]
            xf = fields(I, x.t)
            low = max(d[H] + d[L] + [0])
            if not st.eq(x.f[xf["lowest_depth"]], low):
                return ("v", "the lowest depth is %s, expected %d" % (x.f[xf["lowest_depth"]], low))
            for b in (L, H):
                g = number(x.f[xf["avg_%s_depth" % NAMES[b]]])
                # the average over no nodes is not a number
                if not close(g, average(d[b])) and d[b]:
                    return ("v", "the average depth of %s nodes is %.3f, expected %.3f" % (NAMES[b], g, average(d[b])))

        return judge(I, root, S, [t, Opaque("the name")] if named else [t], spec, first=first)

    return run


def compare_ob():
    """comparing two statistics pairs up equal fields"""

    def run(I, first=False):
        S = TSetup(I, "th", "stats")
        C = S.C
        st = S.st
        T = I.tid[P + "TrieStats"]
        nums = {}

        def value(t, pre):
            k = I.types[t]
            if I.tname[t] in ("usize", "u64", "u32"):
                n = nums[pre] = st.length("".join(pre), 0, 1 << 40)
                return n
            if k[0] == "float":
                n = nums[pre] = Sym(("num", pre))
                return n
            if k[0] == "adt" and k[2] == "struct" and I.tname[t].startswith(P):
                return Adt(t, 0, tuple(value(f[1], pre + (f[0],)) for f in k[4][0][2]))
            return Opaque("field")

        a = st.alloc(value(T, ("a",)))
        b = st.alloc(value(T, ("b",)))
        N = lambda w, f: nums[(w, "counts", f)]

        def total(w, empty):
            r = 0
            for n in NAMES.values():
                if n != "empty" or empty:
                    r = lin.add(r, N(w, n))
            return r

        want = {"tot_node_rat": lambda w: total(w, True), "non_empty_rat": lambda w: total(w, False)}
        for n in NAMES.values():
            want[n + "_rat"] = lambda w, n=n: N(w, n)
        for n in ("lowest_depth", "avg_leaf_depth", "avg_hash_depth"):
            want[n + "_rat"] = lambda w, n=n: nums[(w, "depth_stats", n)]

        def spec(I, st):
            if "panic" in st.extra:
                return ("p", "panics: " + show_panic(st))
            r = st.extra["ret"]
            seen = 0
            for part in r.f:
                for n, i in fields(I, part.t).items():
                    if n not in want:
                        raise Undecided("field " + n)
                    x = part.f[i]
                    f = fields(I, x.t)
                    for w in ("a", "b"):
                        g, e = x.f[f[w]], want[n](w)
                        if type(e) is Sym:
                            if type(g) is not Sym or g.key != e.key:
                                return ("v", "%s of the %s trie is wrong in the comparison" % (n, "first" if w == "a" else "second"))
                        elif type(g) is Sym or not st.eq(g, e):
                            return ("v", "%s of the %s trie is wrong in the comparison" % (n, "first" if w == "a" else "second"))
                        seen += 1
            if seen != 2 * len(want):
                raise Undecided("fields of the comparison")

        return judge(I, "dbg::stats_cmp", S, [Ptr(a, ()), Ptr(b, ())], spec, first=first)

    return run
