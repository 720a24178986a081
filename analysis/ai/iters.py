"""Obligations of iteration, on tries of bounded height."""
from . import contracts
from .ops import ASSUME, show_panic
from .trie import *


def bounded(S, levels, pats, deep=None):
    """kinds per level and occupied slots of the branches"""
    C = S.C
    C.levels = levels
    C.patterns = pats
    C.deep = deep or pats
    contracts.install(C, S.I)


def items_ob(tag, levels, pats, deep=None, root=None):
    """items, then keys and values in the same order"""

    def run(I, first=False):
        order = {}
        found, stats = part("items", order)(I, first)
        for what in ("keys", "values"):
            f, s = part(what, order)(I, first)
            found += f
            stats["states"] += s["states"]
            stats["undecided"] += s["undecided"]
        return found, stats

    def part(what, order):
        def run(I, first=False):
            S = TSetup(I, tag, "iter")
            bounded(S, levels, pats, deep)
            C = S.C
            t = S.trie()

            def one(st, x):
                return (st.wn(C.word(st, x.f[0])), C.entry(I, st, x.f[1]))

            def spec(I, st):
                if "panic" in st.extra:
                    return ("p", "panics: " + show_panic(st))
                got = st.extra["ret"].e
                want = C.contents(I, st, SymNode("t", C.N))
                if what == "items":
                    got = [one(st, x) for x in got]
                    r = C.same(st, got, want)
                    if r:
                        return ("v", r)
                    o = tuple(v for _, v in got)
                    if order.setdefault(shape(C, st), o) != o:
                        order[shape(C, st)] = None
                    return None
                o = order.get(shape(C, st))
                if o is None:
                    raise Undecided("no order of the items")
                if what == "values":
                    if tuple(C.entry(I, st, x) for x in got) != o:
                        return ("v", "values are not those of the items in the same order")
                    return None
                if len(got) != len(o):
                    return ("v", "%d keys of %d items" % (len(got), len(o)))
                for x, v in zip(got, o):
                    w = [w for w, (k, y) in want if (k, y) == v]
                    if not st.words_eq(C.word(st, x), w[0]):
                        return ("v", "keys are not those of the items in the same order")

            return judge(I, (root or {}).get(what, tag + "::" + what), S, [t], spec, first=first)

        return run

    return run


def shape(C, st):
    """kinds of all nodes"""
    return tuple(sorted((n, e.v, type(e.f[C.fi[B]["value"]]) is SBytes if C.bit[e.v] == B else None) for n, e in st.exp.items() if not n.startswith("cell:")))
