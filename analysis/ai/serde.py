"""Serialising into a data format and back. The formats are in
harness/src/tokens.rs; implementations of serde for the types of other crates
(integers, byte vectors, Arc, arrays, U512, H256, locks) are taken to round
trip: their values pass through the format unchanged."""
import re

from . import lib, nib
from .lib import canon, freeze
from .ops import cyclic, show_panic
from .trie import *

SER = re.compile(r"impl serde::Serialize for (.*)>::serialize::<(.*)>$")
DE = re.compile(r"impl serde::Deserialize<'_> for (.*)>::deserialize::<(.*)>$")
STRING = "std::string::String"
VEC = "std::vec::Vec<u8>"
INT = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128}
SIMPLE = set(INT) | {STRING, VEC, "ethereum_types::U512", "ethereum_types::U256", "ethereum_types::H256"}


def ok(cx, v):
    return Adt(cx.dty, 0, (v,))


def error(I, cx):
    return Adt(cx.dty, 1, (Adt(I.types[cx.dty][3][1], 0, ()),))


def variant(I, cx, name):
    return [x[0] for x in I.types[I.types[cx.dty][3][0]][4]].index(name)


def foreign(I, st, a, cx):
    """serde implementation of a library type"""
    name = I.fns[cx.c["i"]].name
    m = SER.search(name)
    if m and m.group(2).startswith("vharness::tokens::Ser<"):
        ty, v = m.group(1), a[0]
        while ty.startswith("&"):
            ty, v = ty[1:], I.deref(st, v)
        if ty == "str":
            return NotImplemented
        v = I.deref(st, v)
        if ty == STRING:
            return ok(cx, Adt(I.types[cx.dty][3][0], variant(I, cx, "Str"), (v,)))
        return ok(cx, Adt(I.types[cx.dty][3][0], 0, (Adt(None, 0, (v, ty)),)))
    m = DE.search(name)
    if m and m.group(2).startswith("vharness::tokens::De<"):
        v = a[0].f[0]
        to = m.group(1)
        name = I.types[v.t][4][v.v][0]
        if name == "Any":
            x, ty = v.f[0].f
            if ty == to or ty in INT and to in INT and INT[ty] <= INT[to]:
                return ok(cx, x)
            if (ty in INT or to in INT) and {ty, to} <= SIMPLE:
                return error(I, cx)
            raise Undecided("%s is deserialised as %s" % (ty, to))
        if (name, to) in (("Str", STRING), ("Bytes", VEC), ("Bool", "bool")) or name == "U64" and to in ("u64", "usize"):
            return ok(cx, v.f[0])
        raise Undecided("%s is deserialised as %s" % (name, to))
    if m and "MissingFieldDeserializer<" in m.group(2) and "Option<" not in m.group(1):
        return error(I, cx)
    raise Undecided("serde of " + name)


def unknown(I, st, a, cx):
    raise Undecided("data format")


lib.B["serde"] = foreign
lib.B["vharness::tokens::prim_unknown"] = unknown


def round_ob(tag, root):
    """a trie goes through a format"""

    def run(I, first=False):
        S = TSetup(I, tag, "round")
        C = S.C

        def spec(I, st):
            if "panic" in st.extra:
                return ("p", "panics: " + show_panic(st))
            r = st.extra["ret"]
            if r.v != 0:
                return ("v", "is not deserialised")
            t = r.f[0]
            want = look(C, I, st, "t")
            got = t.f[C.nf]
            if type(got) is SymNode:
                if got.name != "t":
                    return ("v", "another node")
            elif want is None:
                raise Undecided("node was not looked at")
            else:
                d = differs(C, I, st, want, got, "t")
                if d:
                    return ("v", "%s node: %s" % (KN[C.bit[want.v]].lower(), d))
            if C.cf is not None:
                lock = I.root(st, t.f[C.cf].id)
                v = lock.v
                if type(v) is SymCell:
                    if v.name != "t":
                        return ("v", "cached hash of another node")
                elif v.v == 1:
                    h = canon(st, freeze(I, st, I.elems_of(st, v.f[0].f[0])))
                    if h != canon(st, ("S", ("H", "t"))):
                        return ("v", "another cached hash")

        return judge(I, root, S, [S.trie()], spec, None, cyclic(I), first)

    return run


def differs(C, I, st, a, b, name):
    """how a rebuilt node differs from the original"""
    if a.v != b.v:
        return "becomes another kind"
    k = C.bit[a.v]
    g = lambda x, f: x.f[C.fi[k][f]]

    def term(x, y):
        x, y = (canon(st, freeze(I, st, I.elems_of(st, z))) for z in (x, y))
        return x == y

    if k == H and not term(a.f[0].f[0], b.f[0].f[0]):
        return "another hash"
    if k in (L, X):
        x, y = g(a, "nibbles"), g(b, "nibbles")
        if not st.eq(x.f[C.ci], y.f[C.ci]) or not st.words_eq(C.word(st, x), C.word(st, y)):
            return "other nibbles"
    if k in (L, B) and not term(g(a, "value"), g(b, "value")):
        return "another value"
    if k == X and C.node_name(I, st, g(b, "child")) != name + ".x":
        return "another child"
    if k == B:
        for i, c in enumerate(I.elems_of(st, g(b, "children"))):
            if C.node_name(I, st, c) != "%s.%x" % (name, i):
                return "another child in slot %x" % i


def nibbles_setup(S):
    v, w = S.nibs("n")

    def spec(o):
        if o.panic:
            return ("p", "panics")
        if o.value.v != 0:
            return ("v", "is not deserialised")
        r = nib.same_nibs(o, o.value.f[0], w)
        return ("v", r) if r else None

    return [S.ref(v)], spec
