"""Obligations of the trie diff, on pairs of tries of bounded height.

The hash of a node is an unknown term; two of them are equal if the nodes have
equal parts. Whether a hash node stands for the other node is unknown."""
from . import lin, shapes
from .iters import bounded
from .ops import show_panic
from .query import fields, nib_is
from .trie import *

P = "eth_trie_utils::debug_tools::diff::"
TY = {E: "Empty", H: "Hash", B: "Branch", X: "Extension", L: "Leaf"}


class DiffCfg(TrieCfg):
    def hash(self, I, st, a, cx):
        if len(a) != 1:
            return NotImplemented
        n = self.node_name(I, st, a[0])
        if n is None:
            return NotImplemented
        if self.is_kind(st, n, H):
            return I.expand(st, SymNode(n, self.N)).f[0]
        return self.hashv(("H", n))

    def terms_equal(self, I, st, kx, ky):
        n, m = hashed(kx), hashed(ky)
        if n is None and m is None:
            return TrieCfg.terms_equal(self, I, st, kx, ky)
        if n is None or m is None or n[1:] != m[1:]:
            raise Undecided("hashes of different places are compared")
        return heq(self, I, st, *sorted((n, m)))


def hashed(k):
    """node of a hash"""
    return k[1][1] if k[0] == "S" and type(k[1]) is tuple and len(k[1]) == 2 and k[1][0] in ("H", "hash") else None


class DSetup(TSetup):
    def __init__(self, I):
        self.I = I
        self.C = DiffCfg(I, "th", "diff")
        self.st = State(self.C)
        self.show = []
        n = 0
        for f in I.fns:
            if f.deff.endswith("HashedPartialTrie as eth_trie_utils::partial_trie::PartialTrie>::hash") or f.deff.endswith("HashedPartialTrie::get_hash"):
                self.C.hooks[f.deff] = self.C.hash
                n += 1
        if not n:
            raise RuntimeError("hash functions not found")


def kind_of(C, st, n):
    for b in KN:
        if C.is_kind(st, n, b):
            return b


def part(C, I, st, n, f):
    e = I.expand(st, SymNode(n, C.N))
    return e.f[C.fi[C.bit[e.v]][f]]


def same_value(C, I, st, x, y):
    x, y = C.vkey(I, st, x), C.vkey(I, st, y)
    if x == y:
        return True
    if ("B", ()) in (x, y):
        return False
    return TrieCfg.terms_equal(C, I, st, x, y)


def same_piece(C, I, st, n, m):
    return st.words_eq(C.word(st, part(C, I, st, n, "nibbles")), C.word(st, part(C, I, st, m, "nibbles")))


def heq(C, I, st, n, m):
    """whether the hashes of two nodes are equal"""
    a, b = C.kind(st, n), C.kind(st, m)
    if not a & b and not (a | b) & H:
        return False
    a, b = kind_of(C, st, n), kind_of(C, st, m)
    if H in (a, b):
        # a hash node stands for a node with an encoding of at least 32 bytes
        return E not in (a, b) and C.fact(st, ("heq", n, m))
    if a != b or a == E:
        return a == b
    if a in (L, X) and not same_piece(C, I, st, n, m):
        return False
    if a == X:
        return heq(C, I, st, n + ".x", m + ".x")
    if not same_value(C, I, st, part(C, I, st, n, "value"), part(C, I, st, m, "value")):
        return False
    return a == L or all(heq(C, I, st, "%s.%x" % (n, i), "%s.%x" % (m, i)) for i in range(16))


def points(C, I, st, n, m, key, path):
    """lowest places at which the tries differ: (in structure, nodes, key, path)"""
    if heq(C, I, st, n, m):
        return []
    a, b = kind_of(C, st, n), kind_of(C, st, m)
    if a != b or a in (L, X) and not same_piece(C, I, st, n, m):
        return [(True, n, m, key, path)]
    if a == X:
        w = C.word(st, part(C, I, st, n, "nibbles"))
        return points(C, I, st, n + ".x", m + ".x", key + w, path + ((X, w),))
    out = []
    if a == B:
        for i in range(16):
            out += points(C, I, st, "%s.%x" % (n, i), "%s.%x" % (m, i), key + (("c", i, 1),), path + ((B, i),))
    return out or [(False, n, m, key, path)]


def check_path(C, I, st, got, want):
    if len(got) != len(want):
        return False
    for s, (k, x) in zip(got, want):
        if I.types[s.t][4][s.v][0] != TY[k]:
            return False
        if k == B and (s.f[0].v == 0 or not nib_is(st, s.f[0].f[0], x)):
            return False
        if k == X and not st.words_eq(C.word(st, s.f[0]), x):
            return False
    return True


def info(C, I, st, v, n, key, side):
    f = fields(I, v.t)
    b = kind_of(C, st, n)
    ty = v.f[f["node_type"]]
    if I.types[ty.t][4][ty.v][0] != TY[b]:
        return "wrong kind of the %s node" % side
    k = key + C.word(st, part(C, I, st, n, "nibbles")) if b in (X, L) else key
    if not st.words_eq(C.word(st, v.f[f["key"]]), st.wn(k)):
        return "wrong key of the %s node" % side
    x = v.f[f["value"]]
    if b in (B, L):
        w = C.vkey(I, st, part(C, I, st, n, "value"))
        if x.v == 0 and (b == L or w != ("B", ())) or x.v == 1 and C.vkey(I, st, x.f[0]) != w:
            return "wrong value of the %s node" % side
    elif x.v:
        return "a value of a %s node" % KN[b]
    h = C.vkey(I, st, v.f[f["hash"]].f[0])
    if hashed(h) != n:
        return "wrong hash of the %s node" % side


def check_point(C, I, st, p):
    """None or what is wrong with the reported point"""
    pts = points(C, I, st, "t", "u", (), ())
    if not pts:
        return "a difference of tries with equal hashes is reported"
    f = fields(I, p.t)
    g = lambda n: p.f[f[n]]
    got = g("path").f[0].e
    key = C.word(st, g("key"))
    for q in pts:
        struct, n, m, k, path = q
        k = st.wn(k)
        if C.kind(st, n) == H and C.kind(st, m) == H and len(got) == len(path) + 1 and check_path(C, I, st, got[:-1], path):
            # the hash nodes themselves may end the path
            if I.types[got[-1].t][4][got[-1].v][0] == "Hash":
                path = path + ((H, None),)
        if check_path(C, I, st, got, path):
            break
    else:
        return "the path leads to no lowest place at which the tries differ"
    if not st.words_eq(key, k):
        return "wrong key of the place"
    if not st.eq(g("depth"), len(path)):
        return "wrong depth of the place"
    r = info(C, I, st, g("a_info"), n, k, "first") or info(C, I, st, g("b_info"), m, k, "second")
    if r:
        return r
    if not struct and any(x[0] for x in pts):
        return "a difference in structure is not preferred"
    for x in pts:
        if x[0] == struct and not st.ge0(lin.sub(st.wlen(k), st.wlen(st.wn(x[3])))):
            return "a difference with a longer key is not preferred"


def diff_ob(a, b, root="dbg::diff"):
    """a, b: shapes of the two tries"""

    def run(I, first=False):
        S = DSetup(I)
        bounded(S, [ALL], None)
        C = S.C
        C.tree = shapes.tree("u", b, shapes.tree("t", a))
        args = [S.trie(), S.trie("u")]

        def spec(I, st):
            if "panic" in st.extra:
                return ("p", "panics: " + show_panic(st))
            r = st.extra["ret"]
            o = r.f[fields(I, r.t)["latest_diff_res"]]
            if o.v == 0:
                return None if heq(C, I, st, "t", "u") else ("v", "no difference of tries with different hashes is reported")
            e = check_point(C, I, st, o.f[0])
            return ("v", e) if e else None

        return judge(I, root, S, args, spec, first=first, limit=200000)

    return run


def pairs(full):
    br = lambda *c, v=True: (B, dict(c), v)
    ext = lambda c: (X, c)
    roots = [E, H, L, ext(H), br((9, L)), br((0, H), (15, L), v=False)]
    out = [(a, b) for a in roots for b in roots]
    for i in range(16):
        out.append((br((i, L)), br((i, L))))
        out.append((br((i, L)), br((i, H), v=False)))
        out.append((br((i, H)), br(((i + 1) % 16, H))))
    # a longer key may be the smaller number
    two = [br((0, L), (9, L)), br((0, H), (9, L)), br((0, ext(H)), (9, H)), br((0, ext(H)), (9, L)), br((0, L), (9, br((5, L)))), br((0, br((5, L))), (9, H)), br((0, br((5, L))), (9, L))]
    if full:
        two += [br((3, br((5, L))), (9, br((2, H), (7, L)))), br((3, ext(br((5, L)))), (9, br((5, L))))]
    out += [(a, b) for a in two for b in two]
    deep = [ext(br((5, L))), ext(br((5, H), v=False)), br((9, br((5, L)))), br((9, ext(br((5, H))))), br((9, br((5, ext(H)))))]
    out += [(a, b) for a in deep for b in deep]
    return [("%s / %s" % (shapes.show_tree(a), shapes.show_tree(b)), a, b) for a, b in out]
