"""Obligations of path queries: the reported nodes are the visited ones.

A recursive call on a node below the root appends the (unknown) path of the
rest of the key in that node; that the recursive function does so for every
node and every path reported so far is an obligation of its own."""
from . import contracts
from .ops import ASSUME, cyclic, show_panic
from .trie import *

Q = "eth_trie_utils::debug_tools::query::"
TAIL = "tail"


def fields(I, t):
    return {f[0]: i for i, f in enumerate(I.types[t][4][0][2])}


class QueryCfg(TrieCfg):
    def __init__(self, I, tag):
        TrieCfg.__init__(self, I, tag, "query")
        self.O = I.tid[Q + "DebugQueryOutput"]
        self.of = fields(I, self.O)
        self.inline = False

    def roles(self, I, st, args):
        """(node, key, pointer to the output) among the arguments, or None"""
        node = key = out = None
        for a in args:
            n = self.node_name(I, st, a)
            v = I.deref(st, a) if type(a) is Ptr else a
            if n is not None and node is None:
                node = n
            elif type(v) is Adt and v.t == self.nt and key is None:
                key = (v, a if type(a) is Ptr else None)
            elif type(a) is Ptr and type(v) is Adt and v.t == self.O and out is None:
                out = a
            else:
                return None
        return (node, key, out) if node and key and out else None

    def recursion(self, I, st, g, args, cx):
        r = None if self.inline else self.roles(I, st, args)
        if r is None or "." not in r[0] or I.tname[cx.dty] != "()":
            return NotImplemented
        n, (k, kp), out = r
        if self.kind(st, n) == E:
            return NotImplemented
        w = st.wn(self.word(st, k))
        found = int(self.fact(st, ("found", n)))
        append(self, I, st, out, Adt(TAIL, n, (W(w),)), found)
        if kp is not None:
            I.store(st, kp.base, kp.path, Opaque("key after the call"))
        return UNIT


def append(C, I, st, out, x, found):
    v = I.deref(st, out)
    f = list(v.f)
    p = f[C.of["node_path"]]
    f[C.of["node_path"]] = Adt(p.t, p.v, (VecV(p.f[0].e + (x,)),))
    f[C.of["extra_node_info"]] = VecV(f[C.of["extra_node_info"]].e + (x,))
    if found:
        f[C.of["node_found"]] = 1
    I.store(st, out.base, out.path, Adt(v.t, v.v, tuple(f)))


class QSetup(TSetup):
    def __init__(self, I, tag):
        self.I = I
        self.C = QueryCfg(I, tag)
        self.st = State(self.C)
        self.show = []
        contracts.install(self.C, I)


def spec_path(C, I, st, name, k):
    """([(kind, piece, node) or tail], found)"""
    n = look(C, I, st, name)
    if n is None:
        if C.inline:
            raise Mismatch("a node on the path is not looked at")
        return [(TAIL, st.wn(k), name)], bool(st.facts.get(("found", name), False))
    b = C.bit[n.v]
    g = lambda f: n.f[C.fi[b][f]]
    k = st.wn(k)
    if b == E:
        return [(E, None, n)], False
    if b == H:
        return [(H, None, n)], st.eq(st.wlen(k), 0)
    if b == L:
        w = C.word(st, g("nibbles"))
        return [(L, st.wn(w), n)], st.words_eq(w, k)
    if b == X:
        w = C.word(st, g("nibbles"))
        r = st.relate(w, k)
        here = [(X, w, n)]
        if r[0] not in ("eq", "v"):
            return here, False
        p, f = spec_path(C, I, st, name + ".x", r[1] if r[0] == "v" else ())
        return here + p, f
    if st.eq(st.wlen(k), 0):
        return [(B, None, n)], True
    x, rest = first(st, k)
    p, f = spec_path(C, I, st, "%s.%x" % (name, x), rest)
    return [(B, x, n)] + p, f


def extra(C, I, st, v):
    """what an entry of the extra information says"""
    if type(v) is Adt and v.t == TAIL:
        return (TAIL, v.v)
    if v.v == 0:
        return None
    x = v.f[0]
    nm = I.types[x.t][4][x.v][0]
    if nm == "Branch":
        return (B, x.f[0])
    return ({"Hash": H, "Leaf": L}[nm], C.vkey(I, st, x.f[0].f[0] if nm == "Hash" else x.f[0]))


def want_extra(C, I, st, n):
    b = C.bit[n.v]
    g = lambda f: n.f[C.fi[b][f]]
    if b in (E, X):
        return None
    if b == H:
        return (H, C.vkey(I, st, n.f[0].f[0]))
    if b == L:
        return (L, C.vkey(I, st, g("value")))
    m = 0
    for i, c in enumerate(g("children").e):
        if C.is_kind(st, C.node_name(I, st, c), ALL & ~E):
            m |= 1 << i
    return (B, m)


def check_out(C, I, st, out, key, full, params, skip=0):
    """None or what is wrong with the output"""
    f = lambda n: out.f[C.of[n]]
    want, found = spec_path(C, I, st, "t", key)
    got = f("node_path").f[0].e[skip:]
    ex = f("extra_node_info").e[skip:]
    if len(got) != len(want):
        return ("v", "%d nodes are reported, a lookup visits %d" % (len(got), len(want)))
    if len(ex) != len(want):
        return ("v", "extra information of %d instead of %d nodes" % (len(ex), len(want)))
    for i, (s, x, (k, piece, n)) in enumerate(zip(got, ex, want)):
        if k == TAIL:
            if s.t != TAIL or s.v != n or not st.words_eq(s.f[0].p, piece):
                return ("v", "the path below %s is not reported" % n)
            continue
        if s.t == TAIL:
            return ("v", "the path of another node is reported")
        nm = I.types[s.t][4][s.v][0]
        if nm != KN[k]:
            return ("v", "node %d is reported as %s instead of %s" % (i, nm, KN[k]))
        if k == B:
            o = s.f[0]
            if o.v == 0 and piece is not None or o.v == 1 and (piece is None or not nib_is(st, o.f[0], piece)):
                return ("v", "wrong slot of a branch is reported")
        elif k in (X, L):
            if not st.words_eq(C.word(st, s.f[0]), piece):
                return ("v", "wrong nibbles of a %s are reported" % KN[k])
        if n is not None:
            w = want_extra(C, I, st, n)
            if extra(C, I, st, x) != w:
                return ("v", "extra information of a %s is wrong" % KN[k])
    if bool(f("node_found")) != bool(found):
        return ("v", "the node is reported as %sfound" % ("" if f("node_found") else "not "))
    if full:
        if not st.words_eq(C.word(st, f("k")), key):
            return ("v", "another key is reported")
        pv = f("params")
        pf = fields(I, pv.t)
        for n, w in params.items():
            if n in pf and pv.f[pf[n]] != w:
                return ("v", "the option %s is not respected" % n)
    return None


def nib_is(st, v, x):
    if type(v) is int:
        return v == x
    if type(v) is W:
        return st.words_eq(fixed(st, v, 2), (("c", 0, 1), ("c", x, 1)))
    return st.eq(v, x)


def query_ob(tag, root, pats, flags=None, kind=ALL, levels=None, deep=None):
    """levels: kinds per level of a trie of bounded height; the recursive calls are followed then"""
    names = ["include_key_piece_per_node", "include_node_type", "include_node_specific_values"]
    params = dict(zip(names, flags or (1, 1, 0)))

    def run(I, first=False):
        S = QSetup(I, tag)
        C = S.C
        C.patterns = pats
        C.levels = levels
        C.deep = deep
        C.inline = levels is not None
        t = S.trie(kind=kind)
        k, kw = S.key()

        def spec(I, st):
            if "panic" in st.extra:
                return ("p", "panics: " + show_panic(st))
            return check_out(C, I, st, st.extra["ret"], kw, True, params)

        return judge(I, root, S, [t, k] + list(flags or ()), spec, first=first)

    return run


def target(I, t):
    return I.types[t][1] if I.types[t][0] == "ref" else t


def step_fns(I, root, C):
    """recursive functions behind a root that take a node, a key and the output"""
    cg = I.dump.callgraph()
    seen = set()
    todo = [I.roots[root].idx]
    while todo:
        i = todo.pop()
        if i not in seen:
            seen.add(i)
            todo += cg[i]
    out = []
    for i in sorted(seen & cyclic(I)):
        f = I.fns[i]
        ts = [target(I, t) for t in f.locals[1 : f.argc + 1]]
        if sorted(x for x in ts if x in (C.N, C.T, C.nt, C.O)) == sorted(ts) and C.nt in ts and C.O in ts and len(ts) == 3:
            out.append((f, ts))
    return out


def step_ob(tag, root, pats, kind=ALL):
    """the recursive function for an arbitrary node, key and path so far"""

    def run(I, first=False):
        S = QSetup(I, tag)
        C = S.C
        C.patterns = pats
        fs = step_fns(I, root, C)
        if len(fs) != 1:
            return [], {"states": 0, "undecided": ["no single recursive function of a node, a key and the output"]}
        fn, ts = fs[0]
        t = S.trie(kind=kind)
        k, kw = S.key()
        pre = Adt(TAIL, "before", (W(()),))
        f = [None] * len(C.of)
        f[C.of["k"]] = Opaque("key")
        f[C.of["params"]] = Opaque("options")
        pt = dict((x[0], x[1]) for x in I.types[C.O][4][0][2])["node_path"]
        f[C.of["node_path"]] = Adt(pt, 0, (VecV((pre,)),))
        f[C.of["extra_node_info"]] = VecV((pre,))
        f[C.of["node_found"]] = 0
        ob = S.st.alloc(Adt(C.O, 0, tuple(f)))
        kb = S.st.alloc(k)
        args = []
        for i, x in enumerate(ts):
            byref = fn.locals[i + 1] != x
            if x == C.nt:
                args.append(Ptr(kb, ()) if byref else k)
            elif x == C.O:
                args.append(Ptr(ob, ()))
            else:
                args.append(Ptr("N:t", (C.nf,)) if x == C.N else t)

        def spec(I, st):
            if "panic" in st.extra:
                return ("p", "panics: " + show_panic(st))
            return check_out(C, I, st, st.heap[ob], kw, False, {}, 1)

        S.st.stack.clear()
        I.roots["~step"] = fn
        found, stats = judge(I, "~step", S, args, spec, first=first)
        if found:
            stats["undecided"].append("the recursive function does not mean what is assumed: " + found[0][1])
        return [], stats

    return run


def any_ob(tag, root, pats, kind):
    """a trie of any height: the step of the recursion, and the whole query where the step holds"""
    step = step_ob(tag, root, pats, kind)
    whole = query_ob(tag, root, pats, None, kind)

    def run(I, first=False):
        _, s = step(I)
        found, stats = whole(I, first)
        stats["states"] += s["states"]
        stats["undecided"] += s["undecided"]
        if found:
            # violations are reported on tries of bounded height
            stats["undecided"].append("differs for an unknown trie: " + found[0][1])
        return [], stats

    return run
