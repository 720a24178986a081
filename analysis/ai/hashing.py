"""Obligations of hashing: the encoding of nodes and the cache cells."""
from . import contracts, lin, shapes
from .iters import bounded
from .ops import ASSUME, show_panic
from .trie import *

ASSUME = [
    ASSUME[0],
    "keccak has no collisions; rlp lists are determined by their items",
] + ASSUME[2:]
INTERN = "eth_trie_utils::partial_trie::TrieNodeIntern>::hash_intern"


def setup(I, tag, op="hash"):
    S = TSetup(I, tag, op)
    contracts.install(S.C, I, True)
    n = 0
    for f in I.fns:
        if f.deff.endswith(INTERN):
            S.C.hooks[f.deff] = S.C.hash_intern
            n += 1
    if not n:
        raise RuntimeError("no implementation of hash_intern")
    return S


def hp(st, w, leaf):
    q, r = st.divmod(st.wlen(w), 2)
    t = 2 if leaf else 0
    return ("s", ("B", st.wn(((("c", t + 1, 1),) if st.eq(r, 1) else (("c", t, 1), ("c", 0, 1))) + w)))


def encoding(C, I, st, n):
    """('hash', term) of a hash node or ('enc', term of the RLP encoding) of a looked at node"""
    b = C.bit[n.v]
    g = lambda f: n.f[C.fi[b][f]]
    if b == H:
        return ("hash", freeze(I, st, I.elems_of(st, n.f[0].f[0])))
    if b == E:
        return ("enc", ("B", st.wn((("c", 8, 1), ("c", 0, 1)))))
    if b == L:
        items = (hp(st, C.word(st, g("nibbles")), True), ("s", freeze(I, st, I.elems_of(st, g("value")))))
    elif b == X:
        items = (hp(st, C.word(st, g("nibbles")), False), child_ref(C, I, st, g("child")))
    else:
        v = g("value")
        ch = g("children")
        ch = I.flat(st, ch) if type(ch) is Over else ch
        items = tuple(child_ref(C, I, st, c) for c in ch.e)
        items += (("s", ("B", ()) if C.is_empty(I, st, v) else freeze(I, st, I.elems_of(st, v))),)
    return ("enc", ("S", ("rlp", len(items), items)))


def child_ref(C, I, st, c):
    n = C.node_name(I, st, c)
    if n is None:
        raise Undecided("reference to a new node")
    return ("ref", n)


def root_node(C, I, st, name):
    if name in st.exp:
        return st.exp[name]
    if C.kind(st, name) == E:
        return C.shape(E)
    raise Mismatch("node %s is not looked at" % name)


def kec(t):
    return ("S", ("kec", t))


def size(C, I, st, t):
    """(known length or None, lower bound) of an encoding"""
    if t[0] == "B":
        n = st.wlen(t[1])
        return n // 2 if type(n) is int else None, 0
    for k, v in st.facts.items():
        if k[0] == "len" and canon(st, k[1]) == t[1]:
            return v, 0
    low = 1
    for k, x in t[1][2]:
        low += 33 if k == "ref" and C.enc(st, x) == 2 else 1
    return None, low


def big(C, I, st, t):
    """(can have at least 32 bytes, can have fewer)"""
    n, low = size(C, I, st, t)
    if n is None:
        return True, low < 32
    if type(n) is int:
        return n >= 32, n < 32
    return not st.entails_ge0(lin.sub(31, n)), not st.entails_ge0(lin.sub(n, 32))


def hash_ob(tag, root=None, twice=False):
    def run(I, first=False):
        S = setup(I, tag)
        t = S.trie()
        C = S.C

        def one(I, st, v):
            got = canon(st, freeze(I, st, I.elems_of(st, v.f[0])))
            if got == kec_name("t"):
                return None  # the cached hash, right by assumption
            k, e = encoding(C, I, st, root_node(C, I, st, "t"))
            want = canon(st, e if k == "hash" else kec(e))
            if got != want:
                return ("v", "hash of a %s is %s, expected %s" % (KN[C.kind(st, "t")], show(got), show(want)))

        def spec(I, st):
            if "panic" in st.extra:
                return ("p", "panics: " + show_panic(st))
            v = st.extra["ret"]
            for x in v.f if twice else (v,):
                r = one(I, st, x)
                if r:
                    return r
            return cells(C, I, st)

        return judge(I, root or tag + "::hash" + ("_twice" if twice else ""), S, [t], spec, first=first)

    return run


def kec_name(n):
    return ("S", ("H", n))


def intern_ob(tag, root=None):
    def run(I, first=False):
        S = setup(I, tag)
        t = S.trie()
        C = S.C

        def spec(I, st):
            if "panic" in st.extra:
                return ("p", "panics: " + show_panic(st))
            v = st.extra["ret"]
            hashed = I.types[v.t][4][v.v][0] == "Hashed"
            got = canon(st, freeze(I, st, I.elems_of(st, v.f[0])))
            if got == kec_name("t"):
                return None if hashed else ("v", "hash used as an encoding")
            k, e = encoding(C, I, st, root_node(C, I, st, "t"))
            e = canon(st, e)
            nm = KN[C.kind(st, "t")]
            if k == "hash":
                if not hashed or got != e:
                    return ("v", "reference of a hash node is not its hash")
                return cells(C, I, st)
            up, lo = big(C, I, st, e)
            if hashed:
                if got != kec(e):
                    return ("v", "reference to a %s is %s, expected %s" % (nm, show(got), show(kec(e))))
                if lo:
                    return ("v", "a %s is referenced by hash although its encoding may have fewer than 32 bytes" % nm)
            else:
                if got != e:
                    return ("v", "encoding of a %s is %s, expected %s" % (nm, show(got), show(e)))
                if up:
                    return ("v", "a %s is embedded although its encoding may have 32 bytes or more" % nm)
            return cells(C, I, st)

        return judge(I, root or tag + "::hash_intern", S, [t], spec, first=first)

    return run


def show(t):
    s = str(t)
    return s if len(s) < 160 else s[:160] + "..."


# ---- cache cells ----
def structs(C, I, st, v, out, seen):
    """trie structs reachable from a value as (base or None, struct)"""
    t = type(v)
    if t is Ptr:
        if type(v.base) is not tuple:
            visit(C, I, st, v.base, out, seen)
            return
        structs(C, I, st, I.deref(st, v), out, seen)
    elif t in (ArcV, BoxV):
        visit(C, I, st, v.id, out, seen)
    elif t is Adt:
        if v.t == C.T:
            out.append((None, v))
        for x in v.f:
            structs(C, I, st, x, out, seen)
    elif t is Over:
        for x in v.base.e + tuple(x for _, x in v.o):
            structs(C, I, st, x, out, seen)
    elif isinstance(v, Arr):
        for x in v.e:
            structs(C, I, st, x, out, seen)


def visit(C, I, st, base, out, seen):
    if base in seen:
        return
    seen.add(base)
    v = st.heap.get(base)
    if v is None or type(v) is LockV:
        return  # an untouched input node
    if type(v) is Adt and v.t == C.T:
        out.append((base, v))
        v = v.f[C.nf]
        if type(v) is SymNode and v.name in st.exp:
            v = st.exp[v.name]
    structs(C, I, st, v, out, seen)


def cells(C, I, st, *extra):
    """None or what is wrong with a cache cell of a reachable node"""
    if C.cf is None:
        return None
    out = []
    seen = set()
    for b in ("N:t",) + tuple(x for x in extra if type(x) is str):
        if b in st.heap:
            visit(C, I, st, b, out, seen)
    for x in extra:
        if type(x) is not str:
            structs(C, I, st, x, out, seen)
    owner = {}
    for base, s in out:
        c = s.f[C.cf]
        if type(c) is not ArcV:
            raise Undecided("cache cell")
        if c.id in owner or in_use(C, st, base, c.id):
            return ("k", "two nodes share one cache cell")
        owner[c.id] = base
        r = cell_ok(C, I, st, s, c.id)
        if r:
            return ("k", r)
    return None


def in_use(C, st, base, cid):
    """is this the cell of an input node at another place"""
    if type(cid) is not str or base == "N:" + cid[2:]:
        return False
    s = st.heap.get("N:" + cid[2:])
    return s is None or s.f[C.cf].id == cid


def cell_ok(C, I, st, s, cid):
    lock = st.heap.get(cid)
    node = s.f[C.nf]
    name = node.name if type(node) is SymNode else C.copy_of(st, node) if type(node) is Adt else None
    if lock is None:
        lock = LockV(SymCell(cid[2:], C.opt)) if type(cid) is str and cid[:2] == "C:" else None
    if type(lock) is not LockV:
        raise Undecided("cache cell")
    v = lock.v
    if type(v) is SymCell:
        k = st.exp.get("cell:" + v.name)
        if k is not None and k.v == 0:
            return None
        if name == v.name:
            return None
        if type(node) is Adt and C.bit[node.v] == E and C.kind(st, v.name) == E:
            return None
        return "the cached hash of the former node is kept by a changed node"
    if type(v) is Adt and v.v == 0:
        return None
    got = canon(st, freeze(I, st, I.elems_of(st, v.f[0].f[0])))
    if got[0] == "S" and got[1][0] == "H" and len(got[1]) == 2:
        if name == got[1][1]:
            return None
        return "the cached hash is that of another node"
    n = st.exp.get(name) if name is not None else node if type(node) is Adt else None
    if n is None:
        raise Undecided("cached hash of a node that is not looked at")
    k, e = encoding(C, I, st, n)
    if got != canon(st, e if k == "hash" else kec(e)):
        return "a wrong hash is cached"
    if k == "enc" and big(C, I, st, canon(st, e))[1]:
        return "the hash of a node whose encoding may have fewer than 32 bytes is cached"
    return None


# ---- operations that must leave valid cells ----
def cells_after(C, I, st, t):
    return cells(C, I, st)


def plain_ob(tag, root, args, post, op="hash"):
    """post(C, I, st, panicked) on every outcome; args(S) builds the arguments"""

    def run(I, first=False):
        S = setup(I, tag, op)
        a = args(S)
        return judge(I, root, S, a, lambda I, st: post(S.C, I, st), first=first)

    return run


def post_cells(C, I, st):
    r = st.extra.get("ret")
    return cells(C, I, st, *([] if r is None else [r]))


def post_fresh(C, I, st):
    """a node handed out for writing: nothing may be cached above it"""
    if "panic" in st.extra:
        return None
    s = I.root(st, "N:t")
    v = I.root(st, s.f[C.cf].id).v
    if type(v) is SymCell:
        v = I.cell(st, v)
    if v.v != 0:
        return ("k", "the cached hash survives handing out the node for writing")
    return post_cells(C, I, st)


def unknown_node(S, name="u"):
    S.C.name(S.st, name, ALL, 64)
    return SymNode(name, S.C.N)


def entries(S, n):
    out = []
    S.want = []
    for i in range(n):
        k, w = S.key("k%d" % i)
        v = S.entry("val", "v%d" % i)
        out.append(Adt(None, 0, (k, v)))
        S.want.append((w, S.C.entry(S.I, S.st, v)))
    return VecV(tuple(out))


def cache_obs(I, root="th"):
    T = lambda S: [S.trie()]
    P = lambda n: "%s::%s" % (root, n)
    obs = [
        ("th new", plain_ob("th", P("new"), lambda S: [unknown_node(S)], post_cells)),
        ("th from_node", plain_ob("th", P("from_node"), lambda S: [unknown_node(S)], post_cells)),
        ("th default", plain_ob("th", P("default"), lambda S: [], post_cells)),
        ("th clone", plain_ob("th", P("clone"), T, post_cells)),
        ("th clone_from", plain_ob("th", P("clone_from"), lambda S: [S.trie(), S.trie("u")], post_cells)),
        ("th deref_mut", plain_ob("th", P("deref_mut"), T, post_fresh)),
        ("th deref_set", plain_ob("th", P("deref_set"), lambda S: [S.trie(), unknown_node(S)], post_cells)),
        ("th hash", hash_ob("th")),
        ("th hash_twice", hash_ob("th", twice=True)),
        ("th hash_intern", intern_ob("th")),
    ]
    for n in (0, 1, 2, 3):
        obs.append(("th extend, %d entries" % n, extend_ob("th", "extend", n, cells_after)))
        obs.append(("th from_iter, %d entries" % n, extend_ob("th", "from_iter", n, lambda C, I, st, t: post_cells(C, I, st))))
    return obs


# ---- several inserts ----
INSERT = "::trie_insert"


def extend_ob(tag, what, n, only=None, root=None, shape=None):
    """the insert at the root is replaced by a fresh node; the order of the inserts is recorded"""

    def run(I, first=False):
        S = setup(I, tag, "extend")
        C = S.C
        hooked = 0
        for f in I.fns:
            if f.deff.endswith(INSERT):
                C.hooks[f.deff] = insert_hook(C)
                hooked += 1
        if shape is not None:
            bounded(S, [ALL], None)
            C.tree = shapes.tree("t", shape)
        args = ([S.trie()] if what == "extend" else []) + [entries(S, n)]
        t = args[0]

        def spec(I, st):
            if only is not None:
                return only(C, I, st, t)
            ins = st.extra.get("ins", ())
            if "panic" in st.extra:
                if ins and ins[-1][3] is None:
                    return None
                return ("p", "panics: " + show_panic(st))
            res = t if what == "extend" else st.extra["ret"]
            name = C.node_name(I, st, res)
            if what != "extend" and not n:
                return None if C.bit.get(getattr(C.resolve(I, st, res), "v", None)) == E else ("v", "not empty")
            start = "t" if what == "extend" else "empty"
            got = []
            cur = name
            while cur != start:
                step = [x for x in ins if x[3] == cur]
                if not step:
                    return ("v", "the result is not made by inserts into the %s trie" % ("given" if what == "extend" else "empty"))
                got.insert(0, (step[0][1], step[0][2]))
                cur = step[0][0]
            if len(got) == n and all(v == x and st.wn(w) == st.wn(y) for (w, v), (y, x) in zip(got, S.want)):
                return None
            # another order is fine as long as the last entry of every key is the last one inserted
            last = lambda es, w: next((v for y, v in reversed(es) if st.words_eq(y, w)), None)
            for w, v in got:
                if last(S.want, w) is None:
                    return ("v", "another key is inserted")
            for w, v in S.want:
                if last(got, w) != last(S.want, w):
                    return ("v", "the result is not the one of inserting the %d entries one after the other" % n)

        if not hooked:
            return [], {"states": 0, "undecided": ["no function trie_insert"]}
        return judge(I, root or "%s::%s" % (tag, what), S, args, spec, first=first)

    return run


def insert_hook(C):
    def f(I, st, a, cx):
        if len(a) != 3 or type(a[0]) is not Ptr:
            return NotImplemented
        w = I.deref(st, a[0])
        if type(w) is Adt and w.t == C.T:
            raise Undecided("insert into a trie")
        r = C.resolve(I, st, w)
        prev = C.node_name(I, st, w)
        if prev is None and type(r) is Adt and C.bit[r.v] == E:
            prev = "empty"
        if prev is None:
            raise Undecided("insert into a node that is not known")
        if type(a[1]) is not Adt or a[1].t != C.nt:
            raise Undecided("insert of another key type")
        ins = st.extra.get("ins", ())
        opts = [("ok", None), ("panic", None)]
        c = C.pick(st, ("ins", len(ins)), opts)
        k = st.wn(C.word(st, a[1]))
        v = C.entry(I, st, a[2])
        if c == "panic":
            st.extra["ins"] = ins + ((prev, k, v, None),)
            raise Panic(("panic", "summary", "trie_insert", cx.line))
        n = "i%d" % len(ins)
        st.extra["ins"] = ins + ((prev, k, v, n),)
        C.name(st, n, ALL, 64)
        I.store(st, a[0].base, a[0].path, SymNode(n, C.N))
        return UNIT

    return f


# ---- clones ----
def snapshot(C, I, st, own=("t",)):
    """None or how a node that a clone may share was changed; the nodes of the input below the root are shared"""
    from .interp import Freezer

    fz = Freezer(st)
    for b in list(st.heap):
        if type(b) is not str or b[1:2] != ":" or b[2:] in own or not input_name(b[2:]):
            continue
        v = st.heap[b]
        n = b[2:]
        if b[0] == "A":
            if type(v) is not BoxV or v.id != "N:" + n:
                return ("s", "the shared node %s is replaced" % n)
        elif b[0] == "N":
            if fz.v(v) != fz.v(C.struct(n)):
                return ("s", "the shared node %s is changed in place" % n)
        elif b[0] == "C":
            r = cell_ok(C, I, st, C.struct(n), b)
            if r:
                return ("s", "cache of the shared node %s: %s" % (n, r))
    return None


def input_name(n):
    return n[0] in "tu" and (len(n) == 1 or n[1] == ".")


def shared_after(C, I, st, t):
    return snapshot(C, I, st) or own_cell(C, I, st)


def own_cell(C, I, st):
    """the cell of the root is not the cell of a shared node"""
    if C.cf is None or "N:t" not in st.heap:
        return None
    c = st.heap["N:t"].f[C.cf]
    if type(c) is ArcV and type(c.id) is str and c.id != "C:t":
        return ("s", "the cache cell of a shared node is used")
    return None


def post_clone(C, I, st):
    """a clone: same contents, own cache cell, nothing else changed"""
    if "panic" in st.extra:
        return ("s", "panics: " + show_panic(st))
    r = st.extra["ret"]
    x = snapshot(C, I, st, ())
    if x:
        return x
    if C.cf is not None:
        c = r.f[C.cf]
        if type(c) is ArcV and type(c.id) is str:
            return ("s", "the clone shares the cache cell of the original")
    e = C.same(st, C.contents(I, st, r), C.contents(I, st, SymNode("t", C.N)))
    return e and ("s", "the clone differs: " + e)


def post_clone_from(C, I, st):
    if "panic" in st.extra:
        return ("s", "panics: " + show_panic(st))
    x = snapshot(C, I, st) or own_cell(C, I, st)
    if x:
        return x
    e = C.same(st, C.contents(I, st, Ptr("N:t", ())), C.contents(I, st, SymNode("u", C.N)))
    return e and ("s", "the clone differs: " + e)


def post_shared(C, I, st):
    r = st.extra.get("ret")
    if type(r) is Ptr and r.base != "N:t":
        return ("s", "hands out a shared node for writing")
    return shared_after(C, I, st, None)


def post_read(C, I, st):
    return snapshot(C, I, st, ())


def clone_obs(tag, p=None):
    p = p or tag
    T = lambda S: [S.trie()]
    P = lambda n: "%s::%s" % (p, n)
    obs = [
        (tag + " clone", plain_ob(tag, P("clone"), T, post_clone)),
        (tag + " clone_from", plain_ob(tag, P("clone_from"), lambda S: [S.trie(), S.trie("u")], post_clone_from)),
        (tag + " deref_mut", plain_ob(tag, P("deref_mut"), T, post_shared)),
        (tag + " deref_set", plain_ob(tag, P("deref_set"), lambda S: [S.trie(), unknown_node(S)], post_shared)),
        (tag + " hash", plain_ob(tag, P("hash"), T, post_read)),
        (tag + " hash_intern", plain_ob(tag, P("hash_intern"), T, post_read)),
    ]
    for n in (1, 2):
        obs.append((tag + " extend, %d entries" % n, extend_ob(tag, "extend", n, shared_after)))
    return obs


# ---- positive examples ----
def example_cells(I):
    """a cell with the hash of another node and a shared cell have to be reported"""
    S = setup(I, "th")
    C, st = S.C, S.st
    S.trie()
    S.trie("u")
    I.root(st, "N:t")
    st.heap["C:t"] = LockV(some(C.opt, C.hashv(("H", "u"))))
    r = cells(C, I, st)
    if not r or r[0] != "k":
        raise RuntimeError("self test: a foreign hash in a cache cell is not reported")
    st.heap["C:t"] = LockV(SymCell("t", C.opt))
    if cells(C, I, st):
        raise RuntimeError("self test: a valid cache cell is reported")
    s = C.struct("t")
    r = cells(C, I, st, s)
    if not r or r[0] != "k":
        raise RuntimeError("self test: a shared cache cell is not reported")


def example_shared(I):
    """a node changed in place below the root has to be reported"""
    S = setup(I, "th")
    C, st = S.C, S.st
    S.trie()
    C.name(st, "t.x", ALL, 60)
    I.root(st, "N:t.x")
    if snapshot(C, I, st):
        raise RuntimeError("self test: an unchanged node is reported")
    f = list(st.heap["N:t.x"].f)
    f[C.nf] = C.shape(E)
    st.heap["N:t.x"] = Adt(C.T, 0, tuple(f))
    r = snapshot(C, I, st)
    if not r or r[0] != "s":
        raise RuntimeError("self test: a shared node changed in place is not reported")
