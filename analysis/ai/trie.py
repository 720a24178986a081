"""Tries with unknown nodes: abstract nodes, recursion summaries and the
reference semantics of the trie operations.

An unknown node is a `SymNode`. What is known about it is the set of kinds it
may have (`facts[("kind", name)]`), the number of nibbles that fit below it
(`facts[("cap", name)]`) and, once its fields are looked at, its shape
(`exp[name]`). Nodes below it are unknown nodes again. A recursive call on a
node strictly below the root is replaced by its summary: the induction
hypothesis over the height of the trie."""
from . import lin
from .cfg import Cfg
from .dom import *
from .interp import Freezer, analyse
from .lib import canon, freeze, mkseq, none, some
from .nib import witness

E, H, B, X, L = 1, 2, 4, 8, 16
ALL = 31
KN = {E: "Empty", H: "Hash", B: "Branch", X: "Extension", L: "Leaf"}
NODE = "eth_trie_utils::partial_trie::Node"


def kinds(m):
    return "|".join(n for b, n in KN.items() if m & b) or "-"


class TrieCfg(Cfg):
    def __init__(self, I, tag, op):
        Cfg.__init__(self)
        self.I = I
        self.tag = tag
        self.op = op
        self.T = I.tid["eth_trie_utils::partial_trie::" + ("HashedPartialTrie" if tag == "th" else "StandardTrie")]
        fs = I.types[self.T][4][0][2]
        self.tf = [f[0] for f in fs]
        self.nf = None
        self.cf = None
        for i, f in enumerate(fs):
            k = I.types[f[1]]
            if k[0] == "adt" and k[1] == NODE:
                self.nf = i
                self.N = f[1]
            elif k[0] == "adt" and k[1] == "std::sync::Arc":
                self.cf = i
                lk = I.types[k[3][0]]
                for x in lk[3]:
                    if isinstance(x, int) and I.types[x][0] == "adt" and I.types[x][1] == "std::option::Option":
                        self.opt = x
        if self.nf is None:
            raise RuntimeError("no node field in the trie type")
        self.var = {}
        self.fi = {}
        for i, v in enumerate(I.types[self.N][4]):
            bit = {n: b for b, n in KN.items()}.get(v[0])
            if bit is None:
                raise RuntimeError("unknown node kind " + v[0])
            self.var[bit] = i
            self.fi[bit] = {f[0]: j for j, f in enumerate(v[2])}
        self.bit = {i: b for b, i in self.var.items()}
        self.nt = I.tid["eth_trie_utils::nibbles::Nibbles"]
        f = [x[0] for x in I.types[self.nt][4][0][2]]
        self.ci, self.pi = f.index("count"), f.index("packed")
        self.patterns = None  # slots of the branch at the root
        self.other = None  # of the second trie
        self.deep = None  # of the other branches
        self.levels = None  # kinds allowed per level
        self.tree = None  # kinds and slots by name, all other nodes are empty
        self.table = None
        self.watch = set()
        self.recs = set()
        self.exits = {}
        self.exit_check = None
        self.checked = set()

    # ---- values ----
    def nibs(self, count, packed):
        f = [None, None]
        f[self.ci], f[self.pi] = count, UI(512, packed)
        return Adt(self.nt, 0, tuple(f))

    def word(self, st, v):
        """word of a Nibbles value"""
        c, p = v.f[self.ci], v.f[self.pi].v
        n = st.an(c)
        ps = fixed(st, p, 128)
        hi, lo = st.cut(ps, n)
        return lo

    def name(self, st, name, kind, cap):
        if self.levels is not None and kind != E:
            kind &= self.levels[min(name.count("."), len(self.levels) - 1)]
        if self.tree is not None:
            kind = self.tree.get(name, (E, None))[0]
        st.facts[("kind", name)] = kind
        st.facts[("cap", name)] = cap

    def kind(self, st, name):
        e = st.exp.get(name)
        if e is not None:
            return self.bit[e.v]
        return st.facts.get(("kind", name), ALL)

    def restrict(self, st, name, m):
        """assume the kind lies in m"""
        if name in st.exp:
            return bool(self.kind(st, name) & m)
        k = self.kind(st, name) & m
        if not k:
            return False
        if k == B and not st.ge0(lin.sub(self.cap(st, name), 1)):
            return False
        if k == X and not st.ge0(lin.sub(self.cap(st, name), 1)):
            return False
        st.facts[("kind", name)] = k
        return True

    def is_kind(self, st, name, m):
        k = self.kind(st, name)
        if not k & ~m:
            return True
        if not k & m:
            return False
        raise Fork([lambda s: self.restrict(s, name, m), lambda s: self.restrict(s, name, ALL & ~m)])

    def cap(self, st, name):
        return st.facts.get(("cap", name), 64)

    def struct(self, name):
        f = [Opaque("field " + x) for x in self.tf]
        f[self.nf] = SymNode(name, self.N)
        if self.cf is not None:
            f[self.cf] = ArcV("C:" + name)
        return Adt(self.T, 0, tuple(f))

    def arc(self, name):
        return ArcV("A:" + name)

    def materialise(self, I, st, base):
        k, _, name = base.partition(":")
        if k == "A":
            v = BoxV("N:" + name)
        elif k == "N":
            v = self.struct(name)
        elif k == "C":
            v = LockV(SymCell(name, self.opt))
        else:
            raise Undecided("object " + base)
        st.heap[base] = v
        return v

    def shape(self, bit, **kw):
        f = [None] * len(self.fi[bit])
        for n, v in kw.items():
            f[self.fi[bit][n]] = v
        return Adt(self.N, self.var[bit], tuple(f))

    def hashv(self, key):
        return Adt(self.I.tid["ethereum_types::H256"], 0, (SBytes(key, 32),))

    def expansions(self, I, st, sn):
        name = sn.name
        if name.count(".") > 3:
            raise Undecided("descends more than three levels without recursion")
        m = self.kind(st, name)
        opts = []

        def opt(bit, fill):
            def f(s):
                if not self.restrict(s, name, bit):
                    return False
                return fill(s)

            opts.append(f)

        if m & E:
            opt(E, lambda s: s.exp.__setitem__(name, self.shape(E)))
        if m & H:

            def fh(s):
                s.exp[name] = Adt(self.N, self.var[H], (self.hashv(("hash", name)),))

            opt(H, fh)
        if m & B:
            ps = {"t": self.patterns, "u": self.other}.get(name, self.deep)
            if self.tree is not None:
                ps = self.tree[name][1]
            for p in ps or [None]:
                for val in (False, True) if p is None else (p[1],):

                    def fb(s, p=p, val=val):
                        cap = s.an(lin.sub(self.cap(s, name), 1))
                        ch = []
                        for i in range(16):
                            c = "%s.%x" % (name, i)
                            self.name(s, c, ALL if p is None else (ALL & ~E) if i in p[0] else E, cap)
                            ch.append(self.arc(c))
                        s.exp[name] = self.shape(B, children=Arr(tuple(ch)), value=SBytes(("val", name), None) if val else VecV(()))

                    opt(B, fb)
        if m & X:

            def fx(s):
                n = s.length("|%s|" % name, 1, None)
                cap = s.an(lin.sub(self.cap(s, name), n))
                if not s.ge0(cap):
                    return False
                s.exp[name] = self.shape(X, nibbles=self.nibs(n, W(s.seq(name, n))), child=self.arc(name + ".x"))
                xk = s.facts.get(("xkind", name), B | H)
                self.name(s, name + ".x", xk, cap)
                return self.restrict(s, name + ".x", xk)

            opt(X, fx)
        if m & L:

            def fl(s):
                n = s.length("|%s|" % name, 0, None)
                if not s.ge0(lin.sub(self.cap(s, name), n)):
                    return False
                s.exp[name] = self.shape(L, nibbles=self.nibs(n, W(s.seq(name, n))), value=SBytes(("val", name), None))

            opt(L, fl)
        return opts

    def is_variant(self, st, name, i):
        return self.is_kind(st, name, self.bit[i])

    # ---- encodings and cache cells ----
    def enc(self, st, name):
        """2: the encoding has at least 32 bytes, 4: it has fewer"""
        m = st.facts.get(("enc", name), 6)
        k = self.kind(st, name)
        if not k & ~E:
            m &= 4
        if not k & ~H:
            m &= 2
        return m

    def set_enc(self, st, name, m):
        m &= self.enc(st, name)
        if not m:
            return False
        st.facts[("enc", name)] = m

    def is_small(self, st, name):
        m = self.enc(st, name)
        if m == 6:
            raise Fork([lambda s: self.set_enc(s, name, 4), lambda s: self.set_enc(s, name, 2)])
        return m == 4

    def cell_options(self, I, st, c):
        """a cache cell is empty or holds the right hash of an encoding of at least 32 bytes"""
        key = "cell:" + c.name

        def empty(s):
            s.exp[key] = none(self.opt)

        def full(s):
            if self.set_enc(s, c.name, 2) is False:
                return False
            s.exp[key] = some(self.opt, self.hashv(("H", c.name)))

        return [empty, full]

    def hash_intern(self, I, st, a, cx):
        """summary for a node below the root: its cell stays valid"""
        if len(a) != 1:
            return NotImplemented
        n = self.node_name(I, st, a[0])
        if n is None or "." not in n:
            return NotImplemented
        small = self.is_small(st, n)
        if self.cf is not None:
            st.exp.pop("cell:" + n, None)
            st.heap["C:" + n] = LockV(SymCell(n, self.opt))
        for i, v in enumerate(I.types[cx.dty][4]):
            if v[0] == ("Raw" if small else "Hashed"):
                return Adt(cx.dty, i, (SBytes(("E", n), None) if small else SBytes(("H", n), 32),))
        raise Undecided("encoded node")

    def rlp_item(self, st, item, i):
        """items that are the reference to a node become ("ref", name)"""
        k, t = item
        if t[0] == "S" and len(t[1]) == 2:
            e, n = t[1]
            if (k, e) == ("r", "E") and self.enc(st, n) == 4:
                return ("ref", n)
            if k == "s" and (e == "H" and self.enc(st, n) == 2 or e == "hash" and self.kind(st, n) == H):
                return ("ref", n)
        elif t == ("B", ()) and k == "s" or k == "r" and t == ("B", st.wn((("c", 8, 1), ("c", 0, 1)))):
            n = "t.%x" % i
            if i < 16 and ("kind", n) in st.facts and self.kind(st, n) == E:
                return ("ref", n)
        return item

    def terms_equal(self, I, st, kx, ky):
        return self.fact(st, ("teq",) + tuple(sorted((kx, ky), key=repr)))

    # ---- recursion ----
    def on_entry(self, I, st, g, args):
        p = {}
        for a in args:
            self.parts(I, st, a, p)
        if p.get("node") in (["t"], ["t", "u"]) and "entry" not in st.extra:
            key = st.wn(self.word(st, p["key"][0])) if p.get("key") else None
            st.extra["entry"] = (g.idx, len(st.stack), key)

    def on_exit(self, I, st, fr, v):
        e = st.extra.get("entry")
        if e is None or e[0] != fr.fn.idx or e[1] != fr.depth or self.exit_check is None:
            return
        self.checked.add(fr.fn.idx)
        try:
            r = self.exit_check(self, I, st, e[2], v, I.tname[fr.fn.locals[0]])
        except Mismatch as x:
            r = ("v", str(x))
        if r is not None:
            st.extra["exit_bad"] = r
        del st.extra["entry"]

    def node_name(self, I, st, v):
        """name of the unknown node a value or pointer denotes"""
        for _ in range(6):
            t = type(v)
            if t is SymNode:
                return v.name
            if t is Ptr:
                v = I.deref(st, v)
            elif t is ArcV:
                v = I.root(st, v.id)
            elif t is BoxV:
                v = I.root(st, v.id)
            elif t is Adt and v.t == self.T:
                v = v.f[self.nf]
            elif t is Adt and v.t == self.N:
                return self.copy_of(st, v)
            else:
                return None
        return None

    def copy_of(self, st, v):
        """name of the input node this value is a copy of"""
        if self.bit[v.v] == E:
            return "t" if self.kind(st, "t") == E else None
        fz = Freezer(st)
        k = None
        for n, e in st.exp.items():
            if e.v == v.v:
                k = k or fz.v(v)
                if fz.v(e) == k:
                    return n
        return None

    def parts(self, I, st, v, out, depth=0):
        """nodes, keys and entries among call arguments"""
        n = self.node_name(I, st, v)
        if n is not None:
            out.setdefault("node", []).append(n)
            return
        if type(v) is Ptr:
            if depth < 3:
                w = I.deref(st, v)
                if type(w) is Adt and w.t == self.nt:
                    out.setdefault("keyptr", []).append(v)
                self.parts(I, st, w, out, depth + 1)
        elif type(v) is Adt:
            if v.t == self.nt:
                out.setdefault("key", []).append(v)
            elif v.t is not None and I.types[v.t][1] == "eth_trie_utils::trie_ops::ValOrHash":
                out.setdefault("val", []).append(v)
            elif depth < 4:
                for x in v.f:
                    self.parts(I, st, x, out, depth + 1)
        elif type(v) is SBytes:
            out.setdefault("bytes", []).append(v)

    def recursion(self, I, st, g, args, cx):
        if self.op not in SUMMARY:
            return NotImplemented
        p = {}
        for a in args:
            self.parts(I, st, a, p)
        for n in p.get("node", ()):
            if not n.startswith("t.") and not n.startswith("u."):
                return NotImplemented
        if not p.get("node"):
            return NotImplemented
        r = SUMMARY[self.op](self, I, st, g, p, args, cx)
        if r is not NotImplemented:
            self.recs.add(g.idx)
        return r

    def pick(self, st, key, opts):
        """choice made by an earlier split at this call: opts label -> assume(state)"""
        c = st.extra.get("pick")
        if c is not None and c[0] == key:
            del st.extra["pick"]
            return c[1]

        def opt(lab, f):
            def g(s):
                if f is not None and f(s) is False:
                    return False
                s.extra["pick"] = (key, lab)

            return g

        raise Fork([opt(lab, f) for lab, f in opts])

    def rec(self, st, op, node, k, extra=None):
        """record of an earlier summary with these arguments (may split)"""
        for r in st.extra.get("rec", ()):
            if r[0] == op and r[1] == node and r[3] == extra and st.words_eq(r[2], k):
                return r
        return None

    def build(self, I, st, ty, node, val, ptr=None):
        """value of type ty made of a node and a byte string"""
        k = I.types[ty]
        if ty == self.N:
            return SymNode(node, self.N)
        if ty == self.T:
            return self.struct(node)
        if k[0] == "tuple":
            return Adt(None, 0, tuple(self.build(I, st, x, node, val) for x in k[1]))
        if k[0] == "adt":
            if k[1] == "std::sync::Arc":
                return self.arc(node)
            if k[1] == "std::vec::Vec" and I.tname[k[3][0]] == "u8":
                if val is None:
                    raise Undecided("summary result " + I.tname[ty])
                return val
            if k[1] == "std::option::Option":
                return some(ty, self.build(I, st, k[3][0], node, val))
            if k[1] == "std::boxed::Box" and k[3][0] == self.T:
                return BoxV("N:" + node)
            if k[2] == "struct" and I.tname[ty].startswith("eth_trie_utils"):
                return Adt(ty, 0, tuple(self.build(I, st, f[1], node, val) for f in k[4][0][2]))
        raise Undecided("summary result " + I.tname[ty])

    # ---- what a node contains ----
    def resolve(self, I, st, v):
        """('sym', name) or the node value"""
        for _ in range(8):
            t = type(v)
            if t is SymNode:
                e = st.exp.get(v.name)
                if e is not None:
                    return e
                if self.kind(st, v.name) == E:
                    return self.shape(E)
                return ("sym", v.name)
            if t is Ptr:
                v = I.deref(st, v)
            elif t in (ArcV, BoxV):
                v = I.root(st, v.id)
            elif t is Adt and v.t == self.T:
                v = v.f[self.nf]
            elif t is Adt and v.t == self.N:
                return v
            else:
                raise Undecided("node %r" % (v,))
        raise Undecided("node")

    def contents(self, I, st, v, pre=()):
        """entries as (key word, term)"""
        n = self.resolve(I, st, v)
        if type(n) is tuple:
            return [(st.wn(pre), ("sub", n[1]))]
        b = self.bit[n.v]
        if b == E:
            return []
        if b == H:
            return [(st.wn(pre), ("hash", freeze(I, st, I.elems_of(st, n.f[0]))))]
        g = lambda f: n.f[self.fi[b][f]]
        if b == L:
            return [(st.wn(pre + self.word(st, g("nibbles"))), ("val", self.vkey(I, st, g("value"))))]
        if b == X:
            return self.contents(I, st, g("child"), pre + self.word(st, g("nibbles")))
        out = []
        for x, c in self.slots(I, st, g("children")):
            out += self.contents(I, st, c, pre + (x,))
        if not self.is_empty(I, st, g("value")):
            out.append((st.wn(pre), ("val", self.vkey(I, st, g("value")))))
        return out

    def slots(self, I, st, ch):
        """(nibble, child) of all slots that can hold something"""
        if type(ch) is Over:
            if any(type(self.resolve(I, st, c)) is tuple or self.bit[self.resolve(I, st, c).v] != E for c in ch.base.e):
                ch = I.flat(st, ch)
            else:
                return [(st.nn(n), c) for n, c in ch.o]
        return [(("c", i, 1), c) for i, c in enumerate(ch.e)]

    def vkey(self, I, st, v):
        return canon(st, freeze(I, st, I.elems_of(st, v)))

    def is_empty(self, I, st, v):
        if type(v) is SBytes:
            return False
        n = I.seq_len(st, v)
        return st.eq(n, 0)

    def same(self, st, got, want):
        """None if two lists of entries are the same multiset"""
        got = list(got)
        left = []
        for e in want:
            if e in got:
                got.remove(e)
            else:
                left.append(e)
        for w, t in left:
            hit = None
            for g in got:
                if g[1] == t and st.words_eq(g[0], w):
                    hit = g
                    break
            if hit is None:
                return "no entry %s at [%s]" % (show_term(t), show_word(st.wn(w)))
            got.remove(hit)
        if got:
            return "unexpected entry %s at [%s]" % (show_term(got[0][1]), show_word(st.wn(got[0][0])))
        return None

    # ---- canonical form ----
    def canonical(self, I, st, v, top=True):
        """None or what is wrong"""
        n = self.resolve(I, st, v)
        if type(n) is tuple:
            return self.sub_canonical(st, n[1])
        b = self.bit[n.v]
        g = lambda f: n.f[self.fi[b][f]]
        if b == L:
            return "leaf without a value" if self.is_empty(I, st, g("value")) else None
        if b == X:
            w = self.word(st, g("nibbles"))
            if st.eq(st.wlen(st.wn(w)), 0):
                return "extension without nibbles"
            c = self.resolve(I, st, g("child"))
            if type(c) is tuple:
                if not self.is_kind(st, c[1], B | H):
                    return "extension above a %s node" % kinds(self.kind(st, c[1]))
                return self.sub_canonical(st, c[1])
            if not self.bit[c.v] & (B | H):
                return "extension above a %s node" % KN[self.bit[c.v]]
            return self.canonical(I, st, c)
        if b == B:
            sl = self.slots(I, st, g("children"))
            ch = [c for _, c in sl]
            # a branch of the input whose slots only became occupied is fine
            src = None
            same = True
            for i, c in enumerate(ch):
                nm = self.node_name(I, st, c)
                if nm is not None and nm[-1:] == "%x" % i and nm[-2:-1] == "." and not nm.startswith("r"):
                    src = nm[:-2]
                    break
            if src is not None and src in st.exp and self.kind(st, src) == B:
                sv = st.exp[src].f[self.fi[B]["value"]]
                for i, c in enumerate(ch):
                    nm = self.node_name(I, st, c)
                    if nm != "%s.%x" % (src, i) and not self.filled(I, st, c):
                        same = False
                if not self.is_empty(I, st, sv) and self.is_empty(I, st, g("value")):
                    same = False
            else:
                same = False
            occ = 0 if self.is_empty(I, st, g("value")) else 1
            for c in ch:
                if self.filled(I, st, c):
                    occ += 1
            if occ < 2 and not same:
                for c in ch:
                    r = self.resolve(I, st, c)
                    if type(r) is tuple and not self.filled(I, st, c):
                        if self.is_kind(st, r[1], ALL & ~E):
                            occ += 1
                    if occ >= 2:
                        break
                if occ < 2:
                    return "branch with %d occupied slots" % occ
            for c in ch:
                e = self.canonical(I, st, c, False)
                if e:
                    return e
        return None

    def sub_canonical(self, st, name):
        """a node that was not looked at is canonical unless its summary says otherwise"""
        if self.kind(st, name) & X and st.facts.get(("xkind", name), B | H) & ~(B | H):
            if self.is_kind(st, name, X):
                return "extension above a %s node" % kinds(st.facts[("xkind", name)] & ~(B | H))
        return None

    def filled(self, I, st, c):
        r = self.resolve(I, st, c)
        if type(r) is tuple:
            return not self.kind(st, r[1]) & E
        return self.bit[r.v] != E

    def show(self, st, name="t", depth=0):
        """shape of an input node"""
        e = st.exp.get(name)
        if e is None:
            return kinds(self.kind(st, name))
        b = self.bit[e.v]
        if b in (E, H):
            return KN[b]
        g = lambda f: e.f[self.fi[b][f]]
        if b == L:
            return "Leaf[%s]" % show_word(st.wn(self.word(st, g("nibbles"))))
        if b == X:
            return "Extension[%s]->%s" % (show_word(st.wn(self.word(st, g("nibbles")))), self.show(st, name + ".x"))
        ch = []
        for i in range(16):
            n = "%s.%x" % (name, i)
            k = self.kind(st, n)
            if n in st.exp or k != ALL and k != E:
                ch.append("%x:%s" % (i, self.show(st, n)))
        v = g("value")
        if type(v) is SBytes:
            ch.append("value")
        return "Branch{%s}" % ",".join(ch)


def show_term(t):
    if t[0] == "sub":
        return "subtree " + t[1]
    return t[0]


# ---- summaries of recursive calls ----
SUMMARY = {}


def summary(op):
    def d(f):
        SUMMARY[op] = f
        return f

    return d


def add_rec(st, r):
    st.extra["rec"] = st.extra.get("rec", ()) + (r,)


def poison(I, st, p):
    """a key passed by mutable reference is not known after the call"""
    for q in p.get("keyptr", ()):
        I.store(st, q.base, q.path, Opaque("key after the call"))


@summary("get")
def sum_get(C, I, st, g, p, args, cx):
    if len(p["node"]) != 1 or len(p.get("key", ())) != 1:
        return NotImplemented
    k = st.wn(C.word(st, p["key"][0]))
    n = p["node"][0]
    key = ("get", g.idx, n)
    m = C.kind(st, n)
    opts = [("none", None)]
    if m & ~(E | H):
        opts.append(("some", lambda s: C.restrict(s, n, B | X | L)))
    c = opts[0][0] if len(opts) == 1 else C.pick(st, key, opts)
    poison(I, st, p)
    if I.types[cx.dty][1] != "std::option::Option":
        raise Undecided("summary result")
    if c == "none":
        add_rec(st, ("get", n, k, None, None))
        return none(cx.dty)
    v = SBytes(("got", n), None)
    add_rec(st, ("get", n, k, None, ("S", ("got", n))))
    t = I.types[I.types[cx.dty][3][0]]
    if t[0] != "ref":
        return some(cx.dty, v)
    b = st.alloc(v)
    if I.types[t[1]][0] == "slice":
        return some(cx.dty, Ptr(b, (), 0, I.seq_len(st, v)))
    return some(cx.dty, Ptr(b, ()))


def ins_kinds(m, v):
    """kinds an insert into a node of kind m can give"""
    r = 0
    if m & E:
        r |= L if v == "val" else H | X
    if m & L:
        r |= L | B | X
    if m & X:
        r |= X | B
    if m & B:
        r |= B
    return r


@summary("insert")
def sum_insert(C, I, st, g, p, args, cx):
    if len(p["node"]) != 1 or len(p.get("key", ())) != 1 or len(p.get("val", ())) != 1:
        return NotImplemented
    k = st.wn(C.word(st, p["key"][0]))
    n = p["node"][0]
    v = C.entry(I, st, p["val"][0])
    m = C.kind(st, n)
    opts = []
    if m & ~H:
        opts.append(("ok", lambda s: C.restrict(s, n, ALL & ~H)))
    bad = m & (H | X | B) if v[0] == "val" else m & (H | X | B | L)
    if bad:
        opts.append(("panic", lambda s: C.restrict(s, n, bad)))
    c = opts[0][0] if len(opts) == 1 else C.pick(st, ("insert", g.idx, n), opts)
    poison(I, st, p)
    if c == "panic":
        add_rec(st, ("insert", n, k, v, "panic"))
        raise Panic(("panic", "summary", g.name, cx.line))
    r = "r%d" % len(st.extra.get("rec", ()))
    out = C.build(I, st, cx.dty, r, None) if cx.dty is not None and I.tname[cx.dty] != "()" else None
    if out is None:
        ptr = [a for a in args if type(a) is Ptr and C.node_name(I, st, a) == n]
        if not ptr:
            raise Undecided("summary result")
        w = I.deref(st, ptr[0])
        I.store(st, ptr[0].base, ptr[0].path, C.struct(r) if type(w) is Adt else SymNode(r, C.N))
        out = UNIT
    add_rec(st, ("insert", n, k, v, r))
    C.name(st, r, ins_kinds(C.kind(st, n), v[0]), C.cap(st, n))
    return out


@summary("delete")
def sum_delete(C, I, st, g, p, args, cx):
    if len(p["node"]) != 1 or len(p.get("key", ())) != 1:
        return NotImplemented
    k = st.wn(C.word(st, p["key"][0]))
    n = p["node"][0]
    m = C.kind(st, n)
    opts = []
    if m & ~H:
        opts.append(("none", lambda s: C.restrict(s, n, ALL & ~H)))
    if m & (H | X | B):
        opts.append(("panic", lambda s: C.restrict(s, n, H | X | B)))
    for kb in (B, X, L):
        if m & kb:
            for rk, xk in C.table.get(kb, ()):
                opts.append((("some", kb, rk, xk), lambda s, kb=kb: C.restrict(s, n, kb)))
    c = opts[0][0] if len(opts) == 1 else C.pick(st, ("delete", g.idx, n), opts)
    poison(I, st, p)
    if c == "panic":
        add_rec(st, ("delete", n, k, None, "panic"))
        raise Panic(("panic", "summary", g.name, cx.line))
    if I.types[cx.dty][1] != "std::option::Option":
        raise Undecided("summary result")
    if c == "none":
        add_rec(st, ("delete", n, k, None, None))
        return none(cx.dty)
    _, kb, rk, xk = c
    r = "r%d" % len(st.extra.get("rec", ()))
    C.name(st, r, rk, C.cap(st, n))
    if rk == X:
        st.facts[("xkind", r)] = xk
    v = SBytes(("del", n), None)
    add_rec(st, ("delete", n, k, None, (r, ("S", ("del", n)))))
    if not C.restrict(st, r, rk):
        raise Undecided("summary kind")
    return C.build(I, st, cx.dty, r, v)


# ---- reference semantics ----
class Mismatch(Exception):
    pass


def entry(self, I, st, v):
    """('val'|'hash', term) of a ValOrHash"""
    nm = I.types[v.t][4][v.v][0]
    return ("val" if nm == "Val" else "hash", self.vkey(I, st, v.f[0]))


TrieCfg.entry = entry


def look(C, I, st, name):
    """shape of an input node, None when it was never looked at"""
    e = st.exp.get(name)
    if e is None and C.kind(st, name) == E:
        return C.shape(E)
    if e is None and C.levels is not None and C.kind(st, name) in KN:
        return I.expand(st, SymNode(name, C.N))
    return e


def spec_get(C, I, st, name, k):
    """term of the value under k, or None"""
    n = look(C, I, st, name)
    if n is None:
        r = C.rec(st, "get", name, k)
        if r is None:
            if not C.kind(st, name) & ~(E | H):
                return None
            raise Mismatch("node %s is not looked at" % name)
        return r[4]
    b = C.bit[n.v]
    g = lambda f: n.f[C.fi[b][f]]
    if b in (E, H):
        return None
    if b == L:
        return C.vkey(I, st, g("value")) if st.words_eq(C.word(st, g("nibbles")), k) else None
    if b == X:
        r = st.relate(C.word(st, g("nibbles")), k)
        if r[0] not in ("eq", "v"):
            return None
        return spec_get(C, I, st, name + ".x", r[1] if r[0] == "v" else ())
    k = st.wn(k)
    if st.eq(st.wlen(k), 0):
        return None if C.is_empty(I, st, g("value")) else C.vkey(I, st, g("value"))
    x, rest = first(st, k)
    return spec_get(C, I, st, "%s.%x" % (name, x), rest)


def first(st, k):
    """(first nibble, rest) of a non-empty word"""
    h, rest = st.cut(k, st.an(lin.sub(st.wlen(k), 1)))
    return st.nib_conc(st.wn(h)[0]), rest


def spec_insert(C, I, st, name, k, v, pre=()):
    """entries after the insert, 'panic', or 'free' where a hash and a value collide"""
    n = look(C, I, st, name)
    if n is None:
        if C.kind(st, name) == H:
            return "panic"
        r = C.rec(st, "insert", name, k, v)
        if r is None:
            raise Mismatch("node %s is not changed" % name)
        if r[4] == "panic":
            return "panic"
        return C.contents(I, st, SymNode(r[4], C.N), pre)
    b = C.bit[n.v]
    g = lambda f: n.f[C.fi[b][f]]
    new = [(st.wn(pre + k), v)]
    here = lambda: C.contents(I, st, SymNode(name, C.N), pre)
    if b == E:
        return new
    if b == H:
        return "panic"
    if b == L:
        r = st.relate(C.word(st, g("nibbles")), k)
        if r[0] == "eq":
            return "free" if v[0] == "hash" else new
        if r[0] in "uv" and v[0] == "hash":
            return "free"
        return here() + new
    if b == X:
        w = C.word(st, g("nibbles"))
        r = st.relate(w, k)
        if r[0] in ("eq", "v"):
            return spec_insert(C, I, st, name + ".x", r[1] if r[0] == "v" else (), v, pre + st.wn(w))
        if r[0] == "u" and v[0] == "hash":
            return "free"
        return here() + new
    k = st.wn(k)
    if st.eq(st.wlen(k), 0):
        if v[0] == "hash":
            return "free"
        out = []
        for i, c in enumerate(g("children").e):
            out += C.contents(I, st, c, pre + (("c", i, 1),))
        return out + new
    x, rest = first(st, k)
    out = []
    for i, c in enumerate(g("children").e):
        if i != x:
            out += C.contents(I, st, c, pre + (("c", i, 1),))
    if not C.is_empty(I, st, g("value")):
        out.append((st.wn(pre), ("val", C.vkey(I, st, g("value")))))
    s = spec_insert(C, I, st, "%s.%x" % (name, x), rest, v, pre + (("c", x, 1),))
    return s if type(s) is str else out + s


def spec_delete(C, I, st, name, k, pre=()):
    """(deleted term or None, entries afterwards), or 'panic'"""
    n = look(C, I, st, name)
    here = lambda: C.contents(I, st, SymNode(name, C.N), pre)
    if n is None:
        if C.kind(st, name) == H:
            return "panic"
        r = C.rec(st, "delete", name, k)
        if r is None:
            raise Mismatch("node %s is not looked at" % name)
        if r[4] == "panic":
            return "panic"
        if r[4] is None:
            return None, here()
        return r[4][1], C.contents(I, st, SymNode(r[4][0], C.N), pre)
    b = C.bit[n.v]
    g = lambda f: n.f[C.fi[b][f]]
    if b == E:
        return None, []
    if b == H:
        return "panic"
    if b == L:
        if st.words_eq(C.word(st, g("nibbles")), k):
            return C.vkey(I, st, g("value")), []
        return None, here()
    if b == X:
        w = C.word(st, g("nibbles"))
        r = st.relate(w, k)
        if r[0] in ("eq", "v"):
            return spec_delete(C, I, st, name + ".x", r[1] if r[0] == "v" else (), pre + st.wn(w))
        return None, here()
    k = st.wn(k)
    empty = C.is_empty(I, st, g("value"))
    if st.eq(st.wlen(k), 0):
        if empty:
            return None, here()
        out = []
        for i, c in enumerate(g("children").e):
            out += C.contents(I, st, c, pre + (("c", i, 1),))
        return C.vkey(I, st, g("value")), out
    x, rest = first(st, k)
    s = spec_delete(C, I, st, "%s.%x" % (name, x), rest, pre + (("c", x, 1),))
    if s == "panic":
        return s
    out = []
    for i, c in enumerate(g("children").e):
        if i != x:
            out += C.contents(I, st, c, pre + (("c", i, 1),))
    if not empty:
        out.append((st.wn(pre), ("val", C.vkey(I, st, g("value")))))
    return s[0], out + s[1]


def find_node(C, I, v):
    """the node inside a result value"""
    if type(v) in (ArcV, SymNode) or type(v) is Adt and v.t in (C.T, C.N):
        return v
    if type(v) is BoxV:
        return v
    if type(v) is Adt:
        for x in v.f:
            r = find_node(C, I, x)
            if r is not None:
                return r
    return None


def find_bytes(C, I, st, v):
    if type(v) in (SBytes, BytesW, VecV):
        return v
    if type(v) is Ptr:
        return mkseq(I.elems(st, v))
    if type(v) is Adt and v.t not in (C.T, C.N):
        for x in v.f:
            r = find_bytes(C, I, st, x)
            if r is not None:
                return r
    return None


class TSetup:
    """symbolic trie arguments"""

    most = 64

    def __init__(self, I, tag, op):
        self.I = I
        self.C = TrieCfg(I, tag, op)
        self.st = State(self.C)
        self.show = []

    def trie(self, name="t", kind=ALL):
        self.C.name(self.st, name, kind, self.most)
        return Ptr("N:" + name, ())

    def key(self, name="k"):
        n = self.st.length("|%s|" % name, 0, self.most)
        w = self.st.seq(name, n)
        self.show.append((name, "w", w))
        return self.C.nibs(n, W(w)), w

    def entry(self, kind, name="v"):
        t = self.I.tid["eth_trie_utils::trie_ops::ValOrHash"]
        names = [x[0] for x in self.I.types[t][4]]
        if kind == "val":
            return Adt(t, names.index("Val"), (SBytes((name,), None),))
        return Adt(t, names.index("Hash"), (self.C.hashv((name,)),))


def judge(I, root, S, args, spec, exit_check=None, watch=(), first=False, limit=60000):
    """findings of one obligation: (kind, text, witness, state)"""
    C = S.C
    C.watch = set(watch)
    C.exit_check = exit_check
    I.start(S.st, I.roots[root], args)
    found = []
    stats = {"states": 0, "undecided": []}

    def after(I, st):
        try:
            r = spec(I, st)
        except Mismatch as e:
            r = ("v", str(e))
        if r is None and "exit_bad" in st.extra:
            return ("?", "the recursive function does not mean what is assumed: " + st.extra["exit_bad"][1])
        return r

    misread = False
    for kind, v, st in analyse(I, S.st, after=after, limit=limit):
        stats["states"] += 1
        if kind == "undecided":
            stats["undecided"].append(v)
            continue
        if v is None:
            continue
        if v[0] == "?":
            misread = True
            stats["undecided"].append(v[1])
            continue
        w = witness(st, S.show)
        if w is None:
            stats["undecided"].append("no instance found for: " + v[1])
            continue
        try:
            shape = C.show(st)
        except (Fork, Undecided):
            shape = kinds(C.kind(st, "t"))
        found.append((v[0], v[1], "%s; trie %s" % (w, shape), "rec" in st.extra))
        if first:
            break
    if C.recs - C.checked:
        misread = True
        stats["undecided"].append("a recursive function is not entered at the root")
    if misread:
        # what the recursive calls are taken to mean is not what they mean
        found = [f for f in found if not f[3]]
    return found, stats
