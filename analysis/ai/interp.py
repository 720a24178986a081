"""Abstract interpreter over the MIR dump.

Transfer functions of MIR statements and terminators over the domain of
`dom.py`, and the worklist that computes the abstract states at every program
point. Calls are analysed in the calling context; recursive calls and calls
with a contract are replaced by their summary (`cfg.hooks`). States that meet
at a control flow join with the same contents are joined."""
import contextlib
import heapq
import json
import sys
import time

from . import lin
from .lin import Aff
from .dom import *

sys.setrecursionlimit(100000)

MAX_STEPS = 4_000_000
MAX_VISITS = 3000
U64 = (1 << 64) - 1


class Fn:
    __slots__ = ("idx", "name", "deff", "crate", "kind", "clos", "argc", "spread", "locals", "raw", "code", "file", "line", "end", "opaque", "dbg", "has_body", "rpo", "npred", "live", "addr")

    def __init__(self, idx, j):
        self.idx = idx
        self.name = j["name"]
        self.deff = j["def"]
        self.crate = j["crate"]
        self.kind = j["kind"]
        self.clos = j.get("clos", False)
        self.argc = j.get("argc", 0)
        self.spread = j.get("spread")
        self.locals = j.get("locals", [])
        self.raw = j.get("blocks") or []
        self.file = j.get("file")
        self.line = j.get("line")
        self.end = j.get("end")
        self.opaque = j.get("opaque")
        self.dbg = j.get("dbg", [])
        self.code = [None] * len(self.raw)
        self.has_body = bool(self.raw)
        self.rpo = None
        self.npred = None
        self.live = None


class Cx:
    """what a builtin knows about its call site"""

    __slots__ = ("c", "dty", "I", "fr", "name", "line")


class Interp:
    def __init__(self, path, builtins):
        with open(path) as f:
            d = json.load(f)
        self.files = d["files"]
        self.types = [t[1] for t in d["types"]]
        self.tname = [t[0] for t in d["types"]]
        self.tid = {}
        for i, t in enumerate(d["types"]):
            self.tid.setdefault(t[0], i)
        self.fns = [Fn(i, f) for i, f in enumerate(d["fns"])]
        self.roots = {}
        self.lens = {}
        for name, idx in d["roots"]:
            f = self.fns[idx]
            self.roots[f.name.split("roots::", 1)[1] if "roots::" in f.name else f.name] = f
        self.builtins = builtins
        self.consts = {}
        self.nconst = -1
        self.cov = set()
        self.covfn = {}
        self.sites = {}
        self.undec = {}
        self.dyn = {}
        self.forks = 0
        self.joins = 0
        self.nstates = 0
        self.debug = False
        self.forkat = {}
        self.deadline = None

    # ---- time ----
    def late(self):
        return self.deadline is not None and time.time() > self.deadline

    @contextlib.contextmanager
    def within(self, seconds):
        """an own limit for a part of the work"""
        d = self.deadline
        self.deadline = time.time() + seconds if d is None else min(d, time.time() + seconds)
        try:
            yield
        finally:
            self.deadline = d

    # ---- types ----
    def peel(self, t):
        k = self.types[t]
        while k[0] == "pat":
            t = k[1]
            k = self.types[t]
        return k

    def place_ty(self, fn, pl):
        t = fn.locals[pl[0]]
        if len(pl) > 1:
            for p in pl[1]:
                if p == "*":
                    k = self.types[t]
                    if k[0] in ("ref", "ptr"):
                        t = k[1]
                    elif k[0] == "adt":
                        t = k[3][0]
                    else:
                        raise Undecided("deref type %s" % k[0])
                elif p[0] == "f":
                    t = p[2]
                elif p[0] in ("i", "c"):
                    t = self.types[t][1]
        return t

    def op_ty(self, fn, op):
        if op[0] in ("c", "m"):
            return self.place_ty(fn, op[1])
        if op[0] == "k":
            return op[1][0]
        return None

    # ---- memory ----
    def root(self, st, base):
        if type(base) is tuple:
            return st.stack[base[0]].L[base[1]]
        if type(base) is int:
            if base < 0:
                return self.consts[base]
            return st.heap[base]
        v = st.heap.get(base)
        if v is None:
            v = st.cfg.materialise(self, st, base)
        return v

    def load(self, st, base, path):
        v = self.root(st, base)
        for p in path:
            v = self.field(st, v, p)
        return v

    def deref(self, st, ptr):
        if type(ptr) is Ptr:
            return self.load(st, ptr.base, ptr.path)
        if type(ptr) is BoxV:
            return self.root(st, ptr.id)
        raise Undecided("deref of %r" % (ptr,))

    def field(self, st, v, p):
        t = type(v)
        if t is Adt:
            return v.f[p]
        if t is Arr or t is VecV:
            if type(p) is tuple:
                return v.e[st.nib_conc(p[1])]
            return v.e[p if type(p) is int else w_conc(st, p)]
        if t is Over:
            q = p[1] if type(p) is tuple else ("c", p if type(p) is int else w_conc(st, p), 1)
            for n, x in v.o:
                if st.nib_eq(n, q):
                    return x
            return v.base.e[st.nib_conc(q)]
        if t is BytesW:
            return self.byte_at(st, v, p)
        if t is SymNode:
            return self.expand(st, v).f[p]
        if t is SymCell:
            return self.cell(st, v).f[p]
        if t is UI:
            n = v.w // 64
            ps = fixed(st, v.v, v.w // 4)
            out = []
            for i in range(n):
                ps, lo = st.cut(ps, 16)
                out.append(from_pieces(st, lo))
            return Arr(tuple(out))
        if t is LockV:
            return v.v
        if t is BoxV:
            return Ptr(v.id, (), v.start, v.n) if p == 0 else UNIT
        if t is Ptr and p == 0:
            return v
        if t is int and p == 0:
            return v
        raise Undecided("field %r of %s" % (p, t.__name__))

    def byte_at(self, st, v, p):
        """byte p (from the front) of a byte word"""
        if type(p) is W:
            p = w_conc(st, p)
        n = st.wlen(v.p)
        hi, _ = st.cut(v.p, st.an(lin.sub(n, lin.scale(lin.add(p, 1), 2))))
        _, lo = st.cut(hi, 2)
        return from_pieces(st, lo)

    def set_bytes(self, st, word, start, new, nlen):
        """word with nlen bytes from byte `start` replaced by the word new"""
        n = st.wlen(word)
        hi, tail = st.cut(word, st.an(lin.sub(n, lin.scale(lin.add(start, nlen), 2))))
        head, _ = st.cut(hi, st.an(lin.scale(nlen, 2)))
        return BytesW(st.wn(head + new + tail))

    def byte_word(self, st, v):
        """pieces of a byte string value"""
        if type(v) is BytesW:
            return st.wn(v.p)
        if type(v) is Adt and len(v.f) == 1:
            return self.byte_word(st, v.f[0])
        if isinstance(v, Arr):
            out = ()
            for x in v.e:
                if type(x) is int:
                    out += int_pieces(x, 2)
                elif type(x) is W:
                    out += fixed(st, x, 2)
                else:
                    raise Undecided("byte %r" % (x,))
            return st.wn(out)
        raise Undecided("bytes of %s" % type(v).__name__)

    def expand(self, st, sn):
        e = st.exp.get(sn.name)
        if e is None:
            raise Fork(st.cfg.expansions(self, st, sn))
        return e

    def cell(self, st, c):
        e = st.exp.get("cell:" + c.name)
        if e is None:
            raise Fork(st.cfg.cell_options(self, st, c))
        return e

    def store(self, st, base, path, val):
        if path:
            val = self.upd(st, self.root(st, base), path, 0, val)
        if type(base) is tuple:
            st.stack[base[0]].L[base[1]] = val
        elif type(base) is int and base < 0:
            raise Undecided("store to constant")
        else:
            st.heap[base] = val

    def upd(self, st, v, path, i, val):
        if i == len(path):
            return val
        p = path[i]
        t = type(v)
        if t is SymNode:
            v = self.expand(st, v)
            t = Adt
        elif t is SymCell:
            v = self.cell(st, v)
            t = Adt
        if t is Adt:
            f = list(v.f)
            while len(f) <= p:
                f.append(None)
            f[p] = self.upd(st, f[p], path, i + 1, val)
            return Adt(v.t, v.v, tuple(f))
        if (t is Arr or t is Over) and type(p) is tuple and i + 1 == len(path):
            q = st.nn(p[1])
            if t is Over:
                o = [(st.nn(n), x) for n, x in v.o]
                for j, (n, x) in enumerate(o):
                    if st.nib_eq(n, q):
                        o[j] = (n, val)
                        return Over(v.base, tuple(o))
                return Over(v.base, tuple(o) + ((q, val),))
            if q[0] == "n" and len(v.e) == 16:
                return Over(v, ((q, val),))
        if t is Over:
            v = self.flat(st, v)
            t = Arr
        if t is Arr or t is VecV:
            if type(p) is tuple:
                p = st.nib_conc(p[1])
            if type(p) is not int:
                p = w_conc(st, p)
            f = list(v.e)
            f[p] = self.upd(st, f[p], path, i + 1, val)
            return t(tuple(f))
        if t is BytesW:
            if type(p) is W:
                p = w_conc(st, p)
            return self.set_bytes(st, st.wn(v.p), p, fixed(st, val, 2), 1)
        if t is LockV:
            return LockV(self.upd(st, v.v, path, i + 1, val))
        if t is UI and p == 0:
            a = self.upd(st, self.field(st, v, 0), path, i + 1, val)
            ps = ()
            for x in a.e:
                ps = fixed(st, x, 16) + ps
            return UI(v.w, from_pieces(st, ps))
        if v is None:
            f = [None] * (p + 1)
            f[p] = self.upd(st, None, path, i + 1, val)
            return Adt(None, 0, tuple(f))
        raise Undecided("update field %r of %s" % (p, t.__name__))

    def elems(self, st, ptr):
        """elements behind a slice / array / vec pointer: SBytes, BytesW or tuple"""
        v = self.deref(st, ptr)
        return self.elems_of(st, v, ptr.start, ptr.n)

    def flat(self, st, v):
        """array with the slots of all entries known"""
        e = list(v.base.e)
        for n, x in v.o:
            e[st.nib_conc(n)] = x
        return Arr(tuple(e))

    def elems_of(self, st, v, start=None, n=None):
        if type(v) is Over:
            v = self.flat(st, v)
        if type(v) is Adt and len(v.f) == 1:
            return self.elems_of(st, v.f[0], start, n)
        if type(v) is Adt and v.t is None and len(v.f) == 2 and v.f[0] is None:
            return self.elems_of(st, v.f[1], start, n)
        if type(v) is SBytes:
            if start in (None, 0) and (n is None or st.an(n) == st.an(self.seq_len(st, v))):
                return v
            raise Undecided("slice of opaque bytes")
        if type(v) is BytesW:
            if start is None:
                return BytesW(st.wn(v.p))
            l = st.wlen(v.p)
            hi, _ = st.cut(v.p, st.an(lin.sub(l, lin.scale(lin.add(start, n), 2))))
            _, lo = st.cut(hi, st.an(lin.scale(n, 2)))
            return BytesW(lo)
        if isinstance(v, Arr):
            e = v.e
            if start is not None:
                start = st.conc(start)
                n = st.conc(n)
                e = e[start : start + n]
            return e
        raise Undecided("elements of %s" % type(v).__name__)

    def bytes_tuple(self, st, e):
        """explicit bytes of elems(); splits on the length"""
        if type(e) is BytesW:
            n2 = st.conc(st.wlen(e.p))
            ps = st.wn(e.p)
            out = []
            while n2:
                ps, lo = st.cut(ps, 2)
                out.append(from_pieces(st, lo))
                n2 -= 2
            return tuple(reversed(out))
        if type(e) is SBytes:
            raise Undecided("bytes of an opaque string")
        return tuple(e)

    def seq_len(self, st, v):
        if isinstance(v, Arr):
            return len(v.e)
        if type(v) is Over:
            return len(v.base.e)
        if type(v) is SBytes:
            if v.n is not None:
                return v.n
            k = ("len", v.key)
            if k not in st.facts:
                # the length of a string is one variable in all states
                x = self.lens.get(v.key)
                if x is None:
                    x = self.lens[v.key] = lin.var(lin.new_var("len(%s)" % (str(v.key)[:30],)))
                st.facts[k] = x
                st.cons = st.cons + len_range(x)
            return st.facts[k]
        if type(v) is BytesW:
            q, r = st.divmod(st.wlen(v.p), 2)
            return q
        if type(v) is Adt and len(v.f) == 1:
            return self.seq_len(st, v.f[0])
        raise Undecided("length of %s" % type(v).__name__)

    # ---- constants ----
    def const(self, c):
        t = c[0]
        k = c[1]
        if k == "i":
            q = self.peel(t)
            return wrap(c[2], "i", q[2]) if q[0] == "int" and q[1] == "i" else c[2]
        if k == "z":
            return self.zst(t)
        if k == "a":
            try:
                return self.decode(t, c[2], 0)
            except Undecided as e:
                return Opaque("const %s: %s" % (self.tname[t], e))
        return Opaque("const " + self.tname[t])

    def zst(self, t):
        k = self.types[t]
        if k[0] == "fndef":
            return FnVal(k[1])
        if k[0] == "adt":
            if k[2] == "struct":
                return Adt(t, 0, tuple(self.zst(f[1]) for f in k[4][0][2]))
            return Adt(t, 0, ())
        if k[0] == "closure":
            return Adt(t, 0, ())
        if k[0] == "array":
            return Arr(())
        if k[0] == "tuple":
            return Adt(t, 0, tuple(self.zst(x) for x in k[1]))
        return Adt(t, 0, ())

    def new_const(self, v):
        i = self.nconst
        self.nconst -= 1
        self.consts[i] = v
        return i

    def size_of(self, t):
        k = self.peel(t)
        if k[0] == "bool":
            return 1
        if k[0] == "char":
            return 4
        if k[0] == "int":
            return k[2] // 8
        if k[0] in ("ref", "ptr"):
            q = self.types[k[1]]
            return 16 if q[0] in ("slice", "str", "dyn") else 8
        if k[0] == "array":
            return k[2] * self.size_of(k[1])
        if k[0] == "adt" and k[5]:
            return k[5][0]
        if k[0] == "tuple" and not k[1]:
            return 0
        if k[0] == "tuple" and k[2]:
            return k[2][0]
        if k[0] == "fnptr":
            return 8
        raise Undecided("size of " + k[0])

    def decode(self, t, al, off):
        k = self.peel(t)
        b = al["b"]

        def rd(o, n):
            x = 0
            for i in range(n):
                y = b[o + i]
                if y is None:
                    raise Undecided("uninit const")
                x |= y << (8 * i)
            return x

        if k[0] in ("bool", "char"):
            return rd(off, 1 if k[0] == "bool" else 4)
        if k[0] == "int":
            x = rd(off, k[2] // 8)
            if k[1] == "i" and x >> (k[2] - 1):
                x -= 1 << k[2]
            return x
        if k[0] in ("ref", "ptr"):
            prov = None
            for o, p in al["p"]:
                if o == off:
                    prov = p
            q = self.types[k[1]]
            if prov is None:
                if q[0] == "slice" and rd(off + 8, 8) == 0:
                    return Ptr(self.new_const(Arr(())), (), 0, 0)
                if q[0] == "str" and rd(off + 8, 8) == 0:
                    return Ptr(self.new_const(StrV(())), (), 0, 0)
                try:
                    z = self.size_of(k[1])
                except Undecided:
                    z = 1
                if z == 0:
                    return Ptr(self.new_const(self.zst(k[1])), ())
                raise Undecided("integer pointer")
            if prov[0] != "mem":
                return Opaque(prov)
            inner = prov[1]
            o2 = rd(off, 8)
            if q[0] == "str":
                n = rd(off + 8, 8)
                return Ptr(self.new_const(StrV(tuple(inner["b"][o2 : o2 + n]))), (), 0, n)
            if q[0] == "slice":
                n = rd(off + 8, 8)
                es = self.size_of(q[1])
                return Ptr(self.new_const(Arr(tuple(self.decode(q[1], inner, o2 + i * es) for i in range(n)))), (), 0, n)
            return Ptr(self.new_const(self.decode(k[1], inner, o2)), ())
        if k[0] == "array":
            es = self.size_of(k[1])
            return Arr(tuple(self.decode(k[1], al, off + i * es) for i in range(k[2])))
        if k[0] == "tuple" and not k[1]:
            return UNIT
        if k[0] == "tuple" and k[2] and k[2][1] == "one":
            return Adt(t, 0, tuple(self.decode(x, al, off + o) for x, o in zip(k[1], k[2][3])))
        if k[0] == "adt":
            lay = k[5]
            uw = UINTS.get(k[1])
            if uw:
                return UI(uw, rd(off, uw // 8))
            if lay is None:
                raise Undecided("layout")
            if lay[1] == "one":
                v = lay[2]
                offs = lay[3]
                fs = k[4][v][2]
                return Adt(t, v, tuple(self.decode(f[1], al, off + o) for f, o in zip(fs, offs)))
            own, sz, enc, vs = lay[2], lay[3], lay[4], lay[5]
            tag_off = own[0]
            try:
                tag = rd(off + tag_off, sz)
            except Undecided:
                if enc is None:
                    raise
                tag = None
            for o, p in al["p"]:
                if o == off + tag_off:
                    tag = None
            if enc is None:
                v = None
                for i, q in enumerate(k[4]):
                    if (q[1] & ((1 << (8 * sz)) - 1)) == tag:
                        v = i
                if v is None:
                    raise Undecided("tag")
            else:
                unt, lo, hi, ns = enc
                v = unt
                if tag is not None:
                    r = (tag - ns) & ((1 << (8 * sz)) - 1)
                    if r <= hi - lo:
                        v = lo + r
            return Adt(t, v, tuple(self.decode(f[1], al, off + o) for f, o in zip(k[4][v][2], vs[v])))
        raise Undecided("decode " + k[0])

    # ---- compilation of operands ----
    def c_op(self, fn, op):
        if op[0] == "k":
            v = self.const(op[1])
            return lambda st, fr: v
        if op[0] == "rc":
            return lambda st, fr: 0
        pl = op[1]
        l = pl[0]
        if len(pl) == 1:
            return lambda st, fr: fr.L[l]
        lv = self.c_place(fn, pl)
        load = self.load

        def f(st, fr):
            b, p, s, n = lv(st, fr)
            return load(st, b, p)

        return f

    def c_place(self, fn, pl):
        l = pl[0]
        projs = pl[1] if len(pl) > 1 else []
        load = self.load
        thin = {}
        for i, p in enumerate(projs):
            if p == "*":
                thin[i] = self.peel(self.place_ty(fn, [l, projs[: i + 1]]))
            elif p[0] == "f":
                k = self.types[self.place_ty(fn, [l, projs[:i]])]
                if k[0] == "adt" and k[1] in MODELLED:
                    # its value is a sequence, the fields of the real type do not exist
                    def none(st, fr):
                        raise Undecided("field %d of %s" % (p[1], k[1]))

                    return none

        def lv(st, fr):
            base = (fr.depth, l)
            path = ()
            start = n = None
            for i, p in enumerate(projs):
                if p == "*":
                    v = load(st, base, path)
                    t = type(v)
                    if t is Ptr:
                        base = v.base
                        path = v.path
                        start = v.start
                        n = v.n
                        if start is not None:
                            q = thin[i]
                            if q[0] in ("int", "bool", "char", "tuple", "ref", "ptr"):
                                # a thin pointer made from a slice pointer: one element
                                path = path + (start,)
                                start = n = None
                    elif t is BoxV:
                        base = v.id
                        path = ()
                        start = v.start
                        n = v.n
                    else:
                        raise Undecided("deref of %r in %s" % (v, fn.name))
                else:
                    k = p[0]
                    if k == "f":
                        path = path + (p[1],)
                    elif k == "i":
                        i = fr.L[p[1]]
                        if type(i) is W:
                            q = st.wn(i.p)
                            if len(q) == 1 and q[0][0] == "n" and not start:
                                path = path + (("nib", q[0]),)
                                start = n = None
                                continue
                            i = w_conc(st, i)
                        path = path + (st.an(lin.add(i, start or 0)),)
                        start = n = None
                    elif k == "c":
                        if p[2]:
                            m = n if start is not None else self.seq_len(st, load(st, base, path))
                            path = path + (st.an(lin.sub(lin.add(start or 0, m), p[1])),)
                        else:
                            path = path + (st.an(lin.add(start or 0, p[1])),)
                        start = n = None
                    elif k == "s":
                        m = n if start is not None else self.seq_len(st, load(st, base, path))
                        s0 = start or 0
                        end = lin.sub(m, p[2]) if p[3] else p[2]
                        start = st.an(lin.add(s0, p[1]))
                        n = st.an(lin.sub(end, p[1]))
                    elif k == "v":
                        pass
                    else:
                        raise Undecided("projection %r" % (p,))
            return base, path, start, n

        return lv

    def c_assign(self, fn, pl):
        if len(pl) == 1:
            l = pl[0]

            def f(st, fr, v):
                fr.L[l] = v

            return f
        lv = self.c_place(fn, pl)

        def g(st, fr, v):
            b, p, s, n = lv(st, fr)
            self.store(st, b, p, v)

        return g

    def ty_bits(self, t):
        k = self.peel(t)
        if k[0] == "int":
            return k[1], k[2]
        if k[0] == "bool":
            return "u", 1
        if k[0] == "char":
            return "u", 32
        if k[0] == "float":
            return "f", 0
        if k[0] == "adt" and k[2] == "enum":
            return "u", 64
        return None, None

    def c_rv(self, fn, rv):
        k = rv[0]
        if k == "use":
            return self.c_op(fn, rv[1])
        if k == "ref":
            lv = self.c_place(fn, rv[2])

            def f(st, fr):
                b, p, s, n = lv(st, fr)
                return Ptr(b, p, s, n)

            return f
        if k == "bin" or k == "chk":
            op = rv[1]
            x = self.c_op(fn, rv[2])
            y = self.c_op(fn, rv[3])
            sg, w = self.ty_bits(self.op_ty(fn, rv[2]))
            if k == "chk":
                return lambda st, fr: self.checked(st, op, x(st, fr), y(st, fr), sg, w)
            return lambda st, fr: self.binop(st, op, x(st, fr), y(st, fr), sg, w)
        if k == "un":
            x = self.c_op(fn, rv[2])
            op = rv[1]
            sg, w = self.ty_bits(self.op_ty(fn, rv[2])) if op != "PtrMetadata" else (None, None)
            return lambda st, fr: self.unop(st, op, x(st, fr), sg, w)
        if k == "cast":
            x = self.c_op(fn, rv[2])
            return self.c_cast(rv[1], x, self.op_ty(fn, rv[2]), rv[3])
        if k == "discr":
            lv = self.c_place(fn, rv[1])
            ty = self.place_ty(fn, rv[1])
            tk = self.types[ty]
            if tk[0] != "adt":
                return lambda st, fr: 0
            ds = [v[1] for v in tk[4]]
            if tk[1] == "std::cmp::Ordering":
                ds = [-1, 0, 1]

            live = [v[1] for v in tk[4] if all(self.inhabited(x[1]) for x in v[2])]

            def f(st, fr):
                b, p, s, n = lv(st, fr)
                v = self.load(st, b, p)
                if v is None and len(live) == 1:
                    return live[0]
                return self.discr(st, v, ds)

            return f
        if k == "len":
            lv = self.c_place(fn, rv[1])

            def f(st, fr):
                b, p, s, n = lv(st, fr)
                return n if s is not None else self.seq_len(st, self.load(st, b, p))

            return f
        if k == "agg":
            ops = [self.c_op(fn, o) for o in rv[2]]
            a = rv[1]
            if a[0] == "array":
                return lambda st, fr: Arr(tuple([o(st, fr) for o in ops]))
            if a[0] == "tuple":
                return lambda st, fr: Adt(None, 0, tuple([o(st, fr) for o in ops]))
            if a[0] == "adt":
                t, v, af = a[1], a[2], a[3]
                nm = self.types[t][1]
                if nm in UINTS:
                    w = UINTS[nm]

                    def mk(st, fr):
                        arr = ops[0](st, fr)
                        ps = ()
                        for x in arr.e:
                            ps = fixed(st, x, 16) + ps
                        return UI(w, from_pieces(st, ps))

                    return mk
                if af is not None:
                    return lambda st, fr: Adt(t, v, (None,) * af + (ops[0](st, fr),))
                return lambda st, fr: Adt(t, v, tuple([o(st, fr) for o in ops]))
            if a[0] == "closure":
                t = a[1]
                return lambda st, fr: Adt(t, 0, tuple([o(st, fr) for o in ops]))
            if a[0] == "rawptr":

                def f(st, fr):
                    p = ops[0](st, fr)
                    m = ops[1](st, fr)
                    if type(p) is Ptr and type(m) is not Adt:
                        if p.start is not None or not p.path or not isinstance(p.path[-1], int):
                            return Ptr(p.base, p.path, p.start or 0, m)
                        return Ptr(p.base, p.path[:-1], p.path[-1], m)
                    return p

                return f
        if k == "rep":
            x = self.c_op(fn, rv[1])
            n = rv[2]
            return lambda st, fr: Arr((x(st, fr),) * n)
        raise_what = "rvalue %s" % (rv[0:2],)

        def bad(st, fr):
            raise Undecided(raise_what)

        return bad

    def inhabited(self, t):
        k = self.types[t]
        return k[0] != "never" and not (k[0] == "adt" and k[2] == "enum" and not k[4])

    def discr(self, st, v, ds):
        t = type(v)
        if t is SymNode:
            e = st.exp.get(v.name)
            if e is None:
                return SymDiscr(v.name, ds)
            v = e
        elif t is SymCell:
            v = self.cell(st, v)
        if type(v) is Adt:
            return ds[v.v]
        if t is int:  # Ordering and bool-like
            return v
        raise Undecided("discriminant of %r" % (v,))

    def cmp_sym(self, st, op, a, b):
        """comparison with an opaque number: one fact per comparison"""
        ka = a.key if type(a) is Sym else a
        kb = b.key if type(b) is Sym else b
        if ka == kb:
            return op in ("Eq", "Le", "Ge")
        if op == "Ne":
            return not self.cmp_sym(st, "Eq", a, b)
        if op == "Gt":
            return self.cmp_sym(st, "Lt", b, a)
        if op == "Le":
            return not self.cmp_sym(st, "Lt", b, a)
        if op == "Ge":
            return not self.cmp_sym(st, "Lt", a, b)
        return st.cfg.fact(st, ("cmp", op, ka, kb))

    def binop(self, st, op, a, b, sg, w):
        if isinstance(a, int) and isinstance(b, int):
            if op == "Eq":
                return int(a == b)
            if op == "Ne":
                return int(a != b)
            if op == "Lt":
                return int(a < b)
            if op == "Le":
                return int(a <= b)
            if op == "Gt":
                return int(a > b)
            if op == "Ge":
                return int(a >= b)
            if op in ("Add", "AddUnchecked"):
                return wrap(a + b, sg, w)
            if op in ("Sub", "SubUnchecked"):
                return wrap(a - b, sg, w)
            if op in ("Mul", "MulUnchecked"):
                return wrap(a * b, sg, w)
            if op == "BitAnd":
                return a & b
            if op == "BitOr":
                return a | b
            if op == "BitXor":
                return a ^ b
            if op in ("Shl", "ShlUnchecked"):
                return wrap(a << (b % w), sg, w)
            if op in ("Shr", "ShrUnchecked"):
                return a >> (b % w)
            if op == "Div":
                q = abs(a) // abs(b)
                return q if (a < 0) == (b < 0) else -q
            if op == "Rem":
                r = abs(a) % abs(b)
                return -r if a < 0 else r
            if op == "Cmp":
                return Adt(None, (a > b) - (a < b) + 1, ())
            raise Undecided("binop " + op)
        if type(a) is SymDiscr or type(b) is SymDiscr:
            if type(a) is SymDiscr:
                a = a.ds[self.expand(st, SymNode(a.name)).v]
            if type(b) is SymDiscr:
                b = b.ds[self.expand(st, SymNode(b.name)).v]
            return self.binop(st, op, a, b, sg, w)
        if type(a) is Ptr or type(b) is Ptr or type(a) is Opaque or type(b) is Opaque:
            if op in ("Eq", "Ne") and type(a) is Ptr and type(b) is Ptr:
                same = a.base == b.base and a.path == b.path
                if a.base == b.base and (a.start is not None or b.start is not None):
                    if a.start is None or b.start is None or a.path != b.path:
                        raise Undecided("comparison of pointers into one sequence")
                    same = st.eq(a.start, b.start)
                return int(same == (op == "Eq"))
            if op == "Offset" and type(a) is Ptr and isinstance(b, int) and a.start is not None and a.n is not None:
                return Ptr(a.base, a.path, st.an(lin.add(a.start, b)), st.an(lin.sub(a.n, b)))
            if op == "Offset" and type(a) is Ptr and isinstance(b, int) and a.path:
                return Ptr(a.base, a.path[:-1] + (a.path[-1] + b,))
            raise Undecided("binop %s on %r %r" % (op, a, b))
        if type(a) is Adt or type(b) is Adt:
            if type(a) is Adt and type(b) is Adt and not a.f and not b.f and op in ("Eq", "Ne"):
                return int((a.v == b.v) == (op == "Eq"))
            raise Undecided("binop %s on adts" % op)
        if type(a) is HexCh or type(b) is HexCh:
            return self.hexch(st, op, a, b)
        if type(a) is Sym or type(b) is Sym:
            if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                return int(self.cmp_sym(st, op, a, b))
            return Sym((op, getattr(a, "key", a), getattr(b, "key", b)))
        if type(a) not in (int, Aff, W) or type(b) not in (int, Aff, W):
            raise Undecided("binop %s on %r %r" % (op, a, b))
        n = w // 4
        if op == "Eq":
            return int(w_eq(st, a, b, n))
        if op == "Ne":
            return int(not w_eq(st, a, b, n))
        if op == "Le":
            return int(w_le(st, a, b, n))
        if op == "Ge":
            return int(w_le(st, b, a, n))
        if op == "Lt":
            return int(not w_le(st, b, a, n))
        if op == "Gt":
            return int(not w_le(st, a, b, n))
        if op == "Cmp":
            if w_eq(st, a, b, n):
                return Adt(None, 1, ())
            return Adt(None, 0 if w_le(st, a, b, n) else 2, ())
        if op in ("Add", "AddUnchecked", "Sub", "SubUnchecked", "Mul", "MulUnchecked"):
            return self.in_range(st, self.exact(st, op[:3], a, b, w), sg, w)[0]
        if type(a) is W or type(b) is W:
            if op in ("BitAnd", "BitOr", "BitXor"):
                if type(a) is Aff:
                    a = st.conc(a)
                if type(b) is Aff:
                    b = st.conc(b)
                return w_bits(st, op[3:].lower(), a, b, n)
            if type(b) is W:
                return self.binop(st, op, a, w_conc(st, b), sg, w)
            if op in ("Shl", "ShlUnchecked"):
                return w_shl(st, a, b, n)
            if op in ("Shr", "ShrUnchecked"):
                return w_shr(st, a, b, n)
            if op == "Div" and type(b) is int and b and b & (b - 1) == 0:
                return w_shr(st, a, b.bit_length() - 1, n)
            if op == "Rem" and type(b) is int and b and b & (b - 1) == 0:
                return w_bits(st, "and", a, b - 1, n)
            return self.binop(st, op, w_conc(st, a), b, sg, w)
        # affine
        if type(b) is int:
            if op == "Div" and b > 0:
                return st.divmod(a, b)[0]
            if op == "Rem" and b > 0:
                return st.divmod(a, b)[1]
            if op in ("Shr", "ShrUnchecked"):
                return st.divmod(a, 1 << b)[0]
            if op in ("Shl", "ShlUnchecked"):
                return self.in_range(st, lin.scale(a, 1 << b), sg, w)[0]
            if op == "BitAnd" and b & (b + 1) == 0:
                return st.divmod(a, b + 1)[1]
            if op == "BitAnd" and b and (b >> ((b & -b).bit_length() - 1)) & 1 and ((b | (b - 1)) + 1) & (b | (b - 1)) == 0 and (b | (b - 1)) == (1 << w) - 1:
                k = b & -b
                return lin.scale(st.divmod(a, k)[0], k)
        if op == "BitAnd" and type(a) is int:
            return self.binop(st, op, b, a, sg, w)
        if op == "BitOr" and (a == 0 or b == 0):
            return b if a == 0 else a
        return self.binop(st, op, st.conc(a), st.conc(b), sg, w)

    def exact(self, st, op, a, b, w):
        """a op b as a mathematical integer"""
        if op == "Add" and type(a) is W and type(b) is int and b == 0:
            return a
        if op == "Add" and type(b) is W and type(a) is int and a == 0:
            return b
        if op == "Sub" and type(b) is int and b == 0:
            return a
        if type(a) is W:
            a = w_conc(st, a)
        if type(b) is W:
            b = w_conc(st, b)
        if op == "Add":
            return st.an(lin.add(a, b))
        if op == "Sub":
            return st.an(lin.sub(a, b))
        if type(a) is int:
            return lin.scale(b, a)
        if type(b) is int:
            return lin.scale(a, b)
        return lin.scale(b, st.conc(a))

    def in_range(self, st, r, sg, w):
        """(wrapped value, wrapped?)"""
        if type(r) is W:
            return r, 0
        if type(r) is int:
            x = wrap(r, sg, w)
            return x, int(x != r)
        lo, hi = (0, (1 << w) - 1) if sg == "u" else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        if not st.le(lo, r):
            return st.an(lin.add(r, 1 << w)), 1
        if not st.le(r, hi):
            return st.an(lin.sub(r, 1 << w)), 1
        return r, 0

    def checked(self, st, op, a, b, sg, w):
        if type(a) is Sym or type(b) is Sym:
            return Adt(None, 0, (self.binop(st, op, a, b, sg, w), 0))
        if type(a) not in (int, Aff, W) or type(b) not in (int, Aff, W) or op not in ("Add", "Sub", "Mul"):
            raise Undecided("checked %s on %r %r" % (op, a, b))
        return Adt(None, 0, self.in_range(st, self.exact(st, op, a, b, w), sg, w))

    def hexch(self, st, op, a, b):
        if type(a) is int:
            a, b = b, a
        if op in ("Eq", "Ne"):
            if type(b) is int:
                x = ("0123456789ABCDEF" if a.upper else "0123456789abcdef").find(chr(b))
                r = False if x < 0 else st.nib_eq(a.nib, ("c", x, 1))
            else:
                r = st.nib_eq(a.nib, b.nib)
                if r and a.upper != b.upper:
                    r = st.nib_split(a.nib, lambda k: k < 10)
            return int(r == (op == "Eq"))
        c = "0123456789ABCDEF" if a.upper else "0123456789abcdef"
        x = ord(c[st.nib_conc(a.nib)])
        return self.binop(st, op, x, b, "u", 32)

    def unop(self, st, op, a, sg, w):
        if op == "Not":
            if sg == "i":
                return ~st.conc(a)
            if type(a) is Aff:
                a = st.conc(a)
            if type(a) is int:
                return a ^ ((1 << w) - 1)
            return w_not(st, a, w // 4)
        if op == "Neg":
            return wrap(-w_conc(st, a), sg, w)
        if op == "PtrMetadata":
            if type(a) in (Ptr, BoxV):
                return a.n if a.start is not None else UNIT
        raise Undecided("unop %s %r" % (op, a))

    def c_cast(self, kind, x, ft, tt):
        if kind == "IntToInt":
            fs, fw = self.ty_bits(ft)
            ts, tw = self.ty_bits(tt)

            def f(st, fr):
                v = x(st, fr)
                if type(v) is int:
                    return wrap(v, ts, tw)
                if type(v) is Aff:
                    return self.in_range(st, v, ts, tw)[0]
                if type(v) is W:
                    if tw < fw:
                        _, lo = st.cut(fixed(st, v, fw // 4), tw // 4)
                        v = from_pieces(st, lo)
                        return wrap(v, ts, tw) if type(v) is int else v
                    return v
                if type(v) in (Sym, HexCh):
                    return v
                if type(v) is Adt and not v.f:
                    k = self.types[ft if v.t is None else v.t]
                    return wrap(k[4][v.v][1] if k[0] == "adt" else v.v, ts, tw)
                raise Undecided("cast of %r" % (v,))

            return f
        if kind == "IntToFloat":

            def f(st, fr):
                v = x(st, fr)
                return Sym(("float", v.key if type(v) is Sym else v))

            return f
        if kind.startswith("PointerCoercion(Unsize"):
            tk = self.types[ft]

            def f(st, fr):
                v = x(st, fr)
                if type(v) is Ptr and v.start is None:
                    src = self.types[tk[1]] if tk[0] in ("ref", "ptr") else None
                    if src and src[0] == "array":
                        return Ptr(v.base, v.path, 0, src[2])
                    return v
                if type(v) is BoxV:
                    inner = self.root(st, v.id)
                    if isinstance(inner, (Arr, BytesW)):
                        return BoxV(v.id, 0, self.seq_len(st, inner))
                return v

            return f
        if kind == "Transmute":
            return lambda st, fr: self.transmute(st, x(st, fr), ft, tt)
        # pointer to pointer, reify, BoxDerefTransmute ...
        return x

    def transmute(self, st, v, ft, tt):
        fk = self.peel(ft)
        tk = self.peel(tt)
        if fk[0] == "int" and tk[0] == "array":
            n = tk[2]
            if type(v) is Aff:
                v = st.conc(v)
            if type(v) is int:
                return Arr(tuple((v >> (8 * i)) & 255 for i in range(n)))
            return BytesW(le_bytes(st, fixed(st, v, 2 * n), n))
        if fk[0] == "array" and tk[0] == "int":
            return from_pieces(st, le_bytes(st, self.byte_word(st, v), tk[2] // 8))
        if fk[0] in ("ref", "ptr") and tk[0] == "int":
            return Sym(("addr", v.base, v.path))
        if fk[0] == "int" and tk[0] == "int":
            return wrap(v, tk[1], tk[2]) if isinstance(v, int) else v
        if tk[0] == fk[0] or tk[0] in ("ref", "ptr", "fnptr") or fk[0] in ("ref", "ptr"):
            return v
        if tk[0] == "int" and fk[0] in ("char", "bool"):
            return v
        if fk[0] == "int" and tk[0] in ("char", "bool"):
            return v
        if tk[0] == "int" and fk[0] == "adt" and type(v) is Adt and len(v.f) == 1:
            while type(v) is Adt and len(v.f) == 1:
                v = v.f[0]
            return v
        if fk[0] == "int" and tk[0] == "adt" and tk[1] == "std::option::Option" and "NonZero" in self.tname[tt] and type(v) is int:
            nz = tk[4][1][2][0][1]
            return Adt(tt, 0, ()) if v == 0 else Adt(tt, 1, (self.transmute(st, v, ft, nz),))
        if fk[0] == "int" and tk[0] == "adt" and tk[2] == "struct" and len(tk[4][0][2]) == 1:
            return Adt(tt, 0, (self.transmute(st, v, ft, tk[4][0][2][0][1]),))
        raise Undecided("transmute %s -> %s" % (self.tname[ft], self.tname[tt]))

    # ---- blocks ----
    def c_block(self, fn, bb):
        stmts, term = fn.raw[bb]
        out = []
        for s in stmts:
            if s[0] == "=":
                out.append(self.c_stmt(fn, s))
            elif s[0] == "sd":
                lv = self.c_place(fn, s[1])
                var = s[2]

                def f(st, fr, lv=lv, var=var):
                    b, p, _, _ = lv(st, fr)
                    v = self.load(st, b, p)
                    self.store(st, b, p, Adt(None if v is None else v.t, var, () if v is None else v.f))

                out.append(f)
            else:

                def bad(st, fr, k=s[0]):
                    raise Undecided("statement " + k)

                out.append(bad)
        out.append(self.c_term(fn, term))
        fn.code[bb] = out
        return out

    def c_stmt(self, fn, s):
        rv = self.c_rv(fn, s[2])
        pl = s[1]
        if len(pl) == 1:
            l = pl[0]

            def f(st, fr):
                fr.L[l] = rv(st, fr)

            return f
        asg = self.c_assign(fn, pl)
        return lambda st, fr: asg(st, fr, rv(st, fr))

    def c_term(self, fn, t):
        k = t[0]
        if k == "goto":
            n = t[1]
            return lambda st, fr: n
        if k == "sw":
            x = self.c_op(fn, t[1])
            arms = t[2]
            other = t[3]
            d = dict((a[0], a[1]) for a in arms)
            try:
                width = self.ty_bits(self.op_ty(fn, t[1]))[1]
            except (Undecided, TypeError, KeyError, IndexError):
                width = None

            def f(st, fr):
                v = x(st, fr)
                if type(v) is W:
                    for val, b in arms:
                        if w_eq(st, v, val, 32):
                            return b
                    return other
                if type(v) is Aff:
                    v = st.an(v)
                    if type(v) is Aff:
                        for val, b in arms:
                            if st.eq(v, val):
                                return b
                        return other
                if type(v) is SymDiscr:
                    for val, b in arms:
                        if st.cfg.is_variant(st, v.name, v.ds.index(val)):
                            return b
                    return other
                if type(v) is HexCh:
                    for val, b in arms:
                        if self.hexch(st, "Eq", v, val):
                            return b
                    return other
                if isinstance(v, int):
                    if v < 0:
                        if width is None:
                            raise Undecided("switch on a negative number")
                        for val, b in arms:
                            if (val - v) % (1 << width) == 0:
                                return b
                        return other
                    return d.get(v, other)
                if type(v) is Sym:
                    for val, b in arms:
                        if self.cmp_sym(st, "Eq", v, val):
                            return b
                    return other
                raise Undecided("switch on %r" % (v,))

            return f
        if k == "ret":
            return lambda st, fr: -1
        if k == "drop":
            lv = self.c_place(fn, t[1])
            n = t[2]

            def f(st, fr):
                return n

            return f
        if k == "assert":
            x = self.c_op(fn, t[1])
            exp = 1 if t[2] else 0
            n = t[4]
            msg = t[3]
            line = t[5]

            def f(st, fr):
                v = x(st, fr)
                if isinstance(v, int):
                    if v != exp:
                        raise Panic(("assert", str(msg)[:60], fn.name, line))
                    return n
                raise Undecided("assert on %r" % (v,))

            return f
        if k == "call":
            return self.c_call(fn, t)
        if k in ("unr", "resume", "abort"):

            def f(st, fr):
                raise Undecided(k + " reached in " + fn.name)

            return f

        def bad(st, fr):
            raise Undecided("terminator " + str(t)[:80])

        return bad

    def drop(self, st, v, depth):
        pass

    def c_call(self, fn, t):
        target = t[4]
        line = t[5]
        argops = [self.c_op(fn, o) for o in t[2]]
        asg = self.c_assign(fn, t[3])
        try:
            dty = self.place_ty(fn, t[3])
        except Undecided:
            dty = None
        if t[1][0] == "p":
            fop = self.c_op(fn, t[1][1])

            def f(st, fr):
                v = fop(st, fr)
                if type(v) is FnVal:
                    return self.call(st, fr, v.callee, [o(st, fr) for o in argops], asg, target, dty, line)
                raise Undecided("call through pointer")

            return f
        c = t[1][1]
        plan = self.plan(c)
        site = (fn.idx, line, c.get("r") or c["n"])

        def f(st, fr):
            return self.call(st, fr, c, [o(st, fr) for o in argops], asg, target, dty, line, plan)

        return f

    def plan(self, c):
        """how a callee is interpreted: ('b', builtin) | ('f', fn, untuple)"""
        p = c.get("_plan")
        if p is not None:
            return p
        i = c.get("i")
        g = self.fns[i] if i is not None else None
        bi = None
        B = self.builtins
        for nm in (g.deff if g else None, c["n"]):
            if nm in B:
                bi = nm
                break
        if bi is None and g is not None and g.opaque and "impl serde::" in g.deff:
            bi = "serde"
        if bi is None and g is not None and g.kind == "intrinsic":
            nm = "intrinsic:" + (c.get("intr") or g.deff.split("::")[-1])
            if nm in B:
                bi = nm
        p = None
        if "m" in c:
            p = ("f", self.fns[c["m"]], False)
        if p is None and g is not None and g.has_body and not g.opaque:
            untuple = g.clos and c["n"].startswith("std::ops::Fn")
            p = ("f", g, untuple)
        if p is None and g is not None and not g.has_body and g.kind == "item":
            nm = g.deff
            if is_ctor(nm):
                p = ("c", nm.split("::")[-1])
        if p is None:
            p = ("u", g.deff if g else c["n"])
        if bi is not None:
            p = ("b", B[bi], bi, p)
        c["_plan"] = p
        return p

    def call(self, st, fr, c, args, asg, target, dty, line, plan=None):
        if plan is None:
            plan = self.plan(c)
        k = plan[0]
        if k == "f":
            g = plan[1]
            hook = st.cfg.hooks.get(g.deff) if st.cfg is not None else None
            if hook is not None:
                cx = Cx()
                cx.c, cx.dty, cx.I, cx.fr, cx.name, cx.line = c, dty, self, fr, g.deff, line
                r = hook(self, st, args, cx)
                if r is not NotImplemented:
                    asg(st, fr, r)
                    return target
            if st.cfg is not None and g.crate == "eth_trie_utils":
                if any(f.fn is g for f in st.stack):
                    cx = Cx()
                    cx.c, cx.dty, cx.I, cx.fr, cx.name, cx.line = c, dty, self, fr, g.deff, line
                    r = st.cfg.recursion(self, st, g, args, cx)
                    if r is not NotImplemented:
                        asg(st, fr, r)
                        return target
                elif g.idx in st.cfg.watch:
                    st.cfg.on_entry(self, st, g, args)
            if plan[2]:
                tup = args[-1]
                args = args[:-1] + list(tup.f)
            self.push(st, g, args, asg, target)
            return -2
        if k == "b":
            cx = Cx()
            cx.c, cx.dty, cx.I, cx.fr, cx.name, cx.line = c, dty, self, fr, plan[2], line
            r = plan[1](self, st, args, cx)
            if r is NotImplemented:
                return self.call(st, fr, c, args, asg, target, dty, line, plan[3])
            if type(r) is TailCall:
                a = r.args
                pl = self.plan(r.callee)
                return self.call(st, fr, r.callee, a, asg, target, dty, line, pl)
            if target is None:
                raise Panic(("diverges", plan[2], fr.fn.name, line))
            asg(st, fr, r)
            return target
        if k == "c":
            tk = self.types[dty]
            for i, v in enumerate(tk[4]):
                if v[0] == plan[1]:
                    asg(st, fr, Adt(dty, i, tuple(args)))
                    return target
        if target is None:
            raise Panic(("call", c.get("r") or c["n"], fr.fn.name, line))
        raise Undecided("call to %s from %s" % (plan[1], fr.fn.name))

    def push(self, st, g, args, asg, target):
        if len(st.stack) > 400:
            raise Undecided("recursion depth")
        if len(args) != g.argc:
            raise Undecided("arity of %s: %d args" % (g.name, len(args)))
        f = Frame(g, len(st.stack), asg, target)
        for i, a in enumerate(args):
            f.L[i + 1] = a
        st.stack.append(f)
        self.covfn[g.idx] = self.covfn.get(g.idx, 0) + 1

    # ---- driving ----
    def start(self, st, fn, args):
        if len(args) != fn.argc:
            raise Undecided("arity of " + fn.name)
        st.stack.append(Frame(fn, len(st.stack), None, None))
        for i, a in enumerate(args):
            st.stack[-1].L[i + 1] = a
        self.covfn[fn.idx] = self.covfn.get(fn.idx, 0) + 1

    def run(self, st, stop):
        """run until the root returns (True), or a control flow join is reached
        while other states wait (False); raises Fork / Panic / Undecided"""
        cov = self.cov
        while True:
            fr = st.stack[-1]
            fn = fr.fn
            if fn.rpo is None:
                prepare(fn)
            code = fn.code
            bb = fr.bb
            i = fr.i
            try:
                while True:
                    blk = code[bb]
                    if blk is None:
                        blk = self.c_block(fn, bb)
                    if i == 0:
                        cov.add((fn.idx, bb))
                    last = len(blk) - 1
                    while i < last:
                        blk[i](st, fr)
                        i += 1
                    nxt = blk[last](st, fr)
                    st.steps += last + 1
                    if nxt is None:
                        raise Undecided("no target")
                    if nxt >= 0:
                        if fn.rpo[nxt] <= fn.rpo[bb]:
                            fr.visits += 1
                            if fr.visits > MAX_VISITS:
                                raise Undecided("loop without a bound")
                        bb = nxt
                        i = 0
                        if stop and fn.npred[bb] > 1:
                            fr.bb = bb
                            fr.i = 0
                            return False
                        continue
                    break
            except BaseException:
                fr.bb = bb
                fr.i = i
                raise
            fr.bb = bb
            fr.i = last
            if st.steps > MAX_STEPS:
                raise Undecided("step limit")
            if nxt == -1:
                v = fr.L[0]
                if st.cfg is not None and fn.idx in st.cfg.watch:
                    st.cfg.on_exit(self, st, fr, v)
                st.stack.pop()
                if not st.stack:
                    st.extra["ret"] = v
                    return True
                up = st.stack[-1]
                fr.dest(st, up, v)
                if fr.target is None:
                    raise Undecided("return to diverging call")
                up.bb = fr.target
                up.i = 0
            # nxt == -2: callee frame pushed


def successors(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "sw":
        return [a[1] for a in t[2]] + ([t[3]] if t[3] is not None else [])
    if k == "drop":
        return [t[2]]
    if k in ("assert", "call"):
        return [t[4]] if t[4] is not None else []
    return []


def prepare(fn):
    """reverse post order and predecessor counts"""
    n = len(fn.raw)
    seen = [False] * n
    order = []
    stack = [(0, iter(successors(fn.raw[0][1])))]
    seen[0] = True
    np = [0] * n
    while stack:
        b, it = stack[-1]
        for x in it:
            np[x] += 1
            if not seen[x]:
                seen[x] = True
                stack.append((x, iter(successors(fn.raw[x][1]))))
                break
        else:
            order.append(b)
            stack.pop()
    rpo = [n] * n
    for i, b in enumerate(reversed(order)):
        rpo[b] = i
    fn.rpo = rpo
    fn.npred = np


def locals_of(x, out):
    """locals read by an operand / rvalue / terminator given as JSON"""
    if isinstance(x, list):
        if len(x) >= 2 and x[0] in ("c", "m") and isinstance(x[1], list) and x[1] and isinstance(x[1][0], int):
            place_uses(x[1], out)
            return
        for y in x:
            locals_of(y, out)


def place_uses(pl, out):
    out.add(pl[0])
    if len(pl) > 1:
        for p in pl[1]:
            if isinstance(p, list) and p[0] == "i":
                out.add(p[1])


def liveness(fn):
    """live locals at every block entry; address-taken locals are always live"""
    n = len(fn.raw)
    addr = set()
    use = [set() for _ in range(n)]
    kill = [set() for _ in range(n)]
    for b in range(n):
        stmts, term = fn.raw[b]
        u, k = use[b], kill[b]

        def reads(r):
            for x in r:
                if x not in k:
                    u.add(x)

        for s in stmts:
            if s[0] == "=":
                r = set()
                rv = s[2]
                if rv[0] == "ref":
                    place_uses(rv[2], r)
                    addr.add(rv[2][0])
                elif rv[0] in ("discr", "len"):
                    place_uses(rv[1], r)
                else:
                    locals_of(rv, r)
                if len(s[1]) > 1:
                    place_uses(s[1], r)
                reads(r)
                if len(s[1]) == 1:
                    k.add(s[1][0])
            elif s[0] == "sd":
                reads({s[1][0]})
        r = set()
        if term[0] == "sw" or term[0] == "assert":
            locals_of([term[1]], r)
        elif term[0] == "drop":
            pass
        elif term[0] == "call":
            locals_of(term[2], r)
            if term[1][0] == "p":
                locals_of([term[1][1]], r)
            if len(term[3]) > 1:
                place_uses(term[3], r)
        elif term[0] == "ret":
            r.add(0)
        reads(r)
        if term[0] == "call" and len(term[3]) == 1:
            k.add(term[3][0])
    live = [set(u) for u in use]
    changed = True
    while changed:
        changed = False
        for b in range(n - 1, -1, -1):
            o = set()
            for x in successors(fn.raw[b][1]):
                o |= live[x]
            m = use[b] | (o - kill[b])
            if m != live[b]:
                live[b] = m
                changed = True
    fn.live = [frozenset(x | addr) for x in live]


class Freezer:
    """hashable normal form of everything a state can still observe"""

    def __init__(self, st):
        self.st = st
        self.ids = set()
        self.todo = []

    def ref(self, base):
        if type(base) is not tuple and base not in self.ids:
            self.ids.add(base)
            self.todo.append(base)
        return base

    def v(self, x):
        t = type(x)
        st = self.st
        if x is None or t in (int, str, bool):
            return x
        if t is Aff:
            a = st.an(x)
            return a if type(a) is int else ("a",) + a.key()
        if t is W:
            return ("w", st.wn(x.p))
        if t is BytesW:
            return ("bw", st.wn(x.p))
        if t is UI:
            return ("u", x.w, self.v(x.v))
        if t is Adt:
            return ("d", x.t, x.v) + tuple(self.v(y) for y in x.f)
        if t is Over:
            return ("over", self.v(x.base)) + tuple((st.nn(n), self.v(y)) for n, y in x.o)
        if t is tuple and x and x[0] == "nib":
            return ("nib", st.nn(x[1]))
        if isinstance(x, Arr):
            return (t.__name__,) + tuple(self.v(y) for y in x.e)
        if t is Ptr:
            return ("p", self.ref(x.base), tuple(self.v(y) for y in x.path), self.v(x.start), self.v(x.n))
        if t is ArcV:
            return ("arc", self.ref(x.id))
        if t is BoxV:
            return ("box", self.ref(x.id), self.v(x.start), self.v(x.n))
        if t is GuardV:
            return ("g", self.v(x.ptr), x.mode)
        if t is LockV:
            return ("l", self.v(x.v))
        if t is SBytes:
            return ("sb", repr(x.key))
        if t is HexCh:
            return ("h", st.nn(x.nib), x.upper)
        if t is IterV:
            return ("it", x.kind, self.v(x.src) if type(x.src) is Ptr else tuple(self.v(y) for y in x.src), self.v(x.i), self.v(x.j))
        if t is FnVal:
            return ("fn", id(x.callee))
        if t in (SymNode, SymCell):
            return (t.__name__, x.name)
        return (t.__name__, repr(x))


def rough_key(st):
    """equal for states with the same key, cheap to compute"""
    return (
        tuple((f.fn.idx, f.bb, f.i) for f in st.stack),
        tuple(sorted((n, v.v if type(v) is Adt else 0) for n, v in st.exp.items())),
        tuple(sorted(st.lsub.items(), key=lambda x: x[0])),
        tuple(sorted(st.wsub.items())),
        tuple(sorted(st.nsub.items())),
        len(st.extra),
    )


def state_key(st):
    fz = Freezer(st)
    k = []
    for d, f in enumerate(st.stack):
        if f.fn.live is None:
            liveness(f.fn)
        if d == len(st.stack) - 1:
            lv = f.fn.live[f.bb]
            k.append((f.fn.idx, f.bb, f.i, tuple((l, fz.v(f.L[l])) for l in sorted(lv))))
        else:
            k.append((f.fn.idx, f.bb, f.i, tuple(fz.v(x) for x in f.L)))
    k.append(tuple(sorted((n, fz.v(v)) for n, v in st.exp.items())))
    k.append(repr(sorted((n, repr(v)) for n, v in st.extra.items())))
    h = []
    while fz.todo:
        b = fz.todo.pop()
        if b in st.heap:
            h.append((str(b), fz.v(st.heap[b])))
    k.append(tuple(sorted(h, key=lambda x: x[0])))
    k.append((tuple(sorted(st.lsub.items(), key=lambda x: x[0])), tuple(sorted(st.wsub.items())), tuple(sorted(st.nsub.items())), st.phase))
    return tuple(k)


def join(a, b):
    """replace a by the union of two states with the same key; False when the
    domain cannot represent the union exactly"""
    if a.facts.keys() ^ b.facts.keys():
        for k in a.facts.keys() ^ b.facts.keys():
            if k[0] not in ("enc", "len"):
                return False
        for x, y in ((a, b), (b, a)):
            for k in x.facts.keys() - y.facts.keys():
                if k[0] == "len":
                    y.cons = y.cons + len_range(x.facts[k])
                    y.facts[k] = x.facts[k]
                else:
                    y.facts[k] = 6
    fd = [k for k, v in a.facts.items() if not same_fact(b.facts[k], v)]
    if fd:
        # the two cases of one split
        k = fd[0]
        if len(fd) > 1 or a.ndiff != b.ndiff or set(a.cons) != set(b.cons) or a.nmask != b.nmask:
            return False
        if k[0] in ("enc", "kind"):
            a.facts[k] |= b.facts[k]
            return True
        if type(a.facts[k]) is not bool or type(b.facts[k]) is not bool:
            return False
        del a.facts[k]
        return True
    if a.ndiff != b.ndiff:
        return False
    ac, bc = set(a.cons), set(b.cons)
    diff = [n for n in set(a.nmask) | set(b.nmask) if a.nmask.get(n, 0xFFFF) != b.nmask.get(n, 0xFFFF)]
    if ac == bc:
        if len(diff) > 1:
            return False
        for n in diff:
            a.nmask[n] = a.nmask.get(n, 0xFFFF) | b.nmask.get(n, 0xFFFF)
        return True
    if diff:
        return False
    hull = tuple(c for c in a.cons if c in bc)
    for c in ac - bc:
        for d in bc - ac:
            if lin.feasible(hull + (negate(c), negate(d))):
                return False
    a.cons = hull
    return True


def len_range(x):
    """what is known of the length of an opaque string"""
    (v,) = x.d
    return (lin.keyof({v: 1}, -1), lin.keyof({v: -1}, 1 << 40))


def negate(k):
    return lin.keyof(*lin.tighten({v: -x for v, x in k[0]}, -k[1] - 1))


def same_fact(x, y):
    return x is y or (type(x) in (int, bool, Aff) and type(x) is type(y) and x == y)


def analyse(I, st0, limit=200000, after=None, joins=True):
    """all outcomes of st0: (kind, value, state); kind ret|panic|undecided.
    `after(I, st)` is evaluated on final states and may split them."""
    heap = []
    cnt = 0
    worth = {}

    def push(s, fresh=False):
        # a state that was just split must pass its split point before it is joined
        nonlocal cnt
        cnt += 1
        p = []
        for f in s.stack:
            if f.fn.rpo is None:
                prepare(f.fn)
            p.append(f.fn.rpo[f.bb])
        if s.phase:
            p = [1 << 60]
        heapq.heappush(heap, (p, cnt, s, fresh))

    push(st0)
    n = 0
    while heap:
        prio, _, st, fresh = heapq.heappop(heap)
        n += 1
        if n > limit:
            yield ("undecided", "state limit", st)
            return
        if I.late():
            yield ("undecided", "time limit", st)
            return
        if joins and heap and heap[0][0] == prio and not st.phase and not fresh and st.stack[-1].i == 0:
            rough = {rough_key(st): [st]}
            rest = []
            while heap and heap[0][0] == prio:
                e = heapq.heappop(heap)
                s = e[2]
                if e[3] or s.stack[-1].i != 0:
                    rest.append(e)
                    continue
                rough.setdefault(rough_key(s), []).append(s)
            for e in rest:
                heapq.heappush(heap, e)
            todo = []
            for ss in rough.values():
                f = ss[0].stack[-1]
                tries = worth.setdefault((f.fn.idx, f.bb), [0, 0, 0])
                tries[2] += 1
                # where states hardly ever meet, looking for them is not worth it
                if len(ss) == 1 or tries[0] > 64 and tries[1] * 32 < tries[0] and tries[2] % 8:
                    todo += ss
                    continue
                tries[0] += len(ss) - 1
                group = {}
                for s in ss:
                    k = state_key(s)
                    while k in group and not join(group[k], s):
                        k = (k,)
                    if k in group:
                        I.joins += 1
                        tries[1] += 1
                    else:
                        group[k] = s
                todo += group.values()
        else:
            todo = [st]
        for st in todo:
            if len(todo) > 1 and I.late():
                yield ("undecided", "time limit", st)
                return
            try:
                if not st.phase:
                    if not I.run(st, joins and (bool(heap) or len(todo) > 1)):
                        push(st)
                        continue
                    st.phase = 1
                if after is not None:
                    v = after(I, st)
                else:
                    v = st.extra.get("ret")
                I.nstates += 1
                yield ("panic" if "panic" in st.extra else "ret", v, st)
            except Fork as f:
                I.forks += 1
                if I.debug:
                    fr = st.stack[-1] if st.stack else None
                    w = (fr.fn.name[-60:], fr.bb, fr.i, len(f.opts)) if fr else "end"
                    I.forkat[w] = I.forkat.get(w, 0) + 1
                opts = f.opts
                for k in range(len(opts)):
                    s2 = st.copy() if k < len(opts) - 1 else st
                    if opts[k](s2) is not False:
                        push(s2, True)
            except Panic as p:
                st.extra["panic"] = p.args[0]
                st.phase = 1
                push(st)
            except Undecided as u:
                why = str(u)
                I.undec[why] = I.undec.get(why, 0) + 1
                yield ("undecided", why + " @ " + (st.stack[-1].fn.name if st.stack else "end"), st)
            except RecursionError:
                yield ("undecided", "python recursion", st)
            except (AttributeError, TypeError, IndexError, KeyError, ValueError) as e:
                if I.debug:
                    raise
                why = "outside the domain (%s: %s)" % (type(e).__name__, e)
                I.undec[why] = I.undec.get(why, 0) + 1
                yield ("undecided", why + " @ " + (st.stack[-1].fn.name if st.stack else "end"), st)


class TailCall:
    __slots__ = ("callee", "args")

    def __init__(self, callee, args):
        self.callee = callee
        self.args = args


# sequences: their values have no fields
MODELLED = {"std::vec::Vec", "bytes::Bytes", "bytes::BytesMut"}
UINTS = {"ethereum_types::U512": 512, "ethereum_types::U256": 256, "ethereum_types::U128": 128, "ethereum_types::U64": 64}


def is_ctor(nm):
    last = nm.split("::")[-1]
    return last[:1].isupper() and "<" not in last




def wrap(v, sg, w):
    if w is None:
        raise Undecided("width")
    v &= (1 << w) - 1
    if sg == "i" and v >> (w - 1):
        v -= 1 << w
    return v


def le_bytes(st, ps, n):
    """word of n bytes with the byte order reversed"""
    out = ()
    ps = st.wn(ps)
    for _ in range(n):
        ps, lo = st.cut(ps, 2)
        out += lo
    return st.wn(out)
