"""Obligations on conversions: hex-prefix, integers, byte strings, text, values."""
from . import lin
from .dom import *
from .nib import Setup, guard, val, same_nibs, same_int, show_val, cutf, MAXN

HP, KEYS, TEXT, VALS = {}, {}, {}, {}
WIDTH = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "U128": 128, "U256": 256, "U512": 512}


def bytes_are(o, v, want, what="result"):
    st = o.st
    e = o.I.elems_of(st, v)
    if type(e) is SBytes:
        raise Undecided("opaque bytes")
    w = e.p if type(e) is BytesW else o.I.byte_word(st, VecV(e))
    if not st.words_eq(w, want):
        return "%s is %s, expected %s" % (what, show_word(st.wn(w)), show_word(st.wn(want)))
    return None


def hp_encode(S):
    v, w = S.nibs("n")
    leaf = S.boolean("leaf")

    def spec(o):
        st = o.st
        g = guard(True, o)
        if g:
            return g
        t = 2 if st.eq(leaf, 1) else 0
        q, r = st.divmod(st.wlen(w), 2)
        if st.eq(r, 1):
            want = (("c", t + 1, 1),) + w
        else:
            want = (("c", t, 1), ("c", 0, 1)) + w
        return val(bytes_are(o, o.value, want, "encoding"))

    return [S.ref(v), leaf], spec


HP["nb::to_hex_prefix"] = hp_encode


def hp_decode(S):
    p, w, n = S.bytes("b", 80)
    S.st.ge0(lin.sub(n, 1))  # the empty string has no flag nibble

    def spec(o):
        st = o.st
        if not st.le(n, 33):
            g = guard(True, o)
            return g or val(None if o.value.v == 1 else "accepts %s bytes" % st.an(n))
        f, rest = cutf(st, w, 1)
        f = st.wn(f)[0]
        x, tail = cutf(st, rest, 1)
        if st.nib_split(f, lambda k: k > 3):
            g = guard(True, o)
            return g or val(None if o.value.v == 1 else "accepts an invalid flag nibble")
        if st.nib_split(f, lambda k: k >= 2):
            return None  # leaf encodings carry a terminator: no claim
        if st.nib_eq(f, ("c", 0, 1)):
            if not st.nib_eq(st.wn(x)[0], ("c", 0, 1)):
                return None  # not the encoding of anything
            want = tail
        else:
            if not st.le(n, 32):
                return None  # more than 64 nibbles
            want = x + tail
        g = guard(True, o)
        if g:
            return g
        if o.value.v != 0:
            return val("rejects the encoding of a sequence")
        return val(same_nibs(o, o.value.f[0], want, "decoded sequence"))

    return [p], spec


HP["nb::from_hex_prefix"] = hp_decode


def significant(st, v, n):
    """word of an integer without leading zeros (splits on their number)"""
    w_bitlen(st, v, n)
    x = from_pieces(st, v.p)
    if type(x) is int:
        return (("c", x, 1),) if 0 < x < 16 else () if x == 0 else int_word(x)
    return x.p


def int_word(x):
    n = (x.bit_length() + 3) // 4
    return int_pieces(x, n)


def from_int(ty, kind):
    n = WIDTH[ty] // 4

    def mk(S):
        v = S.word("v", n)

        def spec(o):
            st = o.st
            want = significant(st, v, n)
            l = st.wlen(st.wn(want))
            if not st.le(l, MAXN):
                return None
            g = guard(True, o)
            if g:
                return g
            if kind == "pad":
                q, r = st.divmod(l, 2)
                if st.eq(r, 1):
                    want = (("c", 0, 1),) + want
            return val(same_nibs(o, o.value, want))

        a = UI(WIDTH[ty], v) if ty[0] == "U" else v
        return [a], spec

    return mk


for ty in WIDTH:
    for kind in ("to", "pad", "from"):
        KEYS["nb::%s_%s" % (kind, ty)] = from_int(ty, kind)


def from_bytes(le):
    def mk(S):
        p, w, n = S.bytes("b", 80)

        def spec(o):
            st = o.st
            if st.eq(n, 0) or not st.le(n, 33):
                return guard(True, o) or val(None if o.value.v == 1 else "accepts %s bytes" % st.an(n))
            if not st.le(n, 32):
                return None
            g = guard(True, o)
            if g:
                return g
            if o.value.v != 0:
                return val("rejects %s bytes" % st.an(n))
            want = o.I.byte_word(st, BytesW(w))
            if le:
                from .interp import le_bytes

                want = le_bytes(st, want, st.conc(n))
            return val(same_nibs(o, o.value.f[0], want))

        return [p], spec

    return mk


KEYS["nb::from_bytes_be"] = from_bytes(False)
KEYS["nb::from_bytes_le"] = from_bytes(True)


def h256(S, name):
    w = S.word(name, 64).p
    t = S.I.tid["ethereum_types::H256"]
    return Adt(t, 0, (BytesW(w),)), w


def from_h256(le):
    def mk(S):
        h, w = h256(S, "h")

        def spec(o):
            st = o.st
            want = w
            if le:
                from .interp import le_bytes

                want = le_bytes(st, w, 32)
            return guard(True, o) or val(same_nibs(o, o.value, want))

        return [h], spec

    return mk


KEYS["nb::from_h256_be"] = from_h256(False)
KEYS["nb::from_h256_le"] = from_h256(True)


def bytes_be(S):
    v, w = S.nibs("n")

    def spec(o):
        st = o.st
        g = guard(True, o)
        if g:
            return g
        q, r = st.divmod(st.wlen(w), 2)
        want = (("c", 0, 1),) + w if st.eq(r, 1) else w
        return val(bytes_are(o, o.value, want))

    return [S.ref(v)], spec


KEYS["nb::bytes_be"] = bytes_be


def num_nibbles(S):
    v = S.word("v", 128)

    def spec(o):
        st = o.st
        g = guard(True, o)
        if g:
            return g
        l = st.wlen(st.wn(significant(st, v, 128)))
        return val(None if st.eq(o.value, l) else "returns %s for %s significant nibbles" % (st.an(o.value), l))

    return [S.ref(UI(512, v))], spec


KEYS["nb::num_nibbles_in_key"] = num_nibbles


def try_u256(S):
    v, w = S.nibs("n")

    def spec(o):
        g = guard(True, o)
        if g:
            return g
        if o.value.v != 0:
            return val("rejects a sequence of %s nibbles" % o.st.wlen(w))
        return val(same_int(o, o.value.f[0].v, W(w), 64))

    return [S.ref(v)], spec


KEYS["nb::try_into_u256"] = try_u256

# ---- text ----


def fmt(upper):
    def mk(S):
        v, w = S.nibs("n")
        S.st.extra["text"] = ()

        def spec(o):
            st = o.st
            g = guard(True, o)
            if g:
                return g
            t = st.extra["text"]
            n = st.conc(st.wlen(w))
            want = [ord("0"), ord("x")]
            ps = st.wn(w)
            digits = []
            for _ in range(n):
                ps, lo = st.cut(ps, 1)
                digits.append(st.wn(lo)[0])
            for d in reversed(digits):
                want.append(d)
            if len(t) != len(want):
                return val("prints %d characters for %d nibbles" % (len(t), n))
            for i, (c, d) in enumerate(zip(t, want)):
                if i < 2:
                    ok = c == d
                else:
                    d = st.nn(d)
                    if type(c) is HexCh:
                        ok = st.nib_eq(c.nib, d) and (bool(c.upper) == upper or st.nib_split(d, lambda k: k < 10))
                    else:
                        k = st.nib_conc(d)
                        ok = c == ord(("%X" if upper else "%x") % k)
                if not ok:
                    return val("character %d of the text is wrong" % i)
            return None

        f = Ptr(S.st.alloc(Opaque("formatter")), ())
        return [S.ref(v), f], spec

    return mk


TEXT["nb::fmt_display"] = fmt(False)
TEXT["nb::fmt_lower"] = fmt(False)
TEXT["nb::fmt_upper"] = fmt(True)


def parse(n, prefix, upper):
    def mk(S):
        w = ()
        e = [ord("0"), ord("x")] if prefix else []
        for i in range(n):
            x = ("n", new_nib("d%d" % i))
            w += (x,)
            e.append(HexCh(x, upper))
        S.show.append(("digits", "w", w))
        p = Ptr(S.st.alloc(StrV(tuple(e))), (), 0, len(e))

        def spec(o):
            g = guard(True, o)
            if g:
                return g
            if o.value.v != 0:
                return val("rejects %d hex digits" % n)
            return val(same_nibs(o, o.value.f[0], w))

        return [p], spec

    return mk


def reject(text):
    def mk(S):
        p = Ptr(S.st.alloc(StrV(tuple(ord(c) for c in text))), (), 0, len(text))

        def spec(o):
            return guard(True, o) or val(None if o.value.v == 1 else "accepts %r" % text)

        return [p], spec

    return mk


PARSE = {}
for n in range(0, MAXN + 1):
    for prefix in (False, True):
        for upper in (False, True):
            PARSE["%d digits%s%s" % (n, ", 0x" if prefix else "", ", upper case" if upper else "")] = parse(n, prefix, upper)
for t in ("0xg", "g", "0x12z4", "hello", "0x 1", "-1", "0x0x1"):
    PARSE["text %r" % t] = reject(t)

# ---- values ----


def value_of(ty):
    n = WIDTH[ty] // 4

    def mk(S):
        v = S.word("v", n)

        def spec(o):
            st = o.st
            g = guard(True, o)
            if g:
                return g
            if vname(o) != "Val":
                return val("becomes a %s entry" % vname(o))
            return val(bytes_are(o, o.value.f[0], fixed(st, v, n), "value"))

        a = UI(WIDTH[ty], v) if ty[0] == "U" else v
        return [a], spec

    return mk


def vname(o, v=None):
    v = o.value if v is None else v
    return o.I.types[o.I.tid["eth_trie_utils::trie_ops::ValOrHash"]][4][v.v][0]


for ty in WIDTH:
    VALS["val::from_" + ty] = value_of(ty)


def value_bytes(slice_):
    def mk(S):
        n = S.st.length("|b|", 0, 1 << 40)
        w = S.st.seq("b", lin.scale(n, 2))
        S.show.append(("b", "w", w))
        x = BytesW(w)
        a = Ptr(S.st.alloc(x), (), 0, n) if slice_ else x

        def spec(o):
            g = guard(True, o)
            if g:
                return g
            if vname(o) != "Val":
                return val("becomes a %s entry" % vname(o))
            return val(bytes_are(o, o.value.f[0], w, "value"))

        return [a], spec

    return mk


VALS["val::from_vec"] = value_bytes(False)
VALS["val::from_slice"] = value_bytes(True)


def value_hash(S):
    h, w = h256(S, "h")

    def spec(o):
        g = guard(True, o)
        if g:
            return g
        if vname(o) != "Hash":
            return val("becomes a %s entry" % vname(o))
        return val(bytes_are(o, o.value.f[0].f[0], w, "hash"))

    return [h], spec


VALS["val::from_H256"] = value_hash


def entry(S, kind):
    t = S.I.tid["eth_trie_utils::trie_ops::ValOrHash"]
    i = [x[0] for x in S.I.types[t][4]].index(kind)
    if kind == "Hash":
        h, w = h256(S, "h")
        return Adt(t, i, (h,)), w
    n = S.st.length("|b|", 0, 1 << 40)
    w = S.st.seq("b", lin.scale(n, 2))
    S.show.append(("b", "w", w))
    return Adt(t, i, (BytesW(w),)), w


def accessor(root, kind):
    """asking an entry of the given kind"""
    asks = "Val" if root.endswith("val") else "Hash"

    def mk(S):
        v, w = entry(S, kind)
        by_ref = "::is_" in root or "::as_" in root
        a = S.ref(v) if by_ref else v

        def payload(o, x):
            if asks == "Hash":
                x = x.f[0]
            return bytes_are(o, x, w, "payload")

        def spec(o):
            r = o.value
            if "expect" in root:
                g = guard(kind == asks, o)
                if g or kind != asks:
                    return g
                return val(payload(o, r))
            g = guard(True, o)
            if g:
                return g
            if "::is_" in root:
                return val(None if bool(r) == (kind == asks) else "answers %s" % bool(r))
            if "::as_" in root:
                if r.v != (1 if kind == asks else 0):
                    return val("answers %s" % ("Some" if r.v else "None"))
                return val(payload(o, o.at(r.f[0])) if r.v else None)
            if r.v != (0 if kind == asks else 1):
                return val("answers %s" % ("Err" if r.v else "Ok"))
            if r.v == 0:
                return val(payload(o, r.f[0]))
            return val(None if vname(o, r.f[0]) == kind else "hands back another kind")

        return [a], spec

    return mk


ACC = {}
for r in ("expect_hash", "expect_val", "is_val", "is_hash", "as_val", "as_hash", "into_val", "into_hash"):
    for k in ("Val", "Hash"):
        ACC[("val::" + r, k)] = accessor("val::" + r, k)
