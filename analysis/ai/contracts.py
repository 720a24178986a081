"""List contracts of nibble functions that loop over their nibbles.

A contract replaces the body only if the obligation of the function (the same
one C12 decides) is discharged in this run."""
from . import conv, lin, nib
from .dom import *

P = "eth_trie_utils::nibbles::Nibbles::"


def words(C, I, st, a):
    out = []
    for x in a:
        v = I.deref(st, x) if type(x) is Ptr else x
        if type(v) is not Adt or v.t != C.nt:
            return None
        n = st.an(v.f[C.ci])
        hi, lo = st.cut(fixed(st, v.f[C.pi].v, 128), n)
        if from_pieces(st, hi) != 0:
            return None
        out.append(lo)
    return out


def diff_any(C):
    def f(I, st, a, cx):
        w = words(C, I, st, a)
        if w is None or len(w) != 2:
            return NotImplemented
        r = st.relate(w[0], w[1])
        if r[0] == "u":
            return st.wlen(st.wn(w[1]))
        if r[0] == "ne":
            return st.wlen(st.wn(r[1]))
        return st.wlen(st.wn(w[0]))

    return f


def diff_eq(C):
    def f(I, st, a, cx):
        w = words(C, I, st, a)
        if w is None or len(w) != 2:
            return NotImplemented
        if not st.eq(st.wlen(w[0]), st.wlen(w[1])):
            raise Panic(("panic", "different lengths", cx.fr.fn.name, cx.line))
        return diff_any(C)(I, st, a, cx)

    return f


def identical(C):
    def f(I, st, a, cx):
        w = words(C, I, st, a)
        if w is None or len(w) != 2:
            return NotImplemented
        return int(st.relate(w[0], w[1])[0] != "ne")

    return f


def hex_prefix(C):
    def f(I, st, a, cx):
        w = words(C, I, st, a[:1])
        if w is None:
            return NotImplemented
        t = 2 if st.eq(a[1], 1) else 0
        q, r = st.divmod(st.wlen(w[0]), 2)
        return BytesW(st.wn(((("c", t + 1, 1),) if st.eq(r, 1) else (("c", t, 1), ("c", 0, 1))) + w[0]))

    return f


HEXP = {P + "to_hex_prefix_encoding": ("nb::to_hex_prefix", hex_prefix)}
TABLE = {
    P + "find_nibble_idx_that_differs_between_nibbles_different_lengths": ("nb::diff_idx_any", diff_any),
    P + "find_nibble_idx_that_differs_between_nibbles_equal_lengths": ("nb::diff_idx_eq", diff_eq),
    P + "nibbles_are_identical_up_to_smallest_count": ("nb::identical_up_to", identical),
}


def proven(I, table=TABLE, obs=nib.OBS):
    """contracts whose obligation holds in this profile"""
    if not hasattr(I, "contracts"):
        I.contracts = {}
    for deff, (root, mk) in table.items():
        if deff in I.contracts or root not in I.roots or not any(f.deff == deff for f in I.fns):
            continue
        found, stats = nib.judge(I, root, obs[root], first=True)
        if not found and not stats["undecided"]:
            I.contracts[deff] = mk
    return I.contracts


def install(C, I, hashing=False):
    if hashing:
        proven(I, HEXP, conv.HP)
    for deff, mk in proven(I).items():
        C.hooks[deff] = mk(C)
