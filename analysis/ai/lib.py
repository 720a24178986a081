"""Transfer functions of library primitives (std containers and pointers,
primitive-types integers, bytes, rlp, keccak, hex, parking_lot locks).

Everything in eth_trie_utils itself is interpreted from its MIR."""
from . import lin
from .lin import Aff
from .dom import *
from .interp import *

B = {}


def b(*names):
    def d(f):
        for n in names:
            B[n] = f
        return f

    return d


def some(dty, v):
    return Adt(dty, 1, (v,))


def none(dty):
    return Adt(dty, 0, ())


def const_fn(v):
    return lambda I, st, a, cx: v


def ident(I, st, a, cx):
    return a[0]


def load1(I, st, a, cx):
    return I.deref(st, a[0])


# ---- byte strings as hashable terms ----


def freeze(I, st, e):
    """term of a byte sequence (result of Interp.elems)"""
    if type(e) is SBytes:
        return ("S", e.key)
    if type(e) is not BytesW:
        e = BytesW(I.byte_word(st, e if isinstance(e, Arr) else VecV(e)))
    return ("B", st.wn(e.p))


def canon(st, k):
    """normal form of a term under the assumptions of st"""
    if type(k) is tuple:
        if len(k) == 2 and k[0] == "B":
            return ("B", st.wn(k[1]))
        if len(k) == 2 and k[0] == "H" and st.cfg is not None:
            r = st.cfg.hash_term(st, k[1])
            if r is not None:
                return canon(st, r)
        return tuple(canon(st, x) for x in k)
    return k


def is_bytes_elems(e):
    return type(e) in (SBytes, BytesW) or all(isinstance(x, (int, W)) for x in e)


def bytes_eq(I, st, x, y):
    if type(x) is SBytes or type(y) is SBytes:
        kx, ky = canon(st, freeze(I, st, x)), canon(st, freeze(I, st, y))
        if kx == ky:
            return True
        for k in (kx, ky):
            if k[0] == "B" and not k[1]:
                return False  # opaque strings are not empty
        return st.cfg.terms_equal(I, st, kx, ky)
    wx = x.p if type(x) is BytesW else I.byte_word(st, VecV(x))
    wy = y.p if type(y) is BytesW else I.byte_word(st, VecV(y))
    return st.words_eq(wx, wy)


def mkseq(e, cls=VecV):
    return e if type(e) in (SBytes, BytesW) else cls(tuple(e))


# ---- panics and logging ----
def do_panic(I, st, a, cx):
    raise Panic(("panic", cx.name, cx.fr.fn.name, cx.line))


for n in (
    "core::panicking::panic",
    "core::panicking::panic_fmt",
    "std::rt::panic_fmt",
    "std::rt::begin_panic",
    "core::panicking::assert_failed",
    "core::panicking::assert_failed_inner",
    "core::panicking::panic_nounwind",
    "core::panicking::panic_nounwind_fmt",
    "core::panicking::unreachable_default_msg",
    "core::panicking::unreachable_display",
    "core::panicking::panic_display",
    "core::panicking::panic_explicit",
    "core::panicking::panic_bounds_check",
    "core::panicking::panic_str_2015",
    "core::slice::index::slice_index_fail",
    "core::option::expect_failed",
    "std::option::expect_failed",
    "std::option::unwrap_failed",
    "std::result::unwrap_failed",
    "std::result::unwrap_failed::unwrap_failed_inner",
    "core::str::slice_error_fail",
):
    B[n] = do_panic

B["log::max_level"] = const_fn(Adt(None, 0, ()))
B["<log::Level as std::cmp::PartialOrd<log::LevelFilter>>::partial_cmp"] = lambda I, st, a, cx: some(None, Adt(None, 2, ()))
B["log::__private_api::loc"] = const_fn(Opaque("loc"))
B["log::__private_api::log"] = const_fn(UNIT)
B["log::__private_api::enabled"] = const_fn(0)


# ---- formatting: opaque unless the check asks for text ----
@b("core::fmt::rt::Argument::<'_>::new_debug", "core::fmt::rt::Argument::<'_>::new_display", "core::fmt::rt::Argument::<'_>::new_lower_hex", "core::fmt::rt::Argument::<'_>::new_upper_hex")
def fmt_arg(I, st, a, cx):
    return Adt(None, 0, (cx.name.split("new_")[1], a[0], cx.c["a"][0] if cx.c["a"] else None))


@b("std::fmt::Arguments::<'a>::new")
def fmt_args(I, st, a, cx):
    return Adt(None, 7, (a[0], a[1]))


@b("std::fmt::Arguments::<'a>::from_str", "std::fmt::Arguments::<'a>::from_str_nonconst")
def fmt_from_str(I, st, a, cx):
    return Adt(None, 8, (a[0],))


def render(I, st, ar):
    """text of fmt::Arguments made of literals and plain {} of strings"""
    if ar.v == 8:
        return I.elems(st, ar.f[0])
    tmpl = I.elems(st, ar.f[0])
    args = I.elems(st, ar.f[1])
    out = []
    i = 0
    k = 0
    while i < len(tmpl):
        x = tmpl[i]
        i += 1
        if x == 0:
            break
        if x < 0x80:
            out.extend(tmpl[i : i + x])
            i += x
        elif x == 0xC0:
            arg = args[k]
            k += 1
            if arg.f[0] != "display":
                raise Undecided("formatting " + arg.f[0])
            v = arg.f[1]
            for _ in range(4):
                w = I.deref(st, v)
                if type(w) is Ptr:
                    v = w
                    continue
                break
            if type(w) is StrV:
                e = w.e
                if v.start is not None:
                    e = e[v.start : v.start + v.n]
                out.extend(e)
            else:
                raise Undecided("display of %s" % type(w).__name__)
        else:
            raise Undecided("format template")
    return tuple(out)


@b("std::fmt::Formatter::<'a>::write_fmt")
def write_fmt(I, st, a, cx):
    if st.extra.get("text") is None:
        return Adt(cx.dty, 0, (UNIT,))
    t = render(I, st, a[1])
    st.extra["text"] = st.extra["text"] + t
    return Adt(cx.dty, 0, (UNIT,))


@b("std::fmt::Formatter::<'a>::write_str")
def write_str(I, st, a, cx):
    if st.extra.get("text") is not None:
        st.extra["text"] = st.extra["text"] + tuple(I.elems(st, a[1]))
    return Adt(cx.dty, 0, (UNIT,))


@b("std::fmt::Formatter::<'a>::write_char")
def write_char(I, st, a, cx):
    if st.extra.get("text") is not None:
        st.extra["text"] = st.extra["text"] + (a[1],)
    return Adt(cx.dty, 0, (UNIT,))


@b("std::fmt::format")
def fmt_format(I, st, a, cx):
    try:
        return StrV(render(I, st, a[0]))
    except (Undecided, AttributeError):
        return SStr("fmt")


# ---- pointers, boxes, arcs, locks ----
@b("std::boxed::Box::<T>::new")
def box_new(I, st, a, cx):
    return BoxV(st.alloc(a[0]))


@b("std::boxed::Box::<T>::new_uninit")
def box_uninit(I, st, a, cx):
    return BoxV(st.alloc(None))


@b("std::boxed::box_assume_init_into_vec_unsafe")
def box_to_vec(I, st, a, cx):
    return mkseq(I.elems_of(st, unwrap_mu(I.root(st, a[0].id))))


def unwrap_mu(v):
    while type(v) is Adt:
        xs = [x for x in v.f if x is not None]
        v = xs[0]
    return v


@b("<std::boxed::Box<T, A> as std::ops::Deref>::deref", "<std::boxed::Box<T, A> as std::ops::DerefMut>::deref_mut", "std::boxed::Box::<T, A>::as_ref", "<std::boxed::Box<T, A> as std::convert::AsRef<T>>::as_ref", "<std::boxed::Box<T, A> as std::borrow::Borrow<T>>::borrow")
def box_deref(I, st, a, cx):
    v = I.deref(st, a[0])
    return Ptr(v.id, (), v.start, v.n)


@b("std::sync::Arc::<T>::new")
def arc_new(I, st, a, cx):
    return ArcV(st.alloc(a[0]))


@b("<std::sync::Arc<T, A> as std::ops::Deref>::deref", "<std::sync::Arc<T, A> as std::convert::AsRef<T>>::as_ref", "<std::sync::Arc<T, A> as std::borrow::Borrow<T>>::borrow", "vharness::models::prim_arc_get_mut")
def arc_deref(I, st, a, cx):
    v = I.deref(st, a[0])
    return Ptr(v.id, ())


B["<std::sync::Arc<T, A> as std::clone::Clone>::clone"] = load1


@b("std::sync::Arc::<T, A>::ptr_eq")
def arc_ptr_eq(I, st, a, cx):
    x, y = I.deref(st, a[0]), I.deref(st, a[1])
    return int(x.id == y.id)


@b("vharness::models::prim_arc_unique")
def arc_unique(I, st, a, cx):
    v = I.deref(st, a[0])
    key = ("unique", v.id)
    r = st.facts.get(key)
    if r is not None:
        return r

    def opt(x):
        def f(s):
            s.facts[key] = x

        return f

    raise Fork([opt(1), opt(0)])


@b("lock_api::rwlock::RwLock::<R, T>::new", "lock_api::mutex::Mutex::<R, T>::new")
def lock_new(I, st, a, cx):
    return LockV(a[0])


@b("<std::sync::Arc<T> as std::default::Default>::default")
def arc_default(I, st, a, cx):
    t = I.types[cx.dty][3][0]
    k = I.types[t]
    if k[0] == "adt" and k[1].endswith("RwLock"):
        o = [x for x in k[3] if isinstance(x, int) and I.types[x][0] == "adt" and I.types[x][1] == "std::option::Option"]
        if len(o) == 1:
            return ArcV(st.alloc(LockV(none(o[0]))))
    return NotImplemented


@b("<lock_api::rwlock::RwLock<R, T> as std::default::Default>::default")
def lock_default(I, st, a, cx):
    # only Option payloads are supported
    k = I.types[cx.c["a"][0]] if cx.c["a"] else None
    t = None
    for x in (I.types[cx.dty][3] if cx.dty is not None else []):
        if isinstance(x, int) and I.types[x][0] == "adt" and I.types[x][1] == "std::option::Option":
            t = x
    if t is None:
        raise Undecided("RwLock::default")
    return LockV(none(t))


def acquire(mode):
    def f(I, st, a, cx):
        return GuardV(a[0], mode)

    return f


B["lock_api::rwlock::RwLock::<R, T>::read"] = acquire("r")
B["lock_api::rwlock::RwLock::<R, T>::write"] = acquire("w")
B["lock_api::rwlock::RwLock::<R, T>::upgradable_read"] = acquire("r")
B["lock_api::rwlock::RwLock::<R, T>::read_recursive"] = acquire("r")


@b("lock_api::rwlock::RwLock::<R, T>::get_mut", "lock_api::rwlock::RwLock::<R, T>::data_ptr")
def lock_get_mut(I, st, a, cx):
    return Ptr(a[0].base, a[0].path + (0,))


@b("lock_api::rwlock::RwLock::<R, T>::into_inner")
def lock_into(I, st, a, cx):
    return a[0].v


@b("<lock_api::rwlock::RwLockReadGuard<'a, R, T> as std::ops::Deref>::deref", "<lock_api::rwlock::RwLockWriteGuard<'a, R, T> as std::ops::Deref>::deref", "<lock_api::rwlock::RwLockWriteGuard<'a, R, T> as std::ops::DerefMut>::deref_mut")
def guard_deref(I, st, a, cx):
    g = I.deref(st, a[0])
    return Ptr(g.ptr.base, g.ptr.path + (0,))


@b("std::mem::drop")
def mem_drop(I, st, a, cx):
    I.drop(st, a[0], 0)
    return UNIT


B["std::mem::forget"] = const_fn(UNIT)


@b("std::mem::replace")
def mem_replace(I, st, a, cx):
    v = I.deref(st, a[0])
    I.store(st, a[0].base, a[0].path, a[1])
    return v


@b("std::mem::swap")
def mem_swap(I, st, a, cx):
    x, y = I.deref(st, a[0]), I.deref(st, a[1])
    I.store(st, a[0].base, a[0].path, y)
    I.store(st, a[1].base, a[1].path, x)
    return UNIT


@b("std::ptr::eq", "std::ptr::addr_eq")
def ptr_eq(I, st, a, cx):
    return int(a[0].base == a[1].base and a[0].path == a[1].path)


@b("std::mem::size_of")
def size_of(I, st, a, cx):
    return I.size_of(cx.c["a"][0])


@b("intrinsic:size_of")
def isize_of(I, st, a, cx):
    return I.size_of(cx.c["a"][0])


# ---- vectors and slices ----
@b("std::vec::Vec::<T>::new", "std::vec::Vec::<T>::with_capacity", "<std::vec::Vec<T> as std::default::Default>::default")
def vec_new(I, st, a, cx):
    return VecV(())


def slice_of(I, st, p):
    v = I.deref(st, p)
    return Ptr(p.base, p.path, 0, I.seq_len(st, v))


def as_slice(I, st, p):
    return p if p.start is not None else slice_of(I, st, p)


def put(I, st, p, v):
    I.store(st, p.base, p.path, v)
    return UNIT


@b(
    "std::vec::Vec::<T, A>::as_slice",
    "std::vec::Vec::<T, A>::as_mut_slice",
    "<std::vec::Vec<T, A> as std::ops::Deref>::deref",
    "<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut",
    "<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref",
    "std::slice::<impl std::borrow::Borrow<[T]> for std::vec::Vec<T, A>>::borrow",
    "std::slice::<impl std::borrow::BorrowMut<[T]> for std::vec::Vec<T, A>>::borrow_mut",
    "<std::vec::Vec<T, A> as std::borrow::Borrow<[T]>>::borrow",
    "<bytes::Bytes as std::ops::Deref>::deref",
    "<bytes::BytesMut as std::ops::Deref>::deref",
    "<bytes::BytesMut as std::ops::DerefMut>::deref_mut",
    "<bytes::Bytes as std::convert::AsRef<[u8]>>::as_ref",
    "<bytes::BytesMut as std::convert::AsRef<[u8]>>::as_ref",
    "std::array::<impl std::convert::AsRef<[T]> for [T; N]>::as_ref",
    "std::array::<impl [T; N]>::as_slice",
)
def vec_slice(I, st, a, cx):
    return slice_of(I, st, a[0])


@b("<std::string::String as std::ops::Deref>::deref", "std::string::String::as_str", "<std::string::String as std::convert::AsRef<str>>::as_ref", "std::string::String::as_bytes", "core::str::<impl str>::as_bytes")
def string_slice(I, st, a, cx):
    v = I.deref(st, a[0])
    if type(v) is SStr:
        return a[0]
    if a[0].start is not None:
        return a[0]
    return slice_of(I, st, a[0])


@b("std::vec::Vec::<T, A>::len", "bytes::Bytes::len", "bytes::BytesMut::len", "std::string::String::len")
def vec_len(I, st, a, cx):
    v = I.deref(st, a[0])
    if type(v) is SStr:
        return Sym(("slen", v.key))
    return I.seq_len(st, v)


@b("std::vec::Vec::<T, A>::is_empty", "bytes::Bytes::is_empty", "bytes::BytesMut::is_empty", "std::string::String::is_empty")
def vec_is_empty(I, st, a, cx):
    v = I.deref(st, a[0])
    if type(v) in (SBytes, SStr):
        return 0
    return int(st.eq(I.seq_len(st, v), 0))


@b("core::slice::<impl [T]>::len", "core::str::<impl str>::len")
def slice_len(I, st, a, cx):
    return a[0].n if a[0].start is not None else I.seq_len(st, I.deref(st, a[0]))


@b("core::slice::<impl [T]>::is_empty", "core::str::<impl str>::is_empty")
def slice_is_empty(I, st, a, cx):
    return int(st.eq(slice_len(I, st, a, cx), 0))


@b("std::vec::Vec::<T, A>::push", "std::string::String::push")
def vec_push(I, st, a, cx):
    v = I.deref(st, a[0])
    if type(v) is BytesW:
        return put(I, st, a[0], BytesW(st.wn(v.p) + fixed(st, a[1], 2)))
    if type(v) is SStr:
        return UNIT
    return put(I, st, a[0], type(v)(v.e + (a[1],)))


@b("std::vec::Vec::<T, A>::pop", "std::string::String::pop")
def vec_pop(I, st, a, cx):
    v = I.deref(st, a[0])
    if type(v) is BytesW:
        v = VecV(I.bytes_tuple(st, v))
    if not v.e:
        return none(cx.dty)
    put(I, st, a[0], type(v)(v.e[:-1]))
    return some(cx.dty, v.e[-1])


@b("std::vec::Vec::<T, A>::clear", "std::string::String::clear")
def vec_clear(I, st, a, cx):
    v = I.deref(st, a[0])
    return put(I, st, a[0], StrV(()) if type(v) in (StrV, SStr) else VecV(()))


@b("std::vec::Vec::<T, A>::truncate", "std::string::String::truncate")
def vec_truncate(I, st, a, cx):
    v = I.deref(st, a[0])
    e = I.bytes_tuple(st, v) if type(v) is BytesW else v.e
    cls = VecV if type(v) is BytesW else type(v)
    n = st.conc(a[1])
    return put(I, st, a[0], cls(e[:n]))


@b("std::vec::Vec::<T, A>::insert")
def vec_insert(I, st, a, cx):
    v = I.deref(st, a[0])
    e = I.bytes_tuple(st, v) if type(v) is BytesW else v.e
    i = w_conc(st, a[1])
    if i > len(e):
        raise Panic(("panic", "Vec::insert index", cx.fr.fn.name, cx.line))
    return put(I, st, a[0], VecV(e[:i] + (a[2],) + e[i:]))


@b("std::vec::Vec::<T, A>::remove", "std::vec::Vec::<T, A>::swap_remove")
def vec_remove(I, st, a, cx):
    v = I.deref(st, a[0])
    e = list(I.bytes_tuple(st, v) if type(v) is BytesW else v.e)
    i = w_conc(st, a[1])
    if i >= len(e):
        raise Panic(("panic", "Vec::remove index", cx.fr.fn.name, cx.line))
    x = e[i]
    if cx.name.endswith("swap_remove"):
        e[i] = e[-1]
        e.pop()
    else:
        del e[i]
    put(I, st, a[0], VecV(tuple(e)))
    return x


for n in ("std::vec::Vec::<T, A>::reserve", "std::vec::Vec::<T, A>::shrink_to_fit", "std::string::String::reserve", "std::vec::Vec::<T, A>::reserve_exact"):
    B[n] = const_fn(UNIT)


def concat(I, st, v, e):
    """a byte vector followed by bytes"""
    if type(v) is VecV and not v.e:
        return mkseq(e)
    if type(e) in (tuple, list) and not e:
        return v
    if type(v) is SBytes or type(e) is SBytes or not is_bytes_elems(e):
        raise Undecided("concatenation of opaque bytes")
    if type(v) is VecV and type(e) is tuple:
        return VecV(v.e + e)
    we = e.p if type(e) is BytesW else I.byte_word(st, VecV(e))
    return BytesW(st.wn(I.byte_word(st, v) + we))


@b("std::vec::Vec::<T, A>::extend_from_slice", "bytes::BytesMut::extend_from_slice")
def vec_extend_slice(I, st, a, cx):
    return put(I, st, a[0], concat(I, st, I.deref(st, a[0]), I.elems(st, a[1])))


@b("std::vec::Vec::<T, A>::append")
def vec_append(I, st, a, cx):
    v = I.deref(st, a[0])
    w = I.deref(st, a[1])
    if type(v) is VecV and type(w) is VecV:
        r = VecV(v.e + w.e)
    else:
        r = concat(I, st, v, I.elems_of(st, w))
    put(I, st, a[0], r)
    return put(I, st, a[1], VecV(()))


@b("std::vec::Vec::<T, A>::into_boxed_slice")
def vec_box(I, st, a, cx):
    v = a[0]
    return BoxV(st.alloc(v if type(v) in (SBytes, BytesW) else Arr(v.e)), 0, I.seq_len(st, v))


# clone / equality fast paths for byte contents; otherwise the Rust models
@b("<std::vec::Vec<T, A> as std::clone::Clone>::clone")
def vec_clone(I, st, a, cx):
    v = I.deref(st, a[0])
    if type(v) in (SBytes, BytesW):
        return v
    if is_bytes_elems(v.e):
        return VecV(v.e)
    return NotImplemented


@b("std::slice::<impl [T]>::to_vec", "std::slice::<impl std::borrow::ToOwned for [T]>::to_owned", "std::slice::<impl [T]>::into_vec")
def slice_to_vec(I, st, a, cx):
    e = I.elems(st, a[0])
    if is_bytes_elems(e):
        return mkseq(e)
    return NotImplemented


@b("<std::vec::Vec<T> as std::convert::From<&[T]>>::from")
def vec_from_slice(I, st, a, cx):
    e = I.elems(st, a[0])
    if is_bytes_elems(e):
        return mkseq(e)
    raise Undecided("Vec::from slice")


@b("<std::vec::Vec<T> as std::convert::From<[T; N]>>::from", "vharness::models::vec_from_array")
def vec_from_array(I, st, a, cx):
    return mkseq(I.elems_of(st, a[0]))


@b("vharness::models::prim_array_from_vec")
def array_from_vec(I, st, a, cx):
    return a[0] if type(a[0]) in (SBytes, BytesW) else Arr(a[0].e)


@b("std::array::<impl std::clone::Clone for [T; N]>::clone")
def array_clone(I, st, a, cx):
    v = I.deref(st, a[0])
    if type(v) in (SBytes, BytesW) or is_bytes_elems(v.e):
        return v
    return NotImplemented


@b("std::vec::partial_eq::<impl std::cmp::PartialEq<std::vec::Vec<U, A2>> for std::vec::Vec<T, A1>>::eq", "core::slice::cmp::<impl std::cmp::PartialEq<[U]> for [T]>::eq", "std::array::equality::<impl std::cmp::PartialEq<[U; N]> for [T; N]>::eq")
def seq_eq(I, st, a, cx):
    x, y = I.elems(st, a[0]), I.elems(st, a[1])
    if is_bytes_elems(x) and is_bytes_elems(y):
        return int(bytes_eq(I, st, x, y))
    return NotImplemented


@b("std::vec::partial_eq::<impl std::cmp::PartialEq<std::vec::Vec<U, A2>> for std::vec::Vec<T, A1>>::ne", "core::slice::cmp::<impl std::cmp::PartialEq<[U]> for [T]>::ne", "std::array::equality::<impl std::cmp::PartialEq<[U; N]> for [T; N]>::ne")
def seq_ne(I, st, a, cx):
    r = seq_eq(I, st, a, cx)
    return r if r is NotImplemented else 1 - r


B["<std::boxed::Box<T, A> as std::ops::Drop>::drop"] = const_fn(UNIT)
B["<std::slice::Iter<'_, T> as std::clone::Clone>::clone"] = load1


def peel_seq(I, st, p):
    """through references to a sequence"""
    for _ in range(3):
        if type(p) is not Ptr or p.start is not None:
            return p
        v = I.deref(st, p)
        if type(v) is not Ptr:
            return p
        p = v
    return p


def mixed_eq(I, st, a, cx):
    r = seq_eq(I, st, [peel_seq(I, st, a[0]), peel_seq(I, st, a[1])], cx)
    if r is NotImplemented:
        return r
    return r if cx.name.endswith("::eq") else 1 - r


for l, r, p in (
    ("std::vec::Vec<T, A>", "[U; N]", "std::vec::partial_eq"),
    ("std::vec::Vec<T, A>", "&[U; N]", "std::vec::partial_eq"),
    ("std::vec::Vec<T, A>", "[U]", "std::vec::partial_eq"),
    ("std::vec::Vec<T, A>", "&[U]", "std::vec::partial_eq"),
    ("std::vec::Vec<T, A>", "&mut [U]", "std::vec::partial_eq"),
    ("[T]", "std::vec::Vec<U, A>", "std::vec::partial_eq"),
    ("&[T]", "std::vec::Vec<U, A>", "std::vec::partial_eq"),
    ("&mut [T]", "std::vec::Vec<U, A>", "std::vec::partial_eq"),
    ("[T; N]", "[U]", "std::array::equality"),
    ("[T]", "[U; N]", "std::array::equality"),
    ("[T; N]", "&[U]", "std::array::equality"),
    ("&[T]", "[U; N]", "std::array::equality"),
):
    for n in ("eq", "ne"):
        B["%s::<impl std::cmp::PartialEq<%s> for %s>::%s" % (p, r, l, n)] = mixed_eq


@b("vharness::models::prim_arc_take")
def arc_take(I, st, a, cx):
    return I.root(st, a[0].id)


@b("vharness::models::prim_any")
def any_bool(I, st, a, cx):
    """either value"""
    i = st.extra.get("any", 0)
    v = st.cfg.fact(st, ("any", i))
    st.extra["any"] = i + 1
    return int(v)


@b("vharness::models::prim_zip_parts")
def zip_parts(I, st, a, cx):
    z = a[0]
    return Adt(None, 0, (Ptr(z.base, z.path + (0,)), Ptr(z.base, z.path + (1,))))


def rng(I, st, r, n, cx):
    """start, end of a range-like index; None for a plain index"""
    if isinstance(r, (int, W, Aff)):
        return None
    k = I.types[r.t] if type(r) is Adt and r.t is not None else None
    nm = k[1].split("::")[-1] if k else ""
    if nm == "Range":
        return r.f[0], r.f[1]
    if nm == "RangeFrom":
        return r.f[0], n
    if nm == "RangeTo":
        return 0, r.f[0]
    if nm == "RangeFull":
        return 0, n
    if nm == "RangeInclusive":
        return r.f[0], I.binop(st, "Add", r.f[1], 1, "u", 64)
    if nm == "RangeToInclusive":
        return 0, I.binop(st, "Add", r.f[0], 1, "u", 64)
    raise Undecided("index by %s" % nm)


def index_slice(I, st, p, r, cx, soft=False):
    n = p.n
    se = rng(I, st, r, n, cx)
    if se is None:
        i = w_conc(st, r) if type(r) is W else r
        if not st.lt(i, n):
            if soft:
                return None
            raise Panic(("panic", "index out of bounds", cx.fr.fn.name, cx.line))
        return Ptr(p.base, p.path + (st.an(lin.add(p.start, i)),))
    s, e = se
    if type(s) is W:
        s = w_conc(st, s)
    if type(e) is W:
        e = w_conc(st, e)
    if not st.le(s, e) or not st.le(e, n):
        if soft:
            return None
        raise Panic(("panic", "slice out of bounds", cx.fr.fn.name, cx.line))
    return Ptr(p.base, p.path, st.an(lin.add(p.start, s)), st.an(lin.sub(e, s)))


@b(
    "<std::vec::Vec<T, A> as std::ops::Index<I>>::index",
    "<std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut",
    "std::array::<impl std::ops::Index<I> for [T; N]>::index",
    "std::array::<impl std::ops::IndexMut<I> for [T; N]>::index_mut",
    "<std::string::String as std::ops::Index<I>>::index",
)
def vec_index(I, st, a, cx):
    return index_slice(I, st, slice_of(I, st, a[0]), a[1], cx)


@b("core::slice::index::<impl std::ops::Index<I> for [T]>::index", "core::slice::index::<impl std::ops::IndexMut<I> for [T]>::index_mut", "core::str::traits::<impl std::ops::Index<I> for str>::index")
def slice_index(I, st, a, cx):
    p = as_slice(I, st, a[0])
    return index_slice(I, st, p, a[1], cx)


@b("core::slice::<impl [T]>::get", "core::slice::<impl [T]>::get_mut", "core::str::<impl str>::get")
def slice_get(I, st, a, cx):
    p = as_slice(I, st, a[0])
    r = index_slice(I, st, p, a[1], cx, True)
    return none(cx.dty) if r is None else some(cx.dty, r)


def at(st, p, i):
    return Ptr(p.base, p.path + (st.an(lin.add(p.start, i)),))


@b("core::slice::<impl [T]>::first", "core::slice::<impl [T]>::first_mut")
def slice_first(I, st, a, cx):
    p = as_slice(I, st, a[0])
    return none(cx.dty) if st.eq(p.n, 0) else some(cx.dty, at(st, p, 0))


@b("core::slice::<impl [T]>::last", "core::slice::<impl [T]>::last_mut")
def slice_last(I, st, a, cx):
    p = as_slice(I, st, a[0])
    return none(cx.dty) if st.eq(p.n, 0) else some(cx.dty, at(st, p, lin.sub(p.n, 1)))


@b("core::slice::<impl [T]>::split_at", "core::slice::<impl [T]>::split_at_mut")
def slice_split(I, st, a, cx):
    p = as_slice(I, st, a[0])
    k = a[1]
    if not st.le(k, p.n):
        raise Panic(("panic", "split_at", cx.fr.fn.name, cx.line))
    return Adt(None, 0, (Ptr(p.base, p.path, p.start, k), Ptr(p.base, p.path, st.an(lin.add(p.start, k)), st.an(lin.sub(p.n, k)))))


@b("core::slice::<impl [T]>::split_first")
def slice_split_first(I, st, a, cx):
    p = as_slice(I, st, a[0])
    if st.eq(p.n, 0):
        return none(cx.dty)
    return some(cx.dty, Adt(None, 0, (at(st, p, 0), Ptr(p.base, p.path, st.an(lin.add(p.start, 1)), st.an(lin.sub(p.n, 1))))))


@b("core::slice::<impl [T]>::copy_from_slice", "core::slice::<impl [T]>::clone_from_slice")
def slice_copy(I, st, a, cx):
    d = as_slice(I, st, a[0])
    e = I.elems(st, a[1])
    n = I.seq_len(st, e if type(e) in (BytesW, SBytes) else VecV(e))
    if not st.eq(n, d.n):
        raise Panic(("panic", "copy_from_slice length", cx.fr.fn.name, cx.line))
    if not is_bytes_elems(e):
        raise Undecided("copy of elements")
    put_range(I, st, d, e)
    return UNIT


def put_range(I, st, d, e):
    """overwrite the slice d by bytes"""
    v = I.deref(st, d)
    if type(e) is SBytes:
        if st.an(d.start) == 0 and st.an(d.n) == st.an(I.seq_len(st, v)):
            put(I, st, d, e)
            return
        raise Undecided("write of opaque bytes")
    if type(e) is tuple and isinstance(v, Arr):
        s, n = st.conc(d.start), st.conc(d.n)
        full = list(v.e)
        full[s : s + n] = e
        I.store(st, d.base, d.path, type(v)(tuple(full)))
        return
    we = e.p if type(e) is BytesW else I.byte_word(st, VecV(e))
    I.store(st, d.base, d.path, I.set_bytes(st, I.byte_word(st, v), d.start, we, d.n))


@b("core::slice::<impl [T]>::reverse")
def slice_reverse(I, st, a, cx):
    p = as_slice(I, st, a[0])
    put_range(I, st, p, tuple(reversed(I.bytes_tuple(st, I.elems(st, p)))))
    return UNIT


@b("core::slice::<impl [T]>::swap")
def slice_swap(I, st, a, cx):
    p = as_slice(I, st, a[0])
    e = list(I.bytes_tuple(st, I.elems(st, p)))
    i, j = w_conc(st, a[1]), w_conc(st, a[2])
    if i >= len(e) or j >= len(e):
        raise Panic(("panic", "swap", cx.fr.fn.name, cx.line))
    e[i], e[j] = e[j], e[i]
    v = I.deref(st, p)
    if isinstance(v, Arr) and p.start == 0 and len(e) == len(v.e):
        put(I, st, p, type(v)(tuple(e)))
    else:
        put_range(I, st, p, tuple(e))
    return UNIT


@b("core::slice::<impl [T]>::fill")
def slice_fill(I, st, a, cx):
    p = as_slice(I, st, a[0])
    n = st.conc(p.n)
    put_range(I, st, p, (a[1],) * n)
    return UNIT


# ---- builtin iterators ----
@b("core::slice::<impl [T]>::iter", "core::slice::<impl [T]>::iter_mut", "core::slice::iter::<impl std::iter::IntoIterator for &'a [T]>::into_iter", "core::slice::iter::<impl std::iter::IntoIterator for &'a mut [T]>::into_iter")
def slice_iter(I, st, a, cx):
    p = as_slice(I, st, a[0])
    if type(I.deref(st, p)) is SBytes:
        raise Undecided("iteration over opaque bytes")
    return IterV("ref", p, 0, p.n)


@b("std::array::<impl std::iter::IntoIterator for &'a [T; N]>::into_iter", "std::array::<impl std::iter::IntoIterator for &'a mut [T; N]>::into_iter", "<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter", "<&'a mut std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter")
def vec_ref_iter(I, st, a, cx):
    p = slice_of(I, st, a[0])
    if type(I.deref(st, p)) is SBytes:
        raise Undecided("iteration over opaque bytes")
    return IterV("ref", p, 0, p.n)


@b("<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter", "std::array::iter::<impl std::iter::IntoIterator for [T; N]>::into_iter")
def vec_into_iter(I, st, a, cx):
    e = I.bytes_tuple(st, I.elems_of(st, a[0]))
    return IterV("own", e, 0, len(e))


@b("std::vec::Vec::<T, A>::drain")
def vec_drain(I, st, a, cx):
    v = I.deref(st, a[0])
    s, e = rng(I, st, a[1], len(v.e), cx)
    s, e = w_conc(st, s), w_conc(st, e)
    if s > e or e > len(v.e):
        raise Panic(("panic", "drain", cx.fr.fn.name, cx.line))
    I.store(st, a[0].base, a[0].path, VecV(v.e[:s] + v.e[e:]))
    return IterV("own", v.e[s:e], 0, e - s)


@b("core::str::<impl str>::chars", "core::str::<impl str>::bytes")
def str_chars(I, st, a, cx):
    e = I.elems(st, a[0])
    return IterV("own", tuple(e), 0, len(e))


ITERS = (
    "<std::slice::Iter<'a, T> as std::iter::Iterator>",
    "<std::slice::IterMut<'a, T> as std::iter::Iterator>",
    "<std::vec::IntoIter<T, A> as std::iter::Iterator>",
    "<std::array::IntoIter<T, N> as std::iter::Iterator>",
    "<std::str::Chars<'a> as std::iter::Iterator>",
    "<std::str::Bytes<'_> as std::iter::Iterator>",
    "<std::vec::Drain<'_, T, A> as std::iter::Iterator>",
)


def it_item(st, it, i):
    if it.kind == "ref":
        return Ptr(it.src.base, it.src.path + (st.an(lin.add(it.src.start, i)),))
    return it.src[i]


def it_next(I, st, a, cx):
    it = I.deref(st, a[0])
    if type(it) is not IterV:
        return NotImplemented
    if not st.lt(it.i, it.j):
        return none(cx.dty)
    put(I, st, a[0], IterV(it.kind, it.src, st.an(lin.add(it.i, 1)), it.j))
    return some(cx.dty, it_item(st, it, it.i))


def it_next_back(I, st, a, cx):
    it = I.deref(st, a[0])
    if type(it) is not IterV:
        return NotImplemented
    if not st.lt(it.i, it.j):
        return none(cx.dty)
    j = st.an(lin.sub(it.j, 1))
    put(I, st, a[0], IterV(it.kind, it.src, it.i, j))
    return some(cx.dty, it_item(st, it, j))


def it_len(I, st, a, cx):
    it = I.deref(st, a[0])
    if type(it) is not IterV:
        return NotImplemented
    return st.an(lin.sub(it.j, it.i))


def it_size_hint(I, st, a, cx):
    it = I.deref(st, a[0])
    if type(it) is not IterV:
        return NotImplemented
    n = st.an(lin.sub(it.j, it.i))
    return Adt(None, 0, (n, Adt(None, 1, (n,))))


for n in ITERS:
    B[n + "::next"] = it_next
    B[n + "::size_hint"] = it_size_hint
    B[n.replace("::Iterator>", "::DoubleEndedIterator>") + "::next_back"] = it_next_back
    for l in (n, n.replace("<'a, ", "<'_, ")):
        B[l.replace("::Iterator>", "::ExactSizeIterator>") + "::len"] = it_len


@b("std::slice::Iter::<'a, T>::as_slice")
def iter_as_slice(I, st, a, cx):
    it = I.deref(st, a[0])
    return Ptr(it.src.base, it.src.path, st.an(lin.add(it.src.start, it.i)), st.an(lin.sub(it.j, it.i)))


def num(st, v):
    return w_conc(st, v) if type(v) is W else v


@b("std::iter::range::<impl std::iter::Iterator for std::ops::Range<A>>::next")
def range_next(I, st, a, cx):
    r = I.deref(st, a[0])
    s, e = num(st, r.f[0]), num(st, r.f[1])
    if not st.lt(s, e):
        return none(cx.dty)
    put(I, st, a[0], Adt(r.t, 0, (st.an(lin.add(s, 1)), e)))
    return some(cx.dty, s)


@b("std::iter::range::<impl std::iter::DoubleEndedIterator for std::ops::Range<A>>::next_back")
def range_next_back(I, st, a, cx):
    r = I.deref(st, a[0])
    s, e = num(st, r.f[0]), num(st, r.f[1])
    if not st.lt(s, e):
        return none(cx.dty)
    e = st.an(lin.sub(e, 1))
    put(I, st, a[0], Adt(r.t, 0, (s, e)))
    return some(cx.dty, e)


@b("std::iter::range::<impl std::iter::Iterator for std::ops::RangeInclusive<A>>::next")
def rangei_next(I, st, a, cx):
    r = I.deref(st, a[0])
    s, e, ex = num(st, r.f[0]), num(st, r.f[1]), r.f[2]
    if ex or not st.le(s, e):
        return none(cx.dty)
    put(I, st, a[0], Adt(r.t, 0, (st.an(lin.add(s, 1)), e, 0) if st.lt(s, e) else (s, e, 1)))
    return some(cx.dty, s)


@b("std::iter::range::<impl std::iter::DoubleEndedIterator for std::ops::RangeInclusive<A>>::next_back")
def rangei_next_back(I, st, a, cx):
    r = I.deref(st, a[0])
    s, e, ex = num(st, r.f[0]), num(st, r.f[1]), r.f[2]
    if ex or not st.le(s, e):
        return none(cx.dty)
    put(I, st, a[0], Adt(r.t, 0, (s, st.an(lin.sub(e, 1)), 0) if st.lt(s, e) else (s, e, 1)))
    return some(cx.dty, e)


@b("std::iter::range::<impl std::iter::Iterator for std::ops::Range<A>>::size_hint")
def range_size_hint(I, st, a, cx):
    r = I.deref(st, a[0])
    s, e = num(st, r.f[0]), num(st, r.f[1])
    n = st.an(lin.sub(e, s)) if st.le(s, e) else 0
    return Adt(None, 0, (n, Adt(None, 1, (n,))))


# ---- strings ----
@b("<std::string::String as std::convert::From<&str>>::from", "std::str::<impl std::borrow::ToOwned for str>::to_owned", "<str as std::string::ToString>::to_string", "<T as std::string::ToString>::to_string", "<str as std::string::SpecToString>::spec_to_string", "<std::string::String as std::convert::From<&std::string::String>>::from")
def string_from(I, st, a, cx):
    v = I.deref(st, a[0])
    if type(v) is SStr:
        return v
    if type(v) is not StrV:
        return SStr("tostring")
    return StrV(tuple(I.elems(st, a[0])))


@b("std::string::String::new", "std::string::String::with_capacity", "<std::string::String as std::default::Default>::default")
def string_new(I, st, a, cx):
    return StrV(())


@b("<std::string::String as std::clone::Clone>::clone")
def string_clone(I, st, a, cx):
    return I.deref(st, a[0])


@b("std::string::String::push_str")
def string_push_str(I, st, a, cx):
    v = I.deref(st, a[0])
    if type(v) is SStr:
        return UNIT
    w = I.deref(st, a[1])
    if type(w) is SStr:
        I.store(st, a[0].base, a[0].path, SStr("concat"))
        return UNIT
    I.store(st, a[0].base, a[0].path, StrV(v.e + tuple(I.elems(st, a[1]))))
    return UNIT


def str_chars_eq(I, st, x, y):
    if len(x) != len(y):
        return False
    for p, q in zip(x, y):
        if not I.binop(st, "Eq", p, q, "u", 32):
            return False
    return True


@b("core::str::traits::<impl std::cmp::PartialEq for str>::eq", "<std::string::String as std::cmp::PartialEq>::eq", "<std::string::String as std::cmp::PartialEq<str>>::eq", "<std::string::String as std::cmp::PartialEq<&'a str>>::eq")
def str_eq(I, st, a, cx):
    v, w = I.deref(st, a[0]), I.deref(st, a[1])
    if type(v) is SStr or type(w) is SStr:
        kx, ky = ("str", getattr(v, "key", None)), ("str", getattr(w, "key", None))
        return int(kx == ky or st.cfg.fact(st, ("eq", kx, ky)))
    return int(str_chars_eq(I, st, I.elems(st, a[0]), I.elems(st, a[1])))


def pat_chars(I, st, p):
    if isinstance(p, int):
        return (p,)
    return I.elems(st, p)


@b("core::str::<impl str>::strip_prefix", "core::str::<impl str>::starts_with")
def strip_prefix(I, st, a, cx):
    if not isinstance(a[1], (int, Ptr)):
        return NotImplemented
    e = I.elems(st, a[0])
    p = pat_chars(I, st, a[1])
    ok = len(e) >= len(p) and str_chars_eq(I, st, e[: len(p)], p)
    if cx.name.endswith("starts_with"):
        return int(ok)
    if not ok:
        return none(cx.dty)
    q = a[0]
    return some(cx.dty, Ptr(q.base, q.path, (q.start or 0) + len(p), len(e) - len(p)))


@b("core::str::<impl str>::trim_start_matches")
def trim_start(I, st, a, cx):
    if not isinstance(a[1], (int, Ptr)):
        return NotImplemented
    e = I.elems(st, a[0])
    p = pat_chars(I, st, a[1])
    k = 0
    while p and len(e) - k >= len(p) and str_chars_eq(I, st, e[k : k + len(p)], p):
        k += len(p)
    q = a[0]
    return Ptr(q.base, q.path, (q.start or 0) + k, len(e) - k)


def hex_enc(upper):
    def f(I, st, a, cx):
        e = I.elems(st, a[0]) if type(a[0]) is Ptr else I.elems_of(st, a[0])
        if type(e) is SBytes:
            return SStr(("hex", e.key))
        out = []
        for x in I.bytes_tuple(st, e):
            hi, lo = st.cut(fixed(st, x, 2), 1)
            for nib in (st.wn(hi)[0], st.wn(lo)[0]):
                if nib[0] == "c":
                    out.append(ord("%X" % nib[1] if upper else "%x" % nib[1]))
                else:
                    out.append(HexCh(nib, upper))
        return StrV(tuple(out))

    return f


B["hex::encode"] = hex_enc(False)
B["hex::encode_upper"] = hex_enc(True)


def parse_hex(I, st, e):
    """word of the hex digits e; None if one is not a hex digit"""
    ps = ()
    for c in e:
        if type(c) is HexCh:
            ps += (c.nib,)
        elif isinstance(c, int):
            n = "0123456789abcdef".find(chr(c).lower())
            if n < 0:
                return None
            ps += (("c", n, 1),)
        else:
            raise Undecided("hex digit %r" % (c,))
    return ps


@b("<ethereum_types::U512 as std::str::FromStr>::from_str")
def u512_from_str(I, st, a, cx):
    e = I.elems(st, a[0])
    if len(e) >= 2 and e[0] == ord("0") and e[1] == ord("x"):
        e = e[2:]
    ps = parse_hex(I, st, e) if len(e) <= 128 else None
    if ps is None:
        return Adt(cx.dty, 1, (Opaque("FromHexError"),))
    return Adt(cx.dty, 0, (UI(512, from_pieces(st, ps)),))


# ---- integers ----
def bitlen(I, st, a, cx):
    w = I.ty_bits(cx.c["a"][0])[1]
    v = a[0]
    if type(v) is Aff:
        v = st.conc(v)
    return w, w_bitlen(st, v, w // 4)


@b("intrinsic:bswap")
def bswap(I, st, a, cx):
    w = I.ty_bits(cx.dty)[1]
    v = a[0]
    if type(v) is Aff:
        v = st.conc(v)
    return from_pieces(st, le_bytes(st, fixed(st, v, w // 4), w // 8))


@b("intrinsic:ctlz", "intrinsic:ctlz_nonzero")
def ctlz(I, st, a, cx):
    w, n = bitlen(I, st, a, cx)
    return st.an(lin.sub(w, n))


@b("intrinsic:cttz")
def cttz(I, st, a, cx):
    w = I.ty_bits(cx.c["a"][0])[1]
    v = w_conc(st, a[0])
    return w if v == 0 else (v & -v).bit_length() - 1


@b("intrinsic:ctpop")
def ctpop(I, st, a, cx):
    return bin(w_conc(st, a[0])).count("1")


def sat(op):
    def f(I, st, a, cx):
        sg, w = I.ty_bits(cx.dty)
        r = I.exact(st, op, a[0], a[1], w)
        if type(r) is W:
            return r
        lo, hi = (0, (1 << w) - 1) if sg == "u" else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        if not st.le(lo, r):
            return lo
        if not st.le(r, hi):
            return hi
        return r

    return f


B["intrinsic:saturating_add"] = sat("Add")
B["intrinsic:saturating_sub"] = sat("Sub")


def wrapping(op):
    def f(I, st, a, cx):
        sg, w = I.ty_bits(cx.dty)
        return I.binop(st, op, a[0], a[1], sg, w)

    return f


for o in ("add", "sub", "mul"):
    B["intrinsic:wrapping_" + o] = wrapping(o.capitalize())


def with_overflow(op):
    def f(I, st, a, cx):
        sg, w = I.ty_bits(cx.c["a"][0])
        return I.checked(st, op, a[0], a[1], sg, w)

    return f


for o in ("add", "sub", "mul"):
    B["intrinsic:%s_with_overflow" % o] = with_overflow(o.capitalize())

for o, op in (("unchecked_shl", "Shl"), ("unchecked_shr", "Shr"), ("unchecked_add", "Add"), ("unchecked_sub", "Sub"), ("unchecked_mul", "Mul"), ("exact_div", "Div"), ("unchecked_div", "Div"), ("unchecked_rem", "Rem")):

    def _f(I, st, a, cx, op=op):
        sg, w = I.ty_bits(cx.dty)
        return I.binop(st, op, a[0], a[1], sg, w)

    B["intrinsic:" + o] = _f


@b("intrinsic:rotate_left", "intrinsic:rotate_right")
def rotate(I, st, a, cx):
    sg, w = I.ty_bits(cx.dty)
    n = w_conc(st, a[1]) % w
    if cx.name.endswith("right"):
        n = (w - n) % w
    if n == 0:
        return a[0]
    return w_bits(st, "or", w_shl(st, a[0], n, w // 4), w_shr(st, a[0], w - n, w // 4), w // 4)


for n in ("cold_path", "assume", "assert_inhabited"):
    B["intrinsic:" + n] = const_fn(UNIT)
B["std::hint::must_use"] = ident
B["std::hint::black_box"] = ident
B["intrinsic:likely"] = ident
B["intrinsic:unlikely"] = ident


@b("intrinsic:three_way_compare")
def twc(I, st, a, cx):
    sg, w = I.ty_bits(cx.c["a"][0])
    return I.binop(st, "Cmp", a[0], a[1], sg, w)


@b("intrinsic:discriminant_value", "std::mem::discriminant")
def discr_value(I, st, a, cx):
    v = I.deref(st, a[0])
    if type(v) is SymNode:
        v = I.expand(st, v)
    if type(v) is SymCell:
        v = I.cell(st, v)
    if cx.name.endswith("discriminant"):
        return Adt(cx.dty, 0, (v.v,))
    k = I.types[cx.c["a"][0] if v.t is None else v.t]
    return k[4][v.v][1] if k[0] == "adt" else v.v


@b("<std::mem::Discriminant<T> as std::cmp::PartialEq>::eq")
def discr_eq(I, st, a, cx):
    return int(I.deref(st, a[0]).f[0] == I.deref(st, a[1]).f[0])


def int_cmp(I, st, a, cx):
    k = I.types[cx.c["a"][0]]
    sg, w = I.ty_bits(cx.c["a"][0])
    if w is None:
        return NotImplemented
    return I.binop(st, "Cmp", I.deref(st, a[0]), I.deref(st, a[1]), sg, w)


@b("std::array::<impl std::clone::Clone for [T; N]>::clone")
def array_clone(I, st, a, cx):
    v = I.deref(st, a[0])
    e = v.base.e if type(v) is Over else v.e if isinstance(v, Arr) else ()
    if e and all(type(x) is ArcV for x in e):
        return v
    return NotImplemented


# ---- primitive-types ----
def ui(I, st, v):
    if type(v) is Ptr:
        v = I.deref(st, v)
        if type(v) is Ptr:
            v = I.deref(st, v)
    if type(v) is UI:
        return v.v
    return v


def ui_w(I, cx):
    k = I.types[cx.dty]
    return UINTS.get(k[1]) if k[0] == "adt" else None


def u_prims(U, WD):
    P = "ethereum_types::" + U
    N = WD // 4

    def word(st, v):
        return st.conc(v) if type(v) is Aff else v

    def bitop(op):
        def g(I, st, a, cx):
            return UI(WD, w_bits(st, op, word(st, ui(I, st, a[0])), word(st, ui(I, st, a[1])), N))

        def ga(I, st, a, cx):
            return put(I, st, a[0], UI(WD, w_bits(st, op, I.deref(st, a[0]).v, word(st, ui(I, st, a[1])), N)))

        return g, ga

    for nm in ("BitAnd", "BitOr", "BitXor"):
        meth = nm.lower()
        g, ga = bitop(nm[3:].lower())
        for q in ("", "<&'a %s>" % P):
            B["<%s as std::ops::%s%s>::%s" % (P, nm, q, meth)] = g
        B["<%s as std::ops::%sAssign>::%s_assign" % (P, nm, meth)] = ga

    B["<%s as std::ops::Not>::not" % P] = lambda I, st, a, cx: UI(WD, w_not(st, ui(I, st, a[0]), N))

    def shamt(I, st, v):
        v = ui(I, st, v)
        if type(v) is W:
            v = w_conc(st, v)
        if type(v) is int and v < 0:
            v += 1 << 64
        return v

    def sh(f):
        def g(I, st, a, cx):
            return UI(WD, f(st, ui(I, st, a[0]), shamt(I, st, a[1]), N))

        def ga(I, st, a, cx):
            return put(I, st, a[0], UI(WD, f(st, I.deref(st, a[0]).v, shamt(I, st, a[1]), N)))

        return g, ga

    for nm, meth, f in (("Shl", "shl", w_shl), ("Shr", "shr", w_shr)):
        g, ga = sh(f)
        B["<%s as std::ops::%s<T>>::%s" % (P, nm, meth)] = g
        B["<&'a %s as std::ops::%s<T>>::%s" % (P, nm, meth)] = g
        B["<%s as std::ops::%sAssign<T>>::%s_assign" % (P, nm, meth)] = ga

    def arith(op, assign):
        def f(I, st, a, cx):
            x = ui(I, st, a[0])
            y = ui(I, st, a[1])
            if isinstance(x, int) and isinstance(y, int):
                r = {"Add": x + y, "Sub": x - y, "Mul": x * y, "Div": (x // y if y else None), "Rem": (x % y if y else None)}[op]
            elif op == "Sub" and y == 1:
                r = w_dec(st, x, N)
            elif op in ("Add", "Sub") and type(y) is int and y == 0:
                r = x
            elif op == "Add" and type(x) is int and x == 0:
                r = y
            elif op in ("Mul", "Div", "Rem") and type(y) is int and y and y & (y - 1) == 0:
                k = y.bit_length() - 1
                if op == "Div":
                    r = w_shr(st, x, k, N)
                elif op == "Rem":
                    r = w_bits(st, "and", x, y - 1, N)
                else:
                    if w_shr(st, x, WD - k, N) != 0:
                        raise Undecided("product of key material")
                    r = w_shl(st, x, k, N)
            elif op == "Sub" and x == (1 << WD) - 1:
                r = w_not(st, y, N)
            elif op == "Add":
                # no carries when one side is zero at every nibble
                for p, q in align(st, fixed(st, x, N), fixed(st, y, N)):
                    if not ((p[0] == "c" and p[1] == 0) or (q[0] == "c" and q[1] == 0)):
                        raise Undecided("sum of key material")
                r = w_bits(st, "or", x, y, N)
            else:
                raise Undecided("%s of key material" % op)
            if r is None or (isinstance(r, int) and (r < 0 or r >> WD)):
                raise Panic(("panic", "arithmetic overflow in %s" % P, cx.fr.fn.name, cx.line))
            r = UI(WD, r)
            return put(I, st, a[0], r) if assign else r

        return f

    for nm in ("Add", "Sub", "Mul", "Div", "Rem"):
        g = arith(nm, False)
        for q in ("", "<T>", "<&'a %s>" % P):
            B["<%s as std::ops::%s%s>::%s" % (P, nm, q, nm.lower())] = g
        g = arith(nm, True)
        for q in ("", "<T>"):
            B["<%s as std::ops::%sAssign%s>::%s_assign" % (P, nm, q, nm.lower())] = g

    def from_int(I, st, a, cx):
        v = ui(I, st, a[0])
        if isinstance(v, int) and v < 0:
            raise Panic(("panic", "unsigned integer from negative", cx.fr.fn.name, cx.line))
        return UI(WD, word(st, v))

    for s in ("u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "isize", "ethereum_types::U128", "ethereum_types::U256", "ethereum_types::U512", "ethereum_types::U64"):
        B["<%s as std::convert::From<%s>>::from" % (P, s)] = from_int

    B["<%s as std::cmp::PartialEq>::eq" % P] = lambda I, st, a, cx: int(w_eq(st, ui(I, st, a[0]), ui(I, st, a[1]), N))

    def cmp(I, st, a, cx):
        return I.binop(st, "Cmp", ui(I, st, a[0]), ui(I, st, a[1]), "u", WD)

    B["<%s as std::cmp::Ord>::cmp" % P] = cmp
    B["<%s as std::cmp::PartialOrd>::partial_cmp" % P] = lambda I, st, a, cx: some(cx.dty, cmp(I, st, a, cx))
    B["<%s as std::default::Default>::default" % P] = lambda I, st, a, cx: UI(WD, 0)
    B[P + "::zero"] = lambda I, st, a, cx: UI(WD, 0)
    B[P + "::one"] = lambda I, st, a, cx: UI(WD, 1)
    B[P + "::max_value"] = lambda I, st, a, cx: UI(WD, (1 << WD) - 1)
    B[P + "::is_zero"] = lambda I, st, a, cx: int(w_eq(st, ui(I, st, a[0]), 0, N))
    B[P + "::bits"] = lambda I, st, a, cx: w_bitlen(st, ui(I, st, a[0]), N)
    B[P + "::leading_zeros"] = lambda I, st, a, cx: st.an(lin.sub(WD, w_bitlen(st, ui(I, st, a[0]), N)))

    def byte(I, st, a, cx):
        i = a[1]
        if not st.lt(i, WD // 8):
            raise Panic(("panic", "byte index", cx.fr.fn.name, cx.line))
        hi, _ = st.cut(fixed(st, ui(I, st, a[0]), N), st.an(lin.scale(i, 2)))
        _, lo = st.cut(hi, 2)
        return from_pieces(st, lo)

    B[P + "::byte"] = byte

    def bitm(I, st, a, cx):
        return w_bits(st, "and", w_shr(st, ui(I, st, a[0]), st.conc(a[1]), N), 1, N)

    B[P + "::bit"] = bitm

    def low(n, strict):
        def f(I, st, a, cx):
            hi, lo = st.cut(fixed(st, ui(I, st, a[0]), N), n // 4)
            if strict and from_pieces(st, hi) != 0 and not st.words_eq(hi, (("c", 0, N - n // 4),)):
                raise Panic(("panic", "integer overflow when casting", cx.fr.fn.name, cx.line))
            return from_pieces(st, lo)

        return f

    for nm, n, s in (("low_u32", 32, False), ("low_u64", 64, False), ("low_u128", 128, False), ("as_u32", 32, True), ("as_u64", 64, True), ("as_u128", 128, True), ("as_usize", 64, True)):
        B[P + "::" + nm] = low(n, s)

    def to_be(I, st, a, cx, le=False):
        d = as_slice(I, st, a[1])
        if not st.le(WD // 8, d.n):
            raise Panic(("panic", "to_big_endian buffer", cx.fr.fn.name, cx.line))
        ps = fixed(st, ui(I, st, a[0]), N)
        if le:
            ps = le_bytes(st, ps, WD // 8)
        put_range(I, st, Ptr(d.base, d.path, d.start, WD // 8), BytesW(ps))
        return UNIT

    B[P + "::to_big_endian"] = to_be
    B[P + "::to_little_endian"] = lambda I, st, a, cx: to_be(I, st, a, cx, True)

    def from_be(I, st, a, cx, le=False):
        e = I.elems(st, a[0])
        if type(e) is SBytes:
            raise Undecided("integer from opaque bytes")
        v = e if type(e) is BytesW else VecV(e)
        n = I.seq_len(st, v)
        if not st.le(n, WD // 8):
            raise Panic(("panic", "from_big_endian length", cx.fr.fn.name, cx.line))
        ps = I.byte_word(st, v)
        if le:
            ps = le_bytes(st, ps, st.conc(n))
        return UI(WD, from_pieces(st, ps))

    B[P + "::from_big_endian"] = from_be
    B[P + "::from_little_endian"] = lambda I, st, a, cx: from_be(I, st, a, cx, True)

    def from_array(I, st, a, cx):
        return from_be(I, st, [Ptr(I.new_const(a[0]), ())], cx)

    B["<%s as std::convert::From<[u8; %d]>>::from" % (P, WD // 8)] = from_array

    for U2, W2 in (("U512", 512), ("U256", 256), ("U128", 128)):

        def try_from(I, st, a, cx, W2=W2):
            v = ui(I, st, a[0])
            if W2 > WD:
                hi, lo = st.cut(fixed(st, v, W2 // 4), N)
                if from_pieces(st, hi) != 0 and not st.words_eq(hi, (("c", 0, W2 // 4 - N),)):
                    return Adt(cx.dty, 1, (Opaque("overflow"),))
                v = from_pieces(st, lo)
            return Adt(cx.dty, 0, (UI(WD, v),))

        B["<%s as std::convert::TryFrom<ethereum_types::%s>>::try_from" % (P, U2)] = try_from

    B["<%s as std::clone::Clone>::clone" % P] = load1


for U, WD in (("U512", 512), ("U256", 256), ("U128", 128), ("U64", 64)):
    u_prims(U, WD)


# ---- H256, bytes, keccak, rlp ----
H = "ethereum_types::H256"


def h_of(I, v):
    return Adt(I.tid.get(H), 0, (v,))


B["<%s as std::clone::Clone>::clone" % H] = load1


@b("<%s as std::cmp::PartialEq>::eq" % H)
def h_eq(I, st, a, cx):
    return int(bytes_eq(I, st, I.elems_of(st, I.deref(st, a[0]).f[0]), I.elems_of(st, I.deref(st, a[1]).f[0])))


@b(H + "::as_bytes", "<%s as std::convert::AsRef<[u8]>>::as_ref" % H, H + "::as_fixed_bytes", "<%s as std::convert::AsRef<[u8; 32]>>::as_ref" % H)
def h_bytes(I, st, a, cx):
    p = a[0]
    return Ptr(p.base, p.path + (0,), 0, 32)


B[H + "::to_fixed_bytes"] = lambda I, st, a, cx: a[0].f[0]
B[H + "::zero"] = lambda I, st, a, cx: h_of(I, Arr((0,) * 32))
B["<%s as std::default::Default>::default" % H] = B[H + "::zero"]


@b(H + "::from_slice")
def h_from_slice(I, st, a, cx):
    e = I.elems(st, a[0])
    if not st.eq(I.seq_len(st, e if type(e) in (SBytes, BytesW) else VecV(e)), 32):
        raise Panic(("panic", "H256::from_slice length", cx.fr.fn.name, cx.line))
    return h_of(I, mkseq(e, Arr))


@b("<%s as std::convert::From<[u8; 32]>>::from" % H)
def h_from_arr(I, st, a, cx):
    return h_of(I, a[0])


@b("<%s as std::convert::From<&'a [u8; 32]>>::from" % H)
def h_from_arr_ref(I, st, a, cx):
    return h_of(I, I.deref(st, a[0]))


@b("bytes::Bytes::copy_from_slice", "bytes::Bytes::from_static", "<bytes::BytesMut as std::convert::From<&[u8]>>::from", "<bytes::Bytes as std::convert::From<&'static [u8]>>::from")
def bytes_copy(I, st, a, cx):
    return mkseq(I.elems(st, a[0]))


@b("bytes::BytesMut::zeroed")
def bytes_zeroed(I, st, a, cx):
    return VecV((0,) * st.conc(a[0]))


@b("bytes::Bytes::new", "bytes::BytesMut::new", "bytes::BytesMut::with_capacity")
def bytes_new(I, st, a, cx):
    return VecV(())


@b("bytes::BytesMut::freeze", "bytes::bytes_mut::<impl std::convert::From<bytes::BytesMut> for bytes::Bytes>::from", "<bytes::Bytes as std::convert::From<std::vec::Vec<u8>>>::from")
def bytes_freeze(I, st, a, cx):
    return a[0]


B["<bytes::Bytes as std::clone::Clone>::clone"] = load1
B["<bytes::BytesMut as std::clone::Clone>::clone"] = load1


@b("<bytes::Bytes as std::cmp::PartialEq>::eq")
def bytes_eq_(I, st, a, cx):
    return int(bytes_eq(I, st, I.elems(st, a[0]), I.elems(st, a[1])))


def any_bytes(I, st, v):
    """byte sequence behind any number of pointers"""
    for _ in range(4):
        if type(v) is Ptr:
            w = I.deref(st, v)
            if type(w) is Ptr:
                v = w
                continue
            return I.elems(st, v)
        break
    return I.elems_of(st, v)


@b("keccak_hash::keccak")
def keccak(I, st, a, cx):
    e = any_bytes(I, st, a[0])
    return h_of(I, SBytes(("kec", freeze(I, st, e)), 32))


@b("rlp::stream::RlpStream::new_list")
def rlp_list(I, st, a, cx):
    return RlpV(st.conc(a[0]), ())


@b("rlp::stream::RlpStream::new")
def rlp_new(I, st, a, cx):
    return RlpV(None, ())


@b("rlp::stream::RlpStream::begin_list")
def rlp_begin(I, st, a, cx):
    s = I.deref(st, a[0])
    if s.n is not None or s.items:
        raise Undecided("nested begin_list")
    I.store(st, a[0].base, a[0].path, RlpV(st.conc(a[1]), ()))
    return a[0]


def rlp_add(I, st, p, item):
    s = I.deref(st, p)
    if s.n is None and s.items:
        raise Undecided("rlp stream with several values")
    I.store(st, p.base, p.path, RlpV(s.n, s.items + (st.cfg.rlp_item(st, item, len(s.items)),)))
    return p


BYTEY = {"std::vec::Vec<u8>", "bytes::Bytes", "bytes::BytesMut", "&[u8]", "[u8]", "&std::vec::Vec<u8>", "&bytes::Bytes"}


@b("rlp::stream::RlpStream::append")
def rlp_append(I, st, a, cx):
    t = I.tname[cx.c["a"][0]]
    if t == "ethereum_types::H256":
        e = I.elems_of(st, I.deref(st, a[1]).f[0])
    elif t in BYTEY:
        e = any_bytes(I, st, a[1])
    else:
        raise Undecided("rlp append of " + t)
    return rlp_add(I, st, a[0], ("s", freeze(I, st, e)))


@b("rlp::stream::RlpStream::append_empty_data")
def rlp_append_empty(I, st, a, cx):
    return rlp_add(I, st, a[0], ("s", ("B", ())))


@b("rlp::stream::RlpStream::append_list")
def rlp_append_list(I, st, a, cx):
    return rlp_add(I, st, a[0], ("l", freeze(I, st, any_bytes(I, st, a[1]))))


@b("rlp::stream::RlpStream::append_raw")
def rlp_append_raw(I, st, a, cx):
    n = st.conc(a[2])
    if n != 1:
        raise Undecided("append_raw of %d items" % n)
    return rlp_add(I, st, a[0], ("r", freeze(I, st, any_bytes(I, st, a[1]))))


@b("rlp::stream::RlpStream::out", "rlp::stream::RlpStream::as_raw")
def rlp_out(I, st, a, cx):
    s = a[0] if type(a[0]) is RlpV else I.deref(st, a[0])
    if s.n is None:
        raise Undecided("rlp stream without a list")
    if len(s.items) != s.n:
        raise Panic(("panic", "rlp list not finished", cx.fr.fn.name, cx.line))
    return SBytes(("rlp", s.n, s.items), None)


@b("rlp::stream::RlpStream::is_finished")
def rlp_fin(I, st, a, cx):
    s = I.deref(st, a[0])
    return int(s.n is None or len(s.items) == s.n)


# misc numeric traits
B["<usize as num_traits::identities::One>::one"] = const_fn(1)
B["<usize as num_traits::identities::Zero>::zero"] = const_fn(0)

# the lock types are reachable under several paths
for n in list(B):
    if "lock_api::rwlock::" in n or "lock_api::mutex::" in n:
        B[n.replace("lock_api::rwlock::", "parking_lot::lock_api::").replace("lock_api::mutex::", "parking_lot::lock_api::")] = B[n]
