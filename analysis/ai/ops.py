"""Obligations of lookup, insert and delete on a trie of unknown shape.

Kinds of findings: v wrong contents or result, p panics although it must not,
h a hash node is not respected, c result not in canonical form."""
from multiprocessing import Pool

from report import UNREPORTED
from . import contracts
from .run import strip, subject
from .trie import *

ASSUME = [
    "values are non-empty and keys plus the path of a node have at most 64 nibbles (the crate's own limit)",
    "the input trie is in canonical form, as every trie built by the operations is (C04 decides this inductively)",
    "dependencies (uint, bytes, parking_lot, std containers) behave as their documentation says; their transfer functions are in analysis/ai/lib.py",
    "memory is not exhausted",
]


def cyclic(I):
    """functions of the crate that can call themselves"""
    if hasattr(I, "cyc"):
        return I.cyc
    cg = I.dump.callgraph()
    out = set()
    for i in [f.idx for f in I.fns if f.crate == "eth_trie_utils"]:
        seen = set()
        todo = list(cg[i])
        while todo:
            j = todo.pop()
            if j == i:
                out.add(i)
                break
            if j not in seen:
                seen.add(j)
                todo += cg[j]
    I.cyc = out
    return out


def result_term(C, I, st, v):
    return None if v.v == 0 else canon(st, freeze(I, st, find_bytes(C, I, st, v)))


SHORT = 4


def make(I, tag, op, shape=None, short=False):
    """shape: of the whole trie, which makes the recursion finite; short: keys of at most SHORT nibbles"""
    S = TSetup(I, tag, op if shape is None else "small")
    contracts.install(S.C, I)
    if shape is not None:
        from . import shapes

        S.C.levels = [ALL]
        S.C.tree = shapes.tree("t", shape)
    if short:
        S.most = SHORT
    return S


def get_ob(tag, root=None, shape=None, short=False):
    def run(I, first=False):
        S = make(I, tag, "get", shape, short)
        t = S.trie()
        k, kw = S.key()
        C = S.C

        def at(I, st, k, v):
            want = spec_get(C, I, st, "t", k)
            got = result_term(C, I, st, v)
            if got != want:
                return ("v", "returns %s where %s is expected" % (show_res(got), show_res(want)))

        def spec(I, st):
            if "panic" in st.extra:
                return ("p", "panics: " + show_panic(st))
            return at(I, st, kw, st.extra["ret"])

        if shape is not None:
            return judge(I, tag + "::get", S, [t, k], spec, first=first)
        return judge(I, root or tag + "::get", S, [t, k], spec, lambda C, I, st, k, v, ty: at(I, st, k, v), cyclic(I), first)

    return run


def insert_ob(tag, vk, root=None, only=None, shape=None, short=False):
    def run(I, first=False):
        S = make(I, tag, "insert", shape, short)
        t = S.trie()
        k, kw = S.key()
        C = S.C
        v = S.entry(vk)
        vt = C.entry(I, S.st, v)

        def at(C, I, st, k, v, ty):
            want = spec_insert(C, I, st, "t", k, vt)
            if want in ("panic", "free"):
                return want == "panic" and ("h", "returns") or None
            n = find_node(C, I, v)
            if n is None:
                return ("v", "no node")
            r = C.same(st, C.contents(I, st, n), want)
            return r and ("v", r)

        def spec(I, st):
            if only is not None:
                return only(C, I, st, t)
            want = spec_insert(C, I, st, "t", kw, vt)
            if want == "free":
                return None
            if "panic" in st.extra:
                if want != "panic":
                    return ("p", "panics: " + show_panic(st))
                return unchanged(C, I, st, t)
            if want == "panic":
                return ("h", "returns although the path leads into a hash node")
            r = C.same(st, C.contents(I, st, t), want)
            if r:
                return lost(r)
            r = C.canonical(I, st, t)
            return r and ("c", r)

        if shape is not None:
            return judge(I, tag + "::insert", S, [t, k, v], spec, first=first)
        return judge(I, root or tag + "::insert", S, [t, k, v], spec, at, cyclic(I), first)

    return run


def lost(r):
    """a difference of hash entries also concerns the hash nodes"""
    return ("vh" if "entry hash" in r else "v", r)


def unchanged(C, I, st, t):
    r = C.same(st, C.contents(I, st, t), C.contents(I, st, SymNode("t", C.N)))
    return r and ("h", "after the panic: " + r)


def delete_ob(tag, table, kind=ALL, pats=None, root=None, only=None, shape=None, short=False):
    """the result carries the kinds the recursive function returned"""

    def run(I, first=False):
        S = make(I, tag, "delete", shape, short)
        t = S.trie(kind=kind)
        k, kw = S.key()
        C = S.C
        C.new = {}
        C.table = table
        C.patterns = pats

        def at(C, I, st, k, v, ty):
            want = spec_delete(C, I, st, "t", k)
            if want == "panic":
                return ("h", "returns")
            if v.v == 0:
                return None if want[0] is None else ("v", "nothing for a stored key")
            if want[0] is None:
                return ("v", "something for a missing key")
            n = find_node(C, I, v)
            if n is None:
                return ("v", "no node")
            if canon(st, freeze(I, st, find_bytes(C, I, st, v))) != want[0]:
                return ("v", "wrong value")
            r = C.same(st, C.contents(I, st, n), want[1])
            if r:
                return ("v", r)
            src = C.kind(st, "t")
            q = C.resolve(I, st, n)
            if type(q) is tuple:
                m = C.kind(st, q[1])
                xk = st.facts.get(("xkind", q[1]), B | H)
                ks = [(b, xk if b == X else 0) for b in KN if m & b]
            else:
                b = C.bit[q.v]
                ks = [(b, 0)]
                if b == X:
                    c = C.resolve(I, st, q.f[C.fi[X]["child"]])
                    ks = [(X, C.kind(st, c[1]) if type(c) is tuple else C.bit[c.v])]
            for x in ks:
                C.new.setdefault(src, set()).add(x)
            return None

        def spec(I, st):
            if only is not None:
                return only(C, I, st, t)
            want = spec_delete(C, I, st, "t", kw)
            if "panic" in st.extra:
                if want != "panic":
                    return ("p", "panics: " + show_panic(st))
                return unchanged(C, I, st, t)
            if want == "panic":
                return ("h", "returns although the path leads into a hash node")
            got = result_term(C, I, st, st.extra["ret"])
            if got != want[0]:
                return ("v", "returns %s where %s is expected" % (show_res(got), show_res(want[0])))
            r = C.same(st, C.contents(I, st, t), want[1])
            if r:
                return lost(r)
            r = C.canonical(I, st, t)
            return r and ("c", r)

        if shape is not None:
            return judge(I, tag + "::delete", S, [t, k], spec, first=first)
        found, stats = judge(I, root or tag + "::delete", S, [t, k], spec, at, cyclic(I), first)
        stats["new"] = C.new
        return found, stats

    return run


def show_panic(st):
    p = st.extra["panic"]
    return "%s in %s" % (p[1], p[2]) if type(p) is tuple and len(p) > 2 else str(p)


def show_res(t):
    return "nothing" if t is None else "the value %s" % (t[1],)


def pair_patterns(full):
    """occupied slots and presence of a value of the branch at the root"""
    if full == "few":
        return SEED + [((0, 15), False), ((0, 15), True), ((0, 7, 15), True), ((14, 15), False), ((15,), True)]
    out = []
    for v in (False, True):
        if full == "all":
            out += [((j, i), v) for i in range(16) for j in range(i)]
            out += [(x, v) for x in ((0, 1, 2), (0, 7, 15), (13, 14, 15), (3, 4, 9))]
        else:
            out += [((j, i), v) for i in range(16) for j in range(i) if j == 0 or i == 15 or i == j + 1]
            out += [(x, v) for x in ((0, 1, 2), (0, 7, 15))]
        out.append((tuple(range(16)), v))
    return out + [((i,), True) for i in range(16)]


SEED = [((3, 9), False), ((3, 9), True), ((5,), True), ((1, 4, 9), False)]


def merge(tab, new):
    d = {kb: dict(x) for kb, x in tab.items()}
    for kb, xs in new.items():
        for b, xk in xs:
            e = d.setdefault(kb, {})
            e[b] = e.get(b, 0) | xk
    return {kb: tuple(sorted(x.items())) for kb, x in d.items()}


def delete_table(I, tag):
    """kinds of nodes the recursive function returns, least fixed point over sample occupancies"""
    tab = {}
    for _ in range(8):
        new = tab
        for f in [delete_ob(tag, tab, ALL & ~B)] + [delete_ob(tag, tab, B, [p]) for p in SEED]:
            new = merge(new, f(I)[1]["new"])
        if new == tab:
            return tab
        tab = new
    return tab


def small():
    """tries of given shapes, decided without an assumption on recursive calls"""
    br = lambda *c, v=False: (B, dict(c), v)
    return [
        E,
        H,
        L,
        (X, H),
        br((3, L), (9, L)),
        br((0, L), (15, H), v=True),
        br((9, L), v=True),
        (X, br((3, L), (9, L))),
        br((0, br((5, L), (6, L))), (15, L), v=True),
        br((2, (X, br((1, L), (4, L)))), (8, H)),
        (X, br((3, br((1, L), (4, L))), (9, L))),
    ]


def cheap(f, short=False):
    f.small = 2 if short else 1
    return f


def smalls(label, ob):
    """ob: shape, short -> runner"""
    from .shapes import show_tree

    out = [("%s, %s" % (label, show_tree(x)), cheap(ob(x, False))) for x in small()]
    return out + [("%s, %s, keys of at most %d nibbles" % (label, show_tree(x), SHORT), cheap(ob(x, True), True)) for x in small() if x not in (E, H)]


def obligations(I, tag, op, full, only=None):
    """(label, runner)"""
    if op == "get":
        return [("%s get" % tag, get_ob(tag))] + smalls("%s get" % tag, lambda x, s: get_ob(tag, shape=x, short=s))
    if op == "insert":
        obs = [("%s insert %s" % (tag, k), insert_ob(tag, k, only=only)) for k in ("val", "hash")]
        for k in ("val", "hash"):
            obs += smalls("%s insert %s" % (tag, k), lambda x, s, k=k: insert_ob(tag, k, only=only, shape=x, short=s))
        return obs
    return deletes(I, tag, full, only) + smalls("%s delete" % tag, lambda x, s: delete_ob(tag, {}, only=only, shape=x, short=s))


def deletes(I, tag, full, only=None):
    with I.within(60):
        tab = delete_table(I, tag)
    if not tab:
        return [("%s delete" % tag, undecided("the recursion of delete is not recognised"))]
    obs = [("%s delete" % tag, delete_ob(tag, tab, ALL & ~B, only=only))]
    for p in pair_patterns(full):
        obs.append(("%s delete, branch %s" % (tag, show_pattern(p)), delete_ob(tag, tab, B, [p], only=only)))
    return [(l, contained(f, tab)) for l, f in obs]


def undecided(why):
    return lambda I, first=False: ([], {"states": 0, "undecided": [why]})


def contained(f, tab):
    """the assumed kinds cover the kinds found"""

    def run(I, first=False):
        found, stats = f(I, first)
        if merge(tab, stats["new"]) != tab:
            stats["undecided"].append("recursive result of a kind that was not assumed")
        return found, stats

    return run


def show_pattern(p):
    return "".join("%x" % i for i in p[0]) + ("+value" if p[1] else "")


# ---- running ----
_I = None
_JOBS = None


def _one(n):
    I = _I
    I.nstates = I.forks = 0
    I.cov.clear()
    I.covfn.clear()
    lab, f = _JOBS[n]
    try:
        with I.within(45 if getattr(f, "small", 0) else 240):
            found, stats = f(I)
    except (Undecided, Mismatch) as e:
        found, stats = [], {"states": 0, "undecided": [str(e)]}
    return n, [x[:3] for x in found], stats["states"], stats["undecided"][:3], len(stats["undecided"]), set(I.cov), set(I.covfn), I.nstates, I.forks


def run_all(I, jobs, procs=8):
    """(label, found, states, undecided) per job; work is shared between processes"""
    global _I, _JOBS
    _I, _JOBS = I, jobs
    out = [None] * len(jobs)
    keep = I.nstates, I.forks, set(I.cov), set(I.covfn)
    ns, nf, cov, covfn = keep
    if len(jobs) == 1:
        res = [_one(0)]
    else:
        with Pool(min(procs, len(jobs))) as p:
            res = list(p.imap_unordered(_one, range(len(jobs))))
    for n, found, states, und, nund, c, cf, a, b in res:
        out[n] = (jobs[n][0], found, states, und, nund)
        ns += a
        nf += b
        cov |= c
        covfn |= cf
    I.nstates, I.forks = ns, nf
    I.cov, I.covfn = cov, dict.fromkeys(covfn, 1)
    return out


def example(I, f, kinds, what):
    """positive example: the rule has to report it, unless code of the crate that it calls is not decided"""
    try:
        with I.within(60):
            found, stats = f(I)
    except (Undecided, Mismatch):
        return
    if not any(set(x[0]) & set(kinds) for x in found) and not stats["undecided"]:
        UNREPORTED.append(what)


EXAMPLES = {
    "get": (get_ob("th", "st::wrong_get"), "v", "a lookup that finds a longer key"),
    "insert": (insert_ob("th", "val", "st::wrong_insert"), "v", "an insert that forgets a value"),
    "delete": (delete_ob("th", {}, ALL & ~B, None, "st::wrong_delete"), "v", "a delete that removes another key"),
    "canon": (insert_ob("th", "val", "st::split_leaf"), "c", "an extension above a leaf"),
    "hash": (insert_ob("th", "val", "st::replace_hash"), "h", "an insert that replaces a hash node"),
}


def decide(rep, I, ops, kinds, examples, full):
    """obligations of the operations for both trie types"""
    for e in examples:
        f, k, what = EXAMPLES[e]
        example(I, f, k, what)
    jobs = []
    for tag in ("th", "ts"):
        for op in ops:
            jobs += obligations(I, tag, op, full)
    report(rep, I, jobs, kinds)


def report(rep, I, jobs, kinds):
    jobs.sort(key=lambda j: -getattr(j[1], "small", 0))
    for lab, found, states, und, nund in run_all(I, jobs):
        key = "%s [%s]" % (lab, I.profile)
        op = lab.split(",")[0]
        rep.count("obligations_" + I.profile)
        rep.count("final_states_" + I.profile, states)
        bad = [f for f in found if set(f[0]) & set(kinds)]
        if bad:
            seen = set()
            for _, text, wit in bad:
                k = "%s [%s]: %s" % (op, I.profile, strip(text))
                if k in seen:
                    continue
                seen.add(k)
                rep.violation(k, "%s: %s (%s) at %s; for %s" % (op, text, I.profile, where(I, lab), wit))
        elif nund:
            rep.undec(key, "%d states, %s" % (nund, und[0]))
        else:
            rep.hold(key)


def where(I, lab):
    tag, op = (lab.split(",")[0].split() + ["?"])[:2]
    return subject(I, "%s::%s" % (tag, op)) if "%s::%s" % (tag, op) in I.roots else lab
