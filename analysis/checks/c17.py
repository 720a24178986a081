"""C17: lock-held dataflow. No lock is acquired, and no trie walk started, while a guard is live."""
from mir import build, short, succs
from report import Report

ACQ = ("RwLock", "Mutex", "ReentrantMutex", "FairMutex")
ACQ_OPS = ("read", "write", "lock", "upgradable_read", "try_read", "try_write", "try_lock", "read_recursive",
           "read_arc", "write_arc", "lock_arc", "read_for", "write_for", "lock_for", "upgrade")
GUARDS = ("RwLockReadGuard", "RwLockWriteGuard", "MutexGuard", "RwLockUpgradableReadGuard", "MappedRwLock", "MappedMutexGuard", "ArcRwLock", "ArcMutexGuard")


def is_acq(name):
    p = name.replace("<", "::").replace(">", "::").split("::")
    p = [x.strip() for x in p if x.strip()]
    return p[-1] in ACQ_OPS and any(x in ACQ for x in p)


def holds_guard(d, ti, memo):
    """the type owns a lock guard"""
    r = memo.get(ti)
    if r is not None:
        return r
    memo[ti] = False
    k = d.types[ti][1]
    r = False
    if k[0] == "adt":
        if any(g in k[1] for g in GUARDS):
            r = True
        else:
            r = any(holds_guard(d, ft, memo) for v in k[4] for _, ft in v[2])
            if not r and k[1].split("::")[-1] in ("Option", "Box", "Vec", "Arc", "Result"):
                r = any(holds_guard(d, a, memo) for a in k[3] if isinstance(a, int))
    elif k[0] == "tuple":
        r = any(holds_guard(d, a, memo) for a in k[1])
    elif k[0] == "array":
        r = holds_guard(d, k[1], memo)
    elif k[0] == "closure":
        r = any(holds_guard(d, a, memo) for a in k[2] if isinstance(a, int))
    memo[ti] = r
    return r


def moved(op):
    return op[1][0] if op[0] == "m" and len(op[1]) == 1 else None


def analyse(d, fi, memo):
    """(points, live guard locals) at every call: forward may-dataflow"""
    f = d.fns[fi]
    blocks = f["blocks"]
    guards = {i for i, t in enumerate(f["locals"]) if holds_guard(d, t, memo)}
    res = {}
    if not guards:
        for bi, (_, t) in enumerate(blocks):
            if t[0] == "call":
                res[bi] = frozenset()
        return res, guards
    inn = {0: frozenset(i for i in range(1, f["argc"] + 1) if i in guards)}
    work = [0]
    while work:
        b = work.pop()
        s = set(inn[b])
        for st in blocks[b][0]:
            if st[0] == "=":
                rv = st[2]
                if rv[0] == "use":
                    m = moved(rv[1])
                    if m is not None:
                        s.discard(m)
                elif rv[0] == "agg":
                    for o in rv[2]:
                        m = moved(o)
                        if m is not None:
                            s.discard(m)
                if st[1][0] in guards and rv[0] != "ref":
                    # constants such as None hold nothing
                    if not (rv[0] == "agg" and not rv[2]):
                        s.add(st[1][0])
        t = blocks[b][1]
        if t[0] == "call":
            for o in t[2]:
                m = moved(o)
                if m is not None:
                    s.discard(m)
            res[b] = frozenset(s)
            if t[3][0] in guards:
                s.add(t[3][0])
        elif t[0] == "drop" and len(t[1]) == 1:
            s.discard(t[1][0])
        o = frozenset(s)
        for n in succs(t):
            old = inn.get(n)
            new = o if old is None else old | o
            if new != old:
                inn[n] = new
                work.append(n)
    return res, guards


def find(d, rep=None):
    """list of (fn, line, kind, text)"""
    memo = {}
    cg = d.callgraph()
    n = len(d.fns)
    acq = {i for i in range(n) if is_acq(d.fns[i]["name"]) or is_acq(d.fns[i]["def"])}
    rec = {i for i in d.sccs() if d.in_crate(i)}
    heavy = {i for i in range(n) if d.fns[i]["crate"] in ("keccak_hash", "tiny_keccak")}
    # functions that may reach an acquisition / a recursive trie walk
    def back(t):
        rev = [[] for _ in range(n)]
        for a in range(n):
            for b in cg[a]:
                rev[b].append(a)
        s = set(t)
        q = list(t)
        while q:
            x = q.pop()
            for y in rev[x]:
                if y not in s:
                    s.add(y)
                    q.append(y)
        return s
    may_lock = back(acq)
    may_walk = back(rec | heavy)
    res = []
    sites = 0
    for fi, f in enumerate(d.fns):
        if "blocks" not in f or f["crate"] not in ("eth_trie_utils", "vharness") or "::models::" in f["name"]:
            continue
        live, guards = analyse(d, fi, memo)
        if rep:
            rep.count("functions")
            rep.count("guard locals", len(guards))
        for bi, c, args, dest, tgt, line in d.calls(fi):
            if rep:
                rep.count("call sites")
            ci = c.get("i") if c else None
            if ci in acq:
                sites += 1
                if rep and d.in_crate(fi):
                    rep.count("acquisitions in crate")
            if not live.get(bi):
                continue
            nm = short(c.get("r") or c["n"]) if c else "a function value"
            if rep and d.in_crate(fi):
                rep.count("calls under a guard")
            if c is None or "unres" in c or "virt" in c:
                res.append((fi, line, "unknown", "calls %s (unresolved) while a lock guard is live" % nm))
            elif ci in may_lock:
                res.append((fi, line, "nested", "calls %s, which acquires a lock, while a lock guard is live" % nm))
            elif ci in may_walk:
                res.append((fi, line, "walk", "calls %s, which walks tries or hashes, while a lock guard is live" % nm))
        # a guard that outlives the function
        rt = f["locals"][0]
        if holds_guard(d, rt, memo) and d.in_crate(fi) and not f.get("clos"):
            if rep:
                rep.count("functions returning a guard")
            if fi in {i for k, i in d.roots.items()}:
                res.append((fi, f["line"], "escape", "returns a lock guard to the caller"))
    return res, sites


def run():
    rep = Report("C17", "forward may-dataflow of live lock guards over the MIR of every function of the crate (guard types found by type, moves and drops end a guard); "
                 "at each call made while a guard is live the callee must not reach a lock acquisition, a recursive function of the crate or keccak in the call graph; "
                 "guards must not be returned by public operations",
                 assumptions=["lock_api/parking_lot release a lock exactly when its guard is dropped", "calls through function values or trait objects made under a guard count as violations"])
    d = build("dump")
    res, sites = find(d, rep)
    # self test: the bad examples match, the good one does not
    names = {d.fns[fi]["name"].split("::")[-1]: k for fi, _, k, _ in res if "selftest" in d.fns[fi]["name"]}
    if names != {"nested_lock": "nested", "visit_under_lock": "nested"}:
        raise Exception("self test failed: %s" % names)
    # anchors: the cache is read and written somewhere
    if rep.counts.get("acquisitions in crate", 0) < 1:
        locks = [t[0] for t in d.types if t[1][0] == "adt" and t[1][1].split("::")[-1] in ("RwLock", "Mutex")]
        if any("H256" in x for x in locks):
            raise Exception("no lock acquisition found although the cache type holds a lock")
    ok = set(range(len(d.fns)))
    for fi, line, kind, text in res:
        if "selftest" in d.fns[fi]["name"]:
            continue
        rep.violation("%s:%s:%s" % (short(d.fns[fi]["name"]), kind, text), "%s: %s" % (d.where(fi, line), text))
        ok.discard(fi)
    for fi in sorted(ok):
        if d.in_crate(fi) and "blocks" in d.fns[fi]:
            rep.hold(short(d.fns[fi]["name"]))
    return rep.finish()
