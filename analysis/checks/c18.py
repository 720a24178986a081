"""C18: effect analysis over the call graph, unsafe lint, Send + Sync witnesses."""
import os
import re
import subprocess

from mir import V, build, short, BuildError
from report import Report

# resolved paths an operation must not reach
FORBID = [
    (r"^std::(fs|net|env|process|os|time)::", "outside world"),
    (r"^std::io::", "input/output"),
    (r"^std::thread::(?!panicking)", "threads or thread-local state"),
    (r"^std::thread::LocalKey", "thread-local state"),
    (r"^(std|core)::sync::atomic::Atomic\w*::", "atomics"),
    (r"RandomState", "randomness"),
    (r"^(rand|rand_core|getrandom|fastrand|chrono|time|libc|num_cpus)::", "outside world"),
    (r"^std::alloc::(set|take)_alloc", "allocator hooks"),
    (r"^std::panic::(set_hook|take_hook|update_hook)", "panic hooks"),
    (r"^std::backtrace::", "outside world"),
]
# library internals that are reached on every path and do not influence results
SKIP_CRATES = ("log",)
CELLS = re.compile(r"Atomic|Mutex|RwLock|Cell<|OnceLock|OnceCell|Once\b|\bmut\b")


def forbidden(f):
    n = re.sub(r"^<+&*(mut )?", "", f["name"])
    if f["crate"] in ("std", "core", "alloc") or f["crate"] not in ("eth_trie_utils", "vharness"):
        for pat, what in FORBID:
            if re.search(pat, n):
                return what
    return None


def statics(x, out):
    if isinstance(x, list):
        if len(x) == 3 and x[0] == "static":
            out.add((x[1], x[2]))
        for y in x:
            statics(y, out)
    elif isinstance(x, dict):
        for k, y in x.items():
            if k in ("p", "b", "a"):
                statics(y, out)


def thread_locals(x):
    if isinstance(x, list):
        if len(x) == 2 and x[0] == "other" and isinstance(x[1], str) and x[1].startswith("ThreadLocal"):
            return True
        return any(thread_locals(y) for y in x)
    return False


def effects(d, starts):
    """(fn, caller chain, what) of every effect reachable from starts"""
    cg = d.callgraph()
    seen = {}
    q = []
    for s in starts:
        seen[s] = None
        q.append(s)
    res = []
    edges = 0
    while q:
        x = q.pop()
        f = d.fns[x]
        ours = f["crate"] in ("eth_trie_utils", "vharness")
        if f["crate"] in SKIP_CRATES:
            continue
        w = forbidden(f)
        if w:
            res.append((x, "%s (%s)" % (short(f["name"]), w)))
            continue
        st = set()
        statics(f.get("blocks", []), st)
        for name, ty in sorted(st):
            if name.startswith("log::") or "LazyLock<" in ty:
                continue
            if CELLS.search(ty):
                res.append((x, "static %s: %s" % (name, ty)))
        if thread_locals(f.get("blocks", [])):
            res.append((x, "a thread-local"))
        if ours:
            for stmts, _ in f.get("blocks", ()):
                for s in stmts:
                    if s[0] == "=" and s[2][0] == "cast" and "Expose" in s[2][1]:
                        res.append((x, "the address of an object (pointer to integer cast)"))
        for y in sorted(cg[x]):
            edges += 1
            if y not in seen:
                seen[y] = x
                q.append(y)
    return seen, res, edges


def lint(features, flags):
    """errors of a compile with extra lints"""
    env = dict(os.environ, VT=os.path.join(V, "work", "target-lint"), XRUSTFLAGS=flags)
    r = subprocess.run(["bash", os.path.join(V, "build.sh"), os.path.join(V, "work", "lint.json"), *features], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
    errs = []
    cur = None
    for l in r.stdout.splitlines():
        if re.match(r"error(\[\w+\])?:", l):
            cur = l
        elif cur and l.strip().startswith("-->"):
            errs.append((cur, l.strip()[4:]))
            cur = None
    return r.returncode, errs, r.stdout


def run():
    rep = Report("C18", "call graph reachability from every public operation: no forbidden resolved library function (files, network, clock, environment, threads, randomness, atomics), "
                 "no static with interior mutability, no thread-local, no pointer-to-integer cast; the crate is compiled with forbid(unsafe_code); Send + Sync are compile-time witnesses with a failing twin",
                 assumptions=["the dependencies rlp, keccak_hash, parking_lot, bytes, uint, hex are deterministic and effect free", "logging is exempt"])
    d = build("dump")
    # self tests
    for name in ("reads_clock", "reads_env", "counts", "random_order", "address"):
        _, r, _ = effects(d, [d.roots["st::" + name]])
        if not r:
            raise Exception("self test %s not detected" % name)
        rep.count("positive examples detected")
    starts = {n: i for n, i in d.roots.items() if not n.startswith("st::")}
    if len(starts) < 100:
        raise Exception("only %d operations found" % len(starts))
    for n, i in sorted(starts.items()):
        seen, r, e = effects(d, [i])
        rep.count("operations")
        rep.count("call edges", e)
        if not r:
            rep.hold(n)
        for x, what in r:
            k = seen[x]
            own = x
            while own is not None and not d.in_crate(own):
                own = seen[own]
            at = d.where(own) if own is not None else "?"
            rep.violation("%s:%s" % (short(d.fns[own]["name"]) if own is not None else n, what), "operation %s reaches %s; %s; call path %s" % (n, what, at, d.chain(seen, x)))
    rep.bad = list(dict((k, (k, t)) for k, t in rep.bad).values())
    rc, errs, out = lint(["--features", "witness"], "-Funsafe_code")
    if rc == 0:
        rep.hold("forbid(unsafe_code)")
        rep.hold("Send + Sync witnesses")
    else:
        other = []
        for e, at in errs:
            if "unsafe" in e and "/repo/" in at:
                rep.violation("unsafe:" + re.sub(r":\d+", "", at), "%s at %s" % (e, at))
            elif "witness.rs" in at and ("between threads" in e or "E0277" in e):
                rep.violation("witness:" + e, "%s at %s" % (e, at))
            else:
                other.append((e, at))
        if other or not rep.bad:
            raise Exception("lint build failed: %s" % out[-2000:])
    rc, errs, out = lint(["--features", "witness,witness_bad"], "-Funsafe_code")
    if rc == 0 or not any("witness.rs" in at and "between threads" in e for e, at in errs):
        raise Exception("the failing twin of the witnesses did not fail: %s" % out[-1500:])
    rep.count("failing twins", 1)
    return rep.finish()
