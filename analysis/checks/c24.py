"""C24: layering between core and debug tooling, and equality of the core with the feature off."""
from mir import BuildError, build, short
from canon import Canon
from report import Report
from checks.c17 import is_acq


def types_of_debug(d, ti, memo):
    return "debug_tools" in d.types[ti][0]


def writes_cell(d, fi):
    """line of a cache write made directly by the function"""
    for _, c, _, _, _, line in d.calls(fi):
        if c is None:
            continue
        n = c.get("r") or c["n"]
        if (is_acq(n) or is_acq(c["n"])) and not n.endswith(("::read", "::try_read")):
            return line
        if n.endswith("::set_hash"):
            return line
    return None


def run():
    rep = Report("C24", "call graph layering (no core function calls, names or stores anything of debug_tools), MIR equality of every core function between the builds with and without the trie_debug feature, "
                 "effect rule (tries are handed to debug code by shared reference, and no debug function writes a cache cell behind it)",
                 assumptions=["derived MIR equality means equal behaviour", "generic core functions are compared at the instances the public API uses"])
    d = build("dump")
    try:
        n = build("dump-nodebug", ["--no-default-features"])
    except BuildError as e:
        build("dump")
        if "error" in str(e) and "/repo/src" in str(e) or "src/" in str(e):
            rep.violation("build without trie_debug", "the crate does not compile without the debug feature: %s" % str(e)[-600:])
            return rep.finish()
        raise
    cd, cn = Canon(d), Canon(n)
    off = {}
    for i, f in enumerate(n.fns):
        if n.in_crate(i) and "blocks" in f:
            off.setdefault(f["name"], []).append(cn.body(f))
    core_roots = [i for k, i in d.roots.items() if not k.startswith(("dbg::", "st::"))]
    reach = d.reach(core_roots)
    ndbg = 0
    for i, f in enumerate(d.fns):
        if not d.in_crate(i) or "blocks" not in f:
            continue
        dbg = d.in_debug(i)
        if dbg:
            ndbg += 1
            rep.count("debug functions")
            line = writes_cell(d, i)
            if line is not None:
                rep.violation("writes:" + short(f["name"]), "%s: debug code writes a cache cell of a trie it is given" % d.where(i, line))
            else:
                rep.hold("debug reads only: " + short(f["name"]))
            if i in reach:
                rep.violation("reached:" + short(f["name"]), "core reaches debug code: " + d.chain(reach, i))
            continue
        if i not in reach:
            continue
        rep.count("core functions")
        refs = [d.tname(t) for t in f["locals"] if types_of_debug(d, t, {})]
        if refs:
            rep.violation("names:" + short(f["name"]), "%s: core function uses the debug type %s" % (d.where(i), refs[0]))
        b = cd.body(f)
        o = off.get(f["name"])
        if o is None:
            rep.violation("only-with-debug:" + short(f["name"]), "%s: core function exists only with the debug feature" % d.where(i))
        elif b not in o:
            rep.violation("differs:" + short(f["name"]), "%s: compiled differently with and without the debug feature" % d.where(i))
        else:
            rep.hold("same MIR: " + short(f["name"]))
            rep.count("MIR statements compared", b.count("\n"))
    # self test: the rule recognises a function that writes through a lock
    st = [i for i, f in enumerate(d.fns) if f["name"].endswith("selftest::visit_under_lock")]
    if not st or writes_cell(d, st[0]) is None:
        raise Exception("self test failed")
    if ndbg < 10 or rep.counts.get("core functions", 0) < 100:
        raise Exception("too little analysed: %s" % rep.counts)
    return rep.finish()
