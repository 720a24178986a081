"""C23: a path query reports exactly the nodes a lookup visits."""
from ai import ops, query, shapes
from ai.run import coverage, load
from report import Report, tier

RULE = "Abstract interpretation of the MIR of the path query. Violations are reported on families of tries of bounded height (kinds per level and occupied slots given; nibbles, values, hashes and the key unknown), where the recursive calls are followed. For tries of any height, a recursive call on a child is taken to append the path of the rest of the key in that child, and the recursive function is shown to do this for every node, key and path so far. In every final abstract state the reported nodes, key pieces, node specific values and the found flag must be those of a lookup."


def run():
    rep = Report("C23", RULE, "other", ops.ASSUME[:1] + ops.ASSUME[2:])
    full = tier() == "thorough"
    for prof in ("debug", "release"):
        I = load(prof)
        ops.example(I, query.query_ob("th", "st::wrong_query", None, levels=[shapes.L]), "v", "a query that follows another key")
        jobs = []
        for tag, root in (("th", "query_h"), ("ts", "query_s")):
            r = "dbg::" + root
            for lab, levels, pats, deep in shapes.families(full):
                jobs.append(("dbg %s, %s" % (root, lab), query.query_ob(tag, r, pats, None, query.ALL, levels, deep)))
            for p in [None] + ops.pair_patterns("some" if full else "few"):
                kind = query.ALL & ~query.B if p is None else query.B
                lab = "any height, " + ("no branch" if p is None else "branch " + ops.show_pattern(p))
                jobs.append(("dbg %s, %s" % (root, lab), query.any_ob(tag, r, p and [p], kind)))
        for f in ((0, 0, 1), (1, 0, 0), (0, 1, 0)):
            for lab, levels, pats, deep in shapes.families()[:6]:
                jobs.append(("dbg query_params, options %d%d%d, %s" % (f + (lab,)), query.query_ob("th", "dbg::query_params", pats, f, query.ALL, levels, deep)))
        ops.report(rep, I, jobs, "vp")
        coverage(rep, I)
    return rep.finish()
