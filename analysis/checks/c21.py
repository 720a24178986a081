"""C21: trie statistics count every node once."""
from ai import ops, shapes, stats
from ai.run import coverage, load
from report import Report, tier

RULE = "Abstract interpretation of the MIR of the statistics functions on families of tries of bounded height (kinds per level and occupied slots given; nibbles, values and hashes unknown); counts, greatest depth and average depths must be those of the trie. Comparing two statistics is decided for all numbers: every ratio must pair the same quantity of the first and the second trie."


def run():
    rep = Report("C21", RULE, "other", ops.ASSUME[2:])
    full = tier() == "thorough"
    for prof in ("debug", "release"):
        I = load(prof)
        ops.example(I, stats.stats_ob("th", "st::wrong_stats", [shapes.X, shapes.H], None), "v", "statistics of a child")
        jobs = [("dbg stats_cmp", stats.compare_ob())]
        for tag, root in (("th", "stats_h"), ("ts", "stats_s")):
            for lab, levels, pats, deep in shapes.families(full):
                jobs.append(("dbg %s, %s" % (root, lab), stats.stats_ob(tag, "dbg::" + root, levels, pats, deep)))
        for lab, levels, pats, deep in shapes.families()[:6]:
            jobs.append(("dbg stats_named, " + lab, stats.stats_ob("th", "dbg::stats_named", levels, pats, deep, True)))
        ops.report(rep, I, jobs, "vp")
        coverage(rep, I)
    return rep.finish()
