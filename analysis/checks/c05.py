"""C05: iteration yields every entry exactly once under its full key."""
from ai import iters, ops, shapes
from ai.run import coverage, load
from report import Report, tier

RULE = "Abstract interpretation of the MIR of the entry, key and value iterations, driven to the end, on families of tries of bounded height (kinds per level and occupied slots given; nibbles, values and hashes unknown). In every final abstract state the entries must be those of the trie, each once, and keys and values must be their projections in the same order."


def run():
    rep = Report("C05", RULE, "other", ops.ASSUME)
    full = tier() == "thorough"
    for prof in ("debug", "release"):
        I = load(prof)
        ops.example(I, iters.items_ob("th", [shapes.B, shapes.L], [((3, 9), True)], None, {"items": "st::wrong_items"}), "v", "an iteration without the values of branches")
        jobs = []
        for tag in ("th", "ts"):
            if tag == "th" or prof == "debug" or full:
                for lab, levels, pats, deep in shapes.families(full):
                    if levels == [shapes.B, shapes.L]:
                        continue  # sixteen unknown lengths
                    jobs.append(("%s items, %s" % (tag, lab), iters.items_ob(tag, levels, pats, deep)))
        ops.report(rep, I, jobs, "vp")
        coverage(rep, I)
    return rep.finish()
