"""C10: subsets created together equal subsets created separately."""
from ai import hashing, ops, shapes, subset
from ai.run import coverage, load
from report import Report, tier

RULE = "Abstract interpretation of the MIR of the creation of several subsets on families of tries of bounded height (kinds per level and occupied slots given; nibbles, values, hashes, the size of encodings and the keys unknown). A single subset is first shown to be the exact one: visited nodes are kept, and of the others those with an encoding of at least 32 bytes are replaced by their hash and smaller ones are kept. In every final abstract state of the joint creation each subset must be the exact one for its own keys."


def run():
    rep = Report("C10", RULE, "other", hashing.ASSUME)
    full = tier() == "thorough"
    for prof in ("debug", "release"):
        I = load(prof)
        ops.example(I, subset.subset_ob("th", [shapes.X, shapes.H], None, None, [("k",), ()], root="st::wrong_subsets"), "x", "a subset with the keys of another one")
        jobs = []
        for tag in ("th", "ts") if full or prof == "debug" else ("th",):
            for lab, levels, pats, deep in subset.small(full):
                for n, sets in (("a key and none", [("k",), ()]), ("two keys", [("k",), ("l",)]), ("none and a key", [(), ("k",)])):
                    jobs.append(("%s subsets, %s, %s" % (tag, n, lab), subset.joint_ob(tag, levels, pats, deep, sets)))
            for lab, pats in subset.APART:
                jobs.append(("%s subsets, two keys and none, %s" % (tag, lab), subset.joint_ob(tag, [shapes.B, shapes.L], pats, None, [("k", "l"), ()])))
        ops.report(rep, I, jobs, "vpx")
        coverage(rep, I)
    return rep.finish()
