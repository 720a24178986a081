"""C09: a trie subset keeps the root hash and all requested paths."""
from ai import hashing, ops, shapes, subset
from ai.run import coverage, load
from report import Report, tier

RULE = "Abstract interpretation of the MIR of the subset creation on families of tries of bounded height (kinds per level and occupied slots given; nibbles, values, hashes, the size of encodings and the keys unknown). In every final abstract state each node a lookup of a key visits must be in the subset with its fields, and every other node must be kept with its fields or replaced by a hash node with its hash, and only if its encoding has at least 32 bytes; so the root hash is that of the base trie. The hash of a node is an unknown term (C06 decides it)."


def run():
    rep = Report("C09", RULE, "other", hashing.ASSUME)
    full = tier() == "thorough"
    for prof in ("debug", "release"):
        I = load(prof)
        ops.example(I, subset.subset_ob("th", [shapes.L], None, None, [("k",)], root="st::wrong_subset"), "v", "a subset without the root")
        jobs = []
        for tag in ("th", "ts") if full or prof == "debug" else ("th",):
            for lab, levels, pats, deep in subset.families(full):
                jobs.append(("%s subset, %s" % (tag, lab), subset.subset_ob(tag, levels, pats, deep, [("k",)])))
            for lab, levels, pats, deep in subset.small(full):
                for n, s in (("no key", ()), ("two keys", ("k", "l"))):
                    jobs.append(("%s subset, %s, %s" % (tag, n, lab), subset.subset_ob(tag, levels, pats, deep, [s])))
        ops.report(rep, I, jobs, "vp")
        coverage(rep, I)
    return rep.finish()
