"""C22: a trie diff reports a lowest difference exactly if the hashes differ."""
from ai import diff, ops
from ai.run import coverage, load
from report import Report, tier

RULE = "Abstract interpretation of the MIR of the diff function on pairs of tries of given shapes (nibbles, values and hashes unknown; the hash of a node is an unknown term, equal for nodes with equal parts). No difference may be reported exactly if the hashes are equal. The reported place must be a lowest place at which the tries differ, with its key, path, depth, kinds, values and hashes, structural differences first and no longer key among those of its sort."
ASSUME = ops.ASSUME[2:] + ["the hash functions return the hash of the node (decided by C06 to C08)", "a hash node stands for a node whose encoding has at least 32 bytes"]


def run():
    rep = Report("C22", RULE, "other", ASSUME)
    full = tier() == "thorough"
    for prof in ("debug", "release"):
        I = load(prof)
        ops.example(I, diff.diff_ob(diff.L, diff.L, "st::wrong_diff"), "v", "swapped tries")
        jobs = [("dbg diff, " + lab, diff.diff_ob(a, b)) for lab, a, b in diff.pairs(full)]
        ops.report(rep, I, jobs, "vp")
        coverage(rep, I)
    return rep.finish()
