"""C16: trie equality is equality of nodes and nothing else."""
from ai import equal, ops
from ai.run import coverage, load
from report import Report


def run():
    rep = Report("C16", "Abstract interpretation of the MIR of equality and inequality for both trie types and for nodes. Both tries are unknown nodes; comparing two children is replaced by the truth value of their equality (induction over the height), and the recursive function is shown to compute it. In every final abstract state the result must be the conjunction of equal kinds, nibbles, values, hashes and all sixteen children.", "other", ops.ASSUME[2:])
    for prof in ("debug", "release"):
        I = load(prof)
        ops.example(I, equal.eq_ob("th", "eq", "st::wrong_eq"), "v", "an equality of kinds")
        jobs = []
        for tag in ("th", "ts"):
            for fn in ("eq", "ne", "node_eq"):
                jobs.append(("%s %s" % (tag, fn), equal.eq_ob(tag, fn)))
        ops.report(rep, I, jobs, "vp")
        coverage(rep, I)
    return rep.finish()
