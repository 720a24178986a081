"""C08: mutating a trie never changes its clones."""
from ai import hashing, ops
from ai.run import coverage, load
from report import Report, tier


def run():
    rep = Report("C08", "Ownership analysis by abstract interpretation of the MIR of every operation. All nodes below the root of the trie are taken to be shared with clones. In every final abstract state, panics included, each shared node must be the object it was (same node, same reference-counted children), its cache cell must be empty or hold its own hash, and the root must not use the cell of a shared node. A clone must have the contents of the original, a cache cell of its own and must leave the original alone.", "other", hashing.ASSUME)
    for prof in ("debug", "release"):
        I = load(prof)
        hashing.example_shared(I)
        jobs = []
        for tag in ("th", "ts"):
            jobs += hashing.clone_obs(tag)
            jobs += ops.obligations(I, tag, "insert", "few", hashing.shared_after)
            jobs += ops.obligations(I, tag, "delete", "some" if tier() == "thorough" else "few", hashing.shared_after)
        ops.report(rep, I, jobs, "s")
        coverage(rep, I)
    return rep.finish()
