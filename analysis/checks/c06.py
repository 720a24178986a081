"""C06: node hashes follow the Merkle Patricia encoding."""
from ai import hashing, ops
from ai.run import coverage, load
from report import Report


def run():
    rep = Report("C06", "Abstract interpretation of the MIR of hashing and of the child reference function for both trie types. The node is unknown (all kinds, unknown nibbles, values and children); every child stands for its reference, which is the child's hash or its embedded encoding (induction over the height). In every final abstract state the result must be the keccak term over the specified RLP item list, or the item list itself exactly if the path condition says that it has fewer than 32 bytes.", "other", hashing.ASSUME)
    for prof in ("debug", "release"):
        I = load(prof)
        ops.example(I, hashing.hash_ob("th", "st::wrong_hash"), "v", "a wrong hash")
        jobs = []
        for tag in ("th", "ts"):
            jobs.append((tag + " hash_intern", hashing.intern_ob(tag)))
            jobs.append((tag + " hash", hashing.hash_ob(tag)))
            jobs.append((tag + " hash_twice", hashing.hash_ob(tag, twice=True)))
        ops.report(rep, I, jobs, "vp")
        coverage(rep, I)
    return rep.finish()
