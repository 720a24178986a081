"""C20: both trie types and all ways of inserting agree."""
from ai import equal, hashing, ops
from ai.run import coverage, load
from ai.trie import E, L
from report import Report, tier


def run():
    rep = Report("C20", "Abstract interpretation of the MIR of extending and collecting for 0 to 4 entries with unknown keys and values: the insert at the root is replaced by an unknown node and recorded, and in every final abstract state the result must be the node after inserting all entries in order. Insert, lookup and hashing of both trie types are compared with one reference semantics (obligations of C01, C02 and C06), so the two types agree.", "other", hashing.ASSUME)
    for prof in ("debug", "release"):
        I = load(prof)
        ops.example(I, hashing.extend_ob("th", "extend", 2, None, "st::wrong_extend"), "v", "an extend that inserts in reverse order")
        jobs = []
        for tag in ("th", "ts"):
            for n in range(5):
                for w in ("extend", "from_iter"):
                    jobs.append(("%s %s, %d entries" % (tag, w, n), hashing.extend_ob(tag, w, n)))
            for lab, k in (("an empty trie", E), ("a leaf", L)):
                jobs.append(("%s extend of %s, 1 entry" % (tag, lab), hashing.extend_ob(tag, "extend", 1, shape=k)))
            jobs.append((tag + " hash", hashing.hash_ob(tag)))
            jobs.append((tag + " hash_intern", hashing.intern_ob(tag)))
            for op in ("get", "insert"):
                jobs += ops.obligations(I, tag, op, "few")
        ops.report(rep, I, jobs, "vp")
        coverage(rep, I)
    return rep.finish()
