"""C25: serialising and deserialising gives the same trie."""
from ai import ops, serde
from ai.run import coverage, decide, load, must_find
from report import Report

ASSUME = [
    "a data format hands back what was put into it: with names for fields and variants, or by position (harness/src/tokens.rs)",
    "the serde implementations of other crates (integers, vectors, arrays, Arc, locks, U512, H256) round trip",
    "dependencies behave as their documentation says; their transfer functions are in analysis/ai/lib.py",
    "memory is not exhausted",
]


def run():
    rep = Report("C25", "Abstract interpretation of the MIR of the serde implementations of both trie types, nodes and nibble sequences, run into a data format with names and one by position and back. The trie is an unknown node, its children pass by induction over the height. In every final abstract state the result must be deserialised and have the same kind, nibbles, value, hash and children, and a cache that is empty or that of the original.", "other", ASSUME)
    for prof in ("debug", "release"):
        I = load(prof)
        must_find(I, "st::wrong_round", serde.nibbles_setup, "v", "a format that loses the length")
        ops.example(I, serde.round_ob("th", "st::wrong_trie_round"), "v", "a branch that loses its value")
        jobs = []
        for tag, n in (("th", "h"), ("ts", "s")):
            for fmt in ("named", "compact"):
                r = "trie_%s_%s" % (n, fmt)
                jobs.append(("sd " + r, serde.round_ob(tag, "sd::" + r)))
        ops.report(rep, I, jobs, "vp")
        decide(rep, I, [("sd " + r, "sd::" + r, serde.nibbles_setup) for r in ("nibbles_named", "nibbles_compact")], "vp")
        coverage(rep, I)
    return rep.finish()
