"""C11: hash nodes are never looked into, replaced or overwritten."""
from ai import ops
from ai.run import coverage, load
from report import Report, tier


def run():
    rep = Report("C11", "Abstract interpretation of the MIR of the insert and delete for both trie types. The trie is an unknown node (all kinds, unknown nibbles of unknown length, unknown children), the key an unknown word of 0..64 nibbles; recursive calls on children are replaced by the statement itself (induction over the height), and the recursive function is shown to satisfy the statement. In every final abstract state the operation must have panicked if the path leads into a hash node, leaving the entries unchanged, and all hash nodes must still be there if it did not panic.", "other", ops.ASSUME)
    for prof in ("debug", "release"):
        I = load(prof)
        ops.decide(rep, I, ["insert", "delete"], "h", ["hash"], "all" if tier() == "thorough" else "some" if prof == "debug" else "few")
        coverage(rep, I)
    return rep.finish()
