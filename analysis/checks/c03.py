"""C03: deleting removes exactly the deleted key."""
from ai import ops
from ai.run import coverage, load
from report import Report, tier


def run():
    rep = Report("C03", "Abstract interpretation of the MIR of the delete for both trie types. The trie is an unknown node (all kinds, unknown nibbles of unknown length, unknown children), the key an unknown word of 0..64 nibbles; recursive calls on children are replaced by the statement itself (induction over the height), and the recursive function is shown to satisfy the statement. In every final abstract state the returned value and the remaining entries must be those of removing the key. The slots of the branch at the root are enumerated (pairs, triples, all), with and without a value.", "other", ops.ASSUME)
    for prof in ("debug", "release"):
        I = load(prof)
        ops.decide(rep, I, ["delete"], "vp", ["delete"], "all" if tier() == "thorough" else "some" if prof == "debug" else "few")
        coverage(rep, I)
    return rep.finish()
