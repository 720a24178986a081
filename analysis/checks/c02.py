"""C02: a lookup returns the value of exactly the queried key."""
from ai import ops
from ai.run import coverage, load
from report import Report, tier


def run():
    rep = Report("C02", "Abstract interpretation of the MIR of the lookup for both trie types. The trie is an unknown node (all kinds, unknown nibbles of unknown length, unknown children), the key an unknown word of 0..64 nibbles; recursive calls on children are replaced by the statement itself (induction over the height), and the recursive function is shown to satisfy the statement. In every final abstract state the result must be the value stored under exactly the queried key.", "other", ops.ASSUME)
    for prof in ("debug", "release"):
        I = load(prof)
        ops.decide(rep, I, ["get"], "vp", ["get"], "all" if tier() == "thorough" else "some" if prof == "debug" else "few")
        coverage(rep, I)
    return rep.finish()
