"""C07: a cached hash always equals the recomputed hash."""
from ai import hashing, ops
from ai.run import coverage, load
from report import Report, tier


def run():
    rep = Report("C07", "Abstract interpretation of the MIR of every operation of the hash-caching trie. Initially each cache cell is empty or holds the right hash of a node whose encoding has at least 32 bytes. In every final abstract state, panics included, each cell of each reachable node must again be empty, or hold the hash term of exactly the node it belongs to; no two nodes may share a cell, and a node that is handed out for writing must have an empty cell.", "other", hashing.ASSUME)
    for prof in ("debug", "release"):
        I = load(prof)
        hashing.example_cells(I)
        jobs = hashing.cache_obs(I)
        jobs += ops.obligations(I, "th", "insert", "few", hashing.cells_after)
        jobs += ops.obligations(I, "th", "delete", "some" if tier() == "thorough" else "few", hashing.cells_after)
        ops.report(rep, I, jobs, "k")
        coverage(rep, I)
    return rep.finish()
