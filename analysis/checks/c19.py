"""C19: out-of-range nibble operations panic in every profile."""
from ai import conv, nib
from ai.run import coverage, decide, load, must_find
from report import Report


ASSUME = [
    "dependencies (uint, bytes, hex, std containers) behave as their documentation says; their transfer functions are in analysis/ai/lib.py",
    "memory is not exhausted",
]


def run():
    rep = Report("C19", "Abstract interpretation of every nibble sequence operation on unknown sequences and unrestricted arguments: a state that returns must satisfy the precondition, a state that panics must violate it, in the debug and the release build.", "other", ASSUME)
    obs = [(r, r, f) for r, f in nib.OBS.items()]
    for prof in ("debug", "release"):
        I = load(prof)
        if prof == "release":
            must_find(I, "st::wrong_guard", nib.OBS["nb::get_nibble"], "p", "missing range check")
        decide(rep, I, obs, "p")
        coverage(rep, I)
    return rep.finish()
