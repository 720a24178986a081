"""C14: conversions into keys."""
from ai import conv, nib
from ai.run import coverage, decide, load, must_find
from report import Report


ASSUME = [
    "dependencies (uint, bytes, hex, std containers) behave as their documentation says; their transfer functions are in analysis/ai/lib.py",
    "memory is not exhausted",
]


def run():
    rep = Report("C14", "Abstract interpretation of every conversion into a nibble sequence: integers of unknown value (partitioned by the number of leading zero nibbles and the size of the first one), byte strings of unknown contents and length, hashes. The result must be the specified list in every abstract state, in the debug and the release build.", "other", ASSUME)
    obs = [(r, r, f) for r, f in conv.KEYS.items()]
    for prof in ("debug", "release"):
        I = load(prof)
        must_find(I, "st::wrong_truncate", nib.OBS["nb::truncate_n_nibbles_front"], "v", "truncation at the wrong end")
        decide(rep, I, obs, "vp")
        coverage(rep, I)
    return rep.finish()
