"""C12: nibble sequence operations are list operations."""
from ai import conv, nib
from ai.run import coverage, decide, load, must_find
from report import Report


ASSUME = [
    "dependencies (uint, bytes, hex, std containers) behave as their documentation says; their transfer functions are in analysis/ai/lib.py",
    "memory is not exhausted",
]


def run():
    rep = Report("C12", "Abstract interpretation of the MIR of every nibble sequence operation. Sequences are unknown words of unknown length 0..64 (affine lengths, unknown nibbles); the packed result must equal the list operation in every abstract state, in the debug and the release build.", "other", ASSUME)
    obs = [(r, r, f) for r, f in nib.OBS.items()]
    for prof in ("debug", "release"):
        I = load(prof)
        must_find(I, "st::wrong_truncate", nib.OBS["nb::truncate_n_nibbles_front"], "v", "truncation at the wrong end")
        decide(rep, I, obs, "vp")
        coverage(rep, I)
    return rep.finish()
