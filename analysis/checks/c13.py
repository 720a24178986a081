"""C13: hex-prefix encoding."""
from ai import conv, nib
from ai.run import coverage, decide, load, must_find
from report import Report


ASSUME = [
    "dependencies (uint, bytes, hex, std containers) behave as their documentation says; their transfer functions are in analysis/ai/lib.py",
    "memory is not exhausted",
]


def run():
    rep = Report("C13", "Abstract interpretation of the hex-prefix encoder and decoder on unknown sequences of unknown length (encoder) and unknown byte strings of unknown length (decoder); every abstract state must agree with the specified layout, in the debug and the release build.", "other", ASSUME)
    obs = [(r, r, f) for r, f in conv.HP.items()]
    for prof in ("debug", "release"):
        I = load(prof)
        must_find(I, "st::wrong_truncate", nib.OBS["nb::truncate_n_nibbles_front"], "v", "truncation at the wrong end")
        decide(rep, I, obs, "vp")
        coverage(rep, I)
    return rep.finish()
