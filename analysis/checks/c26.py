"""C26: textual form of nibble sequences."""
from ai import conv, nib
from ai.run import coverage, decide, load, must_find
from report import Report


ASSUME = [
    "dependencies (uint, bytes, hex, std containers) behave as their documentation says; their transfer functions are in analysis/ai/lib.py",
    "memory is not exhausted",
]


def run():
    rep = Report("C26", "Abstract interpretation of the formatting impls on unknown sequences of unknown length and of the parser on 0..64 unknown hex digits (with and without prefix, both cases); text and sequence must correspond digit by digit in every abstract state. The rejection of other text is checked on sample texts only (the digit parser is a dependency).", "other", ASSUME)
    obs = [(r, r, f) for r, f in conv.TEXT.items()] + [("parse " + k, "nb::from_str", f) for k, f in conv.PARSE.items()]
    for prof in ("debug", "release"):
        I = load(prof)
        must_find(I, "st::wrong_truncate", nib.OBS["nb::truncate_n_nibbles_front"], "v", "truncation at the wrong end")
        decide(rep, I, obs, "vp")
        coverage(rep, I)
    return rep.finish()
