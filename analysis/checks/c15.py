"""C15: values built from integers, byte strings and hashes."""
from ai import conv, nib
from ai.run import coverage, decide, load, must_find
from report import Report


ASSUME = [
    "dependencies (uint, bytes, hex, std containers) behave as their documentation says; their transfer functions are in analysis/ai/lib.py",
    "memory is not exhausted",
]


def run():
    rep = Report("C15", "Abstract interpretation of every conversion into an entry (unknown integer of each width, unknown bytes of unknown length, unknown hash) and of every accessor on both kinds; the bytes must be the full-width big-endian bytes and an accessor of the other kind must fail, in the debug and the release build.", "other", ASSUME)
    obs = [(r, r, f) for r, f in conv.VALS.items()] + [("%s on %s" % k, k[0], f) for k, f in conv.ACC.items()]
    for prof in ("debug", "release"):
        I = load(prof)
        must_find(I, "st::wrong_truncate", nib.OBS["nb::truncate_n_nibbles_front"], "v", "truncation at the wrong end")
        decide(rep, I, obs, "vp")
        coverage(rep, I)
    return rep.finish()
