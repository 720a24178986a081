"""Runs obligations on the dumps of the current source and fills the report."""
import os
import re
import time

from mir import build, short
from report import UNREPORTED
from . import lib, nib
from .interp import Interp

BUDGET = float(os.environ.get("VERIF_BUDGET_S", "600"))
T0 = time.time()


def load(profile):
    """interpreter over the dump of one build profile"""
    d = build("dump" if profile == "debug" else "dump-" + profile, ["--release"] if profile == "release" else [])
    I = Interp(d.path, lib.B)
    I.dump = d
    I.profile = profile
    I.deadline = T0 + BUDGET
    return I


def subject(I, root):
    """source position of the function behind a root"""
    fn = I.roots[root]
    for _, c, _, _, _, _ in I.dump.calls(fn.idx):
        if c is not None and "i" in c and I.dump.in_crate(c["i"]):
            return I.dump.where(c["i"])
    return root


def strip(text):
    """key form of a message: no numbers"""
    return re.sub(r"[0-9]+", "#", text)


def coverage(rep, I):
    crate = [i for i in I.covfn if I.fns[i].crate == "eth_trie_utils"]
    rep.counts["crate_functions_" + I.profile] = len(crate)
    rep.counts["basic_blocks_" + I.profile] = len([1 for f, b in I.cov if I.fns[f].crate == "eth_trie_utils"])
    rep.counts["states_" + I.profile] = I.nstates
    rep.counts["splits_" + I.profile] = I.forks


def must_find(I, root, setup, kinds, what):
    """positive example: the rule has to report it"""
    with I.within(60):
        found, stats = nib.judge(I, root, setup, first=True)
    if not any(f[0] in kinds for f in found) and not stats["undecided"]:
        UNREPORTED.append(what)


def decide(rep, I, obs, kinds):
    """obs: (label, root, setup)"""
    for label, root, setup in obs:
        key = "%s [%s]" % (label, I.profile)
        with I.within(120):
            found, stats = nib.judge(I, root, setup)
        rep.count("obligations_" + I.profile)
        bad = [f for f in found if f[0] in kinds]
        if bad:
            seen = set()
            for _, text, wit, _ in bad:
                k = key + ": " + strip(text)
                if k in seen:
                    continue
                seen.add(k)
                rep.violation(k, "%s (%s) at %s; for %s" % (text, I.profile, subject(I, root), wit))
        elif stats["undecided"]:
            rep.undec(key, stats["undecided"][0])
        else:
            rep.hold(key)
