"""Families of tries of bounded height.

A family gives the kinds of nodes allowed per level and the occupied slots of
the branches at the root and below; nibbles, values and hashes are unknown."""
from .ops import show_pattern
from .trie import *

LOW = E | H | L
DEEP = ((5,), True)


def families(full=False):
    """(label, levels, slots of the root, slots of the other branches)"""
    out = [("small root", [LOW], None, None)]
    for p in (((3, 9), True), ((0, 15), False), DEEP):
        out.append(("extension above a branch " + show_pattern(p), [X, B | H, LOW], None, [p]))
    pairs = [((3, 9), False), ((0, 15), True), ((14, 15), False), ((0, 7, 15), True)]
    if full:
        pairs += [((i, i + 1), bool(i % 2)) for i in range(15)]
    for p in pairs:
        out.append(("branch " + show_pattern(p), [B, LOW], [p], None))
    for i in range(16):
        p = ((i,), True)
        out.append(("branch " + show_pattern(p), [B, LOW], [p], None))
    for k in (L, H):
        out.append(("branch full of %s nodes" % KN[k], [B, k], [(tuple(range(16)), k == L)], None))
    for p in (((3, 9), True), ((0, 15), False)):
        for d in (DEEP, ((2, 7), False)) if full else (DEEP,):
            out.append(("branch %s above branches %s" % (show_pattern(p), show_pattern(d)), [B, ALL, LOW], [p], [d]))
    out += chains()
    return out


def chains():
    """one path of three nodes"""
    p = ((9,), True)
    return [
        ("three nodes, branch first", [B, B | X, ALL, LOW], [p], [DEEP]),
        ("three nodes, extension first", [X, B, ALL, LOW], None, [DEEP]),
    ]


def tree(name, x, out=None):
    """kinds and slots by name of one shape: a kind, (X, child) or (B, {slot: child}, value)"""
    out = {} if out is None else out
    if type(x) is int:
        out[name] = (x, None)
    elif x[0] == X:
        out[name] = (X, None)
        tree(name + ".x", x[1], out)
    else:
        out[name] = (B, [(tuple(sorted(x[1])), v) for v in ((False, True) if x[2] is None else (x[2],))])
        for i, c in x[1].items():
            tree("%s.%x" % (name, i), c, out)
    return out


def show_tree(x):
    if type(x) is int:
        return KN[x].lower()
    if x[0] == X:
        return "extension(%s)" % show_tree(x[1])
    return "branch(%s)" % ", ".join(["%x: %s" % (i, show_tree(c)) for i, c in sorted(x[1].items())] + (["value"] if x[2] else []))
