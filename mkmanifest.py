#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json
import os

V = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]

AI = "abstract interpretation of the compiler's MIR over words of unknown nibbles with affine lengths; each final abstract state is compared with the list specification"
TRIE = "abstract interpretation of the compiler's MIR over tries of unknown shape with induction over the height; each final abstract state is compared with the reference semantics"
BOUND = "abstract interpretation of the compiler's MIR over families of tries of bounded height with unknown nibbles, values and hashes; each final abstract state is compared with the reference semantics"
CHECKS = {
    "C01": (TRIE, "All tries in canonical form, all keys of at most 64 nibbles, value and hash entries, both trie types, debug and release builds. No claim where a hash entry collides with a value or with a prefix of a stored key. Trusts the transfer functions of library primitives."),
    "C02": (TRIE, "All tries in canonical form, all keys of at most 64 nibbles, both trie types, debug and release builds. Trusts the transfer functions of library primitives."),
    "C03": (TRIE, "All keys of at most 64 nibbles and all tries in canonical form whose branch on the path has one of the enumerated occupancies (pairs of slots, some triples, all slots, single slots with a value); below it everything is unknown. The thorough run uses all pairs in both builds, the quick run neighbouring and border pairs."),
    "C04": (TRIE, "Inductive step: an insert or delete on a trie in canonical form gives canonical form; occupancies of the branch as in C03. An extension above a hash node counts as canonical, since the kind behind a hash is not known."),
    "C06": (TRIE, "All nodes in canonical form with unknown children, both trie types, debug and release builds; hash, repeated hash and child reference. keccak and the RLP writer are uninterpreted (a hash is a term over the item list)."),
    "C07": (TRIE, "Inductive invariant over all operations of the hash-caching trie, panics included: every cell is empty or holds the hash of its own node. Extend and collect for 0 to 3 entries, delete for sample branch occupancies (more in the thorough run). Cells of deserialised tries are part of C25."),
    "C08": ("ownership analysis by abstract interpretation of the compiler's MIR over tries of unknown shape: shared objects must be left as they were", "All operations of both trie types on tries in canonical form; delete for sample branch occupancies (more in the thorough run). All nodes below the root are taken to be shared."),
    "C05": (BOUND, "Entry, key and value iteration of both trie types on families of tries of up to three levels below the root; nibbles, values and hashes are unknown. Higher tries and branches with more occupied slots are not decided."),
    "C09": (BOUND, "Single subsets of both trie types for no, one and two keys on families of tries of up to three levels; nibbles, values, hashes, sizes of encodings and keys are unknown. For two keys and for higher tries the keys go to occupied slots or to one free slot. The hash of a node is an unknown term. No claim for keys that lead into a hash node."),
    "C10": (BOUND, "Two subsets with one or no key each, on families of tries of up to three levels. Decided against the exact form that a single subset is shown to have; if it has another form, nothing is decided."),
    "C11": (TRIE, "Insert and delete on all tries in canonical form with hash nodes anywhere (branch occupancies as in C03); the entries after a panic are compared with the former ones."),
    "C16": (TRIE, "All pairs of nodes (no canonical form needed), both trie types, equality and inequality, debug and release builds. Equality of Arc, Box, arrays and byte strings is that of the pointees, from reference models."),
    "C17": ("lock-held dataflow over MIR plus call graph reachability",
            "Every function of the crate reachable from the public API is analysed; trusts that lock_api guards release on drop and that calls inside dependencies take no cache lock."),
    "C18": ("effect analysis over the resolved call graph, forbid(unsafe_code), Send/Sync compile-time witnesses with failing twin",
            "Decides absence of forbidden effects on all call paths of the instances the public API uses; dependencies (rlp, keccak, parking_lot, bytes, uint, hex) are trusted, logging is exempt."),
    "C24": ("call graph layering rules and MIR equality between the builds with and without the feature",
            "Every core function reachable from the public API is compared; equal MIR is taken as equal behaviour."),
    "C12": (AI, "Lengths 0..64 are affine unknowns and nibble contents are unknown, so all inputs are covered, in the debug and release builds. Trusts the transfer functions of library primitives (U512 arithmetic, iterators)."),
    "C13": (AI, "Decides the encoder for all sequences and flags, and the decoder for non-leaf encodings, invalid flags and over-long input. Not decided: decoding of leaf encodings (a terminator nibble is pinned by tests) and the empty byte string."),
    "C14": (AI, "All integers of all widths up to 64 significant nibbles, all byte strings up to 80 bytes, all hashes, in the debug and release builds. No claim for exactly 33 bytes, where documentation and message disagree."),
    "C15": (AI, "All integers of all widths, byte strings of any length, all hashes; all accessors on both kinds."),
    "C19": (AI, "Panic exactly when the precondition fails, for all sequences and all argument values of their types, in the debug and release builds."),
    "C20": (TRIE, "Extend and collect are decided for 0 to 4 entries with arbitrary keys and values; more entries run the same loop and are not decided. Agreement of the two types is decided for insert, lookup and hashing through the common reference semantics."),
    "C21": (BOUND, "Counts, greatest depth and average depths on families of tries of up to three levels below the root; averages over no node are not compared. Comparison of two statistics for all numbers."),
    "C22": (BOUND, "Both tries range over pairs of exact shapes (kinds, occupied slots and whether a branch holds a value) with free key pieces, values and hashes: no report if and only if the root hashes are equal, the reported path leads to a lowest place at which the tries differ, depth, key and nodes found there are right, no panic. Larger shapes are not decided."),
    "C23": (TRIE, "Tries of any height through the step of the recursion, keys of at most 64 nibbles, sample occupancies of branches; violations are reported on families of tries of bounded height only. The text of the report is not covered."),
    "C25": ("abstract interpretation of the compiler's MIR of the serde implementations through two analysed data formats and back, induction over the height; each final abstract state is compared with the original", "Both trie types, all nodes with unknown children, nibble sequences of 0..64 nibbles; a format with names and one by position (harness/src/tokens.rs, analysed, never run). The serde implementations of other crates are taken to round trip. Formats that do something else with names, positions or types are not covered."),
    "C26": (AI, "Printing is decided for all sequences of 0..64 nibbles, parsing for 0..64 hex digits of either case with and without prefix. Rejection of other text is decided for sample texts only, since the digit parser is a dependency."),
}
NA = {}


def main():
    checks = []
    for i in ids:
        if i in CHECKS:
            t, n = CHECKS[i][:2]
            c = {
                "property": i,
                "quick_cmd": "python3 check.py " + i,
                "thorough_cmd": "python3 check.py " + i,
                "evidence_file": "evidence/%s.json" % i,
                "technique": t,
                "level": CHECKS[i][2] if len(CHECKS[i]) > 2 else "other",
                "level_note": n,
            }
            checks.append(c)
    na = [{"property": i, "reason": NA.get(i, "Not decided by a check of this framework yet.")} for i in ids if i not in CHECKS]
    m = {"version": 1, "setup_cmd": "bash build.sh /verif/work/dump.json", "checks": checks, "not_applicable": na}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
