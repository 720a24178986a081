"""Evidence, verdict and exit code of a check."""
import json
import os
import sys
import time

from mir import V


def tier():
    t = os.environ.get("VERIF_TIER")
    return t if t in ("quick", "thorough") else "quick"


# positive examples that were not reported; an error unless there are violations anyway
UNREPORTED = []


class Report:
    def __init__(self, pid, rule, level="other", assumptions=()):
        self.pid = pid
        self.rule = rule
        self.level = level
        self.assumptions = list(assumptions)
        self.t0 = time.time()
        self.ok = []           # discharged obligations (keys)
        self.undecided = []    # (key, reason)
        self.bad = []          # (key, text)
        self.counts = {}
        self.samples = []

    def hold(self, key):
        self.ok.append(key)

    def undec(self, key, why):
        self.undecided.append((key, str(why)))

    def violation(self, key, text):
        self.bad.append((key, text))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, x):
        if len(self.samples) < 12:
            self.samples.append(x)

    def known(self):
        res = {}
        p = os.path.join(V, "known_findings.txt")
        if os.path.exists(p):
            for l in open(p):
                l = l.strip()
                if l.startswith("known: property=" + self.pid + " "):
                    rest = l.split(" ", 2)[2]
                    if rest.startswith("key="):
                        k, _, what = rest[4:].partition(" :: ")
                        res[k] = what
        return res

    def finish(self):
        if UNREPORTED and not self.bad:
            raise RuntimeError("self test: %s is not reported" % UNREPORTED[0])
        known = self.known()
        bad = []
        seen = set()
        for key, text in self.bad:
            if key in known:
                if key not in seen:
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, known[key] or text))
                seen.add(key)
            else:
                bad.append((key, text))
        n = len(self.ok) + len(self.undecided) + len(self.bad)
        cov = {
            "explanation": self.rule,
            "obligations": n,
            "discharged": len(self.ok),
            "undecided": len(self.undecided),
            "analysed": self.counts,
            "samples": (self.samples or self.ok)[:12],
        }
        if self.undecided:
            cov["undecided_samples"] = [list(x) for x in self.undecided[:12]]
        ev = {
            "property": self.pid,
            "tier": tier(),
            "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
            "level": self.level,
            "coverage": cov,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(bad),
        }
        if self.assumptions:
            ev["assumptions"] = self.assumptions
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        with open(os.path.join(V, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s: %d obligations, %d discharged, %d undecided, %d violated; %s; %.1fs" % (
            self.pid, n, len(self.ok), len(self.undecided), len(bad),
            ", ".join("%s=%s" % kv for kv in sorted(self.counts.items())), time.time() - self.t0))
        for k, w in self.undecided[:8]:
            print("  undecided %s: %s" % (k, w))
        if bad:
            os.makedirs(os.path.join(V, "work", "replay"), exist_ok=True)
            rp = os.path.join(V, "work", "replay", self.pid + ".json")
            with open(rp, "w") as f:
                json.dump({"property": self.pid, "rule": self.rule, "violations": [{"key": k, "text": t} for k, t in bad]}, f, indent=1)
            for k, t in bad[:10]:
                print("  %s: %s" % (k, t))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        return 0
