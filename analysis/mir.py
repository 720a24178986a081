"""The dumped program: functions, types, call graph."""
import json
import os
import re
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CRATE = "eth_trie_utils"


class BuildError(Exception):
    pass


def build(name, flags=()):
    out = os.path.join(V, "work", name + ".json")
    r = subprocess.run(["bash", os.path.join(V, "build.sh"), out, *flags], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError(r.stdout)
    return Dump(out)


class Dump:
    def __init__(self, path):
        self.path = path
        with open(path) as f:
            d = json.load(f)
        self.raw = d
        self.types = d["types"]
        self.fns = d["fns"]
        self.files = d["files"]
        self.roots = {}
        for _, i in d["roots"]:
            self.roots[self.fns[i]["name"].split("roots::", 1)[1]] = i
        self._cg = None

    # -- naming
    def tname(self, t):
        return self.types[t][0]

    def where(self, fi, line=None):
        f = self.fns[fi]
        if "file" not in f:
            return f["name"]
        p = self.files[f["file"]]
        p = re.sub(r"^/repo/", "", p)
        return "%s:%s in %s" % (p, f["line"] if line is None else line, short(f["name"]))

    def in_crate(self, fi):
        return self.fns[fi]["crate"] == CRATE

    def in_debug(self, fi):
        f = self.fns[fi]
        return self.in_crate(fi) and "debug_tools/" in self.files[f["file"]] if "file" in f else "debug_tools" in f["name"]

    # -- call graph
    def calls(self, fi):
        """(block, callee dict or None, args, dest, target, line) of every call"""
        f = self.fns[fi]
        for bi, (stmts, t) in enumerate(f.get("blocks", ())):
            if t[0] == "call":
                yield bi, (t[1][1] if t[1][0] == "d" else None), t[2], t[3], t[4], t[5]

    def callgraph(self):
        """fn -> set of fns: calls, function values, closures built, drops"""
        if self._cg is not None:
            return self._cg
        closures = {}
        for i, f in enumerate(self.fns):
            if f.get("clos"):
                closures.setdefault(f["def"], []).append(i)
        cg = []
        for fi, f in enumerate(self.fns):
            s = set()
            for _, c, args, _, _, _ in self.calls(fi):
                if c is not None and "i" in c:
                    s.add(c["i"])
            for ti in f.get("locals", ()):
                k = self.types[ti][1]
                if k[0] == "fndef" and "i" in k[1]:
                    s.add(k[1]["i"])
            self._scan(f.get("blocks", ()), s)
            cg.append(s)
        self._cg = cg
        return cg

    def _scan(self, x, s):
        if isinstance(x, list):
            if len(x) == 2 and x[0] == "fn" and isinstance(x[1], int):
                s.add(x[1])
            # function item constants ([type, "z"])
            if len(x) == 2 and x[1] == "z" and isinstance(x[0], int):
                k = self.types[x[0]][1]
                if k[0] == "fndef" and "i" in k[1]:
                    s.add(k[1]["i"])
            for y in x:
                self._scan(y, s)
        elif isinstance(x, dict):
            for k, y in x.items():
                if k in ("b", "p", "a"):
                    self._scan(y, s)

    def reach(self, starts):
        cg = self.callgraph()
        seen = {}
        q = []
        for x in starts:
            if x not in seen:
                seen[x] = None
                q.append(x)
        while q:
            x = q.pop()
            for y in sorted(cg[x]):
                if y not in seen:
                    seen[y] = x
                    q.append(y)
        return seen

    def chain(self, seen, x):
        r = []
        while x is not None:
            r.append(short(self.fns[x]["name"]))
            x = seen[x]
        return " <- ".join(r)

    def sccs(self):
        """set of fns on a call cycle"""
        cg = self.callgraph()
        n = len(cg)
        idx = [None] * n
        low = [0] * n
        on = [False] * n
        st = []
        res = set()
        c = 0
        for r in range(n):
            if idx[r] is not None:
                continue
            work = [(r, iter(sorted(cg[r])))]
            idx[r] = low[r] = c
            c += 1
            st.append(r)
            on[r] = True
            while work:
                v, it = work[-1]
                adv = False
                for w in it:
                    if idx[w] is None:
                        idx[w] = low[w] = c
                        c += 1
                        st.append(w)
                        on[w] = True
                        work.append((w, iter(sorted(cg[w]))))
                        adv = True
                        break
                    if on[w]:
                        low[v] = min(low[v], idx[w])
                if adv:
                    continue
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    comp = []
                    while True:
                        w = st.pop()
                        on[w] = False
                        comp.append(w)
                        if w == v:
                            break
                    if len(comp) > 1 or v in cg[v]:
                        res.update(comp)
        return res


def short(n):
    n = n.replace("eth_trie_utils::", "").replace("partial_trie::", "").replace("std::", "")
    return n if len(n) < 140 else n[:137] + "..."


def succs(term):
    k = term[0]
    if k == "goto":
        return [term[1]]
    if k == "sw":
        return [t for _, t in term[2]] + [term[3]]
    if k == "drop":
        return [term[2]]
    if k == "call":
        return [] if term[4] is None else [term[4]]
    if k == "assert":
        return [term[4]]
    return []
