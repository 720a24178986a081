"""Index-free rendering of a dumped function, comparable between two dumps."""


class Canon:
    def __init__(self, d):
        self.d = d

    def t(self, i):
        return self.d.types[i][0] if isinstance(i, int) else str(i)

    def fn(self, i):
        return self.d.fns[i]["name"]

    def place(self, p):
        r = "_%d" % p[0]
        for e in (p[1] if len(p) > 1 else ()):
            r += "*" if e == "*" else "." + "/".join(map(str, e[:2] if e[0] == "f" else e))
        return r

    def alloc(self, a):
        ps = []
        for off, g in a["p"]:
            if g[0] == "fn":
                ps.append((off, self.fn(g[1])))
            elif g[0] == "mem":
                ps.append((off, self.alloc(g[1])))
            else:
                ps.append((off, str(g)))
        # addresses are not part of the value
        skip = {o + k for o, _ in ps for k in range(8)}
        return "%s%s" % ([b for i, b in enumerate(a["b"]) if i not in skip], ps)

    def const(self, c):
        if c[1] == "a":
            return "%s:%s" % (self.t(c[0]), self.alloc(c[2]))
        return "%s:%s" % (self.t(c[0]), c[1:])

    def op(self, o):
        return "k" + self.const(o[1]) if o[0] == "k" else o[0] + (self.place(o[1]) if o[0] in "cm" else str(o[1]))

    def rv(self, r):
        k = r[0]
        if k == "use":
            return self.op(r[1])
        if k in ("bin", "chk"):
            return "%s %s %s %s" % (k, r[1], self.op(r[2]), self.op(r[3]))
        if k == "un":
            return "un %s %s" % (r[1], self.op(r[2]))
        if k == "cast":
            return "cast %s %s" % (self.op(r[2]), self.t(r[3]))
        if k in ("discr", "len"):
            return k + self.place(r[1])
        if k == "ref":
            return "ref %s %s" % (r[1], self.place(r[2]))
        if k == "rep":
            return "rep %s %s" % (self.op(r[1]), r[2])
        if k == "agg":
            a = r[1]
            return "agg %s %s" % ([a[0]] + [self.t(x) if j == 0 else x for j, x in enumerate(a[1:])], [self.op(o) for o in r[2]])
        return str(r)

    def callee(self, c):
        return "%s<%s>=%s" % (c["n"], ",".join(self.t(a) for a in c["a"]), c.get("r"))

    def term(self, t):
        k = t[0]
        if k == "sw":
            return "sw %s %s %s" % (self.op(t[1]), t[2], t[3])
        if k == "drop":
            return "drop %s %s" % (self.place(t[1]), t[2])
        if k == "call":
            f = self.callee(t[1][1]) if t[1][0] == "d" else self.op(t[1][1])
            return "call %s %s %s %s" % (f, [self.op(a) for a in t[2]], self.place(t[3]), t[4])
        if k == "assert":
            return "assert %s %s %s %s" % (self.op(t[1]), t[2], t[3], t[4])
        return "%s %s" % (k, t[1:] if k == "goto" else "")

    def body(self, f):
        out = [",".join(self.t(x) for x in f["locals"])]
        for stmts, t in f["blocks"]:
            for s in stmts:
                if s[0] == "=":
                    out.append("%s = %s" % (self.place(s[1]), self.rv(s[2])))
                elif s[0] == "sd":
                    out.append("sd %s %s" % (self.place(s[1]), s[2]))
                else:
                    out.append(str(s[0]))
            out.append(self.term(t))
        return "\n".join(out)
