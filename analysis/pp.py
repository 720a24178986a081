"""Prints functions of a MIR dump (debugging aid)."""
import json, sys
d = json.load(open(sys.argv[1])); pat = sys.argv[2]
T = [t[0] for t in d['types']]
def pl(p):
    s = f"_{p[0]}"
    for e in (p[1] if len(p) > 1 else []):
        if e == '*': s = f"(*{s})"
        elif e[0] == 'f': s += f".{e[1]}"
        elif e[0] == 'i': s += f"[_{e[1]}]"
        elif e[0] == 'v': s += f" as v{e[1]}"
        else: s += str(e)
    return s
def op(o):
    if o[0] in 'cm': return ('' if o[0] == 'c' else 'move ') + pl(o[1])
    if o[0] == 'k':
        k = o[1]
        return f"const {k[2] if k[1]=='i' else str(k[1:])[:100]}: {T[k[0]][:80]}"
    return str(o)
def rv(r):
    k = r[0]
    if k == 'use': return op(r[1])
    if k == 'ref': return ('&mut ' if r[1] else '&') + pl(r[2])
    if k in ('bin', 'chk'): return f"{k} {r[1]}({op(r[2])}, {op(r[3])})"
    if k == 'un': return f"{r[1]}({op(r[2])})"
    if k == 'cast': return f"{op(r[2])} as {T[r[3]]} ({r[1]})"
    if k in ('discr', 'len'): return f"{k}({pl(r[1])})"
    if k == 'agg': return f"{r[1] if r[1][0]!='adt' else T[r[1][1]]+'::v'+str(r[1][2])}({', '.join(map(op,r[2]))})"
    return str(r)
for i, f in enumerate(d['fns']):
    if pat not in f['name'] or 'blocks' not in f: continue
    print(f"\nfn#{i} {f['name']}  [{f['kind']}] {d['files'][f['file']]}:{f['line']} argc={f['argc']} spread={f['spread']} clos={f['clos']}")
    for j, t in enumerate(f['locals']): print(f"   _{j}: {T[t]}", dict(map(tuple, f['dbg'])).get(j, ''))
    for j, (st, t) in enumerate(f['blocks']):
        print(f"  bb{j}:")
        for s in st: print("     ", pl(s[1]), '=', rv(s[2])) if s[0] == '=' else print("     ", s)
        if t[0] == 'call':
            c = t[1]
            cs = (c[1].get('r') or c[1]['n']) + ('' if 'm' not in c[1] else '  <<model>>') if c[0] == 'd' else op(c[1])
            print(f"      {pl(t[3])} = CALL {cs}({', '.join(map(op,t[2]))}) -> {t[4]}")
        elif t[0] == 'sw': print("      switch", op(t[1]), t[2], t[3])
        else: print("     ", t)
