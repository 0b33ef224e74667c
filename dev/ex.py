"""Developer aid: print effects of an entry point with containers expanded."""
import re, sys
sys.path.insert(0, "/verif")
from sa.ctx import *
from sa.interp import Contrib

def ex(run, t, depth=9, width=600):
    e = run.e
    seen = []
    def objs(x):
        for s in subterms(x):
            if s.op in ("obj", "mu") and s not in seen:
                seen.append(s)
    print("   ", show(t, depth)[:width])
    objs(t)
    i = 0
    while i < len(seen) and i < 25:
        s = seen[i]; i += 1
        if s.op == "mu":
            b = e.backs.get(s)
            print("  ", show(s, 3), "init", show(s.a[2], 6)[:width], "back", show(b, depth)[:width] if b is not None else None)
            if b is not None: objs(b)
            continue
        o = e.objs[s]
        print("  ", s, o.kind, e.classes[o.cls].name if o.cls is not None and o.cls in e.classes else "")
        for c in o.contribs:
            print("      ", c.op, show(c.key, depth)[:width] if c.key is not None else "", "<-", show(c.val, depth)[:width] if c.val is not None else "", "IF", [show(g, 6)[:150] for g, _ in c.guards][-2:], "LOOPS", [show(l.term, 5)[:80] for l in c.loops])
            for v in (c.key, c.val):
                if v is not None: objs(v)
        if o.kind == "inst":
            for (x, n), v in run.st.items():
                if x is s:
                    print("      .", n, "=", show(v, depth)[:width]); objs(v)

if __name__ == "__main__":
    c = Ctx("/repo")
    r = {"db": lambda: c.sampler("database"), "dir": lambda: c.sampler("directory"), "plan": c.planner, "main": c.main}[sys.argv[1]]()
    for x in r.effects:
        if re.search(sys.argv[2], f"{x.kind} {x.name}"):
            print("##", x.seq, x.kind, x.name, x.where())
            print("  recv", show(x.recv, 6) if x.recv is not None else "")
            for a in x.args: ex(r, a)
            for k, v in x.kw: print("  kw", k); ex(r, v)
            print("  GUARDS", [(show(g, 6)[:200], t) for g, t in x.guards][-4:]); print("  LOOPS", [show(l.term, 6)[:100] + (" R" if l.rev else "") for l in x.loops])
