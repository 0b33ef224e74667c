"""Which tables planning and sampling consider.

`patterns`: tables are selected by the configured patterns (planning) or by the
exact names of the planned tables (sampling).  `filter`: nothing else decides
whether a matching table is taken.  `closure`: planning adds referenced tables
transitively exactly when dependencies are included, sampling adds nothing in
the source and transitively every referring table in the destination.
"""

from ..rule import *  # noqa
from ._s import *  # noqa

FLOORS = {"patterns": 3, "filter": 3, "closure": 3}
MATCH = ("fnmatch.fnmatch", "fnmatch.fnmatchcase", "fnmatch.filter", "re.match", "re.fullmatch", "re.search")


def check(ctx, rep):
    v = View(ctx.planner())
    for d in floor(rep, "planner", reflected(v, "source")):
        select(v, d, "planner", rep, {("config", "select"), ("config", "passthrough")}, False)
        out, guards = closure(v, d)
        inst = "planner"
        inc = mk("truth", literal(("config", "include_dependencies")))
        if "?" in out:
            rep.unk("closure", inst, "", "direction of references not found")
        elif "backward" in out:
            rep.bad("closure", inst, "metadata.py", "tables that refer to selected ones are added too")
        elif not out.get("forward"):
            rep.bad("closure", inst, "metadata.py", "referenced tables are " + ("only added one step" if "forward" in out else "not added"))
        else:
            gs = [g for dd, g, k in guards if not any(v.varies(g, l.term) for l in k.loops)]
            cut = limited(v, d)
            vary = [cut] if cut is not None else [g for dd, g, k in guards if any(v.varies(g, l.term) for l in k.loops)]
            if vary:
                rep.bad("closure", inst, "metadata.py", f"a reference only counts if {show(vary[0], 5)}")
            elif any(not equivalent(g, inc) for g in gs):
                rep.bad("closure", inst, "metadata.py", f"referenced tables are added if {show([g for g in gs if not equivalent(g, inc)][0], 5)}")
            else:
                rep.check(bool(gs), "closure", inst, "metadata.py", "referenced tables are added even if that is disabled")
    for side in ("source", "dest"):
        s = SV(ctx, "database")
        for d in floor(rep, side, reflected(s, side)):
            select(s, d, side, rep, {("plan", "queries")}, True)
            out, guards = closure(s, d)
            if "?" in out:
                rep.unk("closure", side, "", "direction of references not found")
            elif side == "source":
                rep.check(not out, "closure", side, "metadata.py", "tables that are not part of the plan are added")
            elif "forward" in out:
                rep.bad("closure", side, "metadata.py", "tables that the sampled ones refer to are treated as part of the sample")
            elif not out.get("backward"):
                rep.bad("closure", side, "metadata.py", "tables that refer to the sampled ones are " + ("only found one step away" if "backward" in out else "not found"))
            elif limited(s, d) is not None:
                rep.bad("closure", side, "metadata.py", f"referring tables are only followed if {show(limited(s, d), 5)}")
            elif guards:
                rep.bad("closure", side, "metadata.py", f"referring tables are only found if {show(guards[0][1], 5)}")
            else:
                rep.ok("closure", side, "metadata.py")


def limited(v, D):
    """A condition that can end the search for tables early, or None."""
    edges = {y for c in v.contribs(D) if c.key is not None for y in v.deep(c.key, ctrl=True) if y.op == "item" and y.a[0].op == "obj" and v.e.objs[y.a[0]].kind == "dict" and y.a[0] is not D}
    for o in v.e.objs:
        for c in v.contribs(o):
            if c.op == "add" and any(l.term.a[0] in edges for l in c.loops) or c.op == "extend" and c.val in edges:
                for g, tag in c.guards:
                    for q in conj(g) if tag in SKIP else ():
                        a = q.a[0] if q.op == "not" else q
                        if q.op == "lt" and q.a[0].op in ("mu", "idx", "rank") and q.a[1].op in ("len", "call"):
                            continue  # as long as there are more
                        if a.op == "lt" and any(t.op in ("len", "idx", "rank", "mu") or t.op == "call" and is_ext(t.a[0], "builtins.len") for t in subterms(a)):
                            return q
                        if a.op == "eq" and all(t.op == "item" and is_const(t.a[1], 0) or t.op == "attr" and t.a[1] == "schema" for t in a.a) and any(v.varies(a, l.term) for l in c.loops):
                            return q
                        if q.op == "or" and any(b.op == "eq" and all(t.op == "item" and is_const(t.a[1], 0) or t.op == "attr" and t.a[1] == "schema" for t in b.a) and any(v.varies(b, l.term) for l in c.loops) for b in atoms(q)):
                            return q
                        if a.op in ("eq", "call", "truth") and any(t.op == "const" and isinstance(cval(t), str) for t in subterms(a)) and any(v.varies(a, l.term) for l in c.loops):
                            return q
    return None


def floor(rep, inst, ds):
    if len(ds) != 1:
        for r in ("patterns", "filter", "closure"):
            rep.unk(r, inst, "", f"{len(ds)} dictionaries of tables")
        return []
    return list(ds)


def select(v, d, inst, rep, want, exact):
    pats, other = [], []
    first = [c for c in v.contribs(d) if c.key is not None and not any(v.is_call(t, "sqlalchemy.Table") for t in subterms(c.key))]
    for c in first:
        if not any(t.op == "attr" and t.a[1] == "tables" for l in c.loops for t in subterms(l.term.a[0])):
            continue
        for g, tag in c.guards:
            if tag not in SKIP:
                continue
            for q in conj(g):
                ms = [t for t in subterms(q) if t.op == "call" and is_ext(t.a[0], *MATCH)]
                names = [t for t in subterms(q) if t.op == "in" and t.a[1].op in ("obj", "attr")]
                if ms:
                    pats += [(t, q) for t in ms]
                    for y in subterms(q):
                        if y.op == "exists" and any(t in set(subterms(y.a[1])) for t in ms):
                            # conditions on the pattern besides that it matches
                            other += [(z, c) for z in conj(y.a[1]) if not any(t in ms for t in subterms(z)) and v.varies(z, y.a[0]) and any(a.op in ("lt", "eq", "in", "call") for a in atoms(z))]
                elif names:
                    pats += [(t, q) for t in names]
                elif any(v.varies(q, l.term) for l in c.loops):
                    other.append((q, c))
    if not pats:
        rep.unk("patterns", inst, "metadata.py", "selection not found")
        rep.unk("filter", inst, "metadata.py", "selection not found")
        return
    got, raw, sliced = set(), [], False
    for t, q in pats:
        p = t.a[1][1] if t.op == "call" and len(t.a[1]) > 1 else t.a[1]
        dd = set(v.deep(p)) | {z for y in subterms(q) if y.op == "exists" for z in v.deep(y.a[0])}
        got |= {attr_path(y) for y in dd if attr_path(y)}
        sliced |= any(y.op == "slice" and attr_path(y.a[0]) in want for y in dd)
        if t.op == "call" and not any(v.is_call(y, "glob.escape", "re.escape") for y in subterms(p)):
            raw.append(t)
    folded = [y for t, _ in pats for y in subterms(t.a[1][0] if t.op == "call" and t.a[1] else t.a[0]) if v.is_call(y, ".lower", ".upper", ".casefold", ".title", ".swapcase", ".strip", ".lstrip", ".rstrip") or y.op == "slice"]
    bare = [t for t, _ in pats if t.op == "call" and t.a[1] and t.a[1][0].op == "attr" and t.a[1][0].a[1] == "name"]
    miss = want - got
    alone, tried = None, {}
    for t, q in pats:
        for y in subterms(q):
            m = attr_path(y.a[0].a[0]) if y.op == "exists" else None
            if m in want:
                cs = [z for z in conj(y.a[1]) if t not in set(subterms(z)) and not v.varies(z, y.a[0]) and any(attr_path(w) in want for w in subterms(z))]
                tried.setdefault(y.a[0].a[0], []).append(and_(*cs))
    for m, gs in tried.items():
        if not implies(mk("truth", m), or_(*gs)):
            alone = attr_path(m)
    if alone:
        rep.bad("patterns", inst, "metadata.py", f"{'.'.join(alone)} does not always take part in the selection")
    if bare:
        rep.bad("patterns", inst, "metadata.py", f"patterns are compared with {show(bare[0].a[1][0], 3)}, not with the name with its schema")
    elif miss:
        rep.bad("patterns", inst, "metadata.py", f"{'.'.join(sorted(miss)[0])} does not take part in the selection")
    elif folded:
        rep.bad("patterns", inst, "metadata.py", f"patterns are compared with {show(folded[0], 5)}, not with the name")
    elif sliced:
        rep.bad("patterns", inst, "metadata.py", "some patterns are left out")
    elif exact and raw:
        rep.bad("patterns", inst, "metadata.py", "names of tables are used as patterns")
    elif not exact and not raw:
        rep.bad("patterns", inst, "metadata.py", "patterns are escaped, so that they only match literally")
    else:
        rep.ok("patterns", inst, "metadata.py")
    rep.check(not other, "filter", inst, "metadata.py", f"a matching table is only taken if {show(other[0][0], 5) if other else ''}")
