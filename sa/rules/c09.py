"""Order in which destination tables are written and emptied.

`source`: the loop that emits the statement runs over the tables in the
dependency order computed by the solver.  `direction`: forwards for inserts,
backwards for deletions.  `graph`: the order comes from the foreign keys of the
destination, with every table of the destination schema as a node, its
references as successors, and nothing left out but references to tables that
are not part of it.  `fresh`: the insert order is computed after missing
tables were created and recorded.  `referrers`: tables of the destination that refer to
sampled ones, directly or not, are part of it.  `sort`: the solver places a node
when it has no successors or when the last of them, each counted once, was
placed, looks at every predecessor of a placed node, and reports what is left.
"""

from ..rule import *  # noqa
from ._s import *  # noqa
from ._solver import Sort, reversal

FLOORS = {"source": 2, "direction": 2, "graph": 2, "fresh": 1, "referrers": 1, "sort": 3}
SORTS = ("toposort",)


def toposorts(v, t):
    """Calls of the dependency sort a value is computed from."""
    return [y for y in v.deep(t) if y.op == "call" and y.a[0].op == "func" and v.e.funcs[y.a[0]].name.rsplit(".", 1)[-1] in SORTS]


def check(ctx, rep):
    v = SV(ctx, "database")
    D = dest_dicts(v)
    for d in D:
        out, conds = closure(v, d)
        opt = [g for kind, g, k in conds if kind == "backward" and any(y.op == "sym" and y.a[0] in ("truncate", "create") or attr_path(y) and attr_path(y)[0] == "config" for y in subterms(g))]
        if opt:
            rep.bad("referrers", "destination", "metadata.py", f"tables that refer to the sampled ones are only found if {show(opt[0], 4)}")
        else:
            rep.check(None if "?" in out else out.get("backward"), "referrers", "destination", "metadata.py", "tables that refer to the sampled ones are not all found")
    S = reflected(v, "source")
    for d in D:
        for c in v.contribs(d):
            if c.val is not None and d not in S and any(a.op == "item" and a.a[0] in S for _, a in v.alts(c.val)):
                rep.bad("graph", "insert", c, "a table of the source is taken for one of the destination")
    for what, xs in (("insert", v.inserts), ("delete", v.deletes)):
        for x in xs:
            by = by_name(v, x)
            if by:
                rep.bad("source", what, x, f"a table is looked up by {show(by, 3)}, which tables in several schemas can share")
            if not x.loops:
                continue
            seq = x.loops[0].term.a[0]
            tops = toposorts(v, seq)
            if not tops:
                d = v.deep(seq)
                known = any(t in D or t is mk("attr", mk("sym", "plan"), "queries") for t in d)
                rep.check(False if known else None, "source", what, x, f"tables are visited in the order of {show(seq, 5)}, not in dependency order")
                continue
            if seq not in tops:
                rep.unk("source", what, x, show(seq, 4))
                continue
            rep.ok("source", what, x)
            l = x.loops[0]
            if l.sort:
                rep.bad("direction", what, x, "the dependency order is sorted again")
            else:
                rep.check(l.rev == (what == "delete"), "direction", what, x, "tables that are referred to come " + ("after" if what == "insert" else "before") + " the tables that refer to them")
            graph(v, seq.a[1][0] if seq.a[1] else None, what, x, rep, D)
            if what == "insert":
                recorded(v, x, rep, D, what)
                late = [y for y in v.creates if y.name in (".create", ".create_all") and y.seq > max([z.seq for z in v.fx if z.result is seq], default=0)]
                calls = [z for z in v.fx if z.result is seq]
                rep.check(None if not calls else not late, "fresh", what, x, "tables are created after the order was computed")

    Sort(ctx, rep, "sort").check()
    reversal(ctx, rep, "sort")
    fill(rep, {"sort": FLOORS["sort"]}, "solver.py")


def by_name(v, x):
    """The table is found under its name without its schema."""
    for t in {y for a in x.args for y in subterms(a)}:
        if t.op == "item" and t.a[0].op == "obj" and v.e.objs[t.a[0]].kind == "dict":
            for c in v.contribs(t.a[0]):
                if c.op == "set" and c.key is not None and c.key.op == "attr" and c.key.a[1] == "name" and c.key.a[0].op in ("at", "item") and c.loops and c.val is c.key.a[0] and any(v.varies(c.val, l.term) for l in c.loops):
                    return c.key
    return None


def graph(v, g, what, x, rep, D):
    if g is None or g.op != "obj" or v.e.objs[g].kind != "dict":
        rep.unk("graph", what, x, "graph not found")
        return
    for c in v.contribs(g):
        if c.op not in ("set", "default") or not c.loops:
            rep.unk("graph", what, x, f"{c.op} on the graph")
            return
        base = c.loops[0].term.a[0]
        if base not in D:
            known = base.op == "obj" and v.e.objs[base].kind == "dict"
            rep.check(False if known and base in reflected(v, 'source') else None, "graph", what, x, "the graph is not that of the destination")
            return
        sk = [q for q, tag in c.guards if tag in SKIP and v.varies(q, c.loops[0].term)]
        sk = [q for q in sk if fixed(q, {a: True for a in atoms(q) if a.op == "in" and whole(v, a.a[1], D) and itself(a.a[0], c.loops[0].term)}) is not TRUE]
        if sk:
            rep.bad("graph", what, x, f"a table only takes part if {show(sk[0], 5)}")
            return
        if c.val is None or c.val.op != "obj":
            rep.unk("graph", what, x, "successors not found")
            return
        if fk_attr(v, c.key):
            rep.bad("graph", what, x, "edges point from the referenced to the referring table")
            return
        n = 0
        for s in v.contribs(c.val):
            if s.op not in ("add", "extend"):
                rep.unk("graph", what, x, f"{s.op} on the successors")
                return
            if not fk_attr(v, s.val):
                rep.bad("graph", what, x, f"{show(s.val, 5)} is not the table a foreign key refers to")
                return
            if s.op == "extend":
                rep.unk("graph", what, x, "successors of unknown origin")
                return
            via = {y.a[1] for l in s.loops for y in subterms(l.term.a[0]) if y.op == "attr"}
            if "rev_foreign_keys" in via:
                rep.bad("graph", what, x, "edges point from the referenced to the referring table")
                return
            if not via & {"foreign_keys", "foreign_key_constraints"}:
                rep.unk("graph", what, x, f"references found in {sorted(via)}")
                return
            for q in [q for q, tag in s.guards if tag in SKIP and any(v.varies(q, l.term) for l in s.loops)]:
                if any(p is q for p, _ in c.guards):
                    continue
                for a in atoms(q):
                    if a.op == "in" and (a.a[1] in D or whole(v, a.a[1], D)) and a.a[0].op == "tuple" and len(a.a[0].a) == 2 and all(y.op == "attr" for y in a.a[0].a) and a.a[0].a[1].a[1] == "dst_table" and a.a[0].a[0] is not mk("attr", a.a[0].a[1].a[0], "dst_schema"):
                        rep.bad("graph", what, x, f"whether a reference counts is looked up under {show(a.a[0], 3)}")
                        return
                r = fixed(q, {a: True for a in atoms(q) if a.op == "in" and (a.a[1] in D or whole(v, a.a[1], D))})
                if r is TRUE:
                    continue
                loops_self = all(a.op == "eq" and a.a[0].op != "const" for a in atoms(r))
                # another table of the same name
                names = {a: {y.a[1] for y in subterms(a) if y.op == "attr"} for a in atoms(r)}
                other = fixed(r, {a: n <= {"dst_table", "name", "table_name", "foreign_keys"} and bool(n & {"name", "table_name"}) for a, n in names.items()})
                rep.check(None if loops_self and other is not FALSE else False, "graph", what, x, f"a reference only counts if {show(r, 5)}")
                return
            n += 1
        if not n:
            rep.bad("graph", what, x, "no reference is part of the graph")
            return
    rep.ok("graph", what, x)


def whole(v, s, D):
    """A collection of the names of all tables."""
    if s in D:
        return True
    if s.op != "obj" or v.e.objs[s].kind == "dict":
        return False
    cs = v.contribs(s)
    if len(cs) != 1 or len(cs[0].loops) != 1:
        return cs != [] and len(cs) == 1 and cs[0].op == "extend" and cs[0].val in D
    c = cs[0]
    t = c.loops[0].term
    return c.op == "add" and t.a[0] in D and itself(c.val, t) and not any(v.varies(q, t) for q, tag in c.guards if tag in SKIP)


def itself(k, loop):
    """k is the name of the table of the round."""
    if k.op == "tuple" and len(k.a) == 2 and all(x.op == "attr" and x.a[1] == n for x, n in zip(k.a, ("schema", "name"))) and k.a[0].a[0] is k.a[1].a[0]:
        k = k.a[0].a[0]
    return any(x.op in ("at", "key") and loop in x.a for x in ((k,) + tuple(a for a in k.a if isinstance(a, T) and k.op == "item")))


def recorded(v, x, rep, D, what):
    """Tables that were created are part of the graph."""
    for y in v.creates:
        if y.name != ".create_all":
            continue
        for d in D:
            cs = v.contribs(d)
            new = [c for c in cs if c.val is not None and any(v.is_call(t, "sqlalchemy.Table") and len(t.a[1]) > 1 and t.a[1][1] is y.recv for t in v.deep(c.val))]
            again = [c for c in cs if c.seq > y.seq and c not in new]
            free = [c for c in new if not [g for g, tag in c.guards if tag in SKIP and c.loops and v.varies(g, c.loops[-1].term) and fixed(g, {a: False for a in atoms(g) if a.op == "in" and a.a[1] in D}) is not TRUE]]
            made = [c for c in new if c not in free and any(same_source(v, c, z) for z in v.fx if z.result is not None and v.is_call(z.result, "sqlalchemy.Table"))] if not free else []
            if free or again or made:
                rep.ok("fresh", "recorded", y)
                return
            if new:
                rep.bad("fresh", "recorded", y, f"tables that are created are only added to the tables of the destination if {show([g for g, tag in new[0].guards if tag in SKIP][-1], 5)}")
                return
        rep.bad("fresh", "recorded", y, "tables that are created are never added to the tables of the destination")


def same_source(v, c, z):
    """Recorded under the conditions that led to its creation."""
    mine = {g for g, tag in c.guards if tag in SKIP}
    return bool(mine) and mine <= {g for g, _ in z.guards}


def fk_attr(v, t):
    """The value names the table a foreign key refers to."""
    return any(y.op == "attr" and (y.a[1] in ("dst_table", "dst_schema", "referred_table")) for y in subterms(t)) if t is not None else False
