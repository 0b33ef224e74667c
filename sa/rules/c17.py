"""How a table's query follows foreign keys.

`joins`: for every table the planner can meet, the query has the joins its keys
call for - all keys to planned tables when there are any, otherwise all keys
from planned tables - and only those.  `pairs`: both column lists and the table
of a join come from the same key, and the sample is used.  `outer`: rows must
match all keys they have, or any key that refers to them.  `reverse`: keys are
recorded in reverse for the table they refer to.  `planned`: only tables that
were planned count.  `order`: tables are planned in the order computed from all
keys, starting at the targets.  `sequence`: that order and the reverse keys are
computed after keys were inferred, ignored and added.
"""

from ._pl import *  # noqa
from ._solver import GRAPH, reversal

FLOORS = {"joins": 4, "pairs": 2, "outer": 2, "reverse": 1, "planned": 1, "order": 3, "sequence": 2}


def check(ctx, rep):
    p = PL(ctx)
    if p.main is None:
        return fill(rep, FLOORS, "planner.py")
    joins(p, rep)
    reverse(p, rep)
    planned(p, rep)
    order(p, rep)
    sequences(p, rep)
    reversal(ctx, rep, "order")
    layers(ctx, rep, "order")
    fill(rep, FLOORS, "planner.py")


def layers(ctx, rep, rule):
    """Tables that were placed in any earlier layer are not placed again."""
    fn = ctx.name("solver", "order_graph")
    if fn is None:
        return
    r = ctx.run(("solver", "layers"), lambda e: e.call(fn, [GRAPH, mk("sym", "source")], [], None), no_inline=("subsetter.solver.reverse_graph", "subsetter.solver.toposort_reachable"))
    v = View(r)
    for x in v.fx:
        if not (x.result is not None and x.result.op == "call" and x.result.a[0].op == "func" and v.e.funcs[x.result.a[0]].name.rsplit(".", 1)[-1] == "toposort_reachable" and x.loops and len(x.result.a[1]) == 3):
            continue
        seen, inner = x.result.a[1][2], x.loops[-1]
        if seen.op != "obj" or inner not in v.e.objs[seen].loops:
            continue
        # it holds the source and the last layer, nothing else
        cs = v.contribs(seen)
        last = [c for c in cs if c.op == "extend" and c.val is not None and c.val.op == "mu" and list(c.loops[-1:]) == [inner] and v.e.backs.get(c.val) is x.result]
        if last and all(c in last or c.op == "add" and c.val is mk("sym", "source") for c in cs):
            rep.bad(rule, "layers", "planner.py", "tables placed before the last layer are placed again")


def label(f, t):
    names = {"T": "target", "F": "refers to planned tables", "R": "referred to", "C": "constrained"}
    s = ", ".join(n + (f" {f[k]} times" if f[k] > 1 else "") for k, n in names.items() if f[k])
    return s + (", all" if t and t.get("all_") else "")


def joins(p, rep):
    seen = {}
    where = p.main
    for facts, target in scenarios():
        if facts["C"] and facts["R"]:
            continue
        inst = label(facts, target)
        sts = p.statements(p.main.val, facts, target)
        if sts is None:
            why = p.leftout()
            rep.check(False if why else None, "joins", inst, "planner.py", why or "statements not decided")
            continue
        keyed = []
        bad = None
        for s in sts:
            fr = p.field(s, "from_")
            if not own_ident(p, fr):
                bad = bad or (None if own_ident(p, fr) is None else "rows are taken from " + ident(p, fr))
            cols = p.field(s, "columns")
            if cols is not None and cols is not NONE:
                bad = bad or "only some columns are taken"
            j = p.field(s, "joins")
            js = [] if j is None else p.listing(j, facts, target)
            if js is None:
                why = p.leftout()
                rep.check(False if why else None, "joins", inst, "planner.py", why or "joins not decided")
                break
            if js:
                keyed.append((s, js))
        else:
            want = "F" if facts["F"] else "R" if facts["R"] and not target else "R" if facts["R"] and not target["all_"] else "*" if facts["R"] else ""
            kinds = {p.keyof(y) for _, js in keyed for y, _ in js}
            if bad:
                rep.bad("joins", inst, "planner.py", bad)
            elif None in kinds:
                why = p.leftout()
                rep.check(False if why else None, "joins", inst, "planner.py", why or "keys of a join not recognised")
            elif len(keyed) > 1:
                rep.unk("joins", inst, "planner.py", f"{len(keyed)} selections with joins")
            elif want == "*":
                rep.check(kinds <= {"R"}, "joins", inst, "planner.py", "joined although everything is selected")
            elif want == "":
                rep.check(not kinds, "joins", inst, "planner.py", "joined to other tables")
            else:
                rep.check(kinds == {want}, "joins", inst, "planner.py", f"keys used: {kinds or 'none'}")
            for s, js in keyed:
                # all keys of the list, and none to a table that is not planned
                for y, c in js:
                    off = p.holds(c, dict(facts, P=False), target) if c is not None else None
                    if off:
                        rep.bad("planned", inst, "planner.py", "a key takes part whether or not its table is planned")
                seen.setdefault(want if want != "*" else "R", []).append((s, js, facts, target))
    for k, l in sorted(seen.items()):
        for s, js, facts, target in l[:1]:
            for y, _ in js:
                pairs(p, rep, y, k, facts, target)
        for s, js, facts, target in l:
            r = outer(p, p.field(s, "joins_outer"), facts, target, k == "R")
            rep.check(r, "outer", label(facts, target), "planner.py", "a row must match all keys that refer to it" if k == "R" else "a row need not match all its keys")


def outer(p, t, facts, target, want):
    """Whether the setting is as wanted, whatever the number of keys."""
    lens = {x for x in subterms(t) if x.op == "len" or x.op == "call" and is_ext(x.a[0], "builtins.len")}
    some = set()
    for x in lens:
        try:
            if p.value(mk("truth", x.a[0] if x.op == "len" else x.a[1][0]), facts, target):
                some.add(x)
        except (Undecided, IndexError):
            some.add(x)
    res = []
    for n in sorted({1, 2} | {cval(x) + d for x in subterms(t) if is_const(x) and type(cval(x)) is int and 0 < cval(x) < 1000 for d in (0, 1)}) if lens else (1,):
        try:
            res.append(bool(p.value(subst(t, {x: const(n if x in some else 0) for x in lens}), facts, target)) == want)
        except Undecided:
            res.append(None)
    return False if False in res else None if None in res else True


def keyof(p, j):
    r = p.field(j, "right") if j.op == "obj" else None
    n = p.field(r, "table_name") if r is not None and r.op == "obj" else None
    for t in subterms(n) if n is not None else ():
        if t.op == "at" and p.keyelem(t):
            return p.keyelem(t)
    return None


PL.keyof = keyof


def own_ident(p, t):
    if t is None or t.op != "obj":
        return None
    a, b, s = (p.field(t, n) for n in ("table_schema", "table_name", "sampled"))
    if a is None or b is None:
        return None
    if s is not None and s.op == "const" and cval(s):
        return False
    return p.is_self(mk("tuple", a, b))


def ident(p, t):
    return f"{show(p.field(t, 'table_schema'), 4)}.{show(p.field(t, 'table_name'), 4)}"


def pairs(p, rep, j, kind, facts, target):
    inst = {"F": "forward", "R": "reverse"}.get(kind, kind)
    r = p.field(j, "right")
    ks = [t for t in subterms(p.field(r, "table_name")) if t.op == "at" and p.keyelem(t)]
    if not ks:
        why = p.leftout()
        return rep.check(False if why else None, "pairs", inst, "planner.py", why or "keys of a join not recognised")
    k = ks[0]
    a, b, s = (p.field(r, n) for n in ("table_schema", "table_name", "sampled"))
    for t, n in ((a, "dst_schema"), (b, "dst_table")):
        if t is not None and t.op == "attr" and t.a[1] in ("schema", "name") and t.a[0].op == "item" and t.a[0].a[1].op == "tuple" and len(t.a[0].a[1].a) == 2:
            t = t.a[0].a[1].a[t.a[1] == "name"]  # tables are recorded under their names
        if t is not mk("attr", k, n):
            return rep.check(False if t is not None and t.op in ("attr", "const") else None, "pairs", inst, "planner.py", f"the joined table is {ident(p, r)}")
    try:
        sampled = s is not None and bool(p.value(s, facts, target))
    except Undecided:
        return rep.unk("pairs", inst, "planner.py", "sample or table not decided")
    if not sampled:
        return rep.bad("pairs", inst, "planner.py", "joined to all rows of a table, not to its sample")
    for n, w in (("left_columns", "columns"), ("right_columns", "dst_columns")):
        t = sequence(p, p.field(j, n)) if p.field(j, n) is not None else None
        if t is not mk("attr", k, w):
            wrong = t is not None and t.op in ("attr", "slice") or reordered(p, p.field(j, n))
            return rep.check(False if wrong else None, "pairs", inst, "planner.py", f"{n} are {show(p.field(j, n) if t is None else t, 5)}")
    rep.ok("pairs", inst, "planner.py")


def reordered(p, t):
    return t is not None and any(x.op == "call" and is_ext(x.a[0], "builtins.sorted", "builtins.set", "builtins.reversed", "builtins.frozenset") for x in p.deep(t, stop=lambda x: p.keyelem(x) is not None)) or t is not None and t.op == "obj" and any(l.rev or l.unordered or l.sort for c in p.contribs(t) for l in c.loops if l.term not in {m.term for m in p.e.objs[t].loops})


def reverse(p, rep):
    if len(p.rev) != 1:
        return rep.unk("reverse", "keys", "metadata.py", f"{len(p.rev)} records of reverse keys")
    x = p.rev[0]
    o = x.args[-1]
    col, dcol, ds, dt = (p.field(o, n) for n in ("columns", "dst_columns", "dst_schema", "dst_table"))
    k = [mk("at", l.term.a[0], l.term) for l in x.loops if l.term.a[0].op == "attr" and l.term.a[0].a[1] == "foreign_keys"]
    if len(k) != 1 or None in (col, dcol, ds, dt):
        return rep.unk("reverse", "keys", x, "key not recognised")
    k = k[0]
    tab = k.a[0].a[0]
    bad = None
    if sequence(p, col) is not mk("attr", k, "dst_columns"):
        bad = "columns are " + show(col, 5)
    elif sequence(p, dcol) is not mk("attr", k, "columns"):
        bad = "referring columns are " + show(dcol, 5)
    elif ds is not mk("attr", tab, "schema") or dt is not mk("attr", tab, "name"):
        key = tab.a[1] if tab.op == "item" else None
        if key is not None and ds is not None and dt is not None and ds.op == "item" and dt.op == "item" and ds.a[0] is key and dt.a[0] is key and cv(ds.a[1]) == 0 and cv(dt.a[1]) == 1:
            pass
        else:
            bad = f"the referring table is {show(ds, 4)}.{show(dt, 4)}"
    if bad:
        return rep.bad("reverse", "keys", x, bad)
    r = x.recv.a[0]
    want = mk("tuple", mk("attr", k, "dst_schema"), mk("attr", k, "dst_table"))
    if not (r.op == "item" and r.a[0] in p.dicts):
        return rep.unk("reverse", "keys", x, "recorded for " + show(r, 5))
    if r.a[1] is not want:
        return rep.bad("reverse", "keys", x, "recorded for " + show(r, 5))
    left = [g for gg, tag in x.guards if tag in SKIP for g in conj(gg) if not implies(mk("in", want, r.a[0]), g)]
    if left:
        known = [g for g in left if all(a.op in ("eq", "truth", "lt", "exists") and not any(z.op == "obj" and z not in p.dicts for z in subterms(a)) for a in atoms(g))]
        return rep.check(False if known else None, "reverse", "keys", x, f"only recorded if {show(left[0], 6)}")
    if not (tab.op == "item" and tab.a[0] in p.dicts) and not tab.op == "at":
        return rep.unk("reverse", "keys", x, "tables not recognised")
    rep.ok("reverse", "keys", x)


def planned(p, rep):
    sets = set()
    for o, ob in p.e.objs.items():
        for c in ob.contribs:
            if c.val is not None and c.val.op == "obj" and p.cname(c.val) == "SQLLeftJoin":
                for g, tag in c.guards:
                    for a in atoms(g):
                        k = p.classify(a)
                        if k and k[0] == "P":
                            sets.add(k[1])
    if not sets:
        return rep.unk("planned", "tables", "planner.py", "set of planned tables not found")
    for s in sets:
        if s in p.dicts:
            rep.bad("planned", "tables", "planner.py", "all selected tables count as planned")
            continue
        if s.op == "obj" and p.e.objs[s].kind == "dict":
            rep.unk("planned", "tables", "planner.py", "planned tables kept elsewhere")
            continue
        if s.op == "slice" and s.a[0].op == "obj":
            # a part of the order, up to somewhere
            rep.unk("planned", "tables", "planner.py", "planned tables kept elsewhere")
            continue
        if s.op != "obj":
            rep.bad("planned", "tables", "planner.py", f"tables count as planned if they are in {show(s, 4)}")
            continue
        got = False
        for c in p.contribs(s):
            d = {t for l in c.loops for t in p.deep(l.term.a[0])} | (p.deep(c.val) if c.val is not None else set())
            if c.op == "add" and p.is_self(c.val):
                gs = [g for g, tag in c.guards if tag in SKIP and p.varies(g, p.loop) and not is_start(p, g)]
                if gs:
                    rep.check(None, "planned", "tables", "planner.py", f"a table only counts as planned if {show(gs[0], 5)}")
                got = True
            elif c.op == "add" and p.is_self(c.val) is False and not any(is_attr(t, "config", "passthrough") for t in d):
                rep.bad("planned", "tables", "planner.py", f"counts as planned: {show(c.val, 5)}")
                return
            elif any(is_attr(t, "config", "passthrough") for t in d) and p.order.result not in d:
                rep.bad("planned", "tables", "planner.py", "passthrough tables count as planned")
                return
            else:
                return rep.unk("planned", "tables", "planner.py", f"record of planned tables: {c.op}")
        rep.check(got or None, "planned", "tables", "planner.py", "record of planned tables not found")


def is_start(p, g):
    """Leaves out where the search starts, and nothing else."""
    src = p.order.args[1] if len(p.order.args) > 1 else None
    return g.op == "not" and g.a[0].op == "eq" and src is not None and set(g.a[0].a) == {src, mk("at", p.loop.a[0], p.loop)} and p.loop.a[0] is p.order.result


def order(p, rep):
    # the loop
    s = p.loop.a[0]
    l = next(l for l in p.main.loops if l.term is p.loop)
    skip = [g for g, tag in p.main.guards if tag in SKIP and p.varies(g, p.loop)]
    start = [g for g in skip if is_start(p, g)]
    skip = [g for g in skip if g not in start]
    if l.rev or l.unordered or l.sort:
        rep.bad("order", "loop", "planner.py", "tables are not planned in the computed order")
    elif skip:
        rep.check(None if any(p.classify(a) for g in skip for a in atoms(g)) else False, "order", "loop", "planner.py", f"a table is only planned if {show(skip[0], 5)}")
    elif start and s is p.order.result:
        rep.ok("order", "loop", "planner.py")
    elif s.op == "slice" and s.a[0] is p.order.result:
        ok = [cv(x) for x in s.a[1:]] == [1, None, None] if all(x.op == "const" for x in s.a[1:]) else None
        rep.check(ok, "order", "loop", "planner.py", "not every table of the order is planned")
    else:
        rep.unk("order", "loop", "planner.py", "order used in another way")
    # what is ordered
    args = p.order.args
    G = args[0] if args else None
    if G is None or G.op != "obj":
        rep.unk("order", "graph", p.order, "graph not recognised")
        rep.unk("order", "targets", p.order, "graph not recognised")
        return
    edges(p, rep, G)
    src = args[1] if len(args) > 1 else None
    tg = [c for c in p.contribs(G) if c.key is src and src is not None]
    if len(tg) != 1:
        return rep.unk("order", "targets", p.order, "source not found in the graph")
    t = tg[0].val
    oks = [starts(p, a) for g, a in p.alts(t)]
    rep.check(False if False in oks else None if None in oks else True, "order", "targets", p.order, "only some targets start the search")


def starts(p, t):
    """Whether a set has all targets."""
    ok = None
    if t.op == "obj":
        cs = p.contribs(t)
        if len(cs) == 1 and cs[0].op == "extend" and not own_guards(p, t, cs[0]):
            x = strip(cs[0].val)
            ok = True if is_attr(x, "config", "targets") or p.is_call(x, ".keys") and is_attr(x.a[0].a[0], "config", "targets") else None
        elif len(cs) == 1 and cs[0].op == "add" and len(cs[0].loops) > len(p.e.objs[t].loops):
            q = cs[0].loops[-1].term
            if is_attr(q.a[0], "config", "targets") and cs[0].val is mk("key", q.a[0], q):
                ok = False if any(p.varies(g, q) for g, tag in cs[0].guards if tag in SKIP) else True
        if ok is None:
            for c in cs:
                for x in p.deep(c.val) if c.val is not None else ():
                    if x.op == "slice" and any(is_attr(y, "config", "targets") for y in p.deep(x.a[0])) and c.op == "extend":
                        ok = False
    return ok


def edges(p, rep, G):
    cs = [c for c in p.contribs(G) if c.val is not None and c.val.op == "obj" and any(l.term.a[0] in p.dicts or any(t in p.dicts for t in subterms(l.term.a[0])) for l in c.loops)]
    if len(cs) != 1:
        return rep.unk("order", "graph", p.order, f"{len(cs)} kinds of nodes")
    c = cs[0]
    ec = p.contribs(c.val)
    if len(ec) != 1 or ec[0].op != "add":
        return rep.unk("order", "graph", p.order, "edges not recognised")
    e = ec[0]
    k = [t.a[0] for t in subterms(e.val) if t.op == "attr" and t.a[1] in ("dst_schema", "dst_table") and t.a[0].op == "at"]
    if not k or e.val.op != "fstr" or list(e.val.a) != [mk("attr", k[0], "dst_schema"), ".", mk("attr", k[0], "dst_table")]:
        return rep.unk("order", "graph", p.order, "edges not recognised")
    k = k[0]
    if not (k.a[0].op == "attr" and k.a[0].a[1] == "foreign_keys"):
        bad = k.a[0].op == "attr" or k.a[0].op == "slice"
        return rep.check(False if bad else None, "order", "graph", p.order, f"tables are ordered by {show(k.a[0], 4)}")
    pair = mk("tuple", mk("attr", k, "dst_schema"), mk("attr", k, "dst_table"))
    mine = {g for g, _ in c.guards}
    for g, tag in e.guards:
        if tag in SKIP and g not in mine:
            for a in atoms(g):
                if not (a.op == "in" and a.a[0] is pair):
                    known = a.op in ("eq", "truth", "lt") and not any(z.op == "obj" and z not in p.dicts for z in subterms(a))
                    return rep.check(False if known else None, "order", "graph", p.order, f"a key only counts for the order if {show(g, 6)}")
    rep.ok("order", "graph", p.order)


def sequences(p, rep):
    last = changes(p)
    if not last:
        for n in ("order", "reverse"):
            rep.unk("sequence", n, "planner.py", "changes to the keys not found")
        return
    first = [c.seq for c in p.contribs(p.order.args[0])] if p.order.args and p.order.args[0].op == "obj" else []
    if first:
        late = [x for x in last if x.seq > min(first)]
        rep.check(not late, "sequence", "order", late[0] if late else "planner.py", "keys change after the order was computed from them")
    else:
        rep.unk("sequence", "order", "planner.py", "graph not recognised")
    if p.rev:
        late = [x for x in last if x.seq > p.rev[0].seq]
        rep.check(not late, "sequence", "reverse", late[0] if late else "planner.py", "keys change after they were recorded in reverse")
    else:
        rep.unk("sequence", "reverse", "planner.py", "reverse keys not found")


def changes(p):
    """Effects that add or drop keys of the selected tables."""
    out = []
    for x in p.fx:
        r = x.recv
        if r is None:
            continue
        if x.kind == "setattr" and x.fn.a[1] == "foreign_keys" and r.op in ("item", "at"):
            out.append(x)
        elif x.kind == "call" and r.op == "attr" and r.a[1] == "foreign_keys" and x.name in (".append", ".extend", ".remove", ".insert", ".pop", ".clear"):
            out.append(x)
    return out
