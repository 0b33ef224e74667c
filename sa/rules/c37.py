"""What the multiplex filter returns.

The filter is analysed on unknown conditions, columns and row; the value
it returns is compared with: for the first element of the configured conditions
whose test holds, the result of the filter built from that same element, else a
copy of the row.  `first`: the loop over the conditions runs forwards, leaves at
the first match and returns that element's filter applied to the row as given.
`none`: otherwise the row is returned as given.  `operator`: for each operator
the test reduces to the comparison its name says, with the row's value on the
left.  `column`: the tested value is the one of the configured column, found by
name.  `reject`: an unknown column or operator and a nested filter that changes
the columns raise.
"""

from ..rule import *  # noqa
from ._f import *  # noqa
from .c04 import lookup

FLOORS = {"first": 1, "none": 1, "operator": 11, "column": 1, "reject": 2}


def check(ctx, rep):
    for fr in filter_runs(ctx):
        if fr.op == "multiplex":
            one(ctx, fr, rep)


def into(v, t):
    """A method of the element selected is that method's result, selected."""
    if t.op == "phi":
        built = {a: False for a in atoms(t.a[0]) if a.op == "is" and a.a[1] is NONE and a.a[0].op == "sel" and v.is_call(a.a[0].a[2], ".construct_filter")}
        return phi(fixed(t.a[0], built), into(v, t.a[1]), into(v, t.a[2]))
    if v.is_call(t, ".filter_view") and t.a[0].a[0].op == "sel":
        loop, c, val = t.a[0].a[0].a
        return mk("sel", loop, c, mk("call", mk("attr", val, "filter_view"), *t.a[1:]))
    return t


def first_of(v, t):
    """The first of a list of those that meet a condition is a selection."""
    new = {}
    for x in subterms(t):
        if x.op == "item" and is_const(x.a[1], 0) and x.a[0].op == "obj" and v.e.objs[x.a[0]].kind == "list":
            cs = v.contribs(x.a[0])
            if len(cs) == 1 and cs[0].op == "add" and len(cs[0].loops) == 1 and not (cs[0].loops[0].rev or cs[0].loops[0].sort or cs[0].loops[0].unordered):
                l = cs[0].loops[0].term
                gs = [g for g, _ in cs[0].guards if v.varies(g, l)]
                if gs:
                    new[x] = mk("sel", l, and_(*gs), cs[0].val)
    return subst(t, new) if new else t


def one(ctx, fr, rep):
    v, t, W = fr.v, fr.ret, fr.where
    conds = fr.cfg_attr("conditions")
    if t is None:
        rep.bad("first", "multiplex", W, "the filter always fails")
        return
    t = into(v, first_of(v, t))
    for x in subterms(t):
        if x.op == "item" and is_const(x.a[1]) and isinstance(cval(x.a[1]), int) and cval(x.a[1]) != 0 and x.a[0].op == "obj" and v.e.objs[x.a[0]].kind == "list":
            cs = v.contribs(x.a[0])
            if len(cs) == 1 and cs[0].op == "add" and len(cs[0].loops) == 1 and any(v.varies(g, cs[0].loops[0].term) for g, _ in cs[0].guards) and not cs[0].loops[0].rev and any(y is conds for y in v.deep(cs[0].loops[0].term.a[0])):
                return rep.bad("first", "multiplex", W, "not the first of the matching conditions decides the result")
    for _ in range(4):
        if t.op != "phi" or t.a[0].op == "exists":
            break
        with_, rest = [x for x in t.a[1:] if any(y.op == "sel" for y in v.deep(x))], [x for x in t.a[1:] if not any(y.op == "sel" for y in v.deep(x))]
        if len(with_) != 1:
            break
        g = t.a[0] if t.a[1] is rest[0] else not_(t.a[0])
        if implies(g, not_(v.e.truth(conds))):
            rep.ok("none", "nothing configured", W)
        elif v.uses(g, fr.values):
            rep.bad("first", "multiplex", W, f"no condition is tried if {show(g, 4)}")
        else:
            rep.unk("first", "multiplex", W, f"no condition is tried if {show(g, 4)}")
        t = with_[0]
    sels = [x for x in v.deep(t) if x.op == "sel"]
    mus = [x for x in v.deep(t) if x.op == "mu"]
    if t.op != "phi" or t.a[0].op != "exists" or len(sels) != 1:
        loops = [m for m in mus if m.a[0].a[0] is conds or v.uses(m.a[0], conds)]
        if loops and any(v.is_call(x, ".filter_view") for x in v.deep(t)):
            rep.bad("first", "multiplex", W, "not only the first matching condition decides the result")
            return
        if not any(v.is_call(x, ".filter_view") for x in v.deep(t)):
            rep.bad("first", "multiplex", W, "no configured filter is ever applied")
            return
        failed = [x for x in sels if atoms(x.a[1]) and all(any(y.op in ("exc", "raised") for y in subterms(a)) for a in atoms(x.a[1]))]
        if failed and any(x.a[2] is fr.values or x.a[2].op == "obj" and any(c.op == "extend" and c.val is fr.values for c in v.contribs(x.a[2])) for x in failed):
            return rep.bad("first", "multiplex", W, "values are returned as they are when a condition cannot be evaluated")
        rep.unk("first", "multiplex", W, "result is not a selection over the conditions: " + show(t, 4))
        return fill(rep, FLOORS, W)
    ex, sel, base = t.a[0], t.a[1], t.a[2]
    if sel.op != "sel":
        vals = [x for _, x in v.alts(sel)]
        rep.check(False if any(x.op != "sel" for x in vals) and sel.op == "phi" else None, "first", "multiplex", W, f"a matching condition is not applied: {show(sel, 3)}")
        sel = next((x for x in vals if x.op == "sel"), None)
        if sel is None:
            return
    loop, cond, val = sel.a
    fx = [x for x in v.fx if any(l.term is loop for l in x.loops)]
    if loop is not ex.a[0] or not equivalent(cond, ex.a[1]):
        rep.unk("first", "multiplex", W, "match and selection differ")
        return
    elem = mk("at", conds, loop)
    seq = loop.a[0]
    rev = any(l.rev or l.sort or l.unordered for x in fx for l in x.loops if l.term is loop)
    apps = [x for x in subterms(val) if x.op == "attr" and x.a[1] == "apply"]
    other = [x for x in subterms(cond) if x.op == "at" and x.a[1] is loop and x.a[0] is not conds and v.uses(x.a[0], conds)]
    if rev or any(v.is_call(x.a[0], "builtins.reversed", "builtins.sorted") for x in other) or v.is_call(seq, "builtins.reversed", "builtins.sorted", "builtins.set"):
        rep.bad("first", "multiplex", W, "conditions are not tried in the configured order")
    elif seq.op == "slice" or any(x.op == "slice" and v.uses(x, conds) for x in subterms(seq)):
        rep.bad("first", "multiplex", W, "some conditions are never tried")
    elif not v.is_call(val, ".filter_view"):
        alts = [x for _, x in v.alts(val)]
        rep.check(False if any(x is fr.values or x.op == "obj" for x in alts) else None, "first", "multiplex", W, f"a matching condition yields {show(val, 4)}")
    elif val.a[1][0] is not fr.values:
        arg = val.a[1][0]
        same = arg.op == "obj" and len(v.contribs(arg)) == 1 and v.contribs(arg)[0].op == "extend" and v.contribs(arg)[0].val is fr.values
        rep.check(True if same else None if v.uses(arg, fr.values) else False, "first", "multiplex", W, f"the nested filter is applied to {show(arg, 4)}")
    elif any(x.op == "at" and x.a[1] is loop and v.is_call(x.a[0], "builtins.reversed", "builtins.sorted", "builtins.set") for x in subterms(val)):
        rep.bad("first", "multiplex", W, "the filter applied belongs to another condition")
    elif not apps:
        rep.unk("first", "multiplex", W, show(val, 5))
    else:
        bad = [x for x in apps if x.a[0] is not elem]
        extra = [g for x in fx if x.name == ".filter_view" for g, tag in x.guards if tag in ("branch", "continue") and v.varies(g, loop) and not equivalent(g, cond)]
        if bad and any(x.a[0].op in ("item", "at") for x in bad):
            rep.bad("first", "multiplex", W, f"the filter applied belongs to {show(bad[0].a[0], 4)}")
        elif bad:
            rep.unk("first", "multiplex", W, show(bad[0], 4))
        else:
            rep.check(True if not extra else None, "first", "multiplex", W, show(extra[0], 4) if extra else "")
    # no match
    ok = base is fr.values or (base.op == "obj" and len(v.contribs(base)) == 1 and v.contribs(base)[0].op == "extend" and v.contribs(base)[0].val is fr.values)
    rep.check(True if ok else False if base.op == "obj" or is_const(base) or v.is_call(base, ".filter_view") else None, "none", "multiplex", W, f"without a match the row becomes {show(base, 4)}")
    # tested column
    tests = set()
    for a in atoms(cond):
        for x in subterms(a):
            if x.op == "item" and x.a[0] is fr.values or x.op == "at" and x.a[0] is fr.values:
                tests.add(x)
    if not tests:
        rep.bad("column", "multiplex", W, "the conditions do not test the row")
    for x in tests:
        st, msg, name = lookup(v, x.a[1], fr.columns)
        if st is True:
            rep.check(name is fr.cfg_attr("column"), "column", "multiplex", W, f"the tested column is {show(name, 4)}")
        else:
            rep.check(st, "column", "multiplex", W, msg)
    # operators
    opt = mk("attr", elem, "op")
    C = mk("attr", elem, "value")
    ops = {cval(a.a[0]): a for a in atoms(cond) if a.op == "eq" and a.a[1] is opt and is_const(a.a[0])}
    V = next(iter(tests)) if len(tests) == 1 else None
    e = fr.e
    declared = declared_ops(ctx, e, elem)
    for op in sorted(declared | set(SPEC)):
        if op not in declared:
            rep.bad("operator", op, W, "the operator is not accepted")
            continue
        if V is None:
            rep.unk("operator", op, W)
            continue
        got = fixed(cond, {a: o == op for o, a in ops.items()})
        if op not in SPEC:
            rep.unk("operator", op, W)
            continue
        exp = SPEC[op](e, V, C)
        if op not in ops and len(declared - set(ops)) > 1:
            unknown = not ops
            rep.check(None if unknown else False, "operator", op, W, "the operator is accepted but not handled")
        elif equivalent(got, exp):
            rep.ok("operator", op, W)
        elif all(a.op in ("eq", "lt", "in", "is", "truth") and (V in set(subterms(a))) for a in atoms(got)):
            rep.bad("operator", op, W, f"{op!r} tests {show(got, 4)}")
        elif op in ("is", "is not", "=", "!=", "in", "not in") and all(V in set(subterms(a)) and a.op in ("eq", "lt", "in", "is", "truth") or a.op in ("is", "truth") and C in a.a for a in atoms(got)):
            rep.bad("operator", op, W, f"{op!r} tests {show(got, 4)}")
        else:
            rep.unk("operator", op, W, show(got, 5))
    # rejections
    raises = [x for x in v.fx if x.kind == "raise"]
    ch = any(any(y.op == "attr" and y.a[1] == "columns_out" for y in subterms(g)) and g.op == "not" or any(y.op == "attr" and y.a[1] == "columns_out" for y in subterms(g)) for x in raises for g, tag in x.guards if tag == "branch" and (x.loops or g.op == "exists"))
    good = False
    for x in raises:
        g = and_(*[h for h, tg in x.guards if tg == "branch"])
        if g.op == "exists":
            g = g.a[1]
        for a in atoms(g):
            if a.op == "eq" and any(y.op == "attr" and y.a[1] == "columns_out" for y in subterms(a)) and fr.columns in set(subterms(a)):
                good = good or equivalent(g, not_(a))
    part = [x for x in raises for g, tag in x.guards for a in atoms(g) for y in subterms(a) if (y.op == "len" or v.is_call(y, "builtins.len", "builtins.set")) and any(z.op == "attr" and z.a[1] == "columns_out" for z in subterms(y))]
    rep.check(True if good else (None if ch and not part else False), "reject", "columns", W, "a nested filter that adds or removes columns is accepted")
    col = fr.cfg_attr("column")
    byidx = any(v.is_call(y, ".index") for x in tests for y in subterms(x.a[1]))
    byitem = any(y.op == "item" and y.a[0].op == "obj" for x in tests for y in subterms(x.a[1]))
    byguard = any(col in set(subterms(g)) for x in raises for g, tag in x.guards if tag == "branch")
    swallowed = byidx and any(y is NONE or is_const(y) for x in tests for _, y in v.alts(x.a[1]))
    rep.check(False if swallowed else byidx or byitem or byguard, "reject", "column", W, "an unknown column is accepted")


SPEC = {
    "is": lambda e, v, c: mk("is", v, c),
    "is not": lambda e, v, c: not_(mk("is", v, c)),
    "in": lambda e, v, c: e.in_(v, c, None),
    "not in": lambda e, v, c: not_(e.in_(v, c, None)),
    "=": lambda e, v, c: e.eq(v, c),
    "!=": lambda e, v, c: not_(e.eq(v, c)),
    "<": lambda e, v, c: e.lt(v, c),
    ">": lambda e, v, c: e.lt(c, v),
    "<=": lambda e, v, c: not_(e.lt(c, v)),
    ">=": lambda e, v, c: not_(e.lt(v, c)),
    "matches": lambda e, v, c: mk("truth", mk("call", ext("fnmatch.fnmatch"), (v, c), ())),
}


def declared_ops(ctx, e, elem):
    ty = e.type_of(elem)
    if ty and ty[0] == "cls" and ty[1] in e.classes:
        for k in e.mro(ty[1]):
            ci = e.classes.get(k)
            if ci is not None and "op" in ci.fields:
                t = e.ann(ci.fields["op"][0], ci.frame)
                if t is not None and t[0] == "lit":
                    return set(t[1])
    broken("operators of the multiplex conditions not found")
