"""Compilation of plan documents.

Every kind of node is analysed with its fields unknown and nested nodes kept
as they are; the SQL expression it returns is compared with what the node
means.  `operator`: one instance per comparison operator.  `in`, `junction`,
`constant`, `random`, `text`, `query`, `union`: the expression of those nodes.
`columns`, `where`, `limit`: parts of a selection.  `join`: pairs of columns,
kind of join and how several are combined.  `distinct`: joins that can repeat a
row are followed by grouping on the key or are written as a test for existence.
"""

import ast

from ._p import *  # noqa

FLOORS = {"operator": 7, "in": 3, "junction": 6, "constant": 2, "random": 2, "text": 1, "query": 2, "union": 2, "columns": 2, "where": 1, "limit": 2, "join": 4, "distinct": 2}


def check(ctx, rep):
    operators(ctx, rep)
    membership(ctx, rep)
    for tag, unit in (("and", "true"), ("or", "false")):
        junction(ctx, rep, tag, unit)
    for tag in ("true", "false"):
        v = NV(ctx, tag, "build")
        ok = v.is_call(v.ret, "sqlalchemy." + tag)
        other = v.is_call(v.ret, "sqlalchemy.true", "sqlalchemy.false")
        rep.check(True if ok else False if other else None, "constant", tag, v.name, f"compiles to {show(v.ret, 4)}")
    rand(ctx, rep)
    text(ctx, rep)
    select(ctx, rep)
    union(ctx, rep)


# ---------------------------------------------------------------- conditions


def compare(v, t, col, val):
    """The comparison operator t applies to (column, value), or None."""
    neg = False
    for _ in range(6):
        if v.is_call(t, "sqlalchemy.not_") and t.a[1]:
            neg, t = not neg, t.a[1][0]
        elif t.op == "not":
            neg, t = not neg, t.a[0]
        elif t.op in ("invert", "un") and isinstance(t.a[-1], T):
            neg, t = not neg, t.a[-1]
        elif t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("__invert__", "self_group"):
            neg, t = neg != (t.a[0].a[1] == "__invert__"), t.a[0].a[0]
        else:
            break
    op = None
    FL = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}
    NEG = {"<": ">=", ">": "<=", "==": "!=", "!=": "==", "<=": ">", ">=": "<", "like": "not like", "not like": "like"}
    if t.op == "sqlop":
        a, b = t.a[1], t.a[2]
        if b is val:
            op, lhs = t.a[0], a
        elif a is val:
            op, lhs = FL[t.a[0]], b
        else:
            return "?", None
    elif t.op == "call" and t.a[0].op == "attr" and len(t.a[1]) >= 1:
        n = t.a[0].a[1]
        op = {"like": "like", "notlike": "not like", "not_like": "not like", "__lt__": "<", "__gt__": ">", "__eq__": "==", "__ne__": "!=", "__le__": "<=", "__ge__": ">=", "ilike": "ilike", "contains": "contains", "startswith": "startswith", "in_": "in", "is_": "is"}.get(n)
        if op is None or t.a[1][0] is not val:
            return ("?", None) if op is None else ("other value", None)
        lhs = t.a[0].a[0]
    else:
        return "?", None
    return (NEG.get(op, "?") if neg else op), lhs


def operators(ctx, rep):
    v = NV(ctx, "operator", "build")
    want = {"<": "<", ">": ">", "=": "==", "<>": "!=", "!=": "!=", "like": "like", "not like": "not like"}
    for op, w in want.items():
        roots = {me("operator"): op}
        if v.raised(roots):
            rep.bad("operator", op, v.name, f"operator {op!r} is refused")
            continue
        for t in v.pick(v.ret, roots):
            got, lhs = compare(v, t, None, me("value"))
            c = column(lhs) if lhs is not None else None
            if got == "?" and v.is_call(t, "sqlalchemy.or_", "sqlalchemy.and_") and len(t.a[1]) > 1:
                parts = [compare(v, x, None, me("value"))[0] for x in t.a[1]]
                null = [x for x in t.a[1] if v.is_call(x, ".is_", ".is_not", ".isnot", ".isnull") and x.a[1] and x.a[1][0] is NONE and column(x.a[0].a[0]) == (TABLE, me("column"))]
                if w in parts and null:
                    rep.bad("operator", op, v.name, f"{op!r} compiles to {show(t, 5)}")
                    continue
            if got == "?":
                rep.unk("operator", op, v.name, show(t, 5))
            elif got != w:
                rep.bad("operator", op, v.name, f"{op!r} compiles to {show(t, 5)}")
            elif c is None:
                rep.unk("operator", op, v.name, show(t, 5))
            else:
                rep.check(c == (TABLE, me("column")), "operator", op, v.name, f"{op!r} is applied to {show(lhs, 5)}")


def membership(ctx, rep):
    v = NV(ctx, "in", "build")
    lst = mk("isinst", me("values"), ext("builtins.list"))
    for neg in (False, True):
        for t in v.pick(v.ret, {me("negated"): neg}):
            for g, t in v.alts(t):
                inst = "negated" if neg else "plain"
                n = False
                for _ in range(5):
                    if v.is_call(t, "sqlalchemy.not_"):
                        n, t = not n, t.a[1][0]
                    elif t.op in ("not", "invert"):
                        n, t = not n, t.a[0]
                    elif t.op == "phi":
                        break
                    else:
                        break
                for g2, u in v.alts(t):
                    if not (u.op == "call" and u.a[0].op == "attr" and u.a[0].a[1] in ("in_", "notin_", "not_in") and u.a[1]):
                        rep.unk("in", inst, v.name, show(u, 5))
                        continue
                    m = n != (u.a[0].a[1] != "in_")
                    if m != neg:
                        rep.bad("in", inst, v.name, f"{'negated' if neg else 'plain'} membership compiles to {'a negated' if m else 'a plain'} one")
                        continue
                    cols = u.a[0].a[0]
                    vals = me("values")
                    for g3, arg in v.alts(u.a[1][0]):
                        if arg is not vals and not built(arg, vals):
                            if any(built(q, vals) for q in subterms(arg)) and any(v.is_call(q, ".limit", ".fetch", ".offset", ".where", ".filter", ".slice") for q in subterms(arg)):
                                rep.bad("in", inst, v.name, f"tested against {show(arg, 4)}")
                                continue
                            full = arg.op == "obj" and any(vals in v.deep(c.val) for c in v.contribs(arg) if c.val is not None)
                            rep.check(None if full or vals in v.deep(arg) and arg.op != "slice" else False, "in", inst, v.name, f"tested against {show(arg, 4)}")
                        else:
                            rep.ok("in", inst, v.name)
                    seq = me("columns")
                    L = v.star(cols.a[1]) if v.is_call(cols, "sqlalchemy.tuple_") else None
                    if L is None or L.op != "obj":
                        rep.unk("in", inst, v.name, show(cols, 4))
                        continue
                    ok = every(v, L, seq, lambda e, s: column(e) == (TABLE, s))
                    rep.check(ok, "in", inst, v.name, "not all columns are tested, in order")


def every(v, L, seq, match):
    """List L is [f(x) for x in seq] with f recognised by match(value, element)."""
    if L.op != "obj":
        return None
    cs = [c for c in v.contribs(L)]
    if len(cs) == 2 and all(c.op == "add" for c in cs):
        # one expression in two branches
        out = [one(v, c, seq, match, False) for c in cs]
        gs = [and_(*[g for g, _ in c.guards if any(v.varies(g, l.term) for l in c.loops)]) for c in cs]
        if None in out or False in out:
            return None if None in out else False
        return True if implies(TRUE, or_(*gs)) else None
    if len(cs) != 1:
        return None
    return one(v, cs[0], seq, match, True)


def one(v, c, seq, match, strict):
    if c.op not in ("add", "append") or len(c.loops) != 1:
        return None
    l = c.loops[0]
    if l.term.a[0] is not seq:
        return False if l.term.a[0].op in ("slice",) and seq in set(subterms(l.term)) else None
    if l.rev or l.unordered or l.sort:
        return False
    if strict and any(v.varies(g, l.term) for g, tag in c.guards):
        return False
    if any(tag in ("break", "return") for tag, q in v.e.exits.get(l.uid, ())):
        return False
    m = match(c.val, mk("at", seq, l.term))
    if m is None:
        return None
    return bool(m)


def junction(ctx, rep, tag, unit):
    v = NV(ctx, tag, "build")
    seq = me("conditions")
    units = [t for t in v.pick(v.ret, {seq: []})]
    for t in units:
        if v.is_call(t, "sqlalchemy.true", "sqlalchemy.false"):
            rep.check(v.is_call(t, "sqlalchemy." + unit), "junction", f"empty {tag}", v.name, f"{tag} of nothing compiles to {show(t, 3)}")
        elif v.is_call(t, "sqlalchemy.and_", "sqlalchemy.or_"):
            first = t.a[1][0] if t.a[1] else None
            rep.check(True if first is not None and v.is_call(first, "sqlalchemy." + unit) else False, "junction", f"empty {tag}", v.name, f"{tag} of nothing compiles to {show(t, 3)}, which has no effect")
        else:
            rep.unk("junction", f"empty {tag}", v.name, show(t, 3))
    for t in v.pick(v.ret, {seq: ["x"]}):
        if built(t, mk("item", seq, const(0))) or t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] == "build":
            continue
        if not v.is_call(t, "sqlalchemy.and_", "sqlalchemy.or_"):
            rep.unk("junction", tag, v.name, show(t, 3))
            rep.unk("junction", f"{tag} of all", v.name, show(t, 3))
            continue
        rep.check(v.is_call(t, f"sqlalchemy.{tag}_"), "junction", tag, v.name, f"{tag} compiles to {show(t, 3)}")
        args = [a for a in t.a[1] if not v.is_call(a, "sqlalchemy." + unit)]
        L = v.star(args)
        if L is None:
            rep.unk("junction", f"{tag} of all", v.name, show(t, 3))
            continue
        ok = every(v, L, seq, lambda e, s: built(e, s) and tuple(e.a[1]) == (CONTEXT, TABLE) if e.op == "call" else None)
        rep.check(ok, "junction", f"{tag} of all", v.name, f"not every condition takes part in {tag}")


def rand(ctx, rep):
    v = NV(ctx, "random", "build")
    cls = None
    for g, t in v.alts(v.ret):
        got, lhs = compare(v, t, None, me("threshold"))
        if got == "?":
            scaled = t.op == "sqlop" and any(x.op not in ("obj", "call") and x is not me("threshold") and me("threshold") in set(subterms(x)) for x in t.a[1:3])
            rep.check(False if scaled else None, "random", "threshold", v.name, show(t, 4))
            continue
        rep.check(got in ("<", "<="), "random", "threshold", v.name, f"compiles to {show(t, 4)}")
        if lhs is not None and lhs.op == "obj":
            cls = v.cls(lhs)
        elif lhs is not None and v.is_call(lhs, "sqlalchemy.func.random"):
            rep.bad("random", "sqlite", v.name, "random() is a 64-bit integer on sqlite, not a fraction")
    if cls is None:
        if not any(i["rule"] == "random" and i["instance"] == "sqlite" for i in rep.items):
            rep.unk("random", "sqlite", v.name, "random fraction not found")
        return
    comps = {}
    for k, ds, f in ctx.compilers():
        if k is cls:
            for d in ds or (None,):
                comps[d] = f
    if "sqlite" not in comps:
        rep.bad("random", "sqlite", "plan_model.py", "random() is a 64-bit integer on sqlite, not a fraction")
    for d, f in comps.items():
        r = ctx.run(("compile", cls, d), lambda e: e.call(f, [ctx.sym("element"), ctx.sym("compiler")], [], None))
        w = View(r)
        s = cv(r.ret)
        if isinstance(s, str):
            rng = interval(s)
            if rng is None:
                rep.unk("random", str(d), "plan_model.py", s)
            else:
                rep.check(-0.001 <= rng[0] <= 0.001 and 0.999 <= rng[1] <= 1.001, "random", str(d), "plan_model.py", f"{s} ranges over {rng[0]:.3g} to {rng[1]:.3g}, not 0 to 1")
        else:
            ok = any(w.is_call(t, "sqlalchemy.func.random", "sqlalchemy.func.rand") for t in w.deep(r.ret))
            sums = [t for t in w.deep(r.ret) if t.op in ("bin", "sqlop", "neg") and any(w.is_call(y, "sqlalchemy.func.random", "sqlalchemy.func.rand") for y in subterms(t))]
            for t in sums[:1] if ok else ():
                rng = numbers(w, max(sums, key=lambda y: len(list(subterms(y)))))
                ok = None if rng is None else -0.001 <= rng[0] <= 0.001 and 0.999 <= rng[1] <= 1.001
            rep.check(ok if d != "sqlite" else False, "random", str(d), "plan_model.py", f"random fraction is {show(r.ret, 4)}")


def numbers(w, t):
    """Range of an arithmetic expression over a random fraction."""
    if is_const(t):
        return (cval(t),) * 2 if type(cval(t)) in (int, float) else None
    if w.is_call(t, "sqlalchemy.func.random", "sqlalchemy.func.rand"):
        return (0, 1)
    a = [x for x in t.a if hasattr(x, "op")] if t.op in ("bin", "sqlop") else []
    if len(a) != 2 or not isinstance(t.a[0], str):
        return None
    x, y = numbers(w, a[0]), numbers(w, a[1])
    if x is None or y is None:
        return None
    if t.a[0] == "+":
        return (x[0] + y[0], x[1] + y[1])
    if t.a[0] == "-":
        return (x[0] - y[1], x[1] - y[0])
    if t.a[0] == "*":
        z = [p * q for p in x for q in y]
        return (min(z), max(z))
    if t.a[0] == "/" and y[0] * y[1] > 0:
        z = [p / q for p in x for q in y]
        return (min(z), max(z))
    return None


def interval(s):
    """Range of a constant SQL arithmetic expression over random() on sqlite."""
    try:
        t = ast.parse(s.strip(), mode="eval").body
    except SyntaxError:
        return None

    def go(t):
        if isinstance(t, ast.Constant) and isinstance(t.value, (int, float)):
            return (t.value, t.value)
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name):
            if t.func.id == "random" and not t.args:
                return (-(2.0**63), 2.0**63)
            if t.func.id == "abs" and len(t.args) == 1:
                a, b = go(t.args[0])
                return (0 if a <= 0 <= b else min(abs(a), abs(b)), max(abs(a), abs(b)))
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.USub):
            a, b = go(t.operand)
            return (-b, -a)
        if isinstance(t, ast.BinOp):
            a, b = go(t.left)
            c, d = go(t.right)
            if isinstance(t.op, ast.Add):
                return (a + c, b + d)
            if isinstance(t.op, ast.Sub):
                return (a - d, b - c)
            if isinstance(t.op, ast.Mult):
                x = [a * c, a * d, b * c, b * d]
                return (min(x), max(x))
            if isinstance(t.op, ast.Div) and c * d > 0:
                if isinstance(t.left, ast.Call) and isinstance(t.right, ast.Constant) and isinstance(t.right.value, int):
                    return (float(int(a / c)), float(int(b / d)))  # integer division
                x = [a / c, a / d, b / c, b / d]
                return (min(x), max(x))
        raise ValueError

    try:
        return go(t)
    except (ValueError, OverflowError):
        return None


def text(ctx, rep):
    v = NV(ctx, "sql", "build")
    sqltext(v, v.ret, rep, "text", "condition")


def sqltext(v, ret, rep, rule, inst):
    for g, t in v.alts(ret):
        steps, roots = v.chain(t)
        for r in roots:
            ok = v.is_call(r, "sqlalchemy.text") and r.a[1] and r.a[1][0] is me("sql")
            rep.check(True if ok else None, rule, inst, v.name, show(t, 4))
            bound = [k for k in steps if k[0] == "bindparams"]
            if not bound and me("sql_params") not in {x for a in atoms(g) for x in subterms(a)}:
                rep.bad(rule, inst + " parameters", v.name, "parameters of the statement are not bound")
            elif not bound:
                rep.check(implies(g, v.e.is_(me("sql_params"), NONE)) or implies(g, not_(mk("truth", me("sql_params")))), rule, inst + " parameters", v.name, f"parameters are not bound if {show(g, 4)}")
            elif not any(me("sql_params") in set(subterms(x)) for k in bound for x in list(k[1]) + [y for _, y in k[2]]):
                rep.bad(rule, inst + " parameters", v.name, "other parameters are bound")


# ---------------------------------------------------------------- statements


def select(ctx, rep):
    v = NV(ctx, "select", "build")
    FROM = me("from_")
    # ---- columns
    steps, roots = v.chain(v.ret)
    Ts = {t for t in v.deep(v.ret, ctrl=True) if built(t, FROM)}
    if not Ts:
        rep.bad("columns", "table", v.name, "the table of the statement is not selected from")
        return
    COLS = me("columns")
    has = {"columns": None}
    for r, g in roots.items():
        if not v.is_call(r, "sqlalchemy.select"):
            rep.unk("columns", "columns", v.name, show(r, 4))
            continue
        args = r.a[1]
        if len(args) == 1 and args[0] in Ts:
            # everything: only when no columns are given
            rep.check(not possible(v, g, {COLS: ["x"]}), "columns", "all", v.name, "all columns are selected although some are listed")
            continue
        L = v.star(args)
        if L is None:
            rep.unk("columns", "listed", v.name, show(r, 4))
            continue
        own = L.op == "obj" and [c for c in v.contribs(L) if c.loops and c.loops[0].term.a[0].op == "attr" and c.loops[0].term.a[0].a[1] in ("columns", "c") and c.loops[0].term.a[0].a[0] in Ts]
        if own and not any(x.op == "obj" for c in own for x in subterms(c.val)):
            rep.bad("columns", "listed", v.name, "columns are selected in the order of the table, not as listed")
            continue
        ok = every(v, L, COLS, lambda e, s: column(e) is not None and column(e)[0] in Ts and column(e)[1] is s)
        rep.check(ok, "columns", "listed", v.name, "the selected columns are not those listed, in order")
        rep.check(not possible(v, g, {COLS: None}), "columns", "none listed", v.name, "nothing is selected if no columns are listed")
    joins(v, rep, Ts, steps)
    # ---- where
    W = me("where")
    ws = [(k, g) for k, g in steps.items() if k[0] in ("where", "filter", "having") and any(built(a, W) for a in k[1])]
    if not ws:
        uses = any(built(t, W) for t in v.deep(v.ret))
        rep.check(None if uses else False, "where", "condition", v.name, "the condition of the statement is not applied")
    for k, g in ws:
        ok = k[0] != "having"
        need = v.e.is_(W, NONE)
        if not ok:
            grp = [g2 for k2, g2 in steps.items() if k2[0] == "group_by"]
            rep.check(None if any(implies(g, g2) for g2 in grp) else False, "where", "condition", v.name, "the condition is applied to groups of rows where there are none")
            continue
        miss = and_(not_(need), not_(g))
        rep.check(implies(not_(need), g) or (None if any(W in set(subterms(a)) and a is not need for a in atoms(g)) and not other_atoms(g, W) else False), "where", "condition", v.name, f"the condition is only applied if {show(g, 5)}")
        for a in k[1]:
            if built(a, W) and not (len(a.a[1]) == 2 and a.a[1][0] is CONTEXT and a.a[1][1] in Ts):
                rep.unk("where", "table", v.name, show(a, 4))
    # ---- limit
    LIM = me("limit")
    ls = [(k, g) for k, g in steps.items() if k[0] in ("limit", "fetch")]
    if not ls:
        rep.bad("limit", "amount", v.name, "the number of rows is not limited")
    for k, g in ls:
        need = v.e.is_(LIM, NONE)
        if not (k[1] and k[1][0] is LIM):
            rep.check(None if k[1] and LIM in set(subterms(k[1][0])) and k[1][0].op in ("call",) else False, "limit", "amount", v.name, f"limited to {show(k[1][0], 4) if k[1] else '?'} rows")
            continue
        z = possible(v, not_(g), {LIM: 0})
        rep.check(not z, "limit", "zero", v.name, "a limit of zero rows selects all rows")
        rep.check(True if implies(not_(need), g) else (False if other_atoms(g, LIM) else True), "limit", "amount", v.name, f"the limit is only applied if {show(g, 5)}")
        rs = [(k2, g2) for k2, g2 in steps.items() if k2[0] == "order_by"]
        rnd = lambda a: any(v.is_call(t, "sqlalchemy.func.random", "sqlalchemy.func.rand") or t.op == "obj" and v.cname(t) and "andom" in v.cname(t) for t in v.deep(a))
        good = [(k2, g2) for k2, g2 in rs if k2[1] and rnd(k2[1][0])]
        if not good:
            rep.check(False if not rs or all(k2[1] and not rnd(k2[1][0]) for k2, _ in rs) else None, "limit", "choice", v.name, "the rows of a limited statement are not chosen at random")
        else:
            first = [t for t in v.deep(v.ret, ctrl=True) if v.is_call(t, ".order_by") and t.a[1] and rnd(t.a[1][0]) and any(v.is_call(q, ".order_by") and q.a[1] and q.a[1][0] is not NONE and not rnd(q.a[1][0]) for q in subterms(t.a[0].a[0]))]
            if first:
                rep.bad("limit", "choice", v.name, "the rows of a limited statement are the first of an order, chosen at random only among equals")
                continue
            rep.check(any(implies(g, g2) for _, g2 in good), "limit", "choice", v.name, "the rows of a limited statement are not always chosen at random")


def joins(v, rep, Ts, steps):
    J, OUT = me("joins"), me("joins_outer")
    jt = mk("truth", J)
    out = mk("truth", OUT)
    jc, ec = [], []  # joins made, tests for existence
    muT = None
    # joined tables
    for t in v.deep(v.ret, ctrl=True):
        if t.op == "mu" and t.a[0].a[0] is J:
            b = v.e.backs.get(t)
            if b is None:
                continue
            for g, a in v.alts(b):
                if v.is_call(a, "sqlalchemy.join", "sqlalchemy.outerjoin") and a.a[1] and a.a[1][0] is t:
                    # the function is the method of its first argument
                    a = mk("call", mk("attr", t, a.a[0].a[0].split(".")[-1]), a.a[1][1:], *a.a[2:])
                if a.op == "call" and a.a[0].op == "attr" and a.a[0].a[1] in ("join", "outerjoin") and a.a[0].a[0] is t:
                    jc.append((g, a, t))
    for t in {x for x in v.deep(v.ret, ctrl=True)}:
        if v.is_call(t, ".where", ".filter") and any(v.is_call(r, "sqlalchemy.exists") for r in v.chain(t)[1]):
            ec.append(t)
        elif v.is_call(t, "sqlalchemy.exists") and t.a[1]:
            ec.append(t)
    if not jc and not ec:
        used = J in v.deep(v.ret, ctrl=True)
        rep.check(None if used else False, "join", "pairs", v.name, "joins of the statement are ignored")
        for r in ("join", "join", "join", "distinct", "distinct"):
            rep.unk(r, "joins", v.name, "no joins recognised")
        return
    E = set()  # lists of existence tests
    for o, ob in v.e.objs.items():
        if any(c.val is not None and c.val in ec for c in ob.contribs):
            E.add(o)
    # and those they become part of
    more = True
    while more and E:
        more = {o for o, ob in v.e.objs.items() if o not in E and any(c.op == "extend" and c.val in E for c in ob.contribs)}
        E |= more
    # -- pairing
    for g, a, t in jc:
        right = a.a[1][0] if a.a[1] else v.kw(a, "right")
        on = v.kw(a, "onclause", 1)
        conds = on.a[1] if on is not None and v.is_call(on, "sqlalchemy.and_") else (on,) if on is not None else ()
        if on is None:
            rep.bad("join", "pairs", v.name, "the columns of a join are left to the database")
            continue
        if v.is_call(on, "sqlalchemy.or_"):
            rep.bad("join", "join", v.name, "only one pair of columns has to match")
            continue
        pairing(v, rep, "join", conds, Ts, right, t.a[0])
        io = v.kw(a, "isouter", 2)
        if a.a[0].a[1] == "outerjoin":
            rep.check(implies(g, out), "join", "kind", v.name, "inner joins are made as outer joins")
        elif io is None:
            rep.check(implies(g, not_(out)), "join", "kind", v.name, "outer joins are made as inner joins")
        elif io is OUT or io is out:
            rep.ok("join", "kind", v.name)
        elif cv(io) in (True, False) or io in (TRUE, FALSE):
            rep.bad("join", "kind", v.name, f"isouter is always {show(io, 2)}")
        else:
            rep.check(False if io is not_(out) else None, "join", "kind", v.name, show(io, 4))
    for t in ec:
        conds = t.a[1]
        if v.is_call(t, "sqlalchemy.exists"):
            rep.unk("join", "exists", v.name, show(t, 4))
            continue
        if len(conds) == 1 and v.is_call(conds[0], "sqlalchemy.and_"):
            conds = conds[0].a[1]
        lts = [c.loops[0].term for o in E for c in v.contribs(o) if c.val is t and c.loops]
        if not lts:
            rep.unk("join", "exists", v.name, show(t, 4))
            continue
        pairing(v, rep, "exists", conds, Ts, None, lts[0])
    # -- every join is either made or tested
    gs = [g for g, _, _ in jc]
    for o in E:
        for c in v.contribs(o):
            if c.val in ec and c.loops:
                gs.append(and_(*[g for g, tag in c.guards if v.varies(g, c.loops[0].term) or any(x in Ts for a in atoms(g) for x in subterms(a))]))
    direct = {}
    for k, g in steps.items():
        if k[0] in ("where", "filter") and len(k[1]) == 1:
            for g2, a in v.alts(k[1][0]):
                if a in ec:
                    ls = [x for x in subterms(a) if x.op == "loop" and x.a[0] is J]
                    cs = conj(and_(g, g2))
                    direct[a] = and_(*[x for x in cs if not any(v.varies(x, l) for l in ls)])
                    gs.append(and_(*[x for x in cs if any(v.varies(x, l) for l in ls)]))
    rep.check(True if implies(TRUE, or_(*gs)) else None if not gs else False, "join", "all", v.name, f"joins only take part if {show(or_(*gs), 5)}")
    # -- combination
    combine(v, rep, jc, E, ec, steps, out, jt, direct)
    # -- duplicates
    for g, a, t in jc:
        pk = [x for x in subterms(g) if x.op == "truth" and x.a[0].op == "attr" and x.a[0].a[1] == "primary_key" and x.a[0].a[0] in Ts]
        grp = [(k, c) for k, c in steps.items() if k[0] == "group_by"]
        dis = [(k, c) for k, c in steps.items() if k[0] == "distinct" and not k[1]]
        fin = mk("fin", t)
        gb = [(k, c) for k, c in grp if any(x.op == "attr" and x.a[1] in ("columns", "c", "primary_key") and any(y.op == "attr" and y.a[1] == "primary_key" and y.a[0] in Ts for y in subterms(x)) for z in k[1] for x in subterms(z))]
        part = [k[1][0] for k, c in gb if len(k[1]) == 1 and (k[1][0].op == "item" and not any(x.op == "loop" for x in subterms(k[1][0])) or k[1][0].op == "star" and k[1][0].a[0].op == "slice")]
        if part:
            rep.bad("distinct", "grouping", v.name, f"rows are grouped by {show(part[0], 4)}, not by the whole key")
            continue
        if not gb and not dis:
            rep.bad("distinct", "grouping", v.name, "rows matched by more than one joined row are repeated" if not grp else f"grouped by {show(grp[0][0][1][0], 4)}")
            continue
        done = or_(*[c for _, c in gb + dis])
        # what is known when a join was made
        facts = {}
        for a2 in atoms(done):
            if a2.op == "is" and fin in a2.a and any(x in Ts for x in a2.a):
                facts[a2] = False
        red = fixed(done, facts) if facts else done
        more = [a2 for a2 in atoms(red) if a2.op == "lt" and a2.a[0].op == "const" and isinstance(cval(a2.a[0]), int) and cval(a2.a[0]) >= 1 and (a2.a[1].op == "len" or v.is_call(a2.a[1], "builtins.len")) and fixed(red, {a2: False}) is FALSE]
        if more:
            rep.bad("distinct", "grouping", v.name, f"repeated rows are only removed if {show(more[0], 5)}")
            continue
        some = [a2 for a2 in atoms(done) if a2.op == "exists" and a2.a[0].a[0] is J]
        known = and_(jt, *some)
        rep.check(True if implies(known, red) else False if possible(v, and_(known, not_(red)), {J: ["x"]}) and reduce_(Table(v, {J: ["x"]}), red) in (FALSE, TRUE) or all(a2 is out or a2 in (jt,) or a2.op in ("truth", "is") for a2 in atoms(red)) else None, "distinct", "grouping", v.name, f"repeated rows are only removed if {show(done, 5)}")
        if dis and not gb:
            rep.ok("distinct", "key", v.name)
        else:
            rep.check(any(implies(g, p) for p in pk), "distinct", "key", v.name, "tables without a primary key are joined, with nothing to group by")


def pairing(v, rep, inst, conds, Ts, right, jl):
    """Conditions are left == right for each pair of columns of the join."""
    J = me("joins")
    j = mk("at", J, jl)
    lc, rc = mk("attr", j, "left_columns"), mk("attr", j, "right_columns")
    L = v.star(conds)
    if L is None or L.op != "obj":
        rep.unk("join", inst, v.name, "conditions not recognised")
        return
    cs = v.contribs(L)
    if len(cs) != 1 or cs[0].op != "add" or len(cs[0].loops) < 1:
        rep.unk("join", inst, v.name, "conditions not recognised")
        return
    c = cs[0]
    l = c.loops[-1]
    if any(v.varies(g, l.term) for g, _ in c.guards):
        rep.bad("join", inst, v.name, "not every pair of columns is compared")
        return
    e = c.val
    if e.op != "sqlop":
        rep.unk("join", inst, v.name, show(e, 4))
        return
    if e.a[0] != "==":
        rep.bad("join", inst, v.name, f"columns are compared with {e.a[0]}")
        return
    sides = {}
    for x in e.a[1:3]:
        q = column(x)
        if q is None:
            rep.unk("join", inst, v.name, show(x, 4))
            return
        sides["left" if q[0] in Ts else "right"] = q
    if set(sides) != {"left", "right"}:
        rep.bad("join", inst, v.name, "columns of one table are compared with each other")
        return
    R = sides["right"][0]
    target = mk("attr", j, "right")
    base, aliased = R, False
    while base.op == "alias" or base.op == "call" and base.a[0].op == "attr" and base.a[0].a[1] in ("alias", "subquery"):
        aliased = True
        base = base.a[0] if base.op == "alias" else base.a[0].a[0]
    if not built(base, target):
        rep.check(None if base.op in ("fin", "mu", "phi") else False, "join", inst, v.name, f"joined with {show(R, 4)}")
        return
    if right is not None and right is not R:
        rep.bad("join", inst, v.name, "the columns compared are not those of the joined table")
        return
    if not aliased:
        rep.bad("join", inst, v.name, "a table joined twice has no names of its own")
        return

    def src(k):
        if k.op == "at" and k.a[0].op == "slice" and k.a[0].a[0] in (lc, rc):
            return "part"
        if k.op == "at" and k.a[0] in (lc, rc) and k.a[1] is l.term:
            return "left" if k.a[0] is lc else "right"
        if k.op == "item" and k.a[0] in (lc, rc):
            return ("left" if k.a[0] is lc else "right") if any(x is l.term for x in subterms(k.a[1])) else None
        return None

    a, b = src(sides["left"][1]), src(sides["right"][1])
    if a is None or b is None:
        rep.check(None, "join", inst, v.name, show(e, 5))
        return
    if "part" in (a, b):
        rep.bad("join", inst, v.name, "not every pair of columns is compared")
        return
    rep.check(a == "left" and b == "right", "join", inst, v.name, "the columns of a join are swapped")


def replaced(v, q):
    """A variable of the loop over joins which some turn sets to what is new in that turn."""
    if q.op != "fin" or q.a[0] not in v.e.backs or q.a[0].a[0].a[0] is not me("joins"):
        return False
    return any(a is not q.a[0] and a.op == "obj" and q.a[0] not in v.deep(a) for _, a in v.alts(v.e.backs[q.a[0]]))


def combine(v, rep, jc, E, ec, steps, out, jt, direct):
    ws = {}
    together = []  # lists that are combined in one test
    for k, g in steps.items():
        if k[0] in ("where", "filter", "having") and len(k[1]) == 1:
            for g2, a in v.alts(k[1][0]):
                if v.is_call(a, "sqlalchemy.or_", "sqlalchemy.and_"):
                    name = a.a[0].a[0].split(".")[-1]
                    key = (name, v.star(a.a[1]))
                    if len(a.a[1]) > 1 and all(x.op == "star" for x in a.a[1]):
                        together.append({x.a[0] for x in a.a[1]})
                        for x in a.a[1][1:]:
                            ws[(name, x.a[0])] = or_(ws.get((name, x.a[0]), FALSE), and_(g, g2))
                        key = (name, a.a[1][0].a[0])
                elif a.op == "star":
                    key = ("and_", a.a[0])
                elif a.op == "at" and a.a[1].op == "loop" and a.a[1].a[0] is a.a[0]:
                    key = ("and_", a.a[0])
                else:
                    continue
                ws[key] = or_(ws.get(key, FALSE), and_(g, g2))
    mine = {k: g for k, g in ws.items() if k[1] in E}
    for a, g in direct.items():
        mine[("and_", a)] = g
    ors = [g for k, g in mine.items() if k[0] == "or_"]
    ands = [g for k, g in mine.items() if k[0] == "and_"]
    if not E and not direct:
        rep.unk("join", "combination", v.name, "")
        return
    if not mine:
        rep.bad("join", "combination", v.name, "tests for existence are not applied")
        return
    some = {a for g in ors + ands for a in atoms(g) if a.op == "exists" or a.op == "truth" and a.a[0] in E or a.op in ("lt", "eq") and any(x in E for x in subterms(a))}
    one_outer = and_(jt, out, *some)
    one_inner = and_(jt, not_(out), *some)
    o_ok = implies(one_outer, or_(*ors)) if ors else False
    rep.check(o_ok and not any(implies(one_outer, g) for g in ands), "join", "outer combination", v.name, "the parts of an outer join are not alternatives" if ands and not o_ok else "alternatives of an outer join are not applied")
    a_ok = implies(one_inner, or_(*ands)) if ands else False
    rep.check(a_ok and not any(implies(one_inner, g) for g in ors), "join", "inner combination", v.name, "not every join of the statement has to match")
    # a made outer join counts only where it matched
    nn = []
    parts = list(E) + [o for l in together if l & E for o in l - E if o.op == "obj"]
    for o in parts:
        parts += [c.val for c in v.contribs(o) if c.op == "extend" and c.val is not None and c.val.op == "obj" and c.val not in parts]
    for o in parts:
        for c in v.contribs(o):
            if c.val is not None and v.is_call(c.val, ".is_not", ".isnot") and c.val.a[1] and c.val.a[1][0] is NONE:
                nn.append(c)
            elif c.val is not None and c.op == "add" and not c.loops and v.is_call(c.val, "sqlalchemy.and_") and every_match(v, c.val):
                rep.bad("join", "matched", v.name, "a row counts only when all outer joins matched")
            elif c.val is not None and c.op == "add" and not c.loops and v.is_call(c.val, "sqlalchemy.or_") and every_match(v, c.val):
                rep.unk("join", "matched", v.name, "matches are tested together")
            elif c.val is not None and c.val.op == "sqlop" and c.val.a[0] == "!=" and NONE in c.val.a:
                nn.append(c)
            elif c.val is not None and v.is_call(c.val, ".is_"):
                rep.bad("join", "matched", v.name, "rows without a match are selected by an outer join")
    if jc:
        if not nn:
            rep.check(False if not any(v.is_call(c.val, "sqlalchemy.and_", "sqlalchemy.or_") for o in parts for c in v.contribs(o) if c.val is not None) else None, "join", "matched", v.name, "an outer join does not test for a match")
        for c in nn:
            seqs = [l.term.a[0] for l in c.loops]
            if any(q.op == "slice" and any(cv(b) is not None for b in q.a[1:]) for q in seqs):
                rep.bad("join", "matched", v.name, "a match is tested for only some of the joins")
                continue
            if any(replaced(v, q) for q in seqs):
                rep.bad("join", "matched", v.name, "a match is tested for only one of the joins")
                continue
            x = c.val.a[0].a[0] if c.val.op == "call" else c.val.a[1]
            q = column(x)
            ok = None
            if q is not None:
                rights = [a.a[1][0] for _, a, _ in jc if a.a[1]]
                ok = True if q[0] in rights else None if q[0].op in ("phi", "mu", "fin") else False
            rep.check(ok, "join", "matched", v.name, f"a match is tested on {show(x, 4)}")


def every_match(v, t):
    """t combines a test for a match of each of the joins."""
    q = v.star(t.a[1])
    return q is not None and q.op == "obj" and any(c.loops and c.val is not None and v.is_call(c.val, ".is_not", ".isnot") and c.val.a[1] and c.val.a[1][0] is NONE for c in v.contribs(q))


def union(ctx, rep):
    v = NV(ctx, "union", "build")
    S = me("statements")
    for g, t in v.alts(v.ret):
        if v.is_call(t, "sqlalchemy.union"):
            rep.ok("union", "kind", v.name)
            L = v.star(t.a[1])
            if L is None:
                rep.unk("union", "all", v.name, show(t, 4))
                continue

            def match(e, s):
                for g2, x in v.alts(e):
                    if built(x, s):
                        if possible(v, g2, {mk("attr", s, "limit"): 5}):
                            lim.append(s)
                        continue
                    if any(built(y, s) for y in subterms(x)):
                        continue
                    if any(y is mk("attr", s, "from_") for y in v.deep(x)) and not any(y is s or y is mk("attr", s, "where") for y in v.deep(x, stop=lambda y: y.op == "attr" and y.a[0] is s)):
                        return False  # the table of the statement without its conditions
                    return False if not any(y.op == "call" and y.a[0].op == "attr" and y.a[0].a[1] == "build" for y in subterms(x)) else None
                return True

            lim = []
            rep.check(every(v, L, S, match), "union", "all", v.name, "not every statement is part of the union")
            rep.check(not lim, "union", "limited", v.name, "a limited statement is used directly in a union, which sqlite cannot do")
        elif v.is_call(t, "sqlalchemy.union_all"):
            rep.bad("union", "kind", v.name, "rows selected by several statements are repeated")
        elif v.is_call(t, "sqlalchemy.intersect", "sqlalchemy.except_", "sqlalchemy.intersect_all"):
            rep.bad("union", "kind", v.name, f"compiles to {show(t, 3)}")
        elif t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("union", "union_all"):
            rep.check(None if t.a[0].a[1] == "union" else False, "union", "kind", v.name, "rows selected by several statements are repeated")
        else:
            rep.unk("union", "kind", v.name, show(t, 4))
    # the query of a table
    q = NV(ctx, None, "build", cls=query_class(ctx))
    for t in q.pick(q.ret, {me("sql"): None, me("statement"): Opq("statement")}):
        rep.check(built(t, me("statement")) or (None if any(built(x, me("statement")) for x in q.deep(t)) else False), "query", "statement", q.name, show(t, 4))
    sqls = [t for t in q.pick(q.ret, {me("sql"): "x"})]
    for t in sqls:
        roots = q.chain(t)[1]
        rep.check(all(q.is_call(r, "sqlalchemy.text") and r.a[1][0] is me("sql") for r in roots) or None, "query", "sql", q.name, show(t, 4))
    ret = [t for t in sqls if not any(k[0] == "bindparams" for k in q.chain(t)[0])]
    if sqls and len(ret) == len(sqls):
        rep.bad("query", "parameters", q.name, "parameters of the statement are not bound")


def query_class(ctx):
    from ..interp import AnalysisBroken

    e = ctx.e
    c = ctx.name("plan_model", "SubsetPlan")
    f = e.classes[c].fields.get("queries")
    ty = e.ann(f[0], e.classes[c].frame) if f else None
    for x in _flat(ty):
        if x is not None and isinstance(x, tuple) and x and x[0] == "cls":
            return x[1]
    raise AnalysisBroken("class of queries not found")


def _flat(ty):
    if isinstance(ty, tuple):
        yield ty
        for x in ty:
            yield from _flat(x)
