"""What a target selects.

`target`: for every combination of options, the conditions and the limit of a
target's own selection are exactly those its options call for.  `value`: each
condition carries the value of the option it stands for.  `own`: options and
constraints are those given for the table itself.  `constraint`: table
constraints restrict a table that is reached through keys as well.  `refuse`:
they are refused for a table that planned tables refer to.  `union`: rows that
planned tables refer to are selected besides the target's own.
"""

from ._pl import *  # noqa
from .c17 import own_ident, label

FLOORS = {"target": 6, "value": 5, "own": 1, "constraint": 1, "refuse": 2, "union": 1}
KINDS = {"SQLWhereClauseRandom": "percent", "SQLWhereClauseSQL": "sql", "SQLWhereClauseIn": "in"}


def check(ctx, rep):
    p = PL(ctx)
    if p.main is None:
        return fill(rep, FLOORS, "planner.py")
    found = {}
    rows = {}
    for facts, target in scenarios(options=True):
        key = label(facts, None)
        rows.setdefault((key, bool(target and target["all_"])), []).append((facts, target))
    for (key, all_), cases in sorted(rows.items()):
        facts = cases[0][0]
        inst = key + (", all" if all_ else "")
        if facts["C"] and facts["R"]:
            refuse(p, rep, inst, cases)
            continue
        worst, msg = True, ""
        link = True
        for facts, target in cases:
            r, m = case(p, facts, target, found)
            if r is not True and worst is not False:
                worst, msg = r, m
            if facts["T"] and facts["R"] and not all_ and link is not False:
                sts = p.statements(p.main.val, facts, target)
                kinds = None if sts is None else [joined(p, s, facts, target) for s in sts]
                both = None if kinds is None or None in kinds else True in kinds and False in kinds
                link = link and both if both is not None else None
        rep.check(worst, "target" if facts["T"] else "constraint", inst, "planner.py", msg)
        if facts["T"] and facts["R"] and not all_:
            rep.check(link, "union", inst, "planner.py", "rows that planned tables refer to are not selected besides the target's own")
    for kind, cs in sorted(found.items()):
        values(p, rep, kind, cs)
    own(p, rep, found)
    fill(rep, FLOORS, "planner.py")


def joined(p, s, facts, target):
    j = p.field(s, "joins")
    js = [] if j is None else p.listing(j, facts, target)
    return None if js is None else bool(js)


def kind(p, t):
    n = p.cname(t) if t.op == "obj" else None
    if n in KINDS:
        return KINDS[n]
    if n == "SQLWhereClauseOperator":
        d = {x for f in ("operator", "column", "value") for x in (p.deep(p.field(t, f)) if p.field(t, f) is not None else ())}
        if any(is_attr(x, "config", "table_constraints") for x in d):
            return "constraint"
        if any(x.op == "attr" and x.a[1] == "like" and x.a[0] in p.targets([x]) for x in d):
            return "like"
        if any(x.op == "attr" and x.a[1] == "in_" and x.a[0] in p.targets([x]) for x in d):
            return "in"
    return None


def case(p, facts, target, found):
    """(True, False or None, message) for one combination."""
    sts = p.statements(p.main.val, facts, target)
    tell = "" if not target else " with " + ", ".join(f"{k.rstrip('_')} {v}" if isinstance(v, (int, float, str)) else k.rstrip("_") for k, v in target.items() if v is not None and v is not False and v != {})
    if sts is None:
        why = dropped(p) or p.leftout()
        return (False, why) if why else (None, "statements not decided")
    mine = [s for s in sts if joined(p, s, facts, target) is False]
    if facts["T"]:
        if len(mine) != 1:
            return (False, "the target has no selection of its own") if not mine else (None, f"{len(mine)} selections")
        want = ({"like", "in"} | ({"percent"} if target["percent"] is not None else set()) | ({"sql"} if target["sql"] is not None else set())) if not target["all_"] else set()
        if facts["C"]:
            want.add("constraint")
        checks = [(mine[0], want, None if target["all_"] else target["amount"])]
    else:
        checks = []
    for s in sts:
        if s in mine and facts["T"]:
            continue
        if not facts["R"]:
            checks.append((s, {"constraint"} if facts["C"] else set(), None))
    for s, want, limit in checks:
        cs = p.conditions(p.field(s, "where"), facts, target)
        if cs is None:
            why = dropped(p) or p.leftout()
            return (False, why) if why else (None, "conditions not decided")
        got = set()
        for t, c in cs:
            k = kind(p, t)
            if k is None:
                n = p.cname(t) if t.op == "obj" else None
                alt = n in ("SQLWhereClauseOr",) and any(p.cname(y) in KINDS or p.cname(y) == "SQLWhereClauseOperator" for y in p.deep(t) if y.op == "obj")
                return (False, f"conditions are alternatives{tell}") if alt else (None, f"condition {n}")
            found.setdefault(k, {})[t] = c
            got.add(k)
        spare = {"like", "in"} if target and not target["like"] else set()
        if got - spare != want - spare:
            miss, more = sorted(want - got - spare), sorted(got - want - spare)
            return False, (f"not restricted by {miss[0]}" if miss else f"restricted by {more[0]}") + tell
        l = p.field(s, "limit")
        try:
            n = None if l is None else p.value(l, facts, target)
        except Undecided:
            return None, "limit not decided"
        if n != limit or (n is None) != (limit is None):
            return False, f"limited to {n} rows{tell}"
        if own_ident(p, p.field(s, "from_")) is False:
            return False, "rows are taken from another table or a sample"
    return True, ""


def dropped(p):
    """A condition that leaves out some of the values of an option."""
    for o, ob in p.e.objs.items():
        for c in ob.contribs:
            if c.val is None or c.val.op != "obj" or not (p.cname(c.val) or "").startswith("SQLWhereClause"):
                continue
            for g, tag in c.guards:
                if tag not in SKIP:
                    continue
                for a in atoms(g):
                    if p.classify(a) is not None:
                        continue
                    for l in c.loops:
                        s = l.term.a[0]
                        if l.term is p.loop or not p.varies(a, l.term):
                            continue
                        if any(is_attr(t, "config", "targets") or is_attr(t, "config", "table_constraints") for t in p.deep(s)):
                            # an inner list that is empty has nothing to offer anyway
                            inner = [m for m in c.loops if m is not l and a.op == "truth" and a.a[0] is m.term.a[0]]
                            el = [x for x in subterms(a, stop=lambda x: x is p.elem) if x.op == "obj" and x not in p.dicts]
                            if not inner and not el:
                                return f"a condition is left out depending on {show(a, 5)}"
    return None


def refuse(p, rep, inst, cases):
    ok = True
    for facts, target in cases:
        r = False
        for x in p.fx:
            if x.kind == "raise" and any(l.term is p.loop for l in x.loops):
                h = p.holds(x, facts, target, tags=SKIP)
                # only what is raised because of the constraints counts
                about = any((p.classify(a) or ("",))[0] in ("C", "R") for g, _ in x.guards for a in atoms(g))
                if h and about and not any(l.term is not p.loop for l in x.loops):
                    r = True
                elif h is None and about and r is False:
                    r = None
        if r is not True and ok is not False:
            ok = r
    rep.check(ok, "refuse", inst, "planner.py", "constraints are accepted although planned tables refer to the table")


def values(p, rep, kind_, cs):
    for t, c in cs.items():
        ok, msg = value(p, kind_, t, c)
        rep.check(ok, "value", kind_, "planner.py", msg)


def value(p, k, t, c):
    F = lambda n: p.field(t, n)
    plain = lambda x: x is None or x is NONE or x.op == "const" and not cval(x)
    if k == "percent":
        th = F("threshold")
        try:
            for v in (0.0, 5.0, 62.5, 100.0):
                got = p.value(th, {"T": True}, {"percent": v})
                if not isinstance(got, (int, float)) or abs(got - v / 100) > 1e-9:
                    return False, f"{v} percent become a share of {got}"
        except Undecided:
            return None, "share not decided"
        return True, ""
    if k == "sql":
        s = F("sql")
        if s is None or not (s.op == "attr" and s.a[1] == "sql"):
            return None, f"text is {show(s, 4) if s is not None else s}"
        return (True, "") if plain(F("sql_params")) else (None, "parameters")
    if k == "like":
        d = like_loop(p, F("column"))
        if F("operator") is None or cv(F("operator")) != "like":
            return (False if F("operator") is not None and F("operator").op == "const" else None), f"operator is {show(F('operator'), 3)}"
        if d is None:
            return None, "column not recognised"
        v = F("value")
        inner = mk("item", d.a[0], d)
        if v.op == "at" and v.a[0] is inner:
            return True, ""
        if v.op in ("item", "slice") and v.a[0] is inner or v.op == "fstr" or v.op == "at" and v.a[0].op == "slice":
            return False, f"pattern is {show(v, 5)}"
        return None, f"pattern is {show(v, 5)}"
    if k == "in":
        if p.cname(t) == "SQLWhereClauseOperator":
            return None, "as an operator"
        neg = F("negated")
        if not plain(neg):
            return False, f"negated when {show(neg, 4)}"
        cols, vals = p.elems(F("columns")), F("values")
        if not cols or len(cols) != 1:
            return None, "columns not recognised"
        d = like_loop(p, cols[0])
        if d is None:
            return None, "column not recognised"
        inner = mk("item", d.a[0], d)
        if vals.op != "obj" or len(p.contribs(vals)) != 1:
            return None, "values not recognised"
        k2 = p.contribs(vals)[0]
        if k2.op != "add" or not k2.loops:
            return None, "values not recognised"
        l = k2.loops[-1].term
        if l.a[0].op == "slice" and l.a[0].a[0] is inner:
            return False, "some values are left out"
        if l.a[0] is not inner:
            return None, "values not recognised"
        if any(p.varies(g, l) for g, tag in k2.guards if tag in SKIP):
            return False, "some values are left out"
        e = p.elems(k2.val)
        if e and len(e) == 1 and e[0] is mk("at", inner, l):
            return True, ""
        return None, f"values are {show(k2.val, 4)}"
    if k == "constraint":
        el = {x for f in ("operator", "column", "value") for x in subterms(F(f)) if x.op == "at"}
        el = {x for x in el if any(is_attr(y, "config", "table_constraints") for y in subterms(x.a[0]))}
        if len(el) != 1:
            return None, "constraint not recognised"
        el = el.pop()
        for f in ("operator", "column", "value"):
            if F(f) is not mk("attr", el, f):
                alone = F(f) is not None and F(f).op == "call" and is_ext(F(f).a[0], "builtins.str", "builtins.int", "builtins.float", "builtins.bool", "builtins.repr")
                return (False if F(f) is None or F(f).op in ("const", "attr", "fstr") or alone else None), f"{f} is {show(F(f), 4)}"
        return True, ""
    return None, ""


def like_loop(p, t):
    """key(dict, loop) of a name of an option."""
    return t if t is not None and t.op == "key" else None


def own(p, rep, found):
    bad, unk = None, None
    terms = [g for o, ob in p.e.objs.items() for c in ob.contribs if any(l.term is p.loop for l in c.loops) for g, _ in c.guards]
    for t in {y for x in terms for y in subterms(x)} | {y for cs in found.values() for t in cs for y in p.deep(t)}:
        if t.op == "item" and (is_attr(t.a[0], "config", "targets") or is_attr(t.a[0], "config", "table_constraints")):
            r = p.is_self(t.a[1])
            if r is False and p.loop not in set(subterms(t.a[1])):
                # options of another loop, such as the check of all targets
                continue
            if r is False:
                bad = t
            elif r is None:
                unk = t
    rep.check(False if bad is not None else None if unk is not None else True, "own", "options", "planner.py", f"options are read from {show(bad if bad is not None else unk, 5) if bad is not None or unk is not None else ''}")
