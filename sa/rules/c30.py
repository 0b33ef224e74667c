"""Passthrough tables, ignored tables, ignored, added keys and unselected targets.

`whole`: a passthrough table's entry selects all of it.  `entry`: every
passthrough table that exists has one, and is listed as passthrough.  `graph`:
neither passthrough nor ignored tables are ordered.  `refuse`: a key from a
passthrough table to any other, or from a selected to an ignored table, is an
error; so is a target that is not selected.  `drop`: all ignored keys between
two tables go and no others.  `add`: a configured key is used exactly if its
tables and columns exist.  `sequence`: keys change before they are used.
Conditions are compared with what is expected for every valuation of their
atoms.
"""

import itertools

from ._pl import *  # noqa
from .c17 import own_ident, sequences, changes

FLOORS = {"whole": 1, "entry": 2, "graph": 2, "refuse": 3, "drop": 1, "add": 2, "sequence": 4}


def check(ctx, rep):
    p = PL(ctx)
    if p.plan is None or p.order is None:
        return fill(rep, FLOORS, "planner.py")
    entries(p, rep)
    graph(p, rep)
    refuse_passthrough(p, rep)
    refuse_ignored(p, rep)
    refuse_target(p, rep)
    drop(p, rep)
    add(p, rep)
    sequences(p, rep)
    last = changes(p)
    for x in refused(p, ("P", "I")):
        late = [y for y in last if y.seq > x.seq]
        rep.check(not late if last else None, "sequence", "refuse", x, "keys change after they were checked")
    ignored = [x for x in last if about(p, x, "ignore_fks")]
    added = [x for x in last if about(p, x, "extra_fks")]
    if ignored and added:
        late = [x for x in ignored if x.seq > min(y.seq for y in added)]
        rep.check(not late, "sequence", "added", late[0] if late else added[0], "added keys can be dropped as ignored")
    fill(rep, FLOORS, "planner.py")


# ---------------------------------------------------------------- conditions


def kind(p, s):
    """Which set of tables a container is: P(assthrough), I(gnored), D (selected), G(raph), or M(issing): not selected."""
    if is_attr(s, "config", "passthrough"):
        return "P"
    if is_attr(s, "config", "ignore"):
        return "I"
    if s in p.dicts:
        return "D"
    if p.order is not None and p.order.args and s is p.order.args[0]:
        return "G"
    if s.op == "call" and is_ext(s.a[0], "builtins.set", "builtins.list", "builtins.frozenset", "builtins.sorted") and s.a[1]:
        return kind(p, s.a[1][0])
    if s.op == "obj" and p.e.objs[s].kind in ("set", "list", "dict"):
        cs = p.contribs(s)
        if cs and all(c.op == "add" and any(g.op == "not" and g.a[0].op == "in" and g.a[0].a[0] is c.val and g.a[0].a[1] in p.dicts for g, _ in c.guards) for c in cs):
            return "M"
        ks = set()
        for c in p.contribs(s):
            if c.op in ("add", "extend", "set") and not (c.op == "extend" and c.val is None):
                v = c.key if c.op == "set" else c.val
                d = p.deep(v)
                ks |= {n for n, w in (("P", "passthrough"), ("I", "ignore")) if any(is_attr(t, "config", w) for t in d)} or {None}
        if len(ks) == 1:
            return ks.pop()
    return None


def who(p, key, x):
    """'own' or 'dst': which table a name is, seen from inside the loops of x."""
    for l in x:
        q = l.term.a[0] if not isinstance(l, T) else l.a[0]
        t = l.term if not isinstance(l, T) else l
        if q.op == "attr" and q.a[1] == "foreign_keys":
            k = mk("at", q, t)
            s, n = mk("attr", k, "dst_schema"), mk("attr", k, "dst_table")
            if key is mk("tuple", s, n) or key.op == "fstr" and list(key.a) == [s, ".", n]:
                return "dst"
        else:
            r = tablename(p, key, q, t)
            if r:
                return "own"
    return None


def tablename(p, key, q, t):
    """key is the name of the table the loop over tables or names is at."""
    while q.op == "call" and q.a[0].op == "attr" and q.a[0].a[1] in ("values", "items", "keys"):
        q = q.a[0].a[0]
    k = mk("key", q, t)
    if q in p.dicts:
        if key is k:
            return True
        if key.op == "tuple" and len(key.a) == 2:
            a, b = key.a
            tab = mk("item", q, k)
            if (a, b) == (mk("attr", tab, "schema"), mk("attr", tab, "name")):
                return True
            if a.op == "item" and b.op == "item" and a.a[0] is k and b.a[0] is k:
                return (cv(a.a[1]), cv(b.a[1])) == (0, 1)
        if key.op == "fstr" and len(key.a) == 3 and key.a[1] == ".":
            return tablename(p, mk("tuple", key.a[0], key.a[2]), q, t)
        return False
    el = mk("at", q, t)
    if is_attr(q, "config", "targets"):
        el = k
    return bool(p.same(key, el))


def plain(p, a, loops=()):
    """Nothing is hidden in this condition: it is about fields and settings only."""
    return not any(x.op in ("obj", "mu", "fin") and x not in p.dicts and not (x.op == "obj" and kind(p, x)) for x in subterms(a))


def selection(p, key, s, x):
    """Membership of key in a set made of the elements of another one that meet a condition, else None."""
    o = p.e.objs[s]
    cs = p.contribs(s)
    if o.kind not in ("set", "list") or len(cs) != 1 or cs[0].op != "add" or not cs[0].loops:
        return None
    c = cs[0]
    l = c.loops[-1].term
    base = {y.term for y in o.loops}
    own = [y for y in c.loops if y.term not in base]
    el = mk("at", l.a[0], l)
    if len(own) != 1 or own[0].term is not l or not p.same(c.val, el):
        return None
    known = {g for g, _ in o.guards} if hasattr(o, "guards") else set()
    gs = [g for g, tag in c.guards if tag in SKIP and g not in known and p.varies(g, l)]
    if not gs:
        return None
    parts = {el: key}
    if key.op == "tuple" and len(key.a) == 2:
        parts.update({mk("item", el, const(0)): key.a[0], mk("item", el, const(1)): key.a[1]})
    gs = [subst(g, {c.val: key}) for g in gs]
    if el not in set(subterms(key)):
        gs = [subst(subst(g, {mk("tuple", mk("item", el, const(0)), mk("item", el, const(1))): key}), parts) for g in gs]
    if el not in set(subterms(key)) and any(p.varies(g, l) for g in gs):
        return None
    there = any(y.term.a[0] is l.a[0] and p.same(key, mk("at", y.term.a[0], y.term)) for y in x.loops)
    return and_(*([] if there else [mk("in", key, l.a[0])]), *gs)


def compare(p, x, expect, name, drop_=(), tags=SKIP, expand=False):
    """(True, False or None, message): the guards of x hold exactly when expected.

    name(atom, loops) names the known atoms; expect gets {name: truth}."""
    base = list(x.loops)
    g = and_(*[gg for gg, tag in x.guards if tag in tags])
    # membership in a selection from a set, and what was found among keys
    for a in atoms(g):
        if expand and a.op == "in" and a.a[1].op == "obj":
            q = selection(p, *a.a, x)
            if q is not None:
                g = subst(g, {a: q})
        elif a.op == "is" and NONE in a.a:
            y = a.a[0] if a.a[1] is NONE else a.a[1]
            if y.op == "sel" and y.a[2].op == "at" and y.a[2].a[1] is y.a[0] and y.a[2].a[0].op == "attr" and y.a[2].a[0].a[1] == "foreign_keys":
                g = fixed(g, {a: False})
    extra = []
    for _ in range(4):
        ex = [a for a in atoms(g) if a.op == "exists" and a not in extra and name(a, base) is None and a.a[0].a[0].op == "attr" and a.a[0].a[0].a[1] == "foreign_keys"]
        if not ex:
            break
        extra.append(ex[0])
        base.append(ex[0].a[0])
        pos = implies(g, ex[0])
        if not pos:
            return None, f"condition {show(ex[0], 5)}"
        g = fixed(g, {ex[0]: True})
        g = and_(g, ex[0].a[1])
    named, odd = {}, []
    for a in atoms(g):
        n = name(a, base)
        if n is None:
            odd.append(a)
        else:
            named[a] = n
    if odd:
        msg = f"depends on {show(odd[0], 5)}"
        for a in odd:
            if plain(p, a):
                msg = f"depends on {show(a, 5)}"
                # only what really changes the outcome counts
                if fixed(g, {a: True}) is not fixed(g, {a: False}):
                    return False, msg
        return None, msg
    names = sorted(set(named.values()) | set(expect.names))
    selected = any(t in p.dicts for l in base for t in subterms((l if isinstance(l, T) else l.term).a[0]))
    for vs in itertools.product((False, True), repeat=len(names)):
        val = dict(zip(names, vs))
        if not expect.possible(val) or any(val.get(w + " M") and val.get(w + " D", w == "own" and selected) for w in ("own", "dst")):
            continue
        r = fixed(g, {a: val[n] for a, n in named.items()})
        if r not in (TRUE, FALSE):
            return None, "condition not decided"
        if (r is TRUE) != expect(val):
            s = " and ".join(expect.text.get(n, n) if val[n] else "not " + expect.text.get(n, n) for n in names)
            return False, ("not when " if expect(val) else "also when ") + s
    return True, ""


def absent(p, o):
    """The columns that a table does not have."""
    return o.op == "obj" and any(q.op == "in" and q.a[1].op == "attr" and q.a[1].a[1] in ("columns", "c") for c in p.contribs(o) for g, _ in c.guards for q in atoms(g))


class Expect:
    def __init__(self, fn, names, text=None, possible=lambda v: True):
        self.fn, self.names, self.text, self.possible = fn, names, text or {}, possible

    def __call__(self, v):
        return self.fn(v)


TEXT = {"own D": "the table exists", "own P": "the table is passthrough", "own I": "the table is ignored", "dst P": "the other table is passthrough", "dst I": "the other table is ignored", "dst D": "the other table is selected", "deps": "dependencies are included", "own G": "the target is selected", "parsed": "the name has a schema"}


def member(p):
    def name(a, loops):
        if a.op == "in":
            k = kind(p, a.a[1])
            w = who(p, a.a[0], loops) if k else None
            return f"{w} {k}" if w else None
        if a.op == "truth" and is_attr(a.a[0], "config", "include_dependencies"):
            return "deps"
        if a.op == "eq" and any(p.is_call(t, ".split") for t in subterms(a)) and any(x.op == "const" and cval(x) == 2 for x in a.a):
            return "parsed"
        return None

    return name


def refused(p, kinds):
    """Errors that depend on whether the table a key leads to is in such a set."""
    out, far = [], []
    stop = (p.order.args[0] if p.order.args else None, p.order.result)
    for x in p.fx:
        if x.kind != "raise":
            continue
        near = {t for g, _ in x.guards for t in subterms(g)}
        d = set()
        for g, _ in x.guards:
            d |= p.deep(g, ctrl=True, stop=lambda t: t in stop)
        for st, l in ((near, out), (d, far)):
            if any(a.op == "in" and kind(p, a.a[1]) in kinds and any(t.op == "attr" and t.a[1] in ("dst_schema", "dst_table") for t in subterms(a.a[0])) for a in st):
                l.append(x)
                break
    return out or far


# ------------------------------------------------------------------- entries


def entries(p, rep):
    if len(p.passed) != 1 or p.other:
        n = len(p.passed)
        rep.check(False if not n and not p.other else None, "whole", "entry", "planner.py", "passthrough tables have no entry" if not n else f"{n} kinds of entries")
        return
    c = p.passed[0]
    l = next(l for l in c.loops if any(is_attr(t, "config", "passthrough") for t in p.deep(l.term.a[0])))
    el = mk("at", l.term.a[0], l.term)
    if l.term.a[0].op == "slice":
        return rep.bad("entry", "queries", "planner.py", "only some passthrough tables take part")
    q = c.val
    s = p.field(q, "statement") if q.op == "obj" else None
    bad, unk = None, None
    if s is None or s.op != "obj" or p.cname(s) != "SQLStatementSelect":
        unk = "statement not recognised"
    else:
        f = p.field(s, "from_")
        if f is None or f.op != "obj":
            unk = "table not recognised"
        else:
            r = p.same(mk("tuple", p.field(f, "table_schema"), p.field(f, "table_name")), el)
            if r is False:
                bad = "rows are taken from another table"
            elif r is None:
                unk = "table not recognised"
            sm = p.field(f, "sampled")
            if sm is not None and not (sm.op == "const" and not cval(sm)):
                bad = "rows are taken from a sample"
        for n in ("where", "limit", "joins", "columns"):
            v = p.field(s, n)
            if v is None or v is NONE or v.op == "const" and cval(v) in ((), ""):
                continue
            if v.op == "obj" and p.cname(v) == "SQLWhereClauseTrue" or v.op == "obj" and p.e.objs[v].kind == "list" and not p.contribs(v):
                continue
            if n == "where" and v.op == "obj" and p.cname(v) == "SQLWhereClauseAnd":
                cs = p.field(v, "conditions")
                if cs is not None and p.elems(cs) == []:
                    continue
            bad = bad or f"restricted by {n}"
        for n in ("sql", "sql_params"):
            v = p.field(q, n)
            if v is not None and v is not NONE:
                unk = unk or f"has {n}"
    rep.check(False if bad else None if unk else True, "whole", "entry", "planner.py", bad or unk or "")
    r = p.same(c.key, el)
    if r is not True:
        rep.check(r, "entry", "queries", "planner.py", f"stored as {show(c.key, 5)}")
    else:
        named(p, rep, c, l, "queries")
    ls = p.field(p.plan, "passthrough")
    if ls is None or ls is NONE:
        return rep.bad("entry", "listed", "planner.py", "passthrough tables are not listed")
    for _ in range(4):
        if ls.op == "call" and is_ext(ls.a[0], "builtins.list", "builtins.sorted", "builtins.tuple") and ls.a[1]:
            ls = ls.a[1][0]
    if is_attr(ls, "config", "passthrough"):
        return rep.ok("entry", "listed", "planner.py")
    cs = p.contribs(ls)
    if not cs:
        empty = ls.op == "obj" or ls.op == "const"
        return rep.check(False if empty else None, "entry", "listed", "planner.py", "passthrough tables are not listed")
    if len(cs) != 1 or cs[0].op != "add":
        return rep.unk("entry", "listed", "planner.py", "list not recognised")
    l = next((l for l in cs[0].loops if any(is_attr(t, "config", "passthrough") for t in p.deep(l.term.a[0]))), None)
    if l is None:
        return rep.unk("entry", "listed", "planner.py", "list not recognised")
    r = p.same(cs[0].val, mk("at", l.term.a[0], l.term))
    if r is not True:
        return rep.check(r, "entry", "listed", "planner.py", f"listed as {show(cs[0].val, 5)}")
    named(p, rep, cs[0], l, "listed")


def named(p, rep, c, l, inst):
    """Nothing but tables that do not exist is left out."""
    if l.term.a[0].op == "slice":
        return rep.bad("entry", inst, "planner.py", "only some passthrough tables take part")
    fewer = []  # conditions under which tables that do not exist stay

    def name(a, loops):
        if a.op == "in" and who(p, a.a[0], [l]) == "own":
            if kind(p, a.a[1]) == "D":
                return "own D"
            s = a.a[1]
            if s.op == "obj":
                cs = p.contribs(s)
                if cs and all(k.op == "add" and any(not implies(g, TRUE) or any(not_(y) is g or implies(g, not_(y)) for y in atoms(g) if y.op == "in" and kind(p, y.a[1]) == "D") for g, tag in k.guards if tag in SKIP) for k in cs):
                    for k in cs:
                        fewer.extend(g for g, tag in k.guards if tag in SKIP and all(y.op == "in" and not kind(p, y.a[1]) for y in atoms(g)))
                    return "missing"
        return member(p)(a, loops)

    ex = Expect(lambda v: v["own D"] if "missing" not in v else not v["missing"] and v.get("own D", True), ["own D"], TEXT, lambda v: v.get("parsed", True) and ("missing" not in v or v["missing"] != v["own D"]))
    r, m = compare(p, c, ex, name)
    if fewer:
        return rep.bad("entry", inst, "planner.py", f"tables that do not exist are only left out if {show(fewer[0], 4)}")
    rep.check(r, "entry", inst, "planner.py", m and "passthrough tables take part " + m if not m.startswith("depends") else "taking part " + m)


# --------------------------------------------------------------------- order


def graph(p, rep):
    G = p.order.args[0] if p.order.args else None
    cs = [c for c in p.contribs(G) if c.val is not None and c.val.op == "obj" and any(t in p.dicts for l in c.loops for t in subterms(l.term.a[0]))] if G is not None and G.op == "obj" else []
    if len(cs) != 1:
        return rep.unk("graph", "tables", p.order, "graph not recognised")
    c = cs[0]
    ex = Expect(lambda v: not v["own P"] and not v["own I"], ["own P", "own I"], TEXT)
    r, m = compare(p, c, ex, member(p))
    rep.check(r, "graph", "tables", p.order, "tables are ordered " + m)
    ec = p.contribs(c.val)
    if len(ec) != 1 or ec[0].op != "add":
        return rep.unk("graph", "keys", p.order, "graph not recognised")
    ex = Expect(lambda v: not v["dst P"] and not v["dst I"] and v["dst D"], ["dst P", "dst I", "dst D"], TEXT, lambda v: not v.get("own P") and not v.get("own I"))
    r, m = compare(p, ec[0], ex, member(p))
    rep.check(r, "graph", "keys", p.order, "keys are ordered " + m)


# ------------------------------------------------------------------- refusal


def refuse_passthrough(p, rep):
    xs = refused(p, ("P",))
    ys = [x for x in xs if any(is_attr(t, "config", "passthrough") for l in x.loops for t in p.deep(l.term.a[0]))] or xs
    if not ys:
        return rep.bad("refuse", "passthrough", "planner.py", "keys of passthrough tables to others are not refused")
    if len(ys) > 1:
        return rep.unk("refuse", "passthrough", ys[0], f"{len(ys)} errors")
    tables = any(l.term.a[0] in p.dicts or any(t in p.dicts for t in subterms(l.term.a[0])) and l.term.a[0].op == "call" for l in ys[0].loops)
    if tables:
        ex = Expect(lambda v: v["own P"] and not v["dst P"], ["own P", "dst P"], TEXT)
    else:
        ex = Expect(lambda v: v.get("own D", True) and not v["dst P"], ["dst P"], TEXT)
    r, m = compare(p, ys[0], ex, member(p), expand=True)
    if not walks(p, ys[0]):
        r, m = False, "for some keys only"
    rep.check(r, "refuse", "passthrough", ys[0], "refused " + m)


def refuse_ignored(p, rep):
    xs = [x for x in refused(p, ("I",))]
    if not xs:
        return rep.bad("refuse", "ignored", "planner.py", "keys to ignored tables are not refused")
    if len(xs) > 1:
        return rep.unk("refuse", "ignored", xs[0], f"{len(xs)} errors")
    ex = Expect(lambda v: v["deps"] and not v["own I"] and v["dst I"], ["deps", "own I", "dst I"], TEXT)
    r, m = compare(p, xs[0], ex, member(p), expand=True)
    if not walks(p, xs[0]):
        r, m = False, "for some keys only"
    rep.check(r, "refuse", "ignored", xs[0], "refused " + m)


def walks(p, x):
    """The loops go over all tables (or passthrough tables) and all their keys."""
    for l in x.loops:
        q = l.term.a[0]
        if q.op == "slice" or any(tag == "break" for tag, _ in p.exits(x, l.term)):
            return False
    return True


def refuse_target(p, rep):
    xs = []
    for x in p.fx:
        if x.kind == "raise" and any(a.op == "in" and kind(p, a.a[1]) in ("G", "D") and any(is_attr(t, "config", "targets") for t in p.deep(a.a[0])) for g, _ in x.guards for a in p.deep(g, ctrl=True)):
            xs.append(x)
    xs = [x for x in xs if not any(l.term is p.loop for l in x.loops)]
    own = [x for x in xs if [g for g, tag in x.guards if tag == "branch"] and any(a.op == "in" and kind(p, a.a[1]) in ("G", "D") for a in atoms([g for g, tag in x.guards if tag == "branch"][-1]))]
    xs = own if len(xs) > 1 and len(own) == 1 else xs
    if not xs:
        return rep.bad("refuse", "targets", "planner.py", "targets that are not selected are not refused")
    if len(xs) > 1:
        return rep.unk("refuse", "targets", xs[0], f"{len(xs)} errors")
    x = xs[0]
    planned = lambda v: v["own D"] and not v["own P"] and not v["own I"]
    ex = Expect(lambda v: not planned(v), ["own D", "own P", "own I"], dict(TEXT, **{"own D": "the target exists"}), lambda v: v.get("parsed", True) and v.get("own G", planned(v)) == planned(v))
    r, m = compare(p, x, ex, member(p))
    rep.check(r, "refuse", "targets", x, "refused " + m)


# ---------------------------------------------------------------------- keys


def entry_of(p, x, what):
    """The element of a list of configured keys the effect is for."""
    for l in x.loops:
        if is_attr(l.term.a[0], "config", what):
            return mk("at", l.term.a[0], l.term)
    return None


def named_by(p, key, el, side):
    """key is the table an entry names: True, False or None."""
    return p.same(key, mk("attr", el, side))


def about(p, x, field):
    """The change is made for the entries of this setting."""
    return any(is_attr(t, "config", field) for l in x.loops for t in p.deep(l.term.a[0]))


def left(p, x):
    """The loop over entries can be left before its end."""
    return any(tag in ("break", "return") for l in x.loops if any(attr_path(t)[:1] == ("config",) for t in subterms(l.term.a[0]) if attr_path(t)) for tag, _ in p.exits(x, l.term))


def drop(p, rep):
    xs = [x for x in changes(p) if about(p, x, "ignore_fks")]
    if not xs:
        ys = [x for x in changes(p) if any(is_attr(t, "config", "ignore_fks") for y in list(x.args) + [g for g, _ in x.guards] for t in p.deep(y, ctrl=True))]
        return rep.check(None if ys else False, "drop", "keys", "planner.py", "ignored keys are kept")
    for x in xs:
        if x.kind != "setattr" and x.name == ".remove" and any(tag in ("break", "return") for l in x.loops if any(t.op == "attr" and t.a[1] == "foreign_keys" for t in subterms(l.term.a[0])) for tag, _ in p.e.exits.get(l.uid, ())):
            return rep.bad("drop", "keys", x, "only the first of several keys to a table is dropped")
    if len(xs) > 1 or xs[0].kind != "setattr":
        return rep.unk("drop", "keys", xs[0], "change of keys not recognised")
    x = xs[0]
    if left(p, x):
        rep.bad("drop", "keys", x, "entries after one that names no selected table are not used")
    el = entry_of(p, x, "ignore_fks")
    if el is None:
        part = any(l.term.a[0].op == "slice" for l in x.loops)
        return rep.check(False if part else None, "drop", "keys", x, "only some entries are used")
    if not (x.recv.op == "item" and x.recv.a[0] in p.dicts):
        return rep.unk("drop", "keys", x, "table not recognised")
    r = named_by(p, x.recv.a[1], el, "src_table")
    if r is not True:
        return rep.check(r, "drop", "keys", x, f"keys of {show(x.recv.a[1], 5)} are dropped")

    def exists_(a, loops):
        if a.op == "in" and a.a[1] in p.dicts:
            return {True: "src"}.get(named_by(p, a.a[0], el, "src_table")) or ("dst" if named_by(p, a.a[0], el, "dst_table") else None)
        if member(p)(a, loops) == "parsed":
            return "parsed"
        return None

    ex = Expect(lambda v: v["src"], ["src"], {"src": "the table is selected", "dst": "the other table is selected"}, lambda v: v.get("parsed", True) and (v["src"]))
    ok, m = compare(p, x, ex, exists_)
    if ok is not True:
        return rep.check(ok, "drop", "keys", x, "ignored keys are dropped " + m)
    v = resolve(x.args[0], and_(*[g for g, tag in x.guards]))
    for _ in range(3):
        if v.op == "call" and is_ext(v.a[0], "builtins.list", "builtins.sorted") and v.a[1]:
            v = v.a[1][0]
    if v.op != "obj" or len(p.contribs(v)) != 1 or p.contribs(v)[0].op != "add":
        return rep.unk("drop", "keys", x, "remaining keys not recognised")
    c = p.contribs(v)[0]
    k = c.val
    if not (k.op == "at" and k.a[0] is mk("attr", x.recv, "foreign_keys")):
        return rep.unk("drop", "keys", x, "remaining keys not recognised")

    def same(a, loops):
        if a.op == "eq":
            for u, w in (a.a, a.a[::-1]):
                if u.op == "attr" and u.a[0] is k and u.a[1] in ("dst_schema", "dst_table"):
                    i = ("dst_schema", "dst_table").index(u.a[1])
                    if p._part(w, i, mk("attr", el, "dst_table")):
                        return ("schema", "table")[i]
            return None
        return exists_(a, loops)

    ex = Expect(lambda v: not (v["schema"] and v["table"]), ["schema", "table"], {"schema": "the schema matches", "table": "the table matches"}, lambda v: v.get("parsed", True) and v.get("src", True) and v.get("dst", True))
    ok, m = compare(p, c, ex, same)
    rep.check(ok, "drop", "keys", x, "keys are kept " + m)


def add(p, rep):
    xs = [x for x in changes(p) if x.kind == "call" and about(p, x, "extra_fks")]
    if not xs:
        ys = [x for x in changes(p) if any(is_attr(t, "config", "extra_fks") for y in list(x.args) + [g for g, _ in x.guards] for t in p.deep(y, ctrl=True))]
        return rep.check(None if ys else False, "add", "keys", "planner.py", "added keys are not used")
    if len(xs) > 1 or xs[0].name != ".append" or not xs[0].args:
        return rep.unk("add", "keys", xs[0], "change of keys not recognised")
    x = xs[0]
    if left(p, x):
        rep.bad("add", "keys", x, "entries after one that cannot be used are not used")
    el = entry_of(p, x, "extra_fks")
    if el is None:
        part = any(l.term.a[0].op == "slice" for l in x.loops)
        return rep.check(False if part else None, "add", "keys", x, "only some entries are used")
    r = x.recv.a[0]
    if not (r.op == "item" and r.a[0] in p.dicts):
        return rep.unk("add", "keys", x, "table not recognised")
    ok = named_by(p, r.a[1], el, "src_table")
    if ok is not True:
        return rep.check(ok, "add", "keys", x, f"added to {show(r.a[1], 5)}")
    D = r.a[0]
    o = x.args[-1]
    if o.op != "obj" or p.cls(o) is not p.fkcls:
        return rep.unk("add", "keys", x, "key not recognised")
    bad, unk = None, None
    for f, w in (("columns", "src_columns"), ("dst_columns", "dst_columns")):
        t = p.field(o, f)
        s = sequence(p, t) if t is not None else None
        if s is not mk("attr", el, w):
            from .c17 import reordered

            if s is not None and s.op in ("attr", "slice") or reordered(p, t):
                bad = f"{f} are {show(t, 5)}"
            else:
                unk = f"{f} not recognised"
    a, b = p.field(o, "dst_schema"), p.field(o, "dst_table")
    ok = named_by(p, mk("tuple", a, b), el, "dst_table") if a is not None and b is not None else None
    if ok is not True:
        bad, unk = (bad, "table not recognised") if ok is None else (f"leads to {show(a, 4)}.{show(b, 4)}", unk)
    rep.check(False if bad else None if unk else True, "add", "keys", x, bad or unk or "")

    def name(c, loops):
        if c.op == "in" and c.a[1] is D:
            return "src" if named_by(p, c.a[0], el, "src_table") else "dst" if named_by(p, c.a[0], el, "dst_table") else None
        if c.op == "exists":
            q = strip(c.a[0].a[0])
            for side, cols in (("src", "src_columns"), ("dst", "dst_columns")):
                if q is mk("attr", el, cols):
                    i = c.a[1]
                    neg = i.op == "not"
                    i = i.a[0] if neg else i
                    if neg and i.op == "in" and i.a[0] is mk("at", c.a[0].a[0], c.a[0]) and i.a[1].op == "attr" and i.a[1].a[1] in ("columns", "c"):
                        tab = i.a[1].a[0]
                        tab = tab.a[0] if tab.op == "attr" and tab.a[1] == "table_obj" else tab
                        if tab.op == "item" and tab.a[0] is D:
                            m = named_by(p, tab.a[1], el, side + "_table")
                            return side + " columns missing" if m else None
        return member(p)(c, loops) if member(p)(c, loops) == "parsed" else None

    ex = Expect(lambda v: v["src"] and v["dst"] and not v["src columns missing"] and not v["dst columns missing"], ["src", "dst", "src columns missing", "dst columns missing"], {"src": "the table exists", "dst": "the other table exists"}, lambda v: v.get("parsed", True))
    ok, m = compare(p, x, ex, name)
    if ok is None:
        # how many columns are missing does not matter
        for gg, tag in x.guards:
            for a in atoms(gg) if tag in SKIP else ():
                for t in subterms(a):
                    gone = t.a[1][0] if t.op == "call" and is_ext(t.a[0], "builtins.len") else None
                    if t is a and t.op in ("eq", "lt") and all(q.op == "obj" and p.contribs(q) for q in t.a):
                        gone = t.a[0] if absent(p, t.a[0]) else t.a[1]
                    if gone is not None and absent(p, gone) and name(a, ()) is None:
                        ok, m = False, f"depending on {show(a, 5)}"
    rep.check(ok, "add", "when", x, "added " + m)
