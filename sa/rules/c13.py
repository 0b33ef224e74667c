"""Copies of a row under multiplicity.

`value`: every value derived from the number of a copy is v * m + i for a
number i in range(m), the same m that bounds the copies, and a null stays
null.  `copies`: m is the configured multiplier for tables whose columns are
multiplied and one otherwise.  `columns`: the value is changed for the columns
recorded for the table of the query.  `base`: those are the key columns less
the configured exceptions, and the configured extra columns.  `closure`: a
column that refers to a multiplied one is added, repeated until nothing
changes.  `exempt`: passthrough and ignored tables record none.  `refuse`: a
reference from those to a multiplied column and a column that is not integral
are errors.
"""

from ..rule import *  # noqa
from ._s import *  # noqa
from .c11 import column_lists, strip_list

FLOORS = {"value": 2, "copies": 2, "columns": 2, "base": 2, "closure": 1, "exempt": 1, "refuse": 2}
EX = {("plan", "passthrough"): "passthrough", ("config", "multiplicity", "ignore_tables"): "ignored"}
MULT = ("config", "multiplicity", "multiplier")


def check(ctx, rep):
    Ds = {}
    for mode in ("database", "directory"):
        v = SV(ctx, mode)
        cs = copies(v)
        if not cs:
            used = any(attr_path(t) == MULT for t in reach(v))
            if used:
                for r in ("value", "copies", "columns"):
                    rep.unk(r, mode, "", "loop over copies not found")
            else:
                rep.bad("copies", mode, "sampler.py", "rows are not copied")
            continue
        es = [e for e in edits(v)]
        touched = [e for e in es if any(i in set(subterms(e.val)) for i in cs.values())]
        touched = [e for e in touched if not (e.val.op == "obj")]
        if not touched:
            dep = [e for e in es if any(i in v.deep(e.val) for i in cs.values())]
            rep.check(None if dep else False, "value", mode, "sampler.py", "copies of a row are not told apart")
        D = [t.a[0] for e in touched for g in [e.guard()] + [c for c, _ in v.alts(e.val)] for t in subterms(g) if t.op == "item" and t.a[0].op == "obj" and v.e.objs[t.a[0]].kind == "dict" and is_mult(v, t.a[0])]
        if not D:
            # the columns were picked before
            D = [t.a[0] for e in touched for g in [e.guard()] + [c for c, _ in v.alts(e.val)] for t in v.deep(g, ctrl=True) if t.op == "item" and t.a[0].op == "obj" and v.e.objs[t.a[0]].kind == "dict" and is_mult(v, t.a[0])]
        for d in D:
            Ds[d] = v
        for l, i in cs.items():
            count(v, rep, mode, l, D)
        for e in touched:
            for l, i in cs.items():
                if i in set(subterms(e.val)):
                    value(v, rep, mode, e, l, i)
                    own(v, rep, mode, e, l)
            columns(v, rep, mode, e, D)
    if not Ds:
        for r in ("base", "closure", "exempt", "refuse", "base", "refuse"):
            rep.unk(r, "columns", "", "record of multiplied columns not found")
        return
    v = next(iter(Ds.values()))
    d = [d for d, w in Ds.items() if w is v][0]
    record(v, rep, d)


def is_mult(v, D):
    for k, val, _, gs, ls, _ in additions(v, D):
        for z in [val] + [g for g, _ in gs]:
            for t in v.deep(z):
                p = attr_path(t)
                if p and p[:2] == ("config", "multiplicity"):
                    return True
    return False


def own(v, rep, mode, e, l):
    """The row that is changed is made anew for every copy."""
    o = e.row
    while o.op in ("fin", "mu"):
        o = o.a[0] if o.op == "fin" else o.a[2]
    if o.op != "obj":
        return
    made = [c for c in v.contribs(o) if c.op in ("extend", "add")]
    if made and not any(k.term is l for c in made for k in c.loops):
        rep.bad("value", mode, e.where, "the same row is changed again for the next copy")


def value(v, rep, mode, e, l, i):
    G = e.guard()
    start, end, step = l.a[0].a
    some = False
    for g, a in v.alts(e.val):
        full = and_(G, g)
        if full is FALSE:
            continue
        if i not in set(subterms(a)):
            if a is NONE:
                rep.check(nullish(v, e, full), "value", mode, e.where, f"a value becomes null if {show(g, 5)}")
            elif is_old(v, e, a) and atoms(g) and all(a in set(subterms(c, stop=lambda t: t.op == "rankof")) for c in atoms(g)):
                # kept as it is, depending on the value only
                rep.check(implies(full, isnone(v, a)), "value", mode, e.where, f"a value is kept if {show(g, 5)}")
            continue
        some = True
        G2 = full
        I, X = mk("sym", "copy"), mk("sym", "value")
        xs = {x for x in subterms(a, stop=lambda t: is_old(v, e, t)) if is_old(v, e, x)}
        x = next(iter(xs)) if len(xs) == 1 else None
        p = poly(resolve(subst(a, {i: I, x: X} if x is not None else {i: I}), G2))
        s, n = poly(resolve(start, G2)), poly(resolve(end, G2))
        for k, c in s.items():
            n[k] = n.get(k, 0) - c
            if not n[k]:
                del n[k]
        for k, c in s.items():
            p[k] = p.get(k, 0) + c
            if not p[k]:
                del p[k]
        ii = mono(I)
        if not (step.op == "const" and cval(step) == 1):
            rep.unk("value", mode, e.where, "copies are not numbered one by one")
            continue
        if p.get(ii) != 1:
            rep.bad("value", mode, e.where, f"copies are numbered as {show(a, 5)}")
            continue
        del p[ii]
        ok = None
        if any(I in set(subterms(z)) for m in p for z in m):
            ok = False
        if x is not None and ok is None:
            want = {}
            for m, c in n.items():
                want[mono(*m, X)] = c
            ok = p == want
        elif not xs and not any(any(mentions_row(v, z) for z in m) for m in p):
            ok = False
        rep.check(ok, "value", mode, e.where, f"copy i gets {show(a, 6)}, with {show(end, 4)} copies")
        if ok:
            rep.check(True if implies(full, not_(isnone(v, x))) else None if typed(full, x) else False, "value", mode, e.where, "null is not kept")
    if not some:
        rep.unk("value", mode, e.where, show(e.val, 5))


def typed(g, x):
    return any(x in set(subterms(a)) for a in atoms(g))


def isnone(v, x):
    return v.e.is_(x, NONE)


def nullish(v, e, g):
    """A null is only written where there was one."""
    for a in atoms(g):
        for x in subterms(a):
            if is_old(v, e, x) and implies(g, isnone(v, x)):
                return True
    return None if any(is_old(v, e, x) for a in atoms(g) for x in subterms(a)) else False


def is_old(v, e, x):
    """x is the value of the row that is replaced."""
    if x.op == "item" and x.a[0] is e.row:
        return e.key is None or x.a[1] is e.key
    if x.op == "at" and x.a[0] is e.row:
        return e.key is None or e.key.op == "idx" and e.key.a[0] is x.a[1]
    if x.op in ("at", "item") and e.key is None:
        return mentions_row(v, x)
    if x.op == "at" and e.key.op == "at" and x.a[1] is e.key.a[1] and e.row.op == "obj":
        # the value beside its name, put in a record
        return x is not e.key and mentions_row(v, x)
    if x.op in ("at", "item"):
        # the value is read before it is copied into the row that is edited
        return e.row.op == "obj" and mentions_row(v, x) and (x.op == "item" and x.a[1] is e.key or x.op == "at" and e.key is not None and e.key.op == "idx" and e.key.a[0] is x.a[1])
    return False


def mentions_row(v, x):
    return any(v.is_row(t) or v.is_chain(t) for t in v.deep(x))


def count(v, rep, mode, l, D):
    start, end, step = l.a[0].a
    mult = literal(MULT)
    alts = v.alts(end)
    if not any(any(t is mult for t in subterms(a)) for _, a in alts):
        rep.bad("copies", mode, "sampler.py", f"rows are copied {show(end, 4)} times, not as configured")
        return
    n0 = cv(start)
    one = mk("lt", const(1), mult)
    for g, a in alts:
        p = poly(a)
        if n0 is not None and n0 != 0:
            p[()] = p.get((), 0) - n0
            if not p[()]:
                del p[()]
        elif n0 is None:
            rep.unk("copies", mode, "sampler.py", show(l.a[0], 4))
            continue
        ats = atoms(g)
        ins = [t for t in ats if t.op == "in" and t.a[1] in D]
        if p == {mono(mult): 1}:
            ok = ins and any(implies(g, t) for t in ins)
            if not ok and ex_guard(g):
                ok = True
            free = not ats or all(not any(t.op == "key" or t.op == "at" for t in subterms(a)) for a in ats)
            rep.check(True if ok else (False if free else None), "copies", mode, "sampler.py", "rows of every table are copied, also of passthrough tables")
        elif p == {(): 1}:
            if not ins:
                rep.unk("copies", mode, "sampler.py", show(g, 5))
            else:
                rep.check(implies(g, or_(*[not_(t) for t in ins], not_(one))), "copies", mode, "sampler.py", f"rows are not copied if {show(g, 5)}")
        else:
            rep.bad("copies", mode, "sampler.py", f"rows are copied {show(a, 4)} times")


def ex_guard(g):
    return all(any(attr_path(s) == p for c in atoms(g) for s in subterms(c)) for p in (("plan", "passthrough"), ("config", "multiplicity", "ignore_tables")))


def columns(v, rep, mode, e, D):
    G = [c for g in [e.guard()] + [c for c, a in v.alts(e.val)] for c in atoms(g)]
    ms = [t for t in G if t.op == "in" and t.a[1].op == "item" and t.a[1].a[0] in D]
    if not ms:
        dep = any(t.op == "item" and t.a[0] in D for g in G for t in v.deep(g, ctrl=True))
        rep.check(None if dep else False, "columns", mode, e.where, "every column is multiplied")
        return
    keys = {k for r in v.reads for k in v.query_keys(r)}
    cols = {strip_list(v, q) for q in column_lists(v)}
    for t in ms:
        if keys and t.a[1].a[1] not in keys:
            rep.bad("columns", mode, e.where, f"multiplied columns are looked up under {show(t.a[1].a[1], 5)}, the query under {show(next(iter(keys)), 5)}")
            continue
        g = e.guard()
        pos = [c for c in literals(g)]
        tops = [c for c in pos if any(s is t for s in subterms(c))]
        if any(c.op == "not" and c.a[0] is t for c in tops):
            rep.bad("columns", mode, e.where, "the columns that are not recorded are multiplied")
            continue
        if t.a[0].op == "at":
            for _, s in v.alts(t.a[0].a[0]):
                s = strip_list(v, s)
                if cols and s not in cols and s.op == "call" and s.a[0].op == "attr" and s.a[0].a[1] == "keys":
                    rep.bad("columns", mode, e.where, "positions are those of the columns before filters")
        has = [mk("in", t.a[1].a[1], t.a[1].a[0])]
        ok = False
        for c, a in v.alts(e.val):
            if not any(i.op == "at" and i.a[0].op == "range" for i in subterms(a)) and is_old(v, e, a):
                continue
            ok = implies(and_(g, c, *has), t)
            if not ok:
                break
        for x in atoms(g):
            # recorded otherwise, for other purposes
            if ok and x.op == "in" and x.a[0] is t.a[0] and x.a[1].op == "item" and x.a[1].a[0].op == "obj" and x.a[1].a[0] not in D:
                o, k = x.a[1].a
                if fixed(g, {x: True, mk("in", k, o): True, v.e.truth(x.a[1]): True}) is FALSE:
                    rep.bad("columns", mode, e.where, f"multiplied columns are left as they are if {show(x, 4)}")
                    return
        rep.check(ok, "columns", mode, e.where, f"columns are multiplied if {show(g, 7)}")


def taken_out(v, o):
    """Key columns are taken out of a set that extra columns were put in before."""
    ks = v.contribs(o)
    first = [k.seq for k in ks if k.op == "extend" and any(t.op == "attr" and t.a[1] == "extra_columns" for t in v.deep(k.val))]
    key = lambda t: t.op == "attr" and t.a[1] == "primary_key"
    for k in ks:
        if not first or k.val is None or k.seq < first[0]:
            continue
        if k.op == "diff" and (key(k.val) or v.is_call(k.val, "builtins.set", "builtins.frozenset") and k.val.a[1] and key(k.val.a[1][0])):
            return k
        if k.op == "inter":
            for t in v.deep(k.val):
                if t.op == "bin" and t.a[0] == "-" and any(key(q) for q in subterms(t.a[2])):
                    return k
                if t.op == "obj" and any(q.op == "diff" and q.val is not None and any(key(y) for y in v.deep(q.val)) for q in v.contribs(t)):
                    return k
    return None


def record(v, rep, D):
    adds = additions(v, D)
    pk, extra, clos = [], [], []
    for key, val, whole, gs, ls, c in adds:
        d = v.deep(val)
        zipped = [t for t in subterms(val) if t.op == "at" and t.a[1].op == "loop" and t.a[1].a[0].op in ("zip", "enum", "range")] or any(t.op == "attr" and t.a[1] in ("foreign_keys", "columns") and any(s.op == "attr" and s.a[1] in ("foreign_keys", "foreign_key_constraints") for s in subterms(t)) for t in subterms(val))
        if any(t.op == "attr" and t.a[1] == "extra_columns" for t in d):
            extra.append((key, val, whole, gs, ls, c))
        elif zipped:
            clos.append((key, val, whole, gs, ls, c))
        elif any(t.op == "attr" and t.a[1] == "primary_key" for t in d):
            pk.append((key, val, whole, gs, ls, c))
        elif not (val.op == "obj" and not v.contribs(val)):
            rep.unk("base", "other", "sampler.py", show(val, 5))
    # exempt tables
    ex = EX
    for path, what in ex.items():
        bad = None
        for key, val, whole, gs, ls, c in pk + extra:
            g = and_(*[q for q, _ in gs])
            t = mk("in", key, literal(path))
            if not implies(g, not_(t)):
                bad = g
        if not pk and not extra:
            rep.unk("exempt", what, "", "nothing recorded")
        elif bad is not None and any(attr_path(s) == path for s in v.deep(bad, ctrl=True)):
            some = any(s is mk("in", key, literal(path)) for s in atoms(bad))
            rep.check(False if some else None, "exempt", what, "sampler.py", f"columns of {what} tables are multiplied")
        else:
            rep.check(bad is None, "exempt", what, "sampler.py", f"columns of {what} tables are multiplied")
    # key columns
    ipk = ("config", "multiplicity", "ignore_primary_key_columns")
    if not pk:
        rep.bad("base", "primary key", "sampler.py", "primary keys are not multiplied")
    for key, val, whole, gs, ls, c in pk:
        sk = [g for g, tag in gs if tag in SKIP and not exempting(g, ex)]
        about = [g for g in sk if any(attr_path(s) == ipk for s in v.deep(g, ctrl=True))]
        other = [g for g in sk if g not in about and any(v.varies(g, l.term) for l in ls)]
        part = [t for t in v.deep(val) if t.op == "slice" and any(s.op == "attr" and s.a[1] == "primary_key" for s in subterms(t.a[0])) or t.op == "item" and t.a[1].op == "const" and t.a[0].op == "attr" and t.a[0].a[1] == "primary_key"]
        if part:
            rep.bad("base", "primary key", "sampler.py", "only a part of the key is multiplied")
        elif other:
            rep.bad("base", "primary key", "sampler.py", f"key columns are only multiplied if {show(other[0], 5)}")
        elif not about:
            rep.bad("base", "primary key", "sampler.py", "exceptions configured for key columns are not used")
        elif not any(t.op == "in" and t.a[1].op == "item" and attr_path(t.a[1].a[0]) == ipk for _, _, _, hs, _, _ in pk for h, _ in hs for t in atoms(h)) and all(t.op == "truth" and t.a[0].op == "item" and attr_path(t.a[0].a[0]) == ipk or t.op == "in" and attr_path(t.a[1]) == ipk for g in about for t in atoms(g)) and any(t.op == "truth" for g in about for t in atoms(g)) and not any(k.op in ("diff", "discard", "remove") for t in v.deep(val) if t.op == "obj" for k in v.contribs(t)):
            rep.bad("base", "primary key", "sampler.py", "an exception for one key column exempts the others")
        else:
            ok = True
            for g in about:
                its = [t for t in subterms(g) if t.op == "item" and attr_path(t.a[0]) == ipk]
                if its and not any(t.a[1] is key for t in its):
                    ok = False
                inn = [t for t in atoms(g) if t.op == "in" and t.a[1] in its]
                if inn and not implies(g, or_(not_(inn[0]), *[not_(t) for t in atoms(g) if t.op == "in" and attr_path(t.a[1]) == ipk])):
                    ok = False
                if not inn:
                    ok = None if ok else ok
            rep.check(ok, "base", "primary key", "sampler.py", f"key columns are multiplied if {show(about[0], 6)}")
    xc = ("config", "multiplicity", "extra_columns")
    if not extra:
        rep.bad("base", "extra columns", "sampler.py", "extra columns are not multiplied")
    for key, val, whole, gs, ls, c in extra:
        its = [t for t in subterms(val) if t.op == "item" and attr_path(t.a[0]) == xc]
        sk = [g for g, tag in gs if tag in SKIP and not exempting(g, ex) and any(v.varies(g, l.term) for l in ls) and not (g.op == "in" and attr_path(g.a[1]) == xc)]
        if its and not any(t.a[1] is key for t in its):
            rep.bad("base", "extra columns", "sampler.py", f"extra columns are looked up under {show(its[0].a[1], 4)}")
        elif sk:
            rep.bad("base", "extra columns", "sampler.py", f"extra columns are only multiplied if {show(sk[0], 5)}")
        else:
            rep.check(True if its else None, "base", "extra columns", "sampler.py")
    for c in v.contribs(D):
        cut = taken_out(v, c.val) if c.val is not None and c.val.op == "obj" else None
        if cut:
            rep.bad("base", "extra columns", f"sampler.py:{getattr(cut.node, 'lineno', '?')}", "extra columns that are part of the key are not multiplied")
    # references
    if not clos:
        rep.bad("closure", "references", "sampler.py", "columns that refer to multiplied ones are not multiplied")
    for key, val, whole, gs, ls, c in clos:
        closure_rule(v, rep, D, key, val, gs, ls)
    refuse(v, rep, D, ex)


def exempting(g, ex):
    return all(a.op == "in" and attr_path(a.a[1]) in ex or a.op == "lt" and any(attr_path(t) == MULT for t in a.a if isinstance(t, T)) for a in atoms(g)) and bool(atoms(g))


def closure_rule(v, rep, D, key, val, gs, ls):
    wh = [l for l in ls if l.term.a[0].op == "while"]
    fkl = [l for l in ls if any(t.op == "attr" and t.a[1] in ("foreign_keys", "foreign_key_constraints") for t in subterms(l.term.a[0]))]
    sk = [g for g, tag in gs if tag in SKIP]
    about, other = [], []
    for g in sk:
        if any(t.op == "in" and (t.a[1] is D or t.a[1].op == "item" and t.a[1].a[0] is D) for t in atoms(g)):
            about.append(g)
        elif fkl and any(v.varies(g, l.term) for l in [l for l in ls if l in fkl or l.term.a[0].op == "zip"]):
            other.append(g)
    if other:
        rep.bad("closure", "references", "sampler.py", f"a reference is only followed if {show(other[0], 5)}")
        return
    el = [t for g in about for t in atoms(g) if t.op == "in" and t.a[1].op == "item" and t.a[1].a[0] is D]
    if any(t.a[0] is not val for t in el):
        el = [t for t in el if t.a[0] is not val]  # what is already recorded
    if not el:
        rep.bad("closure", "references", "sampler.py", "every column of a reference is multiplied, whether or not it refers to a multiplied one")
        return
    for g in about:
        rest = fixed(g, {t: t.a[0] is not val for t in atoms(g) if t.op == "in" and (t.a[1] is D or t.a[1].op == "item" and t.a[1].a[0] is D)})
        if any(a.op == "in" and a.a[0] is val and D not in set(v.deep(a.a[1])) and any((attr_path(q) or ("",))[0] == "config" for q in v.deep(a.a[1])) for a in atoms(rest) if not exempting(a, EX)):
            rep.bad("closure", "references", "sampler.py", f"a reference is only followed if {show(rest, 5)}")
            return
        if any(s.op == "attr" and s.a[1] in ("primary_key", "type", "nullable", "autoincrement", "unique") or (attr_path(s) or ("",))[0] == "config" for a in atoms(rest) if not exempting(a, EX) for s in subterms(a)):
            rep.bad("closure", "references", "sampler.py", f"a reference is only followed if {show(rest, 5)}")
            return
    side = lambda t: {"dst" if s.a[1] in ("dst_columns", "referred_columns") else "src" for s in subterms(t.a[0] if t.op == "at" else t) if s.op == "attr" and s.a[1] in ("columns", "dst_columns")}
    # pairing
    loops_ = lambda t: {s for s in subterms(t) if s.op == "loop" and s.a[0].op in ("zip", "enum", "range")}
    t = el[0]
    if side(val) != {"src"}:
        rep.check(None if not side(val) else False, "closure", "references", "sampler.py", "the referred columns are recorded instead of the referring ones")
        return
    if side(t.a[0]) != {"dst"}:
        rep.check(None if not side(t.a[0]) else False, "closure", "references", "sampler.py", "the referring columns are tested instead of the referred ones")
        return
    if not loops_(val) & loops_(t.a[0]):
        rep.unk("closure", "references", "sampler.py", "pairs of columns not recognised")
        return
    if not any(s.op == "attr" and s.a[1] in ("dst_table", "dst_schema") for s in subterms(t.a[1].a[1])):
        rep.unk("closure", "references", "sampler.py", "referred table not recognised")
        return
    if not wh:
        rep.bad("closure", "references", "sampler.py", "references are only followed once")
        return
    for l in ls:
        if l in wh:
            continue
        ex = [(tg, c) for tg, c in v.e.exits.get(l.uid, ()) if tg in ("break", "return")]
        if ex:
            rep.bad("closure", "references", "sampler.py", "references are only followed up to the first one")
            return
    # the outer loop ends only if nothing changed
    ok = None
    for l in wh:
        if any(c is TRUE for tg, c in v.e.exits.get(l.uid, ())):
            rep.bad("closure", "references", "sampler.py", "references are only followed once")
            return
        ok = True
        for tg, c in v.e.exits.get(l.uid, ()):
            for f in {t for t in subterms(c) if t.op == "fin"}:
                stay = [s for s in (TRUE, FALSE) if fixed(c, {mk("truth", f): s is TRUE}) is FALSE]
                if len(stay) == 1 and remembers(v, f, stay[0], {}) is False:
                    rep.bad("closure", "references", "sampler.py", "whether something changed is forgotten for all but the last table, references are followed too few times")
                    return
    rep.check(ok, "closure", "references", "sampler.py")


def remembers(v, f, s, env):
    """A flag with the value s keeps it, through the passes of a loop."""
    m = f.a[0]
    if m.op != "mu" or m not in v.e.backs:
        return None

    def val(t):
        if t is m or t in env:
            return s
        if t.op == "phi":
            c = cond(t.a[0])
            if c is not None:
                return val(t.a[1] if c else t.a[2])
            a, b = val(t.a[1]), val(t.a[2])
            return a if a is b else None
        if t.op == "fin" and t.a[0].op == "mu" and t.a[0] in v.e.backs:
            if val(t.a[0].a[2]) is s and remembers(v, t, s, {**env, m: s}) is True:
                return s
            return None
        if t.op in ("or", "and", "not", "truth"):
            c = cond(t)
            return None if c is None else TRUE if c else FALSE
        return t if t in (TRUE, FALSE) else None

    def cond(t):
        if t.op == "truth":
            r = val(t.a[0])
            return None if r is None else r is TRUE
        if t.op == "not":
            r = cond(t.a[0])
            return None if r is None else not r
        if t.op in ("and", "or"):
            rs = [cond(x) for x in t.a]
            if (t.op == "or") in rs:
                return t.op == "or"
            return None if None in rs else t.op == "and"
        r = val(t)
        return None if r is None else r is TRUE

    b = v.e.backs[m]
    r = val(b)
    return True if r is s else False if r is not None or not {m, *env} & set(v.deep(b)) else None


def refuse(v, rep, D, ex):
    rs = [x for x in v.fx if x.kind == "raise"]
    ref, typ = [], []
    for x in rs:
        g = guard(x)
        ds = v.deep(g, ctrl=False)
        onD = any(t is D for a in atoms(g) for t in subterms(a)) or any(t is D for l in x.loops for t in subterms(l.term))
        if onD and any(t.op == "attr" and t.a[1] in ("python_type", "type") for a in atoms(g) for t in subterms(a)):
            typ.append(x)
        elif onD and any(attr_path(t) in ex for a in atoms(g) for t in subterms(a)):
            ref.append(x)
    if not ref:
        rep.bad("refuse", "references", "sampler.py", "a reference from a passthrough table to a multiplied column is not refused")
    else:
        got = {attr_path(t) for x in ref for a in atoms(guard(x)) for t in subterms(a)}
        miss = [p for p in ex if p not in got]
        rep.check(not miss, "refuse", "references", ref[0], f"references from {ex[miss[0]] if miss else ''} tables to multiplied columns are not refused")
        rep.check(not any(swallowed(v, x) for x in ref), "refuse", "references", ref[0], "the error is swallowed")
    if not typ:
        rep.bad("refuse", "type", "sampler.py", "multiplied columns that are not integral are not refused")
    else:
        x = typ[0]
        narrow = [g for h, tag in x.guards if tag in SKIP for g in conj(h) if any(v.varies(g, l.term) for l in x.loops) and not all(a.op == "in" and (a.a[1] is D or a.a[1].op == "item" and a.a[1].a[0] is D) or a.op == "truth" and a.a[0].op == "item" and a.a[0].a[0] is D for a in atoms(g)) and not any(t.op == "attr" and t.a[1] in ("python_type", "type") for t in subterms(g))]
        rep.check(not narrow, "refuse", "type", x, f"columns that are not integral are only refused if {show(narrow[0], 5) if narrow else ''}")
        ints = [t for a in atoms(guard(x)) for t in subterms(a) if t.op == "ext" and t.a[0] in ("builtins.int", "sqlalchemy.Integer", "sqlalchemy.types.Integer", "numbers.Integral")]
        rep.check(True if ints else None, "refuse", "type", x)
