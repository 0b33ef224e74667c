"""Order of checks and destination changes.

Each kind of error that configuration, plan and schemas decide has a place that
raises it.  `early`: that place exists, is not behind a flag that has nothing to
do with the error, is not caught by a handler that goes on, and precedes the
first statement that changes the destination on every path.  Filters are
checked by constructing the chain of every configured table from the columns of
the source table; missing destination tables are detected after creation, but
before rows are deleted or written.
"""

from ..rule import *  # noqa
from ._s import *  # noqa

FLOORS = {"early": 6}


def check(ctx, rep):
    v = SV(ctx, "database")
    changes = v.creates + v.deletes + v.inserts + v.updates
    rows = v.deletes + v.inserts
    if not rows:
        broken("no statement changing the destination found")
    first = min(changes, key=lambda x: x.seq)
    firstrow = min(rows, key=lambda x: x.seq)
    filters(v, rep, first)
    raises = [x for x in v.fx if x.kind == "raise" and x.args]
    D = dest_dicts(v)
    pas, ign = literal(("plan", "passthrough")), literal(("config", "multiplicity", "ignore_tables"))
    cats = {k: [] for k in ("multiplied column of a passthrough table", "multiplied column that is not integral", "compacted column in a foreign key", "two tables renamed to the same name", "missing destination table")}
    for x in raises:
        own = [g for g, tag in x.guards if tag in SKIP]
        deps = set()
        for g in own:
            deps |= config_deps(v, g)
        inner = x.loops[-1].term if x.loops else None
        last = [g for g, tag in x.guards if tag == "branch" or tag == "continue" and inner is not None and v.varies(g, inner)]
        if not last or splits(last[-1]):
            continue
        mult = ("config", "multiplicity", "multiplier") in deps
        g = and_(*last)
        at = atoms(g)
        usesD = any(t in D for t in v.deep(g, ctrl=True))
        if mult and any(is_integral(v, a) for a in at):
            cats["multiplied column that is not integral"].append(x)
        elif mult and any(a.op == "in" and (a.a[1] is pas or v.uses(a.a[1], pas)) for a in at) and any(a.op in ("truth", "in", "exists") and not (a.op == "in" and attr_path(a.a[1])) for a in at):
            cats["multiplied column of a passthrough table"].append(x)
        elif any(p[:2] == ("config", "compact") for p in deps) and not any(is_exc(a) for a in at):
            cats["compacted column in a foreign key"].append(x)
        elif ("config", "output", "remap") in deps and usesD:
            cats["missing destination table"].append(x)
        elif ("config", "output", "remap") in deps and any(a.op in ("eq", "lt", "in") and ("config", "output", "remap") in config_deps(v, a) for a in at):
            cats["two tables renamed to the same name"].append(x)
    for name, xs in cats.items():
        lim = firstrow if name == "missing destination table" else first
        good = [x for x in xs if x.seq < lim.seq and not swallowed(v, x) and not flagged(v, x) and not narrowed(v, x)]
        if name == "missing destination table":
            xs = [x for x in xs if not any(y.seq < x.seq and {l.uid for l in y.loops} & {l.uid for l in x.loops} for y in v.inserts) or x in good]
        if good:
            rep.ok("early", name, good[0])
        elif not xs:
            rep.bad("early", name, "", "is never reported")
        elif any(x.seq < lim.seq for x in xs):
            x = xs[0]
            rep.bad("early", name, x, "is not reported on every path" if flagged(v, x) or narrowed(v, x) else "the error is caught and ignored")
        else:
            rep.bad("early", name, xs[0], f"is only reported after {lim.where()} changed the destination")


def splits(g):
    return any(a.op == "eq" and is_const(a.a[0], 2) for a in atoms(g)) and len(atoms(g)) <= 1


def is_exc(a):
    return a.op == "exc"


def is_integral(v, a):
    return any(t.op == "attr" and t.a[1] == "python_type" for t in subterms(a)) or any(t.op == "isinst" and any(is_ext(y, "sqlalchemy.Integer", "sqlalchemy.types.Integer") for y in subterms(t)) for t in subterms(a))


def flagged(v, x):
    """The check depends on what was asked for on the command line or on existing data."""
    for g, tag in x.guards:
        if tag in SKIP:
            for t in subterms(g):
                if t.op == "sym" and t.a[0] in ("truncate", "create"):
                    return True
                p = attr_path(t)
                if p in (("config", "output", "merge"), ("config", "output", "conflict_strategy")):
                    return True
    return False


def narrowed(v, x):
    """The error is only reported for some kinds of columns, or together with others."""
    g = [g for g, tag in x.guards if tag == "branch"]
    g = conj(g[-1]) if g else []
    some = [c.a[0] for c in g if c.op in ("truth", "exists")]
    if some and any(c.op == "not" and (c.a[0].op == "exists" or c.a[0].op == "truth" and c.a[0].a[0].op in ("obj", "view", "vals") and c.a[0].a[0] not in some) for c in g):
        return True
    return any(t.op == "attr" and t.a[1] in ("nullable", "unique", "index", "autoincrement", "default", "server_default", "comment") for g, tag in x.guards if tag in SKIP for t in subterms(g))


def filters(v, rep, first):
    conf = literal(("config", "filters"))
    xs = [x for x in v.fx if x.name == ".construct_filter" and x.kind in ("vcall", "boundary", "call") and x.recv is not None and v.uses(x.recv, conf)]
    early = [x for x in xs if x.seq < first.seq]
    if not early:
        rep.bad("early", "invalid filters", xs[0] if xs else "", "filters are only constructed after the destination was changed" if xs else "filters are never constructed")
        return
    res = []
    for x in early:
        if swallowed(v, x):
            res.append((False, "errors of filters are caught and ignored"))
            continue
        if flagged(v, x):
            res.append((False, "filters are only checked with some options"))
            continue
        extra = []
        for g, tag in x.guards:
            if tag not in SKIP:
                continue
            for c in conj(g):
                if c.op == "truth" and v.uses(c, conf) or c.op == "in" and v.uses(c.a[0], conf) and c.a[1].op == "obj":
                    continue
                if c.op == "not" and c.a[0].op in ("is", "eq") and v.uses(c, conf) and not any(is_const(y) and isinstance(cval(y), str) for y in c.a[0].a):
                    continue
                if c.op == "in" and c.a[1] is conf or c.op == "lt" and is_const(c.a[0], 0) and v.uses(c, conf):
                    continue
                extra.append(c)
        if extra:
            res.append((None if not any(v.uses(c, conf) for c in extra) and not any(a.op == "in" for c in extra for a in atoms(c)) else False, f"filters are only checked if {show(extra[0], 4)}"))
            continue
        loops = [l for l in x.loops if v.uses(l.term, conf)]
        cut = [l for l in loops for tag, c in v.exits(x, l.term) if tag in ("break", "return")]
        part = [l for l in loops if l.term.a[0].op == "slice"]
        if cut or part:
            res.append((False, "not all filters are checked"))
            continue
        res.append((True, ""))
    if any(r[0] for r in res):
        rep.ok("early", "invalid filters", early[0])
    else:
        rep.check(None if any(r[0] is None for r in res) else False, "early", "invalid filters", early[0], res[0][1])
