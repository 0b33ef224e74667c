"""Rows between the query's result and the output.

`row`: inside the loop over the result of a query and the loop over its copies
nothing is skipped, left early or done twice: one row enters the buffer (or is
written) for every copy, and no table of the plan is left out.  `flush`: a buffer that is written inside the loop is
emptied exactly when it was written, and never emptied without.  `last`: what
is left after the loop is written.  `commit`: every write is committed and its
failure is not swallowed.  `line`: in directory output each row is one JSON
document followed by a line break, in a file opened for its table before the
first row and overwriting what was there.
"""

import itertools

from ..rule import *  # noqa
from ._s import *  # noqa

FLOORS = {"row": 4, "flush": 1, "last": 1, "commit": 1, "line": 1}


def row_loops(v, loops):
    return [l for l in loops if v.is_row(mk("at", l.term.a[0], l.term))]


def check(ctx, rep):
    v = SV(ctx, "database")
    bufs, first = {}, {}
    for ob in v.e.objs.values():
        for c in ob.contribs:
            for l in c.loops:
                first[l.term] = min(first.get(l.term, l.uid), l.uid)
    for o, ob in v.e.objs.items():
        if ob.kind not in ("list", "set"):
            continue
        for c in ob.contribs:
            if c.op in ("add", "insert", "extend", "set"):
                R = [l for l in row_loops(v, c.loops) if l not in ob.loops]
                if R and o.a[0] < min(first[l.term] for l in R) and any(t in v.deep(c.val) for t in [mk("at", l.term.a[0], l.term) for l in R]):
                    bufs.setdefault(o, []).append(c)
    if not v.inserts:
        broken("no row output found for database output")
    for x in v.inserts:
        rep.check(committed(v, x), "commit", "database", x, "rows are written but never committed")
        rep.check(not swallowed(v, x, CATCH + ("sqlalchemy.exc.SQLAlchemyError", "sqlalchemy.exc.IntegrityError", "sqlalchemy.exc.DBAPIError")), "commit", "database", x, "an error while writing rows is swallowed")
    if not bufs:
        for x in v.inserts:
            if row_loops(v, x.loops):
                q = {g for r in v.reads for g, _ in r.guards}
                if [g for g, t in x.guards if t in SKIP and g not in q]:
                    continue
                once(v, rep, "database", x, x.guards, x.loops)
                rep.ok("flush", "database", x, "rows are written one by one")
                rep.ok("last", "database", x, "rows are written one by one")
        full = [size_only(x) for x in v.inserts if row_loops(v, x.loops)]
        if full and all(full) and len(full) == len(v.inserts):
            rep.bad("last", "database", v.inserts[0], f"rows are only written if {show(full[0], 4)}: those left at the end are not")
        for r in ("row", "flush", "last"):
            if not any(i["rule"] == r for i in rep.items):
                rep.unk(r, "database", "", "buffer not found")
    for b, adds in bufs.items():
        buffer(v, rep, b, adds)
    left_out(v, rep, "database")
    directory(ctx, rep)


def size_only(x):
    """A condition on how many rows were gathered, which has to hold for any to be written."""
    for g, tag in x.guards:
        l = g.a[0] if g.op == "not" else g
        if tag in SKIP and l.op in ("lt", "le", "eq") and any(q.op in ("len", "call") and (q.op == "len" or is_ext(q.a[0], "builtins.len")) and any(z.op == "mu" for z in subterms(q)) for q in l.a if isinstance(q, T)):
            other = [q for q in l.a if isinstance(q, T) and not any(z.op == "mu" for z in subterms(q))]
            if len(other) == 1 and not (other[0].op == "const" and cval(other[0]) in (0, 1)):
                return g
    return None


def left_out(v, rep, mode):
    """No table of the plan is left out because of settings or of what was counted."""
    by = {}
    for x in v.reads:
        if x.loops and not row_loops(v, x.loops) and any(v.is_result(l.term.a[0]) and any(t is x.result for t in subterms(l.term.a[0])) for y, _ in v.sinks() for l in y.loops):
            by.setdefault(x.loops[-1].uid, []).append(x)
    for xs in by.values():
        c = or_(*[and_(*[g for g, t in x.guards if t in SKIP]) for x in xs])
        planned = [a for a in atoms(c) if a.op == "in" and attr_path(a.a[1]) == ("plan", "queries")]
        c = fixed(c, {a: True for a in planned})
        free = [a for a in atoms(c) if counted(v, a) or settled(v, a) and not any(t.op == "attr" and t.a[1] == "remap" for t in v.deep(a))]
        bases = {t.a[0] for a in free for t in subterms(a) if t.op == "item" and counted(v, a)}
        free += [a for a in atoms(c) if a.op == "in" and a.a[1] in bases]
        why = first = None
        for vals in itertools.product((True, False), repeat=len(free)) if len(free) < 6 else ():
            now = fixed(c, dict(zip(free, vals)))
            first = first if first is not None else now
            if now is FALSE or any(counted(v, a) for a in free) and not equivalent(now, first):
                why = show(free[0], 5)
        for y, _ in v.sinks():
            if any(t is x.result for x in xs for l in y.loops for t in subterms(l.term.a[0])):
                for g, tag in y.guards:
                    hit = [a for a in atoms(g) if tag in SKIP and counted(v, a)]
                    why = show(hit[0], 5) if hit else why
        why = why or none_left(v, xs)
        rep.check(not why, "row", mode + " tables", xs[0], f"a table is only written depending on {why}")


def none_left(v, xs):
    """What has to hold of the tables for any of them to be written."""
    failed = {g for y in v.fx if y.kind == "raise" for g, tag in y.guards if tag in SKIP}
    for x in xs:
        for g, tag in x.guards:
            if tag in SKIP and not any(v.varies(g, l.term) for l in x.loops) and not_(g) not in failed and ("config", "output", "remap") in config_deps(v, g):
                return show(g, 4)
    return None


def counted(v, a):
    """A condition on the number of rows some statement reported."""
    return a.op in ("lt", "eq", "truth", "le") and any(t.op == "attr" and t.a[1] == "rowcount" for t in v.deep(a))


def once(v, rep, mode, where, guards, loops):
    """Nothing between the row loop and this point skips or repeats a row."""
    rl = row_loops(v, loops)
    if not rl:
        rep.unk("row", mode, where, "no loop over a result")
        return None
    i = loops.index(rl[0])
    inner = loops[i:]
    for l in inner:
        sk = [g for g, tag in guards if tag in SKIP and v.varies(g, l.term)]
        if sk:
            rep.bad("row", mode, where, f"a row is only written if {show(sk[0], 5)}")
            return None
        # leaving the loop
        ex = [(t, c) for t, c in v.e.exits.get(l.uid, ()) if t in ("break", "return")]
        if ex:
            rep.bad("row", mode, where, f"the loop over the rows can end early ({show(ex[0][1], 4)})")
            return None
    extra = [l for l in inner[1:] if l.term.a[0].op != "range"]
    if extra:
        rep.bad("row", mode, where, f"a row is written for each of {show(extra[0].term.a[0], 4)}")
        return None
    if len(inner) > 2:
        rep.bad("row", mode, where, "copies of a row are made twice")
        return None
    seq = inner[0].term.a[0]
    part = [t for t in subterms(seq) if v.is_result(seq) and (t.op == "slice" or t.op == "call" and (is_ext(t.a[0], "itertools.islice", "itertools.takewhile", "builtins.set") or t.a[0].op == "attr" and t.a[0].a[1] in ("fetchmany", "first", "one", "fetchone", "unique", "one_or_none") and v.is_result(t)))]
    if part:
        rep.bad("row", mode, where, "only some rows of the result are read")
        return None
    rep.ok("row", mode, where)
    return inner


def same(a, b, outer):
    """Two guard lists are equivalent, apart from failures."""
    ga = and_(*[g for g, t in a if t in SKIP and g not in outer])
    gb = and_(*[g for g, t in b if t in SKIP and g not in outer])
    return ga is gb or equivalent(ga, gb)


def buffer(v, rep, b, adds):
    if len(adds) > 1:
        gs = [c.guard() for c in adds]
        both = [(x, y) for i, x in enumerate(gs) for y in gs[i + 1:] if and_(x, y) is not FALSE and not implies(x, not_(y))]
        if both:
            rep.bad("row", "database", "sampler.py", "a row enters the buffer twice")
            return
        rep.unk("row", "database", "sampler.py", "a row enters the buffer at different places")
        return
    c = adds[0]
    if c.op == "extend" or v.e.objs[b].kind == "set":
        if v.e.objs[b].kind == "set":
            rep.bad("row", "database", "sampler.py", "equal rows are written once only")
        else:
            rep.unk("row", "database", "sampler.py", "rows are added in bulk")
        return
    inner = once(v, rep, "database", "sampler.py", c.guards, list(c.loops))
    if inner is None:
        return
    R = inner[0]
    full = [g for g, t in c.guards if t in SKIP and any(z is b for z in subterms(g))]
    if full:
        rep.bad("row", "database", "sampler.py", f"a row only enters the buffer if {show(full[0], 5)}")
        return
    outer = {g for g, t in c.guards}
    ins = [x for x in v.inserts if len(x.args) > 1 and mentions(v, x.args[1], R)]
    loopins = [x for x in v.inserts if R.uid in [l.uid for l in x.loops] and (x in ins or len(x.args) > 1 and v.elems(x.args[1]) == [])]
    after = [x for x in ins if R.uid not in [l.uid for l in x.loops]]
    clears = [k for k in v.contribs(b) if k.op in ("clear", "del", "pop", "remove", "discard", "setitem", "delitem")]
    loopclears = [k for k in clears if R.uid in [l.uid for l in k.loops]]
    for x in loopins:
        hit = [k for k in loopclears if k.op in ("clear", "del", "delitem") and k.seq > taken(v, b, x) and [l.uid for l in k.loops] == [l.uid for l in x.loops] and same(k.guards, x.guards, outer)]
        rep.check(bool(hit), "flush", "database", x, "rows that were written stay in the buffer and are written again")
    for k in loopclears:
        hit = [x for x in loopins if taken(v, b, x) < k.seq and implies(k.guard(), guard(x))]
        late = [a for a in adds for x in hit if taken(v, b, x) < a.seq < k.seq]
        rep.check(bool(hit) and not late, "flush", "database", where_ast_(v, k), "the buffer is emptied although its rows were not written")
    if not loopins and not loopclears:
        rep.ok("flush", "database", "sampler.py", "everything is written at the end")
    good = []
    why = None
    for x in after:
        if x.seq < c.seq:
            continue
        base = [l.uid for l in v.e.objs[b].loops]
        ls = [l.uid for l in x.loops]
        ok = ls == base
        rest = [g for g, t in x.guards if t in SKIP and g not in outer and not leftover(g, b, R)]
        if not ok:
            why = why or "the rest of the rows is written in another loop"
        elif rest:
            why = f"what is left in the buffer is only written if {show(rest[0], 5)}"
        else:
            good.append(x)
    if not after:
        rep.bad("last", "database", "sampler.py", "rows left in the buffer at the end are never written")
    elif len(good) > 1:
        gone = [k for k in clears if good[0].seq < k.seq < good[1].seq]
        rep.check(bool(gone), "last", "database", good[1], "the rest of the rows is written twice")
    else:
        rep.check(bool(good), "last", "database", after[0], why)
    for x in ins:
        through = {x.args[1]} | {l.term.a[0] for k in v.contribs(x.args[1]) for l in k.loops}
        for t in v.deep(x.args[1]):
            if t.op == "slice" and t.a[0] is b:
                rep.bad("last", "database", x, "only a part of the buffer is written")
        for k in v.contribs(x.args[1]) if x.args[1].op == "obj" else ():
            for t in through | ({k.val} if k.op == "extend" else set()):
                if t.op == "call" and show(t.a[0], 3).endswith("dict.fromkeys") and t.a[1] and (t.a[1][0] is b or mentions(v, t.a[1][0], R)):
                    rep.bad("last" if x in after else "flush", "database", x, "equal rows are written once only")
                q = t.a[1] if t.op == "view" else t
                if q.op == "obj" and v.e.objs[q].kind == "dict" and any(c.op == "set" and c.key is not None and mentions(v, c.key, R) for c in v.contribs(q)):
                    rep.bad("last" if x in after else "flush", "database", x, "equal rows are written once only")
        for t in through:
            if t.op == "obj" and v.e.objs[t].kind == "list" and t is not b and t.a[0] > R.uid:
                for k in v.contribs(t):
                    if any(l.term is R.term for l in k.loops):
                        if any(l.unordered for l in k.loops if l.term is R.term):
                            rep.bad("last" if x in after else "flush", "database", x, "equal rows are written once only")
                        own = {g for g, _ in x.guards}
                        fl = [g for g, tag in k.guards if tag in SKIP and g not in own and g not in outer and not any(equivalent(g, not_(y.guard())) or implies(not_(y.guard()), g) or _neg(g, y, outer) for y in loopclears)]
                        if fl:
                            rep.bad("last" if x in after else "flush", "database", x, f"a buffered row is only written if {show(fl[0], 5)}")


def taken(v, b, x):
    """When the rows a statement writes were taken from the buffer."""
    r = x.args[1] if len(x.args) > 1 else b
    if r is not b and r.op == "obj" and v.e.objs[r].kind == "list" and r.a[0] > b.a[0]:
        return min(x.seq, max((c.seq for c in v.contribs(r)), default=x.seq))
    return x.seq


def _neg(g, k, outer):
    own = and_(*[q for q, t in k.guards if q not in outer])
    return g is not_(own) or equivalent(g, not_(own))


def where_ast_(v, k):
    return f"sampler.py:{getattr(k.node, 'lineno', '?')}"


def mentions(v, t, R):
    """Rows of this loop can be part of a value."""
    e = mk("at", R.term.a[0], R.term)
    return e in v.deep(t)


def leftover(g, b, R):
    """The condition that something is left in the buffer."""
    if g.op == "exists":
        return any(t is R.term for t in subterms(g))
    if g.op == "truth" and g.a[0] is b:
        return True
    ln = mk("call", ext("builtins.len"), (b,), ())
    if g.op in ("lt", "eq", "not", "le"):
        ats = atoms(g)
        for a in ats:
            if ln in set(subterms(a)):
                other = [t for t in a.a if isinstance(t, T) and t is not ln]
                if not (len(other) == 1 and other[0].op == "const" and cval(other[0]) == 0):
                    return False
            else:
                return False
        return True
    return False


def directory(ctx, rep):
    v = SV(ctx, "directory")
    left_out(v, rep, "directory")
    writes = [x for x in v.fx if x.kind == "call" and x.name in (".write", ".writelines", "builtins.print") and row_loops(v, x.loops)]
    if not v.dumps:
        broken("no row output found for directory output")
    if len(v.dumps) > 1:
        rep.unk("line", "directory", v.dumps[1], "rows are written in several places")
    for x in v.dumps:
        if not row_loops(v, x.loops):
            rep.unk("row", "directory", x, "rows are written together")
            rep.unk("line", "directory", x, "rows are written together")
            continue
        once(v, rep, "directory", x, x.guards, list(x.loops))
        if x.name == "json.dump":
            f = v.xkw(x, "fp", 1)
            nl = [y for y in writes if y.recv is f or v.xkw(y, "file") is f]
            line(v, rep, x, f, nl)
        else:
            nl = [y for y in writes if any(t is x.result for a in y.args for t in v.deep(a))]
            if not nl:
                rep.unk("line", "directory", x, "not written directly")
                continue
            f = nl[0].recv if nl[0].name != "builtins.print" else v.xkw(nl[0], "file")
            line(v, rep, x, f, nl + [y for y in writes if y not in nl and (y.recv is f or v.xkw(y, "file") is f)])
        for k, val in x.kw:
            if k == "indent" and any(cv(z) is not None for _, z in v.alts(val)):
                rep.bad("line", "directory", x, "a row is spread over several lines")
            if k == "skipkeys" and val is not FALSE and cv(val):
                rep.bad("line", "directory", x, "values can be left out")


def text_of(v, y, x):
    """What a write adds to the file: parts of text around the dumped row."""
    out = ""
    for a in y.args:
        out += flat(a, x)
    if y.name == "builtins.print":
        e = v.xkw(y, "end")
        out += "\n" if e is None else flat(e, x)
    return out


def flat(t, x):
    if t.op == "const" and isinstance(cval(t), str):
        return cval(t)
    if x.result is not None and t is x.result:
        return "\0"
    if t.op == "bin" and t.a[0] == "+":
        return flat(t.a[1], x) + flat(t.a[2], x)
    if t.op == "fstr":
        return "".join(a if isinstance(a, str) else flat(a, x) for a in t.a)
    if t.op == "attr" and t.a[1] == "linesep":
        return "\n"
    if t.op == "ext" and t.a[0] == "os.linesep":
        return "\n"
    return "?"


def line(v, rep, x, f, nl):
    if f is None or f.op != "call":
        rep.unk("line", "directory", x, "file not found")
        return
    inside = [y for y in nl if [l.uid for l in y.loops] == [l.uid for l in x.loops]]
    txt = ""
    if x.name == "json.dump":
        evs = sorted([(x.seq, "\0")] + [(y.seq, text_of(v, y, x)) for y in inside])
    else:
        evs = sorted((y.seq, text_of(v, y, x)) for y in inside)
    cond = [y for y in inside if not same(y.guards, x.guards, set())]
    txt = "".join(s for _, s in evs)
    if cond:
        rep.bad("line", "directory", cond[0], f"the line is only ended if {show(guard(cond[0]), 5)}")
    elif "?" in txt:
        rep.unk("line", "directory", x, "text around the row not known")
    elif txt not in ("\0\n",):
        rep.bad("line", "directory", x, "a row is not on a line of its own" if "\n" not in txt.replace("\0\n", "", 1) else "lines without rows are written")
    else:
        rep.ok("line", "directory", x)
    opens = [y for y in v.opens if y.result is f]
    if not opens:
        rep.unk("line", "directory", x, "the file is not opened here")
        return
    y = opens[0]
    if row_loops(v, y.loops):
        rep.bad("line", "directory", y, "the file is opened again for every row, losing those before")
        return
    mode = v.xkw(y, "mode", 1 if y.name != ".open" else 0)
    for _, m in v.alts(mode) if mode is not None else [(TRUE, mk("const", "r"))]:
        m = cv(m)
        if isinstance(m, str):
            rep.check("w" in m or "x" in m, "line", "directory", y, f"the file is opened with mode {m!r}: rows of earlier runs stay in it")
    path = y.args[0] if y.name != ".open" else y.recv
    outer = [l for l in y.loops]
    keys = {k for r in v.reads for k in v.query_keys(r)}
    if outer and not any(v.varies(path, l.term) for l in outer):
        rep.bad("line", "directory", y, "all tables are written to the same file")
        return
    cut = [t for t in subterms(path) if (v.is_call(t, ".lower", ".upper", ".casefold", ".title", ".capitalize", ".strip", ".lstrip", ".rstrip") and t.a[0].op == "attr" and any(k in set(subterms(t.a[0].a[0])) for k in keys)
                                         or t.op == "slice" and any(k in set(subterms(t.a[0])) for k in keys) and any(q.op == "const" and isinstance(cval(q), int) for q in t.a[1:3]))]
    if cut:
        rep.bad("line", "directory", y, f"tables whose names only agree in {show(cut[0], 3)} share a file")
        return
    # the name distinguishes schema and table
    part = lambda t: t.op == "item" and t.a[1].op == "const" and any(k in set(subterms(t.a[0])) for k in keys)
    d = set(subterms(path))
    top = set(subterms(path, stop=part))
    whole = [k for k in keys if k in top]
    if not whole and keys:
        parts = {cval(t.a[1]) for t in d if part(t)}
        if parts and parts != {0, 1}:
            rep.bad("line", "directory", y, "tables of the same name in different schemas share a file")
            return
    rep.ok("line", "directory", y)
