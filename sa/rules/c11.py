"""Generators of keys in the destination after rows were written.

`update`: a statement sets the generator of a written table whenever a key was
written on a dialect that does not do so itself, and never moves it backwards;
nothing else decides whether it is sent, and it is committed.  `text`: it sets the generator to the
value it is given.  `largest`: that value is the largest key of all rows, by a
decision table of one step of the loop.  `index`: the key is found in the row
by the name of the generated column.  `final`: it is read after the row's last
change.  `after`: all rows are written before.  `table`: the table is the one
written, by its quoted name.
"""

import itertools
import re

from ._s import *  # noqa
from ..table import Table, Undecided
from ._pl import Arith

FLOORS = {"update": 5, "text": 1, "largest": 4, "index": 1, "final": 1, "after": 1, "table": 2}


def check(ctx, rep):
    v = SV(ctx, "database")
    us = [(x, t) for x in v.fx if x.name in EXEC and x.recv is not None and x.args and "dest" in v.sides(x.recv) for t in [text(v, x.args[0])] if t and re.search(r"setval\s*\(|restart\s+with", t, re.I)]
    if not us:
        ys = [x for x in v.fx if x.args and any("setval" in show(t, 4) for a in x.args for t in v.deep(a) if t.op in ("call", "ext", "const"))]
        rep.check(None if ys else False, "update", "generator", "sampler.py", "generators of keys are never advanced")
        return fill(rep, FLOORS, "sampler.py")
    if len(us) > 1:
        return fill(rep, FLOORS, us[0][0])
    x, t = us[0]
    val = bind(v, rep, x, t)
    names(v, rep, x, val, "")
    for y in v.fx:
        if y.name in EXEC and y.args and re.search(r"last_value|currval|pg_get_serial_sequence", text(v, y.args[0]) or "", re.I) and y is not x:
            names(v, rep, y, None, " of position")
    late = [y for y in v.inserts if y.seq > x.seq]
    rep.check(None if not v.inserts else not late, "after", "rows", x, "rows are written after the generator was set")
    rep.check(committed(v, x), "update", "commit", x, "the transaction that sets the generator is not always committed")
    if val is not None:
        V = largest(v, rep, x, val)
        if V is not None:
            update(v, rep, x, V, t, val)
    fill(rep, FLOORS, x)


def text(v, t):
    if t.op == "call" and is_ext(t.a[0], "sqlalchemy.text", "sqlalchemy.DDL") and t.a[1]:
        return text(v, t.a[1][0])
    if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("bindparams", "execution_options", "columns"):
        return text(v, t.a[0].a[0])
    if t.op == "const" and isinstance(cval(t), str):
        return cval(t)
    if t.op == "fstr":
        return "".join(p if isinstance(p, str) else f"<{show(p, 2)}>" for p in t.a)
    return None


def params(v, x):
    out = {}
    ts = list(x.args[1:])
    q = x.args[0]
    while q.op == "call" and q.a[0].op == "attr":
        if q.a[0].a[1] == "bindparams":
            out.update({k: a for k, a in (q.a[2] if len(q.a) > 2 else ())})
        q = q.a[0].a[0]
    for p in ts:
        if p.op == "obj" and v.e.objs[p].kind == "dict":
            for c in v.contribs(p):
                if c.op in ("set", "default") and c.key is not None and c.key.op == "const":
                    out[cval(c.key)] = c.val
    return out


# ---------------------------------------------------------------------- text


def bind(v, rep, x, t):
    """The value the generator is set to, as it was given to the statement."""
    m = re.search(r"setval\s*\((.*)", t, re.I | re.S)
    ps = params(v, x)
    if not m:
        rep.unk("text", "statement", x, "statement not recognised")
        return None
    # arguments of the function
    depth, args, cur, end = 0, [], "", None
    for i, ch in enumerate(m.group(1)):
        if ch == "(":
            depth += 1
        if ch == ")":
            if depth == 0:
                end = i
                break
            depth -= 1
        if ch == "," and depth == 0:
            args.append(cur.strip())
            cur = ""
        else:
            cur += ch
    args.append(cur.strip())
    if len(args) < 2:
        rep.unk("text", "statement", x, "statement not recognised")
        return None
    rest = m.group(1)[end:] if end is not None else ""
    if len(args) > 2 and re.sub(r"::\w+$", "", args[2]).strip("'").lower() in ("false", "f"):
        rep.bad("text", "statement", x, "the next key generated is the largest key written")
        return None
    a = re.fullmatch(r"(?:CAST\s*\(\s*)?:(\w+)(?:\s+AS\s+\w+\s*\))?(?:::\w+)?\s*(?:([-+])\s*(\d+))?", args[1], re.I)
    if not a or a.group(1) not in ps:
        f = re.search(r":(\w+)", args[1])
        rep.unk("text", "statement", x, "value not recognised")
        return ps.get(f.group(1)) if f else None
    if a.group(2) == "-" and int(a.group(3)):
        rep.bad("text", "statement", x, "the generator is set below the largest key")
    else:
        cond = [c for c in re.findall(r"(\w+)\s*(<=|<|>=|>|=)\s*:" + a.group(1), rest)]
        if cond and any(n.lower() in ("seqmin", "min_value") and o == "<=" for n, o in cond) and len(cond) == 1 or not cond:
            rep.ok("text", "statement", x)
        else:
            rep.unk("text", "statement", x, "condition within the statement")
    return ps[a.group(1)]


# --------------------------------------------------------------------- names


def written(v):
    """Records of the tables rows are written to."""
    dd = dest_dicts(v)
    out = set()
    for x in v.inserts:
        for t in v.deep(x.args[0]):
            if t.op == "attr" and t.a[1] == "table_obj" and t.a[0].op == "item" and t.a[0].a[0] in dd:
                out.add(t)
    return out


def is_autoinc(t):
    return t.op == "attr" and t.a[1] in ("autoincrement_column", "_autoincrement_column")


def names(v, rep, x, val, at):
    ps = params(v, x)
    tabs = written(v)
    ps = {k: a for k, a in ps.items() if a is not val}
    tab = [a for k, a in ps.items() if any(t in tabs or t.op == "attr" and t.a[1] == "table_obj" for t in subterms(a)) and not any(is_autoinc(t) for t in subterms(a))]
    col = [a for k, a in ps.items() if any(is_autoinc(t) for t in subterms(a))]
    fixed_col = [a for a in tab if a.op == "attr" and a.a[1] in ("name", "key") and a.a[0].op == "item" and any(t.op == "attr" and t.a[1] in ("primary_key", "columns", "c") for t in subterms(a.a[0]))]
    tab = [a for a in tab if a not in fixed_col]
    if len(tab) != 1:
        rep.unk("table", "table" + at, x, "table not recognised")
    else:
        a = tab[0]
        quoted = a.op == "call" and a.a[0].op == "attr" and a.a[0].a[1] in ("format_table", "quote_identifier")
        if quoted and a.a[0].a[1] == "format_table" and a.a[1]:
            own = a.a[1][0] in tabs
            kw = dict(a.a[2]) if len(a.a) > 2 else {}
            us = kw.get("use_schema")
            if us is not None and us.op == "const" and not cval(us):
                rep.bad("table", "table" + at, x, "the table is named without its schema")
            else:
                rep.check(own if own else False if tabs and a.a[1][0].op == "attr" else None, "table", "table" + at, x, "another table than the one written")
        else:
            raw = a.op == "fstr" and all(isinstance(p, str) or p.op == "attr" for p in a.a) or a.op == "attr" or a.op == "call" and is_ext(a.a[0], "builtins.str")
            rep.check(False if raw else None, "table", "table" + at, x, f"the name of the table is not quoted: {show(a, 5)}")
    if not col and fixed_col:
        rep.bad("table", "column" + at, x, f"the generator of {show(fixed_col[0], 4)} is advanced")
    elif len(col) != 1:
        rep.unk("table", "column" + at, x, "column not recognised")
    else:
        a = col[0]
        if a.op == "attr" and a.a[1] in ("name", "key") and is_autoinc(a.a[0]):
            rep.check(a.a[0].a[0] in tabs if a.a[1] == "name" else None, "table", "column" + at, x, "the column of another table")
        else:
            q = a.op == "call" and a.a[0].op == "attr" and a.a[0].a[1] in ("format_column", "quote", "quote_identifier")
            rep.check(False if q else None, "table", "column" + at, x, "a quoted column name is not found")


# --------------------------------------------------------------------- value


def kept(v, val):
    """Values val is computed from that loops carry."""
    return [t for t in subterms(val, stop=lambda t: t.op == "fin") if t.op == "fin" and t.a[0].op == "mu"]


def largest(v, rep, x, val):
    fs = list(dict.fromkeys(kept(v, val)))
    if len(fs) != 1:
        rep.unk("largest", "value", x, f"value not recognised: {show(val, 4)}")
        return None
    V = fs[0]
    if V is not val:
        pos = [t for t in subterms(val) if t in position(v)]
        got, odd = outcomes(v, val, {V: 5, **{t: 3 for t in pos}})
        if got is not None and pos:
            more, odd2 = outcomes(v, val, {V: 5, **{t: None for t in pos}})
            got = got + more if more is not None and odd2 == odd == [] else None
        if got is None or not all(isinstance(g, int) for g in got):
            rep.unk("largest", "value", x, f"value not recognised: {show(val, 4)}")
            return None
        if all(g < 5 for g in got) or settings(v, [g >= 5 for g in got], True, odd):
            rep.bad("largest", "value", x, "the generator is set below the largest key")
            return V
        if any(g < 5 for g in got):
            rep.unk("largest", "value", x, f"value not recognised: {show(val, 4)}")
            return V
    chain = []
    t = V
    while t.op == "fin" and t.a[0].op == "mu":
        mu = t.a[0]
        chain.append(mu)
        b = v.e.backs.get(mu)
        if b is None:
            break
        if b.op == "fin" and b.a[0].op == "mu":
            if b.a[0].a[2] is not mu:
                if b.a[0].a[2].op == "const":
                    rep.bad("largest", "all rows", x, "only the last row counts")
                    return V
                break
            t = b
            continue
        steps(v, rep, x, chain, b)
        return V
    rep.unk("largest", "value", x, f"value not recognised: {show(V, 4)}")
    return V


def key_reads(v, b):
    """Values read from a row at the position of the generated column."""
    out = {}
    for t in subterms(b, stop=lambda t: t.op in ("item", "at") and any(is_autoinc(y) for y in subterms(t.a[1]))):
        if t.op == "item" and any(is_autoinc(y) for y in v.deep(t.a[1])):
            out[t] = t.a[1]
    return out


def config_only(v, a):
    """A condition about settings, not about values."""
    ts = list(subterms(a))
    if any(t.op == "attr" and t.a[1] == "primary_key" for t in ts) and a.op in ("lt", "eq"):
        return True
    if a.op in ("truth", "lt", "eq") and all(t.op == "const" or t.op in ("at", "idx") and (t.a[0] if t.op == "at" else t.a[0].a[0]).op == "range" for t in a.a):
        return True  # which copy of the row it is
    return any(attr_path(t) and attr_path(t)[0] in ("config", "plan", "truncate", "create") for t in ts) and not any(t.op in ("mu", "fin", "obj", "loop") for t in ts)


def known(v, a):
    """Truth of conditions that must hold for there to be anything to do, else None."""
    if a.op == "exc":
        return False
    ts = list(subterms(a))
    if a.op == "eq" and any(t.op == "attr" and t.a[1] in ("dialect",) for t in ts):
        for p, q in (a.a, a.a[::-1]):
            if p.op == "const" and isinstance(cval(p), str):
                return cval(p) == "postgresql"
    if a.op == "in" and any(t.op == "attr" and t.a[1] == "dialect" for t in subterms(a.a[0])):
        return True if any(t.op == "const" and cval(t) == "postgresql" for t in subterms(a.a[1])) else None
    if a.op == "is" and (is_autoinc(a.a[0]) or is_autoinc(a.a[1])):
        return False
    if a.op == "truth" and is_autoinc(a.a[0]):
        return True
    if a.op == "in" and a.a[0].op == "attr" and is_autoinc(a.a[0].a[0]):
        return True
    return None


def table(v, terms, roots):
    r = dict(roots)
    odd = []
    seen = set()
    todo = list(terms)
    while todo:
        t = todo.pop()
        if t in seen or t in r:
            continue
        seen.add(t)
        if t.op in ("is", "eq", "in", "truth", "lt", "exc", "exists"):
            k = known(v, t)
            if k is not None:
                r[t] = k
                continue
            if t.op in ("exc", "exists", "in") or not any(q in r for q in subterms(t)):
                odd.append(t)
                continue
        todo += [q for q in v._flat(t.a) if isinstance(q, T)]
    return r, odd


class Max(Arith):
    def call(self, t):
        f, args = t.a[0], t.a[1]
        if is_ext(f, "builtins.max", "builtins.min") and len(args) >= 2:
            a = [self.ev(q) for q in args]
            if all(isinstance(q, int) for q in a):
                return (max if f.a[0].endswith("max") else min)(a)
            raise Undecided(t)
        return super().call(t)


def outcomes(v, term, roots, condition=False):
    """(values the term can take, the conditions that are not known)"""
    r, odd = table(v, [term], roots)
    if len(odd) > 5:
        return None, odd
    out = []
    for vs in itertools.product((True, False), repeat=len(odd)):
        tb = Max(v, {**r, **dict(zip(odd, vs))})
        try:
            out.append(tb.true(term) if condition else tb.ev(term))
        except (Undecided, TypeError):
            out.append("?")
    return out, odd


def settings(v, got, want, odd):
    """Under some settings the outcome is never the right one."""
    vs = list(itertools.product((True, False), repeat=len(odd)))
    mine = [i for i, a in enumerate(odd) if config_only(v, a) or unrelated(v, a)]
    return any(all(g != want for g, a in zip(got, vs) if tuple(a[i] for i in mine) == c) for c in {tuple(a[i] for i in mine) for a in vs})


def unrelated(v, a):
    """Looks up what is known about the table, not its rows, columns or generator."""
    d = a.a[0].a[0] if a.op == "truth" and a.a[0].op == "item" else a.a[1] if a.op == "in" else None
    if d is None or d.op != "obj" or v.e.objs[d].kind != "dict":
        return False

    def row(t):
        return t.op in ("exc", "exists") or is_autoinc(t) or t.op in ("mu", "loop") and v.is_row(mk("at", t.a[0].a[0] if t.op == "mu" else t.a[0], t.a[0] if t.op == "mu" else t))

    return not any(row(t) for t in subterms(a)) and not any(is_autoinc(t) for c in v.contribs(d) for k in (c.key, c.val) if k is not None for t in subterms(k))


def positions(v, b):
    """Positions of the generated column within the columns written."""
    return {t for t in subterms(b) if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("index", "find") and any(is_autoinc(y) for q in t.a[1] for y in subterms(q))}


def steps(v, rep, x, chain, b):
    mu = chain[-1]
    init = chain[0].a[2]
    reads = key_reads(v, b)
    if not reads:
        rep.unk("largest", "value", x, "the key of a row is not recognised")
        return
    if init is not NONE and not (init.op == "const" and isinstance(cval(init), int) and cval(init) <= 0):
        rep.unk("largest", "first", x, "start value not recognised")
        return
    rows(v, rep, x, chain)
    for cur, new, want in ((None if init is NONE else cval(init), 5, 5), (3, 5, 5), (7, 5, 7), (5, 5, 5)):
        got, odd = [], []
        for pos in (0, 3):
            roots = {mu: cur, **{t: new for t in reads}, **{t: pos for t in positions(v, b)}}
            g, odd = outcomes(v, b, roots)
            if g is None:
                got = None
                break
            got.append(g)
        if got and all(q == want for q in got[0]):
            got = got[1]
        elif got:
            got = got[0]
        inst = f"{new} after {cur}"
        if got is None or "?" in got:
            rep.unk("largest", inst, x, "value not decided")
        elif all(g == want for g in got):
            rep.ok("largest", inst, x)
        elif all(g != want for g in got):
            rep.bad("largest", inst, x, f"{got[0]} instead of {want}")
        else:
            rep.check(False if settings(v, got, want, odd) else None, "largest", inst, x, f"keys only count depending on {show(odd[0], 5)}")
    index(v, rep, x, reads)
    final(v, rep, x, reads)


def rows(v, rep, x, chain):
    """All rows take part."""
    l = chain[0].a[0]
    if v.is_row(mk("at", l.a[0], l)):
        rep.ok("largest", "rows", x)
    else:
        rep.check(None, "largest", "rows", x, "loop over the rows not recognised")


def column_lists(v):
    """Lists of names the values of a written row are matched with."""
    out = set()
    for x, val in v.sinks():
        for d in v.row_dicts(val):
            for c in v.contribs(d):
                if c.key is not None:
                    for _, t in v.alts(c.key):
                        if t.op == "at":
                            out |= {y for _, y in v.alts(t.a[0])}
    return out


def index(v, rep, x, reads):
    cols = column_lists(v)
    bad, unk, n = None, None, 0
    for i in set(reads.values()):
        cs = [t for t in subterms(i) if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] == "index"]
        if not cs:
            rk = [t for t in subterms(i) if t.op in ("rankof", "rank")]
            unk = "position not recognised"
            continue
        for c in cs:
            n += 1
            a = c.a[1][0]
            if not (a.op == "attr" and a.a[1] in ("name", "key") and is_autoinc(a.a[0])):
                unk = f"position of {show(a, 4)}"
            elif a.a[0].a[0] not in written(v):
                bad = "position of the generated column of another table"
            base = strip_list(v, c.a[0].a[0])
            for _, s in v.alts(base):
                if cols and strip_list(v, s) not in {strip_list(v, q) for q in cols}:
                    raw = s.op == "call" and s.a[0].op == "attr" and s.a[0].a[1] in ("keys",) or s.op == "attr"
                    if raw:
                        bad = f"position within {show(s, 4)}, not within the columns written"
                    else:
                        unk = unk or f"position within {show(s, 4)}"
    rep.check(False if bad else None if unk or not n else True, "index", "key", x, bad or unk or "")


def strip_list(v, t):
    """The list t is a plain copy of."""
    for _ in range(8):
        if t.op == "call" and is_ext(t.a[0], "builtins.list", "builtins.tuple") and len(t.a[1]) == 1:
            t = t.a[1][0]
        elif t.op == "obj" and v.e.objs[t].kind in ("list", "tuple") and len(v.contribs(t)) == 1 and v.contribs(t)[0].op == "extend":
            t = v.contribs(t)[0].val
        else:
            break
    return t


def final(v, rep, x, reads):
    idx = set(reads.values())
    rds = [(s, d) for s, d, k, r, n in v.run.lookups if k in idx or r in reads]
    for r in reads:
        for _, d in v.alts(r.a[0]):
            if v.is_row(d):
                return rep.bad("final", "key", x, "the key is read from the row before filters")
    if not rds:
        return rep.unk("final", "key", x, "reading of the key not found")
    last = max(s for s, _ in rds)
    bases = {d for r in reads for _, d in v.alts(r.a[0])} | {d for _, t in rds for _, d in v.alts(t)}
    late = []
    for ed in edits(v):
        if ed.seq is None or ed.seq <= last or ed.key is None:
            continue
        if ed.row in bases and not any(c.key is None for c in v.contribs(ed.row) if c.seq == ed.seq):
            late.append(ed)
    if late:
        e = late[0]
        rep.bad("final", "key", e.where, "the row still changes after its key was read")
    else:
        rep.ok("final", "key", x)


# -------------------------------------------------------------------- update


def position(v):
    """Results that tell how far a generator is."""
    return {y.result for y in v.fx if y.name in EXEC and y.result is not None and y.args and re.search(r"last_value|currval", text(v, y.args[0]) or "", re.I)}


def update(v, rep, x, V, t, val):
    mine = {g for y in v.inserts for g, _ in y.guards}
    loop = [l for l in x.loops if v.is_row(mk("at", l.term.a[0], l.term))]
    if loop:
        return rep.unk("update", "loop", x, "sent for every row")
    gs = [g for g, tag in x.guards if tag in SKIP and g not in mine]
    # ways the current position enters the conditions
    cur = set()
    for g in gs:
        for a in atoms(g):
            for s in subterms(a):
                if s.op in ("is", "lt", "eq", "truth"):
                    for o in v._flat(s.a):
                        if isinstance(o, T) and o.op != "const" and any(q in position(v) for q in subterms(o)) and not any(q is V for q in subterms(o)):
                            cur.add(o)
    cond = and_(*gs)
    insql = bool(re.search(r"greatest|max\s*\(|last_value", t, re.I))
    # the position of another sequence does not count
    for inst, c, n, want in (("first", None, 5, True), ("behind", 3, 5, True), ("ahead", 9, 5, False), ("no key", 3, None, False), ("behind by one", 4, 5, True)):
        if inst == "ahead" and insql:
            rep.unk("update", inst, x, "decided within the statement")
            continue
        roots = {V: n}
        for o in cur:
            for s in subterms(o):
                if s in position(v):
                    roots[o] = c
        got, odd = outcomes(v, cond, roots, True)
        if inst == "ahead" and got is not None and val is not V:
            to, _ = outcomes(v, val, {**roots, **{s: c for s in subterms(val) if s in position(v)}})
            if to is not None and len(to) == 1 and isinstance(to[0], int) and to[0] >= c:
                got = [False]
        if got is None or "?" in got:
            rep.unk("update", inst, x, "condition not decided")
        elif all(g == want for g in got):
            rep.ok("update", inst, x)
        elif all(g != want for g in got):
            rep.bad("update", inst, x, "the generator is not advanced" if want else "a generator that is ahead is moved backwards" if n is not None else "the generator is set although no key was written")
        else:
            if not want:
                rep.check(None, "update", inst, x, "condition not decided")
                continue
            rep.check(False if settings(v, got, want, odd) else None, "update", inst, x, f"the generator is only advanced depending on {show(odd[0], 5)}")
