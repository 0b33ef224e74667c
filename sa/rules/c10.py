"""What happens to a row whose key exists already.

`statement`: for every dialect, strategy, table with or without key and other
columns, and passthrough table in merge mode, the statement that is executed
(or the error that is raised) is worked out from the conditions under which
the analysed code builds it, and compared with what the configuration asks
for.  `columns`: a replacing statement sets the sampled columns that are not
part of the key, each to the value of the new row.  `table`: rows are inserted
into the table looked up for them.
"""

import itertools

from ..rule import *  # noqa
from ..table import Opq, Rec, Table, Undecided
from ._s import *  # noqa

FLOORS = {"statement": 12, "columns": 3, "table": 1}
DIALECTS = ("sqlite", "postgresql", "mysql", "other")
STRATEGIES = ("error", "skip", "replace")
STRAT, MERGE, PASS = ("config", "output", "conflict_strategy"), ("config", "output", "merge"), ("plan", "passthrough")
INSERT = ("insert", "Insert")


class CV(SV):
    def __init__(self, ctx):
        super().__init__(ctx, "database")
        self.comp = {}
        for cls, ds, fn in ctx.compilers():
            for d in ds or ("other",):
                self.comp.setdefault(cls, {})[d] = fn

    def compile(self, inst, d):
        """(statement term, [raise effects]) for a custom statement on a dialect."""
        fs = self.comp.get(self.cls(inst))
        if not fs:
            return None
        fn = fs.get(d) or fs.get("other")
        if fn is None:
            return None
        cls = self.cls(inst)
        r = self.ctx.compiled(cls, fn)
        me = mk("sym", "statement")
        fields = self.inst.get(inst, {})
        mp = {mk("attr", me, k): x for k, x in fields.items()}
        sub = lambda t: subst(t, mp)
        raises = [(sub(guard(x)), x) for x in r.effects if x.kind == "raise"]
        ret = r.ret
        out = []
        for g, a in self.alts(ret) if ret is not None else []:
            if self.is_call(a, ".process", ".visit_insert") and a.a[1]:
                out.append((sub(g), sub(a.a[1][0])))
            else:
                out.append((sub(g), None))
        return out, raises, mp, View(r)


def truth_atoms(v, t):
    return atoms(t)


class Case(Table):
    """One row of the decision table."""

    def __init__(self, v, d, s, pk, rest, merge, exempt):
        super().__init__(v, {literal(STRAT): s, literal(MERGE): merge})
        self.d, self.pk, self.rest, self.exempt = d, pk, rest, exempt

    def _ev(self, t):
        if t in self.roots:
            return self.roots[t]
        if t.op == "attr" and t.a[1] == "primary_key":
            return ["k", "l"][: self.pk]
        if t.op == "attr" and t.a[1] == "name" and t.a[0].op == "attr" and t.a[0].a[1] == "dialect":
            return self.d
        if t.op == "in" and attr_path(t.a[1]) == PASS:
            return bool(self.exempt)
        if t.op == "truth" and t.a[0].op == "obj" and about_key(self.v, t.a[0]):
            return self.rest
        if t.op == "call" and is_ext(t.a[0], "builtins.len") and t.a[1] and t.a[1][0].op == "obj" and about_key(self.v, t.a[1][0]):
            return 1 if self.rest else 0
        if t.op == "truth" and t.a[0].op == "bin" and t.a[0].a[0] == "-" and any(s.op == "attr" and s.a[1] == "primary_key" for s in self.v.deep(t.a[0])):
            return self.rest
        if t.op == "exists" and any(c.op == "not" and c.a[0].op == "in" and any(s.op == "attr" and s.a[1] == "primary_key" for s in self.v.deep(c.a[0].a[1])) for c in conj(t.a[1])):
            return self.rest
        return super()._ev(t)


def about_key(v, o):
    """A container that leaves out the key columns."""
    for c in v.contribs(o):
        if any(s.op == "attr" and s.a[1] == "primary_key" for x in [c.key, c.val] + [l.term for l in c.loops] if x is not None for s in subterms(x)):
            return True
        if any(s.op == "attr" and s.a[1] == "primary_key" for g, _ in c.guards for l in c.loops[-1:] if v.varies(g, l.term) for s in v.deep(g)):
            return True
    return False


def pick(tb, t):
    while t.op == "phi":
        t = t.a[1] if tb.true(t.a[0]) else t.a[2]
    return t


def statement(v, tb, t):
    """("raise"|kind, dialect of the construct, detail) of the statement executed."""
    t = pick(tb, t)
    if t.op == "obj" and v.cls(t) in v.comp:
        c = v.compile(t, tb.d)
        if c is None:
            raise Undecided(t)
        alts, raises, mp, rv = c
        und = None
        for g, x in raises:
            if tb.true(g):
                return ("raise", None, None, x)
        for g, a in alts:
            if tb.true(g):
                if a is None:
                    raise Undecided(t)
                k = statement(v, tb, a)
                return k
        raise Undecided(t)
    ms = []
    while t.op == "call" and t.a[0].op == "attr":
        ms.append((t.a[0].a[1], t))
        t = pick(tb, t.a[0].a[0])
    ms.reverse()
    if t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0].split(".")[-1] in INSERT:
        n = t.a[0].a[0]
        fam = next((d for d in ("sqlite", "postgresql", "mysql") if f".{d}." in f".{n}."), "any")
        tab = t.a[1][0] if t.a[1] else None
    elif t.op == "attr" or t.op == "item":
        # table.insert()
        if ms and ms[0][0] == "insert":
            fam, tab = "any", t
            ms = ms[1:]
        else:
            raise Undecided(t)
    else:
        raise Undecided(t)
    kind, detail = "error", None
    for n, c in ms:
        a = [cv(x) for x in c.a[1]]
        if n == "on_conflict_do_nothing":
            kind = "skip"
        elif n in ("on_conflict_do_update", "on_duplicate_key_update"):
            kind, detail = "replace", c
        elif n in ("prefix_with", "suffix_with") and v.kw(c, "dialect") is not None and v.kw(c, "dialect").op == "const" and cval(v.kw(c, "dialect")) not in (tb.d, "*"):
            pass
        elif n in ("prefix_with", "suffix_with"):
            if any(isinstance(x, str) and "IGNORE" in x.upper() for x in a):
                kind = "skip"
            elif any(isinstance(x, str) and "REPLACE" in x.upper() for x in a):
                kind = "replace row"
            elif not all(isinstance(x, str) for x in a):
                raise Undecided(c)
        elif n in ("values", "returning", "execution_options", "inline"):
            pass
        else:
            raise Undecided(c)
    return (kind, fam, detail, tab)


def want(d, s, pk, rest, exempt):
    if not pk:
        return "error"
    if exempt:
        s = "skip"
    if s == "replace" and not rest:
        s = "skip"
    if d == "other" and s != "error":
        return "raise"
    return s


def check(ctx, rep):
    v = CV(ctx)
    if not v.inserts:
        broken("no insert into the destination found")
    for n, x in enumerate(v.inserts):
        carried(v, rep, n, x)
        keys = {k for r in v.reads for k in v.query_keys(r)}
        for d in DIALECTS:
            for s in STRATEGIES:
                bad = und = None
                details = []
                for pk, rest, merge, exempt in itertools.product((1, 2, 0), (True, False), (True, False), (True, False)):
                    tb = Case(v, d, s, pk, rest, merge, exempt)
                    w = want(d, s, pk, rest, merge and exempt)
                    try:
                        k, fam, det, tab = statement(v, tb, x.args[0])
                    except Undecided as exc:
                        und = und or exc
                        k = mixed(v, (d, s, pk, rest, merge, exempt), x.args[0], w)
                        if k is not None:
                            bad = bad or k
                        continue
                    if k == w and (fam in (None, "any", d) or k == "error"):
                        if det is not None:
                            details.append((tb, det))
                        continue
                    what = f"{('no', 'a', 'a composite')[pk]} key, {'more' if rest else 'no more'} columns, {'passthrough' if exempt else 'sampled'}, {'merge' if merge else 'no merge'}"
                    bad = bad or (f"{k} instead of {w} for a table with {what}" if k != w else f"a {fam} statement is used for a table with {what}")
                inst = f"{d} {s} {n}"
                if bad:
                    rep.bad("statement", inst, x, bad)
                elif und is not None:
                    rep.unk("statement", inst, x, show(und.args[0], 5) if und.args and isinstance(und.args[0], T) else str(und))
                else:
                    rep.ok("statement", inst, x)
                for tb, det in details[:1]:
                    columns(v, rep, f"{d} {n}", x, d, tb, det)
        passthrough_key(v, rep, x, n, keys)
        table(v, rep, x, n)


def carried(v, rep, n, x):
    """What was chosen for one table is not used for the next."""
    i = x.args[0]
    for f in [i] + (list(v.inst.get(i, {}).values()) if i.op == "obj" else []):
        for t in subterms(f, stop=lambda y: y.op == "obj" and y is not i):
            m = t.a[0] if t.op == "fin" else t
            if m.op != "mu" or m.a[2] is not literal(STRAT):
                continue
            b = v.e.backs.get(m)
            if b is not None and any(a.op == "const" for _, a in v.alts(b)):
                rep.bad("statement", f"kept {n}", x, "the strategy chosen for one table is used for those after it")


def mixed(v, case, t, w):
    """The statement depends on a setting that should not matter."""
    conds = set()
    stack = [t]
    seen = set()
    while stack:
        y = stack.pop()
        if y in seen:
            continue
        seen.add(y)
        if y.op == "phi":
            conds |= atoms(y.a[0])
            stack += [y.a[1], y.a[2]]
        elif y.op == "obj" and v.cls(y) in v.comp:
            stack += list(v.inst.get(y, {}).values())
            c = v.compile(y, case[0])
            if c:
                for g, a in c[0]:
                    conds |= atoms(g)
                    if a is not None:
                        stack.append(a)
        elif y.op == "call" and y.a[0].op == "attr":
            stack.append(y.a[0].a[0])
    tb = Case(v, *case)
    free = []
    for c in conds:
        try:
            tb.true(c)
        except Undecided:
            free.append(c)
    if len(free) > 4 or not free:
        return None
    if not all(c.op in ("truth", "eq", "in", "lt", "is") for c in free):
        return None
    got, res = set(), {}
    for vals in itertools.product((True, False), repeat=len(free)):
        tb = Case(v, *case)
        tb.roots.update(dict(zip(free, vals)))
        try:
            k = statement(v, tb, t)[0]
        except Undecided:
            return None
        got.add(k)
        res[vals] = k
    if w not in got:
        return f"{'/'.join(got)} instead of {w}"
    for i, c in enumerate(free):
        about = any(y.op == "attr" and y.a[1] in ("primary_key", "conflict_strategy", "columns", "c") for y in subterms(c))
        if about or not any((attr_path(y) or ("",))[0] in ("config", "truncate", "create") for y in subterms(c)) and not any(y.op == "at" and y.a[0].op == "range" or y.op == "attr" and y.a[1] in ("foreign_keys", "foreign_key_constraints", "indexes", "constraints", "comment", "info", "schema", "name", "fullname", "description") and y.a[0].op != "at" and not (y.a[0].op == "attr" and y.a[0].a[1] == "dialect") for y in subterms(c)):
            continue
        for vals, k in res.items():
            o = res[vals[:i] + (not vals[i],) + vals[i + 1:]]
            if k == w and o != w:
                return f"{o} instead of {w} depending on {show(c, 5)}"
    return None


def passthrough_key(v, rep, x, n, keys):
    ts = set()
    i = x.args[0]
    for f in [i] + (list(v.inst.get(i, {}).values()) if i.op == "obj" else []):
        for t in subterms(f, stop=lambda y: y.op == "obj" and y is not i):
            if t.op == "in" and attr_path(t.a[1]) == PASS:
                ts.add(t)
    for t in ts:
        rem = any(attr_path(s) == ("config", "output", "remap") for s in subterms(t.a[0]))
        rep.check(False if rem else True if t.a[0] in keys | {a for k in keys for _, a in v.alts(k)} else None, "statement", f"passthrough {n}", x, "passthrough tables are looked up by their name in the destination")


def rowkeys(v, x):
    """Sequences whose elements are the columns of the rows written."""
    out = set()
    for y, val in v.sinks():
        if y is not x:
            continue
        for o in v.row_dicts(val):
            for c in v.contribs(o):
                if c.key is not None and c.op in ("set", "setitem", "add"):
                    for g, k in v.alts(c.key):
                        if k.op == "at":
                            for h, b in v.alts(k.a[0]):
                                out.add(b)
    return out


def columns(v, rep, inst, x, d, tb, det):
    args = list(det.a[1])
    kw = dict(det.a[2])
    m = det.a[0].a[1]
    what = kw.get("set_") if m == "on_conflict_do_update" else (args[0] if args else None)
    if kw.get("where", NONE) is not NONE:
        rep.bad("columns", inst, x, "rows are only replaced under a condition on their values")
    if m == "on_conflict_do_update":
        ie = kw.get("index_elements", kw.get("constraint"))
        if ie is None:
            rep.check(False if d == "postgresql" else None, "columns", inst, x, "no conflict target")
        else:
            part = any(s.op == "slice" or s.op == "item" and s.a[1].op == "const" for s in v.deep(ie, stop=lambda s: s.op == "attr"))
            rep.check(False if part else True if any(s.op == "attr" and s.a[1] == "primary_key" for s in v.deep(ie)) else None, "columns", inst, x, "only a part of the key is the conflict target")
    elif kw and not args:
        star = [w for k, w in det.a[2] if k in (None, "**")]
        what = star[0] if star else None
    if what is None or what.op != "obj":
        rep.unk("columns", inst, x, "assignment not recognised")
        return
    base = det.a[0].a[0]
    new = "inserted" if d == "mysql" else "excluded"
    cs = v.contribs(what)
    if not cs:
        rep.unk("columns", inst, x, "assignment not recognised")
        return
    for c in cs:
        if c.key is None or c.val is None:
            rep.unk("columns", inst, x)
            continue
        val = c.val
        ok = None
        if val.op == "item" and val.a[0].op == "attr":
            src = val.a[0].a[1]
            ok = src == new or src not in ("excluded", "inserted", "c", "columns") and None
            if src in ("c", "columns"):
                ok = False
            if val.a[1] is not c.key:
                ok = False if ok else ok
        elif any(y.op == "attr" and y.a[1] == new for y in subterms(val)) and any(y.op == "item" and y.a[0].op == "attr" and y.a[0].a[1] in ("c", "columns") for y in subterms(val)):
            ok = False
        rep.check(ok, "columns", inst, x, f"column {show(c.key, 3)} is set to {show(val, 4)}")
        seqs = [l for l in c.loops if c.key in (mk("at", l.term.a[0], l.term), mk("key", l.term.a[0], l.term)) or l.term in set(subterms(c.key))]
        if not seqs:
            rep.unk("columns", inst, x, "columns not recognised")
            continue
        source(v, rep, inst, x, seqs[-1].term.a[0], [g for g, t in c.guards if v.varies(g, seqs[-1].term)], c.key)


KINDS = ("unique", "nullable", "index", "foreign_keys", "server_default", "default", "autoincrement", "type", "comment", "computed", "identity")


def kinds_only(v, o):
    """A selection of columns by what they are, not by whether they belong to the key."""
    for c in v.contribs(o):
        if c.op == "add" and c.loops:
            l = c.loops[-1].term
            own = [g for g, tag in c.guards if tag in SKIP and v.varies(g, l)]
            if l.a[0].op == "attr" and l.a[0].a[1] in ("columns", "c") and other_columns(and_(*own), True) and not any(s.op == "attr" and s.a[1] == "primary_key" for g in own for a in atoms(g) for s in subterms(a)):
                return True
    return False


def other_columns(c, pick, keyloop=False):
    """A condition on columns that is about more than whether they belong to the key."""
    as_ = atoms(c)
    pk = [a for a in as_ if any(s.op == "attr" and s.a[1] == "primary_key" for s in subterms(a))]
    if any(a.op not in ("truth", "in") for a in pk):
        return False
    r = fixed(c, {a: False for a in pk})
    want = TRUE if pick else FALSE
    if r is want or keyloop:
        return False
    rest = atoms(r)
    return bool(rest) and all(any(s.op == "attr" and s.a[1] in KINDS and s.a[0].op in ("at", "item") for s in subterms(a)) for a in rest)


def source(v, rep, inst, x, seq, gs, elem, d=0):
    """The columns come from the sampled ones, without the key."""
    mp = dict(v.compile(x.args[0], "sqlite")[2]) if x.args[0].op == "obj" and v.cls(x.args[0]) in v.comp and v.compile(x.args[0], "sqlite") else {}
    seq = subst(seq, mp)
    gs = [subst(g, mp) for g in gs]
    want = rowkeys(v, x)
    excl = any(s.op == "attr" and s.a[1] == "primary_key" for g in gs for t in [g] for s in v.deep(t))
    odd = [g for g in gs if not any(s.op == "attr" and s.a[1] == "primary_key" for s in v.deep(g)) and not (g.op in ("in", "not"))]
    base = None
    if seq.op == "obj":
        exts, diff, other = [], [], []
        for c in v.contribs(seq):
            pkish = any(s.op == "attr" and s.a[1] == "primary_key" for t in [c.key, c.val] + [l.term for l in c.loops] + [g for g, tag in c.guards if any(v.varies(g, l.term) for l in c.loops[-1:])] if t is not None for s in subterms(t))
            if c.op in ("extend", "update"):
                exts.append(c.val)
            elif c.op == "add" and c.loops:
                l = c.loops[-1].term
                if any(y.op == "attr" and y.a[1] in KINDS and y.a[1] not in ("computed", "identity") and y.a[0].op in ("at", "item") and l in set(subterms(y.a[0])) for g, tag in c.guards if tag in SKIP and v.varies(g, l) for y in subterms(g)):
                    rep.bad("columns", inst, x, "columns that are not part of the key keep their values as well")
                    return
                if c.val is mk("at", l.a[0], l) or c.val.op == "attr" and c.val.a[1] in ("name", "key") and c.val.a[0] is mk("at", l.a[0], l) and l.a[0].op == "attr" and l.a[0].a[1] in ("columns", "c"):
                    exts.append(l.a[0])
                    excl = excl or any(s.op == "attr" and s.a[1] == "primary_key" for g, _ in c.guards if v.varies(g, l) for s in v.deep(g))
                else:
                    other.append(c)
            elif c.op in ("diff", "discard", "remove", "del"):
                diff.append(c)
            else:
                other.append(c)
        excl = excl or any(any(s.op == "attr" and s.a[1] == "primary_key" for t in [c.val] + [l.term for l in c.loops] if t is not None for s in v.deep(t)) for c in diff)
        for c in diff:
            l = c.loops[-1].term if c.loops else None
            if c.val is not None and c.val.op == "obj" and kinds_only(v, c.val):
                rep.bad("columns", inst, x, "columns that are not part of the key keep their values as well")
                return
            if l is not None and other_columns(and_(*[g for g, _ in c.guards if v.varies(g, l)]), False, l.a[0].op == "attr" and l.a[0].a[1] == "primary_key"):
                rep.bad("columns", inst, x, "columns that are not part of the key keep their values as well")
                return
            if l is not None and any(tag in ("break", "return") for tag, _ in v.e.exits.get(c.loops[-1].uid, ())):
                excl = False
        if len(exts) == 1 and not other:
            base = exts[0]
    elif seq.op == "bin" and seq.a[0] == "-":
        base = seq.a[1]
        excl = excl or any(s.op == "attr" and s.a[1] == "primary_key" for s in v.deep(seq.a[2]))
    else:
        base = seq
    if other_columns(and_(*gs), True):
        rep.bad("columns", inst, x, "columns that are not part of the key keep their values as well")
        return
    if base is None:
        rep.unk("columns", inst, x, "columns not recognised")
        return
    bs = set()
    for g, b in v.alts(base):
        while b.op == "call" and is_ext(b.a[0], "builtins.set", "builtins.list", "builtins.sorted", "builtins.tuple", "builtins.frozenset") and b.a[1]:
            b = b.a[1][0]
        for h, c in v.alts(b):
            bs.add(c)
    whole = [b for b in bs if b.op == "attr" and b.a[1] in ("columns", "c") or b.op == "call" and b.a[0].op == "attr" and b.a[0].a[1] in ("keys", "values") and b.a[0].a[0].op == "attr" and b.a[0].a[0].a[1] in ("columns", "c")]
    if whole and not want & bs:
        rep.bad("columns", inst, x, "every column of the table is replaced, also those that were not sampled")
        return
    if not excl:
        rep.bad("columns", inst, x, "key columns are replaced")
        return
    rep.check(True if want and bs <= want or want & bs and len(bs) == len(want) else None, "columns", inst, x, "replaced columns differ from those written")


def table(v, rep, x, n):
    """The statement names the table it was asked for."""
    i = x.args[0]
    D = dest_dicts(v)
    for d in DIALECTS:
        tb = Case(v, d, "error", True, True, False, False)
        try:
            k, fam, det, tab = statement(v, tb, i)
        except Undecided as exc:
            rep.unk("table", f"{d} {n}", x)
            continue
        if not isinstance(tab, T):
            rep.unk("table", f"{d} {n}", x)
            continue
        its = [s for s in subterms(tab) if s.op == "item" and s.a[0] in D]
        rep.check(True if its else None, "table", f"{d} {n}", x)
