"""Compacted keys and the columns that refer to them.

`which`: decision tables over the settings and the shape of a table for what
enters the collection of compacted columns.  `refuse`: a compacted column that
is part of a foreign key ends the run, for every key of every table, once the
collection is complete.  `number`: each numbering in a statement is the row
number by primary key plus the configured start minus one; the kept samples of
compacted tables carry it.  `select`: decision table over own/referring/other
columns for what the output statement selects.  `join`: the outer join a
referring column is taken from: the kept sample of the table its foreign key
refers to, on all columns of that key.
"""

import itertools

from ._m import *  # noqa
from ._pl import Arith
from ..table import Opq, Table, Undecided

KINDS = ("server_default", "default", "nullable", "unique", "index", "identity", "computed", "autoincrement", "comment")
FLOORS = {"which": 20, "refuse": 1, "number": 2, "select": 8, "join": 6}
SETTING = ("config", "compact")


def check(ctx, rep):
    for mode in ("database", "directory"):
        v = MV(ctx, mode)
        if not v.reads:
            broken("no query on the source found")
        Compact(ctx, v, rep, mode).check()
    fill(rep, FLOORS, "sampler.py")


def setting(t, *names):
    p = attr_path(t)
    return p is not None and p[-len(names) - 1:] == ("compact",) + names and p[0] == "config"


class Compact:
    def __init__(self, ctx, v, rep, mode):
        self.ctx, self.v, self.rep, self.mode = ctx, v, rep, mode

    def check(self):
        v, rep = self.v, self.rep
        e = v.e
        self.C = None
        cands = []
        for o, ob in e.objs.items():
            if ob.kind != "dict":
                continue
            if any(any(setting(t, "columns") for q in [c.key, c.val] + [l.term for l in c.loops] if q is not None for t in subterms(q)) for c in ob.contribs):
                cands.append(o)
        used = set()
        for x in v.reads:
            used |= {t for t in v.deep(x.args[0], ctrl=True) if t.op == "obj"}
        cands = [o for o in cands if o in used]
        if len(cands) != 1:
            reads = any(setting(t, "columns") for x in v.fx for q in list(x.args) + [g for g, _ in x.guards] + [l.term for l in x.loops] if isinstance(q, T) for t in subterms(q))
            if not cands and not reads:
                rep.bad("which", self.mode, v.reads[0], "configured columns are never compacted")
            return
        self.C = cands[0]
        self.which()
        self.refuse()
        self.number()
        for x in v.reads:
            self.statement(x)

    # -------------------------------------------------------------- which

    def entries(self):
        """(key, guards, column or collection, whether a collection, node)"""
        v, C = self.v, self.C
        out = []
        own = {}
        for c in v.contribs(C):
            more = ((not_(mk("in", c.key, C)), "branch"),) if c.op == "default" and c.key is not None else ()
            if c.op in ("set", "setitem", "default") and c.key is not None:
                if c.val.op == "obj" and v.e.objs[c.val].kind in ("set", "list", "dict"):
                    own[c.val] = c.key
                    for d in v.contribs(c.val):
                        if d.op in ("add", "extend", "set"):
                            out.append((c.key, tuple(c.guards) + more + tuple(d.guards), d.val if d.op != "set" else d.key, d.op == "extend", d, d.loops))
                        else:
                            out.append(None)
                else:
                    val = c.val
                    while val.op == "call" and is_ext(val.a[0], "builtins.set", "builtins.frozenset", "builtins.list", "builtins.tuple") and len(val.a[1]) == 1:
                        val = val.a[1][0]
                    out.append((c.key, tuple(c.guards) + more, val, True, c, c.loops))
            else:
                out.append(None)
        for x in v.fx:
            if x.kind == "call" and x.name in (".add", ".append", ".update", ".extend") and x.recv is not None and x.args and x.recv.op == "item" and x.recv.a[0] is C:
                out.append((x.recv.a[1], tuple(x.guards), x.args[0], x.name in (".update", ".extend"), x, x.loops))
            elif x.kind == "call" and x.name in (".discard", ".remove", ".clear", ".pop", ".difference_update", ".intersection_update") and x.recv is not None and (x.recv is C or x.recv.op == "item" and x.recv.a[0] is C):
                out.append(None)
        return out

    def which(self):
        v, rep, mode = self.v, self.rep, self.mode
        es = self.entries()
        if None in es or not es:
            return rep.unk("which", mode, v.reads[0], "collection of compacted columns not recognised")
        conf = [x for x in es if any(setting(t, "columns") for t in subterms(x[2]))]
        auto = [x for x in es if x not in conf]
        self.last = max(getattr(x[4], "seq", 0) or 0 for x in es)
        if not conf:
            rep.bad("which", f"{mode}: configured", v.reads[0], "configured columns are not compacted")
        for through in (False, True):
            what = f"{mode}: configured{', passthrough' if through else ''}"
            got = set()
            for k, gs, val, coll, c, _ in conf:
                g = self.configured(gs, through)
                if g is None:
                    got.add(None)
                elif g is not FALSE:
                    if val.op == "slice" or val.op == "at" and val.a[0].op == "slice":
                        got.add(False)
                        continue
                    if not (val.op == "item" and setting(val.a[0], "columns") and coll or val.op == "at" and val.a[0].op == "item" and setting(val.a[0].a[0], "columns")):
                        got.add(None)
                    got.add(True)
            if through:
                rep.check(None if None in got else True not in got, "which", what, conf[0][4] if conf else v.reads[0], "columns of passthrough tables are compacted")
            elif conf:
                rep.check(True if got == {True} else False if False in got or None not in got else None, "which", what, conf[0][4], "configured columns are not compacted")
        if not auto:
            rep.bad("which", f"{mode}: automatic", v.reads[0], "keys are never compacted automatically")
            return
        self.automatic(auto)

    def passthrough(self, at):
        return at.op == "in" and any(is_attr(t, "plan", "passthrough") or t.op == "attr" and t.a[1] == "passthrough_tables" for t in self.v.deep(at.a[1]))

    def configured(self, gs, through):
        known = {}
        g = and_(*[q for q, tag in gs if tag != "raise"])
        for at in atoms(g):
            if self.passthrough(at):
                known[at] = through and at.a[0].op != "tuple"
            elif at.op == "in" and at.a[1] is not self.C:
                known[at] = True
            elif at.op == "truth" and any(setting(t, "columns") for t in subterms(at)):
                known[at] = True
            elif at.op == "in" and at.a[1] is self.C:
                known[at] = False
        r = fixed(g, known)
        free = [at for at in atoms(r) if at.op == "truth" and (setting(at.a[0], "primary_keys") or setting(at.a[0], "auto_increment_keys"))]
        for vs in itertools.product((True, False), repeat=len(free)):
            s = fixed(r, dict(zip(free, vs)))
            if s is (TRUE if through else FALSE):
                return s
        return r if r is TRUE or r is FALSE else None

    def automatic(self, auto):
        v, rep, mode = self.v, self.rep, self.mode
        for p, a, n, ty, inc, through in itertools.product((True, False), (True, False), (0, 1, 2), ("int", "str"), (True, False), (False, True)):
            want = (p or a) and n == 1 and ty == "int" and (p or inc) and not through
            what = f"{mode}: primary_keys={p} auto_increment_keys={a} {n}-column {ty} key{', generated' if inc else ''}{', passthrough' if through else ''}"
            got, name = set(), None
            kinds = sorted({at for e in auto for q, tag in e[1] if tag != "raise" for at in atoms(q) if at.op in ("is", "truth", "eq") and any(t.op == "attr" and t.a[1] in KINDS for t in subterms(at)) and not any(t.op == "loop" for t in at.a)}, key=show)[:3]
            for inC, *free in itertools.product((False, True), *[(False, True) for _ in kinds]):
                res = set()
                for k, gs, val, coll, c, loops in auto:
                    try:
                        r = self.holds(gs, p, a, n, ty, inc, through, inC, dict(zip(kinds, free)))
                        if r:
                            cols = self.column(val, coll, n)
                            if cols is None:
                                res.add(None)
                            else:
                                res.add(True)
                                if cols != ("k1",):
                                    name = f"compacts {cols}"
                    except (Undecided, TypeError):
                        res.add(None)
                # any entry that certainly holds decides
                got.add(True if True in res else None if None in res else False)
            bad = None
            if want and False in got:
                bad = "the key is not compacted"
            elif not want and True in got:
                bad = "the key is compacted"
            elif want and name:
                bad = name
            rep.check(False if bad else None if None in got else True, "which", what, auto[0][4], bad or "")

    def column(self, val, coll, n):
        cols = tuple(f"k{i + 1}" for i in range(n))
        if val.op == "attr" and val.a[1] in ("name", "key"):
            q = val.a[0]
            if q.op == "item" and q.a[0].op == "attr" and q.a[0].a[1] in ("columns", "c") and q.a[0].a[0].op == "attr" and q.a[0].a[0].a[1] == "table_obj":
                val = q.a[1]
            elif q.op == "attr" and q.a[1] == "autoincrement_column":
                return cols[:1]
            else:
                return None
        if coll and val.op == "attr" and val.a[1] == "primary_key":
            return cols
        if val.op == "item" and val.a[0].op == "attr" and val.a[0].a[1] == "primary_key":
            i = val.a[1]
            if i.op == "const" and isinstance(cval(i), int):
                try:
                    return (cols[cval(i)],)
                except IndexError:
                    raise Undecided(val)
        if val.op == "at" and val.a[0].op == "attr" and val.a[0].a[1] == "primary_key" and n == 1:
            return cols
        return None

    def holds(self, gs, p, a, n, ty, inc, through, inC, known=()):
        v = self.v
        g = and_(*[q for q, tag in gs if tag != "raise"])
        roots = {}
        for at in atoms(g):
            for t in subterms(at):
                if setting(t, "primary_keys"):
                    roots[t] = p
                elif setting(t, "auto_increment_keys"):
                    roots[t] = a
                elif t.op == "attr" and t.a[1] == "primary_key":
                    roots[t] = tuple(f"k{i + 1}" for i in range(n))
                elif t.op == "attr" and t.a[1] in ("autoincrement_column", "_autoincrement_column"):
                    roots[t] = Opq("column") if inc else None
                elif t.op == "call" and is_ext(t.a[0], "builtins.issubclass", "builtins.isinstance") and len(t.a[1]) == 2:
                    roots[t] = self.integral(t.a[1], ty, is_ext(t.a[0], "builtins.isinstance"))
                elif t.op in ("is", "eq") and any(q.op == "attr" and q.a[1] == "python_type" for q in t.a) and any(is_ext(q, "builtins.int") for q in t.a):
                    roots[t] = ty == "int"
            if self.passthrough(at):
                roots[at] = through and at.a[0].op != "tuple"
            elif at.op == "in" and at.a[1] is self.C:
                roots[at] = inC
            elif at.op == "in" and is_plan_or_meta(v, at.a[1]):
                roots[at] = True
        roots = {k: q for k, q in roots.items() if q is not None or k.op == "attr"}
        roots.update(known)
        return Table(v, roots).true(g)

    def integral(self, args, ty, inst):
        c = args[1]
        ts = c.a if c.op == "tuple" else (c,)
        names = []
        for t in ts:
            if t.op != "ext":
                return None
            names.append(t.a[0].rsplit(".", 1)[-1])
        ok = {"Integer", "BigInteger", "SmallInteger", "INTEGER"} if inst else {"int"}
        if inst and "Integer" not in names:
            return None
        if ty == "int":
            return bool(ok & set(names))
        return bool({"str", "String", "object"} & set(names))

    # ------------------------------------------------------------- refuse

    def refuse(self):
        v, rep, mode = self.v, self.rep, self.mode
        found = []
        for x in v.fx:
            if x.kind != "raise" or x.seq > min(r.seq for r in v.reads):
                continue
            g = and_(*[q for q, tag in x.guards if tag != "raise"])
            ls = " ".join(str(l.term.a[0].a[1]) for l in x.loops if l.term.a[0].op == "attr")
            ts = {t for t in self.under(g)}
            about = self.C in ts and any(t.op == "attr" and t.a[1] == "foreign_keys" for t in ts | {t for l in x.loops for t in subterms(l.term)})
            if about:
                found.append((x, g))
        if not found:
            return rep.bad("refuse", mode, v.reads[0], "columns inside foreign keys are compacted")
        res = [self.refusal(x, g) for x, g in found]
        x = found[0][0]
        rep.check(True if any(r[0] is True for r in res) else None if any(r[0] is None for r in res) else False, "refuse", mode, x, next((m for r, m in res if r is not True), ""))

    def under(self, g):
        out = set()
        for t in subterms(g):
            out.add(t)
            if t.op == "obj" and t is not self.C:
                out |= self.v.deep(t)
        return out

    def refusal(self, x, g):
        v = self.v
        known = {}
        if x.seq < getattr(self, "last", 0):
            return False, "columns are checked before all of them are known"
        cols = False
        for at in atoms(g):
            ts = set(subterms(at))
            if (at.op == "in" and at.a[1] is self.C or at.op == "truth" and at.a[0].op == "item" and at.a[0].a[0] is self.C) and any(t.op == "attr" and t.a[1] in ("dst_schema", "dst_table") for t in ts):
                return False, "columns are only refused if those they refer to are compacted"
            if at.op == "in" and at.a[1] is self.C:
                known[at] = True
            elif at.op == "truth" and at.a[0].op == "item" and at.a[0].a[0] is self.C:
                known[at] = True
            elif at.op == "in" and at.a[1].op == "item" and at.a[1].a[0] is self.C:
                q = at.a[0]
                if q.op == "at" and q.a[0].op == "slice":
                    return False, f"only {show(q.a[0], 4)} are checked"
                if q.op == "at" and q.a[0].op == "attr" and q.a[0].a[1] == "columns":
                    known[at] = cols = True
                elif any(t.op == "attr" and t.a[1].startswith("dst_") for t in subterms(q)):
                    return False, "the columns referred to are checked instead of those of the table"
            elif at.op == "exists" or self.C in ts or any(t.op == "obj" for t in ts):
                return None, f"condition {show(at, 4)}"
        r = fixed(g, known)
        if r is FALSE:
            return None, "condition not recognised"
        if r is not TRUE:
            ok = any(l for l in x.loops)
            return None, f"condition {show(r, 4)}"
        for l in x.loops:
            s = l.term.a[0]
            if s.op == "slice":
                return False, f"only {show(s, 4)} are checked"
        return (True if cols else None), "condition not recognised"

    # ------------------------------------------------------------- number

    def numbers(self, t):
        """Row numbers in a statement."""
        out = set()
        for q in self.v.deep(t):
            if q.op == "call" and q.a[0].op == "attr" and q.a[0].a[1] == "over" and q.a[0].a[0].op == "call":
                f = q.a[0].a[0].a[0]
                if f.op in ("ext", "attr") and str(f.a[-1]).endswith("row_number"):
                    out.add(q)
        return out

    def number(self):
        v, rep, mode = self.v, self.rep, self.mode
        self.label = None
        n = 0
        for x, tab, s in v.fills:
            if not any(q in v.made for _, q in v.leaves(s)):
                continue
            ns = self.numbers(s)
            if not ns:
                rep.bad("number", f"{mode}: sample", x, "the kept samples of compacted tables are not numbered")
                continue
            made = {q for _, q in v.leaves(s) if q in v.made}
            key = None
            for g, t in v.alts(s):
                mine = [q for q in self.numbers(t)]
                r = self.own(g)
                if not mine and r is not FALSE:
                    rep.check(False if all(self.C not in v.deep(at) for at in atoms(r)) else None, "number", f"{mode}: sample", x, "the kept samples of compacted tables are not numbered")
                for q in mine:
                    self.formula(x, t, q, "sample")
                    lab = self.labelled(t, q)
                    self.label = self.label or lab
        for x in v.reads:
            for q in self.numbers(x.args[0]):
                self.formula(x, x.args[0], q, "statement")

    def own(self, g, val=True):
        known = {}
        for at in atoms(g):
            if at.op == "in" and at.a[1] is self.C and not any(t.op == "attr" and t.a[1].startswith("dst_") for t in subterms(at.a[0])):
                known[at] = val
            elif at.op == "truth" and at.a[0].op == "item" and at.a[0].a[0] is self.C and not any(t.op == "attr" and t.a[1].startswith("dst_") for t in subterms(at.a[0].a[1])):
                known[at] = val
        return fixed(g, known)

    def labelled(self, t, q):
        for s in self.v.deep(t):
            if s.op == "call" and s.a[0].op == "attr" and s.a[0].a[1] == "label" and s.a[1] and q in set(subterms(s.a[0].a[0])):
                return s.a[1][0]
        return None

    def arithmetic(self, t, q):
        """The largest calculations around q."""
        best = set()
        for s in self.v.deep(t):
            if s.op in ("bin", "neg") and q in set(subterms(s)) and self.inside(s, q):
                best.add(s)
        return [s for s in best if not any(s is not o and s in set(subterms(o)) for o in best)] or [q]

    def inside(self, s, q):
        if s is q:
            return True
        if s.op == "bin":
            return any(self.inside(k, q) for k in s.a[1:3])
        if s.op == "neg":
            return self.inside(s.a[0], q)
        return False

    def formula(self, x, t, q, what):
        v, rep, mode = self.v, self.rep, self.mode
        for s in self.arithmetic(t, q):
            bad = unk = None
            for r, st in itertools.product((1, 2, 5), (1, 0, 7)):
                roots = {q: r}
                roots.update({k: st for k in subterms(s) if setting(k, "start_key")})
                try:
                    got = Calc(v, roots).ev(s)
                    if got != r + st - 1:
                        bad = f"row {r} is numbered {got} when starting from {st}"
                except (Undecided, TypeError):
                    unk = "formula not recognised"
            rep.check(False if bad else None if unk else True, "number", f"{mode}: {what}", x, bad or unk or "")
        kw = dict(q.a[2])
        ob = kw.get("order_by") or (q.a[1][1] if len(q.a[1]) > 1 else None)
        pb = kw.get("partition_by") or (q.a[1][0] if q.a[1] else None)
        bad = unk = None
        if pb is not None and pb is not NONE:
            bad = "rows are numbered in parts"
        elif ob is None or ob is NONE:
            bad = "rows are not numbered in primary-key order"
        else:
            if ob.op == "star":
                ob = ob.a[0]
            while ob.op == "call" and is_ext(ob.a[0], "builtins.list", "builtins.tuple") and len(ob.a[1]) == 1:
                ob = ob.a[1][0]
            cs = v.contribs(ob) if ob.op == "obj" else []
            if len(cs) == 1 and cs[0].op == "extend" and cs[0].val.op == "obj":
                cs = v.contribs(cs[0].val)
            if len(cs) != 1 or cs[0].op != "add" or not cs[0].loops:
                unk = "order not recognised"
            else:
                c = cs[0]
                l = c.loops[-1]
                seq = l.term.a[0]
                if any(t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] == "desc" for t in subterms(c.val)) or any(t.op == "call" and is_ext(t.a[0], "sqlalchemy.desc") for t in subterms(c.val)):
                    bad = "rows are numbered in descending order"
                elif l.rev or seq.op == "slice":
                    bad = "rows are not numbered in primary-key order"
                else:
                    seq2 = seq
                    if seq2.op == "attr" and seq2.a[1] in ("columns", "c") and seq2.a[0].op == "attr" and seq2.a[0].a[1] == "primary_key":
                        seq2 = seq2.a[0]
                    if seq2.op != "attr" or seq2.a[1] != "primary_key":
                        if seq2.op == "attr" and seq2.a[1] in ("columns", "c", "foreign_keys") or self.C in set(subterms(seq2)) or seq2.op == "call" and is_ext(seq2.a[0], "builtins.sorted", "builtins.reversed"):
                            bad = "rows are not numbered in primary-key order"
                        else:
                            unk = "order not recognised"
                    else:
                        el = mk("at", seq, l.term)
                        val = c.val
                        if val.op == "call" and val.a[0].op == "attr" and val.a[0].a[1] == "asc":
                            val = val.a[0].a[0]
                        name = val.a[1] if val.op == "item" and val.a[0].op == "attr" and val.a[0].a[1] in ("c", "columns") else None
                        if name is None or name is not el and name not in (mk("attr", el, "name"), mk("attr", el, "key")):
                            unk = "order not recognised"
                    inner = [g for g, tag in c.guards if tag != "raise" and any(t is l.term for t in subterms(g))]
                    there = lambda a: a.op == "in" and a.a[1].op == "attr" and a.a[1].a[1] in ("c", "columns", "selected_columns")
                    drops = [g for g in inner if not any(there(a) for a in atoms(g))]
                    if drops and not bad and not unk:
                        bad = f"a key column only takes part in the order if {show(drops[0], 5)}"
                    if inner and not bad:
                        unk = unk or "order not recognised"
        rep.check(False if bad else None if unk else True, "number", f"{mode}: {what}: order", x, bad or unk or "")

    # ---------------------------------------------------------- statement

    def refers(self, at):
        """A condition about columns that refer to compacted ones."""
        if at.op != "exists":
            return False
        ts = set(subterms(at))
        return self.C in ts and any(t.op == "attr" and t.a[1] == "foreign_keys" for t in ts)

    def statement(self, x):
        v, rep, mode = self.v, self.rep, self.mode
        if self.C not in v.deep(x.args[0], ctrl=True):
            return rep.bad("select", mode, x, "keys are not compacted in the output")
        rems = {at.a[1] for t in v.deep(x.args[0], ctrl=True) if t.op in ("phi",) for at in atoms(t.a[0]) if at.op == "in" and at.a[1].op == "obj"}
        for own, ref in ((True, False), (False, True), (True, True)):
            what = f"{mode}: {'own' if own else ''}{' and ' if own and ref else ''}{'referring' if ref else ''} columns"
            bad = unk = None
            for g, t in v.alts(x.args[0]):
                known = {}
                for at in atoms(g):
                    if self.refers(at):
                        known[at] = ref
                r = fixed(self.own(g, own), known)
                if r is FALSE:
                    continue
                if not self.C in v.deep(t, ctrl=True):
                    if r is TRUE or all(v.sample_of(q) is not None or at.op == "in" and at.a[1] in v.T for at in atoms(r) for q in [at]):
                        bad = "keys are not compacted in the output"
                    else:
                        unk = "statement not recognised"
            rep.check(False if bad else None if unk else True, "select", what, x, bad or unk or "")
        # the columns
        cs = None
        fr = None
        for g, t in v.alts(x.args[0]):
            if self.C not in v.deep(t, ctrl=True):
                continue
            sel = [q for q in self.chain(t) if q.op == "call" and is_ext(q.a[0], "sqlalchemy.select", "sqlalchemy.sql.select")]
            frm = [q for q in self.chain(t) if q.op == "call" and q.a[0].op == "attr" and q.a[0].a[1] in ("select_from",)]
            if len(sel) == 1 and len(sel[0].a[1]) == 1 and sel[0].a[1][0].op == "star" and sel[0].a[1][0].a[0].op == "obj":
                cs = v.contribs(sel[0].a[1][0].a[0])
                while len(cs) == 1 and cs[0].op == "extend" and cs[0].val.op == "obj":
                    cs = v.contribs(cs[0].val)
                fr = frm[0].a[1][0] if len(frm) == 1 and frm[0].a[1] else None
        if not cs or any(c.op != "add" or not c.loops for c in cs):
            return rep.unk("select", mode, x, "columns not recognised")
        l = cs[0].loops[-1]
        if any(c.loops[-1].term is not l.term for c in cs):
            return rep.unk("select", mode, x, "columns not recognised")
        seq = l.term.a[0]
        col = mk("at", seq, l.term)
        names = {mk("attr", col, "name"), mk("attr", col, "key")}
        rems = {at.a[1] for c in cs for g, _ in c.guards for at in atoms(g) if at.op == "in" and at.a[0] in names and at.a[1].op == "obj"}
        if len(rems) != 1 or not (seq.op == "attr" and seq.a[1] in ("columns", "c")):
            return rep.unk("select", mode, x, "columns not recognised")
        self.R = next(iter(rems))
        R = self.remote(x)
        for own, ref in ((True, False), (False, True), (False, False)):
            what = f"{mode}: {'compacted' if own else 'referring' if ref else 'other'} column"
            gs = [self.column_case(c.guards, l, names, own, ref) for c in cs]
            free = sorted({at for g in gs for at in atoms(g)}, key=show)
            if len(free) > 5 or any(not self.plain(at, col) for at in free):
                rep.unk("select", what, x, "condition not recognised")
                continue
            for vs in itertools.product((True, False), repeat=len(free)):
                vals = []
                for c, g in zip(cs, gs):
                    if fixed(g, dict(zip(free, vs))) is TRUE:
                        for gg, t in v.alts(c.val):
                            r = self.column_case([(gg, "branch")], l, names, own, ref)
                            if r is not FALSE:
                                vals.append((gg, t))
                if not vals:
                    rep.bad("select", what, x, "the column is left out")
                for g, t in vals:
                    self.selected(x, what, t, names, own, ref)
        self.joined(x, fr, l, names, R)

    def chain(self, t):
        out = []
        while t.op == "call":
            out.append(t)
            t = t.a[0].a[0] if t.a[0].op == "attr" else const(None)
        return out

    def column_case(self, guards, l, names, own, ref):
        g = and_(*[q for q, tag in guards if tag != "raise" and any(t is l.term for t in subterms(q))])
        known = {}
        for at in atoms(g):
            if at.op == "in" and at.a[1] is self.C:
                known[at] = True if own else None
            elif at.op == "in" and at.a[1].op == "item" and at.a[1].a[0] is self.C and at.a[0] in names:
                known[at] = own
            elif at.op == "in" and at.a[0] in names and at.a[1] is self.R:
                known[at] = ref
        known = {k: q for k, q in known.items() if q is not None}
        r = fixed(g, known)
        return fixed(r, {at: True for at in atoms(r) if at.op == "in" and at.a[1] is self.C})

    def plain(self, at, col):
        """A condition on attributes of the column alone."""
        ts = list(subterms(at))
        if at.op == "in" and at.a[0] in (mk("attr", col, "name"), mk("attr", col, "key")):
            return at.a[1].op == "attr" and at.a[1].a[1] == "primary_key"
        return at.op == "truth" and at.a[0].op == "attr" and at.a[0].a[0] is col

    def name_of(self, t, names):
        """(expression, whether it carries the column's own name)"""
        named = None
        while t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] == "label" and t.a[1]:
            named = t.a[1][0] in names if named is None else named
            t = t.a[0].a[0]
        return t, named

    def column_of(self, t):
        """(table, name, default) of a column looked up in a table."""
        if t.op == "phi":
            ks = [self.column_of(q) for _, q in self.v.alts(t)]
            return ks[0] if None not in ks and len({k[1] for k in ks}) == 1 else None
        if t.op == "item" and t.a[0].op == "attr" and t.a[0].a[1] in ("c", "columns"):
            return t.a[0].a[0], t.a[1], None
        if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] == "get" and t.a[0].a[0].op == "attr" and t.a[0].a[0].a[1] in ("c", "columns") and t.a[1]:
            return t.a[0].a[0].a[0], t.a[1][0], t.a[1][1] if len(t.a[1]) > 1 else None
        return None

    def selected(self, x, what, t, names, own, ref):
        v, rep = self.v, self.rep
        q, named = self.name_of(t, names)
        bad = unk = None
        k = self.column_of(q)
        if own:
            if named is not True:
                bad = "the number is not written to the column"
            elif k is not None:
                if self.label is not None and k[1] is not self.label:
                    bad = "the value of the column is not the number" if k[1] in names else None
                    unk = "number not recognised"
            elif not self.numbers(q):
                unk = "number not recognised"
        elif ref:
            if named is not True:
                bad = "the number is not written to the referring column"
            elif k is None:
                unk = "number not recognised"
                if v.is_call(q, "sqlalchemy.func.coalesce", "sqlalchemy.func.ifnull", "sqlalchemy.case"):
                    bad = "a reference that is null gets a value"
            elif k[1] in names:
                bad = "the referring column keeps its value"
            elif self.label is not None and k[1] is not self.label:
                unk = "number not recognised"
                if any(c.op == "attr" and c.a[1].startswith("dst_") for c in self.v.deep(k[1])):
                    bad = "the referring column gets the value in the source"
            else:
                self.taken = getattr(self, "taken", set()) | {q for _, q in self.v.alts(self.through(k[0]))}
                fk, key = self.target(k[0])
                if key is None:
                    unk = "sample not recognised"
                    if all(q.op == "attr" and q.a[1] == "table_obj" for _, q in v.alts(self.through(k[0]))):
                        bad = "the number is taken from the whole table"
                elif not self.is_target(fk, key):
                    unk = "sample not recognised"
                    if any(fk not in set(subterms(p)) and v.own(mk("tuple", p, p)) is None and p.op in ("item", "attr") for p in key.a[:2]):
                        bad = "the number is taken from another table"
                    if all(p.op == "attr" or p.op == "item" for p in key.a[:2]) and not any(p.op == "attr" and p.a[1] in ("dst_schema", "dst_table") for q2 in key.a[:2] for p in subterms(q2)):
                        bad = "the number is taken from another table"
        else:
            if k is None:
                unk = "column not recognised"
                if self.numbers(q):
                    bad = "a column that is not compacted is numbered"
            elif k[1] not in names:
                bad = "another column is written"
            elif named is False:
                bad = "the column is written under another name"
        rep.check(False if bad else None if unk else True, "select", what, x, bad or unk or "")

    # --------------------------------------------------------------- join

    def remote(self, x):
        """The referring columns: the foreign key and columns of an entry."""
        v, rep, mode = self.v, self.rep, self.mode
        cs = [c for c in v.contribs(self.R)]
        if len(cs) != 1 or cs[0].op not in ("set", "setitem", "default") or cs[0].key is None:
            rep.unk("join", f"{mode}: references", x, "references not recognised")
            return None
        c = cs[0]
        k = c.key
        if not (k.op == "at" and k.a[0].op == "attr" and k.a[0].a[1] == "columns"):
            bad = k.op == "at" and k.a[0].op == "attr" and k.a[0].a[1] == "dst_columns"
            rep.check(False if bad else None, "join", f"{mode}: references", x, "the columns referred to are taken for the referring ones")
            return None
        fk = k.a[0].a[0]
        g = and_(*[q for q, tag in c.guards if tag != "raise" and any(t is fk or t is k.a[1] for t in subterms(q))])
        known, bad, unk = {}, None, None
        want = mk("tuple", mk("attr", fk, "dst_schema"), mk("attr", fk, "dst_table"))
        dst = mk("at", mk("attr", fk, "dst_columns"), k.a[1])
        for at in atoms(g):
            if at.op == "in" and at.a[1] is self.C:
                known[at] = True
                bad = bad or (None if at.a[0] is want else self.other(at.a[0], fk))
            elif at.op == "in" and at.a[1].op == "item" and at.a[1].a[0] is self.C:
                known[at] = True
                if at.a[1].a[1] is not want:
                    bad = bad or self.other(at.a[1].a[1], fk)
                if at.a[0] is not dst:
                    if at.a[0] is k:
                        bad = "columns are matched by the name of the referring column"
                    else:
                        unk = "references not recognised"
            elif at.op == "lt" or at.op == "eq" and any(t.op == "call" and is_ext(t.a[0], "builtins.len") for t in subterms(at)):
                bad = f"only references with {show(at, 4)} are followed"
        r = fixed(g, known)
        if not known:
            unk = "references not recognised"
        if r is not TRUE and not bad:
            if not unk and atoms(r) and all(at.op == "eq" and any(t.op == "attr" and t.a[0] is fk and t.a[1] in ("dst_schema", "dst_table") for t in subterms(at)) for at in atoms(r)):
                bad = f"references are only followed if {show(r, 4)}"
            elif not unk and atoms(r) and all(at.op == "in" and at.a[0] is k and at.a[1].op == "attr" for at in atoms(r)):
                bad = f"references are only followed if {show(r, 4)}"
            unk = unk or f"condition {show(r, 4)}"
        if not bad and any(l.term.a[0].op == "slice" or l.term.a[0].op == "zip" and any(q.op == "slice" for q in l.term.a[0].a if isinstance(q, T)) for l in c.loops):
            bad = "only part of the references are followed"
        # one column of a foreign key must not end the search for others
        if not bad and any(l.term in subterms(k) and tag in ("break", "return") for l in c.loops for tag, _ in v.exits(c, l.term)):
            bad = "only the first column of a reference is followed"
        rep.check(False if bad else None if unk else True, "join", f"{mode}: references", x, bad or unk or "")
        self.entry = (c, fk, k)
        return c

    def other(self, k, fk):
        return "references to another table are followed" if k.op == "tuple" and not all(any(q.op == "attr" and q.a[1].startswith("dst_") for q in self.v.deep(p)) for p in k.a) else None

    def through(self, t):
        """t with an entry of the references replaced by what was stored."""
        if not hasattr(self, "entry"):
            return t
        c = self.entry[0]
        for _ in range(3):
            hits = {q for q in subterms(t) if q.op == "item" and q.a[0] is self.R}
            if not hits:
                break
            t = subst(t, {q: c.val for q in hits})
        return simp_all(t)

    def target(self, t):
        """(foreign key, sample key) behind a joined table."""
        v = self.v
        for g, q in v.alts(t):
            if q.op == "call" and q.a[0].op == "attr" and q.a[0].a[1] == "alias":
                q = q.a[0].a[0]
            k = v.sample_of(q)
            if k is not None and k.op == "tuple":
                return (self.entry[1] if hasattr(self, "entry") else None), self.through(k)
        return None, None

    def is_target(self, fk, key):
        return fk is not None and key.a[0] is mk("attr", fk, "dst_schema") and key.a[1] is mk("attr", fk, "dst_table")

    def joined(self, x, fr, l, names, R):
        v, rep, mode = self.v, self.rep, self.mode
        if R is None or not hasattr(self, "entry"):
            return
        m = fr.a[0] if fr is not None and fr.op == "fin" else None
        if m is None or m not in v.e.backs or m.a[0] is not l.term:
            return rep.unk("join", f"{mode}: join", x, "join not recognised")
        c, fk, k = self.entry
        js = []
        for g, t in v.alts(v.e.backs[m]):
            for own, ref in ((True, False), (False, True), (False, False)):
                r = self.column_case([(g, "branch")], l, names, own, ref)
                if r is FALSE:
                    continue
                if t is m:
                    if ref:
                        rep.check(False if r is TRUE else None, "join", f"{mode}: referring", x, "the sample referred to is not joined")
                elif not ref:
                    rep.unk("join", f"{mode}: other", x, "joins more than is referred to")
                elif t not in js:
                    js.append(t)
        for t in js:
            self.one_join(x, t, m, fk)

    def one_join(self, x, t, m, fk):
        v, rep, mode = self.v, self.rep, self.mode
        kw = dict(t.a[2]) if t.op == "call" else {}
        outer = False
        if t.op == "call" and is_ext(t.a[0], "sqlalchemy.join", "sqlalchemy.outerjoin", "sqlalchemy.sql.join"):
            outer = t.a[0].a[0].endswith("outerjoin")
            args = list(t.a[1])
        elif t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("join", "outerjoin"):
            outer = t.a[0].a[1] == "outerjoin"
            args = [t.a[0].a[0]] + list(t.a[1])
        else:
            return rep.unk("join", f"{mode}: join", x, "join not recognised")
        right = args[1] if len(args) > 1 else kw.get("right")
        on = args[2] if len(args) > 2 else kw.get("onclause")
        iso = args[3] if len(args) > 3 else kw.get("isouter")
        full = args[4] if len(args) > 4 else kw.get("full")
        left = args[0] if args else kw.get("left")
        if iso is not None:
            if iso.op != "const":
                ks = [q for _, q in v.alts(iso)]
                if all(q.op == "const" and cval(q) for q in ks):
                    outer = True
                elif outer is not True:
                    # whether every reference finds its row is not known where it may be null
                    outer = None if any(q.op == "attr" and q.a[1] == "nullable" for q in subterms(iso)) else False
            else:
                outer = bool(cval(iso)) or outer
        if full is not None and full is not FALSE and not (full.op == "const" and not cval(full)):
            rep.bad("join", f"{mode}: outer", x, "rows nothing refers to are written too")
        rep.check(outer, "join", f"{mode}: outer", x, "rows whose reference is null are left out")
        if left is not m and right is m:
            rep.bad("join", f"{mode}: outer", x, "the sides of the join are exchanged")
            return
        if on is None or right is None:
            return rep.unk("join", f"{mode}: condition", x, "condition not recognised")
        _, key = self.target(right)
        rep.check(True if key is not None and self.is_target(fk, key) else None, "join", f"{mode}: table", x, "table joined not recognised")
        mine = {q for _, q in v.alts(self.through(right))}
        taken = getattr(self, "taken", set())
        if taken:
            rep.check(True if mine == taken else False if {self.unalias(q) for q in mine} == {self.unalias(q) for q in taken} else None, "join", f"{mode}: column", x, "the number is not taken from the joined copy of the sample")
        for g, q in v.alts(right):
            if self.unalias(q) is not q:
                continue
            ins = [at for at in atoms(g) if at.op == "in" and at.a[1].op == "obj"]
            # different references to one sample are different keys
            ok = (False if all(self.through(at.a[0]) is fk for at in ins) else True) if ins else None if atoms(g) else False
            left = simp_all(fixed(g, {at: True for at in ins})) if ins else FALSE
            if ok and left is not FALSE and atoms(left) and all(at.op == "eq" for at in atoms(left)):
                # only some of those joined before get a copy of their own
                ok = False
            rep.check(ok, "join", f"{mode}: copies", x, "two references to the same sample are joined to the same copy")
        self.some = None
        pairs = self.pairs(on)
        if self.some is not None:
            return rep.bad("join", f"{mode}: condition", x, f"columns of the foreign key are only compared if {show(self.some, 4)}")
        if pairs is None:
            return rep.unk("join", f"{mode}: condition", x, "condition not recognised")
        full, bad, unk = False, None, None
        for op, a, b, loops in pairs:
            ka, kb = self.column_of(self.through(a)), self.column_of(self.through(b))
            if any(l.term.a[0].op == "slice" for l in loops or ()):
                bad = "joined on part of the columns of the foreign key"
            if ka is None or kb is None:
                unk = "condition not recognised"
                continue
            if op != "==":
                bad = f"joined by {op}"
            sides = [(t, n) for t, n, _ in (ka, kb)]
            r = self.through(right)
            mine = [n for t, n in sides if t is r or self.same_sample(t, r)]
            other = [n for t, n in sides if not (t is r or self.same_sample(t, r))]
            if len(mine) != 1 or len(other) != 1:
                unk = "condition not recognised"
                continue
            n, o = mine[0], other[0]
            if n.op == o.op == "at" and n.a[1] is o.a[1] and n.a[0] is mk("attr", fk, "dst_columns") and o.a[0] is mk("attr", fk, "columns") and loops:
                full = True
                if any(l.term.a[0].op == "slice" for l in loops):
                    bad = "joined on part of the columns of the foreign key"
            elif loops and any(q.op == "slice" and q.a[0] in (mk("attr", fk, "dst_columns"), mk("attr", fk, "columns")) for z in (n, o) for q in subterms(z)):
                bad = "joined on part of the columns of the foreign key"
            elif n is self.label:
                bad = "joined on the number instead of the column referred to"
            elif n.op == "at" and n.a[0] is mk("attr", fk, "columns"):
                bad = "joined on the column of the same name"
            elif not loops:
                pass
            elif any(l.term.a[0].op == "slice" for l in loops):
                bad = "joined on part of the columns of the foreign key"
            else:
                unk = "condition not recognised"
        if not full and not unk and not bad:
            bad = "joined on a single column of the foreign key, which need not be unique"
        rep.check(False if bad else None if unk else True, "join", f"{mode}: condition", x, bad or unk or "")

    def unalias(self, q):
        return q.a[0].a[0] if q.op == "call" and q.a[0].op == "attr" and q.a[0].a[1] == "alias" else q

    def same_sample(self, t, r):
        ka, kb = self.target(t)[1], self.target(r)[1]
        return ka is not None and kb is not None and ka is kb

    def pairs(self, on, depth=0):
        v = self.v
        if depth > 4:
            return None
        if on.op == "sqlop":
            return [(on.a[0], on.a[1], on.a[2], [])]
        if on.op == "call" and is_ext(on.a[0], "sqlalchemy.and_", "sqlalchemy.sql.and_"):
            out = []
            for t in on.a[1]:
                if t.op == "star":
                    if t.a[0].op != "obj":
                        return None
                    cs = v.contribs(t.a[0])
                    while len(cs) == 1 and cs[0].op == "extend" and cs[0].val.op == "obj":
                        cs = v.contribs(cs[0].val)
                    for c in cs:
                        if c.op != "add":
                            return None
                        r = self.pairs(c.val, depth + 1)
                        if r is None:
                            return None
                        inner = [l for l in c.loops if any(q is l.term for q in subterms(c.val))]
                        self.some = self.some or next((g for g, tag in c.guards if tag in SKIP and any(v.varies(g, l.term) for l in c.loops[len(v.e.objs[t.a[0]].loops):])), None)
                        out += [(op, a, b, ls or inner) for op, a, b, ls in r]
                else:
                    r = self.pairs(t, depth + 1)
                    if r is None:
                        return None
                    out += r
            return out
        return None


class Calc(Arith):
    def call(self, t):
        f = t.a[0]
        if f.op == "ext" and f.a[0] in ("builtins.max", "builtins.min", "builtins.abs") and not t.a[2]:
            a = [self.ev(x) for x in t.a[1]]
            if all(isinstance(x, int) for x in a) and a and (len(a) > 1 or f.a[0].endswith("abs")):
                return {"max": max, "min": min, "abs": abs}[f.a[0][9:]](*a)
        return super().call(t)


def is_plan_or_meta(v, t):
    return is_attr(t, "plan", "queries") or t.op == "obj"


def simp_all(t):
    def f(q):
        if q.op == "item" and q.a[0].op == "tuple" and q.a[1].op == "const" and isinstance(cval(q.a[1]), int) and -len(q.a[0].a) <= cval(q.a[1]) < len(q.a[0].a):
            return q.a[0].a[cval(q.a[1])]
        return None

    return rebuild(t, f)
