"""Tables created in the destination reproduce the structure of the source's.

`columns`: a created table has a column for every column of the source table with
its name, type, nullability and part in the primary key.  `constraints`: for every
unique and check constraint, and every foreign key whose target is among the
tables of the sample, a constraint of the same kind over the corresponding columns
of the created tables.  `indexes`: every index is made again with its uniqueness
and condition; one that cannot be (expressions, conditions in another dialect) is
left out, never narrowed to its columns.  `created`: all of this is collected
before the tables are created, in a MetaData object with new tables only.
"""

from ._s import *  # noqa
from .c28 import Names, SRC

FLOORS = {"columns": 5, "unique": 2, "check": 2, "foreign": 4, "indexes": 6, "created": 3}
SA = ("sqlalchemy.", "sqlalchemy.schema.", "sqlalchemy.sql.schema.")
KINDS = (("unique", "UniqueConstraint"), ("check", "CheckConstraint"), ("foreign", "ForeignKeyConstraint"))
PLAINSEQ = ("builtins.list", "builtins.tuple", "builtins.iter", "builtins.enumerate", "builtins.set", "builtins.sorted", "builtins.reversed", "builtins.dict", "builtins.frozenset")
CLONES = (".to_metadata", ".tometadata")


class Quiet:
    def __getattr__(self, n):
        return lambda *a, **k: None


def check(ctx, rep):
    v = SV(ctx, "database")
    Creation(ctx, v, rep).check()
    fill(rep, FLOORS, "sampler.py")


def named(x, name):
    return x.kind == "call" and x.name in {p + name for p in SA}


def clsname(t):
    return t.a[0].split(".")[-1] if t.op == "ext" else ""


class Creation:
    def __init__(self, ctx, v, rep):
        self.ctx, self.v, self.rep, self.e = ctx, v, rep, v.e
        self.names = Names(ctx, v, Quiet())
        self.D, self.S = self.names.D, self.names.S
        self.reflected = {x.recv for x in v.fx if x.name == ".reflect" and x.recv is not None} | {m for m in self.names.metas}
        self.made = [x for x in v.fx if x.name in (".create_all", ".create") and x.recv is not None and self.todest(x)]
        self.tables = [x for x in v.fx if named(x, "Table") and x.result is not None and len(x.args) > 1 and not v.temp_table(x.result) and any(y.recv is x.args[1] or y.recv is x.result for y in self.made)]

    def todest(self, x):
        b = self.v.xkw(x, "bind", 0)
        return b is not None and "dest" in self.v.sides(b)

    # ------------------------------------------------------------- helpers

    def seq(self, s):
        """The collection a sequence ranges over, and whether all of it."""
        whole = True
        for _ in range(8):
            if s.op == "slice":
                s, whole = s.a[0], False
            elif s.op == "call" and is_ext(s.a[0], *PLAINSEQ) and s.a[1]:
                s = s.a[1][0]
            elif s.op == "call" and s.a[0].op == "attr" and s.a[0].a[1] in ("values", "copy", "items") and not s.a[1]:
                s = s.a[0].a[0]
            elif s.op == "view":
                s = s.a[1]
            elif s.op == "obj" and self.e.objs[s].kind != "inst" and len(self.v.contribs(s)) == 1 and self.v.contribs(s)[0].op == "extend" and self.v.contribs(s)[0].val is not None:
                s = self.v.contribs(s)[0].val
            elif s.op == "attr" and s.a[1] == "c":
                s = mk("attr", s.a[0], "columns")
            else:
                break
        return s, whole

    def part(self, t, *attrs):
        """(source table, attribute, loop term) of an element of one of its collections."""
        for _ in range(3):
            if t.op == "item" and t.a[0].op == "at" and t.a[1].op == "const":
                t = t.a[0]
        if t.op == "sel":
            t = t.a[2]
        if t.op != "at":
            return None
        s, whole = self.seq(t.a[0])
        if s.op == "attr" and s.a[1] in attrs:
            return s.a[0], s.a[1], t.a[1], whole
        return None

    def source(self, t):
        return self.names.is_table(t) and self.names.object(t) == SRC

    def varies(self, g, loop):
        if self.v.varies(g, loop):
            return True
        return any(t.op == "obj" and any(l.term is loop for l in self.e.objs[t].loops) for t in subterms(g))

    def inner(self, x, loop):
        """Guards of the iterations of a loop, other than failures."""
        return [g for g, tag in x.guards if tag in SKIP and self.varies(g, loop) and g is not TRUE]

    def stopped(self, x, loop):
        return [tag for tag, c in self.v.exits(x, loop) if tag in ("break", "return")]

    def pieces(self, args):
        """(value, contribution or None) of the arguments of a call."""
        for a in args:
            if a.op == "star":
                o = a.a[0]
                for _ in range(3):
                    if o.op == "call" and is_ext(o.a[0], "builtins.list", "builtins.tuple") and len(o.a[1]) == 1:
                        o = o.a[1][0]
                if o.op == "obj":
                    for c in self.v.contribs(o):
                        if c.op == "extend" and c.val is not None:
                            yield from self.pieces([mk("star", c.val)])
                        elif c.val is not None:
                            yield c.val, c
                else:
                    yield a, None
            else:
                yield a, None

    def settings(self, x):
        """Guards of an effect outside the loop over its table's parts."""
        return [g for g, tag in x.guards if tag in SKIP and g is not TRUE]

    def foreign_key(self, t):
        return any(q.op == "attr" and q.a[1] in ("referred_table", "elements", "referred_schema", "target_fullname") for q in subterms(t))

    # --------------------------------------------------------------- check

    def check(self):
        v, rep = self.v, self.rep
        if not self.tables:
            un = [x for x in v.fx if x.name in CLONES or x.name == ".create_all" and self.todest(x)]
            if un:
                rep.unk("columns", "table", un[0], "creation of tables not recognised")
            else:
                rep.bad("columns", "table", "sampler.py", "tables missing in the destination are not created")
            return
        for x in self.tables:
            self.columns(x)
        self.clones = any(x.name in CLONES for x in v.fx)
        for rule, name in KINDS:
            self.constraint(rule, name)
        self.indexes()
        self.created()

    # ------------------------------------------------------------- columns

    def columns(self, x):
        v, rep = self.v, self.rep
        made = []
        for t, c in self.pieces(x.args[2:]):
            if t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] in {p + "Column" for p in SA}:
                made.append((t, c))
        for y in v.fx:
            if y.name == ".append_column" and y.recv is not None and y.args and y.args[0].op == "call" and clsname(y.args[0].a[0]) == "Column":
                if not any(v.temp_table(y.recv) for _ in (1,)):
                    made.append((y.args[0], y))
        if not made:
            return rep.unk("columns", "column", x, "columns not recognised")
        self.everytable(x)
        for t, c in made:
            args, kw = list(t.a[1]), dict(t.a[2])
            base = None
            for q in args + list(kw.values()):
                for s in subterms(q):
                    p = self.part(s, "columns")
                    if p and self.source(p[0]):
                        base, src = s, p
                        break
                if base is not None:
                    break
            if base is None:
                rep.unk("columns", "column", x, "columns not recognised")
                continue
            bad = unk = None
            if not src[3]:
                bad = f"only {show(base.a[0], 4)} are created"
            if c is not None:
                if self.stopped(c, src[2]):
                    bad = "columns after the first left out are not created"
                for g in self.inner(c, src[2]):
                    bad = f"a column is only created if {show(g, 5)}"
            rep.check(False if bad else True, "columns", "all", x, bad or "")
            given = {"name": args[0] if args else kw.get("name"), "type": args[1] if len(args) > 1 else kw.get("type_"), "nullable": kw.get("nullable"), "primary_key": kw.get("primary_key")}
            for n, q in given.items():
                want = mk("attr", base, n)
                if q is want or n == "name" and q is mk("attr", base, "key"):
                    rep.ok("columns", n, x)
                elif q is None:
                    rep.bad("columns", n, x, f"columns are created without their {n}")
                elif q.op == "const" or q is not_(want):
                    rep.bad("columns", n, x, f"columns are created with {n} {show(q, 4)} instead of that in the source")
                elif n == "type" and q.op == "call" and q.a[0].op == "attr" and q.a[0].a[0] is want and q.a[0].a[1] == "as_generic":
                    rep.bad("columns", n, x, f"{n} is {show(q, 5)}")
                elif n == "primary_key" and self.weaker(q, want):
                    rep.bad("columns", n, x, f"{n} is {show(q, 5)}")
                elif any(s is want for s in v.deep(q)) and n != "nullable":
                    rep.check(None, "columns", n, x, f"{n} is {show(q, 4)}")
                elif n in ("name", "type"):
                    rep.unk("columns", n, x, f"{n} is {show(q, 4)}")
                elif q.op == "attr" and q.a[0] is base:
                    rep.bad("columns", n, x, f"columns are created with {n} {show(q, 4)}")
                else:
                    tq, tw = self.e.truth(q), self.e.truth(want)
                    r = tuple(fixed(tq, {a: b for a in atoms(tq) if a is want or a is tw}) for b in (True, False))
                    if r[0] is TRUE and r[1] is FALSE:
                        rep.ok("columns", n, x)
                    elif (r[0] is FALSE or r[1] is TRUE) or r[0] is not TRUE and not any(s is want for s in v.deep(q)) and n == "nullable":
                        rep.bad("columns", n, x, f"{n} is {show(q, 5)}")
                    elif r[0] is TRUE and all(any(s is base for s in subterms(a)) for a in atoms(r[1])):
                        rep.bad("columns", n, x, f"{n} is {show(q, 5)}")
                    else:
                        rep.unk("columns", n, x, f"{n} is {show(q, 4)}")

    def weaker(self, q, want):
        """q does not hold wherever `want` does: something else about the column or index is asked for too."""
        tq = self.e.truth(q)
        r = fixed(tq, {a: True for a in atoms(tq) if a is want or a is self.e.truth(want)})
        return r is not TRUE and not any(t.op in ("mu", "fin", "call") and not is_ext(t.a[0], "builtins.len", "builtins.bool") for a in atoms(r) for t in subterms(a) if t.op != "call" or t.a[0].op == "ext")

    def existing(self, at):
        """The atom says whether the table is in the destination already."""
        return at.op == "in" and (at.a[1] in self.D or self.names.meta(at.a[1]) == "destination")

    def everytable(self, x):
        v, rep = self.v, self.rep
        bad = unk = None
        for l in x.loops:
            if self.stopped(x, l.term):
                bad = "tables after the first that exists are not created"
            s, whole = self.seq(l.term.a[0])
            if not whole:
                bad = f"only {show(l.term.a[0], 4)} are created"
        for g in self.settings(x):
            known = {at: False for at in atoms(g) if self.existing(at)}
            r = fixed(g, known)
            if r is FALSE:
                bad = "only tables that exist are created again"
            elif r is not TRUE and not self.flag(r):
                unk = f"tables are created if {show(g, 5)}"
                if any(p[-1] in ("passthrough", "merge", "queries", "conflict_strategy") for p in config_deps(v, r)) and any(v.varies(r, l.term) for l in x.loops):
                    bad = unk
        rep.check(False if bad else None if unk else True, "created", "tables", x, bad or unk or "")

    def flag(self, g):
        """The condition is the option to create tables."""
        ats = atoms(g)
        return all(any(q.op == "sym" and q.a[0] == "create" for q in subterms(a)) for a in ats)

    # --------------------------------------------------------- constraints

    def new(self, at):
        """The atom says whether a table is one of those made: its polarity, or None."""
        if self.existing(at):
            return False
        if at.op == "in" and at.a[1].op == "obj" and at.a[1] not in self.S:
            cs = [c for c in self.v.contribs(at.a[1]) if c.op in ("add", "set", "setitem", "default")]
            rs = {self.polarity(c) for c in cs}
            if rs == {False}:
                return True
            if rs == {True}:
                return False
        return None

    def polarity(self, c):
        """False: contributed for tables that do not exist; True: for those that do; None: for both."""
        g = guard(c, SKIP)
        ats = [a for a in atoms(g) if self.existing(a)]
        for value in (True, False):
            if ats and fixed(g, {a: value for a in ats}) is FALSE:
                return not value
        return None

    def outer(self, x, loop):
        """Why the parts of some created tables are left out: (bad, unknown)."""
        bad = unk = None
        for g, tag in x.guards:
            if tag not in SKIP or self.varies(g, loop):
                continue
            known = {}
            for a in atoms(g):
                p = self.new(a)
                if p is not None:
                    known[a] = p
            r = fixed(g, known)
            if r is FALSE:
                bad = f"only done for tables that exist: {show(g, 4)}"
            elif r is not TRUE and not self.flag(r):
                unk = f"only done if {show(r, 5)}"
                if config_deps(self.v, r) and any(p[-1] in ("merge", "conflict_strategy", "truncate", "passthrough") for p in config_deps(self.v, r)):
                    bad = unk
        for l in x.loops:
            if l.term is not loop and self.stopped(x, l.term):
                bad = "tables after the first left out are not completed"
            if l.term is not loop and not self.seq(l.term.a[0])[1]:
                bad = f"only done for {show(l.term.a[0], 4)}"
        return bad, unk

    def constraint(self, rule, name):
        v, rep = self.v, self.rep
        found = []
        for x in v.fx:
            if not named(x, name):
                continue
            for l in x.loops:
                s, whole = self.seq(l.term.a[0])
                if s.op == "attr" and s.a[1] in ("constraints", "foreign_key_constraints") and self.source(s.a[0]):
                    found.append((x, l, s, whole))
        if not found:
            other = self.clones or any(named(x, name) for x in v.fx)
            return rep.check(None if other else False, rule, "made", "sampler.py", f"{name}s of the source are not created")
        for x, l, s, whole in found:
            p = next((t for g, _ in x.guards for a in atoms(g) for t in subterms(a) if t.op == "at" and t.a[1] is l.term), None)
            if p is None:
                p = next((t for q in list(x.args) + [b for _, b in x.kw or ()] for t in v.deep(q) if t.op == "at" and t.a[1] is l.term), None)
            bad, unk = self.outer(x, l.term)
            if not whole:
                bad = f"only {show(l.term.a[0], 4)} are copied"
            if self.stopped(x, l.term):
                bad = "constraints after some are not created"
            refs = False
            for g in self.inner(x, l.term):
                known = {}
                for a in atoms(g):
                    if a.op == "isinst":
                        known[a] = clsname(a.a[1]) == name
                    elif rule == "foreign" and a.op == "in" and self.foreign_key(a.a[0]):
                        refs = True
                        known[a] = True
                        if self.only(a.a[1]) is not None:
                            bad = f"only references to tables {'just created' if not self.only(a.a[1]) else 'that exist'} are created"
                        elif is_attr(a.a[1], "plan", "passthrough") or a.a[1] in self.D:
                            bad = f"references are only created if {show(a, 5)}"
                    elif rule == "foreign" and a.op in ("is", "eq") and any(q is s.a[0] for q in a.a):
                        pass
                    elif rule == "foreign" and self.foreign_key(a):
                        refs = True
                        unk = f"only if {show(a, 5)}"
                        known[a] = True
                r = fixed(g, known)
                if r is FALSE and not unk:
                    bad = f"created unless {show(not_(g), 5)}"
                elif r is not TRUE and r is not FALSE:
                    bad = f"only created if {show(r, 5)}"
            if rule == "foreign" and not refs:
                if x.tries and any("KeyError" in str(q) or "LookupError" in str(q) or "Exception" in str(q) for q in x.tries):
                    unk = unk or "references to other tables may fail"
                else:
                    bad = bad or "keys to tables that are not part of the sample are created as well"
            rep.check(False if bad else None if unk else True, rule, "made", x, bad or unk or "")
            self.attached(rule, x, p)
            if p is not None:
                getattr(self, "args_" + rule)(x, p)

    def only(self, c):
        """True / False if the container holds tables that exist / are new only."""
        if c.op == "view":
            c = c.a[1]
        if c.op != "obj":
            return None
        rs = {self.polarity(k) for k in self.v.contribs(c) if k.op in ("add", "set", "setitem", "default")}
        return next(iter(rs)) if len(rs) == 1 else None

    def attached(self, rule, x, p):
        v, rep = self.v, self.rep
        users = [y for y in v.fx if y.name == ".append_constraint" and y.args and any(t is x.result for t in subterms(y.args[0]))]
        if users:
            y = users[0]
            extra = [g for g, tag in y.guards if tag in SKIP and g not in [h for h, _ in x.guards]]
            dst = self.names.object(y.recv)
            if dst == SRC:
                return rep.bad(rule, "attached", y, "the constraint is added to the source's table")
            return rep.check(None if extra else True, rule, "attached", y, f"only if {show(extra[0], 4)}" if extra else "")
        used = any(t is x.result for y in self.tables for a in y.args for t in v.deep(a)) or any(t is x.result for o in self.e.objs for c in v.contribs(o) if c.val is not None for t in subterms(c.val))
        rep.check(None if used or rule != "check" else False, rule, "attached", x, "the constraint is not added to a table")

    def mapped(self, val, cols, p, own=True):
        """How a column of a constraint is translated: True, a complaint, or None."""
        v = self.v
        if val.op == "item" and val.a[0].op == "attr" and val.a[0].a[1] in ("columns", "c"):
            tab, key = val.a[0].a[0], val.a[1]
            if self.source(tab):
                return "columns of the source's tables are used"
            if key.op == "attr" and key.a[1] in ("name", "key"):
                return True
            return None
        if val.op == "attr" and val.a[1] in ("name", "key") and own:
            return True
        if val.op == "at" or val.op == "attr" and val.a[1] == "column":
            return "columns of the source's tables are used"
        if val.op == "attr" and val.a[1] == "target_fullname":
            return "keys refer to tables by the name they have in the source"
        return None

    def ranged(self, args, p, attrs):
        """Values given for the columns of a constraint: (value, loop term, attr, whole, contribution)."""
        out = []
        for val, c in self.pieces(args):
            hit = None
            for t in self.v.deep(val):
                q = self.part(t, *attrs)
                if q and q[0] is p:
                    hit = (val, q[2], q[1], q[3], c, t)
                    break
            out.append(hit or (val, None, None, True, c, None))
        return out

    def list_of(self, t):
        return [mk("star", t)] if t.op != "tuple" else list(t.a)

    def columns_of(self, rule, what, x, args, p, own=True, attrs=("columns", "column_keys", "elements", "expressions")):
        """Check one list of columns; which collections of the constraint it comes from."""
        rep, bad, unk, seen = self.rep, None, None, set()
        for val, loop, attr, whole, c, el in self.ranged(args, p, attrs):
            if loop is None:
                unk = f"{show(val, 4)} not recognised"
                continue
            seen.add(attr)
            if not whole:
                bad = "only some of the columns are used"
            if c is not None and self.inner(c, loop):
                bad = f"a column is only used if {show(self.inner(c, loop)[0], 5)}"
            for g, q in self.v.alts(val):
                if any(a.op == "isinst" for a in atoms(g)) and q is el:
                    continue
                r = self.mapped(q, attr, p, own)
                if r is None:
                    unk = f"{show(q, 4)} not recognised"
                elif r is not True:
                    bad = r
        return bad, unk, seen

    def args_unique(self, x, p):
        bad, unk, seen = self.columns_of("unique", "columns", x, x.args, p)
        self.rep.check(False if bad else None if unk else True, "unique", "columns", x, bad or unk or "")

    def args_check(self, x, p):
        t = x.args[0] if x.args else self.v.xkw(x, "sqltext")
        want = mk("attr", p, "sqltext")
        self.rep.check(None if t is None or not any(q is want for q in subterms(t)) else True, "check", "text", x, "condition not recognised")

    def args_foreign(self, x, p):
        v, rep = self.v, self.rep
        own, ref = v.xkw(x, "columns", 0), v.xkw(x, "refcolumns", 1)
        if own is None or ref is None:
            return rep.unk("foreign", "columns", x, "columns not recognised")
        for what, t, good in (("columns", own, ("columns", "column_keys")), ("referred", ref, ("elements",))):
            bad, unk, seen = self.columns_of("foreign", what, x, self.list_of(t), p, own=what == "columns")
            if t.op == "call" and is_ext(t.a[0], "builtins.sorted", "builtins.reversed", "builtins.set"):
                bad = "columns that refer and columns referred to are not in the same order"
            if seen and not seen & set(good) and not bad:
                el = [q for q in v.deep(t) if q.op == "attr" and q.a[1] == "parent"]
                if what == "columns" and seen == {"elements"} and not el:
                    bad = "the referring columns are those referred to"
                elif what == "referred" and seen <= {"columns", "column_keys"}:
                    bad = "the columns referred to are the referring ones"
            if what == "referred" and not bad and seen == {"elements"}:
                own_ = [q for q in subterms_of(v, t) if q.op == "attr" and q.a[1] == "parent" and q.a[0].op == "at" and q.a[0].a[0] is mk("attr", p, "elements")]
                if own_:
                    bad = "the columns referred to are the referring ones"
            rep.check(False if bad else None if unk else True, "foreign", what, x, bad or unk or "")

    # -------------------------------------------------------------- indexes

    def indexes(self):
        v, rep = self.v, self.rep
        found = []
        for x in v.fx:
            if not named(x, "Index"):
                continue
            for l in x.loops:
                s, whole = self.seq(l.term.a[0])
                if s.op == "attr" and s.a[1] == "indexes" and self.source(s.a[0]):
                    found.append((x, l, whole))
        if not found:
            return rep.check(None if self.clones else False, "indexes", "made", "sampler.py", "indexes of the source are not created")
        for x, l, whole in found:
            p = next((t for q in list(x.args) + [b for _, b in x.kw or () if isinstance(b, T)] for t in v.deep(q) if t.op == "at" and t.a[1] is l.term), None)
            if p is None:
                rep.unk("indexes", "made", x, "indexes not recognised")
                continue
            bad, unk = self.outer(x, l.term)
            if not whole:
                bad = f"only {show(l.term.a[0], 4)} are created"
            if self.stopped(x, l.term):
                bad = "indexes after some are not created"
            text = cond = False
            for g in self.inner(x, l.term):
                known = {}
                for a in atoms(g):
                    d = v.deep(a, ctrl=True)
                    if any(q.op == "attr" and q.a[0] is p and q.a[1] in ("dialect_kwargs", "dialect_options", "kwargs") for q in d):
                        known[a] = self.absent(a)
                        cond = True
                    elif any(q is mk("attr", p, "expressions") for q in d):
                        known[a] = self.absent(a)
                        text = True
                r = fixed(g, known) if None not in known.values() else None
                if any(a.op in ("exists", "truth", "in") and known[a] is False for a in known) and cond:
                    other = {**{a: True for a in known}, **{a: False for a in atoms(g) if a.op == "eq" and any(t.op == "attr" and t.a[1] == "dialect" for t in subterms(a))}}
                    if len(other) > len(known) and fixed(g, other) is TRUE:
                        bad = "partial indexes are created without their condition in a destination of another dialect"
                if r is None:
                    unk = f"only created if {show(g, 5)}"
                elif r is FALSE:
                    bad = f"only created if {show(g, 5)}"
                elif r is not TRUE:
                    bad = f"only created if {show(r, 5)}"
            rep.check(False if bad else None if unk else True, "indexes", "made", x, bad or unk or "")
            self.index(x, p, text, cond)

    def absent(self, a):
        """The value of the atom for an index without expressions or conditions."""
        if a.op in ("exists", "truth", "in"):
            return False
        if a.op in ("lt", "eq", "is"):
            return None
        return None

    def index(self, x, p, text, cond):
        v, rep = self.v, self.rep
        kw = dict(x.kw or ())
        u = kw.get("unique")
        want = mk("attr", p, "unique")
        bad = None
        if u is None:
            bad = "unique indexes are created as ordinary ones"
        elif u.op == "const" or u is not_(want):
            bad = f"indexes are created with unique={show(u, 4)}"
        elif u is not want and any(t is want for t in v.deep(u)) and self.weaker(u, want):
            bad = f"indexes are created with unique={show(u, 5)}"
        rep.check(False if bad else True if u is want else None if any(t is want for t in v.deep(u)) else None, "indexes", "unique", x, bad or f"unique={show(u, 4) if u is not None else ''}")
        args = list(x.args[1:])
        bad, unk, seen = self.columns_of("indexes", "columns", x, args, p, attrs=("columns", "expressions"))
        rep.check(False if bad else None if unk else True, "indexes", "columns", x, bad or unk or "")
        if seen == {"columns"}:
            rep.check(text, "indexes", "expressions", x, "an index over expressions is created over its columns only")
        else:
            rep.check(True if text else None, "indexes", "expressions", x, "expressions of indexes")
        opts = [b for k, b in (x.kw or ()) if k == "**"]
        given = any(t.op == "attr" and t.a[0] is p and t.a[1] in ("dialect_kwargs", "kwargs") for b in opts for t in v.deep(b))
        where = [k for k in kw if k.endswith("_where")]
        rep.check(True if given else None if where or opts else False, "indexes", "condition", x, "partial indexes are created without their condition")
        if not where:
            rep.check(cond, "indexes", "dialect", x, "partial indexes are created without their condition in a destination of another dialect")
        self.index_name(x, p)

    def index_name(self, x, p):
        v, rep = self.v, self.rep
        name = x.args[0] if x.args else v.xkw(x, "name")
        if name is None or name is NONE:
            return rep.unk("indexes", "name", x, "no name given")
        bad = unk = None
        for g, q in v.alts(name):
            d = set(subterms(q))
            number = any(t.op in ("idx", "rank", "rankof") and any(s.op == "attr" and s.a[1] == "indexes" for s in subterms(t)) for t in d) or any(t is mk("attr", p, "name") for t in d) or any(t.op in ("mu", "fin") for t in d)
            full = [t for t in subterms(q, stop=lambda t: t.op in ("slice", "call", "idx", "rank", "rankof")) if self.tablename(t)]
            cut = [t for t in subterms(q) if t.op == "slice" and any(self.tablename(s) for s in subterms(t, stop=lambda s: s.op == "call")) and any(self.tablename(s) for s in subterms(t.a[0], stop=lambda s: s.op == "call"))]
            hashed = [t for t in subterms(q) if t.op == "call" and any(self.tablename(s) for s in subterms(t)) and any(w in show(t.a[0], 6) for w in ("hash", "sha", "md5", "crc", "uuid", "blake", "digest"))]
            if not number:
                bad = "indexes of a table do not differ in name"
            if full and not any(s.op == "call" and is_ext(s.a[0], "builtins.len") for a in atoms(g) for s in subterms(a)):
                bad = "names of indexes of tables with long names exceed the limits of databases"
            if full:
                for a in atoms(g):
                    if a.op == "lt" and fixed(g, {a: True}) is not FALSE and a.a[0].op == "const" and any(self.tablename(s) for s in subterms(a.a[1])):
                        bad = "names of indexes of tables with long names exceed the limits of databases"
            if not full and cut and not hashed:
                bad = "indexes of different tables have the same name if their names only differ at the end"
            if not full and not cut and not hashed and not any(t.op == "attr" and t.a[0] is p for t in d):
                unk = f"{show(q, 4)} not recognised"
        rep.check(False if bad else None if unk else True, "indexes", "name", x, bad or unk or "")

    def tablename(self, t):
        return t.op == "attr" and t.a[1] in ("name", "fullname", "key") and (self.names.is_table(t.a[0]) or t.a[0].op == "item") or self.names.unit(t) is not None

    # -------------------------------------------------------------- created

    def created(self):
        v, rep = self.v, self.rep
        for y in v.fx:
            if y.name in (".create_all", ".create", ".drop_all", ".drop") and y.recv is not None and self.todest(y):
                old = y.recv in self.reflected or any(t in self.reflected for t in subterms(y.recv, stop=lambda t: t.op == "call" and t is not y.recv))
                rep.check(not old, "created", "existing", y, "tables that exist are changed")
        last = max([y.seq for y in v.fx if y.kind == "call" and (y.name == ".append_constraint" or named(y, "Index")) and any(self.seq(l.term.a[0])[0].op == "attr" and self.seq(l.term.a[0])[0].a[1] in ("constraints", "indexes", "foreign_key_constraints") for l in y.loops)], default=0)
        late = [y for y in self.made if y.name == ".create_all" and y.seq < last]
        ok = [y for y in self.made if y.name == ".create_all" and y.seq > last]
        rep.check(bool(ok) or not late, "created", "complete", (late or self.made)[0], "tables are created before their constraints and indexes are added")
        for y in self.made:
            bad = unk = None
            for g in self.settings(y):
                if self.flag(g):
                    continue
                if g.op == "exists" or all(a.op in ("exists", "truth") and not config_deps_direct(a) for a in atoms(g)):
                    continue
                unk = f"tables are only created if {show(g, 5)}"
            rep.check(None if unk else True, "created", "call", y, unk or "")


def config_deps_direct(a):
    return any(attr_path(t) and attr_path(t)[0] == "config" and attr_path(t)[-1] in ("merge", "conflict_strategy") for t in subterms(a))


def subterms_of(v, t):
    return v.deep(t)
