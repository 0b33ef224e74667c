"""A sample that others refer to is taken once.

`once`: the planned query of a table fills one temporary table; further copies
are made from that table.  `own`: the output of a table reads its kept sample
whenever there is one.  `uses`: where a query refers to a sample, the kept
sample of that very table is read, and the table itself where it does not.
`which`: the tables kept include every one that a planned query refers to as
sampled and every one whose compacted columns a planned table refers to.
`order`: they are filled in the order of these references.  `before`: all are
filled before anything is read for output.  `connection`: all statements on
temporary tables and all reads use the connection that made them.
"""

from ..table import Table, Undecided
from ._m import *  # noqa

FLOORS = {"once": 2, "own": 2, "uses": 4, "which": 4, "order": 2, "before": 2, "connection": 4}


def check(ctx, rep):
    for mode in ("database", "directory"):
        v = MV(ctx, mode)
        if not v.reads:
            broken("no query on the source found")
        if not v.tables or not v.T:
            if not v.tables:
                rep.bad("once", mode, v.reads[0], "no sample is kept")
            continue
        Once(ctx, v, rep, mode).check()
    fill(rep, FLOORS, "sampler.py")


def highest(d, c, g):
    """g says that the new value is the highest so far, or the first."""
    if g.op != "lt" or c.op != "set" or g.a[1] is not c.val:
        return False
    o = g.a[0]
    return o.op == "phi" and o.a[0].op == "in" and o.a[0].a[0] is c.key and o.a[0].a[1] is d and o.a[2].op == "const" and cv(o.a[2]) in (0, -1)


class Once:
    def __init__(self, ctx, v, rep, mode):
        self.ctx, self.v, self.rep, self.mode = ctx, v, rep, mode
        self.ident = ctx.name("plan_model", "SQLTableIdentifier")

    def check(self):
        self.once()
        self.own()
        self.uses()
        self.before()
        self.connection()
        main = [(x, t) for x, t, s in self.v.fills if any(q in self.v.made for _, q in self.v.leaves(s))]
        for x, t in main[:1]:
            self.which(x)
            self.order(x)

    # ----------------------------------------------------------------- once

    def once(self):
        v, rep = self.v, self.rep
        from_query = []
        for x, t, s in v.fills:
            ls = v.leaves(s)
            made = [q for _, q in ls if q in v.made]
            if made:
                from_query.append((x, t, s))
        if not from_query:
            return rep.unk("once", self.mode, v.reads[0], "filling of temporary tables not recognised")
        for i, (x, t, s) in enumerate(from_query):
            bad = None
            for y, _, _ in from_query[:i]:
                both = and_(*[g for g, _ in x.guards + y.guards])
                if both is not FALSE and self.possible(both):
                    bad = "a table is sampled more than once"
            for l in x.loops:
                if l.term.a[0].op == "range":
                    bad = bad or "a table is sampled more than once"
            rep.check(not bad, "once", self.mode, x, bad or "")
        self.copies([x for x, t, s in v.fills if (x, t, s) not in from_query])
        self.enough()

    def copies(self, xs):
        """Where every use needs a copy of its own, there are enough for the query with most uses."""
        v = self.v
        for x in xs:
            for l in x.loops:
                if l.term.a[0].op != "range":
                    continue
                for t in subterms(l.term.a[0].a[1]):
                    d = t.a[0] if t.op == "item" else None
                    if d is None or d.op != "obj" or v.e.objs[d].kind != "dict":
                        continue
                    for c in v.contribs(d):
                        if c.op != "set" or c.val is None or len([k for k in c.loops if k not in v.e.objs[d].loops]) < 2:
                            continue
                        seen = any(d in set(subterms(q)) for q in [c.val] + [g for g, _ in c.guards])
                        if seen and self.lower(d, c):
                            self.rep.bad("once", self.mode, x, "the number of copies of a sample is not that of the query with most references to it")
                        if not seen and attr_path(c.loops[0].term.a[0]) == ("plan", "queries") and c.loops[0] not in v.e.objs[d].loops and not v.varies(c.key, c.loops[0].term):
                            self.rep.bad("once", self.mode, x, "only the last query that refers to a sample counts for the number of its copies")

    def enough(self):
        """The number of copies is the number of uses."""
        v = self.v
        for o in v.T:
            for c in v.contribs(o):
                if c.key is None or c.key.op != "tuple" or len(c.key.a) < 3:
                    continue
                for l in c.loops:
                    r = l.term.a[0]
                    if r.op != "range":
                        continue
                    off = dict(poly(c.key.a[2]) or {})
                    at = [m for m in off if m and m[0].op in ("at", "idx") and any(t is r for t in subterms(m[0]))]
                    if len(at) != 1 or off.pop(at[0]) != 1 or set(off) - {()}:
                        continue
                    off = off.get((), 0)
                    for _, stop in v.alts(r.a[1]):
                        p = dict(poly(stop) or {})
                        n = [m for m in p if len(m) == 1 and m[0].op == "item" and m[0].a[0].op == "obj" and v.e.objs[m[0].a[0]].kind == "dict"]
                        if len(n) != 1 or p.pop(n[0]) != 1 or set(p) - {()}:
                            continue
                        if p.get((), 0) + off < 0:
                            self.rep.bad("once", self.mode, c, "there are fewer copies of a sample than uses of it in one query")
                    if is_const(r.a[0]) and isinstance(cval(r.a[0]), int) and cval(r.a[0]) + off > 1:
                        self.rep.bad("once", self.mode, c, "the first copy of a sample is not made")

    def lower(self, d, c):
        """The highest count so far is not kept, or not replaced by a higher one."""
        v = self.v
        old = {t for q in [c.val] + [g for g, _ in c.guards] for t in subterms(q) if t.op == "item" and t.a[0] is d and t.a[1] is c.key}
        there = {t for q in [c.val] + [g for g, _ in c.guards] for t in subterms(q) if t.op == "in" and t.a[1] is d and t.a[0] is c.key}
        about = lambda t: any(q.op in ("item", "in") and q in old | there for q in subterms(t))
        new, st = set(), [c.val]
        while st:
            t = st.pop()
            if t in old | there or t.op in ("const", "ext"):
                continue
            if t.op == "phi" or t.op in ("call", "bin") and about(t) or is_bool(t) and t.op != "in":
                st += [k for k in v._flat(t.a) if isinstance(k, T)]
            else:
                new.add(t)
        if len(new) != 1 or not old:
            return False
        n = next(iter(new))
        gs = [g for g, tag in c.guards if tag in SKIP and about(g)]
        for was, now in ((3, 5), (5, 3)):
            tb = Table(v, {**{t: was for t in old}, **{t: True for t in there}, n: now})
            try:
                got = tb.ev(c.val) if all(tb.true(g) for g in gs) else was
            except (Undecided, TypeError):
                continue
            if isinstance(got, int) and got < max(was, now):
                return True
        return False

    def possible(self, g):
        r = fixed(g, {})
        return r is not FALSE

    # ------------------------------------------------------------------ own

    def present(self, g, key=None):
        """The condition, where there is a kept sample of the table."""
        v = self.v
        known = {}
        for at in atoms(g):
            if at.op == "in" and at.a[1] in v.T:
                known[at] = True
            elif at.op == "is" and NONE in at.a and any(v.sample_of(t) is not None for t in at.a):
                known[at] = False
            elif at.op == "truth" and v.sample_of(at.a[0]) is not None:
                known[at] = True
        return fixed(g, known)

    def own(self):
        v, rep = self.v, self.rep
        for x in v.reads:
            ls = v.leaves(x.args[0])
            if not any(q in v.made for _, q in ls):
                continue
            bad, unk = None, None
            mine = False
            src = [q for _, q in ls if q in v.made]
            for g, q in ls:
                if q in v.made:
                    b = v.made[q]
                    r = self.present(and_(g, *[c for c, _ in b.guards]))
                    if r is FALSE:
                        continue
                    left = [at for at in atoms(r) if any(t.op == "obj" and t not in v.T for t in subterms(at)) and at.op == "in" and not self.about_compaction(at)]
                    if left:
                        unk = "depends on another collection"
                    else:
                        bad = "the table is sampled again although its sample was kept"
                else:
                    k = v.sample_of(q)
                    if k is not None and any(v.same_table(k, v.made[p].recv) for p in src):
                        mine = True
                    elif k is not None and k.op == "tuple" and len(k.a) > 2 and not self.compacted(k):
                        unk = unk or "other sample read"
            if not mine and not bad:
                unk = unk or "kept sample not read"
            rep.check(False if bad else None if unk else True, "own", self.mode, x, bad or unk or "")

    def about_compaction(self, at):
        return any(is_attr(t, "config", "compact") or t.op == "attr" and t.a[1] == "compact" for q in [at] for t in self.v.deep(q))

    def compacted(self, k):
        """The key of a sample that a foreign key refers to."""
        return any(t.op == "attr" and t.a[1] in ("dst_schema", "dst_table", "foreign_keys") for t in self.v.deep(k))

    # ----------------------------------------------------------------- uses

    def uses(self):
        v, rep = self.v, self.rep
        used = set()
        for x in v.reads:
            used |= {q for _, q in v.leaves(x.args[0]) if q in v.made}
        for x, t, s in v.fills:
            used |= {q for _, q in v.leaves(s) if q in v.made}
        for (r, a), (p, val) in v.callbacks.items():
            if r not in used:
                continue
            for want in (True, False):
                bad, unk = None, None
                n = 0
                for g, q in v.alts(val):
                    at = mk("truth", mk("attr", p, "sampled"))
                    g = fixed(g, {at: want})
                    if g is FALSE:
                        continue
                    n += 1
                    k = v.sample_of(q)
                    if k is not None:
                        if not want:
                            bad = "a reference to the whole table reads the sample"
                        elif k.op != "tuple" or len(k.a) < 2:
                            unk = "key not recognised"
                        elif not (k.a[0] is mk("attr", p, "table_schema") and k.a[1] is mk("attr", p, "table_name")):
                            unk = "key not recognised"
                            if all(self.about(t, p) for t in k.a[:2]):
                                bad = "the sample of another table is read"
                    elif q.op == "attr" and q.a[1] == "table_obj":
                        if want:
                            bad = "a reference to the sample reads the whole table"
                        elif q.a[0].op == "item" and q.a[0].a[1].op == "tuple":
                            k = q.a[0].a[1]
                            if not (len(k.a) == 2 and k.a[0] is mk("attr", p, "table_schema") and k.a[1] is mk("attr", p, "table_name")):
                                unk = "key not recognised"
                    else:
                        unk = f"table {show(q, 4)}"
                rep.check(False if bad else None if unk or not n else True, "uses", f"{self.mode}: {'sampled' if want else 'whole'}", v.made[r], bad or unk or "")

    def about(self, t, p):
        return t.op == "attr" and t.a[0] is p

    # --------------------------------------------------------------- before

    def before(self):
        v, rep = self.v, self.rep
        for x in v.reads:
            bad = None
            for y, t, s in v.fills:
                if {l.term for l in x.loops} & {l.term for l in y.loops}:
                    bad = "samples are kept while others are already read"
                elif y.seq > x.seq:
                    bad = "samples are kept after they are needed"
            rep.check(not bad, "before", self.mode, x, bad or "")

    # ----------------------------------------------------------- connection

    def connection(self):
        v, rep = self.v, self.rep
        cs = {}
        for x, t, s in v.fills:
            cs.setdefault(connection(x.recv), []).append(x)
        for x in v.reads:
            cs.setdefault(connection(x.recv), []).append(x)
        for x in v.fx:
            if x.name in (".create_all", ".create") and x.recv is not None:
                ts = [t for t in v.deep(x.recv) if t in v.tables] if x.name == ".create" else [t for t in v.tables if len(t.a[1]) > 1 and t.a[1][1] is x.recv]
                b = v.xkw(x, "bind", 0)
                if ts and b is not None and any(t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0].endswith("Index") for t in [x.recv]) is False:
                    cs.setdefault(connection(b), []).append(x)
        main = max(cs, key=lambda c: len(cs[c]))
        owner = next((connection(x.recv) for x, _, _ in v.fills), main)
        for c, xs in cs.items():
            ok = c is owner
            for x in xs:
                if ok:
                    conn = [y for y in v.fx if y.result is c]
                    if conn and set(l.uid for l in conn[0].loops) - set() and any(l.term not in {k.term for k in y.loops} for y in xs for l in conn[0].loops):
                        rep.unk("connection", self.mode, x, "connection made in a loop")
                    elif conn and conn[0].loops:
                        rep.bad("connection", self.mode, conn[0], "a new connection is made for each table, so that kept samples are lost")
                    else:
                        rep.ok("connection", self.mode, x)
                else:
                    others = [t for _, t in v.alts(c) if t is not owner and connection(t) is not owner]
                    made = lambda t: t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("connect", "begin")
                    known = c.op == "phi" and others and all(made(t) for t in others) or c.op == "call" and c.a[0].op == "attr" and c.a[0].a[1] in ("connect", "begin") or v.sides(c) and c.op != "phi" and c.op == "call"
                    rep.check(False if known else None, "connection", self.mode, x, "another connection than the one that made the temporary tables is used")

    # ---------------------------------------------------------------- which

    def origins(self, d, guards=(), depth=0):
        """(kind, identifier, guards) for what can be in a collection."""
        v = self.v
        out = []
        if depth > 6 or d.op != "obj":
            return [(None, d, guards)]
        for c in v.contribs(d):
            gs = tuple(guards) + tuple((g, tag) for g, tag in c.guards if not highest(d, c, g))
            if c.op in ("clear", "del", "pop", "discard", "remove", "diff", "inter"):
                out.append((None, d, gs))
                continue
            ob = v.e.objs[d]
            k = c.key if ob.kind == "dict" and c.op != "extend" else c.val
            if k is None:
                out.append((None, d, gs))
                continue
            out += self.origin(k, gs, c, depth)
        return out

    def origin(self, k, gs, c, depth):
        v = self.v
        if c.op == "extend" or c.op == "update":
            if k.op == "view" and k.a[0] == "keys":
                k = k.a[1]
            return self.origins(k, gs, depth + 1)
        if k.op in ("key", "at") and k.a[0].op == "obj":
            return self.origins(k.a[0], gs, depth + 1)
        if k.op == "tuple" and len(k.a) == 2:
            a, b = k.a
            if a.op == b.op == "attr" and a.a[0] is b.a[0]:
                if (a.a[1], b.a[1]) == ("table_schema", "table_name") and a.a[0].op == "at" and a.a[0].a[0].op == "attr" and a.a[0].a[0].a[1] == "<identifiers>":
                    return [("sampled", a.a[0], gs)]
                if (a.a[1], b.a[1]) == ("dst_schema", "dst_table"):
                    return [("compacted", a.a[0], gs)]
            if a.op == b.op == "item" and a.a[0] is b.a[0] and a.a[0].op in ("key", "at") and a.a[0].a[0].op == "obj":
                return self.origins(a.a[0].a[0], gs, depth + 1)
        return [(None, k, gs)]

    def plain(self, gs):
        """Guards that are conditions of their own."""
        return and_(*[g for g, tag in gs if tag != "raise"])

    def which(self, x):
        v, rep, mode = self.v, self.rep, self.mode
        loop = next((l for l in x.loops), None)
        if loop is None:
            return rep.unk("which", mode, x, "loop over tables not found")
        colls = []
        other = []
        for g, tag in x.guards:
            if tag == "raise":
                continue
            for at in atoms(g):
                if not any(t is loop.term for t in subterms(at)):
                    continue
                if at.op == "in" and at.a[1].op == "obj":
                    colls.append(at.a[1])
                else:
                    other.append(at)
        seq = loop.term.a[0]
        if not colls and seq.op == "obj":
            colls = [seq]
        cnt = [at for at in other if at.op == "lt"]
        for n in ("sampled", "compacted"):
            if cnt:
                rep.bad("which", f"{mode}: {n}", x, "only some of the samples referred to are kept")
                continue
            if other:
                rep.unk("which", f"{mode}: {n}", x, f"depends on {show(other[0], 4)}")
                continue
            if not colls:
                rep.check(True if seq.op == "call" and seq.a[0].op == "func" else None, "which", f"{mode}: {n}", x, "collection not found")
                continue
            os = [o for c in colls for o in self.origins(c)]
            mine = [o for o in os if o[0] == n]
            unknown = [o for o in os if o[0] is None]
            if not mine:
                rep.check(None if unknown else False, "which", f"{mode}: {n}", x, f"samples are not kept for {'references of other queries' if n == 'sampled' else 'references to compacted columns'}")
                continue
            rs = [self.sampled_guard(o) if n == "sampled" else self.compact_guard(o) for o in mine]
            best = True if True in [r for r, _ in rs] else None if None in [r for r, _ in rs] or unknown else False
            rep.check(best, "which", f"{mode}: {n}", x, next((m for r, m in rs if r is not True), ""))

    def sampled_guard(self, o):
        _, p, gs = o
        g = fixed(self.plain(gs), {mk("truth", mk("attr", p, "sampled")): True})
        if g is TRUE:
            return True, ""
        if any(at.op == "lt" for at in atoms(g)):
            return False, "only some references to samples count"
        if any(at.op == "truth" and at.a[0].op == "attr" for at in atoms(g)) and not any(t.op in ("mu", "fin") for t in subterms(g)):
            return False, f"a reference to a sample only counts if {show(g, 4)}"
        for at in atoms(g):
            if at.op == "in" and at.a[0].op == "tuple" and all(t.op == "attr" and t.a[0] is p for t in at.a[0].a) and self.about_compaction(at):
                return False, "whether a reference to a sample counts depends on compaction"
        return None, f"condition {show(g, 4)}"

    def compact_guard(self, o):
        v = self.v
        _, fk, gs = o
        g = self.plain(gs)
        if g is TRUE:
            return True, ""
        bad = None
        ok = []
        for c in conj(g):
            neg = c.op == "not"
            e = c.a[0] if neg else c
            if e.op != "exists":
                if self.about_compaction(e):
                    # every table with compacted columns is asked for
                    if e.op == "in" and e.a[0].op == "tuple" and all(t.op == "attr" and t.a[0] is fk for t in e.a[0].a):
                        continue
                    if e.op == "truth" and not neg:
                        continue
                if e.op == "truth" and not neg and e.a[0].op == "attr" and e.a[0].a[0] is fk:
                    continue
                if e.op == "in" and not neg and e.a[0].op == "tuple" and all(t.op == "attr" and t.a[0] is fk for t in e.a[0].a) and any(q[0] == "sampled" for q in self.origins(e.a[1])):
                    bad = "only tables that queries refer to as well count"
                    continue
                if atoms(c) and all(at.op == "eq" and any(t.op == "attr" and t.a[0] is fk and t.a[1] in ("dst_schema", "dst_table") for t in subterms(at)) for at in atoms(c)):
                    bad = f"references only count if {show(c, 4)}"
                    continue
                return None, f"condition {show(g, 4)}"
            inner = e.a[1]
            l = e.a[0]
            over = l.a[0]
            if over.op == "attr" and over.a[0] is fk and over.a[1] == "dst_columns" or over.op == "zip" and any(t.op == "attr" and t.a[1] == "dst_columns" for t in over.a):
                if neg:
                    bad = "only foreign keys with all columns compacted count"
                    continue
                ok.append(inner)
            elif over.op == "attr" and over.a[0] is fk and over.a[1] == "columns":
                bad = "the columns of the referring table are looked at"
            elif neg or over.op not in ("item", "phi", "obj"):
                return None, f"condition {show(g, 4)}"
            else:
                ok.append(inner)
        return (False, bad) if bad else (True, "")

    # ---------------------------------------------------------------- order

    def order(self, x):
        v, rep, mode = self.v, self.rep, self.mode
        loop = x.loops[0]
        s, rev = loop.term.a[0], bool(loop.rev)
        srt = loop.sort or loop.unordered
        for _ in range(6):
            if s.op == "call" and is_ext(s.a[0], "builtins.reversed"):
                rev, s = not rev, s.a[1][0]
            elif s.op == "slice" and cv(s.a[3]) == -1:
                rev, s = not rev, s.a[0]
            elif s.op == "call" and is_ext(s.a[0], "builtins.list", "builtins.tuple") and s.a[1]:
                s = s.a[1][0]
            elif s.op == "call" and is_ext(s.a[0], "builtins.sorted", "builtins.set"):
                srt, s = True, s.a[1][0]
            elif s.op == "obj" and len(v.contribs(s)) == 1 and v.contribs(s)[0].loops:
                l = v.contribs(s)[0].loops[0]
                rev, srt, s = rev != bool(l.rev), srt or l.unordered or l.sort, l.term.a[0]
            else:
                break
        f = s.a[0] if s.op == "call" else None
        name = v.e.funcs[f].name.rsplit(".", 1)[-1] if f is not None and f.op == "func" and f in v.e.funcs else None
        if srt:
            return rep.bad("order", mode, x, "samples are not kept in the order of their references")
        if name != "toposort" or not s.a[1]:
            plain = is_attr(s, "plan", "queries") or s.op == "obj" and v.e.objs[s].kind == "dict"
            return rep.check(False if plain else None, "order", mode, x, "samples are not kept in the order of their references")
        g = s.a[1][0]
        self.left = ""
        way = self.graph(g)
        if self.left:
            return rep.bad("order", mode, x, self.left)
        if way is None:
            return rep.unk("order", mode, x, "graph of references not recognised")
        rep.check(way != rev, "order", mode, x, "samples are kept before those they refer to")

    def graph(self, g):
        """True: from a query to what it refers to; False: the other way."""
        v = self.v
        if g.op == "call" and g.a[0].op == "func" and v.e.funcs[g.a[0]].name.rsplit(".", 1)[-1] == "reverse_graph" and g.a[1]:
            r = self.graph(g.a[1][0])
            return None if r is None else not r
        if g.op != "obj":
            return None
        ways = set()
        for c in v.contribs(g):
            if c.key is None or c.val is None:
                return None
            k = self.origin(c.key, (), c if c.op != "extend" else c, 0)
            if any(o[0] == "sampled" for o in k):
                ways.add(False)
            elif any(o[0] is None for o in k):
                vs = [c.val]
                if c.val.op == "obj":
                    os = self.origins(c.val)
                    if any(o[0] == "sampled" for o in os):
                        # the set at the time it was taken
                        ways.add(True)
                        st = [self.sampled_guard(o) for o in os if o[0] == "sampled"]
                        rest = [fixed(self.plain(o[2]), {mk("truth", mk("attr", o[1], "sampled")): True}) for o in os if o[0] == "sampled"]
                        if not any(r[0] for r in st):
                            one = next((r for r in rest if r is not TRUE), TRUE)
                            if any(r[0] is False for r in st) or atoms(one) and all(a.op == "eq" for a in atoms(one)):
                                self.left = f"samples are kept in an order that takes a reference into account only if {show(one, 4)}"
                    else:
                        ways.add(None)
                else:
                    ways.add(None)
        ways.discard(None) if len(ways) > 1 else None
        return ways.pop() if len(ways) == 1 else None
