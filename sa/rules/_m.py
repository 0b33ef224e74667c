"""Samples kept in temporary tables: where they are made, filled and read."""

from ._s import *  # noqa

FINE = ("raise",)  # guards of conditions that end the run otherwise


def connection(t):
    """The connect() call a connection comes from."""
    for _ in range(20):
        if t.op == "call" and t.a[0].op == "attr":
            m = t.a[0].a[1]
            if m in ("connect", "begin") and t.a[0].a[0].op != "call":
                return t
            if m == "connect":
                return t
            if m in ("execution_options", "__enter__", "begin", "begin_nested"):
                t = t.a[0].a[0]
                continue
        return t
    return t


class MV(SV):
    def __init__(self, ctx, mode):
        super().__init__(ctx, mode)
        self.ctx = ctx
        self.callbacks = ctx.sampler(mode).callbacks
        self.plan = ctx.sym("plan", ctx.name("plan_model", "SubsetPlan"))
        tabs = [x for x in self.fx if x.name in ("sqlalchemy.Table", "sqlalchemy.schema.Table") and x.result is not None and self.temp_table(x.result)]
        self.tables = {x.result for x in tabs}
        self.T = {}
        for o, ob in self.e.objs.items():
            if ob.kind == "dict":
                cs = [c for c in ob.contribs if c.val is not None and c.op in ("set", "default", "setitem") and any(q in self.tables for _, q in self.alts(c.val))]
                if cs:
                    self.T[o] = cs
        self.builds = [x for x in self.fx if x.kind == "boundary" and x.name == ".build"]
        self.made = {x.result: x for x in self.builds}
        # statements that fill a temporary table
        self.fills = []
        for x in self.fx:
            if x.name in EXEC and x.args and x.recv is not None:
                for _, t in self.alts(x.args[0]):
                    s = self.from_select(t)
                    if s is not None and s[0] in self.tables:
                        self.fills.append((x, s[0], s[1]))

    def from_select(self, t):
        """(table, select) of an insert from a select."""
        if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] == "from_select":
            sel = self.kw(t, "select", 1)
            r = t.a[0].a[0]
            while r.op == "call" and r.a[0].op == "attr" and r.a[0].a[1] not in ("insert",):
                r = r.a[0].a[0]
            if r.op == "call":
                tab = r.a[0].a[0] if r.a[0].op == "attr" else r.a[1][0] if r.a[1] else None
                return (tab, sel) if tab is not None and sel is not None else None
        return None

    def sample_of(self, t):
        """Key if t is looked up among the kept samples."""
        if t.op == "item" and t.a[0] in self.T:
            return t.a[1]
        return None

    def leaves(self, t):
        """(condition, leaf): the queries and kept samples a statement is made from."""
        out, seen, work = [], set(), [(TRUE, t)]
        while work and len(seen) < 20000:
            g, q = work.pop()
            if (g, q) in seen:
                continue
            seen.add((g, q))
            if q in self.made or self.sample_of(q) is not None or q in self.tables:
                out.append((g, q))
            elif q.op == "phi":
                for c, x in ((q.a[0], q.a[1]), (not_(q.a[0]), q.a[2])):
                    gg = and_(g, c)
                    if gg is not FALSE:
                        work.append((gg, x))
            elif q.op in ("mu", "fin"):
                m = q.a[0] if q.op == "fin" else q
                work.append((g, m.a[2]))
                if m in self.e.backs:
                    work.append((g, self.e.backs[m]))
            else:
                for k in self.kids(q):
                    work.append((g, k))
        return out

    # ---------------------------------------------------------- tables

    def own(self, k):
        """The name the first two parts of a key are split from, or None."""
        if k.op != "tuple" or len(k.a) < 2:
            return None
        a, b = k.a[:2]
        if a.op == b.op == "item" and a.a[0] is b.a[0] and a.a[1] is const(0) and b.a[1] is const(1):
            return a.a[0]
        return None

    def names(self, t):
        """The (schema, name) pair behind a full table name."""
        if t.op == "fstr" and len(t.a) == 3 and t.a[1] == "." and isinstance(t.a[0], T) and isinstance(t.a[2], T):
            return t.a[0], t.a[2]
        return None

    def same_table(self, key, query):
        """The key and plan.queries[...] are for the same table."""
        if not (query.op == "item" and is_attr(query.a[0], "plan", "queries") or query.op == "at"):
            return None
        n = query.a[1] if query.op == "item" else None
        if n is None or key.op != "tuple" or len(key.a) < 2:
            return None
        p = self.names(n)
        if p is not None:
            return True if p == key.a[:2] else None
        src = self.own(key)
        if src is not None and src.op == "call" and src.a[0].op == "attr" and src.a[0].a[1] == "split":
            return True if any(src.a[0].a[0] is q for _, q in self.alts(n)) or src.a[0].a[0] is n else None
        return None



