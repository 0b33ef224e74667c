"""Helpers shared by the rules about sampling."""

from ..rule import *  # noqa

EXEC = (".execute", ".scalar", ".scalars", ".exec_driver_sql", ".executemany", ".executescript")
DDL = (".create_all", ".drop_all", ".create", ".drop")
LOG = (".debug", ".info", ".warning", ".error", ".exception", ".critical", ".log")


class SV(View):
    """The effects of sampling that matter to more than one rule."""

    def __init__(self, ctx, mode):
        super().__init__(ctx.sampler(mode))
        self.ctx, self.mode = ctx, mode
        self.inserts, self.deletes, self.creates, self.reads, self.updates = [], [], [], [], []
        self.dumps, self.opens = [], []
        for x in self.fx:
            if x.name in EXEC and x.recv is not None and x.args:
                sides = self.sides(x.recv)
                if "dest" in sides:
                    kinds = {k for k, _ in self.stmt(x.args[0])}
                    if kinds & {"inst", "insert", "text-insert", "text-replace"}:
                        self.inserts.append(x)
                    if kinds & {"delete", "text-delete", "text-truncate"}:
                        self.deletes.append(x)
                    if kinds & {"update", "text-update", "drop", "text-drop", "text-alter", "create", "text-create"}:
                        self.updates.append(x)
                if "source" in sides and x.result is not None:
                    kinds = {k for k, _ in self.stmt(x.args[0])}
                    if not kinds & {"inst", "insert"}:
                        self.reads.append(x)
            elif x.name in DDL and x.kind == "call":
                b = self.xkw(x, "bind", 0)
                if b is not None and "dest" in self.sides(b):
                    self.creates.append(x)
            elif x.name in ("json.dump", "json.dumps"):
                self.dumps.append(x)
            elif x.name in ("builtins.open", "io.open", "os.open") or (x.name == ".open" and x.kind == "call"):
                self.opens.append(x)

    def sinks(self):
        """(effect, value written) for everything that ends up in the output."""
        out = []
        if self.mode == "database":
            for x in self.inserts:
                if len(x.args) > 1:
                    out.append((x, x.args[1]))
                elif self.kw(x.result, "parameters") is not None:
                    out.append((x, self.kw(x.result, "parameters")))
        else:
            out = [(x, x.args[0]) for x in self.dumps]
        return out

    RESULT = ("fetchone", "fetchall", "all", "first", "one", "fetchmany", "partitions", "mappings", "unique", "yield_per", "scalars", "freeze", "columns")

    def is_result(self, t):
        """The result of a query on the source, or a selection of it."""
        for _ in range(8):
            if any(x.result is t for x in self.reads):
                return True
            if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in self.RESULT:
                t = t.a[0].a[0]
            elif t.op == "call" and is_ext(t.a[0], "itertools.islice", "builtins.list", "builtins.set", "builtins.tuple", "itertools.takewhile", "builtins.iter") and t.a[1]:
                t = t.a[1][-1] if is_ext(t.a[0], "itertools.takewhile") else t.a[1][0]
            elif t.op == "slice":
                t = t.a[0]
            else:
                return False
        return False

    def is_row(self, t):
        """A row of the result of a query on the source."""
        return t.op in ("at", "item") and self.is_result(t.a[0]) or t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in self.RESULT and self.is_result(t.a[0].a[0])

    def is_chain(self, t):
        """Loop-carried value rewritten by filters."""
        if t.op != "mu":
            return False
        b = self.e.backs.get(t)
        return b is not None and any(self.is_call(y, ".filter_view") for y in subterms(b))

    def chains(self, t):
        """The filter chains a value went through."""
        return [m for m in self.deep(t) if self.is_chain(m)]

    def row_dicts(self, rows):
        """Row mappings contained in a value handed to an insert or dumped."""
        out = []
        seen = set()

        def go(t):
            if t in seen:
                return
            seen.add(t)
            if t.op == "phi":
                go(t.a[1])
                go(t.a[2])
            elif t.op == "obj" and self.e.objs[t].kind == "dict":
                out.append(t)
            elif t.op == "obj":
                for c in self.contribs(t):
                    if c.val is not None:
                        go(c.val)
            elif t.op in ("at", "item"):
                go(t.a[0])

        go(rows)
        return out

    def query_keys(self, x):
        """Keys of the plan's queries a read is built from, without looking into containers."""
        q = mk("attr", mk("sym", "plan"), "queries")
        return {t.a[1] for t in subterms(x.args[0]) if t.op == "item" and t.a[0] is q}


def lp(x):
    return [l for l in x.loops]


SKIP = ("branch", "continue", "return", "break", "while", "except")


def guard(x, tags=None):
    """Condition under which an effect happens."""
    return and_(*[g for g, tag in x.guards if tags is None or tag in tags])


def skips(v, x, loop):
    """Conditions that leave out some iterations of a loop around an effect, other than by failing."""
    return [g for g, tag in x.guards if tag in SKIP and v.varies(g, loop)]


def committed(v, x):
    """A commit on the connection of x follows x whenever x happened.

    True, False (none at all follows) or None."""
    conn = x.recv
    if v.is_call(conn, ".begin"):
        return True
    if "AUTOCOMMIT" in {cval(t) for t in v.deep(conn) if t.op == "const" and isinstance(cval(t), str)}:
        return True
    # the connection may be configured first: the transaction belongs to the base
    def base(t):
        while v.is_call(t, ".execution_options") and v.is_call(t.a[0].a[0], ".connect", ".begin", ".execution_options"):
            t = t.a[0].a[0]
        return t

    def of_conn(y):
        if y.kind == "exit_with":
            t = y.args[0] if y.args else None
        else:
            t = y.recv if y.name == ".commit" else None
        if t is None:
            return False
        if v.is_call(t, ".begin") and v.is_call(t.a[0].a[0], ".connect", ".execution_options"):
            return base(t.a[0].a[0]) is base(conn)  # a transaction of the connection
        return y.kind != "exit_with" and base(t) is base(conn)

    some, when = None, []
    for y in v.fx:
        if y.seq > x.seq and of_conn(y):
            mine = {g for g, _ in x.guards}
            extra = [g for g, tag in y.guards if g not in mine and tag in SKIP and not implies(guard(x), g)]
            outer = [l.uid for l in y.loops] == [l.uid for l in x.loops][: len(y.loops)]
            if not extra and outer:
                return True
            some = y
            when.append(and_(*extra) if outer else None)
    if some is None:
        return False
    if None in when:
        return None
    # never committed under some settings, or for some contents of the database
    never = fixed(and_(guard(x), *[not_(c) for c in when]), {a: False for a in atoms(guard(x)) if a.op == "exc"})
    return False if never is not FALSE and all(settled(v, a) for c in when for a in atoms(c)) else None


def settled(v, a):
    """A condition on settings or on whether a query had a result."""
    if a.op == "is" and any(t is NONE for t in a.a) and any(v.is_call(t, ".scalar", ".scalar_one_or_none", ".fetchone", ".first") for t in a.a):
        return True
    if a.op == "lt" and any(is_const(t) and isinstance(cval(t), int) and cval(t) >= 1 for t in a.a) and any(v.is_call(t, "builtins.len") and t.a[1] and t.a[1][0].op == "obj" for t in a.a):
        return True  # more or less rows than some number
    return any((attr_path(t) or ("",))[0] in ("config", "truncate", "create") for t in subterms(a)) and not any(t.op in ("mu", "fin", "obj") for t in subterms(a))


def reflected(v, side):
    """Dictionaries of tables reflected from one of the databases."""
    metas = set()
    for x in v.fx:
        if x.name == ".reflect" and x.recv is not None:
            b = v.xkw(x, "bind", 0)
            if b is not None and side in v.sides(b):
                metas.add(x.recv)
        elif x.name == "sqlalchemy.MetaData" and x.result is not None:
            b = v.xkw(x, "bind")
            if b is not None and side in v.sides(b):
                metas.add(x.result)
    tabs = {mk("attr", m, "tables") for m in metas}
    out = set()
    for o, ob in v.e.objs.items():
        if ob.kind != "dict":
            continue
        for c in ob.contribs:
            if c.op in ("set", "default") and c.val is not None and c.val.op == "obj" and "table_obj" in v.inst.get(c.val, {}):
                if any(t in tabs for t in subterms(v.inst[c.val]["table_obj"])):
                    out.add(o)
    return out


def dest_dicts(v):
    """The dictionaries of destination tables."""
    out = reflected(v, "dest")
    if out:
        return out
    for x in v.inserts + v.deletes:
        for _, t in v.stmt(x.args[0]):
            for y in [t] if isinstance(t, T) else []:
                out |= {z.a[0].a[0] for z in subterms(y) if z.op == "attr" and z.a[1] == "table_obj" and z.a[0].op == "item"}
        if x.args[0].op == "obj":
            t = v.field(x.args[0], "table")
            if t is not None and t.op == "attr" and t.a[0].op == "item":
                out.add(t.a[0].a[0])
    return out


CATCH = ("builtins.ValueError", "builtins.Exception", "builtins.BaseException", "builtins.RuntimeError")


def swallowed(v, x, types=CATCH):
    """An error raised by x is caught by a handler that lets the run go on."""
    for u in x.tries or ():
        for ts, how, g, h in v.e.tries.get(u, ()):
            if how != "raise" and any(is_ext(t, *types) for t in ts) and g is TRUE:
                return True
    return False


def config_deps(v, t):
    """Configuration and plan attributes a condition or value is computed from."""
    out = set()
    for x in v.deep(t, ctrl=True):
        p = attr_path(x)
        if p and len(p) > 1 and p[0] in ("config", "plan"):
            out.add(p)
    return out


def source_dicts(v):
    """The dictionaries of source tables."""
    out = reflected(v, "source")
    if out:
        return out
    D = dest_dicts(v)
    for x in v.fx:
        for t in list(x.args) + [g for g, _ in x.guards]:
            for y in subterms(t):
                if y.op == "attr" and y.a[1] in ("table_obj", "primary_key", "foreign_keys") and y.a[0].op == "item" and y.a[0].a[0].op == "obj" and y.a[0].a[0] not in D:
                    out.add(y.a[0].a[0])
    return out


FK = ("foreign_key_constraints", "foreign_keys", "referred_table", "constraints", "elements")


def closure(v, D):
    """How a dictionary of tables is closed under references.

    {"backward"|"forward"|"?": True (transitively), False (one step)}; the guards
    on the edges are returned too."""
    out, guards = {}, []
    seen = set()
    for c in v.contribs(D):
        for y in v.deep(c.key, ctrl=True) if c.key is not None else ():
            if y.op != "item" or y.a[0].op != "obj" or y in seen:
                continue
            seen.add(y)
            deps = y.a[0]
            if v.e.objs[deps].kind != "dict" or deps is D:
                continue
            for e in v.contribs(deps):
                if e.key is None or e.val is None:
                    continue
                far = lambda k: any(t.op == "attr" and t.a[1] in FK for l in k.loops for t in subterms(l.term))
                vals = [e.val] if e.val.op != "obj" and far(e) else [k.val for k in v.contribs(e.val) if k.val is not None and far(k)]
                new = {not_(t) for t in (mk("in", e.key, deps),)}  # a key without a list yet
                for val in vals:
                    kr, vr = refers(e.key), refers(val)
                    d = "backward" if kr and not vr else "forward" if vr and not kr else "?"
                    trans = y.a[1] is not y and returns(v, y.a[1], y)
                    out[d] = out.get(d, False) or trans
                    cs = [e] + (v.contribs(e.val) if e.val.op == "obj" else [])
                    guards += [(d, g, k) for k in cs for g, tag in k.guards if tag in SKIP and g not in new]
    if not out:
        made = lambda t: t.op == "call" and is_ext(t.a[0], "sqlalchemy.Table")
        for c in v.contribs(D):
            if c.key is not None and not any(made(t) for t in subterms(c.key)):
                if any(t.op == "attr" and t.a[1] in FK for t in v.deep(c.key, stop=made)):
                    out["?"] = None
    return out, guards


def returns(v, t, y):
    """t can come from y, but not through a copy made before anything from y is there."""
    seen, st = {t}, [t]
    while st:
        x = st.pop()
        if x is y:
            return True
        kids = list(v.kids(x, False))
        if x.op == "obj":
            for c in v.contribs(x):
                if c.op != "extend" or c.val is None or c.val.op != "obj" or c.val is x:
                    continue
                mine = {l.uid for l in c.loops}
                new = [k for k in v.contribs(c.val) if any(y in v.deep(q) for q in (k.key, k.val) if q is not None)]
                if new and all(k.seq > c.seq and not mine & {l.uid for l in k.loops} for k in new):
                    kids = [k for k in kids if k is not c.val]
        for k in kids:
            if k not in seen:
                seen.add(k)
                st.append(k)
    return False


def refers(t):
    return any(y.op == "attr" and y.a[1] in ("referred_table", "dst_table", "dst_schema", "elements") for y in subterms(t))


def reach(v):
    """Objects the output of a run can depend on, values and conditions."""
    out = set()
    for x, val in v.sinks():
        out |= v.deep(val, ctrl=True)
    return out


class Edit:
    """A change of one value of a row before it is written."""

    __slots__ = ("row", "key", "val", "guards", "loops", "where", "seq")

    def __init__(self, row, key, val, guards, loops, where, seq=None):
        self.row, self.key, self.val, self.guards, self.loops, self.where, self.seq = row, key, val, guards, loops, where, seq

    def guard(self):
        return and_(*[g for g, _ in self.guards])


def edits(v):
    """Values stored into rows inside the loop over the rows, in place or while building them."""
    out = []
    inner = lambda loops: any(v.is_row(mk("at", l.term.a[0], l.term)) for l in loops)
    for x in v.fx:
        if x.kind == "setitem" and inner(x.loops) and len(x.args) == 2:
            out.append(Edit(x.recv, x.args[0], x.args[1], x.guards, x.loops, x, x.seq))
    live = reach(v)
    for o, ob in v.e.objs.items():
        if o not in live or ob.kind not in ("list", "dict"):
            continue
        for c in ob.contribs:
            if c.val is not None and inner(c.loops) and c.op in ("setitem", "add", "set"):
                out.append(Edit(o, c.key, c.val, c.guards, c.loops, f"sampler.py:{getattr(c.node, 'lineno', '?')}", c.seq))
    return out


def copies(v):
    """Loops over the copies of a row: range loops inside the loop over the rows."""
    out = {}
    for x in [y for y in v.fx if y.loops] + [c for o, ob in v.e.objs.items() for c in ob.contribs]:
        ls = list(x.loops)
        for i, l in enumerate(ls):
            if v.is_row(mk("at", l.term.a[0], l.term)):
                for m in ls[i + 1:]:
                    if m.term.a[0].op == "range":
                        out[m.term] = mk("at", m.term.a[0], m.term)
                break
    return out


def additions(v, D):
    """(key, element or container, whole, guards, loops, where) for a dictionary of sets."""
    out = []
    for c in v.contribs(D):
        if c.key is None or c.val is None or c.op not in ("set", "default", "setitem"):
            continue
        base = {g for g, _ in c.guards}
        if c.val.op == "obj":
            for k in v.contribs(c.val):
                if k.op in ("add", "insert", "extend") and k.val is not None:
                    out.append((c.key, k.val, k.op == "extend", k.guards, k.loops, k))
        else:
            out.append((c.key, c.val, True, c.guards, c.loops, c))
    for x in v.fx:
        if x.name in (".update", ".add", ".append", ".extend") and x.recv is not None:
            r = x.recv.a[0] if x.recv.op == "fin" else x.recv
            for g0, r in v.alts(r.a[2] if r.op == "mu" and v.e.backs.get(r) is r else r):
                if r.op == "item" and r.a[0] is D:
                    for a in x.args:
                        if x.name in (".add", ".append"):
                            out.append((r.a[1], a, False, x.guards, x.loops, x))
                        elif a.op == "obj":
                            for k in v.contribs(a):
                                if k.op in ("add", "extend") and k.val is not None:
                                    out.append((r.a[1], k.val, k.op == "extend", k.guards, k.loops, k))
                        else:
                            out.append((r.a[1], a, True, x.guards, x.loops, x))
    return out

