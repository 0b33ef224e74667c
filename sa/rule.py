"""Vocabulary shared by the rules: reports, reachability over values, matching."""

from __future__ import annotations

import os

from .interp import AnalysisBroken
from .terms import *  # noqa

OK, BAD, UNK = "ok", "violation", "undecided"


class Report:
    """Obligations of one property; one entry per rule instance."""

    def __init__(self, prop):
        self.prop = prop
        self.items = []
        self.notes = {}

    def _add(self, status, rule, inst, where, msg):
        w = where.where() if hasattr(where, "where") else str(where or "")
        fn = ""
        if hasattr(where, "stack") and where.stack:
            fn = where.stack[-1]
        self.items.append({"status": status, "rule": rule, "instance": inst, "where": w, "function": fn, "detail": msg})
        return status == OK

    def ok(self, rule, inst, where="", msg=""):
        return self._add(OK, rule, inst, where, msg)

    def bad(self, rule, inst, where="", msg=""):
        return self._add(BAD, rule, inst, where, msg)

    def unk(self, rule, inst, where="", msg=""):
        return self._add(UNK, rule, inst, where, msg)

    def check(self, cond, rule, inst, where="", msg=""):
        """cond: True, False or None (undecided)."""
        return self._add(OK if cond else (UNK if cond is None else BAD), rule, inst, where, "" if cond else msg)

    def count(self, status):
        return sum(1 for i in self.items if i["status"] == status)


def broken(msg):
    raise AnalysisBroken(msg)


def fill(rep, floors, where=""):
    """Undecided entries for the instances a rule did not get to, once its anchors were found."""
    for r, n in floors.items():
        for _ in range(n - sum(1 for i in rep.items if i["rule"] == r)):
            rep.unk(r, "rest", where, "not reached")


# ------------------------------------------------------------------ values


class View:
    """Queries over the values and effects of one run."""

    def __init__(self, run):
        self.run = run
        self.e = run.e
        self.fx = run.effects
        self._deep = {}
        self.inst = {}
        for (o, n), v in (run.st or {}).items():
            if isinstance(o, T) and o.op == "obj" and isinstance(n, str):
                self.inst.setdefault(o, {})[n] = v
        for x in run.effects:
            if x.kind == "setattr" and x.recv is not None and x.recv.op == "obj":
                d = self.inst.setdefault(x.recv, {})
                if x.args:
                    d.setdefault(x.fn.a[1], x.args[-1])

    # -- expansion

    def kids(self, t, ctrl=False):
        """Terms a term is made of, looking inside containers and loops."""
        for x in t.a:
            if isinstance(x, T):
                if t.op == "phi" and x is t.a[0] and not ctrl:
                    continue
                yield x
            elif isinstance(x, tuple):
                yield from self._flat(x)
        if t.op == "obj":
            o = self.e.objs.get(t)
            if o is not None:
                for c in o.contribs:
                    if c.key is not None:
                        yield c.key
                    if c.val is not None:
                        yield c.val
                    if ctrl:
                        for g, _ in c.guards:
                            yield g
                        for l in c.loops:
                            yield l.term
                for v in self.inst.get(t, {}).values():
                    yield v
        elif t.op == "mu":
            b = self.e.backs.get(t)
            if b is not None:
                yield b

    def _flat(self, x):
        for i in x:
            if isinstance(i, T):
                yield i
            elif isinstance(i, tuple):
                yield from self._flat(i)

    def deep(self, t, ctrl=False, stop=None):
        """Every term the value of t is computed from."""
        key = (t, ctrl)
        if stop is None and key in self._deep:
            return self._deep[key]
        seen = {t}
        st = [t]
        while st:
            x = st.pop()
            if stop is not None and stop(x):
                continue
            for k in self.kids(x, ctrl):
                if k not in seen:
                    seen.add(k)
                    st.append(k)
        if stop is None:
            self._deep[key] = seen
        return seen

    def uses(self, t, what, ctrl=False, stop=None):
        d = self.deep(t, ctrl, stop)
        return what in d if isinstance(what, T) else any(what(x) for x in d)

    def exits(self, x, loop):
        """Early exits of the loop (a term) around an effect or contribution."""
        return [(tag, c) for l in x.loops if l.term is loop for tag, c in self.e.exits.get(l.uid, ())]

    def varies(self, g, loop):
        """g differs between iterations of the loop."""
        return any(t is loop for t in subterms(g, stop=lambda t: t.op == "fin" and t.a[0].op == "mu" and t.a[0].a[0] is loop or t.op in ("exists", "sel") and t.a[0] is loop))

    def contribs(self, o):
        return self.e.objs[o].contribs if o.op == "obj" else []

    def cls(self, t):
        if t.op == "obj" and self.e.objs[t].kind == "inst":
            return self.e.objs[t].cls
        ty = self.e.type_of(t)
        return ty[1] if ty and ty[0] == "cls" else None

    def cname(self, t):
        c = self.cls(t)
        return self.e.classes[c].name if c is not None and c in self.e.classes else None

    def field(self, o, name):
        return self.inst.get(o, {}).get(name)

    # -- alternatives

    def alts(self, t, g=TRUE):
        """(condition, value) pairs a value can take."""
        if t.op == "phi":
            c = t.a[0]
            out = []
            for cc, v in ((c, t.a[1]), (not_(c), t.a[2])):
                gg = and_(g, cc)
                if gg is not FALSE:
                    out += self.alts(v, gg)
            return out
        return [(g, t)]

    # -- connections

    def engine_of(self, t):
        """The engine a connection (or chain of options) was obtained from."""
        for _ in range(30):
            if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("connect", "begin", "execution_options", "__enter__", "raw_connection", "cursor", "get_bind", "begin_nested"):
                t = t.a[0].a[0]
            elif t.op == "attr" and t.a[1] in ("engine", "connection", "bind"):
                t = t.a[0]
            else:
                break
        return t

    def sides(self, t):
        """Which configured databases a value is connected to."""
        out = set()
        for c, eng in self.alts(t):
            eng = self.engine_of(eng)
            if eng.op == "phi":
                for _, x in self.alts(eng):
                    out |= self.sides(x)
                continue
            d = self.deep(eng)
            s = set()
            if any(x.op == "sym" and x.a[0] == "source" for x in d):
                s.add("source")
            if any(x.op == "attr" and x.a[1] == "output" for x in d):
                s.add("dest")
            out |= s
        return out

    def is_call(self, t, *names):
        """t is the result of calling an external function or (".name") a method."""
        if t.op != "call":
            return False
        f = t.a[0]
        if f.op == "ext":
            return f.a[0] in names
        if f.op == "attr":
            return "." + f.a[1] in names
        return False

    def kw(self, t, name, pos=None):
        """Keyword (or positional) argument of a call term."""
        for k, v in t.a[2]:
            if k == name:
                return v
        if pos is not None and pos < len(t.a[1]):
            return t.a[1][pos]
        return None

    def xkw(self, x, name, pos=None):
        for k, v in x.kw:
            if k == name:
                return v
        if pos is not None and pos < len(x.args):
            return x.args[pos]
        return None

    # -- SQL statements

    def elems(self, t):
        """Elements of a literal sequence (guards ignored), or None."""
        if t.op == "tuple":
            return list(t.a)
        if t.op == "const" and isinstance(cval(t), tuple):
            return [const(x) for x in cval(t)]
        if t.op == "obj":
            out = []
            for c in self.contribs(t):
                if c.op in ("add", "insert"):
                    out.append(c.val)
                elif c.op == "extend":
                    r = self.elems(c.val)
                    if r is None:
                        return None
                    out += r
                else:
                    return None
            return out
        return None

    def temp_table(self, t):
        """True/False/None: the Table is declared TEMPORARY."""
        if t.op == "phi":
            rs = [self.temp_table(v) for _, v in self.alts(t)]
            return None if None in rs else all(rs)
        if t.op == "item" and t.a[0].op == "obj":
            vals = [c.val for c in self.contribs(t.a[0]) if c.op in ("set", "default") and c.val is not None]
            rs = [self.temp_table(v) for v in vals]
            return None if not rs or None in rs else all(rs)
        if self.is_call(t, ".alias"):
            return self.temp_table(t.a[0].a[0])
        if self.is_call(t, "sqlalchemy.Table", "sqlalchemy.schema.Table"):
            p = self.kw(t, "prefixes")
            if p is None:
                return False
            rs = []
            for _, v in self.alts(p):
                el = self.elems(v)
                if el is None:
                    rs.append(None)
                else:
                    g = self.guarded_elems(v)
                    rs.append(any(x.op == "const" and str(cval(x)).upper() in ("TEMPORARY", "TEMP") and ok for x, ok in g))
            return None if None in rs else all(rs)
        if t.op == "item" and t.a[0].op == "attr" and t.a[0].a[1] == "tables":
            return False
        if t.op == "attr" and t.a[1] == "table_obj":
            return self.temp_table(t.a[0])
        if t.op == "obj" and "table_obj" in self.inst.get(t, {}):
            return self.temp_table(self.inst[t]["table_obj"])
        return None

    def guarded_elems(self, t):
        """(element, unconditional relative to the creation of the list)."""
        if t.op != "obj":
            return [(x, True) for x in self.elems(t) or []]
        cs = self.contribs(t)
        # the container is built where its first contribution is
        base = None
        for c in cs:
            gs = {g for g, _ in c.guards}
            base = gs if base is None else base & gs
        return [(c.val, {g for g, _ in c.guards} == base) for c in cs if c.op in ("add", "insert")]

    SELECT_ROOTS = ("sqlalchemy.select", "sqlalchemy.union", "sqlalchemy.union_all", "sqlalchemy.exists", "sqlalchemy.sql.select", "sqlalchemy.intersect", "sqlalchemy.except_")
    INSERT_ROOTS = ("sqlalchemy.insert", "sqlalchemy.dialects.mysql.insert", "sqlalchemy.dialects.postgresql.insert", "sqlalchemy.dialects.sqlite.insert")

    def stmt(self, t, depth=0):
        """Set of (kind, detail) a statement can be."""
        if depth > 25:
            return {("unknown", t)}
        if t.op == "phi":
            return self.stmt(t.a[1], depth + 1) | self.stmt(t.a[2], depth + 1)
        if t.op in ("fin", "mu"):
            m = t.a[0] if t.op == "fin" else t
            b = self.e.backs.get(m)
            if m.op == "mu":
                out = self.stmt(m.a[2], depth + 1)
                if b is not None and not any(x is m for x in [b]):
                    out |= {("unknown", t)} if depth > 10 else self.stmt(b, depth + 8)
                return out
        if t.op == "const" and isinstance(cval(t), str):
            return self._text(cval(t))
        if t.op == "fstr":
            return self._text(t.a[0] if t.a and isinstance(t.a[0], str) else "?")
        if t.op == "obj":
            c = self.cls(t)
            return {("inst", c)} if c is not None else {("unknown", t)}
        if t.op == "call":
            f = t.a[0]
            if f.op == "ext":
                n = f.a[0]
                if n in self.SELECT_ROOTS:
                    return {("select", None)}
                if n in self.INSERT_ROOTS:
                    return {("insert", t.a[1][0] if t.a[1] else None)}
                if n == "sqlalchemy.delete":
                    return {("delete", t.a[1][0] if t.a[1] else None)}
                if n == "sqlalchemy.update":
                    return {("update", t.a[1][0] if t.a[1] else None)}
                if n in ("sqlalchemy.text", "sqlalchemy.DDL"):
                    return self.stmt(t.a[1][0], depth + 1)
                if n.startswith("sqlalchemy.schema.") or n.startswith("sqlalchemy.sql.ddl."):
                    k = n.rsplit(".", 1)[1]
                    return {("create" if k.startswith("Create") else "drop", t.a[1][0] if t.a[1] else None)}
                return {("unknown", t)}
            if f.op == "attr":
                b, m = f.a
                if m == "insert":
                    return {("insert", b)}
                if m == "delete" and not self.is_call(b):
                    return {("delete", b)}
                if m == "update":
                    return {("update", b)}
                if m in ("select", "build"):
                    return {("select", None)}
                return self.stmt(b, depth + 1)
        return {("unknown", t)}

    def _text(self, s):
        w = s.strip().split(None, 1)
        k = w[0].upper() if w else ""
        if k == "SELECT":
            return {("text-select", s)}
        if k in ("INSERT", "UPDATE", "DELETE", "TRUNCATE", "DROP", "ALTER", "CREATE", "REPLACE", "MERGE", "ANALYZE", "OPTIMIZE", "VACUUM", "REINDEX", "RENAME", "GRANT", "REVOKE", "LOAD", "COPY", "COMMENT", "REPAIR", "FLUSH", "CALL"):
            return {("text-" + k.lower(), s)}
        return {("text", s)}


def poly(t):
    """Polynomial normal form over + - *: {sorted monomial: coefficient}."""
    if t.op == "const" and isinstance(cval(t), (int, float)) and not isinstance(cval(t), bool):
        return {(): cval(t)} if cval(t) else {}
    if t.op == "bin" and t.a[0] in ("+", "-"):
        r = dict(poly(t.a[1]))
        s = 1 if t.a[0] == "+" else -1
        for k, v in poly(t.a[2]).items():
            r[k] = r.get(k, 0) + s * v
            if not r[k]:
                del r[k]
        return r
    if t.op == "bin" and t.a[0] == "*":
        r = {}
        for k1, v1 in poly(t.a[1]).items():
            for k2, v2 in poly(t.a[2]).items():
                k = tuple(sorted(k1 + k2, key=id))
                r[k] = r.get(k, 0) + v1 * v2
                if not r[k]:
                    del r[k]
        return r
    if t.op == "neg":
        return {k: -v for k, v in poly(t.a[0]).items()}
    return {(t,): 1}


def mono(*ts):
    return tuple(sorted(ts, key=id))


def conj(g):
    return list(g.a) if g.op == "and" else ([] if g is TRUE else [g])


def fixed(c, val):
    """Condition c with the truth of some atoms given."""
    if c in val:
        return TRUE if val[c] else FALSE
    if c.op == "not":
        return not_(fixed(c.a[0], val))
    if c.op == "and":
        return and_(*[fixed(x, val) for x in c.a])
    if c.op == "or":
        return or_(*[fixed(x, val) for x in c.a])
    return c


def equivalent(a, b):
    return a is b or (len(atoms(a) | atoms(b)) <= 14 and implies(a, b) and implies(b, a))


def attr_path(t):
    """('config','output','merge') for attribute chains on a symbol, else None."""
    p = []
    while t.op == "attr":
        p.append(t.a[1])
        t = t.a[0]
    if t.op == "sym":
        return (t.a[0],) + tuple(reversed(p))
    return None


def is_attr(t, *path):
    return attr_path(t) == tuple(path)


def literal(path):
    t = mk("sym", path[0])
    for p in path[1:]:
        t = mk("attr", t, p)
    return t


def where_ast(module, node):
    return f"{os.path.basename(module.path)}:{getattr(node, 'lineno', '?')}"


def cv(t, default=None):
    """Value of a constant."""
    return cval(t) if t is not None and t.op == "const" else default


def resolve(t, g):
    """t with the alternatives removed that the condition g excludes."""

    for _ in range(4):
        r = rebuild(t, lambda x: (lambda y: y if y is not x else None)(_pick(x, g)), {}, lambda x: _pick(x, g))
        if r is t:
            return t
        t = r
    return t


def _pick(x, g):
    while x.op == "phi":
        if implies(g, x.a[0]):
            x = x.a[1]
        elif implies(g, not_(x.a[0])):
            x = x.a[2]
        else:
            break
    return x
