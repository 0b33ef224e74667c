"""What planning builds: the entries of the plan, decided per kind of table.

A table is described by a few facts: it is a target (T), refers to tables
already planned (F), is referred to by some (R), has table constraints (C), and
the options of its target.  Conditions of the extracted plan are evaluated for
every combination; nothing of the planner is run.
"""

from ._s import *  # noqa
from ..table import Rec, Table, Undecided


class PL(View):
    def __init__(self, ctx):
        super().__init__(ctx.planner())
        self.ctx = ctx
        e = self.e
        self.plan_cls = ctx.name("plan_model", "SubsetPlan")
        ret = [t for _, t in self.alts(ctx.planner().ret) if t.op == "obj" and e.objs[t].cls is self.plan_cls]
        self.plan = ret[0] if len(ret) == 1 else None
        self.queries = self.field(self.plan, "queries") if self.plan is not None else None
        self.dicts = reflected(self, "source")
        self.order = None  # the call that orders the tables
        for x in self.fx:
            if x.result is not None and x.result.op == "call" and x.result.a[0].op == "func" and e.funcs[x.result.a[0]].name.split(".")[-1] in ("order_graph",):
                self.order = x
        self.planned, self.passed, self.other = [], [], []
        for c in self.contribs(self.queries) if self.queries is not None and self.queries.op == "obj" else []:
            if c.op not in ("set", "default") or c.val is None:
                self.other.append(c)
                continue
            d = {t for l in c.loops for t in self.deep(l.term.a[0])}
            if self.order is not None and self.order.result in d:
                self.planned.append(c)
            elif any(is_attr(t, "config", "passthrough") for t in d):
                self.passed.append(c)
            else:
                self.other.append(c)
        self.main = self.planned[0] if len(self.planned) == 1 else None
        self.loop = next((l.term for l in self.main.loops if self.order.result in self.deep(l.term.a[0])), None) if self.main else None
        self.elem = mk("at", self.loop.a[0], self.loop) if self.loop is not None else None
        self.fkcls = next((t for t, k in e.classes.items() if k.name == "ForeignKey" and k.module is ctx.module("metadata")), None)
        self.rev = self._reverse()

    # ------------------------------------------------------------ names

    def is_self(self, key):
        """The name (text or pair) is that of the table being planned: True, False or None."""
        return self.same(key, self.elem)

    def same(self, key, elem):
        """The name (text or pair) is that of this element of a list of names."""
        if key is elem:
            return True
        if key.op == "tuple" and len(key.a) == 2:
            return self._pair(key.a, elem)
        if key.op == "fstr" and len(key.a) == 3 and key.a[1] == ".":
            return self._pair((key.a[0], key.a[2]), elem)
        if key.op in ("attr", "item") and (self._part(key, 0, elem) or self._part(key, 1, elem)):
            return False  # only a part of the name
        return False if elem not in set(subterms(key)) else None

    def _pair(self, p, elem):
        rs = [self._part(x, i, elem) for i, x in enumerate(p)]
        return False if False in rs else None if None in rs else True

    def _part(self, x, i, elem):
        if not isinstance(x, T):
            return False
        if x.op == "attr" and x.a[1] in ("schema", "name") and x.a[0].op == "item" and x.a[0].a[0] in self.dicts:
            return (x.a[1] == ("schema", "name")[i]) if self.same(x.a[0].a[1], elem) else self.same(x.a[0].a[1], elem)
        if x.op == "item" and x.a[1].op == "const" and x.a[0].op == "call" and x.a[0].a[0].op == "attr" and x.a[0].a[0].a[1] in ("split", "partition") and x.a[0].a[0].a[0] is elem:
            n = cval(x.a[1])
            return n == (i if x.a[0].a[0].a[1] == "split" else 2 * i)
        return False if elem not in set(subterms(x)) else None

    def own_table(self, t):
        """t is the record of the table being planned."""
        return t.op == "item" and t.a[0] in self.dicts and self.is_self(t.a[1])

    # ------------------------------------------------------------- keys

    def _reverse(self):
        """(effect, name of the list) that records keys in reverse."""
        out = []
        for x in self.fx:
            if x.name in (".append", ".add", ".insert") and x.recv is not None and x.recv.op == "attr" and x.args and x.args[-1].op == "obj":
                o = x.args[-1]
                if self.cls(o) is self.fkcls and x.recv.a[1] != "foreign_keys" and any(l.term.a[0].op == "attr" and l.term.a[0].a[1] == "foreign_keys" for l in x.loops):
                    out.append(x)
        return out

    def keylist(self, seq):
        """'F', 'R' or None: what a list of keys of the planned table is."""
        t = seq
        if t.op == "attr" and self.own_table(t.a[0]):
            if any(x.recv.a[1] == t.a[1] for x in self.rev):
                return "R"
            if t.a[1] == "foreign_keys":
                return "F"
        return None

    def keyspine(self, t):
        """('F' or 'R', list) when t is a copy or selection of such a list."""
        for _ in range(8):
            k = self.keylist(t)
            if k:
                return k
            if t.op == "call" and is_ext(t.a[0], "builtins.list", "builtins.tuple", "builtins.sorted", "builtins.set", "builtins.reversed") and t.a[1]:
                t = t.a[1][0]
            elif t.op == "obj" and self.e.objs[t].kind in ("list", "set"):
                cs = [c for c in self.contribs(t) if c.op != "clear"]
                if len(cs) != 1:
                    return None
                c = cs[0]
                if c.op == "extend":
                    t = c.val
                elif c.op in ("add", "insert") and c.loops and c.val is mk("at", c.loops[-1].term.a[0], c.loops[-1].term):
                    t = c.loops[-1].term.a[0]
                else:
                    return None
            else:
                return None
        return None

    def count(self, k, facts, target, seq=None):
        """How many keys a list has at that point, None when undecided."""
        n = facts.get(k)
        for x in self.fx:
            if n and x.name == ".clear" and x.recv is not None and (seq is None or x.seq < seq) and x.recv.op in ("call", "obj") and self.keyspine(x.recv) == k:
                h = self.holds(x, facts, target)
                n = None if h is None else 0 if h else n
        return n

    def keyelem(self, t):
        return self.keylist(t.a[0]) if t.op == "at" and t.a[1].op == "loop" and t.a[1].a[0] is t.a[0] else None

    # -------------------------------------------------------- scenarios

    def classify(self, a):
        """What is known about a condition: a fact, True, or None."""
        if a.op == "in" and is_attr(a.a[1], "config", "targets"):
            return ("T", self.is_self(a.a[0]))
        if a.op == "truth" and a.a[0].op == "item" and is_attr(a.a[0].a[0], "config", "targets"):
            return ("T", self.is_self(a.a[0].a[1]))
        if a.op == "in" and is_attr(a.a[1], "config", "table_constraints"):
            return ("C", self.is_self(a.a[0]))
        if a.op == "truth" and a.a[0].op == "item" and is_attr(a.a[0].a[0], "config", "table_constraints"):
            return ("C", self.is_self(a.a[0].a[1]))
        if a.op == "exists" and a.a[0].op == "loop":
            k = self.keylist(a.a[0].a[0])
            if k:
                return (k, True)
            s = a.a[0].a[0]
            if s.op == "item" and is_attr(s.a[0], "config", "table_constraints") and a.a[1] is TRUE:
                return ("C", self.is_self(s.a[1]))
        if a.op == "in" and a.a[0].op == "tuple" and len(a.a[0].a) == 2:
            x, y = a.a[0].a
            if x.op == "attr" and y.op == "attr" and x.a[0] is y.a[0] and self.keyelem(x.a[0]) and (x.a[1], y.a[1]) == ("dst_schema", "dst_table"):
                return ("P", a.a[1])
        if a.op == "in" and a.a[1].op == "attr" and a.a[1].a[1] in ("columns", "c") and a.a[0].op == "attr" and a.a[0].a[1] == "column":
            return ("COL", True)
        return None

    def targets(self, terms):
        return {t for x in terms for t in subterms(x) if t.op == "item" and is_attr(t.a[0], "config", "targets")}

    def table(self, terms, facts, target=None, seq=None):
        """Evaluator of the given terms under the given facts."""
        roots = {}
        todo, seen = list(terms), set()
        while todo:
            t = todo.pop()
            if t in seen:
                continue
            seen.add(t)
            if t.op == "truth" and self.keylist(t.a[0]):
                # not all of these keys may lead to planned tables
                if facts.get(self.keylist(t.a[0])):
                    roots[t] = True
                continue
            if t.op == "eq" and is_const(t.a[0], "") and self.elem is not None and self.elem in t.a:
                roots[t] = False  # where the search starts is no table
                continue
            if t.op in ("in", "truth", "exists"):
                k = self.classify(t)
                if k is not None:
                    f = k[0]
                    v = self.count(f, facts, target, seq) if f in ("F", "R") else facts.get(f)
                    if v is not None:
                        roots[t] = bool(v)
                    continue
            if t.op in ("call", "obj"):
                k = self.keyspine(t)
                if k and facts.get("P", True):
                    n = self.count(k, facts, target, seq)
                    if n is not None:
                        roots[t] = [f"key {i}" for i in range(n)]
                    continue
            if t.op == "item" and is_attr(t.a[0], "config", "table_constraints") and facts.get("C") and self.is_self(t.a[1]):
                roots[t] = [f"constraint {i}" for i in range(facts["C"])]
                continue
            if t.op == "item" and is_attr(t.a[0], "config", "targets"):
                roots[t] = Rec(self.ctx.name("config_model", "PlannerConfig", "TargetConfig"), target or {})
                continue
            todo += list(self.kids(t, ctrl=True)) if t.op != "obj" else []
        return Arith(self, roots)

    def holds(self, c, facts, target=None, tags=SKIP):
        """A contribution happens under these facts: True, False or None."""
        gs = [g for g, tag in c.guards if tags is None or tag in tags]
        tb = self.table(gs, facts, target, c.seq)
        r = True
        for g in gs:
            try:
                if not tb.true(g):
                    return False
            except Undecided:
                r = None
        for l in c.loops if r else ():
            k = self.keyspine(l.term.a[0])
            if k and k in facts:
                n = self.count(k, facts, target, c.seq)
                if not n:
                    return None if n is None else False
        return r

    def value(self, t, facts, target=None):
        tb = self.table([t], facts, target)
        return tb.ev(t)

    def pick(self, t, facts, target=None):
        """The alternative of t under these facts, or None when undecided."""
        while t.op == "phi":
            tb = self.table([t.a[0]], facts, target)
            try:
                t = t.a[1] if tb.true(t.a[0]) else t.a[2]
            except Undecided:
                return None
        return t

    def listing(self, t, facts, target=None):
        """Elements of a list under these facts: [(value, contribution)], None when undecided."""
        t = self.pick(t, facts, target)
        if t is None:
            return None
        while t.op == "call" and (is_ext(t.a[0], "builtins.list", "builtins.tuple", "builtins.sorted") and t.a[1]):
            t = self.pick(t.a[1][0], facts, target)
            if t is None:
                return None
        if t is NONE or t.op == "const" and cval(t) == ():
            return []
        if t.op == "tuple":
            return [(x, None) for x in t.a]
        if t.op != "obj" or self.e.objs[t].kind not in ("list", "set"):
            return None
        out = []
        for c in self.contribs(t):
            h = self.holds(c, facts, target)
            if h is False:
                continue
            if h is None:
                return None
            if c.op == "clear":
                out = []
            elif c.op in ("add", "insert"):
                x = self.pick(c.val, facts, target)
                if x is None:
                    return None
                out.append((x, c))
            elif c.op == "extend":
                sub = self.listing(c.val, facts, target)
                if sub is None:
                    return None
                out += [(x, k if k is not None else c) for x, k in sub]
            else:
                return None
        return out

    def statements(self, t, facts, target=None):
        """The selections a query consists of under these facts, None when undecided."""
        t = self.pick(t, facts, target)
        if t is None:
            return None
        if self.is_call(t, ".simplify"):
            return self.statements(t.a[0].a[0], facts, target)
        n = self.cname(t) if t.op == "obj" else None
        if n == "SQLTableQuery":
            s = self.field(t, "statement")
            return None if s is None else self.statements(s, facts, target)
        if n == "SQLStatementUnion":
            l = self.listing(self.field(t, "statements"), facts, target)
            if l is None:
                return None
            out = []
            for x, _ in l:
                s = self.statements(x, facts, target)
                if s is None:
                    return None
                out += s
            return out
        if n == "SQLStatementSelect":
            return [t]
        return None

    def conditions(self, t, facts, target=None):
        """The conditions a selection is restricted to, all of them together."""
        if t is None:
            return []
        t = self.pick(t, facts, target)
        if t is None:
            return None
        if t is NONE:
            return []
        if self.is_call(t, ".simplify"):
            return self.conditions(t.a[0].a[0], facts, target)
        n = self.cname(t) if t.op == "obj" else None
        if n == "SQLWhereClauseTrue":
            return []
        if n == "SQLWhereClauseAnd":
            l = self.listing(self.field(t, "conditions"), facts, target)
            if l is None:
                return None
            out = []
            for x, c in l:
                if self.cname(x) in ("SQLWhereClauseAnd", "SQLWhereClauseTrue"):
                    s = self.conditions(x, facts, target)
                    if s is None:
                        return None
                    out += s
                else:
                    out.append((x, c))
            return out
        if n is not None:
            return [(t, None)]
        return None


    def part(self, d):
        """A part of a key list that is used in place of the list."""
        for t in d:
            if t.op in ("slice", "item") and t.a[0].op != "item" and self.keyspine(t.a[0]):
                if t.op == "slice" and all(x is NONE for x in t.a[1:]):
                    continue
                return t
        return None

    def leftout(self):
        """Why some keys do not take part, or None."""
        for o, ob in self.e.objs.items():
            for c in ob.contribs:
                if c.val is None or not c.loops:
                    continue
                for l in c.loops:
                    q = l.term.a[0]
                    el = mk("at", q, l.term)
                    if not (c.val is el or c.val.op == "obj" and self.cname(c.val) == "SQLLeftJoin"):
                        continue
                    if l.term is self.loop:
                        continue
                    sl = self.part([q])
                    if sl is not None:
                        return "only some of the keys are used"
                    if c.val is el and c.op == "set" and c.key is not None and self.keyspine(q):
                        ks = set(subterms(c.key, stop=lambda x: x.op == "attr" and x.a[0] is el))
                        if el not in ks and mk("attr", el, "columns") not in ks and any(x.op == "attr" and x.a[0] is el for x in ks):
                            return "a key takes the place of another one to the same table"
                    if not self.keyspine(q):
                        continue
                    for g, tag in c.guards:
                        for a in atoms(g) if tag in SKIP else ():
                            if self.varies(a, l.term) and self.classify(a) is None and not any(x.op == "obj" and x not in self.dicts for x in subterms(a, stop=lambda x: x is el or x is self.elem)):
                                return f"a key is left out depending on {show(a, 5)}"
                            made = any(x.op == "obj" and any(k.term is l.term for k in self.e.objs[x].loops) for x in subterms(a))
                            if (made or self.varies(a, l.term)) and self.classify(a) is None and any(x.op == "attr" and x.a[1] in ("nullable", "unique", "server_default", "type", "autoincrement", "comment", "indexes") for x in self.deep(a, ctrl=True, stop=lambda x: x is el or x is self.elem or x in self.dicts)):
                                return f"a key is left out depending on {show(a, 5)}"
        return None


class Arith(Table):
    """Decision table that can also calculate."""

    def _ev(self, t):
        if t not in self.roots and t.op == "bin":
            a, b = self.ev(t.a[1]), self.ev(t.a[2])
            if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                try:
                    return {"+": a.__add__, "-": a.__sub__, "*": a.__mul__, "/": lambda q: a / q, "//": lambda q: a // q, "%": lambda q: a % q}[t.a[0]](b)
                except (KeyError, ZeroDivisionError):
                    raise Undecided(t)
        if t not in self.roots and t.op == "neg":
            return -self.ev(t.a[0])
        return super()._ev(t)


def strip(t):
    """Without conversions between kinds of sequences."""
    while t.op == "call" and is_ext(t.a[0], "builtins.list", "builtins.tuple") and len(t.a[1]) == 1:
        t = t.a[1][0]
    return t


def sequence(v, t):
    """The sequence a list is a copy of (all elements, same order), else None."""
    t = strip(t)
    for _ in range(5):
        if t.op != "obj":
            break
        cs = v.contribs(t)
        if len(cs) != 1:
            return None
        c = cs[0]
        if c.op == "extend" and not own_guards(v, t, c):
            t = strip(c.val)
        elif c.op == "add" and c.loops and c.val is mk("at", c.loops[-1].term.a[0], c.loops[-1].term) and not c.loops[-1].rev:
            if any(v.varies(g, c.loops[-1].term) for g, tag in c.guards if tag in SKIP):
                return None
            t = strip(c.loops[-1].term.a[0])
        else:
            return None
    return t


def own_guards(v, t, c):
    o = v.e.objs[t]
    base = {l.term for l in o.loops}
    return [g for l in c.loops if l.term not in base for g, tag in c.guards if tag in SKIP and v.varies(g, l.term)]


def scenarios(options=False):
    """Tables the planner can meet: (facts, options of the target)."""
    out = []
    many = () if options else ((1, 0, 40), (0, 40, 0), (0, 0, 40))
    for T_, F_, R_ in ((1, 0, 0), (1, 0, 1), (1, 0, 2), (0, 1, 0), (0, 2, 0), (0, 0, 1), (0, 0, 2)) + many:
        for C_ in (0, 1, 2):
            facts = {"T": bool(T_), "F": F_, "R": R_, "C": C_, "P": True, "COL": True}
            if C_ == 2 and R_ != 1:
                continue
            if not T_:
                out.append((facts, None))
                continue
            for all_ in (False, True):
                if not options:
                    out.append((facts, {"all_": all_}))
                    continue
                for percent in (None, 0.0, 5.0):
                    for sql in (None, "x"):
                        for amount in (None, 0, 7):
                            for lists in ({}, {"c": ["v"]}):
                                out.append((facts, {"all_": all_, "percent": percent, "sql": sql, "amount": amount, "like": lists, "in_": lists}))
    return out
