"""The dependency sort: Kahn's algorithm over the graph it is given."""

from ..rule import *  # noqa

def length(t):
    """What t is the length of."""
    return t.a[1][0] if t.op == "call" and is_ext(t.a[0], "builtins.len", "len") and t.a[1] else t.a[0] if t.op == "len" else None


GRAPH = mk("sym", "graph")
WRAP = ("builtins.sorted", "builtins.list", "builtins.tuple", "builtins.set", "builtins.frozenset", "builtins.iter", "builtins.reversed")


class Sort:
    def __init__(self, ctx, rep, rule):
        self.rep, self.rule = rep, rule
        fn = ctx.name("solver", "toposort")
        self.v = None
        if fn is None:
            return
        r = ctx.run(("solver", "toposort"), lambda e: e.call(fn, [GRAPH], [], None), no_inline=("subsetter.solver.reverse_graph",))
        self.v = View(r)
        self.q = r.ret if isinstance(r.ret, T) else None

    def put(self, st, what, msg=""):
        self.rep.check(st, self.rule, what, "solver.py", msg)

    def strip(self, t):
        v = self.v
        while v.is_call(t, *WRAP) and len(t.a) > 1 and t.a[1]:
            t = t.a[1][0]
        return t

    def reverse(self, t):
        return t.op == "call" and t.a[0].op == "func" and self.v.e.funcs[t.a[0]].name.rsplit(".", 1)[-1] == "reverse_graph" and t.a[1] == (GRAPH,)

    def node(self, t, loops):
        """The node a loop over the whole graph is at."""
        for l in loops:
            s = l.term.a[0]
            while s.op == "view":
                s = s.a[1]
            if s is GRAPH and t.op in ("key", "at") and t.a[1] is l.term:
                return True
        return False

    def succ(self, t):
        return t.op == "item" and t.a[0] is GRAPH or t.op == "at" and t.a[0].op == "view" and t.a[0].a[1] is GRAPH

    def sets(self, g, node):
        """With the set of tables still to be placed for each one: None, or False if g holds for more than an empty one."""
        v = self.v
        left = set()
        for o in v.e.objs:
            for c in v.contribs(o):
                if c.op == "set" and c.val is not None and c.val.op == "obj" and self.node(c.key, c.loops) and any(k.op == "extend" and k.val is not None and self.succ(k.val) for k in v.contribs(c.val)):
                    left.add(mk("item", o, node))
        at = [{}, {}, {}]
        for a in atoms(g):
            for n in range(3):
                if a.op == "truth" and a.a[0] in left:
                    at[n][a] = n != 0
                elif a.op in ("eq", "lt") and any(length(y) in left for y in a.a if isinstance(y, T)):
                    x = [n if length(y) in left else cval(y) if is_const(y) else None for y in a.a]
                    if all(isinstance(y, (int, float)) for y in x):
                        at[n][a] = x[0] == x[1] if a.op == "eq" else x[0] < x[1]
        if at[0] and any(fixed(g, at[n]) is TRUE for n in (1, 2)):
            return False
        return None

    def check(self):
        v, q = self.v, getattr(self, "q", None)
        if v is None or q is None or q.op != "obj" or not v.contribs(q):
            return
        counts = {}
        for o in v.e.objs:
            for c in v.contribs(o):
                if c.op == "set" and c.val is not None and length(c.val) is not None and self.succ(length(c.val)) and self.node(c.key, c.loops):
                    counts[o] = c
        for c in v.contribs(q):
            gs = [g for g, tag in c.guards]
            g = and_(*gs)
            if c.op != "add" or not c.loops:
                continue
            if self.node(c.val, c.loops):
                # tables that refer to no other
                lits = [a for a in atoms(g)]
                mine = {}
                for a in lits:
                    s = subterms(a)
                    if any(self.succ(x) for x in s) or any(x.op == "item" and x.a[0] in counts for x in s):
                        mine[a] = a.op == "eq" and any(is_const(x, 0) for x in a.a)
                rest = fixed(g, mine)
                if mine and rest is TRUE and fixed(g, {a: not b for a, b in mine.items()}) is not FALSE:
                    self.put(False, "start", f"a table is placed before those it refers to if {show(g, 4)}")
                    continue
                self.put(rest is TRUE if mine else (False if rest is TRUE else None), "start", f"a table without references is only placed if {show(rest, 4)}" if mine else "tables are placed before those they refer to")
                continue
            outer = [l for l in c.loops if l.term.a[0] is q]
            inner = c.loops[-1]
            if not outer or inner is outer[0]:
                continue
            seq = self.strip(inner.term.a[0])
            if seq.op == "slice":
                self.put(False, "step", "only some of the tables that refer to a placed one are visited")
                continue
            if not (seq.op == "item" and self.reverse(seq.a[0]) and seq.a[1] is mk("at", q, outer[0].term)):
                known = seq.op == "item" and seq.a[0] is GRAPH
                self.put(False if known else None, "step", "tables referred to are visited instead of those that refer to the placed one")
                continue
            if self.strip(c.val) is not mk("at", inner.term.a[0], inner.term):
                self.put(None, "step", show(c.val, 4))
                continue
            dec = [d for o in counts for d in v.contribs(o) if d is not counts[o] and d.op == "set" and d.key is c.val]
            if len(dec) != 1:
                self.put(self.sets(g, c.val), "step", f"a table is placed if {show(g, 4)}")
                continue
            d = dec[0]
            p = poly(d.val)
            base = [m for m in p if m]
            step = len(base) == 1 and p[base[0]] == 1 and p.get((), 0)
            sk = [x for x, tag in d.guards if v.varies(x, inner.term) or v.varies(x, outer[0].term)]
            if step != -1 or sk:
                uneven = any(y.op == "phi" and v.varies(y.a[0], inner.term) for y in subterms(d.val))
                self.put(False if isinstance(step, int) and step is not False or sk or uneven else None, "step", f"a reference is only counted if {show(sk[0], 4)}" if sk else "references are not counted one by one")
                continue
            placed = {a: False for a in atoms(g) if a.op == "in" and a.a[0] is c.val and a.a[1] is q or a.op == "in" and a.a[0] is c.val and v.e.backs.get(a.a[1]) is not None and q in subterms(a.a[1])}
            mine, at = set(), [{}, {}, {}]
            for a in atoms(g):
                if d.val in subterms(a) or any(x.op == "item" and x.a[0] in counts for x in subterms(a)):
                    k = [y for y in a.a if isinstance(y, T) and is_const(y) and isinstance(cval(y), (int, float))]
                    if a.op == "truth" and a.a[0] is d.val:
                        mine.add(a)
                        for n in range(3):
                            at[n][a] = n != 0
                    elif a.op in ("eq", "lt") and d.val in a.a and k:
                        mine.add(a)
                        for n in range(3):
                            x, y = [n if y is d.val else cval(y) for y in a.a]
                            at[n][a] = x == y if a.op == "eq" else x < y
            if mine:
                rs = [fixed(g, {**x, **placed}) for x in at]
                self.put(rs[0] is TRUE and rs[1] is FALSE and rs[2] is FALSE, "step", f"a table is placed if {show(g, 4)}")
            else:
                self.put(False if g is TRUE else None, "step", "a table is placed before all those it refers to are")
        xs = [x for x in v.fx if x.kind == "raise"]
        if not xs:
            self.put(False, "cycle", "cycles are not reported")
        for x in xs:
            g = and_(*[y for y, tag in x.guards])
            n = {a: True for a in atoms(g) if a.op == "lt" and (length(a.a[0]), length(a.a[1])) == (q, GRAPH)}
            n.update({a: False for a in atoms(g) if a.op == "eq" and {length(y) for y in a.a} == {q, GRAPH}})
            rest = fixed(g, n)
            self.put(True if n and rest is TRUE else (False if n else None), "cycle", f"cycles are reported if {show(g, 4)}")


def reversal(ctx, rep, rule):
    """Turning the graph around keeps every edge."""
    fn = ctx.name("solver", "reverse_graph")
    if fn is None:
        return
    r = ctx.run(("solver", "reverse_graph"), lambda e: e.call(fn, [GRAPH], [], None), no_inline=())
    v, q = View(r), r.ret
    if not isinstance(q, T) or q.op != "obj" or v.e.objs[q].kind != "dict":
        return
    last = None
    for c in v.contribs(q):
        if c.op != "set" or len(c.loops) < 2 or c.key is None or c.val is None or c.val.op != "obj":
            continue
        inner = c.loops[-1].term
        if c.key is not mk("at", inner.a[0], inner) or any(v.varies(g, inner) for g, tag in c.guards):
            continue
        if v.e.objs[c.val].loops[-1:] and v.e.objs[c.val].loops[-1].term is inner and not any(y.op == "item" and y.a[0] is q or y.op == "mu" or v.is_call(y, ".get", ".pop", ".setdefault") for y in v.deep(c.val)):
            last = c
    if last is not None:
        rep.bad(rule, "reversed", "solver.py", "of several tables that refer to one only the last is known")
