"""The plan is a function of configuration and schema.

`order`: every list of the plan, and the list of its tables, is filled in an order
that does not come from an unordered collection (a set, or the sets SQLAlchemy keeps
keys and constraints in) unless it was sorted by something that tells its elements
apart.  `pick`: no value is the first, last or any one of a collection whose order is
not fixed.  `chance`: no value comes from random numbers, the clock, the process,
object identities or hashes.  `solver`: the order of tables is sorted with ties broken.
"""

import ast

from ._pl import *  # noqa

FLOORS = {"order": 8, "pick": 1, "chance": 1, "solver": 1}
# attributes of reflected tables and columns that are sets
SETS = ("foreign_key_constraints", "foreign_keys", "constraints", "indexes")
SETOPS = ("union", "intersection", "difference", "symmetric_difference")
CHANCE = ("random.", "secrets.", "time.", "uuid.", "os.getpid", "os.urandom", "os.times", "numpy.random.", "tempfile.", "datetime.datetime.now", "datetime.datetime.utcnow", "datetime.datetime.today", "datetime.date.today", "builtins.id", "builtins.hash", "socket.", "getpass.", "threading.")
SAME = ("builtins.list", "builtins.tuple", "builtins.reversed", "builtins.iter", "builtins.enumerate", "builtins.zip", "builtins.filter", "builtins.map", "builtins.dict", "itertools.chain", "builtins.dict.fromkeys")


def check(ctx, rep):
    p = Fixed(ctx)
    if p.plan is None:
        return fill(rep, FLOORS, "planner.py")
    p.plan_order(rep)
    p.picks(rep)
    solver(ctx, rep)
    fill(rep, FLOORS, "planner.py")


class Order:
    """Whether the order of a sequence is fixed by what it is computed from."""

    def __init__(self, v):
        self.v, self.oe, self.memo = v, v.e, {}

    def record(self, base):
        """Value of a class of the program."""
        t = self.oe.type_of(base)
        return t is not None and t[0] == "cls" and t[1] in self.oe.classes

    def order(self, t):
        """'' when fixed, else what makes it vary."""
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = ""
        r = self.memo[t] = self._order(t)
        return r

    def any(self, ts):
        return next((r for r in map(self.order, ts) if r), "")

    def _order(self, t):
        e = self.oe
        ty = None
        if t.op == "phi":
            return self.any(t.a[1:])
        if t.op == "obj":
            return self._container(t)
        if t.op == "attr":
            if self.record(t.a[0]):
                return self.kept(t)
            if t.a[1] in SETS:
                return f"{t.a[1]} of a reflected table is a set"
        elif t.op in ("view", "enum", "slice", "zip"):
            if t.op == "view":
                return self.order(t.a[1])
            return self.any([x for x in t.a if isinstance(x, T) and x.op != "const"])
        elif t.op == "call":
            f = t.a[0]
            if is_ext(f, "builtins.sorted") and t.a[1]:
                r = self.order(t.a[1][0])
                by = next((x for k, x in t.a[2] if k == "key"), None)
                if by is not None and self.by_hash(by, mk("item", t.a[1][0], mk("sym", "index"))):
                    return f"{show(t.a[1][0], 4)} is sorted by hashes or identities"
                return r if r and by is not None and self.partial(by, mk("item", t.a[1][0], mk("sym", "index"))) else ""
            if is_ext(f, "builtins.set", "builtins.frozenset"):
                return "a set has no order"
            if is_ext(f, *SAME):
                return self.any(t.a[1])
            if f.op == "attr" and f.a[1] in SETOPS:
                return "a set has no order"
            if f.op == "attr" and f.a[1] in ("keys", "values", "items", "copy"):
                return self.order(f.a[0])
        elif t.op in ("|", "&", "-", "^", "binop", "bin"):
            ty = e.type_of(t)
        elif t.op == "item":
            return self._entry(t)
        elif t.op == "fin" and t.a[0].op == "mu":
            return self.any([x for x in (t.a[0].a[2], e.backs.get(t.a[0])) if isinstance(x, T)])
        ty = ty or e.type_of(t)
        if ty is not None and ty[0] == "set":
            return "a set has no order"
        return ""

    def loops(self, ls, skip=()):
        for l in ls:
            if l.term in skip:
                continue
            r = f"the elements of {show(l.term.a[0], 4)} come in no order" if l.unordered else self.order(l.term.a[0])
            if isinstance(l.sort, T) and self.by_hash(l.sort, mk("at", l.term.a[0], l.term)):
                return f"the elements of {show(l.term.a[0], 4)} are sorted by hashes or identities"
            if r and l.sort:
                if isinstance(l.sort, T) and self.partial(l.sort, mk("at", l.term.a[0], l.term)):
                    return r + " and the sort does not tell its elements apart"
                continue
            if r:
                return r
        return ""

    def _container(self, t, owner=None):
        e = self.oe
        o = e.objs[t]
        if o.kind == "set":
            return "a set has no order"
        if o.kind not in ("list", "dict"):
            return ""
        # entries shared between iterations are filled by all of them
        outer = {l.term for l in (o if owner is None else e.objs[owner]).loops}
        bad = ""
        for c in e.effective(o.contribs):
            if c.op == "del":
                if c.key is not None and c.key.op == "const" and cval(c.key) == "sort" and bad:
                    if c.by is None or not self.partial(c.by, mk("item", t, mk("sym", "index"))):
                        bad = ""
                continue
            if c.op in ("diff", "inter", "discard", "setitem"):
                continue
            bad = bad or self.loops(c.loops, outer)
            if c.op == "extend" and c.val is not None:
                bad = bad or self.order(c.val)
        return bad

    def _entry(self, t):
        """An entry of a container: what is stored there."""
        base = t.a[0]
        if base.op != "obj" or self.oe.objs[base].kind not in ("dict", "list"):
            return ""
        bad = ""
        for c in self.oe.objs[base].contribs:
            if c.val is not None and c.op in ("set", "default", "add", "setitem"):
                bad = bad or (self._container(c.val, base) if c.op == "default" and c.val.op == "obj" else self.order(c.val))
        return bad

    def kept(self, t):
        """A list kept in an attribute of the program's own records."""
        name, cls = t.a[1], self.oe.type_of(t.a[0])[1]
        key = ("kept", name, cls)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = ""
        bad = ""
        fx = [x for x in self.v.fx if x.recv is not None]
        for x in fx:
            if x.kind == "setattr" and x.name == "." + name and x.args and self.of(x.recv, cls):
                bad = bad or self.order(x.args[-1])
            elif x.recv.op == "attr" and x.recv.a[1] == name and self.of(x.recv.a[0], cls):
                owner = x.recv.a[0]
                if x.name == ".sort":
                    by = next((b for k, b in x.kw if k == "key"), None)
                    if by is None or not self.partial(by, mk("item", x.recv, mk("sym", "index"))):
                        bad = ""
                elif x.name in (".append", ".insert", ".extend"):
                    mine = {l.term for l in x.loops if owner in (mk("item", l.term.a[0], mk("key", l.term.a[0], l.term)), mk("at", l.term.a[0], l.term))}
                    bad = bad or self.loops(x.loops, mine)
                    if x.name == ".extend":
                        bad = bad or self.any(x.args)
        self.memo[key] = bad
        return bad

    def of(self, base, cls):
        if base.op == "obj":
            return self.oe.objs[base].cls is cls
        ty = self.oe.type_of(base)
        return ty is not None and ty[0] == "cls" and ty[1] is cls

    def by_hash(self, by, elem):
        """The key of a sort is computed from hashes or identities."""
        if is_ext(by, "builtins.hash", "builtins.id"):
            return True
        self.hashed = False
        self.partial(by, elem)
        return self.hashed

    def partial(self, by, elem):
        """The key of a sort is known not to tell elements apart."""
        e = self.oe
        if by.op not in ("func", "closure", "lambda", "bound") and not is_ext(by, "operator.itemgetter", "operator.attrgetter"):
            return is_ext(by, "builtins.len", "builtins.type", "builtins.bool")
        n, k = len(e.effects), e.hook
        try:
            r = e.call(by, [elem], [], None)
        except Exception:
            return None
        finally:
            del e.effects[n:]
            e.hook = k
        parts = list(r.a) if r.op == "tuple" else [r]
        if any(x.op == "call" and is_ext(x.a[0], "builtins.hash", "builtins.id") and elem in set(subterms(x)) for q in parts for x in subterms(q)):
            self.hashed = True
            return True
        if elem in parts:
            return False
        used = {q for x in parts for q in subterms(x) if q.op in ("attr", "item") and q.a[0] is elem}
        if not any(elem in set(subterms(x)) for x in parts):
            return True
        if any(x.op == "call" and elem in x.a[1] and not is_ext(x.a[0], "builtins.len", "builtins.type", "builtins.bool") for x in parts):
            return None
        ty = e.type_of(elem)
        if ty is not None and ty[0] == "cls" and ty[1] in e.classes:
            fields = [f for f in e.classes[ty[1]].fields]
            return not all(mk("attr", elem, f) in used for f in fields)
        if elem.op == "at" and elem.a[0].op == "view" and elem.a[0].a[0] == "items" or self.pairs(elem):
            return not any(x.op == "item" and is_const(x.a[1], 0) for x in used)
        if all(x.op == "call" and is_ext(x.a[0], "builtins.len", "builtins.type", "builtins.bool") for x in parts):
            return True
        if used and all(x.op == "item" for x in used) and len(used) == 1 and not any(q is elem for x in parts for q in x.a if x.op != "item"):
            return True
        return None

    def pairs(self, elem):
        return elem.op == "tuple" and len(elem.a) == 2 and elem.a[0].op == "key"


class Entry:
    """One alternative of what is stored."""

    def __init__(self, c, cond, val):
        self.op, self.key, self.loops, self.guards = c.op, c.key, c.loops, c.guards
        self.cond, self.val = cond, val


class Fixed(PL):
    def __init__(self, ctx):
        super().__init__(ctx)
        self.o = Order(self)

    def plan_order(self, rep):
        mod = self.ctx.module("plan_model")
        seen = set()
        st = [(t, "plan") for t in self.deep(self.plan) if t.op == "obj" and self.e.objs[t].kind == "inst"]
        for c in self.contribs(self.queries) if self.queries is not None and self.queries.op == "obj" else []:
            if c.op in ("set", "default"):
                r = self.o.loops(c.loops)
                rep.check(not r, "order", "tables", c, f"tables are planned in an order that is not fixed: {r}")
        done = set()
        while st:
            t, name = st.pop()
            if t in seen or not isinstance(t, T):
                continue
            seen.add(t)
            if t.op == "phi":
                st += [(x, name) for x in t.a[1:]]
                continue
            if t.op == "obj" and self.e.objs[t].kind == "inst":
                ci = self.e.classes.get(self.cls(t))
                if ci is None or ci.module is not mod:
                    continue
                # only options that are lists
                st += [(x, f"{ci.name}.{f}") for f, x in self.inst.get(t, {}).items() if f in ci.fields and "List" in ast.dump(ci.fields[f][0])]
                continue
            if t is not self.queries:
                listlike = t.op in ("attr", "call", "slice", "item", "fin", "view") or t.op == "obj" and self.e.objs[t].kind in ("list", "set")
                if listlike:
                    r = self.o.order(t)
                    ty = self.e.type_of(t)
                    if r and not (t.op != "obj" and ty is not None and ty[0] in ("str", "int", "cls")):
                        rep.bad("order", name, self.at(t), f"{name} is filled in an order that is not fixed: {r}")
                    elif name not in done:
                        done.add(name)
                        rep.ok("order", name, self.at(t))
            if t.op == "obj":
                for c in self.contribs(t):
                    st += [(x, name) for x in (c.val,) if x is not None]
            elif t.op == "call" and t.a[0].op == "ext":
                st += [(x, name) for x in t.a[1]]

    def at(self, t):
        if t.op == "obj":
            cs = self.contribs(t)
            if cs:
                return cs[0]
        return "planner.py"

    def behind(self):
        """Everything the plan is computed from."""
        seen, st = set(), [self.plan]
        while st:
            t = st.pop()
            if t in seen:
                continue
            seen |= set(self.deep(t, True))
            seen.add(t)
            if t is self.plan:
                # and what is kept in the program's own records
                for x in self.fx:
                    if x.recv is not None and (x.kind == "setattr" or x.recv.op == "attr" and x.name in (".append", ".extend", ".insert", ".remove") and self.o.record(x.recv.a[0])):
                        st += [q for q in list(x.args) + [g for g, _ in x.guards] + [l.term.a[0] for l in x.loops] if isinstance(q, T)]
        return seen

    def picks(self, rep):
        e = self.e
        bad = chance = None
        for t in self.behind():
            r = None
            if t.op == "call" and t.a[0].op == "ext" and any(t.a[0].a[0].startswith(x) for x in CHANCE):
                chance = chance or t.a[0].a[0]
            elif t.op == "ext" and any(t.a[0] == x.rstrip(".") for x in CHANCE if not x.endswith(".")) and t.a[0] not in ("builtins.id", "builtins.hash"):
                chance = chance or t.a[0]
            if t.op == "sel":
                l, val = t.a[0], t.a[-1]
                if isinstance(val, T) and self.varies(val, l):
                    r = self.o.order(l.a[0])
                    r = r and f"the first match of {show(l.a[0], 4)} is used, {r}"
            elif t.op == "item" and t.a[1].op == "const" and isinstance(cval(t.a[1]), int):
                b = t.a[0]
                if b.op == "call" and is_ext(b.a[0], "builtins.list", "builtins.tuple", "builtins.iter") or b.op == "obj" and e.objs[b].kind == "list" and len(self.contribs(b)) == 1 and (self.contribs(b)[0].loops or self.contribs(b)[0].op == "extend"):
                    r = self.o.order(b)
                    r = r and f"one element of {show(b, 4)} is used, {r}"
            elif t.op == "slice" and any(isinstance(x, T) and not (x.op == "const" and cval(x) is None) for x in t.a[1:3]):
                r = self.o.order(t.a[0])
                r = r and f"some elements of {show(t.a[0], 4)} are used, {r}"
            elif t.op == "call" and is_ext(t.a[0], "builtins.next") and t.a[1]:
                r = self.o.order(t.a[1][0])
                r = r and f"one element of {show(t.a[1][0], 4)} is used, {r}"
            elif t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] == "join" and t.a[1]:
                r = self.o.order(t.a[1][0])
                r = r and f"a text is joined from {show(t.a[1][0], 4)}, {r}"
            elif t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] == "pop" and not t.a[1]:
                ty = e.type_of(t.a[0].a[0])
                if ty is not None and ty[0] == "set" or t.a[0].a[0].op == "obj" and e.objs[t.a[0].a[0]].kind == "set":
                    r = "one element of a set is used"
            elif t.op == "obj" and e.objs[t].kind == "dict" and t is not self.queries:
                r = self.collide(t)
            bad = bad or r
        rep.check(not bad, "pick", "plan", "planner.py", f"the plan depends on an order that is not fixed: {bad}")
        rep.check(not chance, "chance", "plan", "planner.py", f"the plan depends on {chance}")

    def collide(self, d):
        """Entries of a dictionary where the iteration that comes first or last wins."""
        cs = [Entry(c, g, val) for c in self.contribs(d) if c.op in ("set", "default") and c.val is not None for g, val in self.alts(c.val)]
        outer = {l.term for l in self.e.objs[d].loops}
        for c in cs:
            ls = [l for l in c.loops if l.term not in outer]
            r = self.o.loops(ls)
            if not r or c.val is None or c.key is None or c.val.op == "const":
                continue
            if c.op == "default" and c.val.op == "obj" and self.e.objs[c.val].kind in ("list", "set", "dict"):
                continue
            known = {c.key} | (set(c.key.a) if c.key.op == "tuple" else set())
            known |= {x for q in list(known) if q.op == "fstr" for x in q.a if isinstance(x, T)}
            known |= {x for q in list(known) if q.op == "phi" for y in q.a[1:] for x in ([y] + list(y.a if y.op == "tuple" else ()))}
            elems = {q for l in ls for q in (mk("at", l.term.a[0], l.term), mk("key", l.term.a[0], l.term))}
            if any(x in elems for x in known):
                continue  # one entry for each element
            if not self.depends(c.val, elems, known):
                continue
            seen = self.seen(c, d)
            others = [x for x in cs if x is not c]
            if seen and all(x.val is not None and x.val.op == "const" for x in others) and others:
                continue  # ambiguous entries get a constant
            if not seen and others:
                continue
            if isinstance(seen, bool):
                return f"the {'first' if seen else 'last'} of several entries for one key is kept in {show(d, 3)}, {r}"
        return None

    def seen(self, c, d):
        """The entry is made only when there is none: True, False, None."""
        for g in [g for g, _ in c.guards] + [c.cond]:
            for a in atoms(g):
                if a.op == "in" and a.a[1] is d or a.op == "is" and any(x.op in ("item", "phi") and d in set(subterms(x)) for x in a.a if isinstance(x, T)):
                    return True if implies(g, not_(a)) else None if not implies(g, a) else False
        return c.op == "default"

    def depends(self, t, elems, known):
        seen, st = set(), [t]
        while st:
            x = st.pop()
            if x in seen or x in known:
                continue
            seen.add(x)
            if x in elems:
                return True
            if x.op == "at" or x.op == "loop":
                st.append(x.a[0])
                continue
            if x.op == "obj":
                for c in self.contribs(x):
                    st += [q for q in (c.key, c.val) if q is not None]
                st += [q for q in self.inst.get(x, {}).values() if isinstance(q, T)]
                continue
            st += [q for q in self.kids(x) if isinstance(q, T)]
        return False


def solver(ctx, rep):
    """The list of tables is ordered by more than the order of sets."""
    fn = ctx.name("solver", "order_graph")
    if fn is None:
        return
    r = ctx.run(("solver", "order_graph"), lambda e: e.call(fn, [mk("sym", "graph"), mk("sym", "source")], [], None), no_inline=("subsetter.solver.reverse_graph",))
    v = View(r)
    o = Order(v)
    ret = r.ret if isinstance(r.ret, T) else None
    if ret is None or ret.op != "obj":
        return
    graph = mk("sym", "graph")
    plain = o._order

    def order(t):
        # graphs are dictionaries of sets
        if t.op == "item" and (t.a[0] is graph or t.a[0].op in ("mu", "fin") or t.a[0].op == "call" and t.a[0].a[0].op == "func"):
            return "successors come from a set"
        if t is graph:
            return "nodes come in the order of tables, which were found through sets"
        if t.op == "obj" and v.e.objs[t].kind == "dict":
            r = plain(t)
            return r or ("nodes are visited in the order of sets" if any(x.op in ("item",) and order(x) for c in v.contribs(t) for k in [c.key] if k is not None for x in subterms(k)) else "")
        return plain(t)

    o._order = order
    bad = ""
    for c in v.contribs(ret):
        if c.op in ("add", "insert"):
            bad = bad or o.loops([l for l in c.loops if not (l.term.a[0].op == "while")])
        elif c.op == "extend" and c.val is not None:
            bad = bad or o.order(c.val)
    rep.check(not bad, "solver", "order", "solver.py", f"tables are ordered by the order of a set: {bad}")
