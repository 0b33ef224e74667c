"""Foreign keys inferred from names.

`asked`: decision table over the setting and over what the index of primary
keys holds for a column's name.  `scope`: the key a table is stored under in
the index and the one a column is looked up with agree exactly for a single
primary-key column of that name in the chosen scope.  `unique`: a second table
of the same key makes the entry unusable.  `key`: the key inferred leads from
the column to the table found.  `all`: every column of every table is tried.
Planning and sampling each infer keys of their own; both are looked at.
"""

import copy
import itertools

from ._pl import *  # noqa
from .c17 import changes
from ..table import Opq, Undecided

FLOORS = {"asked": 18, "scope": 20, "unique": 8, "key": 8, "all": 4}
SETTINGS = ("schema", "all")


def check(ctx, rep):
    where = "metadata.py"
    for p, name in ((PL(ctx), "plan"), (Sampled(ctx), "sample")):
        rep_ = Part(rep, name)
        xs = [x for x in changes(p) if any(is_columns(p, l) for l in x.loops) and not any(config_loop(l) for l in x.loops)]
        if len(xs) != 1 or xs[0].name != ".append" or not xs[0].args:
            used = any(is_attr(t, "config", "infer_foreign_keys") for x in p.fx for g, _ in x.guards for t in subterms(g))
            rep_.check(False if not xs and not used else None, "asked", "inference", "metadata.py", "keys are never inferred")
            continue
        where = xs[0]
        Infer(p, rep_, xs[0]).check()
    fill(rep, FLOORS, where)


class Part:
    """Obligations of one of the two."""

    def __init__(self, rep, name):
        self.rep, self.name = rep, name

    def __getattr__(self, kind):
        def add(*a):
            i = 2 if kind == "check" else 1
            return getattr(self.rep, kind)(*a[:i], f"{self.name}: {a[i]}", *a[i + 1:])
        return add


class Sampled(SV):
    """What sampling reads of the source."""

    def __init__(self, ctx):
        super().__init__(ctx, "database")
        self.dicts = reflected(self, "source")
        self.fkcls = next((t for t, k in self.e.classes.items() if k.name == "ForeignKey" and k.module is ctx.module("metadata")), None)


def peel(p, q):
    """(sequence q is taken from, whether it is only a part of it)"""
    part = False
    for _ in range(8):
        if q.op == "slice":
            q, part = q.a[0], True
        elif q.op == "call" and is_ext(q.a[0], "builtins.list", "builtins.tuple", "builtins.sorted", "builtins.reversed") and q.a[1]:
            q = q.a[1][0]
        elif q.op == "call" and q.a[0].op == "attr" and q.a[0].a[1] in ("values", "items", "keys"):
            q = q.a[0].a[0]
        elif q.op == "obj" and q not in p.dicts and len(p.contribs(q)) == 1 and p.contribs(q)[0].op == "extend":
            q = p.contribs(q)[0].val
        else:
            break
    return q, part


def is_columns(p, l):
    q, _ = peel(p, l.term.a[0])
    return q.op == "attr" and q.a[1] in ("columns", "c")


def config_loop(l):
    return any(attr_path(t) and attr_path(t)[0] == "config" for t in subterms(l.term.a[0]))


class Infer:
    def __init__(self, p, rep, x):
        self.p, self.rep, self.x = p, rep, x
        self.guards = [g for g, tag in x.guards if tag in SKIP or tag == "raise"]

    def check(self):
        p, rep, x = self.p, self.rep, self.x
        fk = x.args[0]
        self.d = x.recv.a[0]
        fs = {n: p.field(fk, n) for n in ("columns", "dst_schema", "dst_table", "dst_columns")} if fk.op == "obj" and p.cls(fk) is p.fkcls else {}
        if not fs or None in fs.values():
            return rep.unk("key", "key", x, "key not recognised")
        self.fk, self.fs = fk, fs
        self.setting = next((t for g in p_terms(self, x) for t in subterms(g) if is_attr(t, "config", "infer_foreign_keys")), None)
        if self.setting is None:
            return rep.bad("asked", "inference", x, "keys are inferred without being asked for")
        # the loop over columns
        cl = [l for l in x.loops if is_columns(p, l)][-1]
        self.walk(cl)
        el = mk("at", cl.term.a[0], cl.term)
        self.names = {mk("attr", el, "name"), mk("attr", el, "key")}
        # the table found
        s, n = fs["dst_schema"], fs["dst_table"]
        cut = next((w for q in (s, n) for _, y in p.alts(q) for w in subterms(y) if w.op == "slice" and any(z in self.names for z in subterms(w.a[0]))), None)
        if cut is not None:
            return rep.bad("key", "table", x, f"the table is also guessed from {show(cut, 3)}")
        if s.op == "phi":
            return self.several([t for _, t in p.alts(s)])
        if s.op == n.op == "attr" and s.a[0] is not n.a[0] and self.d in (s.a[0], n.a[0]):
            return rep.bad("key", "table", x, f"leads to {show(s, 3)}.{show(n, 3)}")
        if s.op != "attr" or n.op != "attr" or s.a[0] is not n.a[0]:
            return rep.unk("key", "table", x, "table not recognised")
        X = s.a[0]
        if s.a[1] != "schema" or n.a[1] != "name":
            rep.bad("key", "table", x, f"leads to {show(s, 3)}.{show(n, 3)}")
        elif X is self.d:
            return rep.bad("key", "table", x, "the key leads to the table itself")
        else:
            rep.ok("key", "table", x)
        if X.op != "item" or X.a[0].op != "obj" or p.e.objs[X.a[0]].kind != "dict":
            return rep.unk("key", "index", x, "index not recognised")
        self.X, self.I, self.K = X, X.a[0], X.a[1]
        for f in ("columns", "dst_columns"):
            got = self.value(fs[f], {})
            rep.check(None if got is None else got == ("c",), "key", f, x, f"{f} are {show(fs[f], 4)}")
        if x.recv.op == "attr" and x.recv.a[1] == "foreign_keys":
            rep.ok("key", "owner", x)
        self.asked()
        self.index()

    def several(self, found):
        """The table is looked up in more than one way: none may be by another name."""
        p, rep, x = self.p, self.rep, self.x
        for t in found:
            t = t.a[0] if t.op == "attr" else t
            if t.op != "item" or t.a[0].op != "obj":
                continue
            for c in p.contribs(t.a[0]):
                tab = c.val
                if c.key is None or tab is None or tab is NONE or tab.op not in ("item", "at"):
                    continue
                for s in SETTINGS:
                    a = self.value(c.key, {self.setting: s, mk("attr", tab, "schema"): "S", mk("attr", tab, "primary_key"): ("c",), mk("attr", tab, "name"): "u"})
                    for col in ("C", "c_", "u_c", " c"):
                        b = self.value(t.a[1], {self.setting: s, mk("attr", self.d, "schema"): "S", **{n: col for n in self.names}})
                        if a is not None and a == b:
                            return rep.bad("scope", f"{s}: other name", x, f"a column called {col!r} is taken for {a}")
        rep.unk("key", "table", x, "table not recognised")

    # ---------------------------------------------------------------- loops

    def walk(self, cl):
        p, rep, x = self.p, self.rep, self.x
        q, part = peel(p, cl.term.a[0])
        if not part and q.op == "attr" and q.a[0].op == "attr" and q.a[0].a[0] is self.d:
            rep.ok("all", "columns", x)
        else:
            part = part or q.op == "attr" and q.a[1] in ("columns", "c") and q.a[0].op == "attr" and q.a[0].a[1] == "primary_key"
            rep.check(False if part else None, "all", "columns", x, f"only {show(q, 4)} are tried")
        tl = [l for l in x.loops if l is not cl]
        if len(tl) == 1:
            q, part = peel(p, tl[0].term.a[0])
            rep.check(False if part else True if q in p.dicts else None, "all", "tables", x, f"only {show(q, 4)} are tried")
        else:
            rep.unk("all", "tables", x, "loops not recognised")

    # --------------------------------------------------------------- tables

    def table(self, roots):
        r = {self.setting: "schema", self.d: Opq("d"), **{n: "c" for n in self.names}}
        for n in ("schema", "name"):
            r[mk("attr", self.d, n)] = "S" if n == "schema" else "t"
        r[mk("attr", self.d, "primary_key")] = ("k",)
        r.update(roots)
        return Arith(self.p, r)

    def value(self, t, roots):
        try:
            return self.table(roots).ev(t)
        except (Undecided, TypeError):
            return None

    def truth(self, g, roots):
        try:
            return self.table(roots).true(g)
        except (Undecided, TypeError):
            return None

    # ------------------------------------------------------- when it is used

    def asked(self):
        p, rep, x = self.p, self.rep, self.x
        cond = and_(*self.guards)
        dup, inside, plain = set(), set(), set()
        for t in subterms(cond):
            if t.op == "in" and (t.a[0] is self.fk or t.a[0].op == "obj" and p.cls(t.a[0]) is p.fkcls):
                dup.add(t)
                q, _ = peel(p, t.a[1])
                if q.op == "attr" and q.a[0] is self.d and q.a[1] != "foreign_keys":
                    rep.bad("asked", "already there", x, f"a key that is there is added again: only {q.a[1]} are looked at")
                for c in p.contribs(q) if q.op == "obj" else ():
                    l = next((l for l in c.loops if l.term.a[0] is mk("attr", self.d, "foreign_keys")), None)
                    if l is None or c.op not in ("add", "append"):
                        continue
                    el = mk("at", l.term.a[0], l.term)
                    there = {mk("attr", el, n): w for n, w in (("columns", ("c",)), ("dst_columns", ("c",)), ("dst_schema", "S"), ("dst_table", "u"))}
                    if any(self.truth(g, there) is False for g, _ in c.guards if p.varies(g, l.term)):
                        rep.bad("asked", "already there", x, "a key that is there is added again: only some keys are looked at")
            elif t.op == "in" and t.a[1] is self.I:
                inside.add(t)
        others = {t for t in subterms(cond) if (attr_path(t) or [""])[0] == "config" and t is not self.setting and not any(t is not q and t in set(subterms(q)) and (attr_path(q) or [""])[0] == "config" for q in subterms(cond))}
        o = Opq("other")
        cases = [
            ("not asked", "none", o, True, False, False),
            ("found in schema", "schema", o, True, False, True),
            ("found anywhere", "all", o, True, False, True),
            ("found for part of the key", "schema", "part", True, False, True),
            ("no such key", "schema", None, False, False, False),
            ("ambiguous", "schema", None, True, False, False),
            ("same name elsewhere", "all", "same name", True, False, True),
            ("itself", "schema", Opq("d"), True, False, False),
            ("already there", "schema", o, True, True, False),
        ]
        text = {
            "not asked": "keys are inferred without being asked for",
            "ambiguous": "keys are inferred although several tables match",
            "itself": "a table's primary key refers to itself",
            "already there": "a key that is there is added again",
            "no such key": "keys are inferred although no table matches",
        }
        for inst, s, found, known, twice, want in cases:
            alike, within = found == "same name", found == "part"
            found = o if alike or within else found
            roots = {self.setting: s, self.X: found, **{t: twice for t in dup}, **{t: known for t in inside}}
            if found is not None:
                roots[mk("attr", self.X, "schema")] = "T" if alike else "S"
                roots[mk("attr", self.X, "name")] = "t" if found == Opq("d") or alike else "u"
                roots[mk("attr", self.X, "primary_key")] = ("c",)
            for n, w in (("schema", "S"), ("name", "t")):
                roots[mk("attr", self.d, n)] = w
            if within:
                roots[mk("attr", self.d, "primary_key")] = ("c", "e")
            got = self.truth(cond, roots)
            for q in others if got is None else ():
                for v in (True, False):
                    if self.truth(cond, {**roots, q: v}) is (not want):
                        got = not want
            if inst == "ambiguous" and not any(c.val is NONE or c.val is None for c in p.contribs(self.I)):
                got = None  # such entries do not exist
            rep.check(None if got is None else got == want, "asked", inst, x, text.get(inst, "the key is not inferred"))

    # ----------------------------------------------------------------- index

    def index(self):
        p, rep, x = self.p, self.rep, self.x
        cs = [y for c in p.contribs(self.I) for y in self.split(c)]
        if not cs or any(c.op not in ("set", "default", "setitem", "del") or c.key is None for c in cs):
            return rep.unk("scope", "index", x, "index not recognised")
        vals = [c.val for c in cs if c.val is not None and c.val is not NONE]
        ls = {c.loops[-1].term if c.loops else None for c in cs}
        own = {t for t in vals if t.op in ("item", "at")}
        if len(own) != 1 or len(ls) != 1 or None in ls or any(t not in own for t in vals):
            return rep.unk("scope", "index", x, "index not recognised")
        tab = own.pop()
        lt = ls.pop()
        q, part = peel(p, lt.a[0])
        rep.check(False if part else True if q in p.dicts else None, "unique", "tables", x, "not all tables are looked at")
        ks = {c.key for c in cs}
        if len(ks) != 1:
            return rep.unk("scope", "index", x, "index not recognised")
        key = ks.pop()
        names = self.names
        for s in SETTINGS:
            for inst, own_schema, pk, col, want in (("same schema", "S", ("c",), "c", True), ("other schema", "T", ("c",), "c", s == "all"), ("other name", "S", ("b",), "c", False), ("several columns", "S", ("c", "d"), "c", False), ("last of several columns", "S", ("d", "c"), "c", False)):
                rt = {self.setting: s, mk("attr", tab, "schema"): own_schema, mk("attr", tab, "primary_key"): pk, mk("attr", tab, "name"): "u"}
                odd = {at for c in cs for g, tag in c.guards if tag in SKIP for at in atoms(g) if self.truth(at, {**rt, **self.inside(c, False)}) is None and self.unrelated(at, tab)}
                if odd and len(odd) <= 4:
                    rs = [[self.truth(and_(*[g for g, tag in c.guards if tag in SKIP]), {**rt, **self.inside(c, False), **dict(zip(odd, v))}) for c in cs] for v in itertools.product((True, False), repeat=len(odd))]
                    if not any(None in r for r in rs) and any(r != rs[0] for r in rs):
                        rep.bad("scope", f"{s}: {inst}", x, f"depends on {show(next(iter(odd)), 4)}")
                        continue
                used = [self.truth(and_(*[g for g, tag in c.guards if tag in SKIP]), {**rt, **self.inside(c, False)}) for c in cs]
                a = self.value(key, rt)
                b = self.value(self.K, {self.setting: s, mk("attr", self.d, "schema"): "S", **{n: col for n in names}})
                stored = True if any(u is True for u in used) else None if None in used else False
                if stored and want:
                    for n in ("_u", "U", "u1", "tmp_u", "u_old", "c"):
                        rn = {**rt, mk("attr", tab, "name"): n}
                        if all(self.truth(and_(*[g for g, tag in c.guards if tag in SKIP]), {**rn, **self.inside(c, False)}) is False for c in cs):
                            stored = rep.bad("scope", f"{s}: {inst}", x, f"a table called {n} is not looked at")
                            break
                    if stored is False:
                        continue
                if stored is False:
                    rep.check(not want, "scope", f"{s}: {inst}", x, "the primary key is not looked at")
                elif a is None or b is None or stored is None:
                    # other settings that have a say, whatever they are
                    more = {t for k in (key, self.K) for t in subterms(k) if (attr_path(t) or [""])[0] == "config" and t is not self.setting and t not in {q.a[0] for q in subterms(k) if q.op == "attr"}}
                    wrong = None
                    for v in ([], ["x"], "x", None) if len(more) == 1 and stored is not None else ():
                        m = {next(iter(more)): v}
                        a = self.value(key, {**rt, **m})
                        b = self.value(self.K, {self.setting: s, mk("attr", self.d, "schema"): "S", **{n: col for n in names}, **m})
                        if a is not None and b is not None and (a == b) != want:
                            wrong = f"depends on {show(next(iter(more)), 4)}"
                    rep.check(False if wrong else None, "scope", f"{s}: {inst}", x, wrong or "names not recognised")
                else:
                    rep.check((a == b) == want, "scope", f"{s}: {inst}", x, "the table is not found" if want else f"the table is found ({inst})")
        for inst, there in (("first", False), ("second", True), ("third", "several")):
            rt = {self.setting: "schema", mk("attr", tab, "schema"): "S", mk("attr", tab, "primary_key"): ("c",), mk("attr", tab, "name"): "u"}
            last, unk = "unusable" if there == "several" else "kept" if there else "none", False
            for c in sorted(cs, key=lambda c: c.seq):
                g = self.truth(and_(*[g for g, tag in c.guards if tag in SKIP]), {**rt, **self.inside(c, there)})
                if g is None:
                    unk = True
                elif g:
                    if c.op == "default":
                        last = last if there else "table"
                    elif c.op == "del":
                        last = "deleted"
                    else:
                        last = "unusable" if c.val is NONE or c.val is None else "table"
            other = any(y.op == "in" and y.a[1] is not self.I and y.a[1].op == "obj" and y.a[1] not in p.dicts and y.a[0] is not self.fk for g in self.guards for y in atoms(g))
            if unk or other and there and last != "unusable":
                rep.unk("unique", inst, x, "index not decided")
            else:
                rep.check(last == ("unusable" if there else "table"), "unique", inst, x, "a table is chosen although several have that key" if there else "the table is not found")

    def unrelated(self, at, tab):
        """A condition on what has no say in which table a name stands for."""
        for t in subterms(at):
            if t.op == "attr" and t.a[0] is tab and t.a[1] in ("foreign_keys", "rev_foreign_keys", "table_obj"):
                return True
            if t.op == "call" and is_ext(t.a[0], "builtins.len") and t.a[1] and t.a[1][0] in self.p.dicts:
                return True
        return False

    def split(self, c):
        """One contribution for each value that can be stored."""
        if c.val is None or c.val.op != "phi":
            return [c]
        out = []
        for g, v in self.p.alts(c.val):
            y = copy.copy(c)
            y.val, y.guards = v, tuple(c.guards) + ((g, "branch"),)
            out.append(y)
        return out

    def inside(self, c, there):
        """What conditions about the index are before the table is stored."""
        out = {}
        for g, _ in c.guards:
            for t in subterms(g):
                if t.op == "in" and t.a[1] is self.I:
                    out[t] = bool(there)
                elif t.op == "item" and t.a[0] is self.I:
                    out[t] = Opq("other") if there is True else None
                    out[mk("attr", t, "schema")] = "S"
                    out[mk("attr", t, "name")] = "o"
        return out


def p_terms(s, x):
    return s.guards + list(s.fs.values()) + [t for f in s.fs.values() for t in s.p.deep(f)]
