"""Names of tables in the source and in the destination are kept apart.

A unit is inferred for every value that names a table: of the source (the plan,
configuration by table, reflected source tables and what is read from them) or
of the destination (results of the renaming rules, reflected and created
destination tables).  `rules`: renaming is a fold of all rules in order,
starting from the full source name.  `distinct`: a second table of the same
destination name ends the run before the destination is changed.  `names`: what
is looked up or compared is of the unit of what it is looked up in.  `created`:
tables made in the destination have renamed names.
"""

from ._s import *  # noqa

FLOORS = {"rules": 4, "distinct": 1, "names": 20, "created": 2}
SRC, DST = "source", "destination"
PERTABLE = (("config", "filters"), ("config", "multiplicity", "extra_columns"), ("config", "multiplicity", "ignore_tables"), ("config", "multiplicity", "ignore_primary_key_columns"), ("config", "compact", "columns"), ("plan", "queries"), ("plan", "passthrough"))
TABLEISH = ("table_obj", "table", "referred_table")
SEQS = ("builtins.list", "builtins.tuple", "builtins.set", "builtins.frozenset", "builtins.sorted", "builtins.reversed", "builtins.iter", "builtins.enumerate", "tqdm.tqdm", "tqdm.auto.tqdm", "tqdm.std.tqdm", "builtins.dict")


def check(ctx, rep):
    v = SV(ctx, "database")
    Names(ctx, v, rep).check()
    fill(rep, FLOORS, "sampler.py")


def is_remap(t):
    p = attr_path(t)
    return p is not None and p[0] == "config" and p[-1] == "remap"


def pertable(t):
    return attr_path(t) in PERTABLE


class Names:
    def __init__(self, ctx, v, rep):
        self.ctx, self.v, self.rep, self.e = ctx, v, rep, v.e
        self.memo, self.busy = {}, set()
        self.D, self.S = dest_dicts(v), source_dicts(v)
        self.metas = {}
        for x in v.fx:
            m = b = None
            if x.name == ".reflect" and x.recv is not None:
                m, b = x.recv, v.xkw(x, "bind", 0)
            elif x.name == "sqlalchemy.MetaData" and x.result is not None:
                m, b = x.result, v.xkw(x, "bind")
            if m is not None and b is not None:
                s = v.sides(b)
                if s == {"source"}:
                    self.metas.setdefault(m, set()).add(SRC)
                elif s == {"dest"}:
                    self.metas.setdefault(m, set()).add(DST)

    # -------------------------------------------------------------- units

    def meta(self, t):
        """Unit of the tables of a MetaData object."""
        if t.op == "attr" and t.a[1] == "tables" and len(self.metas.get(t.a[0], ())) == 1:
            return next(iter(self.metas[t.a[0]]))
        return None

    def cached(self, kind, t, f):
        k = (kind, t)
        if k in self.memo:
            return self.memo[k]
        if k in self.busy:
            return None
        self.busy.add(k)
        try:
            r = f(t)
        finally:
            self.busy.discard(k)
        self.memo[k] = r
        return r

    def join(self, us):
        us = {u for u in us if u is not None}
        return next(iter(us)) if len(us) == 1 else None

    def unit(self, t):
        return self.cached("name", t, self._unit)

    def renamed(self, t):
        """The result of a fold over the renaming rules."""
        m = t.a[0] if t.op == "fin" else t
        return m.op == "mu" and is_remap(self.base(m.a[0].a[0]))

    def base(self, s):
        for _ in range(6):
            if s.op == "slice":
                s = s.a[0]
            elif s.op == "call" and is_ext(s.a[0], *SEQS) and s.a[1]:
                s = s.a[1][0]
            else:
                break
        return s

    def _unit(self, t):
        v = self.v
        if t.op in ("mu", "fin"):
            if self.renamed(t):
                return DST
            m = t.a[0] if t.op == "fin" else t
            return self.join([self.unit(q) for q in (m.a[2], self.e.backs.get(m)) if q is not None and q is not m])
        if t.op == "phi":
            return self.join([self.unit(q) for _, q in v.alts(t) if q is not NONE])
        if t.op in ("key", "at"):
            return self.elements(t.a[0])
        if t.op == "sel" and t.a[2] is not t:
            return self.unit(t.a[2])
        if t.op == "item":
            c, k = t.a
            if c.op == "obj":
                ob = self.e.objs[c]
                if ob.kind == "dict":
                    return self.values(c)
                if k.op == "const":
                    return self.elements(c)
            if c.op == "call" and c.a[0].op == "attr" and c.a[0].a[1] in ("split", "rsplit", "partition", "rpartition"):
                return self.unit(c.a[0].a[0])
            if k.op == "const" and c.op in ("at", "key", "item", "phi", "tuple"):
                return self.unit(c)
            return None
        if t.op == "tuple":
            us = [self.unit(q) for q in t.a[:2]]
            return us[0] if us and None not in us and len(set(us)) == 1 else None
        if t.op == "fstr":
            us = [self.unit(q) for q in t.a if isinstance(q, T)]
            return us[0] if us and None not in us and len(set(us)) == 1 else None
        if t.op == "bin" and t.a[0] == "+":
            us = [self.unit(q) for q in t.a[1:3] if q.op != "const"]
            return us[0] if us and None not in us and len(set(us)) == 1 else None
        if t.op == "attr":
            n = t.a[1]
            if n in ("table_schema", "table_name") and t.a[0].op == "at" and t.a[0].a[0].op == "attr" and t.a[0].a[0].a[1] == "<identifiers>":
                return SRC
            if n in ("dst_schema", "dst_table"):
                return self.object(t.a[0])
            if n in ("schema", "name", "fullname", "key") and self.is_table(t.a[0]):
                return self.object(t.a[0])
            return None
        if t.op == "call":
            f = t.a[0]
            if is_ext(f, "glob.escape", "re.escape", "builtins.str", "sys.intern") and len(t.a[1]) == 1:
                q = t.a[1][0]
                return self.unit(q) or (self.object(q) if self.is_table(q) else None)
            if f.op == "attr" and f.a[1] in ("lower", "upper", "strip", "split", "rsplit", "partition", "rpartition"):
                return self.unit(f.a[0])
            if is_ext(f, "re.sub") and len(t.a[1]) == 3 and any(is_remap(q) for q in subterms(t.a[1][0])):
                return DST
        return None

    def is_table(self, t):
        if t.op == "phi":
            return all(self.is_table(q) for _, q in self.v.alts(t) if q is not NONE)
        if t.op == "attr":
            return t.a[1] in TABLEISH
        if t.op == "call":
            return is_ext(t.a[0], "sqlalchemy.Table", "sqlalchemy.schema.Table")
        if t.op == "item":
            return t.a[0] in self.D or t.a[0] in self.S or self.meta(t.a[0]) is not None or t.a[0].op == "obj" and self.e.objs[t.a[0]].kind == "dict" and bool(self.v.contribs(t.a[0])) and all(c.val is not None and c.val is not t and c.op in ("set", "default", "setitem") and self.is_table(c.val) for c in self.v.contribs(t.a[0]))
        if t.op == "at":
            s = self.base(t.a[0])
            return s.op == "view" and s.a[0] == "values" and (s.a[1] in self.D or s.a[1] in self.S or self.meta(s.a[1]) is not None)
        if t.op == "obj":
            return "table_obj" in self.v.inst.get(t, {})
        return False

    def object(self, t):
        return self.cached("object", t, self._object)

    def _object(self, t):
        v = self.v
        if t.op == "phi":
            return self.join([self.object(q) for _, q in v.alts(t) if q is not NONE])
        if t.op == "item":
            c = t.a[0]
            if c in self.D:
                return DST
            if c in self.S:
                return SRC
            if self.meta(c):
                return self.meta(c)
            if c.op == "obj" and self.e.objs[c].kind == "dict":
                return self.join([self.object(q.val) for q in v.contribs(c) if q.val is not None])
            return self.object(c) if c.op == "attr" else None
        if t.op in ("attr", "view"):
            return self.object(t.a[0] if t.op == "attr" else t.a[1])
        if t.op == "at":
            s = self.base(t.a[0])
            if s.op == "view" and s.a[0] == "values":
                return DST if s.a[1] in self.D else SRC if s.a[1] in self.S else self.meta(s.a[1])
            if s.op == "attr":
                return self.object(s)
            if s.op == "obj":
                return self.join([self.object(c.val) for c in v.contribs(s) if c.val is not None])
            return None
        if t.op == "call" and is_ext(t.a[0], "sqlalchemy.Table", "sqlalchemy.schema.Table") and t.a[1]:
            return self.unit(t.a[1][0])
        if t.op == "obj":
            q = v.inst.get(t, {}).get("table_obj")
            return self.object(q) if q is not None else None
        return None

    def elements(self, s):
        return self.cached("elements", s, self._elements)

    def _elements(self, s):
        v = self.v
        s = self.base(s)
        if pertable(s):
            return SRC
        if self.meta(s):
            return self.meta(s)
        if s in self.D:
            return DST
        if s in self.S:
            return SRC
        if s.op == "phi":
            return self.join([self.elements(q) for _, q in v.alts(s) if q is not NONE])
        if s.op == "view":
            return self.elements(s.a[1]) if s.a[0] in ("keys", "items") else self.values(s.a[1])
        if s.op == "obj":
            ob = self.e.objs[s]
            if ob.kind == "dict":
                return self.join([self.unit(c.key) if c.op != "extend" else self.elements(c.val) for c in v.contribs(s) if c.key is not None or c.op == "extend" and c.val is not None])
            return self.join([self.elements(c.val) if c.op in ("extend", "diff", "inter") else self.unit(c.val) for c in v.contribs(s) if c.val is not None])
        if s.op == "call":
            f = s.a[0]
            if f.op == "func" and len(s.a[1]) == 1:
                return self.elements(s.a[1][0])
            if f.op == "attr" and f.a[1] in ("keys", "copy", "union", "difference", "intersection"):
                return self.elements(f.a[0])
            if f.op == "attr" and f.a[1] == "values":
                return self.values(f.a[0])
            return None
        if s.op == "bin":
            return self.join([self.elements(q) for q in s.a[1:3]])
        if s.op == "item" and s.a[0].op == "obj":
            return self.values(s.a[0])
        if s.op in ("mu", "fin"):
            m = s.a[0] if s.op == "fin" else s
            return self.join([self.elements(q) for q in (m.a[2], self.e.backs.get(m)) if q is not None and q is not m])
        return None

    def values(self, d):
        """Unit of the names stored under the keys of a dictionary."""
        if d.op != "obj":
            return None
        out = []
        for c in self.v.contribs(d):
            if c.val is None:
                continue
            if c.val.op == "obj" and self.e.objs[c.val].kind != "inst":
                out.append(self.elements(c.val))
            elif c.op != "extend":
                out.append(self.unit(c.val))
        return self.join(out)

    # -------------------------------------------------------------- check

    def check(self):
        v, rep = self.v, self.rep
        used = any(is_remap(t) for x in v.fx for q in [l.term.a[0] for l in x.loops] + list(x.args) if isinstance(q, T) for t in subterms(q)) or any(is_remap(l.term.a[0]) for o in self.e.objs for c in v.contribs(o) for l in c.loops)
        used = used or any(is_remap(t) for o in self.e.objs for c in v.contribs(o) for q in (c.key, c.val) if q is not None for t in subterms(q))
        if not used:
            rep.bad("rules", "renaming", "sampler.py", "tables are never renamed")
            return fill(rep, FLOORS, "sampler.py")
        self.rules()
        self.distinct()
        self.names()
        self.created()

    # -------------------------------------------------------------- rules

    def rules(self):
        v, rep = self.v, self.rep
        seen = set()
        for x in v.fx:
            for q in list(x.args) + ([x.recv] if x.recv is not None else []):
                if not isinstance(q, T):
                    continue
                for t in subterms(q):
                    if t.op == "mu" and is_remap(self.base(t.a[0].a[0])) and t not in seen:
                        seen.add(t)
                        self.rule(x, t)
        if not seen:
            rep.unk("rules", "renaming", "sampler.py", "renaming not recognised")
        for x in v.fx:
            l = next((l for l in x.loops if is_remap(self.base(l.term.a[0]))), None)
            if l is not None and x.name in ("re.sub", ".sub", ".replace", "re.subn", ".subn"):
                out = [tag for tag, c in v.exits(x, l.term) if tag in ("break", "return")]
                skip = [g for g in skips(v, x, l.term)]
                if out:
                    rep.bad("rules", "all rules", x, "rules after the first that applies are ignored")
                elif skip:
                    rep.unk("rules", "all rules", x, f"only if {show(skip[0], 4)}")

    def rule(self, x, m):
        v, rep = self.v, self.rep
        l = m.a[0]
        bad = unk = None
        s = l.a[0]
        lo = next((k for y in v.fx for k in y.loops if k.term is l), None)
        if s.op == "slice" or s.op == "call" and is_ext(s.a[0], "builtins.reversed", "builtins.sorted", "builtins.set") or lo is not None and (lo.rev or lo.sort or lo.unordered):
            bad = f"rules are taken from {show(s, 4)}{' in another order' if lo is not None and (lo.rev or lo.sort) else ''}"
        rep.check(not bad, "rules", "order", x, bad or "")
        # what is renamed
        bad = None
        i = m.a[2]
        if i.op == "item" and i.a[1].op == "const" and self.part(i):
            bad = "rules are applied to part of the name"
        elif i.op == "attr" and i.a[1] in ("name", "schema", "dst_table", "table_name"):
            bad = "rules are applied to part of the name"
        elif self.renamed(i):
            bad = "names already renamed are renamed again"
        elif self.unit(i) == DST:
            bad = "names of the destination are renamed again"
        elif self.unit(i) != SRC:
            unk = f"renames {show(i, 4)}"
        elif i.op == "fstr" and [q for q in i.a if not isinstance(q, T)] != ["."]:
            unk = f"renames {show(i, 4)}"
        rep.check(False if bad else None if unk else True, "rules", "name", x, bad or unk or "")
        # each rule
        bad = unk = None
        p = mk("at", s, l)
        b = self.e.backs.get(m)
        se, re_ = mk("attr", p, "search"), mk("attr", p, "replace")
        for g, t in v.alts(b) if b is not None else [(TRUE, m)]:
            if t is m:
                unk = f"not renamed unless {show(not_(g), 4)}" if g is not TRUE else "rule not recognised"
                hit = [q for at in atoms(g) for q in subterms(at) if q.op == "call" and (is_ext(q.a[0], "re.search") or q.a[0].op == "attr" and q.a[0].a[1] == "search")]
                if any(is_ext(q.a[0], "re.match", "re.fullmatch") for at in atoms(g) for q in subterms(at) if q.op == "call"):
                    bad = "rules only apply where they match the start of the name"
                continue
            args, kw = (list(t.a[1]), dict(t.a[2])) if t.op == "call" else ([], {})
            if t.op == "call" and is_ext(t.a[0], "re.sub"):
                names = ("pattern", "repl", "string", "count", "flags")
                a = {n: (args[i] if i < len(args) else kw.get(n)) for i, n in enumerate(names)}
            elif t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] == "sub" and t.a[0].a[0].op == "call" and is_ext(t.a[0].a[0].a[0], "re.compile"):
                q = t.a[0].a[0]
                names = ("repl", "string", "count")
                a = {n: (args[i] if i < len(args) else kw.get(n)) for i, n in enumerate(names)}
                a["pattern"] = q.a[1][0] if q.a[1] else None
                a["flags"] = q.a[1][1] if len(q.a[1]) > 1 else dict(q.a[2]).get("flags")
            elif t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] == "replace":
                bad = "rules are applied as plain text"
                continue
            else:
                unk = "rule not recognised"
                subs = [q for q in subterms(t) if q.op == "call" and is_ext(q.a[0], "re.sub") and len(q.a[1]) > 2]
                if subs and all(m in set(subterms(q.a[1][2])) and q.a[1][2].op == "item" and q.a[1][2].a[0].op == "call" and q.a[1][2].a[0].a[0].op == "attr" and q.a[1][2].a[0].a[0].a[1] in ("split", "rsplit", "partition", "rpartition") for q in subs):
                    bad = "rules are applied to part of the name"
                continue
            if a["string"] is m.a[2] and m.a[2] is not m:
                bad = "only the last rule has an effect"
            elif a["string"] is not m:
                unk = "rule not recognised"
            if a["pattern"] is not se or a["repl"] is not re_:
                unk = "rule not recognised"
                if a["pattern"] is re_ or a["repl"] is se:
                    bad = "search and replacement are exchanged"
                elif a["pattern"] is not None and any(is_ext(q, "re.escape") for q in subterms(a["pattern"])):
                    bad = "rules are applied as plain text"
            if a.get("count") is not None and not (a["count"].op == "const" and cval(a["count"]) == 0):
                bad = f"only {show(a['count'], 3)} occurrence is replaced"
            if a.get("flags") is not None and not (a["flags"].op == "const" and cval(a["flags"]) == 0):
                bad = f"rules are applied with {show(a['flags'], 3)}"
        rep.check(False if bad else None if unk else True, "rules", "rule", x, bad or unk or "")

    def part(self, i):
        c = i.a[0]
        return c.op == "call" and c.a[0].op == "attr" and c.a[0].a[1] in ("split", "rsplit") or c.op in ("at", "key")

    # ----------------------------------------------------------- distinct

    def distinct(self):
        v, rep = self.v, self.rep
        first = min([x.seq for x in v.inserts + v.deletes + v.creates], default=1 << 60)
        good, unsure = [], []
        for x in v.fx:
            if x.kind != "raise":
                continue
            for g, tag in x.guards:
                if tag == "raise":
                    continue
                r = self.collision(x, g)
                if r:
                    good.append((x, r))
                elif r is None:
                    unsure.append(x)
        opt = [p for p in good if p[1] == "options"]
        if opt and len(opt) == len(good) and not unsure:
            return rep.bad("distinct", "collision", opt[0][0], "two tables of the same destination are only refused with some options")
        good = [p for p in good if p not in opt]
        if not good:
            return rep.check(None if unsure or opt else False, "distinct", "collision", unsure[0] if unsure else "sampler.py", "two tables renamed to the same destination are both written to it")
        x, loops = good[0]
        bad = unk = None
        if all(y.seq > first for y, _ in good):
            bad = "two tables of the same destination are refused only after the destination was changed"
        for l in x.loops:
            s = l.term.a[0]
            if s.op == "slice":
                bad = f"only {show(s, 4)} are compared"
            elif not (is_attr(s, "plan", "queries") or self.base(s).op == "obj" or is_attr(self.base(s), "plan", "queries")):
                unk = "loop not recognised"
                if is_attr(self.base(s), "plan", "passthrough"):
                    bad = "only passthrough tables are compared"
        if swallowed(v, x):
            bad = "two tables of the same destination are not refused"
        extra = [g for g, tag in x.guards if tag in SKIP and self.collision(x, g) in (False, "options")]
        extra = [g for g in extra if g is not TRUE]
        if extra and not bad:
            ps = [p for g in extra for p in config_deps(v, g)]
            unk = f"only if {show(extra[0], 4)}"
            if any(p[-1] in ("merge", "conflict_strategy", "passthrough") for p in ps):
                bad = unk
            kept = [q for q in conj(and_(*extra)) if q.op == "not" and q.a[0].op == "eq" and {self.unit(y) for y in q.a[0].a} == {SRC, DST} and not any(self.taken(x, y) for y in q.a[0].a)]
            if kept and len(good) == 1 and not unsure:
                bad = "a table that keeps its name may take the place of a renamed one"
        rep.check(False if bad else None if unk else True, "distinct", "collision", x, bad or unk or "")

    def collision(self, x, g):
        """True if g says that a destination name was already taken by another table."""
        known = {}
        hit = False
        for at in atoms(g):
            if at.op == "in" and at.a[1].op == "obj" and at.a[1] not in self.D and self.unit(at.a[0]) == DST:
                if self.filling(x, at.a[1]) and self.elements(at.a[1]) == DST:
                    known[at] = True
                    hit = True
            elif at.op == "eq" and any(self.taken(x, q) for q in at.a):
                known[at] = False
                hit = True
            elif at.op == "is" and any(self.taken(x, q) for q in at.a):
                known[at] = False
                hit = True
            elif at.op in ("lt", "eq") and any(q.op == "call" and is_ext(q.a[0], "builtins.len") and q.a[1] and q.a[1][0].op == "obj" and self.elements(q.a[1][0]) == DST for q in subterms(at)):
                return None
        if not hit:
            return False
        r = fixed(g, known)
        if r is not TRUE and r is not FALSE and config_deps(self.v, r):
            return "options"
        return True if r is TRUE else None if r is not FALSE else False

    def filling(self, x, c):
        """Is the container still being filled where the test is made?"""
        ls = {l.term for l in x.loops}
        return any(ls & {l.term for l in k.loops} for k in self.v.contribs(c) if k.op in ("add", "set", "default", "setitem", "append"))

    def taken(self, x, t):
        """The source table a destination name is already used for."""
        for _, q in self.v.alts(t):
            if q.op == "item" and q.a[0].op == "obj" and q.a[0] not in self.D and self.unit(q.a[1]) == DST and self.values(q.a[0]) == SRC and self.filling(x, q.a[0]):
                return True
        return False

    # -------------------------------------------------------------- names

    def need(self, c):
        """Unit of the names something is looked up by."""
        c = self.base(c) if c.op in ("call", "slice") else c
        if pertable(c):
            return SRC, show(c, 5)
        if c in self.D:
            return DST, "the destination's tables"
        if c in self.S:
            return SRC, "the source's tables"
        if self.meta(c):
            return self.meta(c), f"the {self.meta(c)}'s tables"
        if c.op in ("obj", "view", "call"):
            return self.elements(c), "names kept"
        return None, ""

    def names(self):
        v, rep = self.v, self.rep
        seen = set()
        for x in v.fx:
            for q in list(x.args) + [q for _, q in x.kw or ()] + [g for g, _ in x.guards] + [l.term.a[0] for l in x.loops] + ([x.recv] if x.recv is not None else []) + ([x.result] if x.result is not None else []):
                if isinstance(q, T):
                    self.visit(q, x, seen)
        for o in list(self.e.objs):
            for c in v.contribs(o):
                for q in [c.key, c.val] + [g for g, _ in c.guards] + [l.term.a[0] for l in c.loops]:
                    if isinstance(q, T):
                        self.visit(q, c, seen)

    def visit(self, q, x, seen):
        for t in subterms(q):
            if t in seen:
                continue
            seen.add(t)
            if t.op == "item" and t.a[1].op != "const":
                self.lookup(x, t.a[0], t.a[1])
            elif t.op == "in":
                self.lookup(x, t.a[1], t.a[0])
            elif t.op == "call" and is_ext(t.a[0], "fnmatch.fnmatch", "fnmatch.fnmatchcase") and len(t.a[1]) == 2:
                self.compare(x, *t.a[1])
            elif t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("get", "pop", "setdefault") and t.a[1]:
                self.lookup(x, t.a[0].a[0], t.a[1][0])

    def lookup(self, x, c, k):
        need, what = self.need(c)
        got = self.unit(k)
        if need is None or got is None:
            return
        self.rep.check(need == got, "names", f"name {show(k, 4)} in {what}", x, f"a name of the {got} is looked up in {what} ({need})")

    def compare(self, x, a, b):
        ua, ub = self.unit(a), self.unit(b)
        if ua is None or ub is None:
            return
        self.rep.check(ua == ub, "names", f"{show(a, 4)} with {show(b, 4)}", x, f"a name of the {ua} is compared with one of the {ub}")

    # ------------------------------------------------------------ created

    def created(self):
        v, rep = self.v, self.rep
        for x in v.fx:
            if x.name not in ("sqlalchemy.Table", "sqlalchemy.schema.Table") or not x.args or x.result is None or v.temp_table(x.result):
                continue
            m = x.args[1] if len(x.args) > 1 else None
            made = [y for y in v.fx if y.name in (".create_all", ".create") and (y.recv is m or y.recv is x.result)]
            if not any("dest" in v.sides(v.xkw(y, "bind", 0)) for y in made if v.xkw(y, "bind", 0) is not None):
                continue
            for what, t in (("name", x.args[0]), ("schema", v.xkw(x, "schema"))):
                if t is None:
                    rep.bad("created", what, x, f"tables are created without {what}")
                    continue
                u = self.unit(t)
                rep.check(None if u is None else u == DST, "created", what, x, f"tables are created with the {what} they have in the source")
