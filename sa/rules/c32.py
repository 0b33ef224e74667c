"""Later configuration files override earlier ones key by key.

`merge`: the function that combines two documents, as a decision table over the
kinds of both (section, list, text, number, nothing) and, inside sections, over
the keys that are in the first, the second or both; the recursive call is taken
to be right (induction on depth).  `order`: each document read is merged as the
later one, in the order of the command line.  `given`: what is read for every
way to name the files.  `result`: the merged document is what is validated.
`error`: an unreadable or malformed file ends the command.
"""

from ._s import *  # noqa
from ..table import Opq, Table, Undecided
from .c26 import ALL as ANY, exn, later
from .c33 import positional

FLOORS = {"merge": 3, "order": 2, "given": 3, "result": 3, "error": 4}
LOADS = ("yaml.safe_load", "yaml.load", "yaml.full_load", "json.load", "json.loads")
VALUES = [{"p": 1, "q": 2}, {"q": 3, "r": 4}, {}, [1], [], "s", "", 0, 7, True, None]
KINDS = {dict: "section", list: "list", str: "text", int: "number", bool: "number", type(None): "nothing"}


def reference(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return {**a, **{k: reference(a[k], x) if k in a else x for k, x in b.items()}}
    return b


def loaded(t):
    if t.op == "at" and t.a[0].op == "call" and is_ext(t.a[0].a[0], "yaml.safe_load_all", "yaml.load_all", "yaml.full_load_all"):
        return True
    return t.op == "call" and is_ext(t.a[0], *LOADS)


def check(ctx, rep):
    v = View(ctx.main())
    cfg = ctx.name("config_model", "SubsetterConfig")
    fn, sample = merger(v)
    docs = [x for x in v.fx if validates(v, x, cfg)]
    if not docs:
        return fill(rep, FLOORS, "__main__.py")
    if fn is None:
        shallow(v, rep, docs)
        return fill(rep, FLOORS, "__main__.py")
    table(ctx, v, rep, fn, sample)
    Files(ctx, rep, v.e.funcs[fn.a[0] if fn.op == "bound" else fn], cfg).check()
    errors(v, rep)
    fill(rep, FLOORS, "__main__.py")


def validates(v, x, cfg):
    return x.kind == "new" and x.fn is cfg or x.recv is cfg and x.name in (".model_validate", ".parse_obj", ".model_construct")


def merger(v):
    """The recursive function applied to what was read from files."""
    for x in v.fx:
        if x.kind == "rec" and any(loaded(t) for a in x.args for t in v.deep(a)):
            f = x.fn
            if f.op == "bound":
                f = f.a[0]
            if f in v.e.funcs:
                return x.fn, x
    return None, None


def shallow(v, rep, docs):
    """No recursive merge: is one document put over another as a whole?"""
    for x in docs:
        ts = [q for a in list(x.args) + [t for _, t in x.kw] for q in v.deep(a)]
        accs = [t for t in ts if t.op == "mu" and t in v.e.backs]
        for m in accs:
            for _, q in v.alts(v.e.backs[m]):
                if loaded(q):
                    return rep.bad("merge", "sections", x, "the last file replaces all others")
                if q.op == "obj" and v.e.objs[q].kind == "dict":
                    cs = v.contribs(q)
                    if cs and all(c.op == "extend" and not c.loops for c in cs) and any(c.val is m for c in cs) and any(loaded(c.val) for c in cs):
                        return rep.bad("merge", "sections", x, "sections are replaced as a whole")
                if q.op == "bin" and q.a[0] == "|" and any(loaded(t) for t in q.a[1:]):
                    return rep.bad("merge", "sections", x, "sections are replaced as a whole")
        for t in ts:
            if t.op == "obj" and v.e.objs[t].kind == "dict":
                cs = v.contribs(t)
                if cs and all(c.op == "extend" for c in cs) and any(c.loops and loaded(c.val) for c in cs):
                    return rep.bad("merge", "sections", x, "sections are replaced as a whole")


# ----------------------------------------------------------------- table


class Merge(Table):
    """Evaluates the merge of two documents."""

    def __init__(self, v, roots, call, edits, cur=None):
        super().__init__(v, roots)
        self.is_rec, self.edits = call, edits
        self.cur = cur or {}

    def child(self, roots, cur):
        return Merge(self.v, {**self.roots, **roots}, self.is_rec, self.edits, {**self.cur, **cur})

    def _ev(self, t):
        if t in self.cur:
            return self.cur[t]
        if t in self.edits:
            x = self.roots[t] if t in self.roots else super()._ev(t)
            return self.build(t, dict(x), self.edits[t]) if isinstance(x, dict) else x
        if t in self.roots:
            return self.roots[t]
        if t.op == "isinst":
            return self.isinst(self.ev(t.a[0]), t.a[1], t)
        if t.op == "view" and t.a[0] in ("keys", "values", "items"):
            d = self.ev(t.a[1])
            if isinstance(d, dict):
                return list(getattr(d, t.a[0])())
            raise Undecided(t)
        if t.op == "bin" and t.a[0] in ("|", "&", "-", "^"):
            a, b = self.ev(t.a[1]), self.ev(t.a[2])
            if isinstance(a, dict) and isinstance(b, dict) and t.a[0] == "|":
                return {**a, **b}
            try:
                a, b = set(a), set(b)
            except TypeError:
                raise Undecided(t)
            return sorted({"|": a | b, "&": a & b, "-": a - b, "^": a ^ b}[t.a[0]])
        return super()._ev(t)

    def isinst(self, x, c, t):
        names = [y.a[0].rsplit(".", 1)[-1] if y.op == "ext" else None for y in (c.a if c.op == "tuple" else [c])]
        known = {"dict": dict, "Mapping": dict, "MutableMapping": dict, "list": list, "Sequence": (list, str), "str": str, "int": int, "bool": bool, "tuple": tuple, "float": float, "NoneType": type(None)}
        if any(n not in known for n in names):
            raise Undecided(t)
        return any(isinstance(x, known[n]) for n in names)

    def obj(self, t):
        o = self.e.objs[t]
        if o.kind not in ("dict", "list", "set"):
            raise Undecided(t)
        return self.build(t, {} if o.kind == "dict" else [], list(o.contribs))

    def build(self, t, out, cs):
        """Apply changes in order; those inside one loop once per element."""
        i = 0
        while i < len(cs):
            c = cs[i]
            if not c.loops:
                self.child({}, {t: out}).apply(out, c, t)
                i += 1
                continue
            j = i
            while j < len(cs) and cs[j].loops and cs[j].loops[0].uid == c.loops[0].uid:
                j += 1
            if any(len(x.loops) > 1 for x in cs[i:j]):
                raise Undecided(t)
            self.child({}, {t: out}).each(c.loops[0], out, cs[i:j], t)
            i = j
        return out

    def each(self, loop, out, cs, t):
        lt = loop.term
        seq = lt.a[0]
        base = seq.a[1] if seq.op == "view" else seq
        d = self.ev(base)
        if not isinstance(d, (dict, list, set, tuple)):
            raise Undecided(t)
        for k in list(d):
            roots = {}
            if isinstance(d, dict):
                roots[mk("key", base, lt)] = k
                roots[mk("at", base, lt)] = k
                roots[mk("item", base, mk("key", base, lt))] = d[k]
                if seq.op == "view":
                    roots[mk("at", seq, lt)] = {"keys": k, "values": d[k], "items": (k, d[k])}[seq.a[0]]
                    roots[mk("key", seq, lt)] = k
            else:
                roots[mk("at", seq, lt)] = k
                roots[mk("key", seq, lt)] = k
            for c in cs:
                self.child(roots, {t: out}).apply(out, c, t)

    def apply(self, out, c, t):
        if not all(self.true(g) for g, tag in c.guards):
            return
        if isinstance(out, dict):
            if c.op in ("set", "setitem"):
                out[self.ev(c.key)] = self.ev(c.val)
            elif c.op == "default":
                out.setdefault(self.ev(c.key), self.ev(c.val))
            elif c.op in ("del", "pop") and c.key is not None:
                out.pop(self.ev(c.key), None)
            elif c.op == "clear":
                out.clear()
            elif c.op in ("update", "extend"):
                x = self.ev(c.val)
                if not isinstance(x, dict):
                    raise Undecided(t)
                out.update(x)
            else:
                raise Undecided(t)
        elif c.op == "add":
            out.append(self.ev(c.val))
        elif c.op == "extend":
            out.extend(self.ev(c.val))
        else:
            raise Undecided(t)

    def call(self, t):
        n = self.is_rec(t)
        if n is not None:
            return reference(*(self.ev(x) for x in n))
        f = t.a[0]
        if f.op == "ext":
            n = f.a[0]
            if n in ("copy.copy", "copy.deepcopy") and len(t.a[1]) == 1:
                return self.ev(t.a[1][0])
            if n == "builtins.type" and len(t.a[1]) == 1:
                return Opq("type", (type(self.ev(t.a[1][0])).__name__,))
            if n in ("builtins.sorted", "builtins.list", "builtins.tuple", "builtins.set") and len(t.a[1]) == 1:
                x = self.ev(t.a[1][0])
                if isinstance(x, (dict, list, set, tuple)):
                    return list(x)
                raise Undecided(t)
        if f.op == "attr" and f.a[1] in ("union", "intersection", "difference", "copy"):
            x = self.ev(f.a[0])
            ys = [self.ev(a) for a in t.a[1]]
            if f.a[1] == "copy" and isinstance(x, (dict, list)):
                return type(x)(x)
            if isinstance(x, (dict, list, set)) and all(isinstance(y, (dict, list, set)) for y in ys):
                return sorted(getattr(set(x), f.a[1])(*ys))
        return super().call(t)


class Change:
    def __init__(self, op, key, val, x):
        self.op, self.key, self.val, self.guards, self.loops = op, key, val, x.guards, x.loops


def table(ctx, v, rep, f, sample):
    e = v.e
    fn = e.funcs[f.a[0] if f.op == "bound" else f]
    n = len(sample.args)
    lead = n - 2
    if lead not in (0, 1) or sample.kw:
        return
    p = [ctx.sym("first"), ctx.sym("second")]
    st = dict(ctx.main().st or {})

    def body(e):
        fr = fn.frame
        while fr is not None and fr.kind == "func":
            for (fid, name), t in st.items() if st else ():
                if fid == fr.id and isinstance(t, T) and t.op == "func":
                    e.st.setdefault((fid, name), t)
            fr = fr.parent
        if fn.frame is not None and fn.frame.kind == "func" and hasattr(fn.node, "name"):
            e.st[(fn.frame.id, fn.node.name)] = f
        return e.call(f, (list(sample.args[:1]) if lead and f.op != "bound" else []) + p, [], None)

    r = ctx.run("merge", body)
    if r.ret is None:
        return
    w = View(r)
    edits = {}
    for x in w.fx:
        if x.kind == "setitem" and x.recv is not None and x.recv.op != "obj" and len(x.args) == 2:
            edits.setdefault(x.recv, []).append(Change("set", x.args[0], x.args[1], x))
        elif x.recv is not None and x.recv.op != "obj" and x.name == ".update" and len(x.args) == 1:
            edits.setdefault(x.recv, []).append(Change("extend", None, x.args[0], x))
        elif x.recv is not None and x.recv.op != "obj" and x.name in (".pop", ".clear", ".setdefault", ".popitem", ".append", ".extend"):
            return rep.unk("merge", "sections", x, f"{x.name} on a document")

    # which of the two is the later one is settled where it is called
    role = later_param(ctx, fn)

    def is_rec(t):
        g = t.a[0]
        if g is f or g.op == "func" and g in e.funcs and e.funcs[g].node is fn.node or g.op == "bound" and g.a[0] in e.funcs and e.funcs[g.a[0]].node is fn.node:
            return (t.a[1][-2:] if role != 0 else t.a[1][:-3:-1]) if len(t.a[1]) >= 2 else None
        return None

    where = fn.node
    rows = {"sections": [], "other kinds": [], "keys": []}
    for i, a in enumerate(VALUES):
        for b in VALUES:
            rows["sections" if isinstance(a, dict) and isinstance(b, dict) else "other kinds"].append((a, b))
            rows["keys"].append(({"k": a, "l": 1}, {"k": b, "m": 2}))
    for n, cases in rows.items():
        bad, unk = None, None
        for a, b in cases:
            first, second = (a, b) if role != 0 else (b, a)
            try:
                got = Merge(w, {p[0]: first, p[1]: second}, is_rec, edits).ev(r.ret)
            except (Undecided, TypeError, RecursionError) as exc:
                unk = f"not recognised: {exc}"[:80]
                continue
            want = reference(a, b)
            if got != want or type(got) is not type(want) or repr(got) != repr(want) and isinstance(want, (bool, int)):
                bad = bad or f"{a!r} followed by {b!r} gives {got!r}"
        where_ = f"{fn.module.name.rsplit('.', 1)[-1]}.py:{getattr(where, 'lineno', 0)}"
        rep.check(False if bad and role is not None else None if unk or bad else True, "merge", n, where_, bad or unk or "")


def boundary_run(ctx, fn):
    base = ctx.boundary((ctx.name("planner", "Planner"), ctx.name("sampler", "Sampler")), objs=True)

    def hook(g, args, kw, node):
        h = g.a[0] if g.op == "bound" else g
        if h.op == "func" and ctx.e.funcs[h].node is fn.node:
            return ctx.e.opaque(g, args, kw, node, "boundary")
        return base(g, args, kw, node)

    return ctx.run("main-merge", lambda e: e.call(ctx.name("__main__", "main"), [], [], None), hook=hook)


def merges(v, fn):
    out = []
    for x in v.fx:
        h = x.fn.a[0] if x.fn is not None and x.fn.op == "bound" else x.fn
        if x.kind == "boundary" and h is not None and h.op == "func" and v.e.funcs[h].node is fn.node and len(x.args) >= 2:
            out.append(x)
    return out


def side(v, t):
    """'new' for what was just read, 'old' for what was read before."""
    rs = set()
    for _, q in v.alts(t):
        if loaded(q):
            rs.add("new")
        elif q.op in ("mu", "fin") or q.op == "obj" and v.e.objs[q].kind == "dict" or q is NONE or q.op == "call" and q.a[0].op in ("func", "bound"):
            rs.add("old")
        elif q.op == "const":
            rs.add("old")
        else:
            rs.add(None)
    if rs == {"new", "old"} and any(loaded(q) for _, q in v.alts(t)):
        return "new"  # `load(...) or {}`
    return rs.pop() if len(rs) == 1 else None


def later_param(ctx, fn):
    """Index of the parameter that gets the document just read, if it is always the same."""
    v = View(boundary_run(ctx, fn))
    out = set()
    for x in merges(v, fn):
        a, b = x.args[-2:]
        s = (side(v, a), side(v, b))
        if s == ("old", "new"):
            out.add(1)
        elif s == ("new", "old"):
            out.add(0)
        else:
            out.add(None)
    return out.pop() if len(out) == 1 else None


# ----------------------------------------------------------------- files


class Files:
    def __init__(self, ctx, rep, fn, cfg):
        self.ctx, self.rep, self.fn, self.cfg = ctx, rep, fn, cfg
        self.v = View(boundary_run(ctx, fn))
        self.args = next((x.result for x in self.v.fx if x.name == ".parse_args"), None)

    def opt(self, t, n):
        return t.op == "attr" and t.a[0] is self.args and t.a[1] == n

    def possible(self, g, given, extra=()):
        tb = Table(self.v, {**{mk("attr", self.args, k): x for k, x in given.items()}, **dict(extra)})
        known = {}
        for at in atoms(g):
            try:
                known[at] = bool(tb.true(at))
            except (Undecided, TypeError):
                pass
        return fixed(g, known) is not FALSE

    def check(self):
        v, rep = self.v, self.rep
        xs = merges(v, self.fn)
        if self.args is None or not xs:
            return
        for x in xs:
            self.order(x)
        part = next((x for x in xs for l in self.loops(x) if l.term.a[0].op == "slice"), None)
        n = self.left_out(xs) if part is not None else None
        if n is not None:
            rep.bad("order", "in a loop", part, f"of {n} files some are not merged")
        for a in ("plan", "sample", "subset"):
            self.given(a)
            self.result(a)

    def left_out(self, xs):
        """A number of files given for which not exactly these are merged, one after the other; None when not found."""
        for n in range(1, 6):
            files = list(range(n))
            got = []
            for x in xs:
                ls = self.loops(x)
                gs = [self.listed(g, files) for g, tag in x.guards if any(self.opt(t, "config") for t in subterms(g))]
                gs = [g for g in gs if g is not None]
                if not all(gs):
                    continue
                s = self.listed(ls[0].term.a[0], files) if len(ls) == 1 and not ls[0].sort and not ls[0].unordered else None
                if not isinstance(s, list):
                    return None
                got += s[::-1] if ls[0].rev else s
            if sorted(set(got)) != files:
                return n
        return None

    def listed(self, t, files):
        """Value of an expression on the list of files, or None."""
        ev = lambda q: self.listed(q, files)
        if self.opt(t, "config"):
            return files
        if t.op == "const":
            return cval(t)
        if t.op == "call" and is_ext(t.a[0], "builtins.list", "builtins.tuple", "builtins.len") and len(t.a[1]) == 1:
            r = ev(t.a[1][0])
            return (len(r) if is_ext(t.a[0], "builtins.len") else r) if isinstance(r, list) else None
        if t.op == "slice":
            r = ev(t.a[0])
            bs = [q.a[0] if isinstance(q, T) and q.op == "const" else self for q in t.a[1:]]
            return r[slice(*([*bs] + [None] * 3)[:3])] if isinstance(r, list) and self not in bs else None
        if t.op == "truth":
            r = ev(t.a[0])
            return None if r is None else bool(r)
        if t.op == "not":
            r = ev(t.a[0])
            return None if r is None else not r
        if t.op in ("lt", "eq"):
            a, b = ev(t.a[0]), ev(t.a[1])
            return (a < b if t.op == "lt" else a == b) if isinstance(a, int) and isinstance(b, int) else None
        if t.op in ("and", "or"):
            rs = [ev(q) for q in t.a]
            if any(r is not None and bool(r) == (t.op == "or") for r in rs):
                return t.op == "or"
            return None if None in rs else t.op == "and"
        if t.op == "phi":
            c = ev(t.a[0])
            return None if c is None else ev(t.a[1] if c else t.a[2])
        return None

    def loops(self, x):
        return [l for l in x.loops if l.term.a[0].op != "while"]

    def order(self, x):
        v, rep = self.v, self.rep
        bad, unk = None, None
        ls = self.loops(x)
        for l in ls:
            s = l.term.a[0]
            if l.rev:
                bad = "the files are merged in reverse order"
            if l.unordered or l.sort:
                bad = bad or "the files are not merged in the order given"
            if s.op == "call" and is_ext(s.a[0], "yaml.safe_load_all", "yaml.load_all", "yaml.full_load_all"):
                continue  # the documents of one file
            while not self.opt(s, "config"):
                if s.op == "call" and is_ext(s.a[0], "builtins.reversed"):
                    bad = "the files are merged in reverse order"
                    s = s.a[1][0]
                elif s.op == "call" and is_ext(s.a[0], "builtins.sorted", "builtins.set", "builtins.frozenset"):
                    bad = "the files are not merged in the order given"
                    s = s.a[1][0]
                elif s.op == "call" and is_ext(s.a[0], "builtins.list", "builtins.tuple", "builtins.enumerate") and s.a[1]:
                    s = s.a[1][0]
                elif s.op == "call" and is_ext(s.a[0], "builtins.dict.fromkeys") and s.a[1]:
                    bad = "a file that is given again is not merged again"
                    s = s.a[1][0]
                elif s.op == "slice":
                    lo, hi, st = ([*s.a[1:]] + [NONE] * 3)[:3]
                    if st.op == "const" and cval(st) in (-1,):
                        bad = "the files are merged in reverse order"
                    elif lo is NONE and hi is NONE and st in (NONE, const(1)):
                        pass
                    else:
                        unk = "only some of the files"
                    s = s.a[0]
                elif s.op == "obj" and v.e.objs[s].kind == "list" and len(v.contribs(s)) == 1 and v.contribs(s)[0].op == "extend" and not v.contribs(s)[0].guards:
                    s = v.contribs(s)[0].val
                else:
                    unk = unk or f"files: {show(s, 3)}"
                    break
        a, b = x.args[-2:]
        ss = {side(v, a), side(v, b)}
        if ss == {"new"}:
            unk = unk or "two documents read"
        elif ss != {"old", "new"}:
            unk = unk or "documents not recognised"
        elif ls:
            old = a if side(v, a) == "old" else b
            if old.op == "obj" or old.op == "const":
                bad = bad or "only the last file is used"
        # every file is merged
        for g, tag in x.guards:
            if tag in ("break", "continue") or tag == "branch":
                for t in atoms(g):
                    if any(loaded(q) for q in subterms(t)):
                        if t.op == "is" and NONE in t.a or t.op == "isinst":
                            unk = unk or "not every document is merged"
                        else:
                            unk = unk or "not every document is merged"
                    elif any(q.op in ("idx", "rank", "mu") for q in subterms(t)):
                        unk = unk or "not every document is merged"
        rep.check(False if bad else None if unk else True, "order", "in a loop" if ls else "single", x, bad or unk or "")

    def source(self, t):
        if t.op == "at" and loaded(t):
            t = t.a[0]
        if t.op == "call" and t.a[1]:
            s = t.a[1][0]
            if s.op == "call" and s.a[0].op == "attr" and s.a[0].a[1] == "read":
                s = s.a[0].a[0]
            return s
        return None

    def given(self, a):
        """Which documents are read: for no file, a file and -."""
        v, rep = self.v, self.rep
        xs = [x for x in merges(v, self.fn)]
        bad, unk = None, None
        for cfg, path in (([], None), (None, None), (["P"], "P"), (["-"], "-")):
            n = 0
            for x in xs:
                elems = {t: path for y in (x,) for l in x.loops for t in self.elements(l)}
                c = and_(*[g for g, _ in x.guards])
                if not self.possible(c, {"action": a, "config": cfg}, elems.items()):
                    continue
                if x.loops and not cfg and all(self.possible(TRUE, {}) for _ in (0,)) and any(self.opt(t, "config") for l in x.loops for t in subterms(l.term)):
                    continue  # nothing to go through
                if path is not None and path != "-":
                    for l in x.loops:
                        for gg, s in v.alts(l.term.a[0]):
                            if s.op != "obj" or v.e.objs[s].kind != "list" or not self.possible(gg, {"action": a, "config": cfg}):
                                continue
                            for k in v.contribs(s):
                                if k.op in ("add", "insert") and k.val is not None and k.val.op == "const" and isinstance(cval(k.val), str) and self.possible(and_(*[h for h, _ in k.guards]), {"action": a, "config": cfg}):
                                    bad = f"{cval(k.val)} is read too, which was not given"
                d = next((t for t in x.args[-2:] if side(v, t) == "new"), None)
                if d is None:
                    unk = "document not recognised"
                    continue
                for g, q in v.alts(d):
                    if not loaded(q) or not self.possible(g, {"action": a, "config": cfg}, elems.items()):
                        continue
                    if self.source(q) is None:
                        unk = "document not recognised"
                        continue
                    for gg, s in v.alts(self.source(q)):
                        if not self.possible(gg, {"action": a, "config": cfg}, elems.items()):
                            continue
                        n += 1
                        k = self.stream(s)
                        if k is None:
                            unk = f"source {show(s, 3)}"
                        elif k == "stdin":
                            if path != "-":
                                bad = "the configuration is read from standard input"
                        else:
                            try:
                                p = Table(v, {mk("attr", self.args, "config"): cfg, **elems}).ev(k)
                            except (Undecided, TypeError):
                                unk = "file name not recognised"
                                continue
                            if path == "-":
                                bad = "- is taken as the name of a file"
                            elif p != (path or "subsetter.yaml"):
                                bad = f"{p} is read instead of {path or 'subsetter.yaml'}"
            if not n:
                unk = unk or "nothing read"
        rep.check(False if bad else None if unk else True, "given", a, xs[0], bad or unk or "")

    def elements(self, l):
        s = l.term.a[0]
        return [mk("at", s, l.term)]

    def stream(self, s):
        if is_ext(s, "sys.stdin"):
            return "stdin"
        if s.op == "call" and is_ext(s.a[0], "builtins.open", "io.open") and s.a[1]:
            return s.a[1][0]
        return None

    def result(self, a):
        v, rep = self.v, self.rep
        xs = [x for x in v.fx if validates(v, x, self.cfg) and self.possible(and_(*[g for g, _ in x.guards]), {"action": a})]
        if not xs:
            return rep.unk("result", a, "__main__.py", "no configuration validated")
        mine = merges(v, self.fn)
        for x in xs:
            d = positional(x, 0, "obj")
            if x.kind == "new":
                d = dict(x.kw).get("**")
            bad, unk = None, None
            for cfg in ([], ["P", "Q"]):
                for g, q in v.alts(d) if d is not None else ():
                    if not self.possible(g, {"action": a, "config": cfg}):
                        continue
                    if q.op in ("fin", "mu"):
                        m = q.a[0] if q.op == "fin" else q
                        bs = [b for _, b in v.alts(v.e.backs[m])] if m in v.e.backs else [None]
                        if not all(b is not None and b in [y.result for y in mine] for b in bs):
                            if cfg and any(b is not None and loaded(b) for b in bs):
                                bad = "the merged document is not what is used"
                            unk = "not the result of merging"
                    elif q in [y.result for y in mine]:
                        if cfg and any(y.result is q and y.loops for y in mine):
                            unk = "one step of merging"
                    elif loaded(q):
                        if cfg:
                            bad = "a single file is used"
                    else:
                        unk = f"document {show(q, 3)}"
            rep.check(False if bad else None if unk or d is None else True, "result", a, x, bad or unk or "")


# ----------------------------------------------------------------- errors


def errors(v, rep):
    for x in v.fx:
        if x.name not in ("builtins.open", "yaml.safe_load", ".model_validate") or x.name == "builtins.open" and not any(t.op == "attr" and t.a[1] == "config" for a in x.args for t in subterms(a)) and not (x.args and x.args[0].op == "const"):
            continue
        if x.name == "builtins.open" and len(x.args) > 1 and x.args[1].op == "const" and "w" in cval(x.args[1]):
            continue
        want = ("builtins.OSError", "builtins.FileNotFoundError", "builtins.PermissionError", "builtins.IsADirectoryError") if x.name == "builtins.open" else ("builtins.ValueError", "yaml.YAMLError", "pydantic.ValidationError")
        bad, unk = None, None
        for u in x.tries or ():
            for ts, how, g, h in v.e.tries.get(u, ()):
                ns = [exn(t) for t in ts]
                if not any(n in ANY or n in want for n in ns) or how == "raise" and g is TRUE:
                    continue
                if how != "raise":
                    if later(v, h):
                        unk = "goes on"
                    else:
                        bad = "the error is ignored"
                elif any(t.op in ("mu", "fin") for t in subterms(g)) and not any(t.op == "exc" for t in subterms(g)):
                    bad = "the error is ignored depending on the files read so far"
                else:
                    unk = unk or "ends depending on something"
        rep.check(False if bad else None if unk else True, "error", x.name.lstrip("."), x, bad or unk or "")
