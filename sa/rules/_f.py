"""Runs of single filters."""

import copy

from ..rule import *  # noqa


class FilterRun:
    def __init__(self, ctx, cfg_cls, op, run):
        self.cfg_cls, self.op, self.run = cfg_cls, op, run
        self.v = View(run)
        self.e = run.e
        self.view, self.ret = run.ret if run.ret is not None else (None, None)
        self.cfg, self.columns, self.values = mk("sym", f"cfg:{op}"), mk("sym", "columns"), mk("sym", "values")

    @property
    def where(self):
        k = self.e.classes[self.cfg_cls]
        return f"{k.module.name.rsplit('.', 1)[-1]}.py:{k.node.lineno}"

    def cfg_attr(self, n):
        return mk("attr", self.cfg, n)


def op_of(e, cls):
    for k in e.mro(cls):
        ci = e.classes.get(k)
        if ci is not None and "op" in ci.fields:
            t = e.ann(ci.fields["op"][0], ci.frame)
            if t is not None and t[0] == "lit" and len(t[1]) == 1:
                return t[1][0]
    return None


def config_classes(ctx):
    e = ctx.e
    base = ctx.name("filters", "SingleFilterConfig")
    out = {}
    for t in e.classes:
        if t is not base and base in e.mro(t):
            out[t] = op_of(e, t)
    return out


def filter_runs(ctx):
    """Symbolic runs construct_filter(columns) -> filter_view(values) of every filter."""
    out = []
    for t, op in config_classes(ctx).items():

        def body(e, t=t, op=op):
            cfg = ctx.sym(f"cfg:{op}", t)
            f = e.call(e.getattr_(cfg, "construct_filter", None), [ctx.sym("columns")], [("filter_context", ctx.sym("fctx", ctx.name("filters", "FilterContext")))], None)
            names = e.getattr_(f, "columns_out", None)
            ret = e.call(e.getattr_(f, "filter_view", None), [ctx.sym("values")], [], None)
            return f, ret, names

        run = ctx.run(("filter", op, t), body)
        fr = None
        if run.ret is not None and len(run.ret) == 3:
            f, ret, names = run.ret
            run.ret = (f, ret)
            run.names = names
        r = FilterRun(ctx, t, op, run)
        r.names = getattr(run, "names", None)
        out.append(r)
    return out


BRANCH = ("branch", "continue", "break", "return", "while", "except")
COPIES = ("plugin", "multiplex", "omit")


def depends(v, t, leaf, allow=None, ctrl=True):
    """Terms through which the value (and the choice) of t depends on leaf."""
    seen, hits = set(), []
    st = [(t, None)]
    while st:
        x, p = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x is leaf:
            hits.append(p)
            continue
        if allow is not None and allow(x):
            continue
        if x.op == "loop" or x.op == "idx":
            continue
        if x.op == "at":
            st.append((x.a[0], x))
            continue
        if x.op == "len" or v.is_call(x, "builtins.len"):
            s = x.a[0] if x.op == "len" else x.a[1][0]
            if s.op == "obj":
                for c in v.contribs(s):
                    for g, tag in c.guards:
                        if tag in BRANCH:
                            st.append((g, x))
            elif s is not leaf:
                st.append((s, x))
            continue
        for y in x.a:
            if isinstance(y, T):
                if x.op == "phi" and y is x.a[0] and not ctrl:
                    continue
                st.append((y, x))
            elif isinstance(y, tuple):
                st += [(z, x) for z in v._flat(y)]
        if x.op == "obj":
            o = v.e.objs.get(x)
            for c in o.contribs if o is not None else ():
                for k in (c.key, c.val):
                    if k is not None:
                        st.append((k, x))
                if ctrl:
                    st += [(g, x) for g, tag in c.guards if tag in BRANCH]
            for k, w in v.inst.get(x, {}).items():
                st.append((w, x))
        elif x.op == "mu":
            b = v.e.backs.get(x)
            if b is not None:
                st.append((b, x))
    return hits


def returned(fr):
    """(condition, container) alternatives of the value a filter returns."""
    return [(g, t) for g, t in fr.v.alts(fr.ret)]


def writes(fr, t):
    """Contributions replacing values in a returned container."""
    return [c for c in row_parts(fr, t) if c.op == "setitem"]


def row_parts(fr, t):
    """Contributions to a returned container.

    A row built by going over the given one and taking from a dictionary what is
    stored there under the position is a copy changed at those positions.
    """
    v = fr.v
    cs = v.contribs(t)

    def given(x, l):
        return x.op == "at" and x.a[1] is l and (x.a[0] is fr.values or x.a[0].op == "obj" and [c.val for c in v.contribs(x.a[0])] == [fr.values])

    def patch(x, l):
        """The dictionary if x is what it holds at the position."""
        return x.a[0] if x.op == "item" and x.a[0].op == "obj" and x.a[1] is mk("idx", l) else None

    base, ds = None, set()
    for c in cs:
        if c.op != "add" or len(c.loops) != 1 or c.val is None:
            return cs
        l = c.loops[0].term
        for g, x in v.alts(c.val):
            own = [y for z, tag in c.guards if tag in BRANCH for y in literals(z)] + literals(g)
            if any(v.varies(y, l) and not (y.a[0] if y.op == "not" else y).op == "in" for y in own):
                return cs
            if given(x, l):
                base = c
                ds.update(y.a[0].a[1] for y in own if y.op == "not" and y.a[0].op == "in" and y.a[0].a[0] is mk("idx", l))
            elif patch(x, l) is not None and mk("in", mk("idx", l), x.a[0]) in own:
                ds.add(x.a[0])
            else:
                return cs
    if base is None or len(ds) != 1:
        return cs
    out = [copy.copy(base)]
    out[0].op, out[0].val, out[0].loops = "extend", fr.values, ()
    for c in v.contribs(next(iter(ds))):
        if c.op not in ("set", "default"):
            return cs
        c = copy.copy(c)
        c.op = "setitem"
        out.append(c)
    return out


def resolve(v, t, depth=0):
    """Look through elements of lists built by a loop over another sequence.

    at(obj, loop) becomes the elements contributed to obj: (element, contribution).
    """
    if depth > 6:
        return []
    if t.op == "at" and t.a[0].op == "obj":
        out = []
        for c in v.contribs(t.a[0]):
            if c.op in ("add", "insert") and c.val is not None:
                out += [(x, cc or c) for x, cc in resolve(v, c.val, depth + 1)] or [(c.val, c)]
            elif c.op == "extend" and c.val is not None:
                out += resolve(v, mk("at", c.val, t.a[1]), depth + 1)
            else:
                return []
        return out
    if t.op == "at" and t.a[0].op == "phi":
        out = []
        for _, s in v.alts(t.a[0]):
            out += resolve(v, mk("at", s, t.a[1]), depth + 1)
        return out
    return [(t, None)]


def lookup(v, t, columns):
    """(status, message, name) for an index computed from the given column names."""
    if t.op == "phi":
        rs = [lookup(v, x, columns) for _, x in v.alts(t) if x is not NONE]
        for r in rs:
            if r[0] is not True:
                return r
        return rs[0] if rs else (None, "", None)
    if v.is_call(t, ".index") and len(t.a[1]) == 1:
        b = t.a[0].a[0]
        if b is columns:
            return (True, "", t.a[1][0])
        if v.uses(b, columns) and v.is_call(b, "builtins.sorted", "builtins.reversed", "builtins.set"):
            return (False, "position in a reordered list of columns", t.a[1][0])
        return (None, show(t, 5), None)
    if t.op == "item" and t.a[0].op == "obj":
        cs = [c for c in v.contribs(t.a[0]) if c.op in ("set", "default")]
        if not cs:
            return (None, show(t, 5), None)
        for c in cs:
            k, w = c.key, c.val
            if w is None or k is None:
                return (None, show(t, 5), None)
            if w.op == "rank":
                return (False, f"position among some of the columns: {show(w, 4)}", t.a[1])
            if w.op == "rankof" and v.is_call(w.a[0], "builtins.sorted", "builtins.reversed", "builtins.set"):
                return (False, f"position in {show(w.a[0], 4)}", t.a[1])
            off = poly(w)
            base = [m for m in off if m]
            if len(base) == 1 and len(base[0]) == 1 and base[0][0].op == "idx":
                if off != {base[0]: 1}:
                    return (False, f"position is off: {show(w, 4)}", t.a[1])
                lp = base[0][0].a[0]
                loops = [l for l in c.loops if l.term is lp]
                if any(l.rev for l in loops):
                    return (False, "positions counted from the end", t.a[1])
                if any(v.varies(g, lp) for g, tag in c.guards if tag in BRANCH):
                    return (None, show(t, 5), None)
                seq = lp.a[0]
                if k.op == "at" and k.a[1] is lp and k.a[0] is columns and seq is columns:
                    continue
                if k.op == "at" and v.is_call(k.a[0], "builtins.sorted", "builtins.reversed", "builtins.set"):
                    return (False, "position in a reordered list of columns", t.a[1])
            return (None, show(w, 5), None)
        return (True, "", t.a[1])
    if t.op == "idx" and t.a[0].a[0] is columns:
        return (None, show(t, 5), None)
    if t.op in ("rank", "rankof"):
        return (False, f"columns are located by {show(t, 4)} and not by name", None)
    if t.op == "at" and t.a[0].op == "slice" and t.a[0].a[0].op == "obj" and v.uses(t.a[0].a[0], columns, ctrl=True):
        return (False, "some of the positions of the named columns are left out", None)
    if t.op == "bin" and t.a[0] in ("+", "-"):
        for x in (t.a[1], t.a[2]):
            r = lookup(v, x, columns)
            if r[0] is True:
                return (False, f"position is off: {show(t, 4)}", r[2])
    if t.op == "idx" or (t.op == "const" and isinstance(cval(t), int)):
        return (False, f"columns are located by {show(t, 4)} and not by name", None)
    return (None, show(t, 5), None)
