"""Helpers for the rules about plan documents."""

import ast

from ..rule import *  # noqa
from ..table import Opq, Rec, Table, Undecided

NODE = mk("sym", "node")
CONTEXT = mk("sym", "context")
TABLE = mk("sym", "table")


def me(*path):
    t = NODE
    for p in path:
        t = mk("attr", t, p)
    return t


def tagged(ctx, tag):
    """The class of plan nodes with this value of the discriminator."""
    from ..interp import AnalysisBroken

    e = ctx.e
    m = ctx.module("plan_model")
    for t, k in e.classes.items():
        if k.module is not m:
            continue
        for n, (ann, d) in k.fields.items():
            if isinstance(ann, ast.Subscript) and isinstance(ann.slice, ast.Constant) and ann.slice.value == tag and getattr(ann.value, "id", getattr(ann.value, "attr", "")) == "Literal":
                return t
    raise AnalysisBroken(f"plan node {tag!r} not found")


class NV(View):
    """One method of one plan node."""

    def __init__(self, ctx, tag, meth, cls=None):
        self.ctx = ctx
        self.cls_ = cls if cls is not None else tagged(ctx, tag)
        self.r = ctx.node(self.cls_, meth)
        super().__init__(self.r)
        self.ret = self.r.ret
        self.name = f"{ctx.e.classes[self.cls_].name}.{meth}"

    def pick(self, t, roots):
        """Alternatives of t that are left when some inputs are known."""
        tb = Table(self, roots)
        if t.op == "phi":
            try:
                return self.pick(t.a[1] if tb.true(t.a[0]) else t.a[2], roots)
            except Undecided:
                return self.pick(t.a[1], roots) + self.pick(t.a[2], roots)
        return [t]

    def raised(self, roots):
        tb = Table(self, roots)
        for x in self.fx:
            if x.kind == "raise":
                try:
                    if all(tb.true(g) for g, _ in x.guards):
                        return True
                except Undecided:
                    pass
        return False

    def chain(self, t):
        """Steps and roots of a chain of method calls: {term: condition}."""
        steps, roots, mus, done = {}, {}, {}, set()

        def go(t, c):
            if c is FALSE:
                return
            if t.op == "phi":
                go(t.a[1], and_(c, t.a[0]))
                go(t.a[2], and_(c, not_(t.a[0])))
                return
            if t.op == "fin" and t.a[0].op == "mu":
                mus[t.a[0]] = or_(mus.get(t.a[0], FALSE), c)
                return
            if t.op == "mu" and t in mus:
                return
            if t.op == "call" and t.a[0].op == "attr":
                k = (t.a[0].a[1], t.a[1], t.a[2])
                steps[k] = or_(steps.get(k, FALSE), c)
                go(t.a[0].a[0], c)
                return
            roots[t] = or_(roots.get(t, FALSE), c)

        go(t, TRUE)
        while set(mus) - done:
            m = next(m for m in mus if m not in done)
            done.add(m)
            go(m.a[2], mus[m])
            if m in self.e.backs:
                go(self.e.backs[m], mus[m])
        return steps, roots

    def star(self, args):
        """The list behind f(*list), or None."""
        if len(args) == 1 and args[0].op == "star":
            return args[0].a[0]
        return None


def is_child(t, seq):
    """t is the generic element of seq."""
    return t.op == "at" and t.a[0] is seq and t.a[1].op == "loop" and t.a[1].a[0] is seq


def built(t, of):
    """t is of.build(...)."""
    return t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] == "build" and t.a[0].a[0] is of


def column(t):
    """(table, name) of table.columns[name]."""
    if t.op == "item" and t.a[0].op == "attr" and t.a[0].a[1] in ("columns", "c", "exported_columns"):
        return t.a[0].a[0], t.a[1]
    return None


def loopguards(c, base=()):
    """Conditions of a contribution other than those of where its list is made."""
    return [g for g, tag in c.guards if g not in base and tag in ("branch", "continue", "return", "break", "while", "except")]


def possible(v, g, roots):
    """The condition can hold with these inputs."""
    tb = Table(v, roots)
    try:
        return tb.true(g)
    except Undecided:
        return reduce_(tb, g) is not FALSE


def reduce_(tb, g):
    if g.op in ("and", "or"):
        return (and_ if g.op == "and" else or_)(*[reduce_(tb, x) for x in g.a])
    if g.op == "not":
        return not_(reduce_(tb, g.a[0]))
    try:
        return TRUE if tb.true(g) else FALSE
    except Undecided:
        return g


def other_atoms(g, field):
    """g depends on something other than this field."""
    return any(field not in set(subterms(a)) for a in atoms(g))
