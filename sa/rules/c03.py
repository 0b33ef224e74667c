"""Non-interference of the replacement filters.

Every filter configuration class is analysed on unknown columns and an
unknown row.  For each filter that replaces values, `independent`: no value it
stores depends (through data or branch conditions, including anything kept in
instance state or used as a lookup key) on a value of the row; the zero filter
may use type tests, null tests and the time zone.  `replaced`: the store into
the named columns is unconditional and the row is not returned unprocessed.
`seed`: the random generators and fake-data sources the filters construct take
no seed, and nothing in the package seeds one.
"""

import ast

from ..rule import *  # noqa
from ._f import *  # noqa

FLOORS = {"independent": 20, "replaced": 20, "seed": 1}
RNG = ("random.Random", "faker.Faker", "faker.proxy.Faker", "numpy.random.default_rng")


def check(ctx, rep):
    for fr in filter_runs(ctx):
        if fr.op in COPIES or fr.op is None:
            continue
        if fr.ret is None:
            rep.bad("replaced", fr.op, fr.where, "the filter always fails")
            continue
        one(fr, rep)
    seeds = 0
    for m in ctx.e.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("seed", "seed_instance", "seed_locale"):
                seeds += 1
                rep.bad("seed", f"{m.name}", where_ast(m, n), "a random generator is seeded")
    rep.check(not seeds, "seed", "package")


def zero_ok(values):
    def allow(t):
        if t.op == "attr" and t.a[1] == "tzinfo":
            return True
        if t.op == "is" and t.a[1] is NONE:
            return True
        if t.op == "isinst":
            return True
        if t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] == "builtins.type":
            return True
        return False

    return allow


def one(fr, rep):
    v = fr.v
    allow = zero_ok(fr.values) if fr.op == "zero" else None
    for g, t in returned(fr):
        ws = writes(fr, t) if t.op == "obj" else []
        if not ws:
            raw = t is fr.values or (t.op == "obj" and [c for c in v.contribs(t) if c.val is fr.values and c.op == "extend"] and len(v.contribs(t)) == 1)
            copies = t.op == "obj" and not raw
            if raw and not any(x.kind == "setitem" and x.recv is t for x in v.fx):
                rep.bad("replaced", fr.op, fr.where, f"the row is returned unchanged when {show(g, 4)}")
            elif copies:
                # rebuilt list: some element must not come from the row
                rep.unk("replaced", fr.op, fr.where, show(t, 4))
            else:
                rep.unk("replaced", fr.op, fr.where, show(t, 4))
            continue
        for c in ws:
            hits = depends(v, c.val, fr.values, allow)
            rep.check(not hits, "independent", fr.op, fr.where, f"the replacement depends on the original: {show(hits[0], 5)[:200] if hits else ''}")
            cond = [gg for gg, tag in c.guards if tag in BRANCH and (depends(v, gg, fr.values) or any(v.varies(gg, l.term) for l in c.loops))]
            ex = [y for l in c.loops for y in v.exits(c, l.term)]
            if c.key is not None and any(v.is_call(q, "builtins.next") for q in subterms(c.key)):
                rep.unk("replaced", fr.op, fr.where, "position taken from an iterator")
            elif cond:
                rep.bad("replaced", fr.op, fr.where, f"a named column is only replaced when {show(cond[0], 5)}")
            elif ex:
                rep.bad("replaced", fr.op, fr.where, f"replacement stops early when {show(ex[0][1], 5)}")
            else:
                rep.check(complete(fr, c), "replaced", fr.op, fr.where, "not every named column gets a replacement value")
    # generators
    for x in v.fx:
        if x.name in RNG:
            args = list(x.args) + [w for _, w in x.kw]
            rep.check(not args or x.name == "faker.Faker" and not any(is_const(a) and isinstance(cval(a), int) for a in args), "seed", f"{fr.op}", x, "the generator is given a fixed seed")
    for t in v.deep(fr.ret):
        if v.is_call(t, "random.Random") and (t.a[1] or t.a[2]):
            rep.bad("seed", fr.op, fr.where, f"replacements come from {show(t, 3)}")


def complete(fr, c):
    """The list of new values has an element for every named column."""
    v = fr.v
    if c.val.op != "at" or c.val.a[0].op != "obj":
        if c.val.op == "at" and c.val.a[0] is fr.cfg_attr("values"):
            n = [g for g, tag in c.guards if tag == "raise" and any(y.op == "len" or v.is_call(y, "builtins.len") for y in subterms(g)) and c.val.a[0] in set(subterms(g))]
            return True if n else None
        return True if c.val.op != "at" else None
    seq = c.val.a[0]
    cs = [k for k in v.contribs(seq) if k.op in ("add", "insert")]
    if len(cs) != len(v.contribs(seq)):
        return None
    conds = []
    for k in cs:
        if any(v.exits(k, l.term) for l in k.loops):
            return False
        conds.append(and_(*[g for g, tag in k.guards if tag in BRANCH and any(v.varies(g, l.term) for l in k.loops)]))
    if all(x is TRUE for x in conds):
        return True
    fails = []
    for x in v.fx:
        if x.kind == "raise":
            fails.append(and_(*[g for g, tag in x.guards if tag in BRANCH and any(v.varies(g, l.term) for l in x.loops)]))
    return True if implies(TRUE, or_(*conds, *fails)) else False
