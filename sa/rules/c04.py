"""Which positions of a row a filter writes, and the names it reports.

Every filter configuration class is analysed on unknown columns and an
unknown row.  `row`: the returned row starts as a copy of the given one and only
individual positions are replaced.  `index`: each position is the place of a
configured name among the given columns, found by name, for every configured
name.  `names`: the reported columns are the given ones, in order.  `reject`:
an unknown, repeated or missing name raises on every path to a usable filter.
`omit`: names and values leave out exactly the configured columns, by the same
test, keeping order.
"""

from ..rule import *  # noqa
from ._f import *  # noqa

FLOORS = {"row": 20, "index": 20, "names": 20, "reject": 60, "omit": 2}


def check(ctx, rep):
    for fr in filter_runs(ctx):
        if fr.op in (None, "multiplex"):
            continue
        if fr.ret is None:
            rep.bad("row", fr.op, fr.where, "the filter always fails")
        elif fr.op == "omit":
            omit(fr, rep)
        else:
            one(fr, rep)


REORDER = ("builtins.sorted", "builtins.reversed", "builtins.set", "builtins.frozenset")


def one(fr, rep):
    v = fr.v
    names = fr.cfg_attr("columns")
    if fr.names is fr.columns:
        rep.ok("names", fr.op, fr.where)
    else:
        bad = v.uses(fr.names, lambda t: v.is_call(t, *REORDER) or t is names)
        rep.check(False if bad else None, "names", fr.op, fr.where, f"the reported columns are {show(fr.names, 4)}")
    for g, t in returned(fr):
        if t.op != "obj":
            rep.unk("row", fr.op, fr.where, show(t, 4))
            continue
        cs = row_parts(fr, t)
        base = [c for c in cs if c.op == "extend" and c.val is fr.values]
        other = [c for c in cs if c not in base and c.op != "setitem"]
        if len(base) == 1 and not other:
            rep.ok("row", fr.op, fr.where)
        elif len(base) == 1:
            rep.bad("row", fr.op, fr.where, f"the row is also changed by {other[0].op}")
        else:
            bad = any(v.is_call(c.val, *REORDER) or altered(fr, c) for c in cs if c.val is not None) or any(c.op in ("pop", "remove", "del", "clear") for c in cs)
            rep.check(False if bad else None, "row", fr.op, fr.where, show(t, 4))
        for c in writes(fr, t):
            rs = resolve(v, c.key)
            if not rs:
                rep.check(False if reordered(fr, c) else None, "index", fr.op, fr.where, show(c.key, 4))
            for k, via in rs:
                st, msg, name = lookup(v, k, fr.columns)
                if st is True:
                    nm = name.a[0] if name.op == "at" else None
                    if nm is names:
                        lps = {l.term for l in ((via.loops if via else ()) or ())} | {l.term for l in c.loops}
                        vary = []
                        for src in [via] if via else []:
                            vary += [gg for gg, tag in src.guards if tag in BRANCH and any(v.varies(gg, l.term) for l in src.loops)]
                        rep.check(not vary, "index", fr.op, fr.where, f"a named column is left out when {show(vary[0], 4) if vary else ''}")
                    else:
                        rep.check(False if v.uses(name, fr.columns) and not v.uses(name, names) else None, "index", fr.op, fr.where, f"the column written is {show(name, 4)}")
                else:
                    rep.check(False if st is None and (reordered(fr, c) or shifted(fr, c)) else st, "index", fr.op, fr.where, msg)
    # rejections
    raises = [x for x in v.fx if x.kind == "raise"]
    final = [(g, tag) for g, tag in usable(fr)]
    empty = any(tag == "raise" and nonempty(g, names) for g, tag in final)
    rep.check(True if empty else rejected(fr, raises, lambda g: nonempty(not_(g), names)), "reject", f"{fr.op}: no columns", fr.where, "a filter without columns is accepted")
    unknown = any(tag in ("raise", "except") and member(v, g, fr.columns, names) for g, tag in final) or index_raises(fr, names)
    rep.check(True if unknown else rejected(fr, raises, lambda g: any(member(v, not_(x), fr.columns, names) for x in literals(g))), "reject", f"{fr.op}: unknown column", fr.where, "a column that does not exist is accepted")
    for x in raises:
        for g, tag in x.guards:
            if tag == "branch":
                for a in atoms(g):
                    if a.op == "truth" and implies(not_(a), g) and lookup(v, a.a[0].a[1] if a.a[0].op == "phi" else a.a[0], fr.columns)[0] is True:
                        rep.bad("reject", f"{fr.op}: first column", x, "a filter on the first column is rejected")
    dup = any(is_dup(v, x, names) for x in raises)
    rep.check(dup, "reject", f"{fr.op}: repeated column", fr.where, "a column named twice is accepted")


def reordered(fr, c):
    """Positions are in another order than the values stored there."""
    v = fr.v
    return c.key.op == "at" and v.is_call(c.key.a[0], *REORDER) and c.val is not None and c.val.op == "at" and c.val.a[1] is c.key.a[1] and not v.uses(c.val.a[0], c.key.a[0], ctrl=True)


def shifted(fr, c):
    """Positions are taken from another place of their list than the place of the value stored there."""
    k = c.key
    if not (k.op == "item" and k.a[0].op == "obj" and c.val is not None):
        return False
    p = poly(k.a[1])
    base = [m for m in p if m]
    if not (p.get((), 0) and len(base) == 1 and len(base[0]) == 1 and p[base[0]] == 1 and base[0][0].op in ("idx", "rank", "rankof")):
        return False
    return not fr.v.uses(c.val, k.a[1], ctrl=True)


def altered(fr, c):
    """Values of the row are replaced whether or not their column is named."""
    v = fr.v
    if c.op != "add" or not c.loops or c.loops[-1].term.a[0] is not fr.values:
        return False
    e = mk("at", fr.values, c.loops[-1].term)
    return any(a.op in ("call", "bin") and v.uses(a, e) and not any(v.uses(x, lambda t: t.op == "idx" or t is fr.columns or t is fr.cfg_attr("columns")) for x in (g, a)) for g, a in v.alts(c.val))


def rejected(fr, raises, test):
    return any(test(g) for x in raises for g, tag in x.guards if tag == "branch")


def usable(fr):
    """Guards under which the filter returns a row."""
    out = []
    for g, t in returned(fr):
        if t.op == "obj":
            for c in fr.v.contribs(t):
                out += list(c.guards)
                for k in (c.key, c.val):
                    if k is not None:
                        for y, via in resolve(fr.v, k):
                            if via is not None:
                                out += list(via.guards)
    return out


def nonempty(g, names):
    for x in literals(g):
        if x.op == "truth" and x.a[0] is names:
            return True
        if x.op == "lt" and is_const(x.a[0], 0) and x.a[1].op == "len" and x.a[1].a[0] is names:
            return True
        if x.op == "not" and x.a[0].op == "eq" and is_const(x.a[0].a[0], 0) and names in set(subterms(x.a[0])):
            return True
    return False


def member(v, g, columns, names):
    """g says that a configured name is one of the columns."""
    for x in literals(g):
        neg = x.op == "not"
        y = x.a[0] if neg else x
        if y.op == "in" and not neg and y.a[0].op == "at" and y.a[0].a[0] is names:
            if y.a[1] is columns:
                return True
            if y.a[1].op == "obj" and any(c.key is not None and v.uses(c.key, columns) or c.val is not None and v.uses(c.val, columns) for c in v.contribs(y.a[1])):
                return True
        if y.op == "exists" and neg and y.a[0].a[0] is names and any(member(v, not_(z), columns, names) for z in literals(y.a[1])):
            return True
        if y.op == "truth" and neg and is_diff(v, y.a[0], columns, names):
            return True
        if y.op == "is" and neg and y.a[1] is NONE and v.uses(y.a[0], names) and v.uses(y.a[0], columns):
            return True
    return False


def is_diff(v, t, columns, names):
    return v.uses(t, names) and v.uses(t, columns, ctrl=True)


def index_raises(fr, names):
    """The lookup itself raises for an unknown column."""
    for g, t in returned(fr):
        if t.op != "obj":
            continue
        for c in writes(fr, t):
            for k, via in resolve(fr.v, c.key):
                if fr.v.is_call(k, ".index") and k.a[0].a[0] is fr.columns:
                    return True
                if k.op == "item" and k.a[0].op == "obj":
                    return True
    return False


def is_dup(v, x, names):
    """A raise that depends on comparing configured names with each other."""
    for g, tag in x.guards:
        if tag not in ("branch", "continue"):
            continue
        for y in subterms(g):
            if y.op == "in" and y.a[0].op == "at" and y.a[0].a[0] is names and y.a[1].op in ("obj", "mu"):
                m = y.a[1]
                cs = v.contribs(m) if m.op == "obj" else []
                if any((c.key is not None and v.uses(c.key, names)) or (c.val is not None and v.uses(c.val, names)) for c in cs) and not any(z.op in ("eq", "lt") and y in set(subterms(z)) for z in atoms(g)):
                    return True
            if y.op == "in" and y.a[0].op == "at" and y.a[0].a[0] is names and y.a[1].op == "slice" and y.a[1].a[0] is names:
                _, lo, hi, step = y.a[1].a
                i = mk("idx", y.a[0].a[1])
                if step is NONE and (lo is NONE and hi is i or hi is NONE and poly(lo) == {**poly(i), (): 1}):
                    return fixed(g, {y: True}) is TRUE
            if y.op in ("eq", "lt") and all(v.uses(z, names) for z in y.a) and any(lencall(v, z) for z in y.a):
                return True
            if y.op in ("eq", "lt") and any(place(z) for z in y.a):
                r = seen_before(v, g, y, names)
                if r is not None:
                    return r
            if y.op in ("eq", "lt") and any(z.op in ("at", "key", "item") and any(v.is_call(w, "collections.Counter") and v.uses(w, names) for w in subterms(z)) for z in y.a):
                return counts(g, y)
            if y.op in ("eq", "lt") and any(v.is_call(z, ".count", ".most_common") and v.uses(z, names) for z in subterms(y)):
                return True
    return False


def counts(g, y):
    """Whether g holds as soon as a name occurs more than once; y compares its count with a number."""
    body = next((x.a[1] for x in subterms(g) if x.op == "exists" and y in set(subterms(x.a[1]))), g)
    k = [i for i, z in enumerate(y.a) if is_const(z)]
    if len(k) != 1:
        return False
    for n in (1, 2, 3):
        a = [n, n]
        a[k[0]] = cval(y.a[k[0]])
        r = fixed(body, {y: a[0] == a[1] if y.op == "eq" else a[0] < a[1]})
        if (r is FALSE) != (n == 1):
            return False
    return True


def seen_before(v, g, y, names):
    """Whether g holds for a repeated name: y compares the current position
    with the one recorded in a dictionary when the name came first."""
    z = next(z for z in y.a if place(z))
    i, k = place(z)
    o = y.a[1] if y.a[0] is z else y.a[0]
    rec, inside = o, {}
    if o.op == "phi" and o.a[0].op == "in":
        rec = o.a[1]
        inside[o.a[0]] = True
    if not (rec.op == "item" and rec.a[0].op == "obj" and rec.a[1].op == "at" and rec.a[1].a[0] is names):
        return None
    cs = v.contribs(rec.a[0])
    if not cs or any(c.val is not i for c in cs):
        return None
    # recorded positions are smaller than the current one
    if y.op == "lt" and y.a[1] is z:  # recorded < i + k
        known = True if k >= 0 else None
    else:  # recorded == i + k, or i + k < recorded
        known = False if k >= (0 if y.op == "eq" else -1) else None
    if known is None:
        return False
    inside[y] = known
    r = fixed(g, inside)
    return True if r is TRUE else False if r is FALSE else None


def place(z):
    """(position, offset) of a term that is the position of a loop, or a fixed distance from it."""
    p = poly(z)
    base = [m for m in p if m]
    if len(base) == 1 and len(base[0]) == 1 and base[0][0].op == "idx" and p[base[0]] == 1:
        return base[0][0], p.get((), 0)
    return None


def lencall(v, t):
    return t.op == "len" or v.is_call(t, "builtins.len")


def omit(fr, rep):
    v = fr.v
    names = fr.cfg_attr("columns")
    outn = flatten(v, fr.names)
    for g, t in v.alts(fr.names) if fr.names.op == "phi" else ():
        if (t is fr.columns or t.op == "slice" and t.a[0] is fr.columns) and not nonempty(not_(g), names):
            rep.bad("omit", "names", fr.where, f"columns named are kept if {show(g, 5)}")
            return
    if outn is None or len(outn) != 1:
        rep.unk("omit", "names", fr.where, show(fr.names, 4))
        return
    c, val = outn[0]
    ng = cond(v, c)
    if not (val.op == "at" and val.a[0] is fr.columns):
        rep.check(False if v.uses(val, lambda t: v.is_call(t, *REORDER)) else None, "omit", "names", fr.where, show(val, 4))
    elif any(l.rev for l in c.loops):
        rep.bad("omit", "names", fr.where, "the columns are reversed")
    else:
        ok = keep(v, ng, val, names)
        rep.check(ok, "omit", "names", fr.where, f"columns are kept when {show(ng, 5)}")
    for g, t in returned(fr):
        if t.op == "slice" and len(t.a) == 4 and all(x is NONE or lencall(v, x) or is_const(x) for x in t.a[1:]):
            rep.bad("omit", "values", fr.where, "values are kept by number, not by column")
            continue
        outv = flatten(v, t)
        if outv is None or len(outv) != 1:
            rep.unk("omit", "values", fr.where, show(t, 4))
            continue
        d, w = outv[0]
        vg = cond(v, d)
        ref = None
        if w.op == "item" and w.a[0] is fr.values:
            if w.a[1].op == "idx" and w.a[1].a[0].a[0] is fr.columns:
                ref = mk("at", fr.columns, w.a[1].a[0])
            else:
                st, msg, nm = lookup(v, w.a[1], fr.columns)
                if st is not True:
                    if st is None and w.a[1].op == "at" and w.a[1].a[0].op == "slice":
                        st, msg = False, "only a part of the columns is kept"
                    rep.check(st, "omit", "values", fr.where, msg)
                    continue
                ref = nm
        elif w.op == "at":
            s = w.a[0]
            if s is fr.values and w.a[1].a[0].op == "zip" or s is fr.values and v.uses(w.a[1], fr.columns):
                ref = mk("at", fr.columns, w.a[1])
        if ref is None:
            rep.unk("omit", "values", fr.where, show(w, 5))
            continue
        rs = resolve(v, ref)
        ref = rs[0][0] if rs else ref
        same = sig(vg, d) == sig(ng, c)
        ok = keep(v, vg, ref, names) if ref.op == "at" and ref.a[0] is fr.columns else None
        rep.check(True if same and ok is not False else ok, "omit", "values", fr.where, f"values are kept when {show(vg, 5)}, names when {show(ng, 5)}")


def flatten(v, t, depth=0):
    """(contribution, value) of a list that is a copy of another one."""
    if depth > 6 or t.op != "obj":
        return None
    cs = v.contribs(t)
    if len(cs) == 1 and cs[0].op == "extend":
        return flatten(v, cs[0].val, depth + 1)
    if cs and all(c.op == "add" for c in cs):
        return [(c, c.val) for c in cs]
    return None


def cond(v, c):
    return and_(*[g for g, tag in c.guards if tag in BRANCH])


def sig(g, c):
    m = {l.term: mk("sym", f"<loop{i}>") for i, l in enumerate(c.loops)}
    return show(subst(g, m), 9)


def keep(v, g, elem, names):
    """g is exactly: elem is not one of the configured names."""
    if g.op == "not" and g.a[0].op == "in" and g.a[0].a[0].op == "at":
        s = g.a[0].a[1]
        if s is names:
            return True
        if s.op == "obj":
            cs = v.contribs(s)
            if len(cs) == 1 and (cs[0].val is names or (cs[0].op == "add" and cs[0].val.op == "at" and cs[0].val.a[0] is names and cond(v, cs[0]) is TRUE)):
                return True
        return False if not v.uses(s, names) else None
    if g is TRUE:
        return False
    if g.op == "not" and g.a[0].op == "in" and any(x is elem for x in subterms(g.a[0].a[0])):
        return False
    if not any(t is names for t in v.deep(g, ctrl=True)):
        return False
    if g.op in ("and", "or", "in"):
        return False
    if any(v.is_call(t, ".startswith", ".endswith", ".lower", ".casefold", ".upper", "fnmatch.fnmatch", "fnmatch.fnmatchcase", "re.match", "re.search", "re.fullmatch", ".find") for t in subterms(g)):
        return False
    return None
