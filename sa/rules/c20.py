"""Simplification of plan documents keeps their meaning.

Every node's `simplify` is analysed with its fields unknown and nested nodes
kept as they are; each thing it can return is compared with the node under the
condition it is returned.  `leaf`: nodes without conditions.  `random`: a random
condition is only replaced where it always or never holds.  `junction`: and/or,
with what may be left out, absorb or be flattened.  `select`, `union`: the
fields of statements and when parts of a union may be merged.
"""

from ._p import *  # noqa

FLOORS = {"leaf": 4, "random": 2, "in": 1, "junction": 4, "parts": 2, "select": 4, "union": 3}


def check(ctx, rep):
    for tag in ("true", "false", "operator", "sql"):
        v = NV(ctx, tag, "simplify")
        for g, t in v.alts(v.ret):
            rep.check(same(ctx, v, g, t, tag), "leaf", tag, v.name, f"becomes {desc(v, t)}")
    v = NV(ctx, "in", "simplify")
    for g, t in v.alts(v.ret):
        rep.check(same(ctx, v, g, t, "in"), "in", "fields", v.name, f"becomes {desc(v, t)}")
    rand(ctx, rep)
    junction(ctx, rep, "and", "true", "false")
    junction(ctx, rep, "or", "false", "true")
    select(ctx, rep)
    union(ctx, rep)


def desc(v, t):
    if t.op == "obj" and v.cname(t):
        return v.cname(t) + "(" + ", ".join(f"{k}={show(x, 4)}" for k, x in v.inst.get(t, {}).items()) + ")"
    return show(t, 5)


def isa(v, t, cls):
    return t.op == "obj" and v.cls(t) is cls


def simplified(t, of):
    """t is `of` or of.simplify()."""
    return t is of or t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] == "simplify" and t.a[0].a[0] is of and not t.a[1]


def copied(v, t, of):
    """t has the elements of the list `of`, in order."""
    if t is of:
        return True
    if t.op == "sorted" or v.is_call(t, "builtins.sorted", "builtins.set", "builtins.reversed"):
        return False
    if v.is_call(t, "builtins.list", "builtins.tuple") and t.a[1] and t.a[1][0] is of:
        return True
    if t.op == "obj":
        cs = v.contribs(t)
        if len(cs) == 1 and cs[0].op == "extend" and cs[0].val is of:
            return True
        if len(cs) == 1 and cs[0].op == "add" and len(cs[0].loops) == 1 and is_child(cs[0].val, of) and not any(v.varies(g, cs[0].loops[0].term) for g, _ in cs[0].guards):
            return not (cs[0].loops[0].rev or cs[0].loops[0].unordered)
        return False
    return None


def field(v, t, name):
    return v.inst.get(t, {}).get(name)


def update(v, t):
    """Fields changed by node.model_copy(update={...})."""
    if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("model_copy", "copy") and t.a[0].a[0] is NODE:
        u = v.kw(t, "update")
        if u is None:
            return {}
        if u.op != "obj":
            return None
        out = {}
        for c in v.contribs(u):
            if c.op not in ("set", "setitem") or cv(c.key) is None:
                return None
            g = and_(*[x for x, tag in c.guards])
            out[cv(c.key)] = (g, c.val)
        return out
    return None


def same(ctx, v, g, t, tag):
    """t means the same as the node (leaves and membership tests)."""
    if t is NODE:
        return True
    cls = tagged(ctx, tag)
    u = update(v, t)
    if u is None and not isa(v, t, cls):
        return False if t.op == "obj" else None
    out = True
    for f in ctx.e.classes[cls].fields:
        if f in ("type_", "type"):
            continue
        if u is not None:
            if f not in u:
                continue
            x = u[f][1]
        else:
            x = field(v, t, f)
        o = me(f)
        for g2, y in v.alts(x) if x is not None else [(TRUE, None)]:
            if y is None or y.op == "missing":
                return False
            if y is o or simplified(y, o) or copied(v, y, o):
                continue
            if copied(v, y, o) is False or y.op in ("const", "not", "call") and not (y.op == "call" and y.a[0].op == "ext"):
                return False
            if f in ("negated", "joins_outer") and y.op in ("and", "or", "truth", "eq", "lt", "is", "in") and other_value(y, o, and_(g, g2)):
                return False
            out = None
    return out


def other_value(c, field, g):
    """A flag computed as condition c, where g holds, can differ from the field: it also depends on other fields."""
    if implies(and_(g, c), mk("truth", field)) and implies(and_(g, mk("truth", field)), c):
        return False
    return any(any(x.op == "attr" and x.a[0] is NODE and x is not field for x in subterms(a)) for a in atoms(c))


# ---------------------------------------------------------------- conditions


def rand(ctx, rep):
    v = NV(ctx, "random", "simplify")
    yes, no = tagged(ctx, "true"), tagged(ctx, "false")
    thr = me("threshold")
    pts = {0.0, 1.0, 0.5, -1.0, 2.0} | {10.0**-k for k in range(1, 12)} | {1 - 10.0**-k for k in range(1, 12)}
    for g, t in v.alts(v.ret):
        for a in atoms(g):
            for x in subterms(a):
                c = cv(x)
                if isinstance(c, (int, float)) and not isinstance(c, bool):
                    pts |= {float(c), c - 1e-9, c + 1e-9}
    for g, t in v.alts(v.ret):
        if t is NODE or isa(v, t, tagged(ctx, "random")) and field(v, t, "threshold") is thr:
            rep.ok("random", "kept", v.name)
        elif isa(v, t, yes) or isa(v, t, no):
            wrong = [p for p in sorted(pts) if (p < 1 if isa(v, t, yes) else p > 0)]
            try:
                w = [p for p in wrong if Table(v, {thr: p}).true(g)]
                rep.check(not w, "random", "always" if isa(v, t, yes) else "never", v.name, f"a random condition with threshold {w[0] if w else ''} becomes {desc(v, t)}")
            except Undecided as x:
                rep.unk("random", "condition", v.name, str(x))
        else:
            rep.check(False if t.op == "obj" else None, "random", "kept", v.name, f"becomes {desc(v, t)}")


def junction(ctx, rep, tag, unit, zero):
    v = NV(ctx, tag, "simplify")
    K, U, Z = tagged(ctx, tag), tagged(ctx, unit), tagged(ctx, zero)
    dual = tagged(ctx, "or" if tag == "and" else "and")
    seq = me("conditions")
    lists = set()
    for g, t in v.alts(v.ret):
        if t is NODE:
            rep.ok("junction", f"{tag} kept", v.name)
        elif isa(v, t, Z):
            a = absorbed(v, g, Z)
            rep.check(a, "junction", f"{tag} absorbed", v.name, f"{tag} becomes {zero} although no part is {zero}")
        elif isa(v, t, U):
            r = empty(v, g, U, seq)
            rep.check(r, "junction", f"{tag} of nothing", v.name, f"{tag} becomes {unit} although parts are left")
        elif isa(v, t, K):
            L = field(v, t, "conditions")
            if L is seq:
                rep.ok("junction", f"{tag} of parts", v.name)
            elif L is not None and L.op == "obj":
                lists.add(L)
                rep.ok("junction", f"{tag} of parts", v.name)
            else:
                rep.check(False if L is not None and L.op == "slice" else None, "junction", f"{tag} of parts", v.name, desc(v, t))
        elif t.op == "sel" and t.a[2].op != "obj":
            zs = [x for x in atoms(t.a[1]) if x.op == "isinst" and x.a[0] is t.a[2]]
            z = [x for x in zs if x.a[1] is Z and implies(t.a[1], x)]
            o = [x for x in zs if x.a[1] is not Z and implies(t.a[1], x)]
            rep.check(True if z else False if o else None, "junction", f"{tag} absorbed", v.name, f"{tag} becomes one of its parts")
        elif isa(v, t, dual):
            rep.bad("junction", f"{tag} of parts", v.name, f"{tag} becomes {desc(v, t)}")
        else:
            L = first(t)
            if L is None or L is not seq and L.op != "obj":
                rep.unk("junction", f"{tag} single", v.name, desc(v, t))
                continue
            if L.op == "obj":
                lists.add(L)
            rep.check(single(v, g, L), "junction", f"{tag} single", v.name, f"{tag} of several parts becomes its first part")
    if not lists and not any(t is NODE for _, t in v.alts(v.ret)):
        rep.unk("parts", tag, v.name, "list of parts not recognised")
    for t in v.deep(v.ret):
        if t.op == "view" and t.a[0] == "values" and t.a[1].op == "obj":
            by = next(filter(None, (told_apart(v, c) for c in v.contribs(t.a[1]))), None)
            if by:
                rep.bad("parts", tag, v.name, f"of parts with the same {by} only one is kept")
    for L in lists:
        parts(v, rep, tag, L, K, U, Z, seq)


def told_apart(v, c):
    """Parts are collected under their kind and only one of their fields."""
    if c.key is None or c.val is None or not c.loops:
        return None
    part = lambda x: x is c.val
    named, st = set(), [c.key]
    while st:
        x = st.pop()
        if part(x):
            return None
        if x.op == "attr" and part(x.a[0]):
            named.add(x.a[1])
        elif x.op == "call" and is_ext(x.a[0], "builtins.getattr") and len(x.a[1]) >= 2 and part(x.a[1][0]) and x.a[1][1].op == "const":
            named.add(cval(x.a[1][1]))
        elif x.op == "phi" and any(w.op == "call" and is_ext(w.a[0], "builtins.hasattr") for w in subterms(x.a[0])) and x.a[1].op == "attr":
            st.append(x.a[1])
        elif x.op == "call" and is_ext(x.a[0], "builtins.type") and x.a[1] and part(x.a[1][0]):
            named.add("type")
        else:
            st += v.kids(x)
    return " and ".join(sorted(named)) if named and len(named) <= 2 else None


def first(t):
    if t.op == "item" and cv(t.a[1]) in (0, -1):
        return t.a[0]
    if t.op == "at" and t.a[1].op == "const" and cv(t.a[1]) in (0, -1):
        return t.a[0]
    return None


def single(v, g, L):
    n = [a for a in atoms(g) if any(x.op == "len" and x.a[0] is L or x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0] == "builtins.len" and x.a[1] and x.a[1][0] is L for x in subterms(a))]
    one = [a for a in n if a.op == "eq" and any(cv(x) == 1 for x in a.a)]
    if one and implies(g, one[0]):
        return True
    if not n:
        return None if any(x.op == "slice" and x.a[0] is L for a in atoms(g) for x in subterms(a)) else False
    lens = {x for a in n for x in subterms(a) if x.op in ("len", "call") and L in set(subterms(x))}
    return not any(possible(v, g, {x: k for x in lens}) for k in (2, 3, 4)) or False


def absorbed(v, g, Z):
    """g holds only if some part is of class Z."""
    ex = [a for a in atoms(g) if a.op == "exists" and any(x.op == "isinst" and x.a[1] is Z for x in subterms(a))]
    ok = [a for a in ex if mentions_isinst(a, Z)]
    if ok and implies(g, or_(*ok)):
        return True
    if any(x.op == "isinst" and x.a[1] is Z for a in atoms(g) for x in subterms(a)) and not implies_not(g, ok):
        return None
    return False


def implies_not(g, ok):
    """g is satisfied where none of these hold."""
    return not implies(g, or_(*ok)) if ok else True


def mentions_isinst(a, Z):
    """The condition of an exists implies isinst(_, Z)."""
    c = a.a[1]
    while c.op == "exists":
        c = c.a[1]
    zs = [x for x in atoms(c) if x.op == "isinst" and x.a[1] is Z]
    zs += [x for x in atoms(c) if x.op == "exists" and mentions_isinst(x, Z)]
    return bool(zs) and implies(c, or_(*zs))


def empty(v, g, U, seq):
    """g holds only if nothing but neutral parts is left."""
    ex = [a for a in atoms(g) if a.op == "exists" and a.a[0].a[0] is seq]
    if implies(g, not_(v.e.truth(seq))):
        return True
    # every negated exists together covers the elements that are not neutral
    neg = [a for a in ex if implies(g, not_(a))]
    if not neg:
        ls = [x for a in atoms(g) for x in subterms(a) if x.op == "len"]
        return None if ls else False
    conds = []
    E = None
    for a in neg:
        conds.append(strip_inner(a.a[1], a.a[0]))
        E = a.a[0]
    el = mk("at", seq, E)
    units = [x for c in conds for x in atoms(c) if x.op == "isinst" and x.a[1] is U and simplified(x.a[0], el)]
    others = [x for c in conds for x in atoms(c) if x.op == "isinst" and simplified(x.a[0], el)]
    want = not_(units[0]) if units else TRUE
    return True if implies(want, or_(*conds)) else (False if others or units else None)


def strip_inner(c, loop):
    """A nested exists holds for a nonempty list; empty ones cannot be told apart."""
    m = {}
    for a in atoms(c):
        if a.op == "exists":
            m[a] = strip_inner(a.a[1], a.a[0])
        elif a.op == "truth" and a.a[0].op == "attr" and a.a[0].a[1] == "conditions":
            m[a] = TRUE
    return subst(c, m) if m else c


def parts(v, rep, tag, L, K, U, Z, seq):
    if isinstance(L, T) and L.op == "obj" and not v.contribs(L):
        rep.unk("parts", tag, v.name, "list of parts is filled somewhere else")
        return
    gs, other, lost = [], [], False
    simp = None
    for c in v.contribs(L):
        ls = [l for l in c.loops]
        val, inner = c.val, None
        if c.op == "extend":
            inner = val
        elif c.op != "add":
            other.append(c)
            continue
        if inner is None and ls and val.op == "at" and val.a[1] is ls[-1].term and val.a[0].op == "attr" and val.a[0].a[1] == "conditions" and val.a[0] is not seq:
            inner = val.a[0]
        elif inner is None and val.op == "at" and val.a[1].op == "loop" and val.a[0].op == "attr" and val.a[0].a[1] == "conditions" and val.a[0] is not seq:
            inner = val.a[0]
        owner = inner.a[0] if inner is not None and inner.op == "attr" and inner.a[1] == "conditions" else val if inner is None else None
        l0 = next((l for l in ls if l.term.a[0] is seq), None)
        if owner is None or l0 is None:
            other.append(c)
            continue
        el = mk("at", seq, l0.term)
        if not simplified(owner, el):
            if el in set(subterms(owner)) or is_child(owner, seq):
                other.append(c)
            else:
                other.append(c)
            continue
        simp = owner if simp is None or owner is not el else simp
        g = [x for x, _ in c.guards if v.varies(x, l0.term)]
        if inner is not None:
            il = next((l for l in ls if l.term.a[0] is inner), None)
            mine = mk("isinst", owner, K)
            if not implies(and_(*g), mine):
                k = [x for x in atoms(and_(*g)) if x.op == "isinst" and x.a[0] is owner and implies(and_(*g), x)]
                k = k or all(x.op == "isinst" and x.a[0] is owner or x.op in ("lt", "eq") and any(y.op == "call" and is_ext(y.a[0], "builtins.len") for y in x.a) for x in atoms(and_(*g)))
                rep.check(False if k or not g else None, "parts", f"{tag} flattened", v.name, f"parts of {'another kind of condition' if k else 'any condition'} become parts of {tag}")
            else:
                rep.ok("parts", f"{tag} flattened", v.name)
            if il is not None:
                ig = [x for x in g if v.varies(x, il.term)]
                g = [x for x in g if x not in ig]
                iel = mk("at", inner, il.term)
                for x in ig:
                    if not implies(not_(mk("isinst", iel, U)), x):
                        rep.check(False if all(a.op == "isinst" for a in atoms(x)) else None, "parts", f"{tag} nested", v.name, f"nested parts are only kept if {show(x, 4)}")
        gs.append((el, owner, and_(*g)))
    if other:
        rep.unk("parts", tag, v.name, f"adds {show(other[0].val, 5) if other[0].val is not None else other[0].op}")
        return
    if not gs:
        rep.unk("parts", tag, v.name, "no parts found")
        return
    el = gs[0][0]
    units = [x for _, _, g in gs for x in atoms(g) if x.op == "isinst" and x.a[1] is U and simplified(x.a[0], el)]
    kept = or_(*[g for _, _, g in gs])
    want = and_(*[not_(x) for x in units])
    if implies(want, kept):
        rep.ok("parts", tag, v.name)
    else:
        bad = [x for x in atoms(kept) if not (x.op == "isinst" and x.a[1] in (K, U, Z))]
        zs = any(x.op == "isinst" and x.a[1] is Z for x in atoms(kept))
        if zs and any(isa(v, t, Z) or t.op == "sel" for _, t in v.alts(v.ret)) and not bad:
            z = [x for x in atoms(kept) if x.op == "isinst" and x.a[1] is Z]
            absorb = any(isa(v, t, Z) and absorbed(v, g, Z) or t.op == "sel" for g, t in v.alts(v.ret))
            rep.check(None if absorb and implies(and_(want, *[not_(x) for x in z]), kept) else False, "parts", tag, v.name, f"parts are only kept if {show(kept, 5)}")
        else:
            rep.bad("parts", tag, v.name, f"parts are only kept if {show(kept, 5)}")
    for l in {l.term: l for c in v.contribs(L) for l in c.loops}.values():
        if any(t in ("break", "return") and not l.rev for t, q in v.e.exits.get(l.uid, ())):
            rep.unk("parts", f"{tag} loop", v.name, "the loop is left early")


# ---------------------------------------------------------------- statements

FALSY = {"columns": "truth", "joins": "truth", "limit": "none", "where": "none"}


def absent(v, g, f, yes):
    """Under g the field need not be carried over."""
    o = me(f)
    t = mk("truth", o)
    n = v.e.is_(o, NONE)
    if f == "where":
        ok = [n, not_(t)]
        for x in atoms(g):
            if x.op == "isinst" and x.a[1] is yes and simplified(x.a[0], o):
                ok.append(x)
        return implies(g, or_(*ok))
    if f == "joins_outer":
        return implies(g, or_(not_(t), not_(mk("truth", me("joins"))), v.e.is_(me("joins"), NONE)))
    if FALSY.get(f) == "truth":
        return implies(g, or_(n, not_(t)))
    return implies(g, n)


def select(ctx, rep):
    v = NV(ctx, "select", "simplify")
    cls, yes = v.cls_, tagged(ctx, "true")
    for g, t in v.alts(v.ret):
        if t is NODE:
            rep.ok("select", "kept", v.name)
            continue
        u = update(v, t)
        if u is None and not isa(v, t, cls):
            rep.check(False if t.op == "obj" else None, "select", "kept", v.name, f"becomes {desc(v, t)}")
            continue
        for f, (ann, default) in ctx.e.classes[cls].fields.items():
            if f == "type_":
                continue
            if u is not None:
                if f not in u:
                    rep.ok("select", f, v.name)
                    continue
                c, x = u[f]
                x = phi(c, x, me(f)) if not implies(g, c) else x
            else:
                x = field(v, t, f)
            r, why = True, ""
            for g2, y in v.alts(x) if x is not None else [(TRUE, mk("missing"))]:
                h = and_(g, g2)
                if simplified(y, me(f)) and (f == "where" or y is me(f)) or f in ("columns", "joins") and copied(v, y, me(f)):
                    continue
                if y.op == "missing" or y is NONE or f == "joins_outer" and cv(y) is False and y is not None and y.op == "const":
                    if not absent(v, h, f, yes):
                        r, why = False, f"{f} is dropped if {show(h, 5)}"
                        break
                elif f == "where" and isa(v, y, yes):
                    if not absent(v, h, f, yes):
                        r, why = False, f"{f} is dropped if {show(h, 5)}"
                        break
                elif y.op == "const" or y.op == "attr" and y.a[0] is NODE:
                    r, why = False, f"{f} becomes {show(y, 4)}"
                    break
                else:
                    r, why = None, f"{f} becomes {show(y, 4)}"
            rep.check(r, "select", f, v.name, why)


def union(ctx, rep):
    v = NV(ctx, "union", "simplify")
    cls, SEL = v.cls_, tagged(ctx, "select")
    NO, YES, OR = tagged(ctx, "false"), tagged(ctx, "true"), tagged(ctx, "or")
    seq = me("statements")
    lists = set()
    for g, t in v.alts(v.ret):
        if t is NODE:
            rep.ok("union", "kept", v.name)
            continue
        u = t
        if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] == "simplify" and not t.a[1]:
            u = t.a[0].a[0]
        if isa(v, u, cls) or isa(v, t, cls):
            L = field(v, u, "statements")
            if L is not None and L.op == "obj":
                lists.add(L)
            rep.check(L is seq or L is not None and L.op == "obj" or None, "union", "of parts", v.name, desc(v, u))
        elif isa(v, u, SEL):
            merged(ctx, v, rep, g, u, seq, lists, NO, YES, OR)
        else:
            L = first(u)
            if L is seq or whole(v, L, seq):
                r = gone(v, g, NO, seq) or single(v, g, L)
                rep.check(r, "union", "nothing left", v.name, "a union becomes its first part although others are left")
            elif L is not None and L.op == "obj":
                lists.add(L)
                rep.check(single(v, g, L), "union", "single", v.name, "a union of several parts becomes its first part")
            else:
                rep.check(False if u.op == "obj" else None, "union", "of parts", v.name, f"becomes {desc(v, t)}")
    for t in v.deep(v.ret):
        if t.op == "view" and t.a[0] == "values" and t.a[1].op == "obj":
            by = [deduped(v, c, seq) for c in v.contribs(t.a[1])]
            if any(by):
                rep.bad("union", "parts", v.name, f"of parts with the same {next(filter(None, by))} only one is kept")
    for L in lists:
        keptparts(v, rep, L, seq, NO)


def deduped(v, c, seq):
    """Parts are collected under only some of their fields."""
    if c.key is None or c.val is None or len(c.loops) != 1:
        return None
    s = c.loops[0].term.a[0]
    if not (s is seq or s.op == "obj" and any(d.loops and d.loops[0].term.a[0] is seq for d in v.contribs(s))):
        return None
    part = lambda x: x is c.val or x.op == "at" and x.a[1] is c.loops[0].term
    if not part(c.val):
        return None
    bare, named, st = False, set(), [c.key]
    while st:
        x = st.pop()
        if part(x):
            bare = True
        elif x.op == "attr" and part(x.a[0]):
            named.add(x.a[1])
        else:
            st += v.kids(x)
    return " and ".join(sorted(named)) if named and not bare and not {"columns", "joins", "limit"} <= named else None


def whole(v, L, seq):
    """The list of all parts, each as it is or simplified."""
    if L is None or L.op != "obj":
        return False
    cs = v.contribs(L)
    if len(cs) != 1 or cs[0].op != "add" or len(cs[0].loops) != 1:
        return False
    l = cs[0].loops[0].term
    return l.a[0] is seq and simplified(cs[0].val, mk("at", seq, l)) and not any(v.varies(g, l) for g, _ in cs[0].guards)


def gone(v, g, NO, seq):
    """g holds only if no part can select anything."""
    neg = [a for a in atoms(g) if a.op == "exists" and a.a[0].a[0] is seq and implies(g, not_(a))]
    if not neg:
        return False
    el = mk("at", seq, neg[0].a[0])
    conds = or_(*[a.a[1] for a in neg])
    nos = [x for x in atoms(conds) if x.op == "isinst" and x.a[1] is NO and x.a[0].op == "attr" and x.a[0].a[1] == "where" and simplified(x.a[0].a[0], el)]
    if not nos:
        return False
    return True if implies(not_(nos[0]), conds) else False


def keptparts(v, rep, L, seq, NO):
    cs = v.contribs(L)
    kept = []
    for c in cs:
        l0 = next((l for l in c.loops if l.term.a[0] is seq), None)
        if c.op != "add" or l0 is None or not simplified(c.val, mk("at", seq, l0.term)):
            if c.op == "extend" and c.val is seq:
                kept.append(TRUE)
                continue
            rep.unk("union", "parts", v.name, show(c.val, 4) if c.val is not None else c.op)
            return
        kept.append((and_(*[g for g, _ in c.guards if v.varies(g, l0.term)])))
    k = or_(*kept)
    nos = [x for x in atoms(k) if x.op == "isinst" and x.a[1] is NO and x.a[0].op == "attr" and x.a[0].a[1] == "where"]
    rep.check(implies(and_(*[not_(x) for x in nos]), k), "union", "parts", v.name, f"parts are only kept if {show(k, 5)}")


def elem_field(x, el):
    """Name of the field when x is a field of the part."""
    if x.op == "attr" and simplified(x.a[0], el):
        return x.a[1]
    return None


def lost(v, have, el, seen):
    """Parts with a limit can be merged, as far as the conditions on limits tell."""
    fs = {x for a in seen for x in subterms(a) if elem_field(x, el) == "limit"}
    for n in (0, 1, 5):
        tb = Table(v, {x: n for x in fs})
        r = reduce_(tb, have)
        if r is not FALSE and not any(x in fs for x in subterms(r)):
            return True
    return False


def merged(ctx, v, rep, g, u, seq, lists, NO, YES, OR):
    W = field(v, u, "where")
    f0 = None
    for f in ("from_", "columns"):
        x = field(v, u, f)
        L = first(x.a[0]) if x is not None and x.op == "attr" and x.a[1] == f else None
        if L is None and x is not None and x.op == "attr" and x.a[1] == f and x.a[0].op == "call":
            L = first(x.a[0].a[0].a[0]) if x.a[0].a[0].op == "attr" else None
        if x is None or x.op in ("missing", "const"):
            rep.bad("union", f"merged {f}", v.name, f"{f} of a merged union is {show(x, 4) if x is not None else 'not set'}")
            continue
        rep.check(L is not None or None, "union", f"merged {f}", v.name, show(x, 5))
        if L is not None and L.op == "obj":
            lists.add(L)
    for f in ("limit", "joins"):
        x = field(v, u, f)
        if x is not None and x is not NONE and x.op != "missing":
            rep.check(None if x.op not in ("const",) else False, "union", f"merged {f}", v.name, show(x, 4))
    # what has to hold for all parts
    neg = [a for a in atoms(g) if a.op == "exists" and a.a[0].a[0] is seq and implies(g, not_(a))]
    rest = lambda s: s.op == "slice" and cv(s.a[1]) in (0, 1) and s.a[2] is NONE and s.a[3] is NONE and (s.a[0] is seq or s.a[0].op == "obj" and any(l.term.a[0] is seq for c in v.contribs(s.a[0]) for l in c.loops))
    tail = [a for a in atoms(g) if a.op == "exists" and rest(a.a[0].a[0]) and implies(g, not_(a))]
    compares = lambda a: any(y.op == "attr" and y.a[1] in ("from_", "columns", "limit", "joins") for y in subterms(a.a[1]))
    partial = not any(compares(a) for a in neg) and any(compares(a) for a in tail)
    if partial:
        neg = tail
    if not neg:
        others = [a for a in atoms(g) if any(x.op == "exists" for x in subterms(a)) or a.op == "eq"]
        keep = {a for a in others if all(y.op == "isinst" for y in atoms(a.a[1]) if a.op == "exists") and a.op == "exists" or single(v, g, None) is None}
        rep.bad("union", "merged when", v.name, "parts are merged without comparing them") if not [a for a in others if a not in keep and not any(x.op == "len" for x in subterms(a))] else rep.unk("union", "merged when", v.name, show(g, 5))
    else:
        E = neg[0].a[0]
        el = mk("at", E.a[0], E)
        never = [not_(a.a[1]) for a in neg]
        # parts that were dropped do not matter
        for f in ("from_", "columns", "limit", "joins"):
            facts, seen, sub = [], [], {}
            for a in {x for n in never for x in atoms(n)}:
                fs = {elem_field(x, el) for x in subterms(a)} - {None}
                if f not in fs:
                    continue
                seen.append(a)
                if f in ("from_", "columns") and a.op == "eq" and all(x.op == "attr" and x.a[1] == f for x in a.a[:2]):
                    facts.append(a)
                elif f in ("from_", "columns") and a.op == "eq" and all(x.op == "tuple" for x in a.a[:2]):
                    facts.append(a)
                elif f == "from_" and a.op == "eq" and all(x.op == "attr" and x.a[0].op == "attr" and x.a[0].a[1] == f for x in a.a[:2]):
                    sub.setdefault(a.a[0].a[1], a)
                elif f == "limit" and (a.op == "is" and NONE in a.a or a.op == "eq" and NONE in a.a):
                    facts.append(a)
                elif f == "joins" and (a.op == "is" and NONE in a.a):
                    facts.append(a)
                elif f == "joins" and a.op == "truth":
                    facts.append(not_(a))
            nos = [x for n in never for x in atoms(n) if x.op == "isinst" and x.a[1] is NO]
            have = and_(*never, *[not_(x) for x in nos])
            if partial and f in ("limit", "joins") and cv(E.a[0].a[1]) == 1:
                own = [a for a in atoms(g) if any(y.op == "attr" and y.a[1] == f and first(y.a[0]) is not None for y in subterms(a) if y.op == "attr") and not (a.op == "eq")]
                if not own:
                    rep.bad("union", f"same {f}", v.name, f"the {f} of the first part are lost")
                    continue
            if sub:
                whole = set(sub) >= set(ctx.e.classes[ctx.name("plan_model", "SQLTableIdentifier")].fields)
                rep.check(True if whole and implies(have, and_(*sub.values())) else False, "union", f"same {f}", v.name, "parts selecting from different tables are merged")
            elif facts and implies(have, or_(*facts)):
                rep.ok("union", f"same {f}", v.name)
            elif not seen or facts or f == "limit" and lost(v, have, el, seen):
                rep.bad("union", f"same {f}", v.name, {"from_": "parts selecting from different tables are merged", "columns": "parts selecting different columns are merged", "limit": "the limit of a part is lost", "joins": "the joins of a part are lost"}[f])
            else:
                rep.unk("union", f"same {f}", v.name, show(seen[0], 5))
    # the condition of the merged statement
    if W is None or W.op == "missing" or W is NONE:
        rep.bad("union", "merged where", v.name, "the conditions of merged parts are lost")
        return
    if W.op == "call" and W.a[0].op == "attr" and W.a[0].a[1] == "simplify":
        W = W.a[0].a[0]
    if not isa(v, W, OR):
        rep.check(False if W.op == "obj" or W.op == "attr" else None, "union", "merged where", v.name, f"merged parts are combined as {desc(v, W)}")
        return
    C = field(v, W, "conditions")
    if C is None or C.op != "obj":
        rep.unk("union", "merged where", v.name, desc(v, W))
        return
    cover = []
    for c in v.contribs(C):
        l0 = next((l for l in c.loops if l.term.a[0] is seq), None)
        if c.loops and c.loops[0].term.a[0].op == "slice":
            rep.bad("union", "merged parts", v.name, "only some parts take part in the merged statement")
            return
        if c.op != "add" or l0 is None:
            rep.unk("union", "merged where", v.name, show(c.val, 4) if c.val is not None else c.op)
            return
        el = mk("at", seq, l0.term)
        vary = [x for x, _ in c.guards if v.varies(x, l0.term)]
        cover.append(and_(*vary))
        for g2, y in v.alts(c.val):
            h = and_(g2, *vary)
            nowhere = [a for a in atoms(h) if a.op in ("is", "truth") and any(elem_field(x, el) == "where" for x in subterms(a))]
            none = or_(*[a if a.op == "is" else not_(a) for a in nowhere])
            if isa(v, y, YES):
                rep.check(bool(nowhere) and implies(h, none) or False, "union", "merged where", v.name, "parts with a condition are merged without it")
            elif elem_field(y, el) == "where" or y.op == "call" and simplified(y, y.a[0].a[0]) and elem_field(y.a[0].a[0], el) == "where":
                if nowhere and implies(h, not_(none)) or not nowhere:
                    rep.check(True if nowhere else None, "union", "merged where", v.name, "a part without a condition")
                else:
                    rep.unk("union", "merged where", v.name, show(h, 4))
            elif isa(v, y, NO):
                rep.bad("union", "merged where", v.name, "a part without a condition selects nothing after merging")
            else:
                rep.unk("union", "merged where", v.name, show(y, 4))
    k = or_(*cover)
    nos = [x for x in atoms(k) if x.op == "isinst" and x.a[1] is NO]
    rep.check(implies(and_(*[not_(x) for x in nos]), k), "union", "merged parts", v.name, f"parts only take part in the merged statement if {show(k, 5)}")
