"""Shift of keys and references in merge mode.

`value`: a shifted value is the value plus one offset recorded for its table
and column, and a null stays null.  `lookup`: the offset is taken from the
record of the destination table that is written, for the column of the value.
`own`: the offset of a key is the largest key of that destination table plus a
constant of at least one, whenever there is such a key.  `reference`: a column
that refers to the key of another planned table gets the same term as the
offset of that key, under the same conditions on the largest key, and only if
it refers to the key.  `shared`: a key that is itself a reference takes over
the record of the table it refers to, referenced tables first.  `exempt`:
nothing is recorded for passthrough tables or without merge.  `order`: the
largest keys are read before the first insert.
"""

from ..rule import *  # noqa
from ._s import *  # noqa
from .c13 import is_mult

FLOORS = {"value": 1, "lookup": 1, "own": 1, "reference": 1, "shared": 1, "exempt": 2, "order": 1}
MERGE, PASS = ("config", "output", "merge"), ("plan", "passthrough")


class Store:
    __slots__ = ("tab", "col", "val", "guards", "loops", "where")

    def __init__(self, *a):
        for n, x in zip(self.__slots__, a):
            setattr(self, n, x)

    def g(self):
        return and_(*[g for g, _ in self.guards])


class Merge:
    def __init__(self, ctx):
        v = self.v = SV(ctx, "database")
        self.D, self.S = dest_dicts(v), source_dicts(v)
        self.reads = [x for x in v.fx if x.name in EXEC and x.recv is not None and x.args and x.result is not None and "dest" in v.sides(x.recv) and any(is_max(t) for t in v.deep(x.args[0], stop=lambda s: s.op in ("mu", "fin") or s.op == "obj" and v.e.objs[s].kind == "dict"))]
        self.M = {}
        self.raised = False
        for x in self.reads:
            self.M[x.result] = x
        self.find()

    def ismax(self, t):
        """The largest key read from the destination."""
        for _ in range(6):
            if t in self.M:
                return self.M[t]
            if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("scalar", "scalar_one", "scalar_one_or_none", "fetchone", "one", "first", "scalars"):
                t = t.a[0].a[0]
            elif t.op == "item" or t.op == "attr":
                t = t.a[0]
            else:
                return None
        return None

    def maxes(self, t):
        return {x for x in subterms(t, stop=lambda s: self.ismax(s) is not None) if self.ismax(x) is not None}

    def holds(self, o):
        """A dictionary with values computed from the largest keys."""
        e = self.v.e.objs.get(o)
        if e is None or e.kind != "dict":
            return False
        for c in e.contribs:
            if c.val is None:
                continue
            if any(self.ismax(t) is not None for t in subterms(c.val)):
                return True
            if c.val.op == "obj" and self.v.e.objs[c.val].kind == "dict" and any(k.val is not None and any(self.ismax(t) is not None for t in subterms(k.val)) for k in self.v.contribs(c.val)):
                return True
        return False

    def find(self):
        v = self.v
        self.held = {o for o in v.e.objs if self.holds(o)}
        self.edits = []
        for e in edits(v):
            for g, a in v.alts(e.val):
                lk = [t for t in subterms(a) if t.op == "item" and (t.a[0].op == "item" and t.a[0].a[0] in self.held or t.a[0] in self.held)]
                if lk:
                    self.edits.append((e, g, a, lk))
        self.off = {}
        for e, g, a, lk in self.edits:
            for t in lk:
                if t.a[0].op == "item":
                    self.off[t.a[0].a[0]] = True
        self.stores = [s for o in self.off for s in self.collect(o)]

    def collect(self, O):
        v, out = self.v, []
        for c in v.contribs(O):
            if c.val is not None and c.val.op == "obj":
                for k in v.contribs(c.val):
                    if k.key is not None and k.val is not None:
                        out.append(Store(c.key, k.key, k.val, list(c.guards) + [g for g in k.guards if g not in c.guards], k.loops or c.loops, f"sampler.py:{getattr(k.node, 'lineno', '?')}"))
        for x in v.fx:
            r = x.recv
            if r is None:
                continue
            if r.op == "item" and r.a[0] is O:
                if x.kind == "setitem" and len(x.args) == 2:
                    out.append(Store(r.a[1], x.args[0], x.args[1], x.guards, x.loops, x))
                elif x.name == ".update" and x.args and x.args[0].op == "obj":
                    for k in v.contribs(x.args[0]):
                        if k.key is not None and k.val is not None:
                            out.append(Store(r.a[1], k.key, k.val, list(x.guards) + [g for g in k.guards if g not in x.guards], list(x.loops) + [l for l in k.loops if l not in x.loops], x))
        return out


def is_max(t):
    return t.op == "call" and (is_ext(t.a[0], "sqlalchemy.func.max", "sqlalchemy.sql.func.max", "sqlalchemy.sql.expression.func.max") or t.a[0].op == "attr" and t.a[0].a[1] == "max") or t.op == "call" and is_ext(t.a[0], "sqlalchemy.text") and t.a[1] and "max(" in str(cv(t.a[1][0], "")).lower()


def shape(t):
    """A term without the identity of the loops it is computed in."""
    memo = {}

    def f(x):
        if x.op == "mu":
            return mk("mu'", shape_(x.a[0].a[0]) if isinstance(x.a[0], T) and x.a[0].op == "loop" else x.a[0], shape_(x.a[2]))
        return None

    def shape_(x):
        if x not in memo:
            memo[x] = x
            memo[x] = rebuild(x, f, {})
        return memo[x]

    return shape_(t)


def remapped(t):
    return any(attr_path(s) == ("config", "output", "remap") for s in subterms(t))


def parts(t, *names):
    return any(s.op == "attr" and s.a[1] in names for s in subterms(t))


def check(ctx, rep):
    m = Merge(ctx)
    v = m.v
    if not m.reads:
        if any(attr_path(t) == MERGE for t in reach(v)):
            for r in FLOORS:
                rep.bad(r, "largest key", "sampler.py", "the largest existing keys are not read")
        else:
            rep.bad("own", "largest key", "sampler.py", "merge mode is not used")
        return
    live = reach(v)
    if not m.edits:
        used = any(x in live for x in m.M)
        for r in FLOORS:
            rep.check(None if used else False, r, "shift", "sampler.py", "values are not shifted by the recorded offsets")
        return
    for e, g, a, lk in m.edits:
        value(m, rep, e, g, a, lk)
    order(m, rep)
    own, ref, other = [], [], []
    for s in m.stores:
        for g, a in v.alts(s.val):
            if and_(s.g(), g) is FALSE:
                continue
            ms = m.maxes(a)
            recs = [t for t in subterms(a) if t.op == "item" and (t.a[0] in m.held or t.a[0].op == "item" and t.a[0].a[0] in m.off)]
            isref = parts(s.col, "foreign_keys", "foreign_key_constraints")
            if ms and not isref:
                own.append((s, g, a, next(iter(ms))))
            elif isref or recs and parts(s.col, "foreign_keys", "foreign_key_constraints", "columns") and not parts(s.col, "primary_key"):
                ref.append((s, g, a, recs))
            elif recs or ms:
                own.append((s, g, a, next(iter(ms)) if ms else recs[0]))
            else:
                other.append((s, g, a))
    if not own and not other:
        rep.check(None if not m.stores else False, "own", "key", "sampler.py", "keys are not shifted")
    if not ref and not other:
        bad = bool(m.stores)
        rep.check(False if bad else None, "reference", "columns", "sampler.py", "references are not shifted")
    for s, g, a in other:
        rep.unk("own", "key", s.where, show(a, 5))
    amounts = set()
    for s, g, a, x in own:
        amounts.add(owner(m, rep, s, g, a, x))
    for s, g, a, recs in ref:
        referrer(m, rep, s, g, a, recs, amounts)
    exempt(m, rep, own, ref)
    shared(m, rep, own, ref)


def old(v, e, x):
    from .c13 import is_old
    return is_old(v, e, x)


def value(m, rep, e, g, a, lk):
    v = m.v
    full = and_(e.guard(), g)
    if full is FALSE:
        return
    if e.key is not None and e.key.op == "idx":
        # positions in the list of which only some columns are in the row
        Q = e.key.a[0].a[0]
        for x in subterms(a):
            for c in v.contribs(x.a[0]) if x.op == "item" and x.a[0].op == "obj" and x.a[1] is e.key else ():
                l = c.loops[-1] if c.op == "add" and c.loops else None
                if l is not None and Q in subterms(l.term.a[0]) and l.term.a[0].op != "obj" and any(v.varies(h, l.term) for h, tag in c.guards if tag in SKIP):
                    return rep.bad("lookup", "column", e.where, f"positions of {show(Q, 4)} are used for a row with only some of its values")
    xs = {x for x in subterms(a, stop=lambda t: old(v, e, t)) if old(v, e, x)}
    if len(xs) != 1:
        from .c13 import mentions_row
        rep.check(None if mentions_row(v, a) else False, "value", "row", e.where, f"a value is replaced by {show(a, 5)}")
        return
    x = next(iter(xs))
    Y, Z = mk("sym", "value"), {t: mk("sym", f"offset {i}") for i, t in enumerate(lk)}
    p = poly(resolve(subst(a, {x: Y, **Z}), and_(full, subst(full, Z))))
    p = {tuple(next((t for t, z in Z.items() if z is k), x if k is Y else k) for k in ks): c for ks, c in p.items()}
    X = mono(x)
    if p.pop(X, None) != 1 or any(x in set(subterms(t)) for k in p for t in k):
        rep.bad("value", "row", e.where, f"a value becomes {show(a, 5)}")
        return
    offs = [k for k in p if len(k) == 1 and k[0] in lk]
    if len(offs) != 1 or len(p) != 1 or p[offs[0]] != 1:
        rep.check(False if len(offs) == 1 or not offs and all(k == () for k in p) else None, "value", "row", e.where, f"a value becomes {show(a, 5)}")
        return
    rep.check(True if implies(full, not_(v.e.is_(x, NONE))) else None if any(x in set(subterms(t)) for t in atoms(full)) else False, "value", "null", e.where, "null is shifted")
    inner = [l for l in e.loops if v.is_row(mk("at", l.term.a[0], l.term)) or l.term.a[0].op == "range"]
    for h, tag in e.guards:
        if tag not in SKIP:
            continue
        for c in conj(h):
            if any(x in set(subterms(t)) for t in atoms(c)):
                extra = [t for t in atoms(c) if x in set(subterms(t)) and t is not v.e.is_(x, NONE)]
                if extra:
                    rep.bad("value", "row", e.where, f"a value is only shifted if {show(extra[0], 5)}")
            elif any(v.varies(c, l.term) for l in inner):
                rep.bad("value", "row", e.where, f"a value is only shifted if {show(c, 5)}")
            else:
                ps = config_deps(v, c) if not c.op == "truth" or True else ()
                direct = {attr_path(t) for t in subterms(c)} & {q for q in ps if q[0] == "config"}
                direct -= {MERGE}
                cols = [t for t in atoms(c) if t.op in ("in", "truth", "exists") and any(w.op == "item" and w.a[0].op == "obj" and v.e.objs[w.a[0]].kind == "dict" and w.a[0] not in m.off and w.a[0] not in m.held and is_mult(v, w.a[0]) for w in v.deep(t, ctrl=True))]
                if cols and any(v.varies(t, l.term) for t in cols for l in e.loops[-1:]) and implies(c, not_(cols[0])):
                    rep.bad("value", "row", e.where, f"multiplied values are not shifted: {show(c, 5)}")
                if direct and not any(t in m.off for t in subterms(c)) and any(d[:2] == ("config", "output") and d[-1] not in ("remap", "output") for d in direct):
                    rep.bad("value", "row", e.where, f"values are only shifted if {show(c, 5)}")
    # where the offset comes from
    t = offs[0][0]
    if t.a[0].op != "item":
        rep.unk("lookup", "table", e.where, show(t, 5))
        return
    O, K, C = t.a[0].a[0], t.a[0].a[1], t.a[1]
    keys = set()
    for y in v.inserts:
        i = y.args[0]
        tab = v.field(i, "table") if i.op == "obj" else None
        for s in subterms(tab) if tab is not None else ():
            if s.op == "item" and s.a[0] in m.D:
                keys.add(s.a[1])
    if K in keys:
        rep.ok("lookup", "table", e.where)
    elif not keys:
        rep.unk("lookup", "table", e.where)
    else:
        # the source name of the table differs from the name in the destination
        q = {k for r in v.reads for k in v.query_keys(r)}
        rem = remapped
        src = not rem(K) and any(rem(k) for k in keys)
        stored = any(shape(s.tab) is shape(K) for s in m.stores)
        same = src and m.stores and all(not rem(s.tab) for s in m.stores)
        rep.check(True if any(shape(K) is shape(k) for k in keys) or same else False if src and not stored else None, "lookup", "table", e.where, f"offsets are looked up under {show(K, 5)}, rows are written to {show(next(iter(keys)), 5)}")
    if e.key is None:
        rep.unk("lookup", "column", e.where, "position of the value not recognised")
    else:
        k = e.key
        el = None
        if k.op == "rankof":
            el = k.a[1]
        elif k.op == "rank":
            el = None
        elif k.op == "idx":
            el = [s for s in subterms(C) if s.op == "at" and s.a[1] is k.a[0]]
            el = el[0] if el else None
        elif k is C:
            el = C
        ok = el is C
        rep.check(True if ok else None if el is None else False, "lookup", "column", e.where, f"the offset of {show(C, 4)} is used for {show(k, 4)}")


def offset_of(p, x):
    """c in x + c, or None."""
    p = dict(p)
    if p.pop(mono(x), None) != 1:
        return None
    if any(k != () for k in p):
        return None
    return p.get((), 0)


def nonnull(v, g, x):
    """Condition g as far as it is about x: 'none' if it only excludes null."""
    cs = [c for c in literals(g) if x in set(subterms(c))]
    odd = [c for c in cs if c is not not_(v.e.is_(x, NONE))]
    return odd


def owner(m, rep, s, g, a, x):
    v = m.v
    full = and_(s.g(), g)
    if full is FALSE:
        return None
    if m.ismax(x) is None:
        # recorded before
        base = bases(m, x, full)
        if base is None:
            rep.unk("own", "amount", s.where, show(a, 5))
            return None
        extra, M, kept = base
        c = shift(a, full, x)
        c = None if c is None else c + extra
        read = m.ismax(M)
    else:
        c = shift(a, full, x)
        read = m.ismax(x)
        M = x
    if c is None:
        p = poly(a)
        m.raised = m.raised or any(len(k) == 1 and k != mono(x) and k[0].op == "call" and is_ext(k[0].a[0], "builtins.max") and x in k[0].a[1] for k in p)
        rep.check(None if any(len(k) and k != mono(x) and any(t.op in ("call", "item") for t in k) for k in p) else False, "own", "amount", s.where, f"keys are shifted by {show(a, 5)}")
        return None
    rep.check(c >= 1, "own", "amount", s.where, f"keys are shifted by the largest key {'plus ' + str(c) if c else ''}, so that keys can collide")
    odd = nonnull(v, full, x)
    odd = [o for o in odd if not (o.op == "in" and o.a[1] in m.held)]
    if odd:
        rep.check(False if odd[0].op in ("truth", "lt", "le", "not", "eq") else None, "own", "amount", s.where, f"keys are only shifted if {show(odd[0], 5)}")
    # the largest key of the same table
    arg = read.args[0]
    its = [t for t in subterms(arg) if t.op == "item" and t.a[0] in m.D]
    if its:
        ok = any(t.a[1] is s.tab or shape(t.a[1]) is shape(s.tab) for t in its)
        other = not ok and any(q.op == "phi" and any(y.op == "in" and y.a[1] in m.D for y in atoms(q.a[0])) and len({remapped(b) for _, b in v.alts(q)}) > 1 for t in its for q in subterms(t.a[1]))
        rep.check(True if ok else False if other else None, "own", "table", s.where, "the largest key of another table is used")
        pk = any(t.op == "attr" and t.a[1] == "primary_key" for t in subterms(arg))
        rep.check(True if pk else None, "own", "column", s.where)
    elif any(t.op == "item" and t.a[0] in m.S for t in subterms(arg)):
        rep.bad("own", "table", s.where, "the largest key is read by the names of the source")
    else:
        rep.unk("own", "table", s.where)
    skipping(m, rep, "own", s, g, "keys")
    return c


def bases(m, t, g):
    """(constant, largest key, record) for a value recorded per table."""
    if not (t.op == "item" and t.a[0] in m.held):
        return None
    R = t.a[0]
    got = []
    for c in m.v.contribs(R):
        if c.val is None:
            continue
        for h, a in m.v.alts(c.val):
            ms = m.maxes(a)
            if len(ms) == 1:
                x = next(iter(ms))
                k = shift(a, and_(h, *[q for q, _ in c.guards]), x)
                got.append((k, x, c))
    if len({k for k, _, _ in got}) == 1 and got[0][0] is not None:
        return got[0][0], got[0][1], got[0][2]
    return None


SEEN = ("primary_key", "columns", "dst_columns", "python_type", "type", "computed", "nullable", "autoincrement", "autoincrement_column", "name", "dst_table", "dst_schema")


def skipping(m, rep, rule, s, g, what):
    """Conditions under which a key or reference is left out."""
    v = m.v
    bad, odd = None, None
    # keys that are references themselves can be handled apart
    passed = any(any(t.op == "item" and t.a[0] in m.held | set(m.off) for t in subterms(o.val)) and not parts(o.col, "foreign_keys") for o in m.stores)
    for h, tag in s.guards:
        if tag not in SKIP:
            continue
        for c in conj(h):
            if not any(v.varies(c, l.term) for l in s.loops):
                continue
            if rule == "reference" and not passed and c.op == "not" and c.a[0].op == "eq" and parts(c.a[0], "primary_key") and parts(c.a[0], "columns") and not parts(c.a[0], "dst_columns", "referred_columns"):
                bad = c
            for t in atoms(c):
                if allowed(m, t, rule):
                    continue
                if t.op in ("eq", "lt", "truth", "in", "is", "startswith") and not any(u.op == "call" and not is_ext(u.a[0], "builtins.len", "builtins.set", "builtins.str", "builtins.tuple", "builtins.sorted", "builtins.list") and not (u.a[0].op == "attr" and u.a[0].a[1] in ("split", "get", "startswith", "endswith")) for u in subterms(t, stop=lambda w: w.op == "item" and (w.a[0] in m.S or w.a[0] in m.D)) if u.op == "call"):
                    bad = t
                else:
                    odd = t
    if bad is not None:
        rep.bad(rule, "all", s.where, f"{what} are only shifted depending on {show(bad, 5)}")
    elif odd is not None:
        rep.unk(rule, "all", s.where, show(odd, 5))
    else:
        rep.ok(rule, "all", s.where)


def allowed(m, t, rule):
    ps = {attr_path(s) for s in subterms(t)}
    if ps & {MERGE, PASS} and t.op in ("in", "truth"):
        return True
    if any(m.ismax(s) is not None for s in subterms(t)):
        return True
    if any(s.op == "item" and s.a[0] in m.held for s in subterms(t)) or t.op == "in" and (t.a[1] in m.held or t.a[1] in m.S or t.a[1] in m.D):
        return True
    if t.op in ("eq", "lt") and any(u.op == "call" and is_ext(u.a[0], "builtins.len") for u in t.a if isinstance(u, T)):
        lens = [u.a[1][0] for u in t.a if isinstance(u, T) and u.op == "call" and is_ext(u.a[0], "builtins.len")]
        one = t.op == "eq" and 1 in (cv(t.a[0]), cv(t.a[1])) or t.op == "lt" and (cv(t.a[0]) == 1 or cv(t.a[1]) == 2)
        if any(w.op == "attr" and w.a[1] in ("primary_key", "columns", "dst_columns") for w in lens):
            return one
        return any(u.op == "call" and u.a[0].op == "attr" and u.a[0].a[1] == "split" for u in lens)
    if t.op == "eq" and any(w.op == "attr" and w.a[1] in ("primary_key",) for w in t.a if isinstance(w, T)):
        return True
    if t.op == "is" and NONE in t.a and any(s.op == "item" and (s.a[0] in m.S or s.a[0] in m.D) for s in t.a if isinstance(s, T)):
        return True
    if t.op == "truth" and t.a[0].op == "item" and (t.a[0].a[0] in m.S or t.a[0].a[0] in m.D):
        return True
    if parts(t, "python_type") or any(s.op == "ext" and s.a[0] in ("sqlalchemy.Integer", "sqlalchemy.types.Integer") for s in subterms(t)):
        return True
    return False


def shift(a, full, x):
    """c if a is x + c under a condition, or None."""
    c = offset_of(poly(resolve(a, full)), x)
    if c is None:
        # the condition may decide parts of x as well
        one = mk("sym", "largest")
        c = offset_of(poly(resolve(subst(a, {x: one}), full)), one)
    return c


def referrer(m, rep, s, g, a, recs, amounts):
    v = m.v
    full = and_(s.g(), g)
    if full is FALSE:
        return
    amounts = {c for c in amounts if c is not None}
    p = poly(resolve(a, full))
    c = None
    rec = None
    if len(recs) == 1:
        rec = recs[0]
        c = shift(a, full, rec)
        if c is not None and rec.a[0].op != "item":
            b = bases(m, rec, full)
            if b is None:
                c = None
            else:
                c += b[0]
        elif c is not None and amounts:
            c += next(iter(amounts)) if len(amounts) == 1 else 0
    else:
        ms = m.maxes(a)
        if len(ms) == 1:
            c = shift(a, full, next(iter(ms)))
            rec = next(iter(ms))
    if c is None or len(amounts) != 1:
        if not recs and not m.maxes(a):
            rep.bad("reference", "amount", s.where, f"references are shifted by {show(a, 5)}")
        elif m.raised and rec is not None and rec.op == "item" and rec.a[0].op != "item" and bases(m, rec, full) is not None:
            rep.bad("reference", "amount", s.where, f"references are shifted by {show(a, 5)}, keys by more")
        else:
            lin = rec is not None and set(p) <= {(), mono(rec)}
            rep.check(False if lin and amounts else None, "reference", "amount", s.where, f"references are shifted by {show(a, 5)}")
        return
    rep.check(c in amounts, "reference", "amount", s.where, f"references are shifted by the largest key plus {c}, keys plus {next(iter(amounts))}")
    odd = nonnull(v, full, rec)
    odd = [o for o in odd if not (o.op == "in" and o.a[1] in m.held)]
    if odd:
        rep.check(False if odd[0].op in ("truth", "lt", "le", "eq") else None, "reference", "amount", s.where, f"references are only shifted if {show(odd[0], 5)}")
    b = bases(m, rec, full) if rec.op == "item" and rec.a[0].op != "item" else None
    if b is not None:
        odd = nonnull(v, and_(*[h for h, tag in b[2].guards if tag in SKIP]), b[1])
        if odd:
            rep.check(False if odd[0].op in ("truth", "lt", "le", "eq") or odd[0].op == "not" and odd[0].a[0].op in ("lt", "le", "eq", "truth") else None, "reference", "amount", s.where, f"references are only shifted if {show(odd[0], 5)}")
    # the referred table and the key it refers to
    if rec.op == "item" and m.ismax(rec) is None:
        k = rec.a[1]
        rem = remapped
        if parts(k, "dst_table") != parts(k, "dst_schema") and not parts(k, "referred_table"):
            rep.bad("reference", "table", s.where, f"the offset of {show(k, 5)} is used")
        elif not parts(k, "dst_table", "referred_table", "dst_schema"):
            rep.check(False if parts(k, "columns") or not parts(k, "foreign_keys") else None, "reference", "table", s.where, f"the offset of {show(k, 5)} is used")
        else:
            src = [c.key for c in v.contribs(rec.a[0]) if c.key is not None and c.val is not None] if rec.a[0].op == "obj" else []
            first = src[0] if src else None
            rep.check(None if first is None else rem(k) == rem(first), "reference", "table", s.where, "offsets are recorded and looked up under different names")
    eqs = [t for t in literals(full) if t.op == "eq" and parts(t, "dst_columns", "referred_columns", "elements") and parts(t, "primary_key")]
    some = [t for t in atoms(full) if parts(t, "dst_columns", "referred_columns", "elements")]
    rep.check(True if eqs else None if some else False, "reference", "key", s.where, "references to other columns than the key are shifted")
    col = s.col
    if any(t.op == "attr" and t.a[1] in ("dst_columns", "referred_columns") for t in subterms(col)):
        rep.bad("reference", "columns", s.where, "the offset is recorded for the referred column")
    else:
        rep.check(True if parts(col, "columns") else None, "reference", "columns", s.where)
    # recorded for the table that refers
    own = [t for l in s.loops for t in subterms(l.term.a[0]) if t.op == "attr" and t.a[1] in ("foreign_keys",)]
    if own:
        names = {t for w in own for t in subterms(w) if t.op in ("key", "at")}
        if parts(s.tab, "dst_table", "dst_schema"):
            rep.bad("reference", "columns", s.where, "the offset is recorded for the referred table")
        else:
            rep.check(True if names & set(subterms(s.tab)) or names & m.v.deep(s.tab) else None, "reference", "columns", s.where)
    for l in s.loops:
        if l.term.a[0].op == "slice":
            rep.bad("reference", "all", s.where, f"only references in {show(l.term.a[0], 4)} are shifted")
        ex = [(tg, c) for tg, c in v.exits(getattr(s.where, "seq", None) and s.where or s.where, l.term)] if not isinstance(s.where, str) else []
        if any(tg in ("break", "return") for tg, c in ex):
            rep.bad("reference", "all", s.where, "references after the first are not shifted")
            return
    skipping(m, rep, "reference", s, g, "references")


def exempt(m, rep, own, ref):
    v = m.v
    merge = mk("truth", literal(MERGE))
    uses = [and_(e.guard(), g) for e, g, a, lk in m.edits]
    reads = [guard(x) for x in m.reads]
    stores = [s.g() for s in m.stores]
    ok = any(all(implies(g, merge) for g in gs) for gs in (uses, reads, stores) if gs)
    rep.check(ok, "exempt", "merge", m.reads[0], "keys are shifted without merge")
    inp = lambda g: [t for t in atoms(g) if t.op == "in" and attr_path(t.a[1]) == PASS]
    notp = lambda g: any(implies(g, not_(t)) for t in inp(g))
    if all(notp(u) for u in uses):
        rep.ok("exempt", "passthrough", m.reads[0])
        rep.check(True if all(notp(g) for g in reads) else None, "exempt", "references", m.reads[0])
        return
    for what, lst in (("keys", own), ("references", ref)):
        for s, g, a, x in lst:
            h = and_(s.g(), g)
            if notp(h):
                rep.ok("exempt", what, s.where)
            else:
                rest = and_(*[c for c in literals(h) if not any(t in m.held for t in subterms(c))])
                near = any(attr_path(t) == PASS for t in v.deep(rest, ctrl=True))
                rep.check(None if near and not inp(h) else False, "exempt", what, s.where, f"{what} of passthrough tables are shifted")
    for s, g, a, recs in ref:
        for rec in recs:
            if rec.a[0] in m.held:
                for c in v.contribs(rec.a[0]):
                    if c.val is not None and m.maxes(c.val):
                        h = and_(*[q for q, _ in c.guards])
                        rep.check(True if notp(h) or notp(and_(s.g(), g)) and len(inp(and_(s.g(), g))) > 1 else None if inp(h) else False, "exempt", "referred", f"sampler.py:{getattr(c.node, 'lineno', '?')}", "references to passthrough tables are shifted")


def order(m, rep):
    v = m.v
    first = min((x.seq for x in v.inserts), default=None)
    for x in m.reads:
        if first is None:
            rep.unk("order", "read", x)
            continue
        ins = {l.uid for y in v.inserts for l in y.loops}
        rep.check(x.seq < first and not any(l.uid in ins for l in x.loops), "order", "read", x, "largest keys are read after rows have been written")


def textual(t):
    """A test of how things are named."""
    c = t.a[0] if t.op == "truth" else t
    if c.op == "call" and c.a[0].op == "attr" and c.a[0].a[1] in ("startswith", "endswith", "isalpha", "islower", "isupper", "isidentifier"):
        return True
    return c.op == "attr" and c.a[1] == "nullable"


def shared(m, rep, own, ref):
    """References that are keys themselves."""
    v = m.v
    prop = []
    for o in m.held | set(m.off):
        for c in v.contribs(o):
            if c.val is None or c.key is None:
                continue
            if any(t.op == "item" and t.a[0] is o for t in subterms(c.val)) and not parts(c.key, "columns"):
                prop.append((o, c))
    if not prop:
        apart = any(parts(t, "primary_key") and parts(t, "columns") and not parts(t, "dst_columns") for s, g, a, x in own + ref for t in atoms(and_(s.g(), g)) if t.op == "eq")
        recur = any(t.op in ("rec", "reccall") for s in m.stores for t in v.deep(s.val))
        rep.check(None if apart or recur else False, "shared", "keys", "sampler.py", "a key that is itself a reference is shifted by the offset of the referenced key, references to it by its own")
        return
    for o, c in prop:
        at = f"sampler.py:{getattr(c.node, 'lineno', '?')}"
        if not c.loops:
            rep.unk("shared", "keys", at)
            continue
        l = c.loops[0]
        seq = l.term.a[0]
        topo = seq.op == "call" and (seq.a[0].op == "func" or seq.a[0].op == "attr" and seq.a[0].a[1] == "toposort") or l.term.a[0].op == "while"
        plain = attr_path(seq) is not None or seq.op == "obj" or seq.op == "call" and seq.a[0].op == "attr" and seq.a[0].a[1] in ("keys", "items")
        if l.rev:
            rep.bad("shared", "order", at, "referencing tables are handled before the referenced ones")
            continue
        rep.check(True if topo else False if plain else None, "shared", "order", at, "a referenced table may be handled after the referencing one")
        own_max = [b for _, b in v.alts(c.val) if b.op == "item" and b.a[0] is o and b.a[1] is c.key]
        mixed = [b for _, b in v.alts(c.val) if b.op == "call" and is_ext(b.a[0], "builtins.max", "builtins.min", "builtins.sum") or b.op == "bin"]
        if mixed and any(t.op == "item" and t.a[0] is o and t.a[1] is c.key for b in mixed for t in subterms(b)):
            rep.bad("shared", "fallback", at, f"references to a table are shifted by {show(mixed[0], 4)}, its keys by the offset of the table it refers to")
            continue
        if own_max and len(v.alts(c.val)) > 1 and any(b.op == "item" and b.a[0] is o and b.a[1] is not c.key for _, b in v.alts(c.val)):
            cleared = any(k.op in ("clear", "del", "pop") for q in m.off for w in [q] + [z.val for z in v.contribs(q) if z.val is not None and z.val.op == "obj"] for k in v.contribs(w)) or any(x.name == ".clear" and x.recv is not None and any(y in m.off for y in subterms(x.recv)) for x in v.fx)
            rep.check(False if cleared else None, "shared", "fallback", at, "references to a table are shifted although its keys are not")
            continue
        deps = v.deep(mk("pair", c.key, c.val), ctrl=True)
        eqs = [t for w in deps if w.op == "obj" and v.e.objs[w].kind in ("dict", "set", "list") for k in v.contribs(w) for h, _ in k.guards for t in atoms(h) if t.op == "eq" and parts(t, "primary_key")]
        eqs += [t for h, _ in c.guards for t in atoms(h) if t.op == "eq" and parts(t, "primary_key")]
        src = any(any(w.op == "attr" and w.a[1] in ("columns",) for w in t.a if isinstance(w, T)) for t in eqs)
        dst = any(any(w.op == "attr" and w.a[1] in ("dst_columns", "referred_columns") for w in t.a if isinstance(w, T)) for t in eqs)
        named = [t for gs in [k.guards for w in deps if w.op == "obj" and v.e.objs[w].kind in ("dict", "set", "list") for k in v.contribs(w)] + [c.guards] if any(t.op == "eq" and parts(t, "primary_key") for h, _ in gs for t in atoms(h)) for h, _ in gs for t in atoms(h) if textual(t)]
        if named:
            rep.bad("shared", "keys", at, f"whether the offset of a referenced table is taken over depends on {show(named[0], 4)}")
            continue
        rep.check(True if src and dst else None if not eqs else False if not src else None, "shared", "keys", at, "the offset of a referenced table is taken over though the reference is not the key")
