"""Hash-consed value-flow terms and boolean guards.

A term denotes "the value this expression has", abstracting from the statement
that computed it.  Terms are interned, so equality of value flow is identity.
Guards are terms in negation normal form over atoms (eq, lt, in, is, isinst,
truth, exists, exc).
"""

from __future__ import annotations


class T:
    __slots__ = ("op", "a", "id")

    def __repr__(self):
        return show(self)


_TABLE = {}
_COUNT = [0]


def _key(x):
    if isinstance(x, T):
        return x.id
    if isinstance(x, tuple):
        return tuple(_key(i) for i in x)
    return (type(x).__name__, x)


def mk(op, *a):
    k = (op,) + tuple(_key(x) for x in a)
    t = _TABLE.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        _COUNT[0] += 1
        t.id = _COUNT[0]
        _TABLE[k] = t
    return t


def const(v):
    return mk("const", v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)


def is_const(t, *vals):
    if t.op != "const":
        return False
    if not vals:
        return True
    return any(type(t.a[0]) is type(v) and t.a[0] == v for v in vals)


def cval(t):
    return t.a[0]


def ext(name):
    return mk("ext", name)


def is_ext(t, *names):
    return t.op == "ext" and (not names or t.a[0] in names)


_UID = [0]


def uid():
    _UID[0] += 1
    return _UID[0]


# --------------------------------------------------------------- booleans

BOOL_OPS = {"eq", "lt", "in", "is", "isinst", "truth", "exists", "exc", "not", "and", "or"}


def is_bool(t):
    return t.op in BOOL_OPS or is_const(t, True, False)


def _pair(a, b):
    """Theory relation of two atoms: set of forbidden (value a, value b) pairs."""
    if a is b:
        return ()
    ao, bo = a.op, b.op
    if ao == "eq" and bo == "eq":
        if a.a[0].op == "const" and b.a[0].op == "const" and a.a[1] is b.a[1] and a.a[0] is not b.a[0]:
            return ((True, True),)
        return ()
    if ao == "eq" and a.a[0].op == "const":
        v = a.a[0].a[0]
        if bo == "truth" and b.a[0] is a.a[1]:
            return ((True, False),) if v else ((True, True),)
        if bo == "is" and b.a[0] is a.a[1] and b.a[1] is NONE and v is not None:
            return ((True, True),)
        return ()
    if ao == "truth":
        if bo == "is" and b.a[0] is a.a[0] and b.a[1] is NONE:
            return ((True, True),)
        if bo == "eq":
            return tuple((y, x) for x, y in _pair(b, a))
        return ()
    if ao == "is" and a.a[1] is NONE:
        if bo in ("truth", "eq"):
            return tuple((y, x) for x, y in _pair(b, a))
        if bo == "isinst" and b.a[0] is a.a[0]:
            return ((True, True),)
        return ()
    if ao == "isinst" and bo == "is":
        return tuple((y, x) for x, y in _pair(b, a))
    return ()


def _lit(c):
    if c.op == "not" and c.a[0].op not in ("and", "or"):
        return c.a[0], False
    if c.op in ("and", "or"):
        return None, None
    return c, True


def lit_implies(p, q):
    a, va = _lit(p)
    b, vb = _lit(q)
    if a is None or b is None or not isinstance(a, T) or not isinstance(b, T):
        return False
    return (va, not vb) in _pair(a, b)


def _length(t):
    return t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] == "builtins.len"


def _unequal(cs, disj):
    """Lengths that are neither less nor greater are equal."""
    lts = {}
    for c in cs:
        x = c if disj else c.a[0] if c.op == "not" else None
        if x is not None and x.op == "lt" and (_length(x.a[0]) or _length(x.a[1])):
            lts[x.a] = c
    for (a, b), c in lts.items():
        d = lts.get((b, a))
        if d is not None:
            x, y = sorted((a, b), key=lambda z: (z.op != "const", z.id))
            e = mk("eq", x, y)
            return [z for z in cs if z is not c and z is not d] + [not_(e) if disj else e]
    return cs


def _reduce(cs, disj):
    """Drop literals subsumed by another one; None if contradictory/exhaustive."""
    cs = _unequal(cs, disj)
    lits = [c for c in cs if c.op not in ("and", "or") and _lit(c)[0].op in ("eq", "truth", "is", "isinst")]
    drop = set()
    for i, p in enumerate(lits):
        for j, q in enumerate(lits):
            if i == j:
                continue
            if disj:
                if lit_implies(not_lit(p), q):
                    return None
                if lit_implies(p, q) and q not in drop:
                    drop.add(p)
            else:
                if lit_implies(p, not_lit(q)):
                    return None
                if lit_implies(p, q) and p not in drop:
                    drop.add(q)
    return [c for c in cs if c not in drop] if drop else cs


_NOT = {}
_MEMO = {}


def not_(c):
    r = _NOT.get(c.id)
    if r is None:
        r = _NOT[c.id] = _not(c)
    return r


def _not(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == "not":
        return c.a[0]
    if c.op == "and":
        return or_(*[not_(x) for x in c.a])
    if c.op == "or":
        return and_(*[not_(x) for x in c.a])
    return mk("not", c)


def _flat(op, cs):
    out = []
    for c in cs:
        if c.op == op:
            out.extend(c.a)
        else:
            out.append(c)
    return out


def and_(*cs):
    k = ("and",) + tuple(c.id for c in cs)
    r = _MEMO.get(k)
    if r is None:
        r = _MEMO[k] = _and(cs)
    return r


def _and(cs):
    cs = _flat("and", cs)
    out = []
    for c in cs:
        if c is FALSE:
            return FALSE
        if c is TRUE or c in out:
            continue
        out.append(c)
    if len(out) > 1:
        out = _reduce(out, False)
        if out is None:
            return FALSE
    st = set(out)
    for c in out:
        if not_lit(c) in st:
            return FALSE
    res = []
    changed = False
    for c in out:
        if c.op == "or":
            if any(x in st for x in c.a):
                changed = True
                continue
            kept = [x for x in c.a if not_lit(x) not in st and not any(lit_implies(y, not_lit(x)) for y in out)]
            if any(lit_implies(y, x) for x in c.a for y in out):
                changed = True
                continue
            if len(kept) != len(c.a):
                changed = True
                c = or_(*kept)
        res.append(c)
    if changed:
        return and_(*res)
    if not res:
        return TRUE
    if len(res) == 1:
        return res[0]
    return mk("and", *sorted(res, key=lambda x: x.id))


def or_(*cs):
    k = ("or",) + tuple(c.id for c in cs)
    r = _MEMO.get(k)
    if r is None:
        r = _MEMO[k] = _or(cs)
    return r


def _or(cs):
    cs = _flat("or", cs)
    out = []
    for c in cs:
        if c is TRUE:
            return TRUE
        if c is FALSE or c in out:
            continue
        out.append(c)
    if len(out) > 1:
        out = _reduce(out, True)
        if out is None:
            return TRUE
    st = set(out)
    for c in out:
        if not_lit(c) in st:
            return TRUE
    res = []
    changed = False
    for c in out:
        if c.op == "and":
            if any(x in st for x in c.a):
                changed = True
                continue
            kept = [x for x in c.a if not_lit(x) not in st and not any(lit_implies(not_lit(y), x) for y in out)]
            if any(lit_implies(x, y) for x in c.a for y in out):
                changed = True
                continue
            if len(kept) != len(c.a):
                changed = True
                c = and_(*kept)
        res.append(c)
    if changed:
        return or_(*res)
    # factor: (x and a) or (x and not a) == x
    ands = [set(c.a) if c.op == "and" else {c} for c in res]
    for i in range(len(ands)):
        for j in range(i):
            d1, d2 = ands[i] - ands[j], ands[j] - ands[i]
            if len(d1) == 1 and len(d2) == 1:
                (p,), (q,) = d1, d2
                if not_lit(p) is q:
                    common = ands[i] & ands[j]
                    rest = [c for n, c in enumerate(res) if n not in (i, j)]
                    return or_(and_(*common), *rest)
    if not res:
        return FALSE
    if len(res) == 1:
        return res[0]
    return mk("or", *sorted(res, key=lambda x: x.id))


def not_lit(c):
    """Negation without distributing (used for membership tests)."""
    if c.op == "not":
        return c.a[0]
    if c.op in ("and", "or"):
        return not_(c)
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    return mk("not", c)


def literals(c):
    return list(c.a) if c.op == "and" else ([] if c is TRUE else [c])


def simp(c, facts):
    """Simplify boolean c under a set of literals known to be true."""
    if not facts:
        return c
    if c in facts:
        return TRUE
    if c.op == "not":
        return not_(simp(c.a[0], facts))
    if not_lit(c) in facts:
        return FALSE
    if c.op not in ("and", "or"):
        for f in facts:
            if lit_implies(f, c):
                return TRUE
            if lit_implies(f, not_lit(c)):
                return FALSE
    if c.op == "and":
        return and_(*[simp(x, facts) for x in c.a])
    if c.op == "or":
        return or_(*[simp(x, facts) for x in c.a])
    return c


def atoms(c, out=None):
    out = set() if out is None else out
    if c.op in ("and", "or", "not"):
        for x in c.a:
            atoms(x, out)
    elif c not in (TRUE, FALSE):
        out.add(c)
    return out


def _ev(c, val):
    if c is TRUE:
        return True
    if c is FALSE:
        return False
    if c.op == "not":
        return not _ev(c.a[0], val)
    if c.op == "and":
        return all(_ev(x, val) for x in c.a)
    if c.op == "or":
        return any(_ev(x, val) for x in c.a)
    return val[c]


def implies(g, c):
    """g => c propositionally (truth table over at most 14 atoms)."""
    if c is TRUE or g is FALSE or g is c:
        return True
    at = sorted(atoms(g) | atoms(c), key=lambda x: x.id)
    if len(at) > 14:
        # what is known outright, then only the conjuncts that share atoms with the goal
        units = {x for x in literals(g) if x.op not in ("and", "or")}
        rest = [simp(x, units) for x in literals(g) if x not in units]
        c = simp(c, units)
        if c is TRUE or FALSE in rest:
            return True
        want, keep = atoms(c), []
        grown = True
        while grown:
            grown = False
            for x in rest:
                if x not in keep and x is not TRUE and atoms(x) & want:
                    keep.append(x)
                    want |= atoms(x)
                    grown = True
        rel = [u for u in units if atoms(u) & want]
        if len(want) > 14:
            return set(literals(c)) <= set(literals(g))
        return implies(and_(*keep, *rel), c)
    forb = [(a, b, pr) for i, a in enumerate(at) for b in at[i + 1 :] for pr in _pair(a, b)]
    for m in range(1 << len(at)):
        val = {t: bool(m >> i & 1) for i, t in enumerate(at)}
        if any((val[a], val[b]) == pr for a, b, pr in forb):
            continue
        if _ev(g, val) and not _ev(c, val):
            return False
    return True


def phi(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if c.op == "not":
        return phi(c.a[0], b, a)
    if a.op == "phi" and a.a[0] is c:
        a = a.a[1]
    if b.op == "phi" and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    if c.op == "is" and c.a[1] is NONE:
        if a is c.a[0]:
            a = NONE
        if a is NONE and b is c.a[0]:
            return b
    if is_bool(a) and is_bool(b):
        return or_(and_(c, a), and_(not_(c), b))
    if b.op == "phi" and b.a[1] is a:
        # phi(c, a, phi(d, a, e)) == phi(c or d, a, e)
        return phi(or_(c, b.a[0]), a, b.a[2])
    if b.op == "phi" and b.a[2] is a:
        return phi(or_(c, not_(b.a[0])), a, b.a[1])
    return mk("phi", c, a, b)


# --------------------------------------------------------------- traversal


def subterms(t, seen=None, stop=None):
    """All subterms of t (pre-order)."""
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(reversed(x))
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        yield x
        if stop and stop(x):
            continue
        stack.extend(reversed(x.a))


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


def rebuild(t, f, memo=None, pre=None):
    """Bottom-up rewrite; f(term) -> term or None.  pre is applied to terms before their parts."""
    memo = {} if memo is None else memo

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(i) for i in x)
        if not isinstance(x, T):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        memo[x] = x
        if pre is not None:
            y = pre(x)
            if y is not x:
                memo[x] = y = go(y)
                return y
        na = tuple(go(i) for i in x.a)
        y = x
        if any(p is not q for p, q in zip(na, x.a)):
            if x.op == "and":
                y = and_(*na)
            elif x.op == "or":
                y = or_(*na)
            elif x.op == "not":
                y = not_(na[0])
            elif x.op == "phi":
                y = phi(*na)
            else:
                y = mk(x.op, *na)
        z = f(y)
        y = y if z is None else z
        memo[x] = y
        return y

    return go(t)


def subst(t, mapping):
    if not mapping:
        return t
    return rebuild(t, lambda x: mapping.get(x), dict(mapping))


# --------------------------------------------------------------- printing


def show(t, d=7):
    if isinstance(t, tuple):
        return "(" + ", ".join(show(x, d) for x in t) + ")"
    if not isinstance(t, T):
        return str(t)
    if d <= 0:
        return "…"
    o, a = t.op, t.a
    s = lambda x: show(x, d - 1)
    if o == "const":
        return repr(a[0])
    if o == "ext":
        return a[0].replace("builtins.", "")
    if o == "sym":
        return str(a[0])
    if o == "attr":
        return f"{s(a[0])}.{a[1]}"
    if o == "item":
        return f"{s(a[0])}[{s(a[1])}]"
    if o == "call":
        parts = [s(x) for x in a[1]] + [f"{k}={s(v)}" for k, v in a[2]]
        return f"{s(a[0])}({', '.join(parts)})" + (f"#{a[3]}" if len(a) > 3 else "")
    if o == "tuple":
        return "(" + ", ".join(s(x) for x in a) + ",)"
    if o == "fstr":
        return "f'" + "".join(x if isinstance(x, str) else "{" + s(x) + "}" for x in a) + "'"
    if o == "phi":
        return f"[{s(a[0])} ? {s(a[1])} : {s(a[2])}]"
    if o == "not":
        return f"!{s(a[0])}"
    if o in ("and", "or"):
        return "(" + f" {o} ".join(s(x) for x in a) + ")"
    if o == "eq":
        return f"{s(a[0])}=={s(a[1])}"
    if o == "lt":
        return f"{s(a[0])}<{s(a[1])}"
    if o in ("in", "is"):
        return f"({s(a[0])} {o} {s(a[1])})"
    if o == "bin":
        return f"({s(a[1])}{a[0]}{s(a[2])})"
    if o == "at":
        return f"{s(a[0])}<{s(a[1])}>"
    if o == "loop":
        return f"L{a[1]}" + ("" if d < 4 else f"({show(a[0], 2)})")
    return f"{o}(" + ", ".join(s(x) if isinstance(x, (T, tuple)) else str(x) for x in a) + ")"
