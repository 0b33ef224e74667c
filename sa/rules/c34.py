"""Names of temporary tables.

Every temporary table made on the source is traced to the value of its name,
and the name to its pieces.  `prefix`: every name starts with the same constant
prefix.  `unique`: the name ends in a count of earlier uses of the rest of the
name, kept for the whole run and increased whenever a name is made; the number
is only left out while the count is zero.  `case`: the count is kept regardless
of case.  `letters`: the part taken from the source table is cut down to ASCII
letters and digits, so that no separator or number can be confused with it.
`length`: that part is cut so short that no database shortens the name again.
`shadow`: the table is created whether or not a permanent one has its name.
`index`: the name of an index on it consists of the table's name and something
that tells the indexes of one table apart.
"""

from ._s import *  # noqa

FLOORS = {"prefix": 1, "unique": 1, "case": 1, "letters": 1, "length": 1, "shadow": 1}
LIMIT = 50
RANDOM = ("uuid.", "secrets.", "random.", "os.urandom", "itertools.count")
FOLD = ("lower", "casefold", "upper")


def leaves(t, c=TRUE):
    if t.op == "phi":
        return leaves(t.a[1], and_(c, t.a[0])) + leaves(t.a[2], and_(c, not_(t.a[0])))
    return [(c, t)] if c is not FALSE else []


def pieces(t, c=TRUE):
    """Alternatives of a text as (condition, tuple of constant texts and terms)."""
    if t.op == "phi":
        return pieces(t.a[1], and_(c, t.a[0])) + pieces(t.a[2], and_(c, not_(t.a[0])))
    if t.op == "const":
        return [(c, (str(cval(t)),))]
    parts = None
    if t.op == "fstr":
        parts = [const(p) if isinstance(p, str) else p for p in t.a[0]] if t.a and isinstance(t.a[0], tuple) else [const(p) if isinstance(p, str) else p for p in t.a]
    elif t.op == "bin" and t.a[0] == "+":
        parts = [t.a[1], t.a[2]]
    elif t.op == "call" and is_ext(t.a[0], "builtins.str") and t.a[1]:
        return [(c, (t.a[1][0],))]
    if parts is None:
        return [(c, (t,))]
    out = [(c, ())]
    for p in parts:
        # a number or a name inside a name stays one piece
        sub = pieces(p) if composed(p) else [(TRUE, (p,))]
        out = [(and_(a, b), x + y) for a, x in out for b, y in sub]
    return [(a, x) for a, x in out if a is not FALSE]


def composed(p):
    """A text put together from others."""
    if p.op == "phi":
        return any(composed(x) and not (x.op == "const" and cval(x) and not set(str(cval(x))) - ALNUM) for _, x in leaves(p))
    return p.op in ("fstr", "const") or p.op == "bin" and any(y.op == "const" and isinstance(cval(y), str) for y in p.a[1:])


def outer(w):
    """The sequence a value is an element of."""
    for _ in range(4):
        if w.op == "at" and w.a[1].op == "loop":
            return w.a[0]
        if w.op == "call" and w.a[0].op == "attr":
            w = w.a[0].a[0]
        else:
            break
    return None


def spine(v, t):
    """The values a text is derived from, outermost first, with what is done to it."""
    out = []
    for _ in range(12):
        if t.op == "slice":
            out.append(("slice", t))
            t = t.a[0]
        elif t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] == "join" and t.a[1] and t.a[1][0].op == "obj":
            out.append(("join", t))
            vals = [c.val for c in v.contribs(t.a[1][0]) if c.val is not None]
            src = {outer(w) for w in vals}
            if len(src) != 1 or None in src:
                break
            t = src.pop()
        elif t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in FOLD + ("strip", "replace", "translate", "encode", "decode"):
            out.append((t.a[0].a[1], t))
            t = t.a[0].a[0]
        elif t.op == "call" and is_ext(t.a[0], "re.sub") and len(t.a[1]) > 2:
            out.append(("re.sub", t))
            t = t.a[1][2]
        elif t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] == "sub" and len(t.a[1]) > 1:
            out.append(("re.sub", t))
            t = t.a[1][1]
        else:
            break
    out.append(("", t))
    return out


def filtered(v, t):
    """The characters of the text: True (ASCII letters and digits), False, or None."""
    r = False
    for how, x in spine(v, t):
        if how == "join":
            cs = [c for c in v.contribs(x.a[1][0]) if c.val is not None]
            sep = x.a[0].a[0]
            if not (sep.op == "const" and not set(str(cval(sep))) - ALNUM):
                return False
            rs = []
            for c in cs:
                ch = c.val
                alnum, asc = kept(and_(*[g for g, tag in c.guards if tag in SKIP]), ch)
                rs.append(True if alnum and asc else None if None in (alnum, asc) else False)
            if rs and all(rs):
                return True
            if None in rs or not rs:
                r = None
        elif how == "re.sub":
            pat = x.a[1][0]
            p = str(cval(pat)) if pat.op == "const" and is_ext(x.a[0], "re.sub") else None
            rep = x.a[1][1] if is_ext(x.a[0], "re.sub") else x.a[1][0]
            if p in ("[^a-zA-Z0-9]", "[^a-zA-Z0-9]+", "[^A-Za-z0-9]", "[^A-Za-z0-9]+", "[^0-9a-zA-Z]", "[^0-9a-zA-Z]+", "[^0-9A-Za-z]", "[^0-9A-Za-z]+") and rep.op == "const" and not set(str(cval(rep))) - ALNUM:
                return True
            r = None
        elif how in ("replace", "translate", "encode", "decode"):
            r = None
        elif how == "" and x.op == "const":
            return not set(str(cval(x))) - ALNUM
        elif how == "" and x.op in ("call", "mu", "fin"):
            r = None
    return r


def kept(g, ch):
    """(letters and digits only, ASCII only): what a condition demands of a character."""
    if g.op == "and":
        rs = [kept(a, ch) for a in g.a]
        return tuple(True if any(r[i] for r in rs) else None if any(r[i] is None for r in rs) else False for i in (0, 1))
    if g.op == "or":
        rs = [kept(a, ch) for a in g.a]
        return tuple(False if any(r[i] is False for r in rs) else None if any(r[i] is None for r in rs) else True for i in (0, 1))
    if g.op == "truth" and g.a[0].op == "call" and g.a[0].a[0].op == "attr" and g.a[0].a[0].a[0] is ch:
        return g.a[0].a[0].a[1] in ("isalnum", "isalpha", "isdigit"), g.a[0].a[0].a[1] == "isascii"
    if g.op == "in" and g.a[0] is ch:
        k = literal_text(g.a[1])
        r = None if k is None else not set(k) - ALNUM
        return r, r
    if g.op == "eq" and ch in g.a:
        k = cv([y for y in g.a if y is not ch][0])
        r = None if not isinstance(k, str) else not set(k) - ALNUM
        return r, r
    if g.op == "not" and g.a[0].op == "truth" or ch not in set(subterms(g)):
        return False, False
    return None, None


ALNUM = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789")


def literal_text(t):
    import string

    if t.op == "const" and isinstance(cval(t), str):
        return cval(t)
    if t.op == "ext" and t.a[0].startswith("string."):
        return getattr(string, t.a[0][7:], None)
    if t.op == "bin" and t.a[0] == "+":
        a, b = literal_text(t.a[1]), literal_text(t.a[2])
        return a + b if a is not None and b is not None else None
    return None


def bounded(v, t):
    """Longest the text can get, None when unknown, -1 when without bound."""
    for how, x in spine(v, t):
        if how == "slice":
            lo, hi = x.a[1], x.a[2]
            if hi.op == "const" and isinstance(cval(hi), int) and cval(hi) >= 0:
                return cval(hi)
            if hi.op == "const" and cval(hi) is not None:
                return -1
            return None if hi.op != "const" else -1
        if how == "" and x.op == "const":
            return len(str(cval(x)))
        if how == "" and x.op in ("call", "mu", "fin"):
            return None
        if how in ("replace", "translate"):
            return None
    return -1


def counter(t):
    """(dictionary, key) a count is read from."""
    for _, x in leaves(t):
        for y in subterms(x):
            if y.op == "item" and y.a[0].op == "obj":
                return y.a[0], y.a[1]
    return None


def check(ctx, rep):
    v = SV(ctx, "database")
    made = [x for x in v.fx if x.name in ("sqlalchemy.Table", "sqlalchemy.schema.Table") and x.result is not None and x.args and v.temp_table(x.result) is not False]
    made = [x for x in made if temp(v, x)]
    if not made:
        broken("no temporary table is created")
    prefixes, dicts = set(), set()
    for x in made:
        name(v, x, rep, prefixes, dicts)
        shadow(v, x, rep)
        indexes(v, x, rep)
    if len(prefixes) > 1:
        rep.bad("prefix", "same", made[0], f"names start with {sorted(prefixes)}")
    if len(dicts) > 1:
        rep.bad("unique", "run", made[0], "names are not counted together")


def temp(v, x):
    """Created on the source connection."""
    for y in v.fx:
        if y.name in (".create_all", ".create") and y.recv is not None and y.recv in ([x.args[1]] if len(x.args) > 1 else []) + [x.result]:
            b = v.xkw(y, "bind", 0)
            if b is not None and "source" in v.sides(b):
                return True
    return False


def name(v, x, rep, prefixes, dicts):
    alts = pieces(x.args[0])
    unknown = [p for _, ps in alts for p in ps if isinstance(p, T) and p.op == "call" and p.a[0].op in ("func", "bound")]
    if unknown:
        for r in ("prefix", "unique", "case", "letters", "length"):
            rep.unk(r, "name", x, show(unknown[0], 4))
        return
    pre = set()
    for c, ps in alts:
        p = ps[0] if ps and isinstance(ps[0], str) else None
        pre.add(p)
    if None in pre or "" in pre:
        rep.bad("prefix", "name", x, "a temporary table's name does not start with a prefix of its own")
    else:
        ps = sorted(pre)
        common = ps[0]
        for p in ps:
            while not p.startswith(common):
                common = common[:-1]
        prefixes.add(common)
        rep.check(len(common) > 2, "prefix", "name", x, "names do not start with one constant prefix")
    rnd = lambda ps: any(isinstance(p, T) and any(y.op == "ext" and str(y.a[0]).startswith(RANDOM) for y in subterms(p)) for p in ps)
    if alts and all(rnd(ps) for _, ps in alts):
        rep.ok("unique", "name", x)
        rep.ok("case", "name", x)
        rep.ok("letters", "name", x)
        rep.ok("length", "name", x)
        return
    # the part of the source table and the number
    base, numbers, plain = set(), [], []
    for c, ps in alts:
        ts = [p for p in ps if isinstance(p, T)]
        num = [p for p in ts if counter(p) is not None and not textual(v, p)]
        txt = [p for p in ts if p not in num]
        base |= set(txt)
        if num:
            numbers.append((c, ps, num[0], txt))
        else:
            plain.append((c, ps, txt))
    if not numbers:
        state = any(y.op in ("obj", "mu") and y.op == "mu" for _, ps in alts for p in ps if isinstance(p, T) for y in subterms(p)) or any(y.op == "item" and y.a[0].op == "obj" or y.op == "call" and is_ext(y.a[0], "builtins.len", "builtins.next", "builtins.id") for _, ps in alts for p in ps if isinstance(p, T) for y in subterms(p))
        rep.check(None if state else False, "unique", "name", x, "two source tables with similar names get the same temporary table name")
    done = False
    for c, ps, num, txt in numbers:
        i = ps.index(num)
        before = ps[i - 1] if i else None
        if not (isinstance(before, str) and before and before[-1] not in ALNUM and i > 1):
            rep.bad("unique", "separator", x, "the number cannot be told apart from the end of the name")
            continue
        rep.ok("unique", "separator", x)
        D, K = counter(num)
        dicts.add(D)
        done = True
        if len(txt) != 1:
            rep.unk("unique", "name", x)
            continue
        counted(v, x, rep, D, K, num, txt[0], plain)
    for b in sorted(base, key=show):
        for c, t in leaves(b):
            f = filtered(v, t)
            rep.check(f, "letters", "name", x, f"{show(t, 5)} can contain other characters than ASCII letters and digits")
            n = bounded(v, t)
            rep.check(None if n is None else 0 <= n <= LIMIT, "length", "name", x, f"{show(t, 5)} can be so long that the name is cut off")
    if not base:
        rep.unk("letters", "name", x)
        rep.unk("length", "name", x)


def textual(v, p):
    return any(y.op == "call" and y.a[0].op == "attr" and y.a[0].a[1] in ("join", "lower", "casefold", "upper") or y.op == "slice" for _, z in leaves(p) for y in [z])


def counted(v, x, rep, D, K, num, N, plain):
    o = v.e.objs.get(D)
    if o is None or o.kind != "dict":
        rep.unk("unique", "name", x)
        return
    mine = {l.uid for l in x.loops}
    if any(l.uid in mine for l in o.loops):
        rep.bad("unique", "run", x, "the count starts again for every table")
    else:
        rep.ok("unique", "run", x)
    # which names are counted together
    kl, nl = leaves(K), leaves(N)
    st, msg = True, ""
    for ck, k in kl:
        for cn, n in nl:
            if and_(ck, cn) is FALSE:
                continue
            ks, ns = spine(v, k), spine(v, n)
            folded = any(h in FOLD for h, _ in ks + ns)
            inner = lambda s: [y for h, y in s if h not in FOLD]
            a, b = inner(ks), inner(ns)
            if a[-1].op == "const" or b[-1].op == "const":
                if a[-1].op == b[-1].op and str(cval(a[-1])).lower() == str(cval(b[-1])).lower():
                    continue
                if a[-1].op == b[-1].op or implies(and_(ck, cn), FALSE):
                    st, msg = False, "another name is counted"
                    continue
                # conditions that cannot be compared
                continue
            if a[0] is b[0]:
                if not folded:
                    st, msg = False, "names that only differ in case are counted separately"
            elif a[0] in b[1:]:
                st, msg = False, "names that only differ in what is cut off are counted separately"
            elif b[0] in a[1:]:
                # fewer counters than names: still unique
                if not folded:
                    st, msg = False, "names that only differ in case are counted separately"
            else:
                st = None if st else st
    rep.check(st, "case", "name", x, msg)
    # the count goes up with every name
    item, has = mk("item", D, K), mk("in", K, D)
    ups = [c for c in v.contribs(D) if c.op in ("set", "setitem") and c.key is K]
    other = [c for c in v.contribs(D) if c not in ups and c.op not in ("set", "setitem", "default") or c.op in ("set", "setitem") and c.key is None]
    text = lambda t: [y for _, z in leaves(t) for h, y in spine(v, z) if h not in FOLD]
    sets = [c for c in v.contribs(D) if c.op in ("set", "setitem") and c.key is not None]
    if not ups and not other and sets and all(set(text(c.key)) & set(text(K)) for c in sets):
        rep.bad("unique", "count", x, f"the count is increased for {show(sets[0].key, 4)}, but looked up for {show(K, 4)}")
    elif not ups:
        rep.bad("unique", "count", x, "the count of a name is never increased") if not other and not any(c.op == "default" for c in v.contribs(D)) else rep.unk("unique", "count", x)
    mine = {g for g, _ in x.guards}
    cover, decided = FALSE, True
    for c in ups:
        extra = and_(*[g for g, tag in c.guards if tag in SKIP and g not in mine and not implies(guard(x), g)])
        for g, t in [(and_(g, extra, h), t) for g, t in leaves(c.val) for h in (has, not_(has))]:
            if g is FALSE:
                continue
            t = resolve(t, g)
            p = dict(poly(t) or {})
            if implies(g, not_(has)):
                d = p
            else:
                d = {m: p.get(m, 0) - (m == (item,)) for m in set(p) | {(item,)}}
            d = {m: k for m, k in d.items() if k}
            if not set(d) - {()} and d and d[()] > 0:
                cover = or_(cover, g)
            elif implies(g, not_(has)) and not d:
                continue
            elif not d or t.op == "const" or not set(d) - {()} or t.op == "call" and is_ext(t.a[0], "builtins.min") and any(q.op == "const" for q in t.a[1]) or t.op == "bin" and t.a[0] == "%":
                rep.bad("unique", "count", x, f"the count of a name becomes {show(t, 5)}")
                decided = False
            else:
                decided = False
                rep.unk("unique", "count", x, show(t, 5))
    if ups and decided:
        rep.check(True if cover is TRUE or equivalent(cover, TRUE) else False if not other else None, "unique", "count", x, f"a name is only counted if {show(cover, 5)}")
    # without a number only the first time
    for c, ps, txt in plain:
        if txt and txt[0] is not N:
            rep.unk("unique", "plain", x)
            continue
        again = fixed(c, {has: True, mk("truth", item): True})
        if again is not FALSE:
            # comparisons with numbers
            from ..table import Table, Undecided

            st = None
            try:
                st = not any(Table(v, {D: {"k": n}, K: "k"}).true(c) for n in (1, 2, 7))
            except (Undecided, KeyError, TypeError, AttributeError):
                st = False if set(atoms(c)) <= {has} or c is TRUE else None
            rep.check(st, "unique", "plain", x, "a name that is taken is given out again without a number")
        else:
            rep.ok("unique", "plain", x)


def shadow(v, x, rep):
    for y in v.fx:
        if y.name in (".create_all", ".create") and y.recv is not None and (len(x.args) > 1 and y.recv is x.args[1] or y.recv is x.result):
            f = v.xkw(y, "checkfirst", 2 if y.name == ".create_all" else 1)
            if f is None:
                rep.check(y.name == ".create", "shadow", "create", y, "the temporary table is not created if a permanent table of its name exists")
            else:
                can = [q for _, q in v.alts(f) if not is_const(q, False)]
                rep.check(not can or (False if any(q.op in ("const", "eq", "in", "is") or q.op == "not" and q.a[0].op in ("eq", "in", "is") for q in can) else None), "shadow", "create", y, "the temporary table is not created if a permanent table of its name exists")


def told(t):
    """The parts of a name that tell things apart: sizes do not."""
    out = []
    for _, ps in pieces(t):
        for p in ps:
            if isinstance(p, T):
                if p.op == "call" and is_ext(p.a[0], "builtins.str") and p.a[1]:
                    p = p.a[1][0]
                if not (p.op == "len" or p.op == "call" and is_ext(p.a[0], "builtins.len", "builtins.bool")):
                    out.append(p)
    return out


def indexes(v, x, rep):
    for y in v.fx:
        if y.name not in ("sqlalchemy.Index", "sqlalchemy.schema.Index") or not y.args:
            continue
        made = lambda t: v.is_call(t, "sqlalchemy.Table", "sqlalchemy.schema.Table")
        if not any(t is x.result for a in y.args[1:] for t in v.deep(a, stop=made)):
            continue
        inner = [l for l in y.loops if l.uid not in {m.uid for m in x.loops}]
        d = set(subterms(y.args[0]))
        named = x.args[0] in d or any(p in d for _, ps in pieces(x.args[0]) for p in ps if isinstance(p, T) and counter(p) is not None)
        whole = [t for t in d if t.op == "slice" and x.args[0] in set(subterms(t)) and is_const(t.a[2]) and isinstance(cval(t.a[2]), int) and cval(t.a[2]) < 60]
        outside, st = False, [y.args[0]]
        while st:
            t = st.pop()
            outside |= t is x.args[0]
            st += [] if t in whole else [q for q in t.a if isinstance(q, T)]
        if whole and not outside:
            rep.bad("index", "name", y, f"indexes of different temporary tables get the same name: {show(whole[0], 3)} is not the whole name")
            continue
        d = {t for p in told(y.args[0]) for t in subterms(p)} | {x for x in d if x.op in ("idx", "rank", "rankof")}
        own = any(t.op in ("idx", "rank", "rankof") for t in d) or any(l.term in d for l in inner)
        if y.args[0].op == "const" and cval(y.args[0]) is None:
            rep.unk("index", "name", y)
        elif not named:
            rep.bad("index", "name", y, "indexes of different temporary tables get the same name")
        else:
            rep.check(own or not inner, "index", "name", y, "two indexes of one temporary table get the same name")
