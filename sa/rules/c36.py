"""The value each filter stores, compared with the documentation of the filter.

Every filter is analysed and the value stored for a named column is
compared with its specification.  `range`, `string`, `uuid`, `null`: the
generator call and its arguments are the configured bounds, length and
alphabet (alphabets are compared as character sets).  `constant`: the i-th
value goes to the i-th named column and differing lengths are rejected.
`fake`: the generator method belongs to the name of the filter, and comes from
the interface without repetition exactly if configured.  `generator`: that
method is defined in the sources of the installed Faker.  `zero`: for each type,
the value stored under the type tests.
"""

import ast
import glob
import os
import string

from ..rule import *  # noqa
from ._f import *  # noqa

FLOORS = {"fake": 19, "generator": 19, "zero": 6, "range": 2, "string": 9, "constant": 1, "uuid": 1, "null": 1}
FAKE = {"fake_postal_code": ("postcode", "postalcode"), "fake_phone_number": ("phone_number",), "fake_license_plate": ("license_plate", "licence_plate"),
        "fake_country_code": ("country_code",), "fake_city": ("city",), "fake_state": ("state",), "fake_name": ("name",)}
LETTERS = {
    "alnum": string.ascii_letters + string.digits,
    "hex": string.digits + "abcdef",
    "hex_lower": string.digits + "abcdef",
    "hex_upper": string.digits + "ABCDEF",
    "digit": string.digits,
    "alpha": string.ascii_letters,
    "alpha_lower": string.ascii_lowercase,
    "alpha_upper": string.ascii_uppercase,
}


def check(ctx, rep):
    gens = faker_methods()
    for fr in filter_runs(ctx):
        if fr.ret is None or fr.op in COPIES or fr.op is None:
            continue
        vals = stored(fr)
        if vals is None or not vals:
            rep.unk("stored", fr.op, fr.where, show(fr.ret, 4))
            continue
        if fr.op.startswith("fake_"):
            fake(fr, vals, rep, gens)
        elif fr.op == "random_int":
            rng(fr, vals, rep, "randint")
        elif fr.op == "random_float":
            rng(fr, vals, rep, "uniform")
        elif fr.op == "random_string":
            rstring(fr, vals, rep)
        elif fr.op == "uuid":
            for val, _, _ in vals:
                ok = is_uuid(fr.v, val)
                rep.check(ok, "uuid", fr.op, fr.where, f"the value stored is {show(val, 4)}")
        elif fr.op == "null":
            for val, _, _ in vals:
                rep.check(val is NONE, "null", fr.op, fr.where, f"the value stored is {show(val, 4)}")
        elif fr.op == "constant":
            constant(fr, vals, rep)
        elif fr.op == "zero":
            zero(fr, vals, rep)


def stored(fr):
    """(value, condition, contribution storing it) of what is put into named columns."""
    out = []
    for g, t in returned(fr):
        if t.op != "obj":
            return None
        for c in writes(fr, t):
            rs = resolve(fr.v, c.val)
            if not rs:
                return None
            for val, via in rs:
                cond = TRUE
                if via is not None:
                    cond = and_(*[x for x, tag in via.guards if tag in BRANCH])
                for gg, x in fr.v.alts(val):
                    out.append((x, and_(cond, gg), c))
    return out


def source_ok(fr, b, ext_name, field):
    """b is the given generator or a fresh one."""
    if b.op == "attr" and b.a[1] == field and b.a[0].op == "sym" and b.a[0].a[0] == "fctx":
        return True
    return fr.v.is_call(b, ext_name)


def rng(fr, vals, rep, meth):
    lo, hi = fr.cfg_attr("low"), fr.cfg_attr("high")
    for val, g, c in vals:
        once = [x for x in fr.v.fx if x.result is val and not x.loops]
        if once and c.loops:
            rep.bad("range", fr.op, fr.where, "one number is stored in all named columns of a row")
        v = fr.v
        if v.is_call(val, "." + meth) or (meth == "randint" and v.is_call(val, ".randrange")):
            a = [v.kw(val, n, i) for i, n in enumerate(("a", "b"))]
            if v.is_call(val, ".randrange"):
                a = [v.kw(val, "start", 0), v.kw(val, "stop", 1)]
                ok = a[0] is lo and a[1] is not None and poly(a[1]) == {(hi,): 1, (): 1}
            else:
                ok = a == [lo, hi] or (meth == "uniform" and a == [hi, lo])
            rep.check(ok, "range", fr.op, fr.where, f"drawn from {show(a[0], 3) if a[0] is not None else '?'} to {show(a[1], 3) if a[1] is not None else '?'}")
        else:
            bad = is_const(val) or v.is_call(val, ".random", ".gauss", ".triangular", ".randint", ".uniform", ".choice", ".randrange", ".normalvariate", ".getrandbits", "builtins.round", "builtins.int")
            rep.check(False if bad else None, "range", fr.op, fr.where, f"the value stored is {show(val, 4)}")


def chars(t):
    if t.op == "const" and isinstance(cval(t), str):
        return set(cval(t))
    if t.op == "ext" and t.a[0].startswith("string."):
        x = getattr(string, t.a[0][7:], None)
        return set(x) if isinstance(x, str) else None
    if t.op == "bin" and t.a[0] == "+":
        l, r = chars(t.a[1]), chars(t.a[2])
        return None if l is None or r is None else l | r
    if t.op == "fstr":
        out = set()
        for p in t.a:
            q = set(p) if isinstance(p, str) else chars(p)
            if q is None:
                return None
            out |= q
        return out
    if t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0].startswith("string.") and t.a[0].a[0].split(".")[-1] in ("lower", "upper"):
        x = chars(ext(t.a[0].a[0].rsplit(".", 1)[0]))
        return None if x is None else {getattr(y, t.a[0].a[0].rsplit(".", 1)[1])() for y in x}
    if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("lower", "upper"):
        x = chars(t.a[0].a[0])
        return None if x is None else {getattr(y, t.a[0].a[1])() for y in x}
    return None


def rstring(fr, vals, rep):
    v = fr.v
    alpha = fr.cfg_attr("alphabet")
    for val, g, c in vals:
        if not (v.is_call(val, ".join") and is_const(val.a[0].a[0])):
            rep.check(False if is_const(val) or v.is_call(val, ".choice") else None, "string", "length", fr.where, show(val, 4))
            continue
        if cval(val.a[0].a[0]) != "":
            rep.bad("string", "length", fr.where, "characters are separated")
            continue
        for gg, body in v.alts(val.a[1][0]):
            al, k, ok = None, None, None
            if v.is_call(body, ".choices"):
                al, k = v.kw(body, "population", 0), v.kw(body, "k")
                if k is None:
                    ok = False
                else:
                    ok = k is fr.cfg_attr("length")
                if v.kw(body, "weights", 1) is not None:
                    ok = None
            elif v.is_call(body, ".sample"):
                rep.bad("string", "length", fr.where, "characters are never repeated, which limits length and values")
                continue
            elif body.op == "obj":
                cs = v.contribs(body)
                if len(cs) == 1 and v.is_call(cs[0].val, ".choice") and len(cs[0].loops) >= 1:
                    al = cs[0].val.a[1][0]
                    s = cs[0].loops[-1].term.a[0]
                    if v.is_call(s, "builtins.range") or s.op == "range":
                        a = list(s.a[1]) if s.op == "call" else list(s.a)
                        ok = a == [fr.cfg_attr("length")] or a == [const(0), fr.cfg_attr("length")] or (len(a) == 3 and a == [const(0), fr.cfg_attr("length"), const(1)])
            rep.check(ok, "string", "length", fr.where, f"a string of {show(k, 3) if k is not None else '?'} characters")
            if al is None:
                continue
            for name, want in LETTERS.items():
                got = set()
                for x in select(v, al, alpha, name, fr):
                    s = chars(x)
                    got.add(None if s is None else frozenset(s))
                if fr.cfg_attr("custom_alphabet") in select(v, al, alpha, name, fr):
                    rep.bad("string", name, fr.where, f"the custom alphabet can be used although {name} is configured")
                elif not got or None in got:
                    rep.unk("string", name, fr.where, show(al, 3))
                else:
                    rep.check(got == {frozenset(want)}, "string", name, fr.where, f"alphabet {name} is {''.join(sorted(next(iter(got))))}")
            xs = select(v, al, alpha, "custom", fr)
            rep.check(True if xs == {fr.cfg_attr("custom_alphabet")} else False if xs and fr.cfg_attr("custom_alphabet") not in xs else None, "string", "custom", fr.where, "the custom alphabet is not used")


def select(v, t, sel, name, fr):
    """Values of t when sel == name."""
    facts = {}

    def truth(g):
        val = {}
        for a in atoms(g):
            if a.op == "eq" and a.a[1] is sel and is_const(a.a[0]):
                val[a] = cval(a.a[0]) == name
            elif a.op == "eq" and a.a[0] is sel and is_const(a.a[1]):
                val[a] = cval(a.a[1]) == name
            elif a.op == "in" and a.a[0] is sel and a.a[1].op in ("obj", "const", "tuple"):
                ks = keys_of(v, a.a[1])
                if ks is not None:
                    val[a] = name in ks
        return fixed(g, val)

    out = set()

    def go(x):
        if x.op == "phi":
            g = truth(x.a[0])
            if g is not FALSE:
                go(x.a[1])
            if g is not TRUE:
                go(x.a[2])
        elif x.op == "item" and x.a[1] is sel and x.a[0].op == "obj":
            for c in v.contribs(x.a[0]):
                if c.key is not None and is_const(c.key) and cval(c.key) == name:
                    go(c.val)
        else:
            out.add(x)

    go(t)
    return out


def keys_of(v, t):
    if t.op == "obj":
        ks = [c.key if c.key is not None else c.val for c in v.contribs(t)]
        return {cval(k) for k in ks} if all(k is not None and is_const(k) for k in ks) else None
    el = v.elems(t)
    return {cval(k) for k in el} if el is not None and all(is_const(k) for k in el) else None


def is_uuid(v, val):
    x = None
    if v.is_call(val, "builtins.str", "builtins.format") and val.a[1]:
        x = val.a[1][0]
    elif val.op == "fstr":
        parts = [p for p in val.a if isinstance(p, T)]
        fl = []
        for p in val.a:
            if isinstance(p, tuple):
                fl += [q for q in p if isinstance(q, T)]
        parts += fl
        x = parts[0] if len(parts) == 1 and not any(isinstance(p, str) and p for p in val.a) else None
        if x is None:
            return None
    elif val.op == "attr" and val.a[1] == "hex":
        return False
    elif v.is_call(val, "uuid.uuid4"):
        return False
    if x is not None and v.is_call(x, "uuid.uuid4"):
        return True
    if v.uses(val, lambda t: t.op == "ext" and t.a[0] in ("uuid.uuid1", "uuid.uuid3", "uuid.uuid5", "uuid.UUID")):
        return False
    if not v.uses(val, lambda t: v.is_call(t, "uuid.uuid4")) and (is_const(val) or v.uses(val, lambda t: t.op == "ext" and t.a[0].startswith("uuid."))):
        return False
    return None


def constant(fr, vals, rep):
    v = fr.v
    src = fr.cfg_attr("values")
    names = fr.cfg_attr("columns")
    for val, g, c in vals:
        if val.op == "at" and val.a[0] is src:
            lp = val.a[1]
            rs = resolve(v, c.key)
            aligned = None
            for x in subterms(c.key):
                if x.op == "obj" and any(k.op == "del" and k.key is not None and cval(k.key) in ("sort", "reverse") for k in v.contribs(x) if k.key is None or is_const(k.key)):
                    aligned = False
            for k, via in rs:
                ks = {x.a[0] for x in subterms(k) if x.op == "at" and x.a[0] is names}
                if ks and (c.key.op == "at" and c.key.a[1] is lp or k.op == "item"):
                    aligned = True
            for s in lp.a[0].a if lp.a[0].op == "zip" else ():
                ss = s if isinstance(s, tuple) else (s,)
                for q in ss:
                    if isinstance(q, T) and (q.op == "slice" or v.is_call(q, "builtins.sorted", "builtins.reversed")):
                        aligned = False
            if c.key.op == "at" and v.is_call(c.key.a[0], "builtins.sorted", "builtins.reversed", "builtins.set"):
                aligned = False
            rep.check(aligned, "constant", fr.op, fr.where, "values are not matched to columns by position")
        elif val.op == "item" and val.a[0] is src and is_const(val.a[1]):
            rep.bad("constant", fr.op, fr.where, f"every column gets {show(val, 3)}")
        else:
            bad = not v.uses(val, src) or v.is_call(val, "random.choice", ".choice", "builtins.str")
            rep.check(False if bad else None, "constant", fr.op, fr.where, f"the value stored is {show(val, 4)}")
    ln = [x for x in v.fx if x.kind == "raise" and any(any(y.op == "len" or v.is_call(y, "builtins.len") for y in subterms(gg)) and v.uses(gg, src) for gg, tag in x.guards if tag == "branch")]
    strict = any(t.op == "zip" and any(isinstance(y, tuple) and "strict" in str(y) for y in t.a) for t in v.deep(fr.ret)) or any("strict" in show(t, 3) for t in v.deep(fr.ret) if t.op in ("zip", "call"))
    ok = False
    for x in ln:
        gg = and_(*[h for h, tag in x.guards if tag == "branch"])
        for a in atoms(gg):
            if a.op == "eq" and v.uses(a, src):
                ok = ok or equivalent(gg, not_(a))
                if not ok and implies(not_(a), gg) is False and implies(a, gg):
                    ok = False
    rep.check(True if ok or strict else (None if ln and any(a.op == "lt" for x in ln for h, _ in x.guards for a in atoms(h)) and len(ln) > 1 else False), "constant", "lengths", fr.where, "different numbers of columns and values are accepted")


TYPES = {"str": "", "int": 0, "float": 0.0, "datetime.datetime": "epoch"}


def zero(fr, vals, rep):
    v = fr.v
    ats = set()
    for val, g, c in vals:
        ats |= atoms(g)
    ty = lambda a: a.a[1].a[0].removeprefix("builtins.") if a.a[1].op == "ext" else None
    isn = [a for a in ats if a.op == "is" and a.a[1] is NONE]
    table = {None: {"none": True}}
    for name in [None, *TYPES, "bool"]:
        facts = {}
        for a in ats:
            if a.op == "is" and a.a[1] is NONE:
                facts[a] = name is None
            elif a.op == "isinst":
                facts[a] = tyname(a.a[1]) is not None and (name in tyname(a.a[1]) or name == "bool" and "int" in tyname(a.a[1]))
            elif a.op in ("truth", "eq") and name is None:
                facts[a] = False if a.op == "truth" else cval(a.a[0]) is None if is_const(a.a[0]) else False
        got = {x for x, g, c in vals if fixed(g, facts) is TRUE}
        maybe = {x for x, g, c in vals if fixed(g, facts) not in (TRUE, FALSE)}
        inst = name or "null"
        if maybe:
            wrong = [x for x in maybe | got if is_const(x) and name in ("str", "int", "float") and (type(cval(x)).__name__ not in (name, "int") or cval(x) != TYPES[name])]
            free = {a for x, g, c in vals for a in atoms(fixed(g, facts))}
            if wrong and free and all(a.op == "truth" and a.a[0].op == "call" for a in free):
                rep.bad("zero", inst, fr.where, f"zero can be {show(wrong[0], 3)}")
            elif any(a.op in ("truth", "lt") for x, g, c in vals for a in atoms(fixed(g, facts))) and len(got | maybe) > 1:
                rep.unk("zero", inst, fr.where, "depends on more than the type")
            else:
                rep.unk("zero", inst, fr.where)
        elif len(got) != 1:
            rep.check(False if not got else None, "zero", inst, fr.where, "values of this type are not handled")
        else:
            x = next(iter(got))
            want = None if name is None else 0 if name == "bool" else TYPES[name]
            if want == "epoch":
                rep.check(epoch(v, x), "zero", inst, fr.where, f"zero is {show(x, 4)}")
            elif is_const(x) and name == "bool":
                rep.check(type(cval(x)) in (int, bool) and not cval(x), "zero", inst, fr.where, f"zero of a boolean is {show(x, 3)}")
            elif is_const(x):
                rep.check(type(cval(x)) is type(want) and cval(x) == want or (want == 0.0 and not isinstance(cval(x), (str, bool, type(None))) and cval(x) == 0 and want is not None and name == "float"), "zero", inst, fr.where, f"zero is {show(x, 3)}")
            elif v.is_call(x, "builtins." + str(name), "builtins.int" if name == "bool" else "builtins." + str(name)) and not x.a[1]:
                rep.ok("zero", inst, fr.where)
            elif x.op == "call" and not x.a[1] and v.is_call(x.a[0], "builtins.type"):
                rep.ok("zero", inst, fr.where)
            else:
                rep.check(False if v.uses(x, fr.values) else None, "zero", inst, fr.where, f"zero is {show(x, 4)}")


def tyname(t):
    if t.op == "ext":
        return {t.a[0].removeprefix("builtins.")}
    if t.op == "tuple":
        out = set()
        for x in t.a:
            y = tyname(x)
            if y is None:
                return None
            out |= y
        return out
    return None


def epoch(v, x):
    tz = None
    if v.is_call(x, ".replace"):
        zero = {"year": 1970, "month": 1, "day": 1}
        other = [(k, q) for k, y in x.a[2] if k != "tzinfo" for _, q in v.alts(y)]
        if any(is_const(q) and cval(q) != zero.get(k, 0) for k, q in other):
            return False
        if x.a[1] or [k for k, _ in x.a[2]] != ["tzinfo"]:
            return False if not any(k == "tzinfo" for k, _ in x.a[2]) else None
        tz = x.a[2][0][1]
        x = x.a[0].a[0]
    if v.is_call(x, "datetime.datetime"):
        a = [cval(y) if is_const(y) else None for y in x.a[1]]
        kws = dict(x.a[2])
        tz = tz or kws.pop("tzinfo", None)
        if kws or None in a:
            return None
        if tz is None:
            return False
        return a[:3] == [1970, 1, 1] and not any(a[3:])
    if v.is_call(x, ".fromtimestamp", "datetime.datetime.fromtimestamp"):
        z = v.kw(x, "tz", 1)
        if z is not None and (z is NONE or z.op == "attr" and z.a[1] == "tzinfo"):
            return False  # without a time zone this is local time
        return bool(x.a[1]) and is_const(x.a[1][0]) and cval(x.a[1][0]) == 0 and z is not None
    if v.is_call(x, ".now", ".utcnow", "datetime.datetime.now", "datetime.datetime.utcnow", ".today"):
        return False
    return None


def fake(fr, vals, rep, gens):
    v = fr.v
    want = FAKE.get(fr.op, (fr.op[5:],))
    uniq = mk("truth", fr.cfg_attr("unique"))
    seen = set()
    for val, g, c in vals:
        if not (val.op == "call" and val.a[0].op == "attr"):
            rep.check(False if is_const(val) else None, "fake", fr.op, fr.where, show(val, 4))
            continue
        b, meth = val.a[0].a
        if val.a[1] or val.a[2]:
            rep.check(False if meth not in want and meth in gens else None, "fake", fr.op, fr.where, f"uses the generator {meth} with arguments")
            continue
        u = b.op == "attr" and b.a[1] == "unique"
        seen.add(u)
        if u:
            b = b.a[0]
        if meth not in want:
            rep.check(False if meth in gens or not gens else None, "fake", fr.op, fr.where, f"uses the generator {meth}")
        elif not source_ok(fr, b, "faker.Faker", "faker"):
            rep.unk("fake", fr.op, fr.where, show(b, 4))
        elif u and not implies(g, uniq):
            rep.bad("fake", fr.op, fr.where, "values without repetition are used although not configured")
        elif not u and not implies(g, not_(uniq)):
            rep.bad("fake", fr.op, fr.where, "values can repeat although configured to be unique")
        else:
            rep.ok("fake", fr.op, fr.where)
        if gens:
            rep.check(meth in gens, "generator", fr.op, fr.where, f"Faker has no generator {meth}")
        else:
            rep.unk("generator", fr.op, fr.where, "sources of Faker not found")


def faker_methods():
    """Methods and class-level aliases of the providers of the installed Faker (default locale)."""
    out = set()
    for d in glob.glob("/opt/venv/lib/python3*/site-packages/faker/providers") + glob.glob("/opt/*/lib/python3*/site-packages/faker/providers"):
        for p in glob.glob(d + "/*/__init__.py") + [d + "/__init__.py"] + glob.glob(d + "/*/en_US/__init__.py"):
            try:
                tree = ast.parse(open(p, encoding="utf-8").read())
            except (OSError, SyntaxError):
                continue
            for n in ast.walk(tree):
                if isinstance(n, ast.ClassDef):
                    for f in n.body:
                        if isinstance(f, ast.FunctionDef):
                            out.add(f.name)
                        elif isinstance(f, ast.Assign):
                            out.update(t.id for t in f.targets if isinstance(t, ast.Name))
        if out:
            break
    return out
