"""Decision tables: the value of an extracted expression for each combination
of its inputs.

The inputs are configuration settings (given or not) and environment variables
(set or not).  The expression is the one the analysis extracted; nothing of the
analysed package is run.
"""

from __future__ import annotations

import ast
import math
import operator

from .terms import *  # noqa


ARITH = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "//": operator.floordiv, "%": operator.mod}
NUMERIC = {"builtins.round": round, "builtins.abs": abs, "builtins.min": min, "builtins.max": max, "builtins.float": float, "math.floor": math.floor, "math.ceil": math.ceil, "math.trunc": math.trunc}


class Undecided(Exception):
    pass


class Missing:
    pass


MISSING = Missing()


class Rec:
    """A configuration section: what is given, and defaults from its class."""

    def __init__(self, cls, given=None):
        self.cls, self.given = cls, given or {}

    def __bool__(self):
        return True


class Opq:
    """A value only known by the expression that makes it."""

    def __init__(self, what, parts=()):
        self.what, self.parts = what, parts

    def __eq__(self, o):
        return isinstance(o, Opq) and (self.what, self.parts) == (o.what, o.parts)

    def __hash__(self):
        return hash((self.what, self.parts))

    def __repr__(self):
        return f"{self.what}{self.parts}"


class Table:
    def __init__(self, view, roots, env=None, otherenv=lambda n: None):
        """roots: {term: value}; env: {name: value}."""
        self.v, self.e = view, view.e
        self.roots, self.env, self.otherenv = roots, env or {}, otherenv
        self.memo = {}
        self.files, self.probed = True, False  # whether files exist, and whether that was asked

    def ev(self, t):
        r = self.memo.get(t, self.memo)
        if r is not self.memo:
            if isinstance(r, Undecided):
                raise r
            return r
        self.memo[t] = Undecided(t)  # depends on itself
        try:
            r = self._ev(t)
        except Undecided as exc:
            self.memo[t] = exc
            raise
        self.memo[t] = r
        return r

    def true(self, t):
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        if t.op == "not":
            return not self.true(t.a[0])
        if t.op in ("and", "or"):
            und = None
            for x in t.a:
                try:
                    if self.true(x) == (t.op == "or"):
                        return t.op == "or"
                except Undecided as exc:
                    und = exc
            if und:
                raise und
            return t.op == "and"
        r = self.ev(t)
        if isinstance(r, Opq):
            raise Undecided(t)
        return bool(r)

    def lookup(self, n):
        return self.env[n] if n in self.env else self.otherenv(n)

    def attr(self, r, n):
        if isinstance(r, Rec):
            if n in r.given:
                return r.given[n]
            if n in ("model_fields_set", "__pydantic_fields_set__"):
                return set(r.given)
            return self.default(r, n)
        raise Undecided(n)

    def field(self, c, n):
        e = self.e
        for k in [c] + list(e.mro(c)):
            if k in e.classes and n in e.classes[k].fields:
                return k, e.classes[k].fields[n]
        raise Undecided(n)

    def section(self, c, n):
        """Class of a field that is a section of its own, or None."""
        k, f = self.field(c, n)
        ty = self.e.ann(f[0], self.e.classes[k].frame)
        if ty is not None and ty[0] == "union":
            ty = next((x for x in ty[1] if x is not None and x[0] == "cls"), None)
        return ty[1] if ty is not None and ty[0] == "cls" and self.e.is_pydantic(ty[1]) else None

    def default(self, r, n):
        k, f = self.field(r.cls, n)
        d = f[1]
        if isinstance(d, ast.Call) and (getattr(d.func, "id", None) == "Field" or getattr(d.func, "attr", None) == "Field"):
            x = [q.value for q in d.keywords if q.arg == "default"] or [q.value for q in d.keywords if q.arg == "default_factory"] or d.args[:1]
            fac = not any(q.arg == "default" for q in d.keywords) and any(q.arg == "default_factory" for q in d.keywords)
            d = ast.Call(func=x[0], args=[], keywords=[]) if fac else x[0] if x else None
        if isinstance(d, ast.Call) and not d.args and not d.keywords:
            if isinstance(d.func, ast.Name) and d.func.id in ("dict", "list", "set"):
                return {"dict": {}, "list": [], "set": set()}[d.func.id]
            c = self.section(r.cls, n)
            if c is not None:
                return Rec(c)
        try:
            return ast.literal_eval(d)
        except (ValueError, TypeError, SyntaxError):
            raise Undecided(n)

    def names(self, r):
        e = self.e
        out = []
        for c in reversed(list(e.mro(r.cls))):
            if c in e.classes:
                out += [n for n in e.classes[c].fields if n not in out]
        return out

    def dump(self, r, unset, nodefaults=False):
        if not isinstance(r, Rec):
            return r
        out = {}
        for k in r.given if unset else self.names(r):
            x = self.attr(r, k)
            if nodefaults and (k not in r.given or self.dump(x, False) == self.dump(self.default(r, k), False)):
                continue
            out[k] = self.dump(x, unset, nodefaults)
        return out

    def obj(self, t):
        o = self.e.objs[t]
        if o.kind not in ("dict", "list", "set"):
            raise Undecided(t)
        out = {} if o.kind == "dict" else []
        for c in o.contribs:
            if not all(self.true(g) for g, _ in c.guards):
                continue
            if c.loops:
                raise Undecided(t)
            if o.kind == "dict" and c.op in ("set", "setitem"):
                out[self.ev(c.key)] = self.ev(c.val)
            elif o.kind == "dict" and c.op == "default":
                out.setdefault(self.ev(c.key), self.ev(c.val))
            elif o.kind == "dict" and c.op in ("del", "pop") and c.key is not None:
                out.pop(self.ev(c.key), None)
            elif o.kind == "dict" and c.op in ("update", "extend"):
                x = self.ev(c.val)
                if not isinstance(x, dict):
                    raise Undecided(t)
                out.update(x)
            elif c.op == "clear":
                out.clear()
            elif o.kind != "dict" and c.op == "add":
                out.append(self.ev(c.val))
            elif o.kind != "dict" and c.op == "extend":
                x = self.ev(c.val)
                if not isinstance(x, (list, set, tuple)):
                    raise Undecided(t)
                out += list(x)
            else:
                raise Undecided(t)
        return out if o.kind != "set" else set(out)

    def _ev(self, t):
        if t in self.roots:
            return self.roots[t]
        o = t.op
        if o == "const":
            return cval(t)
        if o == "tuple":
            return tuple(self.ev(x) for x in t.a)
        if o == "phi":
            return self.ev(t.a[1] if self.true(t.a[0]) else t.a[2])
        if o in ("and", "or", "not"):
            return self.true(t)
        if o == "truth":
            r = self.ev(t.a[0])
            if isinstance(r, Opq):
                raise Undecided(t)
            return bool(r)
        if o == "missing":
            return MISSING
        if o == "env":
            r = self.lookup(self.ev(t.a[0]))
            if r is None:
                raise Undecided(t)
            return r
        if o == "in":
            if is_ext(t.a[1], "os.environ"):
                return self.lookup(self.ev(t.a[0])) is not None
            c = self.ev(t.a[1])
            if isinstance(c, (dict, set, list, tuple, str)):
                try:
                    return self.ev(t.a[0]) in c
                except TypeError:
                    raise Undecided(t)
            raise Undecided(t)
        if o in ("eq", "is"):
            a, b = self.ev(t.a[0]), self.ev(t.a[1])
            if isinstance(a, Opq) != isinstance(b, Opq) and not (a is None or b is None):
                raise Undecided(t)
            return (a is None and b is None) or (a is not None and b is not None and a == b and (o == "eq" or type(a) is type(b)))
        if o == "lt":
            a, b = self.ev(t.a[0]), self.ev(t.a[1])
            if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                return a < b
            raise Undecided(t)
        if o == "attr":
            r = self.ev(t.a[0])
            if isinstance(r, Opq) and r.what == "url":
                return self.url(r, t.a[1])
            return self.attr(r, t.a[1])
        if o == "item":
            c, k = self.ev(t.a[0]), self.ev(t.a[1])
            try:
                return c[k]
            except (KeyError, IndexError, TypeError):
                raise Undecided(t)
        if o == "slice":
            c, (lo, hi, st) = self.ev(t.a[0]), [None if q is None or q is NONE else self.ev(q) for q in t.a[1:4]]
            if isinstance(c, (list, tuple, str)):
                return c[lo:hi:st]
            raise Undecided(t)
        if o == "fstr":
            return "".join(p if isinstance(p, str) else self.text(self.ev(p)) for p in t.a)
        if o == "obj":
            if self.e.objs[t].kind == "inst":
                return Rec(self.e.objs[t].cls, {k: self.ev(x) for k, x in self.v.inst.get(t, {}).items()})
            return self.obj(t)
        if o == "bin":
            a, b = self.ev(t.a[1]), self.ev(t.a[2])
            if t.a[0] == "|" and isinstance(a, dict) and isinstance(b, dict):
                return {**a, **b}
            if t.a[0] == "+" and type(a) is type(b) and isinstance(a, (str, int, list, tuple)):
                return a + b
            if type(a) in (int, float) and type(b) in (int, float) and t.a[0] in ARITH and abs(a) < 1e15 and abs(b) < 1e15:
                try:
                    return ARITH[t.a[0]](a, b)
                except (ZeroDivisionError, OverflowError):
                    raise Undecided(t)
            raise Undecided(t)
        if o == "call":
            return self.call(t)
        raise Undecided(t)

    def text(self, x):
        if isinstance(x, (str, int)) or x is None:
            return str(x)
        raise Undecided(x)

    def url(self, r, n):
        d = dict(r.parts)
        if n in ("drivername", "host", "port", "username", "password", "database", "query"):
            return d.get(n)
        raise Undecided(n)

    def call(self, t):
        f, args, kw = t.a[:3]
        if f.op == "ext":
            n = f.a[0]
            if n.endswith("URL.create"):
                d = {k: self.ev(x) for k, x in kw}
                for k, x in zip(("drivername", "username", "password", "host", "port", "database", "query"), args):
                    d[k] = self.ev(x)
                d = {k: x for k, x in d.items() if x is not MISSING}
                d = {k: tuple(sorted(x.items())) if isinstance(x, dict) else x for k, x in d.items()}
                return Opq("url", tuple(sorted(d.items())))
            if n in ("os.path.exists", "os.path.isfile", "os.path.lexists", "os.access"):
                self.ev(args[0])
                self.probed = True
                return self.files
            a = [self.ev(x) for x in args]
            if n in ("pathlib.Path", "pathlib.PurePath", "os.fspath", "os.path.expanduser", "os.path.abspath") and len(a) == 1:
                return Opq(n, (a[0],))
            if n == "builtins.int" and len(a) == 1:
                try:
                    return int(a[0])
                except (TypeError, ValueError):
                    raise Undecided(t)
            if n in NUMERIC and a and not kw and all(type(x) in (int, float) for x in a):
                try:
                    return NUMERIC[n](*a)
                except (TypeError, ValueError, OverflowError):
                    raise Undecided(t)
            if n == "builtins.len" and len(a) == 1 and isinstance(a[0], (list, tuple, dict, set, str)):
                return len(a[0])
            if n == "builtins.bool" and len(a) == 1 and not isinstance(a[0], Opq):
                return bool(a[0])
            if n == "builtins.str" and len(a) == 1:
                return self.text(a[0])
            if n in ("builtins.dict", "builtins.list", "builtins.set", "builtins.tuple") and len(a) <= 1 and not kw:
                import builtins

                return getattr(builtins, n.split(".")[1])(*a)
            raise Undecided(t)
        if f.op == "attr":
            m = f.a[1]
            r = self.ev(f.a[0])
            a = [self.ev(x) for x in args]
            k = {q: self.ev(x) for q, x in kw}
            if isinstance(r, Opq) and r.what.startswith("pathlib.") and m in ("exists", "is_file"):
                self.probed = True
                return self.files
            if isinstance(r, Opq) and r.what == "url":
                drv = dict(r.parts).get("drivername")
                if m == "get_backend_name" and isinstance(drv, str):
                    return drv.split("+")[0]
                if m == "get_driver_name" and isinstance(drv, str):
                    return drv.split("+")[-1]
                raise Undecided(t)
            if isinstance(r, Rec) and m in ("model_dump", "dict"):
                if set(k) - {"exclude_unset", "exclude_none", "exclude_defaults"}:
                    raise Undecided(t)
                d = self.dump(r, k.get("exclude_unset", False), k.get("exclude_defaults", False))
                return {p: x for p, x in d.items() if x is not None} if k.get("exclude_none") else d
            if isinstance(r, dict) and m == "get":
                return r.get(*a)
            if isinstance(r, str) and m in ("lower", "upper", "strip", "split", "startswith", "endswith", "removeprefix", "removesuffix", "replace", "partition", "rpartition", "rsplit") and not k:
                return getattr(r, m)(*a)
            if isinstance(r, dict) and m in ("keys", "values", "items", "copy"):
                return dict(r) if m == "copy" else list(getattr(r, m)())
        raise Undecided(t)
