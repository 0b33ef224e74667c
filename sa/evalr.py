"""Expression evaluation for the gated value-flow analysis."""

from __future__ import annotations

import ast

from .interp import *  # noqa
from .interp import Interp
from .terms import *  # noqa

_BIN = {
    ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
    ast.BitOr: "|", ast.BitAnd: "&", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>", ast.MatMult: "@",
}

MUTATORS_LIST = {"append", "extend", "insert", "remove", "pop", "sort", "reverse", "clear", "appendleft", "extendleft", "popleft"}
MUTATORS_SET = {"add", "update", "discard", "remove", "pop", "clear", "difference_update", "intersection_update"}
MUTATORS_DICT = {"update", "setdefault", "pop", "popitem", "clear"}
SENTINEL_DEFAULT = mk("nodefault")


class Eval(Interp):
    # ------------------------------------------------------------ strings

    def fstr(self, parts):
        out = []

        def add(p):
            if isinstance(p, str):
                if p:
                    if out and isinstance(out[-1], str):
                        out[-1] += p
                    else:
                        out.append(p)
            elif p.op == "const" and isinstance(cval(p), (str, int)) and not isinstance(cval(p), bool):
                add(str(cval(p)))
            elif p.op == "fstr":
                for q in p.a:
                    add(q)
            elif p.op == "call" and is_ext(p.a[0], "builtins.str") and len(p.a[1]) == 1:
                add(p.a[1][0])
            else:
                out.append(p)

        for p in parts:
            add(p)
        # rejoin x.split(sep, 1)
        i = 0
        while i + 2 < len(out):
            a, s, b = out[i : i + 3]
            if isinstance(s, str) and isinstance(a, T) and isinstance(b, T) and a.op == "item" and b.op == "item" and a.a[0] is b.a[0]:
                c = a.a[0]
                if is_const(a.a[1], 0) and is_const(b.a[1], 1) and c.op == "call" and c.a[0].op == "attr" and c.a[0].a[1] == "split" and c.a[1][:1] == (const(s),) and len(c.a[1]) == 2:
                    out[i : i + 3] = [c.a[0].a[0]]
                    continue
            i += 1
        if not out:
            return const("")
        if len(out) == 1 and isinstance(out[0], str):
            return const(out[0])
        if len(out) == 1 and self.type_of(out[0]) == ("str",):
            return out[0]
        return mk("fstr", *out)

    def to_str(self, v, node):
        if v.op == "obj" and self.objs[v].kind == "inst":
            k, m = self.find_attr(self.objs[v].cls, "__str__")
            if m is not None and m.op == "func":
                return self.call(mk("bound", m, v), [], [], node)
        elif v.op == "phi" and (v.a[1].op == "obj" or v.a[2].op == "obj"):
            return phi(v.a[0], self.to_str(v.a[1], node), self.to_str(v.a[2], node))
        elif v.op not in ("const", "fstr"):
            ty = self.type_of(v)
            if ty is not None and ty[0] == "cls":
                k, m = self.find_attr(ty[1], "__str__")
                if m is not None and m.op == "func":
                    return self.call(mk("bound", m, v), [], [], node)
        return v

    # ------------------------------------------------------------ operators

    def binop(self, op, a, b):
        if a.op == "const" and b.op == "const":
            try:
                x, y = cval(a), cval(b)
                r = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: x / y, "//": lambda: x // y,
                     "%": lambda: x % y, "**": lambda: x**y, "<<": lambda: x << y, ">>": lambda: x >> y, "|": lambda: x | y, "&": lambda: x & y, "^": lambda: x ^ y}[op]()
                if not isinstance(r, (str, int, float, bool, bytes)) or (isinstance(r, str) and len(r) > 4096):
                    raise ValueError
                return const(r)
            except Exception:
                pass
        if op == "+":
            la, lb = self.listy(a), self.listy(b)
            if la or lb:
                if a.op == "tuple" and b.op == "tuple":
                    return mk("tuple", *(a.a + b.a))
                o = self.new_obj("list")
                for x in (a, b):
                    if x.op == "tuple":
                        for e in x.a:
                            self.contrib(o, "extend" if e.op == "star" else "add", None, e.a[0] if e.op == "star" else e, None)
                    else:
                        self.contrib(o, "extend", None, x, None)
                return o
            ta, tb = self.type_of(a), self.type_of(b)
            if ("str",) in (ta, tb) or a.op == "fstr" or b.op == "fstr" or isinstance(cval(a) if a.op == "const" else None, str) or isinstance(cval(b) if b.op == "const" else None, str):
                return self.fstr([a, b])
        if op == "%" and (a.op == "const" and isinstance(cval(a), str)):
            args = list(b.a) if b.op == "tuple" else [b]
            return self.percent(cval(a), args)
        if op in ("|", "-", "&", "^") and (self.setty(a) or self.setty(b)):
            o = self.new_obj("set")
            if op == "|":
                self.contrib(o, "extend", None, a, None)
                self.contrib(o, "extend", None, b, None)
            else:
                self.contrib(o, "extend", None, a, None)
                self.contrib(o, {"-": "diff", "&": "inter", "^": "symdiff"}[op], None, b, None)
            return o
        if op == "|" and (self.dictty(a) or self.dictty(b)):
            o = self.new_obj("dict")
            self.contrib(o, "extend", None, a, None)
            self.contrib(o, "extend", None, b, None)
            return o
        if a.op == "phi" and b.op == "const" and op in "+-*":
            if a.a[1].op == "const" and a.a[2].op == "const":
                return phi(a.a[0], self.binop(op, a.a[1], b), self.binop(op, a.a[2], b))
        return mk("bin", op, a, b)

    def percent(self, fmt, args):
        parts, i, n = [], 0, 0
        buf = ""
        while i < len(fmt):
            if fmt[i] == "%" and i + 1 < len(fmt):
                if fmt[i + 1] == "%":
                    buf += "%"
                    i += 2
                    continue
                j = i + 1
                while j < len(fmt) and fmt[j] not in "sdrifxgeo":
                    j += 1
                parts.append(buf)
                buf = ""
                parts.append(args[n] if n < len(args) else mk("missing"))
                n += 1
                i = j + 1
                continue
            buf += fmt[i]
            i += 1
        parts.append(buf)
        return self.fstr(parts)

    def listy(self, t):
        if t.op == "tuple":
            return True
        if t.op == "obj":
            return self.objs[t].kind == "list"
        if t.op == "phi":
            return self.listy(t.a[1]) or self.listy(t.a[2])
        if t.op == "call" and is_ext(t.a[0], "builtins.list", "builtins.tuple", "builtins.sorted"):
            return True
        if t.op == "slice":
            return self.listy(t.a[0])
        ty = self.type_of(t)
        return ty is not None and ty[0] in ("list", "tuple")

    def setty(self, t):
        if t.op == "obj":
            return self.objs[t].kind == "set"
        if t.op == "view" and t.a[0] == "keys":
            return True
        if t.op == "phi":
            return self.setty(t.a[1]) or self.setty(t.a[2])
        ty = self.type_of(t)
        return ty is not None and ty[0] == "set"

    def dictty(self, t):
        if t.op == "obj":
            return self.objs[t].kind == "dict"
        if t.op == "phi":
            return self.dictty(t.a[1]) or self.dictty(t.a[2])
        ty = self.type_of(t)
        if ty is not None and ty[0] == "union":
            return any(x is not None and x[0] == "dict" for x in ty[1])
        return ty is not None and ty[0] == "dict"

    def compare(self, op, a, b, node):
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            return not_(self.eq(a, b))
        if isinstance(op, ast.Lt):
            return self.lt(a, b)
        if isinstance(op, ast.Gt):
            return self.lt(b, a)
        if isinstance(op, ast.LtE):
            return not_(self.lt(b, a)) if not (self.setty(a) or self.setty(b)) else mk("truth", mk("call", ext("set.issubset"), (a, b), ()))
        if isinstance(op, ast.GtE):
            return not_(self.lt(a, b)) if not (self.setty(a) or self.setty(b)) else mk("truth", mk("call", ext("set.issubset"), (b, a), ()))
        if isinstance(op, ast.In):
            return self.in_(a, b, node)
        if isinstance(op, ast.NotIn):
            return not_(self.in_(a, b, node))
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return not_(self.is_(a, b))
        return mk("truth", mk("unk", uid()))

    # ------------------------------------------------------------ attribute / item

    def plain(self, t):
        """A value made outside the repository (no repository behaviour to dispatch on)."""
        if t.op == "phi":
            return self.plain(t.a[1]) and self.plain(t.a[2])
        if t.op in ("sqlop", "alias"):
            return True
        if t.op == "call" and self.type_of(t) is None:
            f = t.a[0]
            return (f.op == "ext" and f.a[0].startswith("sqlalchemy")) or f.op == "attr"
        return False

    def getattr_(self, t, name, node):
        o = t.op
        if o == "phi":
            c = self.cond(t.a[0])
            if c is TRUE:
                return self.getattr_(t.a[1], name, node)
            if c is FALSE:
                return self.getattr_(t.a[2], name, node)
            if t.a[1] is NONE:
                return self.getattr_(t.a[2], name, node)
            if t.a[2] is NONE:
                return self.getattr_(t.a[1], name, node)
            if self.plain(t):
                return mk("attr", t, name)
            return phi(t.a[0], self.getattr_(t.a[1], name, node), self.getattr_(t.a[2], name, node))
        if o == "module":
            m = self.modules[t.a[0]]
            v = self.st.get((m.frame.id, name))
            if v is None and f"{t.a[0]}.{name}" in self.modules:
                return mk("module", f"{t.a[0]}.{name}")
            return v if v is not None else mk("unbound", name)
        if o == "ext":
            return ext(t.a[0] + "." + name)
        if o == "alias":
            return mk("attr", t, name)
        if o == "class":
            if name in ("__name__", "__qualname__"):
                v = self.st.get((t, name))
                return v if v is not None else const(self.classes[t].name)
            v = self.st.get((t, name))
            if v is not None:
                return v
            k, v = self.find_attr(t, name)
            if v is not None:
                if v.op == "func":
                    kind = self.func_kind(v)
                    if kind == "classmethod":
                        return mk("bound", v, t)
                    return v
                return v
            kf, f = self.field_info(t, name)
            if f is not None and f[1] is not None:
                return self.eval_in(f[1], self.classes[kf].frame)
            return mk("attr", t, name)
        if o == "super":
            cls, self_ = t.a
            c = self.objs[self_].cls if self_.op == "obj" else (self.type_of(self_) or (None, cls))[1]
            if self_.op == "class":
                c = self_
            k, v = self.find_attr(c, name, after=cls)
            if v is not None and v.op == "func":
                return mk("bound", v, self_)
            return mk("attr", t, name)
        if o == "obj":
            ob = self.objs[t]
            if ob.kind == "inst":
                v = self.st.get((t, name))
                if v is not None:
                    return v
                return self.class_getattr(t, ob.cls, name, node)
            return mk("attr", t, name)
        v = self.st.get((t, name))
        if v is not None:
            return v
        if o == "call" and name == "metadata" and is_ext(t.a[0], "sqlalchemy.Table", "sqlalchemy.schema.Table") and len(t.a[1]) > 1:
            return t.a[1][1]
        if o in ("bound", "func", "partial"):
            return mk("attr", t, name)
        ty = self.type_of(t)
        if ty is not None and ty[0] == "cls":
            c = ty[1]
            if name == "__class__":
                return mk("attr", t, name)
            kf, f = self.field_info(c, name)
            if f is not None:
                return mk("attr", t, name)
            k, v = self.find_attr(c, name)
            if v is not None and v.op == "func":
                kind = self.func_kind(v)
                if kind == "property":
                    return self.call(mk("bound", v, t), [], [], node)
                if kind == "static":
                    return v
                return mk("vattr", t, name)
            if v is not None:
                subs = [s for s in self.subclasses(c) if self.classes[s].attrs.get(name) is not None]
                if not subs:
                    return v
            return mk("attr", t, name)
        if ty is not None and ty[0] == "union":
            alts = [x[1] for x in ty[1] if x is not None and x[0] == "cls"]
            if alts and any(self.find_attr(c, name)[1] is not None and self.find_attr(c, name)[1].op == "func" for c in alts):
                return mk("vattr", t, name)
        return mk("attr", t, name)

    def class_getattr(self, t, c, name, node):
        k, v = self.find_attr(c, name)
        if v is not None:
            if v.op == "func":
                kind = self.func_kind(v)
                if kind == "static":
                    return v
                if kind == "classmethod":
                    return mk("bound", v, c)
                if kind == "property":
                    return self.call(mk("bound", v, t), [], [], node)
                return mk("bound", v, t)
            return v
        kf, f = self.field_info(c, name)
        if f is not None and f[1] is not None:
            return self.field_default(kf, f)
        if name == "__class__":
            return c
        return mk("attr", t, name)

    def field_default(self, kf, f):
        d = f[1]
        if d is None:
            return mk("missing")
        if isinstance(d, ast.Call):
            fn = self._try_pure(d.func, self.classes[kf].frame)
            if fn is not None and fn.op == "ext" and fn.a[0] in ("pydantic.Field", "dataclasses.field"):
                for kw in d.keywords:
                    if kw.arg == "default":
                        return self.eval_in(kw.value, self.classes[kf].frame)
                    if kw.arg == "default_factory":
                        return self.call(self.eval_in(kw.value, self.classes[kf].frame), [], [], d)
                if d.args and not (isinstance(d.args[0], ast.Constant) and d.args[0].value is Ellipsis):
                    return self.eval_in(d.args[0], self.classes[kf].frame)
                return mk("missing")
        return self.eval_in(d, self.classes[kf].frame)

    def field_alias(self, kf, f):
        """Names a value for this field can be given under."""
        d = f[1]
        cands = [d]
        if isinstance(f[0], ast.Subscript) and self._ann_head(f[0].value, self.classes[kf].frame) == "Annotated":
            sl = f[0].slice
            if isinstance(sl, ast.Tuple):
                cands.extend(sl.elts[1:])
        for d in cands:
            if isinstance(d, ast.Call):
                for kw in d.keywords:
                    if kw.arg in ("alias", "validation_alias") and isinstance(kw.value, ast.Constant):
                        return kw.value.value
        return None

    def eval_in(self, node, frame):
        old = self.frame
        self.frame = frame
        try:
            return self.eval(node)
        finally:
            self.frame = old

    def func_kind(self, f):
        for d in self.funcs[f].decorators:
            n = d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else None
            if n == "staticmethod":
                return "static"
            if n == "classmethod":
                return "classmethod"
            if n in ("property", "cached_property"):
                return "property"
        return "method"

    def setattr_(self, t, name, v, node):
        if t.op == "phi":
            for c, x in ((t.a[0], t.a[1]), (not_(t.a[0]), t.a[2])):
                if x is NONE or self.cond(c) is FALSE:
                    continue
                old = self.getattr_(x, name, node)
                self.push(c, "branch")
                self.setattr_(x, name, phi(c, v, old), node)
                self.guards.pop() if c is not TRUE else None
            return
        if t.op == "obj" and self.objs[t].kind == "inst":
            ob = self.objs[t]
            if name not in ob.fields_set:
                ob.fields_set.append(name)
            self.st[(t, name)] = v
            self.effect("setattr", mk("attr", t, name), [v], [], node)
            return
        self.st[(t, name)] = v
        self.effect("setattr", mk("attr", t, name), [v], [], node)

    def item(self, d, k, node=None):
        if d.op == "phi":
            c = self.cond(d.a[0])
            if c is TRUE:
                return self.item(d.a[1], k, node)
            if c is FALSE:
                return self.item(d.a[2], k, node)
            return phi(d.a[0], self.item(d.a[1], k, node), self.item(d.a[2], k, node))
        d = self.canon(d)
        if k.op == "phi" and k.a[1].op == "const" and k.a[2].op == "const":
            return phi(k.a[0], self.item(d, k.a[1], node), self.item(d, k.a[2], node))
        if d.op == "tuple" and is_const(k) and isinstance(cval(k), int) and not any(e.op == "star" for e in d.a):
            if -len(d.a) <= cval(k) < len(d.a):
                return d.a[cval(k)]
        if d.op == "const" and is_const(k):
            try:
                return const(cval(d)[cval(k)])
            except Exception:
                pass
        if d.op == "obj":
            ob = self.objs[d]
            if ob.kind == "inst":
                m = self.find_attr(ob.cls, "__getitem__")[1]
                if m is not None and m.op == "func":
                    return self.call(mk("bound", m, d), [k], [], node)
                return mk("item", d, k)
            if ob.kind == "dict":
                r, complete = self.dict_get(d, k)
                if complete:
                    return r if r is not None else mk("item", d, k)
                if r is not None:
                    return r
                return mk("item", d, k)
            if ob.kind == "list":
                if d not in self.open:
                    df = self.definite(d)
                    if df is not None and is_const(k) and isinstance(cval(k), int) and -len(df) <= cval(k) < len(df):
                        return df[cval(k)]
                    # last definite setitem with the same index
                    for c in reversed(ob.contribs):
                        if c.op == "setitem":
                            if c.key is k and not self.rel_guards(c) and not self.rel_loops(c):
                                return c.val
                            break
                if k.op == "idx":
                    b = self.single_loop(d)
                    if b is not None and k.a[0].op == "loop" and k.a[0].a[0] is b:
                        cs = [c for c in self.effective(ob.contribs) if c.op != "setitem"]
                        if len(cs) == len(ob.contribs) and cs and cs[0].op == "add" and self.rel_loops(cs[0]):
                            lt = self.rel_loops(cs[0])[0].term
                            return subst(cs[0].val, {lt: k.a[0]})
                    if b is not None and not any(c.op == "setitem" for c in ob.contribs):
                        return mk("at", d, k.a[0])
                return mk("item", d, k)
        if k.op == "idx":
            ty = self.type_of(d)
            if ty is None or ty[0] in ("list", "union"):
                return mk("at", d, k.a[0])
        if d.op == "call" and d.a[0].op == "attr" and d.a[0].a[1] == "vars":
            pass
        if d.op == "view" and d.a[0] == "values":
            return mk("item", d, k)
        if is_ext(d, "os.environ"):
            return mk("env", k)
        return mk("item", d, k)

    def dict_get(self, d, k):
        """(value or None, complete): look up a key among the contributions."""
        ob = self.objs[d]
        cs = self.effective(ob.contribs)
        if d in self.open:
            # only an unconditional write of this iteration is certain
            for c in reversed(cs):
                if c.op == "set" and c.key is k and not self.rel_guards(c) and not self.rel_loops(c) and c.seq > self.open[d]:
                    return c.val, True
                if c.key is not k:
                    break
            return None, False
        val = None
        complete = True
        conds = []
        for c in reversed(cs):
            if c.op == "extend":
                base = c.val
                if not self.rel_guards(c) and not self.rel_loops(c):
                    if base.op == "obj" and self.objs[base].kind == "dict":
                        v, comp = self.dict_get(base, k)
                        complete = complete and comp
                        if v is not None:
                            val = v
                            break
                        if comp:
                            continue
                    val = mk("item", base, k)
                    break
                complete = False
                break
            if c.op not in ("set", "default"):
                complete = False
                break
            rl = self.rel_loops(c)
            if rl:
                complete = False
                break
            e = self.eq(c.key, k)
            if e is FALSE:
                continue
            if e is not TRUE and not (c.key.op == "const" and k.op != "const"):
                complete = False
                break
            g = and_(e, *[x for x, _ in self.rel_guards(c)])
            g = self.cond(g)
            if c.op == "default":
                complete = False
                break
            if g is TRUE:
                val = c.val
                break
            conds.append((g, c.val))
        if not complete and not conds:
            return None, False
        for g, v in reversed(conds):
            val = v if val is None else phi(g, v, val)
        return val, complete

    def dict_getdefault(self, d, k, default, node):
        """d.get(k, default)"""
        if d.op == "phi":
            c = self.cond(d.a[0])
            if c is TRUE:
                return self.dict_getdefault(d.a[1], k, default, node)
            if c is FALSE:
                return self.dict_getdefault(d.a[2], k, default, node)
            return phi(d.a[0], self.dict_getdefault(d.a[1], k, default, node), self.dict_getdefault(d.a[2], k, default, node))
        c = self.in_(k, d, node)
        if c is TRUE:
            return self.item(d, k, node)
        if c is FALSE:
            return default
        return phi(c, self.item(d, k, node), default)

    def setitem(self, d, k, v, node):
        if d.op == "phi":
            for c, x in ((d.a[0], d.a[1]), (not_(d.a[0]), d.a[2])):
                if self.cond(c) is FALSE:
                    continue
                self.push(c, "branch")
                self.setitem(x, k, v, node)
                self.guards.pop()
            return
        if d.op == "obj" and self.objs[d].kind in ("dict", "list"):
            self.contrib(d, "set" if self.objs[d].kind == "dict" else "setitem", k, v, node)
            return
        self.effect("setitem", mk("attr", d, "__setitem__"), [k, v], [], node)

    # ------------------------------------------------------------ eval

    def eval(self, n):
        if self.st is None:
            return mk("unreachable")
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            return mk("unk", uid())
        return m(n)

    def e_Constant(self, n):
        if n.value is Ellipsis:
            return ext("builtins.Ellipsis")
        if isinstance(n.value, complex):
            return mk("unk", uid())
        return const(n.value)

    def e_Name(self, n):
        v = self.lookup(n.id)
        if v.op == "alias":
            m = self.modules[v.a[0]]
            return self.st.get((m.frame.id, v.a[1]), v)
        return v

    def e_Attribute(self, n):
        return self.getattr_(self.eval(n.value), n.attr, n)

    def e_Subscript(self, n):
        d = self.eval(n.value)
        if isinstance(n.slice, ast.Slice):
            lo = self.eval(n.slice.lower) if n.slice.lower else NONE
            hi = self.eval(n.slice.upper) if n.slice.upper else NONE
            st = self.eval(n.slice.step) if n.slice.step else NONE
            if d.op == "tuple" and all(x.op == "const" for x in (lo, hi, st)):
                return mk("tuple", *d.a[slice(cval(lo), cval(hi), cval(st))])
            if d.op == "const" and all(x.op == "const" for x in (lo, hi, st)):
                return const(cval(d)[slice(cval(lo), cval(hi), cval(st))])
            if lo is NONE and hi is NONE and st is NONE:
                return self.copy_list(d, n)
            return mk("slice", d, lo, hi, st)
        k = self.eval(n.slice)
        r = self.item(d, k, n)
        self.lookups.append((self.seq, d, k, r, n))
        return r

    def copy_list(self, d, node):
        o = self.new_obj("list", node=node)
        self.contrib(o, "extend", None, d, node)
        return o

    def e_Tuple(self, n):
        return mk("tuple", *self.elts(n.elts))

    def elts(self, elts):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.eval(e.value)
                d = self.definite(v) if v.op not in ("genexp", "gencall") else None
                if d is not None:
                    out.extend(d)
                else:
                    if v.op in ("genexp", "gencall"):
                        v = self.materialise(v, e)
                    out.append(mk("star", v))
            else:
                out.append(self.eval(e))
        return out

    def e_List(self, n):
        return self.new_list(self.elts(n.elts), n)

    def e_Set(self, n):
        return self.new_list(self.elts(n.elts), n, "set")

    def e_Dict(self, n):
        o = self.new_obj("dict", node=n)
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.contrib(o, "extend", None, self.eval(v), n)
            else:
                kt = self.eval(k)
                self.contrib(o, "set", kt, self.eval(v), v)
        return o

    def e_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value)
                if v.conversion == 114:
                    parts.append(mk("call", ext("builtins.repr"), (x,), ()))
                elif v.format_spec is not None:
                    parts.append(mk("call", ext("builtins.format"), (x, self.eval(v.format_spec)), ()))
                else:
                    parts.append(self.to_str(x, v))
        return self.fstr(parts)

    def e_FormattedValue(self, n):
        return self.eval(n.value)

    def e_BinOp(self, n):
        a = self.eval(n.left)
        b = self.eval(n.right)
        return self.binop(_BIN[type(n.op)], a, b)

    def e_UnaryOp(self, n):
        v = self.eval(n.operand)
        if isinstance(n.op, ast.Not):
            return not_(self.truth(v))
        if v.op == "const" and isinstance(cval(v), (int, float)):
            return const(-cval(v) if isinstance(n.op, ast.USub) else ~cval(v) if isinstance(n.op, ast.Invert) else cval(v))
        if isinstance(n.op, ast.USub):
            return mk("neg", v)
        if isinstance(n.op, ast.Invert):
            return mk("inv", v)
        return v

    def e_BoolOp(self, n):
        is_and = isinstance(n.op, ast.And)

        def go(i):
            v = self.eval(n.values[i])
            if i == len(n.values) - 1:
                return v
            c = self.truth(v)
            c = self.cond(c)
            if c is TRUE:
                return go(i + 1) if is_and else v
            if c is FALSE:
                return v if is_and else go(i + 1)
            if is_and:
                r = self.branch_expr(c, lambda: go(i + 1))
                if is_bool(v) and is_bool(r):
                    return and_(v, r)
                return phi(c, r, FALSE if is_bool(v) else v)
            r = self.branch_expr(not_(c), lambda: go(i + 1))
            if is_bool(v) and is_bool(r):
                return or_(v, r)
            return phi(c, TRUE if is_bool(v) else v, r)

        return go(0)

    def branch_expr(self, c, f):
        """Evaluate f under guard c, merging side effects on the state."""
        pre = dict(self.st)
        n = len(self.guards)
        self.push(c, "branch")
        r = f()
        del self.guards[n:]
        if self.st is None:
            self.st = pre
            return mk("unreachable")
        self.st = self.merge(c, self.st, pre)
        return r

    def e_IfExp(self, n):
        c = self.truth(self.eval(n.test))
        c = self.cond(c)
        if c is TRUE:
            return self.eval(n.body)
        if c is FALSE:
            return self.eval(n.orelse)
        return self.fork(c, lambda: self.eval(n.body), lambda: self.eval(n.orelse))

    def fork(self, c, fa, fb):
        """Evaluate both alternatives under their guards and join."""
        pre = self.st
        n = len(self.guards)
        self.st = dict(pre)
        self.push(c, "branch")
        a = fa()
        ga = [g for g in self.guards[n + 1 :]]
        sa_ = self.st
        del self.guards[n:]
        self.st = dict(pre)
        self.push(not_(c), "branch")
        b = fb()
        sb = self.st
        del self.guards[n:]
        if sa_ is None and sb is None:
            self.st = None
            return mk("unreachable")
        if sa_ is None:
            self.st = sb
            self.push(not_(c), self.last_exit or "raise")
            return b
        if sb is None:
            self.st = sa_
            self.push(c, self.last_exit or "raise")
            return a
        self.st = self.merge(c, sa_, sb)
        return phi(c, a, b)

    def merge(self, c, a, b):
        if a is b:
            return a
        out = dict(b)
        for k, v in a.items():
            w = b.get(k)
            if w is v:
                continue
            if w is None:
                out[k] = v
            else:
                out[k] = phi(c, v, w)
        return out

    def e_Compare(self, n):
        left = self.eval(n.left)
        cs = []
        for op, r in zip(n.ops, n.comparators):
            right = self.eval(r)
            ov = self.sql_compare(op, left, right)
            if ov is not None:
                return ov
            cs.append(self.compare(op, left, right, n))
            left = right
        return self.cond(and_(*cs))

    # comparison of SQL expressions builds an expression
    SQLOP = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.Gt: ">", ast.LtE: "<=", ast.GtE: ">="}

    def sql_compare(self, op, a, b):
        o = self.SQLOP.get(type(op))
        if o is None:
            return None
        if self.is_sql(a):
            return mk("sqlop", o, a, b)
        if self.is_sql(b):
            flip = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(o, o)
            return mk("sqlop", flip, b, a)
        return None

    def is_sql(self, t):
        """Does the term denote a SQL column expression?"""
        for _ in range(12):
            if t.op == "phi":
                return self.is_sql(t.a[1]) or self.is_sql(t.a[2])
            if t.op == "sqlop":
                return True
            if t.op == "obj" and self.objs[t].kind == "inst":
                return any(b.op == "ext" and b.a[0].startswith("sqlalchemy.") for b in self.mro(self.objs[t].cls))
            if t.op == "item" and t.a[0].op == "attr" and t.a[0].a[1] in ("c", "columns", "selected_columns"):
                return True
            if t.op == "attr" and t.a[0].op == "attr" and t.a[0].a[1] == "c":
                return True
            if t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0].startswith("sqlalchemy.func."):
                return True
            if t.op == "call" and t.a[0].op == "attr":
                t = t.a[0].a[0]
                if not self.is_sql(t):
                    return False
                return True
            if t.op == "bin" and (self.is_sql(t.a[1]) or self.is_sql(t.a[2])):
                return True
            return False
        return False

    def e_Lambda(self, n):
        f = self.new_func(n, "<lambda>")
        return f

    def new_func(self, node, name, cls=None):
        fn = Func(node, self.frame, name, cls)
        t = mk("func", uid())
        self.funcs[t] = fn
        fn.term = t
        fr = self.frame
        quals = [name]
        while fr is not None and fr.kind != "module":
            fr.escapes = True
            if fr.kind in ("func", "class"):
                quals.append(fr.name)
            fr = fr.parent
        fn.qual = (fr.name if fr else "") + "." + ".".join(reversed(quals))
        a = node.args
        fn.defaults = [self.eval(d) for d in a.defaults]
        fn.kw_defaults = [self.eval(d) if d is not None else None for d in a.kw_defaults]
        return t

    def e_NamedExpr(self, n):
        v = self.eval(n.value)
        fr = self.frame
        while fr.kind == "comp":
            fr = fr.parent
        old, self.frame = self.frame, fr
        self.assign_name(n.target.id, v)
        self.frame = old
        return v

    def e_TermNode(self, n):
        return n.term

    def e_Starred(self, n):
        return mk("star", self.eval(n.value))

    def e_Await(self, n):
        return self.eval(n.value)

    # comprehensions

    def run_comp(self, gens, i, frame, leaf):
        old = self.frame
        if i == 0:
            fr = Frame("comp", "<comp>", frame, frame.module)
            fr.fn = frame.fn
        else:
            fr = frame
        self.frame = fr
        try:
            if i == len(gens):
                leaf()
                return
            g = gens[i]
            it = self.eval(g.iter) if i else self.eval_in(g.iter, frame)

            def body(x):
                self.frame = fr
                self.assign_target(g.target, x, g)
                n = len(self.guards)
                dead = False
                for c in g.ifs:
                    cc = self.cond(self.truth(self.eval(c)))
                    if cc is FALSE:
                        dead = True
                        break
                    self.push(cc, "branch")
                if not dead:
                    if i + 1 == len(gens):
                        leaf()
                    else:
                        self.run_comp(gens, i + 1, fr, leaf)
                del self.guards[n:]

            self.for_each(it, body, g, pre_names=())
        finally:
            self.frame = old

    def e_ListComp(self, n):
        o = self.new_obj("list", node=n)
        self.run_comp(n.generators, 0, self.frame, lambda: self.contrib(o, "add", None, self.eval(n.elt), n))
        return o

    def e_SetComp(self, n):
        o = self.new_obj("set", node=n)
        self.run_comp(n.generators, 0, self.frame, lambda: self.contrib(o, "add", None, self.eval(n.elt), n))
        return o

    def e_DictComp(self, n):
        o = self.new_obj("dict", node=n)

        def leaf():
            k = self.eval(n.key)
            self.contrib(o, "set", k, self.eval(n.value), n)

        self.run_comp(n.generators, 0, self.frame, leaf)
        return o

    def e_GeneratorExp(self, n):
        t = mk("genexp", uid())
        self.gens[t] = {"node": n, "frame": self.frame, "loops": tuple(self.loops), "module": self.frame.module, "cache": None}
        fr = self.frame
        while fr is not None and fr.kind != "module":
            fr.escapes = True
            fr = fr.parent
        return t

    # yields

    def e_Yield(self, n):
        v = self.eval(n.value) if n.value else NONE
        fr = self.frame
        while fr.kind == "comp":
            fr = fr.parent
        if fr.yielder is None:
            self.effect("yield", mk("yield"), [v], [], n)
            return mk("unk", uid())
        old = self.frame
        ctl, self.loop_ctl = self.loop_ctl, list(fr.yield_ctl)
        stk, self.stack = self.stack, list(fr.yield_stack)
        self.frame = fr.yield_frame
        fr.yielder(v)
        self.frame = old
        self.loop_ctl = ctl
        self.stack = stk
        return NONE

    def e_YieldFrom(self, n):
        v = self.eval(n.value)
        fr = self.frame

        def body(x):
            self.frame = fr
            y = fr
            while y.kind == "comp":
                y = y.parent
            if y.yielder is None:
                self.effect("yield", mk("yield"), [x], [], n)
                return
            old = self.frame
            ctl, self.loop_ctl = self.loop_ctl, list(y.yield_ctl)
            stk, self.stack = self.stack, list(y.yield_stack)
            self.frame = y.yield_frame
            y.yielder(x)
            self.frame = old
            self.loop_ctl = ctl
            self.stack = stk

        self.for_each(v, body, n, pre_names=())
        return NONE

    def run_gen(self, t, each):
        """Run the body of generator t, calling each(value) at every yield."""
        info = self.gens[t]
        frame, ctl, stk = self.frame, self.loop_ctl, self.stack

        def setup(fr):
            fr.yielder = each
            fr.yield_frame = frame
            fr.yield_ctl = ctl
            fr.yield_stack = stk

        self.inline(info["func"], info["args"], info["kw"], info["node"], setup=setup)

    # ------------------------------------------------------------ calls

    def e_Call(self, n):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            fr = self.frame
            while fr.kind == "comp":
                fr = fr.parent
            if fr.fn is not None and fr.fn.cls is not None:
                names = fr.fn.node.args.args
                return mk("super", fr.fn.cls, self.st.get((fr.id, names[0].arg), NONE))
        f = self.eval(n.func)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value)
                d = self.definite(v) if v.op not in ("genexp", "gencall") else None
                if d is not None:
                    args.extend(d)
                else:
                    args.append(mk("star", v))
            else:
                args.append(self.eval(a))
        kw = []
        for k in n.keywords:
            v = self.eval(k.value)
            if k.arg is None:
                kw.extend(self.expand_kw(v))
            else:
                kw.append((k.arg, v))
        if self.st is None:
            return mk("unreachable")
        r = self.call(f, args, kw, n)
        if r.op in ("zip", "enum") or r.op == "call" and is_ext(r.a[0], "builtins.iter", "builtins.map", "builtins.filter", "builtins.reversed", "itertools.chain", "itertools.chain.from_iterable"):
            cur = tuple(l.term for l in self.loops)
            if len(self.made.get(r, ())) <= len(cur):
                self.made[r] = cur
        return r

    def expand_kw(self, v):
        if v.op == "obj" and self.objs[v].kind == "dict":
            out = []
            cs = self.effective(self.objs[v].contribs)
            for c in cs:
                g = and_(*[x for x, _ in self.rel_guards(c)])
                if c.op == "set" and c.key.op == "const" and isinstance(cval(c.key), str) and not self.rel_loops(c):
                    nm = cval(c.key)
                    prev = [x for x in out if x[0] == nm]
                    if g is TRUE:
                        out = [x for x in out if x[0] != nm]
                        out.append((nm, c.val))
                    else:
                        pv = prev[0][1] if prev else mk("missing")
                        out = [x for x in out if x[0] != nm]
                        out.append((nm, phi(g, c.val, pv)))
                elif c.op == "extend" and g is TRUE:
                    for k2, v2 in self.expand_kw(c.val):
                        out = [x for x in out if x[0] != k2]
                        out.append((k2, v2))
                else:
                    return [("**", v)]
            return out
        return [("**", v)]

    def call(self, f, args, kw, node):
        if self.st is None:
            return mk("unreachable")
        args, kw = list(args), list(kw)
        o = f.op
        if o == "phi":
            c = self.cond(f.a[0])
            if c is TRUE:
                return self.call(f.a[1], args, kw, node)
            if c is FALSE:
                return self.call(f.a[2], args, kw, node)
            return self.fork(c, lambda: self.call(f.a[1], args, kw, node), lambda: self.call(f.a[2], args, kw, node))
        if self.hook is not None:
            r = self.hook(f, args, kw, node)
            if r is not None:
                return r
        if o == "func":
            return self.call_func(f, args, kw, node)
        if o == "bound":
            return self.call_func(f.a[0], [f.a[1]] + args, kw, node)
        if o == "partial":
            return self.call(f.a[0], list(f.a[1]) + args, list(f.a[2]) + kw, node)
        if o == "class":
            return self.construct(f, args, kw, node)
        if o == "vattr":
            return self.vcall(f.a[0], f.a[1], args, kw, node)
        if o == "ext":
            return self.call_ext(f, args, kw, node)
        if o == "attr":
            return self.call_method(f, args, kw, node)
        if o == "getter":
            kind, keys = f.a
            vals = [self.item(args[0], const(k), node) if kind == "item" else self.getattr_(args[0], k, node) for k in keys]
            return vals[0] if len(vals) == 1 else mk("tuple", *vals)
        if o == "obj" and self.objs[f].kind == "inst":
            m = self.find_attr(self.objs[f].cls, "__call__")[1]
            if m is not None and m.op == "func":
                return self.call_func(m, [f] + args, kw, node)
        return self.opaque(f, args, kw, node, "call")

    def flat_args(self, args, node):
        out = []
        for a in args:
            if a.op == "star":
                v = a.a[0]
                if v.op in ("genexp", "gencall"):
                    v = self.materialise(v, node)
                d = self.definite(v)
                if d is not None:
                    out.extend(d)
                else:
                    out.append(mk("star", v))
            elif a.op in ("genexp",):
                out.append(self.materialise(a, node))
            else:
                out.append(a)
        return out

    def opaque(self, f, args, kw, node, kind="call", ty=None):
        args = self.flat_args(args, node)
        kw = [(k, self.materialise(v, node) if v.op == "genexp" else v) for k, v in kw]
        kt = tuple(sorted(((k, v) for k, v in kw), key=lambda x: x[0]))
        name = f.a[0] if f.op == "ext" else f.a[1] if f.op == "attr" else None
        alloc = (f.op == "ext" and name in ALLOCATORS) or (f.op == "attr" and name in ALLOC_METHODS) or f.op not in ("ext", "attr", "func", "bound", "vattr", "call", "class")
        if alloc:
            r = mk("call", f, tuple(self.canon(a) for a in args), tuple((k, self.canon(v)) for k, v in kt), uid())
        else:
            r = mk("call", f, tuple(self.canon(a) for a in args), tuple((k, self.canon(v)) for k, v in kt))
        if ty is not None:
            self.types[r] = ty
        self.effect(kind, f, args, kt, node, r)
        return r

    def is_rec(self, fn):
        return sum(1 for g in self.stack if g is fn) > self.max_rec - 1 + (1 if fn.is_gen else 0)

    def call_func(self, f, args, kw, node):
        fn = self.funcs[f]
        if fn.is_gen:
            t = mk("gencall", uid())
            self.gens[t] = {
                "func": fn, "args": args, "kw": kw, "node": node, "loops": tuple(self.loops), "module": self.frame.module,
                "ctx": any(self.dec_name(d) == "contextmanager" for d in fn.decorators), "cache": None,
            }
            return t
        if fn.qual in self.no_inline or any(fn.qual.endswith("." + s) for s in self.no_inline):
            ty = self.ann(fn.node.returns, fn.frame) if not isinstance(fn.node, ast.Lambda) else None
            return self.opaque(f, args, kw, node, "repo", ty)
        key = (fn, args[0]) if fn.cls is not None and args and args[0].op == "obj" else None
        nested = key is not None and key not in self.active and sum(1 for g in self.stack if g is fn) < self.max_rec + 2
        if (self.is_rec(fn) and not nested) or len(self.stack) > 60:
            ty = self.ann(fn.node.returns, fn.frame) if not isinstance(fn.node, ast.Lambda) else None
            return self.opaque(f, args, kw, node, "rec", ty)
        if key is None or key in self.active:
            return self.inline(fn, args, kw, node)
        self.active.add(key)
        try:
            return self.inline(fn, args, kw, node)
        finally:
            self.active.discard(key)

    @staticmethod
    def dec_name(d):
        if isinstance(d, ast.Call):
            d = d.func
        return d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else None

    def inline(self, fn, args, kw, node, setup=None):
        self.analysed.add(fn.qual)
        fr = Frame("func", fn.name, fn.frame, fn.module)
        fr.fn = fn
        fr.escapes = False
        fr.yield_frame = None
        self.bind_params(fr, fn, args, kw, node)
        if setup:
            setup(fr)
        old = self.frame
        old_ctl, self.loop_ctl = self.loop_ctl, []
        self.frame = fr
        self.stack = self.stack + [fn]
        self.callnodes.append(node)
        base = len(self.guards)
        lbase = len(self.loops)
        fr.guard_base = base
        fr.loop_base = lbase
        try:
            if isinstance(fn.node, ast.Lambda):
                v = self.eval(fn.node.body)
                if self.st is not None:
                    fr.returns.append((TRUE, v, self.st))
                    self.st = None
            else:
                self.collect_scope(fr, fn.node)
                self.exec_block(fn.node.body)
                if self.st is not None:
                    fr.returns.append((TRUE, NONE, self.st))
                    self.st = None
        finally:
            self.frame = old
            self.stack = self.stack[:-1]
            self.callnodes.pop()
            self.loop_ctl = old_ctl
        raised, early = [], TRUE
        for g, tag in self.guards[base:]:
            if tag == "raise":
                raised.append((or_(not_(early), g), tag))
            elif tag == "return":
                early = and_(early, g)
        del self.guards[base:]
        del self.loops[lbase:]
        rs = fr.returns
        if not rs:
            return mk("unreachable")
        c, val, st = rs[-1]
        for c2, v2, s2 in reversed(rs[:-1]):
            st = self.merge(c2, s2, st)
            val = phi(c2, v2, val)
        self.st = st if len(rs) > 1 else st
        # normal return implies that no raise happened
        for g, tag in raised:
            if g is not TRUE and g not in [x for x, _ in self.guards]:
                self.guards.append((g, "raise"))
        if not fr.escapes:
            for k in [k for k in self.st if k[0] == fr.id]:
                del self.st[k]
        return val

    def collect_scope(self, fr, node):
        stack = list(node.body)
        while stack:
            n = stack.pop()
            if isinstance(n, ast.Global):
                fr.globals.update(n.names)
            elif isinstance(n, ast.Nonlocal):
                fr.nonlocals.update(n.names)
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            stack.extend(ast.iter_child_nodes(n))

    def bind_params(self, fr, fn, args, kw, node):
        a = fn.node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        kwonly = [p.arg for p in a.kwonlyargs]
        vals = {}
        args = list(args)
        star_src = None
        pos = []
        for x in args:
            if x.op == "star":
                v = x.a[0]
                if v.op in ("genexp", "gencall"):
                    v = self.materialise(v, node)
                d = self.definite(v)
                if d is not None:
                    pos.extend(d)
                    continue
                ty = self.type_of(v)
                if ty is not None and ty[0] == "tuple":
                    pos.extend(self.item(v, const(i)) for i in range(len(ty[1])))
                    continue
                star_src = v
                if a.vararg is None:
                    # spread over the remaining parameters
                    need = len(params) - len(pos) - (len(args) - args.index(x) - 1)
                    pos.extend(self.item(v, const(i)) for i in range(max(need, 0)))
                else:
                    pos.append(x)
            else:
                pos.append(x)
        for p, v in zip(params, pos):
            vals[p] = v
        rest = pos[len(params):]
        if a.vararg is not None:
            vals[a.vararg.arg] = mk("tuple", *rest)
        extra = []
        for k, v in kw:
            if k == "**":
                for p in params + kwonly:
                    if p not in vals and p not in dict((x, y) for x, y in kw):
                        vals[p] = mk("item", v, const(p))
                if a.kwarg is not None:
                    extra.append((k, v))
                continue
            if k in params or k in kwonly:
                vals[k] = v
            else:
                extra.append((k, v))
        nd = len(fn.defaults)
        for p, d in zip(params[len(params) - nd :], fn.defaults):
            if p not in vals:
                vals[p] = d
            elif vals[p].op == "phi" and vals[p].a[2].op == "missing":
                vals[p] = phi(vals[p].a[0], vals[p].a[1], d)
        for p, d in zip(kwonly, fn.kw_defaults):
            if p not in vals and d is not None:
                vals[p] = d
            elif p in vals and d is not None and vals[p].op == "phi" and vals[p].a[2].op == "missing":
                vals[p] = phi(vals[p].a[0], vals[p].a[1], d)
        if a.kwarg is not None:
            o = self.new_obj("dict", node=node)
            for k, v in extra:
                if k == "**":
                    self.contrib(o, "extend", None, v, node)
                else:
                    self.contrib(o, "set", const(k), v, node)
            vals[a.kwarg.arg] = o
        anns = {p.arg: p.annotation for p in a.posonlyargs + a.args + a.kwonlyargs}
        for p in params + kwonly:
            v = vals.get(p)
            if v is None:
                v = mk("missing")
            # learn types of opaque values from the annotations
            if anns.get(p) is not None and v.op in ("item", "at", "call", "attr", "sym", "key", "fin", "mu") and self.type_of(v) is None:
                ty = self.ann(anns[p], fn.frame)
                if ty is not None and ty[0] in ("cls", "list", "set", "dict", "tuple", "str", "union") and v not in self.types:
                    if not (ty[0] == "list" and v.op == "call"):
                        self.types[v] = ty
            self.st[(fr.id, p)] = v
        for p in ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else []):
            self.st[(fr.id, p)] = vals[p]

    def vcall(self, t, name, args, kw, node):
        """Dispatch a method call on an unknown object."""
        ty = self.type_of(t)
        alts = []
        if ty is not None and ty[0] == "cls":
            cands = [ty[1]] + self.subclasses(ty[1])
        elif ty is not None and ty[0] == "union":
            cands = []
            for x in ty[1]:
                if x is not None and x[0] == "cls":
                    for c in [x[1]] + self.subclasses(x[1]):
                        if c not in cands:
                            cands.append(c)
        else:
            return self.opaque(mk("attr", t, name), args, kw, node, "call")
        cands = [c for c in cands if not self.is_abstract(c)]
        groups = {}
        for c in cands:
            if self.cond(mk("isinst", t, c)) is FALSE:
                continue
            m = self.find_attr(c, name)[1]
            groups.setdefault(m, []).append(c)
        if any(m is None or m.op != "func" for m in groups):
            groups = {m: cs for m, cs in groups.items() if m is not None and m.op == "func"}
        if not groups:
            m = None
            if ty[0] == "cls":
                m = self.find_attr(ty[1], name)[1]
            if m is not None and m.op == "func":
                fn = self.funcs[m]
                rt = None if isinstance(fn.node, ast.Lambda) else self.ann(fn.node.returns, fn.frame)
                return self.opaque(mk("attr", t, name), args, kw, node, "vcall", rt)
            return self.opaque(mk("attr", t, name), args, kw, node, "vcall")
        first = next(iter(groups))
        fn0 = self.funcs[first]
        noinl = any(self.funcs[m].qual in self.no_inline or any(self.funcs[m].qual.endswith("." + s) for s in self.no_inline) for m in groups)
        if len(groups) > 12 or noinl or any(self.is_rec(self.funcs[m]) for m in groups):
            rt = None if isinstance(fn0.node, ast.Lambda) else self.ann(fn0.node.returns, fn0.frame)
            base = None
            if ty[0] == "cls":
                m = self.find_attr(ty[1], name)[1]
                if m is not None and m.op == "func":
                    rt = self.ann(self.funcs[m].node.returns, self.funcs[m].frame)
            return self.opaque(mk("attr", t, name), args, kw, node, "vcall", rt)
        items = list(groups.items())
        if len(items) == 1:
            return self.call_func(items[0][0], [t] + args, kw, node)

        def go(i):
            m, cs = items[i]
            if i == len(items) - 1:
                return self.call_func(m, [t] + args, kw, node)
            c = self.cond(or_(*[mk("isinst", t, k) for k in cs]))
            if c is TRUE:
                return self.call_func(m, [t] + args, kw, node)
            if c is FALSE:
                return go(i + 1)
            return self.fork(c, lambda: self.call_func(m, [t] + args, kw, node), lambda: go(i + 1))

        return go(0)

    # construction of repository classes

    def construct(self, c, args, kw, node):
        ci = self.classes[c]
        o = self.new_obj("inst", c, node)
        ob = self.objs[o]
        self.effect("new", c, args, kw, node, o)
        init = self.find_attr(c, "__init__")[1]
        if init is not None and init.op == "func":
            self.call_func(init, [o] + args, kw, node)
            return o
        fields = self.all_fields(c)
        is_dc = any(k.op == "class" and self.classes[k].dataclass for k in self.mro(c))
        if is_dc or self.is_pydantic(c):
            names = list(fields)
            for n, v in zip(names, args):
                self.st[(o, n)] = v
                ob.fields_set.append(n)
            alias = {}
            if self.is_pydantic(c):
                for n, (k, f) in fields.items():
                    al = self.field_alias(k, f)
                    if al:
                        alias[al] = n
            for k, v in kw:
                if k == "**":
                    ob.fields_set.append("**")
                    self.st[(o, "**")] = v
                    continue
                n = alias.get(k, k)
                if v.op == "phi" and v.a[2].op == "missing" and n in fields:
                    kf, f = fields[n]
                    v = phi(v.a[0], v.a[1], self.field_default(kf, f))
                self.st[(o, n)] = v
                ob.fields_set.append(n)
                # type of field values
                if n in fields and v.op in ("item", "at", "call", "attr", "sym") and self.type_of(v) is None:
                    ty = self.ann(fields[n][1][0], self.classes[fields[n][0]].frame)
                    if ty is not None and ty[0] in ("cls",):
                        self.types[v] = ty
            for n, (k, f) in fields.items():
                if (o, n) not in self.st and f[1] is not None:
                    self.st[(o, n)] = self.field_default(k, f)
            post = self.find_attr(c, "__post_init__")[1]
            if post is not None and post.op == "func":
                self.call_func(post, [o], [], node)
            return o
        ob.fields_set.append("*args")
        self.st[(o, "*args")] = mk("tuple", *self.flat_args(args, node))
        return o
