"""Statements, external-call models and loops of the value-flow analysis."""

from __future__ import annotations

import ast

from .evalr import *  # noqa
from .evalr import Eval, MUTATORS_DICT, MUTATORS_LIST, MUTATORS_SET
from .interp import *  # noqa
from .interp import _EXC_BASES
from .terms import *  # noqa


class Engine(Eval):
    def __init__(self, root, package="subsetter"):
        self.open = {}
        super().__init__(root, package)
        self.snapshot_base()

    # ------------------------------------------------------------ external calls

    def call_ext(self, f, args, kw, node):
        n = f.a[0]
        s = n[9:] if n.startswith("builtins.") else n
        kwd = dict(kw)
        h = getattr(self, "x_" + s.replace(".", "_"), None)
        if h is not None:
            r = h(args, kwd, node)
            if r is not None:
                return r
        if n in PASS_THROUGH_EXT and args:
            return args[0]
        if n in TERMINATORS:
            self.opaque(f, args, kw, node, "call")
            self.exit_raise(None, node, "exit")
            return mk("unreachable")
        if n in CONTAINER_CTORS and not (n == "collections.Counter" and args):
            return self.container(CONTAINER_CTORS[n], n, args, kw, node)
        # register callbacks
        return self.opaque(f, args, kw, node, "call")

    def container(self, kind, n, args, kw, node):
        if n == "collections.defaultdict":
            o = self.new_obj("dict", node=node)
            self.st[(o, "default_factory")] = args[0] if args else NONE
            args = args[1:]
        elif kind == "tuple":
            if not args:
                return mk("tuple")
            a = args[0]
            if a.op in ("genexp", "gencall"):
                a = self.materialise(a, node)
            d = self.definite(a)
            if d is not None and a not in self.open:
                return mk("tuple", *d)
            if a.op == "obj":
                return self.copy_list(a, node)
            if self.is_set_like(a):
                return mk("call", ext("builtins.tuple"), (a,), ())
            ty = self.type_of(a)
            if a.op not in ("view", "zip", "enum", "range") and (ty is None or ty[0] in ("list", "tuple", "str")):
                return a  # an immutable copy denotes the same sequence
            return mk("call", ext("builtins.tuple"), (a,), ())
        else:
            o = self.new_obj(kind, node=node)
        if args:
            a = args[0]
            if kind == "dict":
                if a.op in ("genexp", "gencall", "zip") or (a.op == "obj" and self.objs[a].kind in ("list", "set")) or a.op == "enum" or a.op == "tuple":
                    if a.op == "zip" and len(a.a) == 2:
                        ka, va = self.canon(a.a[0]), a.a[1]
                        if self.single_loop(ka) is None or True:
                            pass
                    for p in self.pieces(a, node):
                        k, v = self.item(p.elem, const(0)), self.item(p.elem, const(1))
                        self.under(p, lambda k=k, v=v: self.contrib(o, "set", k, v, node))
                else:
                    self.contrib(o, "extend", None, a, node)
            else:
                if a.op in ("genexp", "gencall"):
                    self.consume(a, node)
                    for p in self.pieces(a, node):
                        self.under(p, lambda p=p: self.contrib(o, "add", None, p.elem, node))
                elif a.op == "tuple":
                    for p in self.pieces(a, node):
                        self.under(p, lambda p=p: self.contrib(o, "add", None, p.elem, node))
                elif a.op in ("zip", "enum") or (a.op == "call" and is_ext(a.a[0], "builtins.map", "builtins.filter", "itertools.chain")):
                    for p in self.pieces(a, node):
                        self.under(p, lambda p=p: self.contrib(o, "add", None, p.elem, node))
                else:
                    self.contrib(o, "extend", None, a, node)
        for k, v in kw:
            if kind == "dict":
                if k == "**":
                    self.contrib(o, "extend", None, v, node)
                else:
                    self.contrib(o, "set", const(k), v, node)
        return o

    def x_len(self, a, k, node):
        v = self.canon(a[0])
        if v.op == "tuple" and not any(e.op == "star" for e in v.a):
            return const(len(v.a))
        if v.op == "const" and isinstance(cval(v), str):
            return const(len(cval(v)))
        if v.op == "obj":
            ob = self.objs[v]
            if ob.kind == "list" and v not in self.open:
                d = self.definite(v)
                if d is not None:
                    return const(len(d))
        return mk("call", ext("builtins.len"), (v,), ())

    def x_range(self, a, k, node):
        if len(a) == 1:
            return mk("range", const(0), a[0], const(1))
        if len(a) == 2:
            return mk("range", a[0], a[1], const(1))
        return mk("range", *a[:3])

    def x_enumerate(self, a, k, node):
        return mk("enum", a[0], a[1] if len(a) > 1 else k.get("start", const(0)))

    def x_zip(self, a, k, node):
        if any(x.op == "star" for x in a):
            return None
        a = [self.materialise(x, node) if x.op in ("genexp", "gencall") else x for x in a]
        return mk("zip", *a)

    def lazy(self, node, seq, names, elt, test=None):
        """A generator expression over terms, as a lazy builtin makes one."""
        t = mk("genexp", uid())

        def name(n):
            return ast.Name(id=n, ctx=ast.Load())

        target = ast.Name(id=names[0], ctx=ast.Store()) if len(names) == 1 else ast.Tuple(elts=[ast.Name(id=n, ctx=ast.Store()) for n in names], ctx=ast.Store())
        gen = ast.comprehension(target=target, iter=TermNode(seq), ifs=[test(name)] if test else [], is_async=0)
        n = ast.GeneratorExp(elt=elt(name), generators=[gen])
        for y in ast.walk(n):
            ast.copy_location(y, node)
            y.parent_node = node
        gen.lineno, gen.col_offset = node.lineno, node.col_offset
        self.gens[t] = {"node": n, "frame": self.frame, "loops": tuple(self.loops), "module": self.frame.module, "cache": None}
        return t

    def x_map(self, a, k, node):
        if len(a) < 2 or k or any(x.op == "star" for x in a) or not isinstance(node, ast.AST) or not hasattr(node, "lineno"):
            return None
        names = [f"$x{i}" for i in range(len(a) - 1)]
        seq = a[1] if len(a) == 2 else self.x_zip(a[1:], k, node)
        return self.lazy(node, seq, names, lambda name: ast.Call(func=TermNode(a[0]), args=[name(n) for n in names], keywords=[]))

    def x_filter(self, a, k, node):
        if len(a) != 2 or k or any(x.op == "star" for x in a) or not isinstance(node, ast.AST) or not hasattr(node, "lineno"):
            return None

        def test(name):
            return name("$x0") if a[0] is NONE else ast.Call(func=TermNode(a[0]), args=[name("$x0")], keywords=[])

        return self.lazy(node, a[1], ["$x0"], lambda name: name("$x0"), test)

    def x_reversed(self, a, k, node):
        return mk("call", ext("builtins.reversed"), (self.canon(a[0]),), ())

    def x_sorted(self, a, k, node):
        v = a[0]
        if v.op in ("genexp", "gencall"):
            v = self.materialise(v, node)
        return mk("call", ext("builtins.sorted"), (self.canon(v),), tuple(sorted(k.items())))

    def x_bool(self, a, k, node):
        return self.truth(a[0]) if a else FALSE

    def x_str(self, a, k, node):
        if not a:
            return const("")
        v = self.to_str(a[0], node)
        if v.op in ("const", "fstr") or self.type_of(v) == ("str",):
            return self.fstr([v])
        r = self.opaque(ext("builtins.str"), [v], [], node)
        return r

    def x_isinstance(self, a, k, node):
        return self.isinst(a[0], a[1])

    def isinst(self, v, c):
        if c.op == "tuple":
            return or_(*[self.isinst(v, x) for x in c.a])
        if v.op == "phi":
            return or_(and_(v.a[0], self.isinst(v.a[1], c)), and_(not_(v.a[0]), self.isinst(v.a[2], c)))
        if v.op == "obj" and self.objs[v].kind == "inst":
            return TRUE if c in self.mro(self.objs[v].cls) else (FALSE if c.op == "class" or c.a[0].startswith("builtins.") else self.cond(mk("isinst", v, c)))
        ty = self.type_of(v)
        if ty is not None:
            if ty[0] == "union":
                ms = [self._ty_match(x, c) for x in ty[1]]
                if all(m is True for m in ms):
                    return TRUE
                if all(m is False for m in ms):
                    return FALSE
            else:
                m = self._ty_match(ty, c)
                if m is True:
                    return TRUE
                if m is False:
                    return FALSE
        if v.op == "const" and c.op == "ext" and c.a[0].startswith("builtins."):
            import builtins

            k = getattr(builtins, c.a[0][9:], None)
            if isinstance(k, type):
                return TRUE if isinstance(cval(v), k) else FALSE
        # negative facts: disjoint classes
        r = mk("isinst", v, c)
        if c.op == "class":
            for g in self.fact_set():
                if g.op == "isinst" and g.a[0] is v and g.a[1].op == "class" and g.a[1] is not c:
                    if c in self.mro(g.a[1]):
                        return TRUE
                    if g.a[1] not in self.mro(c):
                        return FALSE
        return self.cond(r)

    def x_getattr(self, a, k, node):
        nm = a[1]
        if nm.op == "const":
            v = self.getattr_(a[0], cval(nm), node)
            if len(a) > 2 and v.op == "attr" and v.a[0] is a[0]:
                return phi(mk("truth", mk("call", ext("builtins.hasattr"), (a[0], nm), ())), v, a[2])
            return v
        if nm.op == "phi":
            return phi(nm.a[0], self.x_getattr([a[0], nm.a[1]] + a[2:], k, node), self.x_getattr([a[0], nm.a[2]] + a[2:], k, node))
        return mk("call", ext("builtins.getattr"), tuple(a), ())

    def x_setattr(self, a, k, node):
        if a[1].op == "const":
            self.setattr_(a[0], cval(a[1]), a[2], node)
            return NONE
        return None

    def x_any(self, a, k, node):
        return self.quant(a[0], node, False)

    def x_all(self, a, k, node):
        return self.quant(a[0], node, True)

    def quant(self, it, node, neg):
        conds = []

        def body(x):
            c = self.truth(x)
            if neg:
                c = not_(c)
            conds.append((c, len(self.loops), len(self.guards), [l.term for l in self.loops], [g for g, _ in self.guards]))

        nl, ng = len(self.loops), len(self.guards)
        self.for_each(it, body, node, pre_names=(), once=True)
        out = []
        for c, _, _, ls, gs in conds:
            g = and_(*gs[ng:], c)
            for l in reversed(ls[nl:]):
                g = self.mk_exists(l, g)
            out.append(g)
        r = or_(*out)
        return not_(r) if neg else r

    def x_super(self, a, k, node):
        if len(a) == 2:
            return mk("super", a[0], a[1])
        return None

    def x_type(self, a, k, node):
        if len(a) == 1 and a[0].op == "obj" and self.objs[a[0]].kind == "inst":
            return self.objs[a[0]].cls
        return None

    def x_min(self, a, k, node):
        return None

    def x_next(self, a, k, node):
        v = a[0]
        if v.op in ("genexp", "gencall"):
            ps = self.pieces(v, node)
            out = a[1] if len(a) > 1 else mk("stopiter")
            for p in reversed(ps):
                g = and_(*[x for x, _ in p.guards])
                val = p.elem
                for l in reversed(p.loops):
                    val = mk("sel", l.term, g, val)
                    g = self.mk_exists(l.term, g)
                out = phi(g, val, out)
            return out
        return None

    def x_iter(self, a, k, node):
        if len(a) == 1:
            return a[0] if a[0].op in ("genexp", "gencall") else mk("call", ext("builtins.iter"), tuple(a), ())

    def x_repr(self, a, k, node):
        return mk("call", ext("builtins.repr"), (a[0],), ())

    def x_functools_partial(self, a, k, node):
        return mk("partial", a[0], tuple(a[1:]), tuple(sorted(k.items())))

    def x_functools_reduce(self, a, k, node):
        fn, it = a[0], a[1]
        box = [a[2] if len(a) > 2 else None]
        key = (self.frame.id, f"<reduce{uid()}>")
        if box[0] is None:
            d = self.definite(it)
            if d:
                acc = d[0]
                for x in d[1:]:
                    acc = self.call(fn, [acc, x], [], node)
                return acc
            box[0] = mk("first", it)
        self.st[key] = box[0]

        def body(x):
            self.st[key] = self.call(fn, [self.st[key], x], [], node)

        self.for_each(it, body, node, pre_names=(key,))
        return self.st.pop(key)

    def x_functools_wraps(self, a, k, node):
        return ext("identity")

    def x_functools_lru_cache(self, a, k, node):
        return a[0] if a and a[0].op == "func" else ext("identity")

    x_functools_cache = x_functools_lru_cache

    def x_identity(self, a, k, node):
        return a[0]

    def x_dataclasses_dataclass(self, a, k, node):
        return a[0] if a else ext("identity")

    def x_dataclasses_replace(self, a, k, node):
        v = a[0]
        if v.op == "obj" and self.objs[v].kind == "inst":
            o = self.new_obj("inst", self.objs[v].cls, node)
            for (x, n), val in list(self.st.items()):
                if x is v:
                    self.st[(o, n)] = val
                    self.objs[o].fields_set.append(n)
            for n, val in k.items():
                self.st[(o, n)] = val
            return o
        return None

    def x_operator_itemgetter(self, a, k, node):
        if all(x.op == "const" for x in a):
            return mk("getter", "item", tuple(cval(x) for x in a))

    def x_operator_attrgetter(self, a, k, node):
        if all(x.op == "const" for x in a):
            return mk("getter", "attr", tuple(cval(x) for x in a))

    def _operator(sym):  # noqa
        def f(self, a, k, node):
            op = {"eq": ast.Eq, "ne": ast.NotEq, "lt": ast.Lt, "gt": ast.Gt, "le": ast.LtE, "ge": ast.GtE, "is_": ast.Is, "is_not": ast.IsNot}[sym]()
            r = self.sql_compare(op, a[0], a[1])
            return r if r is not None else self.compare(op, a[0], a[1], node)

        return f

    x_operator_eq, x_operator_ne, x_operator_lt, x_operator_gt = map(_operator, ("eq", "ne", "lt", "gt"))
    x_operator_le, x_operator_ge, x_operator_is_, x_operator_is_not = map(_operator, ("le", "ge", "is_", "is_not"))

    def x_operator_contains(self, a, k, node):
        return self.in_(a[1], a[0], node)

    def x_operator_not_(self, a, k, node):
        return not_(self.truth(a[0]))

    def x_operator_add(self, a, k, node):
        return self.binop("+", a[0], a[1])

    def x_operator_mul(self, a, k, node):
        return self.binop("*", a[0], a[1])

    def x_operator_sub(self, a, k, node):
        return self.binop("-", a[0], a[1])

    def x_contextlib_nullcontext(self, a, k, node):
        return mk("call", ext("contextlib.nullcontext"), tuple(a), ())

    def x_os_getenv(self, a, k, node):
        d = a[1] if len(a) > 1 else k.get("default", NONE)
        v = mk("env", a[0])
        self.types.setdefault(v, ("str",))
        self.effect("call", ext("os.getenv"), a, [], node, v)
        return phi(mk("in", a[0], ext("os.environ")), v, d)

    def x_os_environ_get(self, a, k, node):
        return self.x_os_getenv(a, k, node)

    def x_typing_cast(self, a, k, node):
        return a[1]

    def x_copy_copy(self, a, k, node):
        if a[0].op == "obj" and self.objs[a[0]].kind in ("list", "set", "dict"):
            o = self.new_obj(self.objs[a[0]].kind, node=node)
            self.contrib(o, "extend", None, a[0], node)
            return o
        return a[0]

    def x_itertools_islice(self, a, k, node):
        if len(a) == 2:
            return mk("slice", a[0], NONE, a[1], NONE)
        return mk("slice", a[0], a[1], a[2], a[3] if len(a) > 3 else NONE)

    def x_builtins_format(self, a, k, node):
        return None

    # ------------------------------------------------------------ methods

    def call_method(self, f, args, kw, node):
        base, name = f.a
        kwd = dict(kw)
        base = base if base.op == "obj" else self.canon(base)
        if base.op == "phi":
            c = self.cond(base.a[0])
            if c is TRUE:
                return self.call(self.getattr_(base.a[1], name, node), args, kw, node)
            if c is FALSE:
                return self.call(self.getattr_(base.a[2], name, node), args, kw, node)
        if base.op == "class":
            return self.class_method_ext(base, name, args, kw, node)
        if base.op == "super":
            self.effect("call", f, self.flat_args(args, node), kw, node)
            if name == "__init__":
                return NONE
            return self.opaque(f, args, kw, node)
        if name in ("__getitem__", "__contains__") and len(args) == 1 and not (base.op == "obj" and self.objs[base].kind == "inst"):
            return self.item(base, args[0], node) if name == "__getitem__" else self.in_(args[0], base, node)
        if name in ("items", "keys", "values") and not args:
            if not self.listy(base) and not (base.op == "obj" and self.objs[base].kind == "inst"):
                if base.op != "call" or self.dictty(base) or not (base.a[0].op == "attr" and base.a[0].a[1] in ("execute",)):
                    if self.type_of(base) is None or self.dictty(base):
                        if name != "keys" or self.dictty(base):
                            return mk("view", name, base)
        if base.op == "obj" and self.objs[base].kind != "inst":
            r = self.container_method(base, name, args, kwd, node)
            if r is not None:
                return r
            return self.opaque(f, args, kw, node)
        if base.op == "const" and isinstance(cval(base), str) or base.op == "fstr" or self.type_of(base) == ("str",):
            r = self.str_method(base, name, args, kwd, node)
            if r is not None:
                return r
        if self.is_env(base) and name == "get":
            return self.x_os_getenv(args, kwd, node)
        if name == "get" and args and self.dictty(base):
            d = args[1] if len(args) > 1 else kwd.get("default", NONE)
            return self.dict_getdefault(base, args[0], d, node)
        if name in ("copy",) and (self.dictty(base) or self.listy(base) or self.setty(base)):
            o = self.new_obj("dict" if self.dictty(base) else "list" if self.listy(base) else "set", node=node)
            self.contrib(o, "extend", None, base, node)
            return o
        if name in ("union", "difference", "intersection") and self.setty(base):
            o = self.new_obj("set", node=node)
            self.contrib(o, "extend", None, base, node)
            for a in args:
                self.contrib(o, {"union": "extend", "difference": "diff", "intersection": "inter"}[name], None, a, node)
            return o
        if name == "issubset" and self.setty(base):
            return mk("truth", mk("call", ext("set.issubset"), (base, args[0]), ()))
        if name == "issuperset" and self.setty(base):
            return mk("truth", mk("call", ext("set.issubset"), (args[0], base), ()))
        if name in ("__enter__",):
            return base
        if base.op == "phi" and not (base.a[1] is NONE or base.a[2] is NONE):
            pass
        return self.opaque(f, args, kw, node)

    @staticmethod
    def is_env(t):
        return is_ext(t, "os.environ")

    def class_method_ext(self, c, name, args, kw, node):
        r = None
        if name in ("model_validate", "parse_obj", "model_validate_json", "model_construct"):
            ty = ("cls", c)
            return self.opaque(mk("attr", c, name), args, kw, node, "call", ty)
        return self.opaque(mk("attr", c, name), args, kw, node)

    def str_method(self, base, name, args, kw, node):
        if name == "join" and len(args) == 1 and base.op == "const":
            a = args[0]
            if a.op in ("genexp", "gencall"):
                a = self.materialise(a, node)
            d = self.definite(a)
            if d is None and self.type_of(a) is not None and self.type_of(a)[0] == "tuple":
                d = [self.item(a, const(i)) for i in range(len(self.type_of(a)[1]))]
            if d is not None and len(d) <= 12:
                parts = []
                for i, x in enumerate(d):
                    if i:
                        parts.append(cval(base))
                    parts.append(x)
                return self.fstr(parts)
            return mk("call", mk("attr", base, "join"), (self.canon(a),), ())
        if name == "format" and base.op == "const":
            import string

            try:
                parts, n = [], 0
                for lit, fld, spec, conv in string.Formatter().parse(cval(base)):
                    parts.append(lit)
                    if fld is None:
                        continue
                    if fld == "":
                        parts.append(self.to_str(args[n], node))
                        n += 1
                    elif fld.isdigit():
                        parts.append(self.to_str(args[int(fld)], node))
                    elif fld in kw:
                        parts.append(self.to_str(kw[fld], node))
                    else:
                        return None
                return self.fstr(parts)
            except Exception:
                return None
        if name in ("lower", "upper", "strip", "title", "lstrip", "rstrip") and base.op == "const" and not args:
            return const(getattr(cval(base), name)())
        if name in ("startswith", "endswith") and len(args) == 1:
            if base.op == "const" and args[0].op == "const":
                try:
                    return TRUE if getattr(cval(base), name)(cval(args[0])) else FALSE
                except TypeError:
                    return None
            return mk("truth", mk("call", mk("attr", base, name), tuple(args), ()))
        if name in ("replace",) and base.op == "const" and all(a.op == "const" for a in args) and len(args) == 2:
            return const(cval(base).replace(cval(args[0]), cval(args[1])))
        if name == "split" and base.op == "const" and all(a.op == "const" for a in args):
            return self.new_list([const(x) for x in cval(base).split(*[cval(a) for a in args])])
        if name == "partition" and len(args) == 1:
            sp = mk("call", mk("attr", base, "split"), (args[0], const(1)), ())
            return mk("tuple", mk("item", sp, const(0)), args[0], mk("item", sp, const(1)))
        if name in ("split", "replace", "isalnum", "isdigit", "isidentifier", "encode", "find", "count", "index", "rsplit", "lower", "upper", "strip", "title"):
            if name == "split" and kw.get("maxsplit") is not None:
                args = list(args) + [kw.pop("maxsplit")]
            r = mk("call", mk("attr", base, name), tuple(args), tuple(sorted(kw.items())))
            self.effect("pure", mk("attr", base, name), args, [], node, r)
            return r
        return None

    def container_method(self, o, name, args, kw, node):
        ob = self.objs[o]
        k = ob.kind
        if k == "list":
            if name == "append":
                self.contrib(o, "add", None, args[0], node)
                return NONE
            if name == "appendleft":
                self.contrib(o, "insert", const(0), args[0], node)
                return NONE
            if name in ("extend", "extendleft"):
                self.extend(o, args[0], node)
                return NONE
            if name == "insert":
                self.contrib(o, "insert", args[0], args[1], node)
                return NONE
            if name == "clear":
                self.contrib(o, "clear", None, None, node)
                return NONE
            if name in ("pop", "popleft"):
                df = self.definite(o) if o not in self.open else None
                self.contrib(o, "del", args[0] if args else NONE, None, node)
                return mk("item", o, args[0] if args else const(-1))
            if name == "remove":
                self.contrib(o, "del", None, args[0], node)
                return NONE
            if name in ("sort", "reverse"):
                rv = kw.get("reverse")
                self.contrib(o, "del", const(name), rv if rv is not None and is_const(rv, True) else None, node).by = kw.get("key")
                self.effect("listop", mk("attr", o, name), args, list(kw.items()), node)
                return NONE
            if name == "copy":
                return self.copy_list(o, node)
            if name in ("index", "count"):
                return mk("call", mk("attr", self.canon(o), name), tuple(args), ())
        if k == "set":
            if name == "add":
                self.contrib(o, "add", None, args[0], node)
                return NONE
            if name == "update":
                for a in args:
                    self.extend(o, a, node)
                return NONE
            if name in ("discard", "remove"):
                self.contrib(o, "diff", None, mk("tuple", args[0]), node)
                return NONE
            if name == "difference_update":
                for a in args:
                    self.contrib(o, "diff", None, a, node)
                return NONE
            if name == "intersection_update":
                for a in args:
                    self.contrib(o, "inter", None, a, node)
                return NONE
            if name in ("union", "difference", "intersection"):
                n = self.new_obj("set", node=node)
                self.contrib(n, "extend", None, o, node)
                for a in args:
                    self.contrib(n, {"union": "extend", "difference": "diff", "intersection": "inter"}[name], None, a, node)
                return n
            if name == "copy":
                n = self.new_obj("set", node=node)
                self.contrib(n, "extend", None, o, node)
                return n
            if name == "clear":
                self.contrib(o, "clear", None, None, node)
                return NONE
            if name == "issubset":
                return mk("truth", mk("call", ext("set.issubset"), (o, args[0]), ()))
            if name == "issuperset":
                return mk("truth", mk("call", ext("set.issubset"), (args[0], o), ()))
            if name == "pop":
                self.contrib(o, "del", None, NONE, node)
                return mk("item", o, mk("any"))
        if k == "dict":
            if name == "get":
                d = args[1] if len(args) > 1 else kw.get("default", NONE)
                return self.dict_getdefault(o, args[0], d, node)
            if name == "setdefault":
                d = args[1] if len(args) > 1 else NONE
                c = self.in_(args[0], o, node)
                prev = self.item(o, args[0], node)
                if c is TRUE:
                    return prev
                if o in self.open or c is not FALSE:
                    self.contrib(o, "default", args[0], d, node).read = phi(c, prev, d)
                else:
                    self.contrib(o, "set", args[0], d, node)
                    return d
                return phi(c, prev, d)
            if name == "pop":
                d = args[1] if len(args) > 1 else mk("missing")
                c = self.in_(args[0], o, node)
                r = phi(c, self.item(o, args[0], node), d)
                self.contrib(o, "del", args[0], None, node)
                return r
            if name == "update":
                for a in args:
                    if a.op == "obj" and self.objs[a].kind == "dict":
                        cs = self.effective(self.objs[a].contribs)
                        plain = a is not o and a not in self.open and all(c.op == "set" for c in cs)
                        for c in cs:
                            if plain and self.rel_loops(c):
                                p = Piece(c.val, self.rel_loops(c), self.rel_guards(c), c.key)
                                self.under(p, lambda c=c: self.contrib(o, "set", c.key, c.val, c.node))
                            elif c.op == "set" and not self.rel_loops(c):
                                n = len(self.guards)
                                for g, t in self.rel_guards(c):
                                    self.push(g, t)
                                self.contrib(o, "set", c.key, c.val, c.node)
                                del self.guards[n:]
                            else:
                                self.contrib(o, "extend", None, a, node)
                                break
                    else:
                        self.contrib(o, "extend", None, a, node)
                for kk, v in kw.items():
                    self.contrib(o, "set", const(kk), v, node)
                return NONE
            if name == "clear":
                self.contrib(o, "clear", None, None, node)
                return NONE
            if name == "copy":
                n = self.new_obj("dict", node=node)
                self.contrib(n, "extend", None, o, node)
                return n
            if name in ("keys", "values", "items"):
                return mk("view", name, o)
        return None

    def extend(self, o, a, node):
        if a.op in ("genexp", "gencall", "tuple", "phi") or (a.op == "obj" and self.objs[a].kind in ("list", "set")) or a.op in ("zip", "enum") or (
            a.op == "call" and is_ext(a.a[0], "builtins.map", "builtins.filter", "itertools.chain")
        ):
            if a.op in ("genexp", "gencall"):
                self.consume(a, node)
            for p in self.pieces(a, node):
                self.under(p, lambda p=p: self.contrib(o, "add", None, p.elem, node))
        else:
            self.contrib(o, "extend", None, a, node)

    def item(self, d, k, node=None):
        # defaultdict access creates the default
        if d.op == "obj" and self.objs[d].kind == "dict" and self.st is not None and self.st.get((d, "default_factory")) is not None:
            c = self.in_(k, d, node)
            if c is not TRUE:
                fac = self.st[(d, "default_factory")]
                r, comp = self.dict_get(d, k)
                if r is not None:
                    return r
                if fac.op in ("ext", "func", "class") and not (is_ext(fac) and fac.a[0] not in CONTAINER_CTORS):
                    old = [x for x in self.objs[d].contribs if x.op in ("set", "default", "extend")]
                    prev = super().item(d, k, node) if old and c is not FALSE else None
                    v = self.call(fac, [], [], node)
                    if v.op == "obj":
                        self.contrib(d, "default", k, v, node)
                        r = v if prev is None else phi(c, prev, v)
                        self.objs[d].contribs[-1].read = r
                        return r
        return super().item(d, k, node)

    def dict_get(self, d, k):
        # a default created earlier for the same key
        for c in reversed(self.objs[d].contribs):
            if c.op == "default" and c.key is k and self.st is not None and self.st.get((d, "default_factory")) is not None:
                return c.read or c.val, False
        for c in reversed(self.objs[d].contribs):
            if c.op != "default":
                break
            if c.key is k and c.read is not None and not self.rel_loops(c) and not self.rel_guards(c):
                return c.read, False
        return super().dict_get(d, k)

    def in_(self, x, c, node=None):
        cc = self.canon(c)
        if cc in self.open:
            ob = self.objs[cc]
            if not ob.contribs:
                pass
            return self.cond(mk("in", self.canon(x), cc))
        return super().in_(x, c, node)

    def truth(self, v):
        if v.op == "obj" and v in self.open:
            return self.cond(mk("truth", v))
        return super().truth(v)

    def definite(self, t):
        if self.canon(t) in self.open or t in self.open:
            return None
        return super().definite(t)

    # ------------------------------------------------------------ statements

    def exec_block(self, stmts):
        for s in stmts:
            if self.st is None:
                return
            m = getattr(self, "s_" + type(s).__name__, None)
            if m is not None:
                m(s)

    def s_Expr(self, s):
        self.eval(s.value)

    def s_Pass(self, s):
        pass

    def s_Import(self, s):
        for a in s.names:
            if a.name in self.modules or a.name.split(".")[0] == self.package:
                if a.name in self.modules:
                    self.load_guarded(a.name)
                nm = a.asname or a.name.split(".")[0]
                self.assign_name(nm, mk("module", a.name if a.asname else a.name.split(".")[0]))
            else:
                self.assign_name(a.asname or a.name.split(".")[0], ext(a.name if a.asname else a.name.split(".")[0]))

    def load_guarded(self, name):
        self.load(name)

    def s_ImportFrom(self, s):
        mod = s.module or ""
        if s.level:
            parts = self.frame.module.name.split(".")
            base = parts[: len(parts) - s.level] if not self.frame.module.path.endswith("__init__.py") else parts[: len(parts) - s.level + 1]
            mod = ".".join(base + ([mod] if mod else []))
        if mod in self.modules:
            m = self.load(mod)
            for a in s.names:
                if a.name == "*":
                    for (fid, n), v in list(self.st.items()):
                        if fid == m.frame.id and isinstance(n, str) and not n.startswith("_"):
                            self.assign_name(n, v)
                            if n in m.frame.asts:
                                self.frame.asts[n] = ast.Name(id=n, ctx=ast.Load())
                    continue
                v = self.st.get((m.frame.id, a.name))
                nm = a.asname or a.name
                if f"{mod}.{a.name}" in self.modules and v is None:
                    self.load(f"{mod}.{a.name}")
                    self.assign_name(nm, mk("module", f"{mod}.{a.name}"))
                    continue
                if a.name in m.frame.asts and (v is None or v.op != "class"):
                    # keep the link for annotations
                    self.assign_name(nm, mk("alias", mod, a.name))
                    continue
                self.assign_name(nm, v if v is not None else mk("unbound", f"{mod}.{a.name}"))
        elif mod.split(".")[0] == self.package and f"{mod}" not in self.modules:
            for a in s.names:
                sub = f"{mod}.{a.name}"
                if sub in self.modules:
                    self.load(sub)
                    self.assign_name(a.asname or a.name, mk("module", sub))
        else:
            for a in s.names:
                self.assign_name(a.asname or a.name, ext(f"{mod}.{a.name}"))

    def s_Global(self, s):
        pass

    def s_Nonlocal(self, s):
        pass

    def s_Assign(self, s):
        v = self.eval(s.value)
        if self.st is None:
            return
        for t in s.targets:
            if isinstance(t, ast.Name) and self.frame.kind in ("module", "class"):
                self.frame.asts[t.id] = s.value
            self.assign_target(t, v, s)

    def s_AnnAssign(self, s):
        if self.frame.kind == "class" and isinstance(s.target, ast.Name):
            self.frame.fields[s.target.id] = (s.annotation, s.value)
            return
        if isinstance(s.target, ast.Name) and self.frame.kind == "module" and s.value is not None:
            self.frame.asts[s.target.id] = s.value
        if s.value is not None:
            v = self.eval(s.value)
            if self.st is None:
                return
            ty = self.ann(s.annotation, self.frame)
            if v.op == "obj" and self.objs[v].kind in ("list", "dict", "set") and ty is not None and ty[0] == self.objs[v].kind:
                if self.objs[v].ty is None:
                    self.objs[v].ty = ty
            elif v.op in ("item", "at", "attr", "call", "sym") and ty is not None and ty[0] in ("cls", "list", "dict", "set", "str") and self.type_of(v) is None:
                self.types[v] = ty
            self.assign_target(s.target, v, s)

    def s_AugAssign(self, s):
        load = copy_ctx(s.target)
        cur = self.eval(load)
        v = self.eval(s.value)
        op = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.BitOr: "|", ast.BitAnd: "&",
              ast.BitXor: "^", ast.Pow: "**", ast.LShift: "<<", ast.RShift: ">>", ast.MatMult: "@"}[type(s.op)]
        if cur.op == "obj" and self.objs[cur].kind == "list" and op == "+":
            self.extend(cur, v, s)
            return
        if cur.op == "obj" and self.objs[cur].kind == "set" and op in ("|", "-", "&"):
            if op == "|":
                self.extend(cur, v, s)
            else:
                self.contrib(cur, {"-": "diff", "&": "inter"}[op], None, v, s)
            return
        if cur.op == "obj" and self.objs[cur].kind == "dict" and op == "|":
            self.container_method(cur, "update", [v], {}, s)
            return
        if cur.op != "obj" and op == "|" and self.setty(v) and not self.dictty(v) or cur.op != "obj" and op == "+" and v.op == "obj" and self.objs[v].kind == "list":
            # changed in place, whatever else refers to it
            self.call(self.getattr_(cur, "update" if op == "|" else "extend", s), [v], {}, s)
            return
        self.assign_target(s.target, self.binop(op, cur, v), s)

    def assign_target(self, t, v, node):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.eval(t.value), t.attr, v, node)
        elif isinstance(t, ast.Subscript):
            d = self.eval(t.value)
            if isinstance(t.slice, ast.Slice):
                if d.op == "obj" and self.objs[d].kind == "list" and t.slice.lower is None and t.slice.upper is None and t.slice.step is None:
                    self.contrib(d, "clear", None, None, node)
                    self.extend(d, v, node)
                elif d.op == "obj":
                    self.contrib(d, "del", mk("slice", d), None, node)
                elif isinstance(t.value, ast.Attribute) and d.op == "attr" and t.slice.lower is None and t.slice.upper is None and t.slice.step is None:
                    # all that the list held is replaced
                    self.setattr_(d.a[0], d.a[1], v, node)
                else:
                    self.effect("setitem", mk("attr", d, "__setitem__"), [v], [], node)
                return
            k = self.eval(t.slice)
            self.setitem(d, k, v, node)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            d = self.definite(v) if v.op not in ("genexp", "gencall", "phi") else None
            if v.op in ("genexp", "gencall"):
                v = self.materialise(v, node)
                d = self.definite(v)
                if d is None and v.op == "obj":
                    # what was left out because of an error was not left out if this is reached
                    cs = self.effective(self.objs[v].contribs)
                    if len(cs) == n and all(c.op == "add" and not self.rel_loops(c) and all(tag == "raise" for _, tag in self.rel_guards(c)) for c in cs):
                        d = [c.val for c in cs]
            if star:
                i = star[0]
                if d is not None:
                    after = n - i - 1
                    for e, x in zip(t.elts[:i], d[:i]):
                        self.assign_target(e, x, node)
                    self.assign_target(t.elts[i].value, self.new_list(d[i : len(d) - after]), node)
                    for e, x in zip(t.elts[i + 1 :], d[len(d) - after :]):
                        self.assign_target(e, x, node)
                else:
                    for j, e in enumerate(t.elts):
                        if j == i:
                            self.assign_target(e.value, mk("slice", v, const(i), const(i - n + 1) if i < n - 1 else NONE, NONE), node)
                        else:
                            self.assign_target(e, self.item(v, const(j if j < i else j - n)), node)
                return
            for i, e in enumerate(t.elts):
                self.assign_target(e, d[i] if d is not None and i < len(d) else self.item(v, const(i), node), node)
        elif isinstance(t, ast.Starred):
            self.assign_target(t.value, v, node)

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                d = self.eval(t.value)
                if d.op == "obj":
                    if isinstance(t.slice, ast.Slice):
                        if t.slice.lower is None and t.slice.upper is None:
                            self.contrib(d, "clear", None, None, s)
                        else:
                            self.contrib(d, "del", NONE, None, s)
                    else:
                        self.contrib(d, "del", self.eval(t.slice), None, s)
                else:
                    self.effect("delitem", mk("attr", d, "__delitem__"), [], [], s)

    def s_FunctionDef(self, s):
        f = self.new_func(s, s.name, getattr(self.frame, "cls", None) if self.frame.kind == "class" else None)
        fn = self.funcs[f]
        fn.decorators = s.decorator_list
        v = f
        for d in reversed(s.decorator_list):
            nm = self.dec_name(d)
            if nm in ("staticmethod", "classmethod", "property", "cached_property", "abstractmethod", "contextmanager", "model_validator", "field_validator", "overload", "override"):
                continue
            dv = self.eval(d)
            if dv.op in ("func", "bound", "partial"):
                r = self.call(dv, [v], [], d)
                v = r
            elif dv.op == "ext" and dv.a[0] == "identity":
                pass
            else:
                self.opaque(dv, [v], [], d, "decorate")
        self.assign_name(s.name, v)

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, s):
        bases = [self.eval(b) for b in s.bases]
        fr = Frame("class", s.name, self.frame, self.frame.module)
        fr.fields = {}
        c = mk("class", uid())
        ci = Class(s.name, s, fr, bases)
        ci.term = c
        quals = [s.name]
        f = self.frame
        while f is not None and f.kind != "module":
            quals.append(f.name)
            f.escapes = True
            f = f.parent
        ci.qual = f.name + "." + ".".join(reversed(quals))
        self.classes[c] = ci
        fr.cls = c
        for d in s.decorator_list:
            if self.dec_name(d) == "dataclass":
                ci.dataclass = True
        # make the class visible to annotations inside itself
        self.assign_name(s.name, c)
        old, self.frame = self.frame, fr
        self.exec_block(s.body)
        self.frame = old
        ci.fields = fr.fields
        for (fid, n), v in list(self.st.items()):
            if fid == fr.id:
                ci.attrs[n] = v
                if v.op == "func":
                    if self.funcs[v].cls is None:
                        self.funcs[v].cls = c
        ci.pydantic = self.is_pydantic(c)
        for d in s.decorator_list:
            if self.dec_name(d) == "dataclass":
                continue
            dv = self.eval(d)
            if dv.op in ("func", "bound", "partial"):
                self.call(dv, [c], [], d)
            elif dv.op != "ext" or dv.a[0] != "identity":
                self.opaque(dv, [c], [], d, "decorate")
        self.assign_name(s.name, c)

    def s_Return(self, s):
        v = self.eval(s.value) if s.value is not None else NONE
        if self.st is None:
            return
        fr = self.frame
        while fr.kind == "comp":
            fr = fr.parent
        gs = [g for g, tag in self.guards[fr.guard_base :]]
        ls = self.loops[getattr(fr, "loop_base", 0) :]
        c = and_(*gs)
        for l in reversed(ls):
            self.exits.setdefault(l.uid, []).append(("return", c))
            v2 = v
            if contains(v, lambda x: x is l.term) or v.op == "obj":
                v2 = mk("sel", l.term, c, v)
            v = v2
            c = self.mk_exists(l.term, c)
        fr.returns.append((c, v, self.st))
        self.st = None
        self.last_exit = "return"

    def exit_raise(self, exc, node, tag="raise"):
        for rec in reversed(self.try_stack):
            if rec["open"] and self.exc_matches(exc, rec["types"]):
                rec["raises"].append((and_(*[g for g, _ in self.guards[rec["gbase"] :]]), dict(self.st), exc))
                break
        self.st = None
        self.last_exit = "raise"

    def exc_matches(self, exc, types):
        if exc is None:
            return any(is_ext(t, "builtins.SystemExit", "builtins.BaseException") for t in types)
        names = set()
        if exc.op == "obj" and self.objs[exc].kind == "inst":
            for k in self.mro(self.objs[exc].cls):
                names.add(k)
                if k.op == "ext":
                    names.update(ext(b) for b in _EXC_BASES.get(k.a[0], []))
        elif exc.op == "call" and exc.a[0].op == "ext":
            names.add(exc.a[0])
            names.update(ext(b) for b in _EXC_BASES.get(exc.a[0].a[0], ["builtins.Exception"]))
        elif exc.op == "ext":
            names.add(exc)
            names.update(ext(b) for b in _EXC_BASES.get(exc.a[0], ["builtins.Exception"]))
        else:
            return True
        names.add(ext("builtins.BaseException"))
        return any(t in names for t in types)

    def s_Raise(self, s):
        e = self.eval(s.exc) if s.exc is not None else mk("reraise")
        cause = self.eval(s.cause) if s.cause is not None else None
        if self.st is None:
            return
        if e.op in ("class",):
            e = self.call(e, [], [], s)
        self.effect("raise", mk("raise"), [e], [], s)
        self.exit_raise(e, s)

    def s_Assert(self, s):
        c = self.cond(self.truth(self.eval(s.test)))
        if c is FALSE:
            # an assertion that is statically false: treat as unknown
            return
        if c is not TRUE:
            self.effect("assert", mk("assert"), [c], [], s)
            self.push(c, "raise")

    def s_If(self, s):
        c = self.cond(self.truth(self.eval(s.test)))
        if self.st is None:
            return
        if c is TRUE:
            return self.exec_block(s.body)
        if c is FALSE:
            return self.exec_block(s.orelse)
        self.branch(c, lambda: self.exec_block(s.body), lambda: self.exec_block(s.orelse))

    def branch(self, c, fa, fb):
        n = len(self.guards)
        pre = self.st
        self.st = dict(pre)
        self.guards.append((c, "branch"))
        self.last_exit = None
        fa()
        ex1 = self.last_exit
        st1, g1 = self.st, self.guards[n + 1 :]
        del self.guards[n:]
        self.st = dict(pre)
        self.guards.append((not_(c), "branch"))
        self.last_exit = None
        fb()
        ex2 = self.last_exit
        st2, g2 = self.st, self.guards[n + 1 :]
        del self.guards[n:]
        if st1 is None and st2 is None:
            self.st = None
            self.last_exit = ex1 if ex1 == ex2 else (ex1 if ex1 != "raise" else ex2)
            return
        if st1 is None:
            self.st = st2
            self.guards.append((not_(c), ex1 or "raise"))
            self.guards.extend(g2)
            return
        if st2 is None:
            self.st = st1
            self.guards.append((c, ex2 or "raise"))
            self.guards.extend(g1)
            return
        self.st = self.merge(c, st1, st2)
        a1, a2 = and_(*[g for g, _ in g1]), and_(*[g for g, _ in g2])
        if a1 is not TRUE or a2 is not TRUE:
            tags = {t for g, t in g1 + g2}
            alive = or_(and_(c, a1), and_(not_(c), a2))
            # keep parts with different exits apart when possible
            if len(tags) > 1:
                for tag in sorted(tags):
                    b1 = and_(*[g for g, t in g1 if t == tag])
                    b2 = and_(*[g for g, t in g2 if t == tag])
                    x = and_(or_(not_(c), b1), or_(c, b2))
                    if x is not TRUE:
                        self.guards.append((x, tag))
            elif alive is not TRUE:
                self.guards.append((alive, tags.pop()))

    # loops --------------------------------------------------------------

    def s_For(self, s):
        it = self.eval(s.iter)
        if self.st is None:
            return
        fr = self.frame
        names = self.rebound(s.body) | assigned_names_target(s.target)

        def body(x):
            self.frame = fr
            self.assign_target(s.target, x, s)
            self.exec_block(s.body)

        self.for_each(it, body, s, pre_names=[(fr.id, n) for n in names if (fr.id, n) in self.st], orelse=s.orelse, body_stmts=s.body)

    s_AsyncFor = s_For

    def rebound(self, body):
        """Names bound anew by a loop body; containers extended in place keep their identity."""
        names, plain = assigned_names(body), assigned_names(body, aug=False)
        return {n for n in names if n in plain or not (v := self.st.get((self.frame.id, n))) or v.op != "obj"}

    def outlived(self, it, stmts):
        """The loop, if any, around this one but not around the making of the iterator."""
        if it in self.gens:
            made = {l.term for l in self.gens[it]["loops"]}
        elif it in self.made:
            made = set(self.made[it])
        else:
            return None
        if any(isinstance(x, ast.Break) for st in stmts for x in ast.walk(st)):
            return None
        cur = [l.term for l in self.loops]
        extra = [t for t in cur if t not in made]
        if not extra or len(extra) + len(made) != len(cur) or extra[0].a[0].op == "while":
            return None
        return extra[0]

    def for_each(self, it, body, node, pre_names=(), orelse=(), once=False, body_stmts=(), fresh=False):
        """Run body for every generic element of the iterable."""
        if it.op == "phi":
            c = self.cond(it.a[0])
            if c is TRUE:
                return self.for_each(it.a[1], body, node, pre_names, orelse, once, body_stmts)
            if c is FALSE:
                return self.for_each(it.a[2], body, node, pre_names, orelse, once, body_stmts)
        if it.op == "obj" and self.objs[it].kind == "inst":
            m = self.find_attr(self.objs[it].cls, "__iter__")[1]
            if m is not None and m.op == "func":
                it = self.call(mk("bound", m, it), [], [], node)
                fresh = True
        l = None if fresh or once or orelse else self.outlived(it, body_stmts)
        if l is not None:
            # an iterator made before a loop has something to give in its first pass only
            first = self.cond(mk("cmp", "==", mk("idx", l), const(0)))
            return self.branch(first, lambda: self.for_each(it, body, node, pre_names, orelse, once, body_stmts, True), lambda: None)
        if it.op == "gencall":
            self.consume(it, node)
            ctl = {"brk": [], "cont": []}
            outer = list(self.loop_ctl)
            n0 = len(self.guards)

            def each(v):
                c = {"brk": [], "cont": [], "gbase": len(self.guards), "lbase": len(self.loops)}
                self.loop_ctl = outer + [c]
                body(v)
                self.finish_body(c)
                self.loop_ctl = outer

            self.run_gen(it, each)
            self.loop_ctl = outer
            if self.st is not None and orelse:
                self.exec_block(orelse)
            return
        if it.op == "genexp":
            self.consume(it, node)
            info = self.gens[it]
            outer = list(self.loop_ctl)

            def leaf():
                v = self.eval(info["node"].elt)
                c = {"brk": [], "cont": [], "gbase": len(self.guards), "lbase": len(self.loops)}
                old = self.frame
                self.loop_ctl = outer + [c]
                body(v)
                self.finish_body(c)
                self.loop_ctl = outer
                self.frame = old

            self.run_comp(info["node"].generators, 0, info["frame"], leaf)
            if self.st is not None and orelse:
                self.exec_block(orelse)
            return
        ps = self.pieces(it, node)
        n0 = len(self.guards)
        wl = it  # a copy does not grow
        wl = wl if wl.op == "obj" and self.objs[wl].kind == "list" and wl not in self.open else None
        undo = self.checkpoint() if wl is not None else None
        size = len(self.objs[wl].contribs) if wl is not None else 0
        brk_all = []
        for p in ps:
            if self.st is None:
                break
            if p.loops:
                brk_all.extend(self.run_loop(p, body, node, pre_names, body_stmts))
            else:
                brk_all.extend(self.run_once(p, body))
            if wl is not None and any(c.op in ("add", "extend") for c in self.objs[wl].contribs[size:]):
                # a worklist: it grows while it is iterated over
                undo()
                l = self.mk_loop(wl, node)
                gen = Piece(mk("at", wl, l.term), [l])
                self.open[wl] = self.seq
                try:
                    brk_all = list(self.run_loop(gen, body, node, pre_names, body_stmts))
                finally:
                    self.open.pop(wl, None)
                break
        if self.st is not None and orelse and brk_all:
            normal = self.st

            def broke():
                self.st = None
                for c, st in brk_all:
                    self.st = st if self.st is None else self.merge(c, st, self.st)

            def done():
                self.st = dict(normal)
                self.exec_block(orelse)

            self.guards[n0:] = [g for g in self.guards[n0:] if g[1] != "break"]
            self.branch(or_(*[c for c, _ in brk_all]), broke, done)
            return
        if self.st is not None and orelse:
            self.exec_block(orelse)
        # states that left the loop by break
        for c, st in brk_all:
            if self.st is None:
                self.st = st
            else:
                self.st = self.merge(c, st, self.st)
        # a break that happened in an unrolled piece no longer guards what follows
        if brk_all:
            self.guards[n0:] = [g for g in self.guards[n0:] if g[1] != "break"]

    def finish_body(self, c):
        """Join continue states at the end of a loop body."""
        for cc, st in reversed(c["cont"]):
            if self.st is None:
                self.st = st
            else:
                self.st = self.merge(cc, st, self.st)
        keep = [g for g in self.guards[c["gbase"] :] if g[1] in ("return", "raise", "break")]
        self.guards[c["gbase"] :] = keep

    def run_once(self, p, body):
        n = len(self.guards)
        pre = self.st
        self.st = dict(pre)
        pg = self.cond(and_(*[g for g, _ in p.guards]))
        for g, t in p.guards:
            self.push(self.cond(g), t)
        if pg is FALSE:
            self.st = pre
            del self.guards[n:]
            return []
        c = {"brk": [], "cont": [], "gbase": len(self.guards), "lbase": len(self.loops)}
        self.loop_ctl = self.loop_ctl + [c]
        body(p.elem)
        self.loop_ctl = self.loop_ctl[:-1]
        self.finish_body(c)
        inner = [x for x in self.guards[n + len([1 for g, _ in p.guards if self.true_guard(g)]) :]]
        inner = self.guards[c["gbase"] :]
        del self.guards[n:]
        if pg is TRUE:
            self.guards.extend(inner)
        else:
            if self.st is None:
                self.st = pre
                self.guards.append((not_(pg), self.last_exit or "raise"))
            else:
                self.st = self.merge(pg, self.st, pre)
                for g, t in inner:
                    self.guards.append((or_(not_(pg), g), t))
        return c["brk"]

    @staticmethod
    def true_guard(g):
        return g is not TRUE

    def rollback(self, mark):
        ne, nj, nc, nl, nit, nr = mark
        del self.effects[ne:]
        for ob in self.journal[nj:]:
            ob.contribs.pop()
        del self.journal[nj:]
        del self.compiled[nc:]
        del self.listeners[nl:]
        del self.iter_events[nit:]
        del self.lookups[nr:]

    def checkpoint(self):
        """Function that undoes everything done since."""
        mark = self.mark()
        pre = self.st
        ng, nl = len(self.guards), len(self.loops)
        raises = [(r, len(r["raises"])) for r in self.try_stack]
        rets = [(f, len(f.returns)) for f in self.live_frames()]
        ctl = [(c, len(c["brk"]), len(c["cont"])) for c in self.loop_ctl]

        def undo():
            self.rollback(mark)
            self.st = pre
            del self.guards[ng:]
            del self.loops[nl:]
            for r, n in raises:
                del r["raises"][n:]
            for f, n in rets:
                del f.returns[n:]
            for c, nb, nc in ctl:
                del c["brk"][nb:]
                del c["cont"][nc:]

        return undo

    def mark(self):
        return (len(self.effects), len(self.journal), len(self.compiled), len(self.listeners), len(self.iter_events), len(self.lookups))

    def run_loop(self, p, body, node, pre_names, body_stmts, test=None):
        pre = self.st
        keys = [k for k in pre_names if k in pre]
        opened = set()
        ng, nl = len(self.guards), len(self.loops)
        objs_before = set(self.objs)
        for attempt in range(4):
            mark = self.mark()
            mus = {}
            self.st = dict(pre)
            for k in keys:
                mu = mk("mu", p.loops[-1].term, str(k[1]), pre[k], k[0] if not isinstance(k[0], T) else k[0].id)
                mus[k] = mu
                ty = self.type_of(pre[k])
                if ty is not None and ty[0] in ("cls", "str", "int"):
                    self.types.setdefault(mu, ty)
                self.st[k] = mu
            added = []
            for o in opened:
                if o not in self.open:
                    self.open[o] = self.seq
                    added.append(o)
            saved_try = [len(r["raises"]) for r in self.try_stack]
            saved_ret = None
            fr = self.frame
            while fr is not None and fr.kind == "comp":
                fr = fr.parent
            frs = [f for f in self.live_frames()]
            ret_lens = [(f, len(f.returns)) for f in frs]
            ctl_lens = [(c, len(c["brk"]), len(c["cont"])) for c in self.loop_ctl]
            self.loops.extend(p.loops)
            for g, t in p.guards:
                self.push(self.cond(g), t)
            c = {"brk": [], "cont": [], "gbase": len(self.guards), "lbase": len(self.loops)}
            self.loop_ctl = self.loop_ctl + [c]
            dead_guard = any(self.cond(g) is FALSE for g, _ in p.guards)
            if not dead_guard:
                body(p.elem)
            self.loop_ctl = self.loop_ctl[:-1]
            self.finish_body(c)
            del self.loops[nl:]
            brk_guards = [(g, t) for g, t in self.guards[c["gbase"] :]]
            del self.guards[ng:]
            for o in added:
                del self.open[o]
            end = self.st
            # what else changed?
            changed = set()
            for st in [end] + [s for _, s in c["brk"]]:
                if st is None:
                    continue
                for k, v in st.items():
                    if k in pre and k not in mus and pre[k] is not v:
                        changed.add(k)
            mutated = {ct for ct in (self.obj_term(ob) for ob in self.journal[mark[1] :]) if ct in objs_before and ct not in opened and ct not in self.open}
            if (not changed and not mutated) or attempt == 3:
                break
            # retry with the newly found loop-carried state
            self.rollback(mark)
            keys = keys + [k for k in pre if k in changed]
            opened |= mutated
            for r, n in zip(self.try_stack, saved_try):
                del r["raises"][n:]
            for f, n in ret_lens:
                del f.returns[n:]
            for cc, nb, nc in ctl_lens:
                del cc["brk"][nb:]
                del cc["cont"][nc:]
        lt = p.loops[-1].term
        gbase = and_(*[g for g, _ in p.guards])
        post = dict(pre)
        if end is not None:
            for k, v in end.items():
                if k in mus:
                    self.backs[mus[k]] = v
                    post[k] = self.fin(mus[k], v, lt, gbase, pre[k])
                elif k not in pre:
                    post[k] = v
        brks = []
        for cc, st in c["brk"]:
            self.exits.setdefault(p.loops[-1].uid, []).append(("break", cc))
            ex = and_(gbase, cc)
            for l in reversed(p.loops):
                ex = self.mk_exists(l.term, ex)
            bst = dict(post)
            for k, v in st.items():
                if k in mus:
                    v = subst_shallow(v, mus[k], pre[k]) if v is mus[k] else v
                    if v is mus[k]:
                        v = post[k]
                    elif contains(v, lambda x: x is lt) or v.op == "obj":
                        v = mk("sel", lt, cc, v)
                    bst[k] = v
                elif k not in pre:
                    bst[k] = v
            brks.append((ex, bst))
        self.st = post
        return brks

    def obj_term(self, ob):
        t = getattr(ob, "term", None)
        if t is None:
            for k, v in self.objs.items():
                if v is ob:
                    ob.term = k
                    return k
        return t

    def live_frames(self):
        out = []
        fr = self.frame
        f = fr
        while f is not None:
            if f.kind == "func":
                out.append(f)
            f = f.parent
        y = getattr(fr, "yield_frame", None)
        while y is not None:
            if y.kind == "func" and y not in out:
                out.append(y)
            y = y.parent
        return out

    def fin(self, mu, back, lt, gbase, init):
        if back is mu:
            return init

        def flag(val):
            """back == phi(c, val, mu): condition under which it is set."""
            if back.op == "phi":
                c, a, b = back.a
                if a is val and b is mu:
                    return c
                if b is val and a is mu:
                    return not_(c)
            return None

        if back.op == "or" and mk("truth", mu) in back.a:
            rest = or_(*[x for x in back.a if x is not mk("truth", mu)])
            return or_(self.truth(init), self.mk_exists(lt, and_(gbase, rest)))
        if back.op == "and" and mk("truth", mu) in back.a:
            rest = and_(*[x for x in back.a if x is not mk("truth", mu)])
            return and_(self.truth(init), not_(self.mk_exists(lt, and_(gbase, not_(rest)))))
        for val in (TRUE, FALSE):
            c = flag(val)
            if c is not None:
                e = self.mk_exists(lt, and_(gbase, c))
                return phi(e, val, init)
        r = mk("fin", mu)
        ty = self.type_of(init)
        if ty is not None and ty[0] in ("cls", "str", "int"):
            self.types.setdefault(r, ty)
        return r

    def s_While(self, s):
        site = mk("while", self.frame.module.name, self.frame.name, s.lineno if hasattr(s, "lineno") else 0)
        l = self.mk_loop(site, s)
        fr = self.frame
        names = self.rebound(s.body) | assigned_names([ast.Expr(value=s.test)])

        def body(_):
            self.frame = fr
            c = self.cond(self.truth(self.eval(s.test)))
            if c is FALSE:
                self.st = None
                self.last_exit = "break"
                return
            if c is not TRUE:
                self.guards.append((c, "while"))
            self.exec_block(s.body)

        brks = self.run_loop(Piece(mk("none"), [l]), body, s, [(fr.id, n) for n in names if (fr.id, n) in self.st], s.body)
        always = isinstance(s.test, ast.Constant) and bool(s.test.value)
        if self.st is not None and s.orelse:
            self.exec_block(s.orelse)
        if always:
            if not brks:
                if True:
                    self.st = None if not brks else self.st
                    self.last_exit = "return"
                return
            st = brks[-1][1]
            for c, b in brks[:-1]:
                st = self.merge(c, b, st)
            self.st = st
            return
        for c, st in brks:
            self.st = st if self.st is None else self.merge(c, st, self.st)

    def s_Break(self, s):
        if self.loop_ctl:
            c = self.loop_ctl[-1]
            c["brk"].append((and_(*[g for g, _ in self.guards[c["gbase"] :]]), self.st))
        self.st = None
        self.last_exit = "break"

    def s_Continue(self, s):
        if self.loop_ctl:
            c = self.loop_ctl[-1]
            c["cont"].append((and_(*[g for g, _ in self.guards[c["gbase"] :]]), self.st))
        self.st = None
        self.last_exit = "continue"

    # with / try -----------------------------------------------------------

    def s_With(self, s):
        self.do_with(s.items, 0, s)

    s_AsyncWith = s_With

    def do_with(self, items, i, s):
        if i == len(items):
            self.exec_block(s.body)
            return
        it = items[i]
        ctx = self.eval(it.context_expr)
        if self.st is None:
            return
        fr = self.frame

        def inner(v):
            self.frame = fr
            if it.optional_vars is not None:
                self.assign_target(it.optional_vars, v, s)
            self.do_with(items, i + 1, s)

        if ctx.op == "phi":
            gens = [x for x in (ctx.a[1], ctx.a[2]) if x.op == "gencall"]
            if gens:
                c = self.cond(ctx.a[0])
                self.branch(c, lambda: self.with_one(ctx.a[1], inner, it), lambda: self.with_one(ctx.a[2], inner, it))
                return
        self.with_one(ctx, inner, it)

    def with_one(self, ctx, inner, it):
        if ctx.op == "gencall" and self.gens[ctx]["ctx"]:
            outer = list(self.loop_ctl)

            def each(v):
                self.loop_ctl = outer
                inner(v)

            self.run_gen(ctx, each)
            self.loop_ctl = outer
            return
        if ctx.op == "call" and is_ext(ctx.a[0], "contextlib.suppress"):
            pre = dict(self.st)
            n = len(self.guards)
            rec = {"types": list(ctx.a[1]), "raises": [], "gbase": n, "open": True, "uid": uid()}
            self.tries[rec["uid"]] = [(tuple(ctx.a[1]), "", TRUE, it.context_expr)]
            self.try_stack.append(rec)
            inner(ctx)
            self.try_stack.pop()
            self.guards[n:] = [g for g in self.guards[n:] if g[1] in ("return", "break", "continue")]
            x = mk("exc", uid(), tuple(ctx.a[1]))
            self.effect("handler", mk("handler"), list(ctx.a[1]), [], it.context_expr)
            self.st = pre if self.st is None else self.merge(x, pre, self.st)
            return
        v = self.enter(ctx, it)
        inner(v)
        self.effect("exit_with", mk("exit_with"), [ctx], [], it.context_expr)

    def enter(self, ctx, it):
        if ctx.op == "phi":
            return phi(ctx.a[0], self.enter(ctx.a[1], it), self.enter(ctx.a[2], it))
        if ctx.op == "call" and is_ext(ctx.a[0], "contextlib.nullcontext"):
            return ctx.a[1][0] if ctx.a[1] else NONE
        if ctx.op == "call" and is_ext(ctx.a[0], "contextlib.closing") and ctx.a[1]:
            return ctx.a[1][0]
        if ctx.op == "obj" and self.objs[ctx].kind == "inst":
            m = self.find_attr(self.objs[ctx].cls, "__enter__")[1]
            if m is not None and m.op == "func":
                return self.call_func(m, [ctx], [], it.context_expr)
        return ctx

    def s_Try(self, s):
        pre = dict(self.st)
        n = len(self.guards)
        types = []
        htypes = []
        for h in s.handlers:
            ts = [] if h.type is None else [self.eval(x) for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
            flat = []
            for t in ts:
                flat.extend(t.a if t.op == "tuple" else [t])
            if h.type is None:
                flat = [ext("builtins.BaseException")]
            htypes.append(flat)
            types.extend(flat)
        rec = {"types": types, "raises": [], "gbase": n, "open": True, "uid": uid()}
        self.tries[rec["uid"]] = []
        self.try_stack.append(rec)
        self.exec_block(s.body)
        self.try_stack.pop()
        body_dead = self.st is None
        if self.st is not None and s.orelse:
            self.exec_block(s.orelse)
        body_st = self.st
        body_exit = self.last_exit
        body_guards = self.guards[n:]
        del self.guards[n:]
        import_only = all(any(is_ext(t, "builtins.ImportError", "builtins.ModuleNotFoundError") for t in ts) for ts in htypes) and htypes and self.frame.kind == "module"
        results = []
        if s.handlers and not import_only:
            base = dict(pre)
            if rec["raises"]:
                for c, st, _ in rec["raises"]:
                    base = self.merge(c, st, base)
            # what is first assigned in the body may be there in a handler
            for k, t in (body_st or {}).items():
                base.setdefault(k, t)
            for h, ts in zip(s.handlers, htypes):
                x = mk("exc", uid(), tuple(ts))
                self.excs[x] = (s, h)
                m = len(self.guards)
                self.guards.append((x, "except"))
                self.st = dict(base)
                self.effect("handler", mk("handler"), ts, [], h)
                if h.name:
                    ev = mk("excval", x)
                    self.st[(self.frame.id, h.name)] = ev
                self.exec_block(h.body)
                inner = self.guards[m + 1 :]
                del self.guards[m:]
                # how control goes on after the handler: "" falls through
                how = "" if self.st is not None else self.last_exit or "raise"
                self.tries[rec["uid"]].append((tuple(ts), how, and_(*[g for g, _ in inner]), h))
                results.append((x, self.st, inner))
        st = body_st
        alive = [r for r in results if r[1] is not None]
        for x, hst, inner in alive:
            st = hst if st is None else self.merge(x, hst, st)
        self.st = st
        # guards gathered in the body stay valid if no handler falls through
        if body_st is not None:
            if not alive:
                self.guards.extend(body_guards)
            else:
                self.guards.extend(g for g in body_guards if g[1] in ("return", "continue", "break"))
        if s.finalbody:
            if self.st is None:
                keep = self.last_exit
                self.st = dict(pre)
                self.exec_block(s.finalbody)
                self.st = None
                self.last_exit = keep or body_exit
            else:
                self.exec_block(s.finalbody)
        elif self.st is None:
            self.last_exit = body_exit or "raise"

    s_TryStar = s_Try

    def s_Match(self, s):
        subj = self.eval(s.subject)

        def go(i):
            if i == len(s.cases):
                return
            case = s.cases[i]
            c, binds = self.pattern(subj, case.pattern)

            def body():
                for nm, v in binds:
                    self.assign_name(nm, v)
                if case.guard is not None:
                    gc = self.cond(self.truth(self.eval(case.guard)))
                    if gc is FALSE:
                        return go(i + 1)
                    if gc is not TRUE:
                        return self.branch(gc, lambda: self.exec_block(case.body), lambda: go(i + 1))
                self.exec_block(case.body)

            c = self.cond(c)
            if c is TRUE:
                return body()
            if c is FALSE:
                return go(i + 1)
            self.branch(c, body, lambda: go(i + 1))

        go(0)

    def pattern(self, v, p):
        if isinstance(p, ast.MatchValue):
            return self.eq(v, self.eval(p.value)), []
        if isinstance(p, ast.MatchSingleton):
            return self.is_(v, const(p.value)), []
        if isinstance(p, ast.MatchOr):
            return or_(*[self.pattern(v, q)[0] for q in p.patterns]), []
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                return TRUE, ([(p.name, v)] if p.name else [])
            c, b = self.pattern(v, p.pattern)
            return c, b + ([(p.name, v)] if p.name else [])
        if isinstance(p, ast.MatchClass):
            return self.isinst(v, self.eval(p.cls)), []
        if isinstance(p, ast.MatchSequence):
            cs, bs = [], []
            for i, q in enumerate(p.patterns):
                c, b = self.pattern(self.item(v, const(i)), q)
                cs.append(c)
                bs += b
            return and_(*cs), bs
        return mk("truth", mk("unk", uid())), []


def copy_ctx(t):
    if isinstance(t, ast.Name):
        return ast.copy_location(ast.Name(id=t.id, ctx=ast.Load()), t)
    if isinstance(t, ast.Attribute):
        return ast.copy_location(ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load()), t)
    return ast.copy_location(ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load()), t)


def subst_shallow(v, a, b):
    return v


def assigned_names_target(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}


def assigned_names(stmts, aug=True):
    out = set()
    stack = list(stmts)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
            continue
        if isinstance(n, ast.Lambda):
            continue
        if not aug and isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
            stack.append(n.value)
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for m in ast.walk(n):
                if isinstance(m, ast.NamedExpr):
                    out.add(m.target.id)
            continue
        stack.extend(ast.iter_child_nodes(n))
    return out
