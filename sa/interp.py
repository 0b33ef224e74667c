"""Gated value-flow analysis of the subsetter sources.

The analysis walks every statement of a function once (loop bodies once, with
loop-carried variables abstracted to ``mu`` terms), joins the two sides of a
branch with gated ``phi`` terms, follows calls into repository functions, and
records every call that leaves the repository as an Effect together with the
guards and loops it happens under.  No code of the repository is executed, no
path is enumerated and no solver is involved.
"""

from __future__ import annotations

import ast
import copy
import os
import sys

from .norm import normalise
from .terms import *  # noqa
from . import terms as TM

sys.setrecursionlimit(20000)


class AnalysisBroken(Exception):
    """The sources can not be analysed (missing anchor, syntax error...)."""


class TermNode(ast.expr):
    """An expression that is already evaluated."""

    _fields = ()

    def __init__(self, term=None):
        super().__init__()
        self.term = term


class Frame:
    n = 0

    def __init__(self, kind, name, parent=None, module=None):
        Frame.n += 1
        self.id = Frame.n
        self.kind = kind
        self.name = name
        self.parent = parent
        self.module = module
        self.asts = {}
        self.globals = set()
        self.nonlocals = set()
        self.locals = set()
        self.escapes = kind != "func"
        self.returns = []
        self.guard_base = 0
        self.yielder = None
        self.fn = None


class Module:
    def __init__(self, name, path):
        self.name = name
        self.path = path
        self.frame = Frame("module", name)
        self.frame.module = self
        with open(path, encoding="utf-8") as f:
            self.src = f.read()
        try:
            self.tree = normalise(ast.parse(self.src, path))
        except SyntaxError as exc:
            raise AnalysisBroken(f"cannot parse {path}: {exc}") from exc
        self.loaded = False


class Func:
    def __init__(self, node, frame, name, cls=None):
        self.node = node
        self.frame = frame  # lexical parent
        self.name = name
        self.cls = cls
        self.defaults = []
        self.kw_defaults = []
        self.decorators = []
        self.module = frame.module
        self.is_gen = not isinstance(node, ast.Lambda) and _has_yield(node)
        self.qual = name
        self.call_counts = 0


def _has_yield(node):
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


class Class:
    def __init__(self, name, node, frame, bases):
        self.name = name
        self.node = node
        self.frame = frame  # class frame
        self.bases = bases  # terms
        self.attrs = {}  # name -> term
        self.fields = {}  # name -> (annotation ast, default ast or None)
        self.module = frame.module
        self.pydantic = False
        self.dataclass = False
        self.qual = name
        self.term = None
        self.subs = []


class Obj:
    def __init__(self, kind, cls=None, node=None):
        self.kind = kind  # inst, list, dict, set
        self.cls = cls
        self.contribs = []
        self.node = node
        self.fields_set = []
        self.ty = None
        self.loops = ()


class Contrib:
    __slots__ = ("op", "key", "val", "guards", "loops", "node", "seq", "obj", "read", "by", "module", "stack")

    def __init__(self, op, key, val, guards, loops, node, seq, obj):
        self.op, self.key, self.val = op, key, val
        self.guards, self.loops, self.node, self.seq = guards, loops, node, seq
        self.obj = obj
        self.read = None
        self.by = None  # key function of a sort
        self.module, self.stack = None, ()

    def guard(self):
        return and_(*[g for g, _ in self.guards])

    def where(self):
        return f"{os.path.basename(self.module.path) if self.module else '?'}:{getattr(self.node, 'lineno', '?')}"


class Loop:
    __slots__ = ("term", "uid", "unordered", "rev", "node", "sort")

    def __init__(self, term, unordered=False, rev=False, node=None, sort=False):
        self.term = term
        self.sort = sort
        self.uid = uid()
        self.unordered = unordered
        self.rev = rev
        self.node = node

    def __repr__(self):
        return f"Loop({show(self.term.a[0], 4)}{' unordered' if self.unordered else ''}{' rev' if self.rev else ''})"


class Piece:
    """One generic element of a sequence."""

    __slots__ = ("elem", "loops", "guards", "key")

    def __init__(self, elem, loops=(), guards=(), key=None):
        self.elem, self.loops, self.guards = elem, tuple(loops), tuple(guards)
        self.key = key


class Effect:
    __slots__ = ("kind", "fn", "args", "kw", "guards", "loops", "node", "module", "stack", "result", "seq", "frames", "calls", "tries")

    def __init__(self, **k):
        for n in self.__slots__:
            setattr(self, n, k.get(n))

    @property
    def name(self):
        f = self.fn
        if f is None:
            return ""
        if f.op == "ext":
            return f.a[0]
        if f.op == "attr":
            return "." + f.a[1]
        return f.op

    @property
    def recv(self):
        return self.fn.a[0] if self.fn is not None and self.fn.op == "attr" else None

    def guard(self, skip=()):
        return and_(*[g for g, tag in self.guards if tag not in skip])

    def where(self):
        return f"{os.path.basename(self.module.path)}:{getattr(self.node, 'lineno', '?')}"

    def __repr__(self):
        g = ", ".join(f"{show(c, 4)}" for c, t in self.guards)
        return f"<{self.kind} {show(self.fn, 5) if self.fn else ''}({', '.join(show(a, 4) for a in self.args)}{', ' if self.kw else ''}{', '.join(k + '=' + show(v, 4) for k, v in self.kw)}) @{self.where()} if [{g}] loops {list(self.loops)}>"


TYPING = {"typing", "typing_extensions"}
PASS_THROUGH_EXT = {"tqdm.tqdm"}
ALLOCATORS = {
    "builtins.open",
    "sqlalchemy.MetaData",
    "sqlalchemy.create_engine",
    "sqlalchemy.Table",
    "sqlalchemy.inspect",
    "random.Random",
    "faker.Faker",
    "uuid.uuid4",
    "builtins.object",
}
ALLOC_METHODS = {"connect", "begin", "alias", "cursor", "raw_connection", "subquery", "cte"}
TERMINATORS = {"sys.exit", "os._exit", "builtins.exit", "builtins.quit"}
CONTAINER_CTORS = {
    "builtins.list": "list",
    "builtins.set": "set",
    "builtins.frozenset": "set",
    "builtins.dict": "dict",
    "builtins.tuple": "tuple",
    "collections.OrderedDict": "dict",
    "collections.deque": "list",
    "collections.defaultdict": "dict",
    "collections.Counter": "dict",
}

_EXC_BASES = {
    "builtins.OSError": ["builtins.Exception"],
    "builtins.IOError": ["builtins.OSError", "builtins.Exception"],
    "builtins.FileNotFoundError": ["builtins.OSError", "builtins.Exception"],
    "builtins.KeyError": ["builtins.LookupError", "builtins.Exception"],
    "builtins.IndexError": ["builtins.LookupError", "builtins.Exception"],
    "builtins.ValueError": ["builtins.Exception"],
    "builtins.TypeError": ["builtins.Exception"],
    "builtins.RuntimeError": ["builtins.Exception"],
    "builtins.AttributeError": ["builtins.Exception"],
    "builtins.AssertionError": ["builtins.Exception"],
    "builtins.ImportError": ["builtins.Exception"],
    "builtins.Exception": ["builtins.BaseException"],
    "builtins.NotImplementedError": ["builtins.RuntimeError", "builtins.Exception"],
}

import builtins as _bi

BUILTINS = set(dir(_bi))


class Interp:
    def __init__(self, root, package="subsetter"):
        self.root = root
        self.package = package
        self.modules = {}
        self.classes = {}
        self.funcs = {}
        self.objs = {}
        self.st = {}
        self.guards = []
        self.loops = []
        self.effects = []
        self.journal = []  # contributions in order
        self.seq = 0
        self.types = {}
        self._ty_busy = set()
        self.backs = {}
        self.backs_site = {}
        self.stack = []  # Func call stack
        self.exits = {}  # uid of a loop -> [(tag, condition)] of early exits
        self.active = set()  # (method, receiver) pairs being inlined
        self.callnodes = []
        self.last_exit = None
        self.compiled = []  # (class term, dialect or None, function term)
        self.listeners = []  # (target, event, function term, guards)
        self.no_inline = set()
        self.hook = None
        self.gens = {}
        self.analysed = set()
        self.unknown = []
        self.excs = {}
        self.tries = {}
        self.try_stack = []
        self.max_rec = 1
        self.loop_ctl = []
        self.iter_events = []
        self.made = {}
        self.lookups = []
        self.calls_seen = []
        self.facts_extra = set()
        self.assume = None
        self.load_package()

    # ------------------------------------------------------------ modules

    def load_package(self):
        base = os.path.join(self.root, self.package)
        if not os.path.isdir(base):
            raise AnalysisBroken(f"no package at {base}")
        names = []
        for dp, dn, fn in os.walk(base):
            dn[:] = sorted(d for d in dn if d != "__pycache__")
            for f in sorted(fn):
                if f.endswith(".py"):
                    p = os.path.join(dp, f)
                    rel = os.path.relpath(p, self.root)[:-3].replace(os.sep, ".")
                    if rel.endswith(".__init__"):
                        rel = rel[: -len(".__init__")]
                    self.modules[rel] = Module(rel, p)
                    names.append(rel)
        for n in names:
            self.load(n)
        self.module_effects = list(self.effects)
        self.module_seq = self.seq

    def load(self, name):
        m = self.modules[name]
        if m.loaded:
            return m
        m.loaded = True
        saved = (self.guards, self.loops, self.stack, self.try_stack)
        self.guards, self.loops, self.stack, self.try_stack = [], [], [], []
        fr = m.frame
        self.set_var(fr, "__name__", const(name))
        old, self.frame = getattr(self, "frame", None), fr
        self.exec_block(m.tree.body)
        self.frame = old
        self.guards, self.loops, self.stack, self.try_stack = saved
        if self.st is None:
            raise AnalysisBroken(f"module {name} never finishes")
        return m

    def fresh(self):
        """Start a new analysis from the module level state."""
        self.st = dict(self._base)
        self.guards, self.loops, self.stack, self.callnodes = [], [], [], []
        self.effects = []
        self.try_stack = []
        self.loop_ctl = []
        self.iter_events = []
        self.lookups = []
        self.facts_extra = set()
        self.frame = next(iter(self.modules.values())).frame

    def snapshot_base(self):
        self._base = dict(self.st)

    # ------------------------------------------------------------ variables

    def set_var(self, fr, name, v):
        self.st[(fr.id, name)] = v

    def lookup(self, name, fr=None):
        fr = fr or self.frame
        f = fr
        first = True
        while f is not None:
            if f.kind != "class" or first:
                if name in f.globals:
                    f = f.module.frame
                    continue
                v = self.st.get((f.id, name))
                if v is not None:
                    return v
            first = False
            f = f.parent
        if name in BUILTINS:
            return {"True": TRUE, "False": FALSE, "None": NONE}.get(name) or ext("builtins." + name)
        return mk("unbound", name)

    def assign_name(self, name, v):
        fr = self.frame
        if name in fr.globals:
            fr = fr.module.frame
        elif name in fr.nonlocals:
            f = fr.parent
            while f is not None:
                if f.kind == "func" and (f.id, name) in self.st:
                    fr = f
                    break
                f = f.parent
        self.st[(fr.id, name)] = v

    # ------------------------------------------------------------ types

    def ann(self, node, scope):
        """Resolve an annotation to an abstract type."""
        try:
            return self._ann(node, scope, 0)
        except RecursionError:
            return None

    def _ann(self, node, scope, depth):
        if node is None or depth > 25:
            return None
        if isinstance(node, ast.Constant):
            if node.value is None:
                return ("none",)
            if isinstance(node.value, str):
                try:
                    return self._ann(ast.parse(node.value, mode="eval").body, scope, depth + 1)
                except SyntaxError:
                    return None
            return None
        if isinstance(node, ast.BinOp) and isinstance(node.op, ast.BitOr):
            return self._union([self._ann(node.left, scope, depth + 1), self._ann(node.right, scope, depth + 1)])
        if isinstance(node, (ast.Name, ast.Attribute)):
            return self._ann_name(node, scope, depth)
        if isinstance(node, ast.Subscript):
            h = self._ann_head(node.value, scope)
            sl = node.slice
            args = list(sl.elts) if isinstance(sl, ast.Tuple) else [sl]
            if h in ("Optional",):
                return self._union([self._ann(args[0], scope, depth + 1), ("none",)])
            if h == "Union":
                return self._union([self._ann(a, scope, depth + 1) for a in args])
            if h in ("Annotated", "Final", "ClassVar", "Required"):
                return self._ann(args[0], scope, depth + 1)
            if h == "Literal":
                vals = []
                for a in args:
                    if isinstance(a, ast.Constant):
                        vals.append(a.value)
                    elif isinstance(a, ast.Name) and self._const_var(a.id, scope) is not None:
                        vals.append(cval(self._const_var(a.id, scope)))
                    else:
                        return ("litdyn",)
                return ("lit", tuple(vals))
            if h in ("List", "list", "Iterable", "Sequence", "Iterator", "Collection", "Generator", "deque"):
                return ("list", self._ann(args[0], scope, depth + 1))
            if h in ("Set", "set", "FrozenSet", "frozenset", "AbstractSet"):
                return ("set", self._ann(args[0], scope, depth + 1))
            if h in ("Dict", "dict", "Mapping", "MutableMapping", "DefaultDict", "defaultdict", "OrderedDict"):
                if len(args) == 2:
                    return ("dict", self._ann(args[0], scope, depth + 1), self._ann(args[1], scope, depth + 1))
                return ("dict", None, None)
            if h in ("Tuple", "tuple"):
                if len(args) == 2 and isinstance(args[1], ast.Constant) and args[1].value is Ellipsis:
                    return ("list", self._ann(args[0], scope, depth + 1))
                return ("tuple", tuple(self._ann(a, scope, depth + 1) for a in args))
            if h == "Callable":
                return ("callable", self._ann(args[-1], scope, depth + 1))
            if h in ("Type", "type"):
                return None
            return None
        return None

    def _const_var(self, name, scope):
        while scope is not None:
            for st in (self.st, getattr(self, "_base", None)):
                v = (st or {}).get((scope.id, name))
                if v is not None:
                    return v if v.op == "const" else None
            scope = scope.parent
        return None

    def _union(self, ts):
        out = []
        for t in ts:
            if t is not None and t[0] == "union":
                out.extend(x for x in t[1] if x not in out)
            elif t not in out:
                out.append(t)
        if len(out) == 1:
            return out[0]
        return ("union", tuple(out))

    def _ann_head(self, node, scope):
        if isinstance(node, ast.Attribute):
            return node.attr
        if isinstance(node, ast.Name):
            v = self.lookup(node.id, scope)
            if v.op == "ext":
                return v.a[0].split(".")[-1]
            return node.id
        return None

    def _ann_name(self, node, scope, depth):
        simple = {
            "str": ("str",), "int": ("int",), "float": ("float",), "bool": ("bool",), "bytes": ("ext", "builtins.bytes"),
            "Any": None, "object": None, "dict": ("dict", None, None), "list": ("list", None), "set": ("set", None),
            "tuple": ("list", None), "Dict": ("dict", None, None), "List": ("list", None), "None": ("none",),
        }
        if isinstance(node, ast.Name):
            f = scope
            while f is not None:
                v = self.st.get((f.id, node.id)) if self.st is not None else None
                if v is not None and v.op == "class":
                    return ("cls", v)
                if node.id in f.asts:
                    return self._ann(f.asts[node.id], f, depth + 1)
                if v is not None and v.op == "repo_import":
                    pass
                f = f.parent
            v = self.lookup(node.id, scope)
            if v.op == "alias":  # imported module level alias of another module
                m = self.modules[v.a[0]]
                return self._ann(m.frame.asts[v.a[1]], m.frame, depth + 1)
            if v.op == "ext":
                n = v.a[0].split(".")[-1]
                if v.a[0].split(".")[0] in ("builtins", "typing", "typing_extensions") and n in simple:
                    return simple[n]
                return ("ext", v.a[0])
            return simple.get(node.id)
        v = self._try_pure(node, scope)
        if v is not None and v.op == "class":
            return ("cls", v)
        if v is not None and v.op == "ext":
            return ("ext", v.a[0])
        return None

    def _try_pure(self, node, scope):
        if isinstance(node, ast.Name):
            return self.lookup(node.id, scope)
        if isinstance(node, ast.Attribute):
            b = self._try_pure(node.value, scope)
            if b is None:
                return None
            if b.op == "class":
                return self.classes[b].attrs.get(node.attr)
            if b.op == "ext":
                return ext(b.a[0] + "." + node.attr)
            if b.op == "module":
                return self.st.get((self.modules[b.a[0]].frame.id, node.attr))
        return None

    # class helpers

    def mro(self, c):
        out, seen = [], set()

        def go(t):
            if t in seen:
                return
            seen.add(t)
            out.append(t)
            if t.op == "class":
                for b in self.classes[t].bases:
                    go(b)

        go(c)
        return out

    def subclasses(self, c):
        out = []
        for t in self.classes:
            if t is not c and c in self.mro(t):
                out.append(t)
        return out

    def is_abstract(self, c):
        """Class has an abstract method which is not overridden."""
        seen = set()
        for k in self.mro(c):
            if k.op != "class":
                continue
            for n, v in self.classes[k].attrs.items():
                if n in seen:
                    continue
                seen.add(n)
                if v.op == "func" and any(
                    isinstance(d, (ast.Name, ast.Attribute)) and (getattr(d, "id", None) or d.attr) == "abstractmethod"
                    for d in self.funcs[v].decorators
                ):
                    return True
        return False

    def find_attr(self, c, name, after=None):
        """(defining class, value) of a class attribute in the MRO."""
        m = self.mro(c)
        if after is not None and after in m:
            m = m[m.index(after) + 1 :]
        for k in m:
            if k.op == "class":
                v = self.classes[k].attrs.get(name)
                if v is not None:
                    return k, v
            elif k.op == "ext" and k.a[0] not in ("builtins.object", "abc.ABC"):
                return k, None
        return None, None

    def field_info(self, c, name):
        for k in self.mro(c):
            if k.op == "class":
                f = self.classes[k].fields.get(name)
                if f is not None:
                    return k, f
        return None, None

    def all_fields(self, c):
        out = {}
        for k in reversed(self.mro(c)):
            if k.op == "class":
                for n, f in self.classes[k].fields.items():
                    out[n] = (k, f)
        return out

    def is_pydantic(self, c):
        return any(k.op == "ext" and k.a[0] == "pydantic.BaseModel" for k in self.mro(c))

    def type_of(self, t):
        """Abstract type of a term or None."""
        r = self._type_of(t)
        if r is not None and r[0] == "union":
            # refine by the active guards
            alts = list(r[1])
            for g in self.fact_set():
                neg = g.op == "not"
                a = g.a[0] if neg else g
                if a.op == "isinst" and a.a[0] is t:
                    cl = a.a[1]
                    keep = [x for x in alts if x is not None and self._ty_match(x, cl) is not False]
                    if neg:
                        keep = [x for x in alts if x is None or self._ty_match(x, cl) is not True]
                    alts = keep
                if a.op == "is" and a.a[0] is t and a.a[1] is NONE:
                    alts = [x for x in alts if (x == ("none",)) != neg]
                if a.op == "truth" and a.a[0] is t and not neg:
                    alts = [x for x in alts if x != ("none",)]
            if len(alts) == 1:
                return alts[0]
            return ("union", tuple(alts)) if alts else None
        if r is None or r[0] == "cls":
            for g in self.fact_set():
                if g.op == "isinst" and g.a[0] is t and g.a[1].op == "class":
                    return ("cls", g.a[1])
        return r

    def _ty_match(self, ty, cl):
        """Is a value of type ty an instance of class term cl? True/False/None."""
        if ty is None:
            return None
        if cl.op == "ext":
            n = cl.a[0].split(".")[-1]
            table = {"list": "list", "dict": "dict", "set": "set", "str": "str", "int": "int", "float": "float", "bool": "bool"}
            if cl.a[0].startswith("builtins.") and n in table:
                if ty[0] in ("list", "dict", "set", "str", "int", "float", "bool", "none", "lit", "tuple"):
                    k = ty[0]
                    if k == "lit":
                        ks = {type(v).__name__ for v in ty[1]}
                        return n in ks if len(ks) == 1 else None
                    return k == n or (k == "bool" and n == "int")
                if ty[0] == "cls":
                    return False
            if ty[0] == "cls":
                return True if cl in self.mro(ty[1]) else None
            return None
        if cl.op == "class":
            if ty[0] == "cls":
                if cl in self.mro(ty[1]):
                    return True
                if ty[1] in self.mro(cl):
                    return None
                return False
            if ty[0] in ("list", "dict", "set", "str", "int", "float", "bool", "none", "lit", "tuple"):
                return False
        return None

    def _type_of(self, t):
        r = self.types.get(t)
        if r is not None:
            return r
        if t in self._ty_busy:
            return None
        self._ty_busy.add(t)
        try:
            return self._type_of2(t)
        finally:
            self._ty_busy.discard(t)

    def _type_of2(self, t):
        o = t.op
        if o == "const":
            return {str: ("str",), int: ("int",), float: ("float",), bool: ("bool",), type(None): ("none",)}.get(type(t.a[0]))
        if o == "fstr":
            return ("str",)
        if o == "obj":
            ob = self.objs[t]
            if ob.kind == "inst":
                return ("cls", ob.cls)
            if ob.ty:
                return ob.ty
            if t in self.open:
                # what the loop under way adds is not known yet
                return (ob.kind, None, None) if ob.kind == "dict" else (ob.kind, None) if ob.kind in ("list", "set") else None
            if ob.kind in ("list", "set"):
                ts = []
                for c in ob.contribs:
                    if c.op in ("add", "insert"):
                        ts.append(self._type_of(c.val))
                    elif c.op == "extend":
                        e = self._type_of(c.val)
                        ts.append(e[1] if e and e[0] in ("list", "set") else None)
                return (ob.kind, self._union(ts) if ts else None)
            if ob.kind == "dict":
                vs = [self._type_of(c.val) for c in ob.contribs if c.op in ("set", "default")]
                ks = [self._type_of(c.key) for c in ob.contribs if c.op in ("set", "default")]
                return ("dict", self._union(ks) if ks else None, self._union(vs) if vs else None)
            return None
        if o == "tuple":
            return ("tuple", tuple(self._type_of(x) for x in t.a))
        if o == "attr":
            b = self.type_of(t.a[0])
            r = self._attr_type(b, t.a[1])
        elif o == "item":
            b = self.type_of(t.a[0])
            if b is not None and b[0] == "union":
                bs = [x for x in b[1] if x is not None and x[0] in ("dict", "list", "tuple")]
                b = bs[0] if len(bs) == 1 else b
            if b is None:
                r = None
            elif b[0] == "dict":
                r = b[2]
            elif b[0] == "list":
                r = b[1]
            elif b[0] == "str":
                r = ("str",)
            elif b[0] == "tuple" and is_const(t.a[1]) and isinstance(cval(t.a[1]), int) and -len(b[1]) <= cval(t.a[1]) < len(b[1]):
                r = b[1][cval(t.a[1])]
            else:
                r = None
        elif o == "at":
            b = self.type_of(t.a[0])
            if b is not None and b[0] == "union":
                bs = [x for x in b[1] if x is not None and x[0] in ("list", "set", "dict")]
                b = bs[0] if len(bs) == 1 else b
            r = None
            if b is not None and b[0] in ("list", "set"):
                r = b[1]
            elif b is not None and b[0] == "dict":
                r = b[1]
            elif b is not None and b[0] == "str":
                r = ("str",)
        elif o == "key":
            b = self.type_of(t.a[0])
            r = b[1] if b is not None and b[0] == "dict" else None
        elif o == "idx":
            r = ("int",)
        elif o == "phi":
            a, b = self._type_of(t.a[1]), self._type_of(t.a[2])
            r = a if a == b else (self._union([a, b]) if a is not None and b is not None else None)
        elif o in ("mu", "fin"):
            r = self._type_of(t.a[2]) if o == "mu" else self._type_of(t.a[0])
            if r == ("none",):
                r = None
        elif o == "call":
            r = None
            f = t.a[0]
            if f.op == "attr" and f.a[1] in ("split", "rsplit", "splitlines") :
                r = ("list", ("str",))
            elif f.op == "attr" and f.a[1] in ("strip", "lower", "upper", "replace", "join", "format", "rstrip", "lstrip", "title", "decode"):
                r = ("str",)
            elif f.op == "attr" and f.a[1] == "model_copy":
                r = self._type_of(f.a[0])
            elif is_ext(f, "builtins.str", "builtins.repr", "re.sub", "os.path.join"):
                r = ("str",)
            elif is_ext(f, "builtins.len", "builtins.int"):
                r = ("int",)
            elif is_ext(f, "builtins.sorted", "builtins.reversed", "builtins.list", "builtins.tuple"):
                r = self._type_of(t.a[1][0]) if t.a[1] else None
                if r is not None and r[0] == "set":
                    r = ("list", r[1])
            elif is_ext(f, "builtins.set", "builtins.frozenset"):
                r = self._type_of(t.a[1][0]) if t.a[1] else None
                if r is not None and r[0] == "list":
                    r = ("set", r[1])
            elif f.op == "func":
                fn = self.funcs[f]
                if not isinstance(fn.node, ast.Lambda):
                    r = self.ann(fn.node.returns, fn.frame)
            elif f.op == "bound":
                fn = self.funcs[f.a[0]]
                if not isinstance(fn.node, ast.Lambda):
                    r = self.ann(fn.node.returns, fn.frame)
        else:
            r = None
            if is_bool(t):
                r = ("bool",)
        if r is not None:
            self.types[t] = r if o not in ("obj",) else r
            if o in ("phi", "at", "item") and contains(t, lambda x: x.op == "obj"):
                self.types.pop(t, None)
        return r

    def _attr_type(self, b, name):
        if b is None:
            return None
        if b[0] == "union":
            rs = []
            for x in b[1]:
                if x == ("none",):
                    continue
                rs.append(self._attr_type(x, name))
            rs = [r for r in rs if r is not None]
            if not rs:
                return None
            return self._union(rs)
        if b[0] == "cls":
            k, f = self.field_info(b[1], name)
            if f is not None:
                return self.ann(f[0], self.classes[k].frame)
            # instance attribute assigned in methods
            return self.inst_attr_type(b[1], name)
        return None

    def inst_attr_type(self, c, name):
        """Type of self.<name> from assignments in the methods of the class."""
        for k in self.mro(c):
            if k.op != "class":
                continue
            ci = self.classes[k]
            for v in ci.attrs.values():
                if v.op != "func":
                    continue
                fn = self.funcs[v]
                if isinstance(fn.node, ast.Lambda):
                    continue
                for n in ast.walk(fn.node):
                    if (
                        isinstance(n, ast.AnnAssign)
                        and isinstance(n.target, ast.Attribute)
                        and n.target.attr == name
                        and isinstance(n.target.value, ast.Name)
                        and n.target.value.id == "self"
                    ):
                        return self.ann(n.annotation, fn.frame)
                    if isinstance(n, ast.Assign):
                        for tg in n.targets:
                            if (
                                isinstance(tg, ast.Attribute)
                                and tg.attr == name
                                and isinstance(tg.value, ast.Name)
                                and tg.value.id == "self"
                                and isinstance(n.value, ast.Name)
                            ):
                                for a in fn.node.args.args + fn.node.args.kwonlyargs:
                                    if a.arg == n.value.id and a.annotation is not None:
                                        return self.ann(a.annotation, fn.frame)
                            # self.x = [Cls.ctor(..) for ..]
                            if (
                                isinstance(tg, ast.Attribute)
                                and tg.attr == name
                                and isinstance(tg.value, ast.Name)
                                and tg.value.id == "self"
                                and isinstance(n.value, ast.ListComp)
                                and isinstance(n.value.elt, ast.Call)
                            ):
                                f = n.value.elt.func
                                if isinstance(f, ast.Attribute):
                                    b = self._try_pure(f.value, fn.frame)
                                    if b is not None and b.op == "class":
                                        return ("list", ("cls", b))
                                if isinstance(f, ast.Name):
                                    b = self._try_pure(f, fn.frame)
                                    if b is not None and b.op == "class":
                                        return ("list", ("cls", b))
        return None

    # ------------------------------------------------------------ guards

    def fact_set(self):
        s = set()
        for g, _ in self.guards:
            if g.op == "and":
                s.update(g.a)
            else:
                s.add(g)
        s |= self.facts_extra
        return s

    def cond(self, c):
        """Simplify a boolean under the active guards."""
        if c in (TRUE, FALSE):
            return c
        c = self.assume_all(c)
        if c in (TRUE, FALSE):
            return c
        return simp(c, self.fact_set())

    def assume_all(self, c):
        if self.assume is None:
            return c
        if c.op in ("and", "or", "not"):
            f = {"and": and_, "or": or_, "not": not_}[c.op]
            return f(*[self.assume_all(x) for x in c.a])
        r = self.assume(c)
        return c if r is None else (TRUE if r else FALSE)

    def push(self, c, tag):
        if c is not TRUE:
            self.guards.append((c, tag))

    # ------------------------------------------------------------ effects

    def effect(self, kind, fn, args, kw, node, result=None):
        self.seq += 1
        e = Effect(
            kind=kind, fn=fn, args=tuple(args), kw=tuple(kw), guards=tuple(self.guards), loops=tuple(self.loops),
            node=node, module=self.frame.module, stack=tuple(f.qual for f in self.stack), result=result, seq=self.seq,
            calls=tuple(self.callnodes), tries=tuple(r["uid"] for r in self.try_stack if "uid" in r),
        )
        self.effects.append(e)
        return e

    def contrib(self, o, op, key, val, node):
        self.seq += 1
        ob = self.objs[o]
        if val is not None and not is_const(val) and any(g.op == "is" and g.a[0] is val and g.a[1] is NONE for g, _ in self.guards):
            val = NONE
        c = Contrib(op, key, val, tuple(self.guards), tuple(self.loops), node, self.seq, o)
        c.module, c.stack = self.frame.module, tuple(f.qual for f in self.stack)
        ob.contribs.append(c)
        self.journal.append(ob)
        return c

    def new_obj(self, kind, cls=None, node=None, ty=None):
        o = mk("obj", uid())
        ob = Obj(kind, cls, node)
        ob.ty = ty
        ob.loops = tuple(self.loops)
        self.objs[o] = ob
        return o

    def new_list(self, elems, node=None, kind="list"):
        o = self.new_obj(kind, node=node)
        for e in elems:
            if e.op == "star" and len(elems) > 1:
                self.extend(o, e.a[0], node)
            elif e.op == "star":
                self.contrib(o, "extend", None, e.a[0], node)
            else:
                self.contrib(o, "add", None, e, node)
        return o

    # ------------------------------------------------------------ sequences

    def canon(self, t):
        """Immutable view of simple containers (copies of another sequence)."""
        while t.op == "obj" and self.objs[t].kind == "list":
            cs = self.objs[t].contribs
            if len(cs) == 1 and cs[0].op == "extend" and not self.rel_guards(cs[0]) and not self.rel_loops(cs[0]):
                t = cs[0].val
            else:
                break
        return t

    def rel_guards(self, c):
        act = self.fact_set()
        out = []
        for g, tag in c.guards:
            g2 = simp(g, act)
            if g2 is not TRUE:
                out.append((g2, tag))
        return out

    def rel_loops(self, c):
        cur = {l.uid for l in self.loops}
        return [l for l in c.loops if l.uid not in cur]

    def mk_loop(self, seq, node=None, unordered=False, rev=False):
        n = 0
        cur = {l.term for l in self.loops}
        while mk("loop", seq, n) in cur:
            n += 1
        return Loop(mk("loop", seq, n), unordered, rev, node)

    def rename_loops(self, c_loops, *ts):
        """Make loop terms distinct from those currently active."""
        cur = {l.term for l in self.loops}
        mapping = {}
        out = []
        for l in c_loops:
            if l.term in cur or l.term in [o.term for o in out]:
                n = l.term.a[1]
                while mk("loop", l.term.a[0], n) in cur:
                    n += 1
                nt = mk("loop", l.term.a[0], n)
                mapping[l.term] = nt
                out.append(Loop(nt, l.unordered, l.rev, l.node, l.sort))
            else:
                out.append(Loop(l.term, l.unordered, l.rev, l.node, l.sort))
        if mapping:
            ts = tuple(subst(t, mapping) if isinstance(t, T) else t for t in ts)
        return (out,) + tuple(ts)

    def is_set_like(self, t):
        if t.op == "obj":
            return self.objs[t].kind == "set"
        ty = self.type_of(t)
        return ty is not None and ty[0] == "set"

    def pieces(self, t, node=None, depth=0):
        """Generic elements of an iterable value."""
        if depth > 12:
            return [Piece(mk("at", t, self.mk_loop(t, node).term), [self.mk_loop(t, node)])]
        d = depth + 1
        if t.op == "phi":
            c = self.cond(t.a[0])
            if c is TRUE:
                return self.pieces(t.a[1], node, d)
            if c is FALSE:
                return self.pieces(t.a[2], node, d)
            out = []
            for cc, v in ((c, t.a[1]), (not_(c), t.a[2])):
                if v is NONE:
                    continue
                self.guards.append((cc, "branch"))
                ps = self.pieces(v, node, d)
                self.guards.pop()
                out.extend(Piece(p.elem, p.loops, ((cc, "branch"),) + p.guards, p.key) for p in ps)
            return out
        if t.op == "tuple":
            out = []
            for x in t.a:
                if x.op == "star":
                    out.extend(self.pieces(x.a[0], node, d))
                else:
                    out.append(Piece(x))
            return out
        if t.op == "const" and isinstance(cval(t), (str, tuple)):
            if len(cval(t)) <= 8 and isinstance(cval(t), tuple):
                return [Piece(const(x)) for x in cval(t)]
        if t.op == "obj":
            ob = self.objs[t]
            if ob.kind in ("list", "set"):
                out = []
                for c in self.effective(ob.contribs):
                    if c.op == "del" and c.key is not None and c.key.op == "const" and cval(c.key) in ("sort", "reverse") and ob.kind == "list":
                        srt = cval(c.key) == "sort"
                        flip = not srt or (c.val is not None and c.val is not NONE)
                        for p in out:
                            p.loops = tuple(Loop(l.term, l.unordered and (not srt or c.by is not None), l.rev != flip if not srt else flip, l.node, l.sort is True or (srt and (c.by if c.by is not None else True)) or l.sort) for l in p.loops)
                        if flip:
                            out.reverse()
                        continue
                    if c.op in ("diff", "inter") and out and not self.rel_loops(c) and c.val is not None:
                        g0 = and_(*[g for g, _ in self.rel_guards(c)])
                        for p in out:
                            m = self.at_copy(c, lambda: self.in_(p.elem, c.val))
                            p.guards = tuple(p.guards) + ((or_(not_(g0), not_(m) if c.op == "diff" else m), "branch"),)
                        continue
                    if c.op in ("del", "diff", "inter", "discard", "setitem"):
                        continue
                    rg = self.rel_guards(c)
                    rl = self.rel_loops(c)
                    if any(l.term.a[0] is t for l in self.loops):
                        continue  # worklist growing during its own iteration
                    gs = tuple(g for g, _ in rg)
                    loops, val, *gs = self.rename_loops(rl, c.val, *gs)
                    tags = [tag for _, tag in rg]
                    if ob.kind == "set":
                        for l in loops:
                            l.unordered, l.sort = True, False
                    if c.op == "insert" and ob.kind == "list" and c.key is not None and c.key.op == "const" and cval(c.key) == 0:
                        # each one goes before those already there
                        out.insert(0, Piece(val, [Loop(l.term, l.unordered, not l.rev, l.node, l.sort) for l in loops], list(zip(gs, tags))))
                    elif c.op in ("add", "insert"):
                        out.append(Piece(val, loops, list(zip(gs, tags))))
                    elif c.op == "extend":
                        n = len(self.loops)
                        self.loops.extend(loops)
                        for p in self.at_copy(c, lambda: self.pieces(val, node, d)):
                            ls = p.loops
                            if ob.kind == "set":
                                for l in ls:
                                    l.unordered, l.sort = True, False
                            out.append(Piece(p.elem, list(loops) + list(ls), list(zip(gs, tags)) + list(p.guards)))
                        del self.loops[n:]
                if ob.kind == "set" and len(out) > 1:
                    for p in out:
                        if not p.loops:
                            p.loops = (Loop(mk("loop", t, 0), True),)
                return out
            if ob.kind == "dict":
                cs = self.effective(ob.contribs)
                if all(c.op in ("set",) and not self.rel_loops(c) for c in cs):
                    return [Piece(c.key, (), self.rel_guards(c)) for c in cs]
                return [p for p in self.dict_pieces(t, "keys", node)]
            if ob.kind == "inst":
                m = self.find_attr(ob.cls, "__iter__")[1]
                if m is not None and m.op == "func":
                    return self.pieces(self.call(mk("bound", m, t), [], [], node), node, d)
        if t.op == "genexp":
            o = self.materialise(t, node)
            return self.pieces(o, node, d)
        if t.op == "gencall":
            o = self.materialise(t, node)
            return self.pieces(o, node, d)
        if t.op == "view":
            kind, base = t.a
            return self.dict_pieces(base, kind, node)
        if t.op == "zip":
            return self.zip_pieces(t, node, d)
        if t.op == "enum":
            base, start = t.a
            out = []
            ps = self.pieces(base, node, d)
            for n, p in enumerate(ps):
                if any(l.sort for l in p.loops):
                    i = mk("rankof", base, p.elem)
                elif len(p.loops) == 1 and len(ps) == 1:
                    i = mk("idx", p.loops[0].term) if not p.guards else mk("rank", p.loops[0].term, and_(*[g for g, _ in p.guards]))
                elif not p.loops and all(not q.loops and not q.guards for q in ps[: n + 1]):
                    i = const(n)
                else:
                    i = mk("rankof", base, p.elem)
                if not is_const(start, 0):
                    i = self.binop("+", i, start)
                out.append(Piece(mk("tuple", i, p.elem), p.loops, p.guards))
            return out
        if t.op == "range":
            lo, hi, step = t.a
            if is_const(lo, 0) and is_const(step, 1) and hi.op == "call" and is_ext(hi.a[0], "builtins.len"):
                base = self.canon(hi.a[1][0])
                bp = self.single_loop(base)
                l = self.mk_loop(base if bp is None else bp, node)
                return [Piece(mk("idx", l.term), [l])]
            if is_const(lo) and is_const(hi) and is_const(step) and all(isinstance(cval(x), int) for x in t.a):
                r = range(cval(lo), cval(hi), cval(step))
                if len(r) <= 4:
                    return [Piece(const(i)) for i in r]
            l = self.mk_loop(t, node)
            return [Piece(mk("at", t, l.term), [l])]
        if t.op == "call":
            f = t.a[0]
            if is_ext(f, "builtins.sorted") or is_ext(f, "builtins.reversed"):
                out = []
                rev = is_ext(f, "builtins.reversed") or any(k == "reverse" and v is TRUE for k, v in t.a[2])
                srt = is_ext(f, "builtins.sorted") and next((v for k, v in t.a[2] if k == "key" and v is not NONE), True)
                for p in self.pieces(t.a[1][0], node, d):
                    ls = [Loop(l.term, l.unordered and srt is not True, l.rev != rev, l.node, l.sort is True or srt or l.sort) for l in p.loops]
                    out.append(Piece(p.elem, ls, p.guards))
                if rev:
                    out.reverse()
                return out
            if is_ext(f, "builtins.set", "builtins.frozenset"):
                out = []
                for p in self.pieces(t.a[1][0], node, d):
                    ls = [Loop(l.term, True, l.rev, l.node) for l in p.loops]
                    out.append(Piece(p.elem, ls, p.guards))
                return out
            if is_ext(f, "builtins.map") and len(t.a[1]) == 2:
                o = self.new_obj("list", node=node)
                for p in self.pieces(t.a[1][1], node, d):
                    self.under(p, lambda: self.contrib(o, "add", None, self.call(t.a[1][0], [p.elem], [], node), node))
                return self.pieces(o, node, d)
            if is_ext(f, "builtins.filter") and len(t.a[1]) == 2:
                out = []
                for p in self.pieces(t.a[1][1], node, d):
                    def go():
                        c = p.elem if t.a[1][0] is NONE else self.call(t.a[1][0], [p.elem], [], node)
                        return self.truth(c)
                    c = self.under(p, go)
                    out.append(Piece(p.elem, p.loops, p.guards + ((c, "branch"),)))
                return out
            if is_ext(f, "itertools.chain"):
                out = []
                for a in t.a[1]:
                    if a.op == "star":
                        for p in self.pieces(a.a[0], node, d):
                            n = len(self.loops)
                            self.loops.extend(p.loops)
                            m = len(self.guards)
                            self.guards.extend(p.guards)
                            for q in self.pieces(p.elem, node, d):
                                out.append(Piece(q.elem, p.loops + q.loops, p.guards + q.guards))
                            del self.loops[n:]
                            del self.guards[m:]
                    else:
                        out.extend(self.pieces(a, node, d))
                return out
            if is_ext(f, "itertools.chain.from_iterable"):
                return self.pieces(mk("call", ext("itertools.chain"), (mk("star", t.a[1][0]),), ()), node, d)
            if is_ext(f, "builtins.iter", "builtins.list", "builtins.tuple", "copy.copy", "copy.deepcopy"):
                return self.pieces(t.a[1][0], node, d)
            if f.op == "attr" and f.a[1] in ("copy",):
                return self.pieces(f.a[0], node, d)
        if t.op == "bin" and t.a[0] == "*":
            for rep_, n in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                if rep_.op == "tuple" or rep_.op == "obj" and self.objs[rep_].kind == "list":
                    ps = self.pieces(rep_, node, d)
                    if len(ps) == 1 and not ps[0].loops and not ps[0].guards:
                        src = n.a[0] if n.op == "len" else n.a[1][0] if n.op == "call" and is_ext(n.a[0], "builtins.len") else None
                        if src is not None:
                            return [Piece(ps[0].elem, q.loops, q.guards) for q in self.pieces(src, node, d)]
                        return [Piece(ps[0].elem, [self.mk_loop(t, node)])]
        if t.op == "slice":
            base, lo, hi, step = t.a
            if lo is NONE and hi is NONE and is_const(step, -1):
                return self.pieces(mk("call", ext("builtins.reversed"), (base,), ()), node, d)
            if lo is NONE and hi is NONE and step is NONE:
                return self.pieces(base, node, d)
        ty = self.type_of(t)
        unordered = ty is not None and ty[0] == "set"
        l = self.mk_loop(t, node, unordered)
        if ty is not None and ty[0] == "dict":
            return [Piece(mk("key", t, l.term), [l])]
        return [Piece(mk("at", t, l.term), [l])]

    asof = None

    def at_copy(self, c, f):
        """What f finds in a container as it was when c took its elements."""
        old = self.asof
        self.asof = (c.seq, {l.uid for l in c.loops}, c.val)
        try:
            return f()
        finally:
            self.asof = old

    def effective(self, cs):
        """Contributions after the last definite clear (and before the moment a copy was made)."""
        out = []
        for c in cs:
            if self.asof is not None and c.obj is self.asof[2] and c.seq > self.asof[0] and not any(l.uid in self.asof[1] for l in c.loops):
                continue
            if c.op == "clear":
                if not self.rel_guards(c) and not self.rel_loops(c):
                    out = []
                    continue
                # conditional clear: earlier contributions only count if not cleared
                g = and_(*[x for x, _ in self.rel_guards(c)])
                new = []
                for p in out:
                    q = Contrib(p.op, p.key, p.val, p.guards + ((not_(g), "branch"),), p.loops, p.node, p.seq, p.obj)
                    q.module, q.stack = p.module, p.stack
                    new.append(q)
                out = new
                continue
            out.append(c)
        return out

    def single_loop(self, t):
        """Underlying sequence if t is a plain element-wise image of it."""
        t = self.canon(t)
        if t.op == "obj" and self.objs[t].kind == "list":
            cs = self.effective(self.objs[t].contribs)
            cs = [c for c in cs if c.op != "setitem"]
            # an error ends the run, it leaves no element out
            if len(cs) == 1 and not [g for g, tag in self.rel_guards(cs[0]) if tag != "raise"]:
                rl = self.rel_loops(cs[0])
                if cs[0].op == "add" and len(rl) == 1:
                    return rl[0].term.a[0]
                if cs[0].op == "extend" and not rl:
                    return self.single_loop(cs[0].val)
            return None
        if t.op in ("genexp", "gencall", "tuple", "phi", "range", "zip", "enum"):
            return None
        return t

    def zip_pieces(self, t, node, d):
        seqs = [self.canon(x) for x in t.a]
        if all(s.op == "tuple" and not any(e.op == "star" for e in s.a) for s in seqs):
            n = min(len(s.a) for s in seqs)
            return [Piece(mk("tuple", *[s.a[i] for s in seqs])) for i in range(n)]
        defs = [self.definite(s) for s in seqs]
        if all(x is not None for x in defs):
            n = min(len(x) for x in defs)
            return [Piece(mk("tuple", *[x[i] for x in defs])) for i in range(n)]
        # materialise generators first
        seqs = [self.materialise(s, node) if s.op in ("genexp", "gencall") else s for s in seqs]
        bases = [self.single_loop(s) for s in seqs]
        base = None
        if all(b is not None for b in bases) and all(b is bases[0] for b in bases):
            base = bases[0]
        rng = [s for s in seqs if s.op == "range"]
        if base is None:
            base = mk("zip", *[b if b is not None else s for b, s in zip(bases, seqs)])
        l = self.mk_loop(base, node, any(self.is_set_like(s) for s in seqs))
        elems = []
        for s, b in zip(seqs, bases):
            s = self.canon(s)
            if s.op == "obj" and b is not None:
                cs = [c for c in self.effective(self.objs[s].contribs) if c.op != "setitem"]
                c = cs[0]
                if c.op == "extend":
                    elems.append(self.elem_at(s, l))
                    continue
                lt = self.rel_loops(c)[0].term
                elems.append(subst(c.val, {lt: l.term}))
            else:
                elems.append(self.elem_at(s, l))
        return [Piece(mk("tuple", *elems), [l])]

    def elem_at(self, s, l):
        s = self.canon(s)
        if s.op == "view" and s.a[0] == "keys":
            return mk("key", s.a[1], l.term)
        ty = self.type_of(s)
        if ty is not None and ty[0] == "dict":
            return mk("key", s, l.term)
        if s.op == "phi":
            return phi(s.a[0], self.elem_at(s.a[1], l), self.elem_at(s.a[2], l))
        if s.op == "bin" and s.a[0] == "*":
            for x in s.a[1:]:
                el = self.definite(x)
                if el is not None and len(el) == 1:
                    return el[0]
        return mk("at", s, l.term)

    def definite(self, t):
        """List of elements if the length is statically known."""
        t = self.canon(t)
        if t.op == "tuple":
            return None if any(e.op == "star" for e in t.a) else list(t.a)
        if t.op == "const" and isinstance(cval(t), tuple):
            return [const(x) for x in cval(t)]
        if t.op == "obj" and self.objs[t].kind == "list":
            out = []
            for c in self.effective(self.objs[t].contribs):
                if self.rel_guards(c) or self.rel_loops(c):
                    return None
                if c.op == "add":
                    out.append(c.val)
                elif c.op == "extend":
                    e = self.definite(c.val)
                    if e is None:
                        return None
                    out.extend(e)
                else:
                    return None
            return out
        return None

    def dict_pieces(self, d, kind, node):
        if d.op == "phi":
            c = self.cond(d.a[0])
            if c is TRUE:
                return self.dict_pieces(d.a[1], kind, node)
            if c is FALSE:
                return self.dict_pieces(d.a[2], kind, node)
            out = []
            for cc, v in ((c, d.a[1]), (not_(c), d.a[2])):
                for p in self.dict_pieces(v, kind, node):
                    out.append(Piece(p.elem, p.loops, ((cc, "branch"),) + p.guards))
            return out
        if d.op == "obj" and self.objs[d].kind == "dict":
            cs = self.effective(self.objs[d].contribs)
            if len(cs) == 1 and cs[0].op == "extend" and not self.rel_guards(cs[0]) and not self.rel_loops(cs[0]):
                return self.dict_pieces(cs[0].val, kind, node)
            if all(c.op == "set" and not self.rel_loops(c) for c in cs):
                out = []
                for c in cs:
                    e = {"keys": c.key, "values": c.val, "items": mk("tuple", c.key, c.val)}[kind]
                    out.append(Piece(e, (), self.rel_guards(c)))
                return out
        l = self.mk_loop(d, node)
        if d.op == "obj":
            l.unordered = any(x.unordered for c in self.objs[d].contribs for x in c.loops if c.op in ("set", "default", "extend"))
        k = mk("key", d, l.term)
        v = self.item(d, k)
        e = {"keys": k, "values": v, "items": mk("tuple", k, v)}[kind]
        return [Piece(e, [l])]

    def under(self, p, f):
        n, m = len(self.loops), len(self.guards)
        self.loops.extend(p.loops)
        for g, tag in p.guards:
            self.push(g, tag)
        try:
            return f()
        finally:
            del self.loops[n:]
            del self.guards[m:]

    def materialise(self, t, node):
        """Run a generator value and collect its elements into a list."""
        o = self.new_obj("list", node=node)
        self.consume(t, node)

        def each(v):
            self.contrib(o, "add", None, v, node)

        if t.op == "genexp":
            info = self.gens[t]
            if info.get("cache") is not None:
                return info["cache"]
            self.run_comp(info["node"].generators, 0, info["frame"], lambda: each(self.eval(info["node"].elt)))
        elif t.op == "gencall":
            self.run_gen(t, each)
        return o

    def consume(self, t, node):
        info = self.gens.get(t)
        if info is not None:
            self.iter_events.append((t, info, tuple(self.loops), tuple(self.guards), node, self.frame.module))

    # ------------------------------------------------------------ truth

    def truth(self, v):
        o = v.op
        if o == "const":
            return TRUE if cval(v) else FALSE
        if is_bool(v):
            return self.cond(v)
        if o == "phi":
            a, b = self.truth(v.a[1]), self.truth(v.a[2])
            return or_(and_(v.a[0], a), and_(not_(v.a[0]), b))
        if o in ("func", "class", "bound", "partial", "module", "gencall", "genexp", "ext"):
            return TRUE
        if o == "tuple":
            return TRUE if v.a else FALSE
        if o == "obj":
            ob = self.objs[v]
            if ob.kind == "inst":
                if self.find_attr(ob.cls, "__bool__")[1] is None and self.find_attr(ob.cls, "__len__")[1] is None:
                    return TRUE
                return mk("truth", v)
            cv = self.canon(v)
            if cv is not v:
                return self.truth(cv)
            cs = self.effective(ob.contribs)
            if not cs:
                return FALSE
            conds = []
            for c in cs:
                if c.op in ("add", "set", "insert", "default"):
                    g = and_(*[x for x, _ in self.rel_guards(c)])
                    rl = self.rel_loops(c)
                    for l in reversed(rl):
                        g = self.mk_exists(l.term, g)
                    conds.append(g)
                elif c.op == "extend":
                    g = and_(*[x for x, _ in self.rel_guards(c)])
                    rl = self.rel_loops(c)
                    g = and_(g, self.truth(c.val))
                    for l in reversed(rl):
                        g = self.mk_exists(l.term, g)
                    conds.append(g)
                else:
                    return self.cond(mk("truth", v))
            return self.cond(or_(*conds))
        if o == "call":
            f = v.a[0]
            if is_ext(f, "builtins.bool", "builtins.len", "builtins.list", "builtins.tuple", "builtins.set", "builtins.sorted", "builtins.dict", "builtins.frozenset") and len(v.a[1]) == 1:
                return self.truth(v.a[1][0])
        if o == "view":
            return self.truth(v.a[1])
        if o == "fstr":
            if any(isinstance(x, str) and x for x in v.a):
                return TRUE
        ty = self.type_of(v)
        if ty is not None:
            if ty[0] == "cls" and self.find_attr(ty[1], "__bool__")[1] is None and self.find_attr(ty[1], "__len__")[1] is None:
                return TRUE
            if ty[0] == "union" and all(
                x is not None and (x == ("none",) or (x[0] == "cls" and self.find_attr(x[1], "__bool__")[1] is None and self.find_attr(x[1], "__len__")[1] is None))
                for x in ty[1]
            ):
                return self.cond(not_(self.is_(v, NONE)))
            if ty == ("none",):
                return FALSE
        return self.cond(mk("truth", v))

    def mk_exists(self, loop, c):
        if c is FALSE:
            return FALSE
        if c is TRUE:
            return mk("truth", loop.a[0]) if loop.a[0].op != "while" else TRUE
        return mk("exists", loop, c)

    def is_(self, a, b):
        if b.op == "const" and cval(b) is None or b.op == "const" and cval(b) in (True, False) and isinstance(cval(b), bool):
            if a.op == "const":
                return TRUE if a is b else FALSE
            if a.op == "phi":
                c = a.a[0]
                return or_(and_(c, self.is_(a.a[1], b)), and_(not_(c), self.is_(a.a[2], b)))
            if a.op in ("obj", "func", "class", "tuple", "fstr", "bound", "gencall", "genexp", "ext"):
                return FALSE
            if a.op == "bin" and a.a[0] in ("+", "-", "*", "//", "%") and cval(b) is None:
                return FALSE
            if a.op == "item" and a.a[0].op == "attr" and a.a[0].a[1] in ("columns", "c") and cval(b) is None:
                return FALSE
            if is_bool(a) and cval(b) is not None:
                return a if cval(b) else not_(a)
            if cval(b) is None:
                ty = self.type_of(a)
                if ty is not None:
                    if ty == ("none",):
                        return TRUE
                    if ty[0] == "union":
                        if all(x is not None and x != ("none",) for x in ty[1]):
                            return FALSE
                    elif self.sure_type(a):
                        return FALSE
            return mk("is", a, b)
        if a.op == "const" and cval(a) is None:
            return self.is_(b, a)
        if a is b:
            return TRUE
        if a.op == "class" and b.op == "class":
            return FALSE
        x, y = sorted((a, b), key=lambda z: z.id)
        return mk("is", x, y)

    def sure_type(self, a):
        """Is the declared type trusted to exclude None?"""
        if a in self.types or a.op in ("attr", "item", "at", "key", "const"):
            if a.op == "item" and self._type_of(a) is not None:
                return True
            return self._type_of(a) is not None
        return a.op in ("fstr", "tuple")

    def eq(self, a, b):
        a, b = self.canon(a), self.canon(b)
        if a is b:
            return TRUE
        if a.op == "const" and b.op == "const":
            try:
                return TRUE if cval(a) == cval(b) else FALSE
            except Exception:  # pragma: no cover
                pass
        if b is NONE or a is NONE:
            return self.is_(a, b) if b is NONE else self.is_(b, a)
        if a.op == "phi" and b.op == "const":
            return or_(and_(a.a[0], self.eq(a.a[1], b)), and_(not_(a.a[0]), self.eq(a.a[2], b)))
        if b.op == "phi" and a.op == "const":
            return self.eq(b, a)
        if a.op == "tuple" and b.op == "tuple" and not any(x.op == "star" for x in a.a + b.a):
            if len(a.a) != len(b.a):
                return FALSE
            return and_(*[self.eq(x, y) for x, y in zip(a.a, b.a)])
        for x, y in ((a, b), (b, a)):
            if y.op == "const" and cval(y) == 0 and x.op == "call" and is_ext(x.a[0], "builtins.len"):
                return not_(self.truth(x.a[1][0]))
            if y.op == "const":
                ty = self.type_of(x)
                if ty is not None and ty[0] == "lit" and cval(y) not in ty[1]:
                    return FALSE
                if ty is not None and ty[0] == "lit" and len(ty[1]) == 1 and ty[1][0] == cval(y):
                    return TRUE
        if a.op in ("class",) and b.op in ("class",):
            return FALSE
        if is_bool(a) and is_bool(b) and a.op != "const" and b.op != "const":
            return or_(and_(a, b), and_(not_(a), not_(b)))
        if b.op == "const" and is_bool(a) and isinstance(cval(b), bool):
            return a if cval(b) else not_(a)
        x, y = sorted((a, b), key=lambda z: (z.op != "const", z.id))
        return self.cond(mk("eq", x, y))

    def lt(self, a, b):
        if a.op == "const" and b.op == "const":
            try:
                return TRUE if cval(a) < cval(b) else FALSE
            except TypeError:
                pass
        # len(x) > 0, len(x) >= 1, len(x) < 1
        if is_const(a, 0) and b.op == "call" and is_ext(b.a[0], "builtins.len"):
            return self.truth(b.a[1][0])
        if is_const(b, 1) and a.op == "call" and is_ext(a.a[0], "builtins.len"):
            return not_(self.truth(a.a[1][0]))
        if b.op == "phi" and a.op == "const":
            return or_(and_(b.a[0], self.lt(a, b.a[1])), and_(not_(b.a[0]), self.lt(a, b.a[2])))
        if a.op == "phi" and b.op == "const":
            return or_(and_(a.a[0], self.lt(a.a[1], b)), and_(not_(a.a[0]), self.lt(a.a[2], b)))
        return self.cond(mk("lt", a, b))

    def in_some(self, x, c):
        """x is in c, where None stands for nothing."""
        if c is NONE:
            return FALSE
        if c.op == "phi":
            return or_(and_(c.a[0], self.in_some(x, c.a[1])), and_(not_(c.a[0]), self.in_some(x, c.a[2])))
        return self.in_(x, c)

    def is_empty(self, t):
        """A container nothing was ever put into."""
        if t.op == "obj":
            return self.objs[t].kind in ("list", "set", "dict") and not self.objs[t].contribs
        return t.op == "tuple" and not t.a or t.op == "const" and cval(t) == ()

    def in_(self, x, c, node=None):
        x, c = self.canon(x), self.canon(c)
        if c.op == "phi" and self.is_empty(c.a[2]) and (c.a[0].op == "truth" and c.a[0].a[0] is c.a[1] or c.a[0] is self.truth(c.a[1])):
            return self.in_some(x, c.a[1])
        if c.op == "obj" and x.op == "tuple" and len(x.a) == 2 and all(y.op == "attr" and y.a[1] == n for y, n in zip(x.a, ("schema", "name"))) and x.a[0].a[0] is x.a[1].a[0]:
            t = x.a[0].a[0]
            if t.op == "item" and t.a[0] is c and t.a[1].op == "key" and t.a[1].a[0] is c:
                return TRUE  # tables are kept by their schema and name
        if c.op == "phi":
            return or_(and_(c.a[0], self.in_(x, c.a[1])), and_(not_(c.a[0]), self.in_(x, c.a[2])))
        if c.op == "view" and c.a[0] == "keys":
            return self.in_(x, c.a[1])
        if c.op == "call" and is_ext(c.a[0], "builtins.set", "builtins.list", "builtins.tuple", "builtins.sorted", "builtins.frozenset") and len(c.a[1]) == 1:
            return self.in_(x, c.a[1][0])
        if c.op in ("attr", "item", "sym") and x.op == "at" and x.a[0] is c and x.a[1].op == "loop" and x.a[1].a[0] is c:
            return TRUE  # an element of c
        if c.op == "const" and isinstance(cval(c), (str, tuple)):
            if x.op == "const":
                try:
                    return TRUE if cval(x) in cval(c) else FALSE
                except TypeError:
                    pass
            elif isinstance(cval(c), tuple):
                return or_(*[self.eq(x, const(v)) for v in cval(c)])
        if c.op == "tuple" and not any(e.op == "star" for e in c.a):
            return or_(*[self.eq(x, e) for e in c.a])
        if c.op in ("genexp", "gencall"):
            c = self.materialise(c, node)
        if c.op == "obj" and self.objs[c].kind in ("list", "set", "dict"):
            cs = self.effective(self.objs[c].contribs)
            if not cs:
                return FALSE
            if len(cs) == 1 and cs[0].op == "extend" and not self.rel_guards(cs[0]) and not self.rel_loops(cs[0]):
                return self.at_copy(cs[0], lambda: self.in_(x, cs[0].val))
            if len(cs) == 1 and cs[0].op == "add" and cs[0].val is not None and len(self.rel_loops(cs[0])) == 1 and not any(tag not in ("raise",) and g is not TRUE for g, tag in self.rel_guards(cs[0])):
                # what is made of an element is among what is made of all elements
                l = self.rel_loops(cs[0])[0].term
                for t in subterms(x):
                    if t.op == "loop" and t.a[0] is l.a[0] and (x is cs[0].val if t is l else x is subst(cs[0].val, {l: t})):
                        return TRUE
            if len(cs) <= 6 and len(cs) > 1 and cs[-1].op in ("diff", "inter") and all(k.op in ("add", "extend", "diff", "inter") and not self.rel_loops(k) for k in cs):
                r = FALSE
                for k in cs:
                    g = and_(*[z for z, _ in self.rel_guards(k)])
                    m = self.eq(x, k.val) if k.op == "add" else self.at_copy(k, lambda: self.in_(x, k.val))
                    r = or_(r, and_(g, m)) if k.op in ("add", "extend") else and_(r, or_(not_(g), m if k.op == "inter" else not_(m)))
                return self.cond(r)
            if len(cs) <= 16 and all(k.op in ("add", "set", "extend") and not self.rel_loops(k) for k in cs):
                vals = []
                for k in cs:
                    g = and_(*[z for z, _ in self.rel_guards(k)])
                    e = k.key if k.op == "set" else k.val
                    vals.append(and_(g, self.at_copy(k, lambda: self.in_(x, e)) if k.op == "extend" else self.eq(x, e)))
                r = or_(*vals)
                if r in (TRUE, FALSE) or x.op != "const":
                    return self.cond(r) if len(cs) <= 6 else self.cond(mk("in", x, c)) if r not in (TRUE, FALSE) else r
                return self.cond(r)
        return self.cond(mk("in", x, c))
