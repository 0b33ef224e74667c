"""Typed entry points into the analysed package and cached analysis runs."""

from __future__ import annotations

import functools

from .engine import Engine
from .interp import AnalysisBroken, Loop
from .terms import *  # noqa

SOLVER_BOUNDARY = ("subsetter.solver.toposort", "subsetter.solver.order_graph", "subsetter.solver.toposort_reachable", "subsetter.solver.reverse_graph")


class Run:
    """What one entry point does: effects, returned value and final store."""

    def __init__(self, eng, ret, name):
        self.e = eng
        self.name = name
        self.ret = ret
        self.effects = list(eng.effects)
        self.lookups = list(eng.lookups)
        self.st = dict(eng.st) if eng.st is not None else None
        self.raised = eng.st is None

    def calls(self, *names, kinds=("call", "boundary", "vcall", "repo", "pure")):
        """Effects calling an external name or (names starting with '.') a method."""
        return [x for x in self.effects if x.kind in kinds and x.name in names]


class Ctx:
    def __init__(self, root="/repo"):
        self.root = root
        self.e = Engine(root)
        self.runs = {}
        self.imported = list(self.e.effects)

    # -------------------------------------------------------- anchors

    def module(self, name):
        m = self.e.modules.get("subsetter." + name)
        if m is None:
            raise AnalysisBroken(f"module subsetter.{name} is missing")
        return m

    def name(self, mod, *path):
        m = self.module(mod)
        t = self.e._base.get((m.frame.id, path[0]))
        if t is None:
            raise AnalysisBroken(f"subsetter.{mod}.{path[0]} is missing")
        for p in path[1:]:
            t = self.e.classes[t].attrs.get(p) if t.op == "class" else None
            if t is None:
                raise AnalysisBroken(f"subsetter.{mod}.{'.'.join(path)} is missing")
        return t

    def sym(self, name, ty=None):
        t = mk("sym", name)
        if isinstance(ty, T):
            ty = ("cls", ty)
        if ty is not None:
            self.e.types[t] = ty
        return t

    # -------------------------------------------------------- running

    def run(self, key, body, *, hook=None, assume=None, no_inline=SOLVER_BOUNDARY):
        r = self.runs.get(key)
        if r is not None:
            return r
        e = self.e
        e.fresh()
        e.hook, e.assume, e.no_inline = hook, assume, set(no_inline)
        e.callbacks = {}
        try:
            ret = body(e)
            r = Run(e, ret, key)
            r.callbacks = e.callbacks
        finally:
            e.hook = e.assume = None
            e.no_inline = set()
        self.runs[key] = r
        return r

    def boundary(self, classes, objs=False, only=None):
        """Calls on values of these classes stay terms (callbacks still run)."""
        e = self.e
        ident = self.name("plan_model", "SQLTableIdentifier")

        def cls_of(recv):
            if recv.op == "obj":
                return e.objs[recv].cls if objs else None
            if recv.op == "class":
                return None
            ty = e.type_of(recv)
            if ty is not None and ty[0] == "union":
                alts = [x for x in ty[1] if x is not None and x[0] == "cls"]
                if alts and all(any(c in e.mro(x[1]) for c in classes) for x in alts):
                    return alts[0][1]
                return None
            return ty[1] if ty is not None and ty[0] == "cls" else None

        def hook(f, args, kw, node):
            if f.op == "vattr":
                recv, name = f.a
            elif f.op == "bound":
                recv, name = f.a[1], e.funcs[f.a[0]].name.rsplit(".", 1)[-1]
            else:
                return None
            c = cls_of(recv)
            if c is None or not any(k in e.mro(c) for k in classes):
                return None
            if name.startswith("__") or only is not None and name not in only:
                return None
            rt = None
            m = e.find_attr(c, name)[1]
            if m is not None and m.op == "func" and getattr(e.funcs[m].node, "returns", None) is not None:
                rt = e.ann(e.funcs[m].node.returns, e.funcs[m].frame)
            r = e.opaque(mk("attr", recv, name), args, kw, node, "boundary", rt)
            for a in list(args) + [v for _, v in kw]:
                if a.op in ("func", "bound", "partial"):
                    seq = mk("attr", recv, "<identifiers>")
                    e.types[seq] = ("list", ("cls", ident))
                    l = e.mk_loop(seq, node)
                    p = mk("at", seq, l.term)
                    e.loops.append(l)
                    try:
                        e.callbacks[r, a] = (p, e.call(a, [p], [], node))
                    finally:
                        e.loops.pop()
            return r

        return hook

    def assume_output(self, mode):
        db = self.name("config_model", "DatabaseOutputConfig")
        dr = self.name("config_model", "DirectoryOutputConfig")

        def assume(c):
            if c.op == "isinst" and c.a[1] in (db, dr) and self.is_output(c.a[0]):
                return c.a[1] is (db if mode == "database" else dr)
            if c.op == "eq" and c.a[0].op == "const" and c.a[1].op == "attr" and c.a[1].a[1] == "mode" and self.is_output(c.a[1].a[0]):
                return cval(c.a[0]) == mode
            return None

        return assume

    @staticmethod
    def is_output(t):
        return t.op == "attr" and t.a[1] == "output"

    def sampler(self, mode="database"):
        """Sampler(source, config).sample(plan, truncate=, create=) for one output kind."""

        def body(e):
            src = self.sym("source", self.name("common", "DatabaseConfig"))
            cfg = self.sym("config", self.name("config_model", "SamplerConfig"))
            plan = self.sym("plan", self.name("plan_model", "SubsetPlan"))
            out = mk("attr", cfg, "output")
            e.types[out] = ("cls", self.name("config_model", "DatabaseOutputConfig" if mode == "database" else "DirectoryOutputConfig"))
            try:
                s = e.call(self.name("sampler", "Sampler"), [src, cfg], [], None)
                return e.call(
                    e.getattr_(s, "sample", None),
                    [plan],
                    [("truncate", self.sym("truncate", ("bool",))), ("create", self.sym("create", ("bool",)))],
                    None,
                )
            finally:
                e.types.pop(out, None)

        hook = self.boundary((self.name("common", "DatabaseConfig"), self.name("plan_model", "SQLTableQuery")))
        return self.run(("sampler", mode), body, hook=hook, assume=self.assume_output(mode))

    def planner(self):
        def body(e):
            src = self.sym("source", self.name("common", "DatabaseConfig"))
            cfg = self.sym("config", self.name("config_model", "PlannerConfig"))
            p = e.call(self.name("planner", "Planner"), [src, cfg], [], None)
            return e.call(e.getattr_(p, "plan", None), [], [], None)

        hook1 = self.boundary((self.name("common", "DatabaseConfig"),))
        pm = [t for t, c in self.e.classes.items() if c.module is self.module("plan_model") and self.e.is_pydantic(t)]
        hook2 = self.boundary(tuple(pm), objs=True)

        def hook(*a):
            return hook1(*a) or hook2(*a)

        return self.run("planner", body, hook=hook)

    def compilers(self):
        """(class, dialects or (), function) registered with @compiles."""
        out = []
        for x in self.imported:
            if x.kind in ("decorate", "call") and x.args and x.fn is not None and x.fn.op == "call" and x.fn.a[0].op == "ext" and x.fn.a[0].a[0].endswith("compiler.compiles") and x.fn.a[1]:
                ds = tuple(cval(a) if a.op == "const" else None for a in x.fn.a[1][1:])
                out.append((x.fn.a[1][0], ds, x.args[0]))
        return out

    def compiled(self, cls, fn):
        """A function registered with @compiles, on an unknown statement."""
        return self.run(("compile", cls, fn), lambda e: e.call(fn, [self.sym("statement", cls), self.sym("compiler")], [], None))

    def node(self, cls, meth, nargs=2):
        """One method of a plan node, with nested nodes kept unknown."""
        e = self.e
        if isinstance(cls, str):
            cls = self.name("plan_model", cls)
        pm = tuple(t for t, k in e.classes.items() if k.module is self.module("plan_model") and e.is_pydantic(t))
        inner = self.boundary(pm, objs=True, only=("build", "simplify"))
        me = mk("sym", "node")

        def hook(f, args, kw, n):
            if f.op == "bound" and f.a[1] is me:
                return None
            return inner(f, args, kw, n)

        def body(e):
            m = e.find_attr(cls, meth)[1]
            if m is None or m.op != "func":
                raise AnalysisBroken(f"{e.classes[cls].name}.{meth} is missing")
            args = [self.sym("context"), self.sym("table")]
            a = e.funcs[m].node.args
            n = len(a.posonlyargs) + len(a.args) - 1
            return e.call(mk("bound", m, self.sym("node", cls)), args[:n], [], None)

        return self.run(("node", cls, meth), body, hook=hook)

    def main(self):
        def body(e):
            return e.call(self.name("__main__", "main"), [], [], None)

        hook = self.boundary((self.name("planner", "Planner"), self.name("sampler", "Sampler")), objs=True)
        return self.run("main", body, hook=hook)

    def database(self, prefix="P_"):
        """DatabaseConfig.database_engine(env_prefix=...), then its connect listeners."""

        def body(e):
            cfg = self.sym("db", self.name("common", "DatabaseConfig"))
            eng = e.call(e.getattr_(cfg, "database_engine", None), [], [("env_prefix", const(prefix))], None)
            con, rec = self.sym("dbapi"), self.sym("record")
            e.connect_hooks = []
            for x in list(e.effects):
                f, args, kw = None, (), ()
                if x.kind == "decorate" and x.fn.op == "call" and x.fn.a[0].op == "ext" and x.fn.a[0].a[0].endswith("event.listens_for"):
                    f, args, kw = x.args[0], x.fn.a[1], x.fn.a[2]
                elif x.name and x.name.endswith("event.listen") and len(x.args) > 2:
                    f, args, kw = x.args[2], x.args[:2], x.kw
                if f is None or len(args) < 2 or args[1].op != "const" or e.st is None:
                    continue
                n = len(e.effects)
                what = [con, rec] if cval(args[1]) in ("connect", "first_connect") else [con] * 2
                e.call(f, what, [], None)
                once = any(k == "once" and cval(v) for k, v in kw or ())
                e.connect_hooks.append((f"first_{cval(args[1])}" if once else cval(args[1]), args[0], x, e.effects[n:]))
            return eng

        r = self.run(("database", prefix), body)
        r.hooks = getattr(self.e, "connect_hooks", [])
        return r
