"""No configuration option is dead.

`live`: for every field declared in a section of configuration there is a condition,
loop, statement, name, stored value or result of the code that section configures
(planning, sampling to a database, sampling to files, connecting, each filter) whose
value is computed from the field; messages do not count.  `unknown`: sections keep
refusing options they do not have.
"""

import ast

from ._f import filter_runs
from ..rule import *  # noqa
from .c05 import LOG

FLOORS = {"live": 60, "unknown": 8}
# fields that select between classes, decided when the configuration is parsed
TAGS = ("op", "mode", "type_", "type")
STRICT = ("PlannerConfig", "SamplerConfig", "SubsetterConfig")


def check(ctx, rep):
    Live(ctx, rep).check()
    fill(rep, FLOORS, "config_model.py")


class Live:
    def __init__(self, ctx, rep):
        self.ctx, self.rep, self.e = ctx, rep, ctx.e

    def terms(self, v):
        """Everything the behaviour of a run depends on."""
        seen, st = set(), []
        for x in v.fx:
            if x.kind == "call" and x.name and x.name[1:] in LOG and x.recv is not None and any(q.op == "call" and is_ext(q.a[0], "logging.getLogger") for q in subterms(x.recv)):
                continue
            st += [q for q in list(x.args) + [b for _, b in x.kw or ()] + [x.recv, x.result] if isinstance(q, T)]
            # only what leads to an effect other than a message is a reason
            st += [g for g, _ in x.guards] + [l.term for l in x.loops]
        if isinstance(v.run.ret, T):
            st.append(v.run.ret)
        elif isinstance(v.run.ret, tuple):
            st += [q for q in v.run.ret if isinstance(q, T)]
        while st:
            t = st.pop()
            if not isinstance(t, T) or t in seen:
                continue
            seen.add(t)
            for k in v.kids(t, ctrl=True):
                st.append(k)
            if t.op == "fin":
                st.append(t.a[0])
        return seen

    def read(self, terms):
        """(class, field) pairs and paths read in some terms."""
        e, out, paths = self.e, set(), set()
        for t in terms:
            n = None
            if t.op == "attr":
                base, n = t.a
                p = attr_path(t)
                if p:
                    paths.add(p)
            elif t.op == "item" and t.a[1].op == "const" and isinstance(cval(t.a[1]), str):
                # a field of a section turned into a dictionary
                n = cval(t.a[1])
                base = next((q.a[0].a[0] for q in subterms(t.a[0]) if q.op == "call" and q.a[0].op == "attr" and q.a[0].a[1] in ("model_dump", "dict")), None)
                if base is None:
                    continue
                out.add((None, n))
                continue
            elif t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("get", "pop") and any(
                q.op == "call" and q.a[0].op == "attr" and q.a[0].a[1] in ("model_dump", "dict") for q in subterms(t.a[0].a[0])
            ):
                out |= {(None, cval(q)) for q in subterms(t) if q.op == "const" and isinstance(cval(q), str)}
                continue
            else:
                continue
            ty = e.type_of(base)
            for y in ty[1] if ty is not None and ty[0] == "union" else (ty,):
                if y is not None and y[0] == "cls":
                    out.add((y[1], n))
        return out, paths

    def nested(self, c, skip=()):
        """A section and the sections below it."""
        e, out, st = self.e, [], [c]
        while st:
            k = st.pop()
            if k in out or k in skip:
                continue
            out.append(k)
            for ann, _ in e.classes[k].fields.values():
                if ann is None:
                    continue
                st += list(self.classes_in(e.ann(ann, e.classes[k].frame)))
        return out

    def classes_in(self, ty):
        if not isinstance(ty, tuple):
            return
        if len(ty) == 2 and ty[0] == "cls" and ty[1] in self.e.classes:
            if self.e.classes[ty[1]].fields:
                yield ty[1]
            return
        for x in ty:
            yield from self.classes_in(x)

    def check(self):
        ctx, e = self.ctx, self.e
        name = lambda m, n: ctx.name(m, n)
        db = name("common", "DatabaseConfig")
        plan, samp = name("config_model", "PlannerConfig"), name("config_model", "SamplerConfig")
        outs = {"database": name("config_model", "DatabaseOutputConfig"), "directory": name("config_model", "DirectoryOutputConfig")}
        self.section("planning", View(ctx.planner()), self.nested(plan), ("config",), plan)
        for m, out in outs.items():
            other = [c for k, c in outs.items() if k != m]
            cs = [c for c in self.nested(samp, skip=tuple(outs.values()) + (db,)) if not self.filterish(c)]
            v = View(ctx.sampler(m))
            self.section(f"sampling to {m}", v, cs, ("config",), samp)
            self.section(f"sampling to {m}", v, [c for c in self.nested(out, skip=(db,))], ("config", "output"), out, own=True)
        self.section("connecting", View(ctx.database()), self.nested(db), (), None)
        top = name("config_model", "SubsetterConfig")
        self.section("commands", View(ctx.main()), [top], (), None)
        for fr in filter_runs(ctx):
            if fr is not None:
                self.section(f"filter {fr.cfg_cls and e.classes[fr.cfg_cls].node.name}", fr.v, [fr.cfg_cls], (), None)
        self.unknown(top)

    def filterish(self, c):
        base = self.ctx.name("filters", "SingleFilterConfig")
        return base in self.e.mro(c) or self.e.classes[c].module.name.endswith("filters")

    def section(self, what, v, classes, path, top, own=False):
        e, rep = self.e, self.rep
        terms = self.terms(v)
        got, paths = self.read(terms)
        loose = {n for c, n in got if c is None}
        for c in classes:
            ci = e.classes[c]
            for f, line in self.overwritten(c):
                rep.bad("live", f"{ci.node.name}.{f}", f"{ci.module.name.split('.')[-1]}.py:{line}", f"what is given for {f} of {ci.node.name} is replaced by a constant")
            for f in ci.fields:
                if f in TAGS or f.startswith("model_"):
                    continue
                ok = any(n == f and k is not None and (k is c or c in e.mro(k) or k in e.mro(c)) for k, n in got)
                ok = ok or c is top and path + (f,) in paths
                if not ok and f in loose:
                    ok = True
                alias = f.rstrip("_")
                if not ok and alias in loose:
                    ok = True
                rep.check(ok, "live", f"{ci.node.name}.{f}", f"{ci.module.name.split('.')[-1]}.py:{ci.node.lineno}", f"option {f} of {ci.node.name} has no effect on {what}")

    # ---------------------------------------------------------- overwritten

    def overwritten(self, c):
        """(field, line) for fields a validator replaces by something that does not depend on what was given."""
        ci = self.e.classes[c]
        for fn in ci.node.body:
            if not isinstance(fn, ast.FunctionDef):
                continue
            kinds = {}
            for d in fn.decorator_list:
                n = d.func if isinstance(d, ast.Call) else d
                kinds[n.attr if isinstance(n, ast.Attribute) else getattr(n, "id", None)] = d
            if "model_validator" in kinds and fn.args.args:
                me = fn.args.args[0].arg
                for s in fn.body:
                    t = s.targets[0] if isinstance(s, ast.Assign) and len(s.targets) == 1 else s.target if isinstance(s, ast.AnnAssign) else None
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me and t.attr in ci.fields and isinstance(s.value, ast.Constant):
                        yield t.attr, s.lineno
                    elif isinstance(s, (ast.If, ast.While, ast.For, ast.Try, ast.Return, ast.Raise, ast.With)) and any(isinstance(w, ast.Return) for w in ast.walk(s)):
                        break
            if "field_validator" in kinds and isinstance(kinds["field_validator"], ast.Call):
                names = [q.value for q in kinds["field_validator"].args if isinstance(q, ast.Constant)]
                rets = [w for w in ast.walk(fn) if isinstance(w, ast.Return)]
                if rets and all(isinstance(w.value, ast.Constant) for w in rets):
                    for n in names:
                        if n in ci.fields:
                            yield n, fn.lineno

    # -------------------------------------------------------------- unknown

    def forbids(self, c):
        for k in self.e.mro(c):
            ci = self.e.classes.get(k)
            if ci is None:
                continue
            for kw in ci.node.keywords:
                if kw.arg == "extra":
                    return isinstance(kw.value, ast.Constant) and kw.value.value == "forbid"
            for s in ci.node.body:
                tg = s.targets[0] if isinstance(s, ast.Assign) and len(s.targets) == 1 else s.target if isinstance(s, ast.AnnAssign) else None
                if isinstance(tg, ast.Name) and tg.id == "model_config" and s.value is not None:
                    val = s.value
                    if isinstance(val, ast.Call):
                        pairs = [(w.arg, w.value) for w in val.keywords]
                    elif isinstance(val, ast.Dict):
                        pairs = [(q.value if isinstance(q, ast.Constant) else None, w) for q, w in zip(val.keys, val.values)]
                    else:
                        return None
                    for n, w in pairs:
                        if n == "extra":
                            return w.value == "forbid" if isinstance(w, ast.Constant) else None
                    if any(n is None for n, _ in pairs):
                        return None
        return False

    def unknown(self, top):
        ctx, e, rep = self.ctx, self.e, self.rep
        seen, db = set(), ctx.name("common", "DatabaseConfig")
        for n in STRICT:
            c = ctx.name("config_model", n)
            for k in self.nested(c):
                # settings of a connection are read leniently
                if k in seen or not e.classes[k].module.name.endswith("config_model") or db in e.mro(k):
                    continue
                seen.add(k)
                ci = e.classes[k]
                rep.check(self.forbids(k), "unknown", ci.node.name, f"config_model.py:{ci.node.lineno}", f"unknown options of {ci.node.name} are accepted and ignored")
