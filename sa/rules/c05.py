"""Passwords and values of rows do not reach messages.

`messages`: for every log call, warning, line of output and exception raised by the
tool, nothing in it is computed from a configured or environment password, a whole
section of configuration that has one, or a row of a result.  Formatting a URL or an
engine masks the password; asking for it unmasked does not.  `input`: validation of
configuration does not repeat its input in errors that are shown.  `echo`: SQL is
only echoed on request.  `plan`: plans contain nothing of it either.
"""

import ast
import re

from ._f import filter_runs
from ._s import SV
from ..rule import *  # noqa

FLOORS = {"messages": 60, "input": 2, "echo": 3, "plan": 2}
LOG = ("debug", "info", "warning", "warn", "error", "critical", "exception", "log", "fatal")
OUT = ("builtins.print", "warnings.warn", "sys.stderr.write", "sys.stdout.write", "tqdm.tqdm.write", "logging.debug", "logging.info", "logging.warning", "logging.error", "logging.critical", "logging.exception", "logging.log", "pprint.pprint", "syslog.syslog", "os.write")
CLEAN = ("builtins.len", "builtins.type", "builtins.isinstance", "builtins.bool", "builtins.id", "builtins.hash", "builtins.callable", "builtins.hasattr", "builtins.any", "builtins.all", "builtins.issubclass", "builtins.range")
CONV = ("model_dump", "model_dump_json", "dict", "json", "copy", "model_copy", "items", "values", "format", "join", "strip", "lstrip", "rstrip", "encode", "decode", "lower", "upper", "replace", "get", "pop", "setdefault", "_asdict", "__str__", "__repr__", "tolist", "split", "title", "hex")
ROWISH = ("_mapping", "_data", "_fields", "__dict__", "args", "t", "_t")


def check(ctx, rep):
    Leaks(ctx, rep).check()
    fill(rep, FLOORS, "")


class Leaks:
    def __init__(self, ctx, rep):
        self.ctx, self.rep, self.e = ctx, rep, ctx.e
        self.secret = self.classes()

    def classes(self):
        """Classes of configuration that hold a password, directly or in a section."""
        e = self.e
        own = {c for c in e.classes if "password" in e.classes[c].fields}
        while True:
            names = {e.classes[c].node.name for c in own}
            more = set()
            for c in e.classes:
                if c in own:
                    continue
                if any(b in own for b in e.mro(c)) or any(names & set(re.findall(r"\w+", ast.unparse(a))) for a, _ in e.classes[c].fields.values() if a is not None):
                    more.add(c)
            if not more:
                return own
            own |= more

    # --------------------------------------------------------------- flows

    def config(self, t):
        """A whole section of configuration."""
        if t.op in ("const", "ext", "func", "class", "fstr", "bin"):
            return False
        ty = self.e.type_of(t)
        tys = ty[1] if ty is not None and ty[0] == "union" else (ty,)
        return any(x is not None and x[0] == "cls" and x[1] in self.secret for x in tys)

    def leaks(self, v, t, row=lambda t: False, raw=()):
        """What a message made of t gives away, or None."""
        seen, st = {t}, [t]
        while st:
            x = st.pop()
            if row(x):
                return f"values of rows ({show(x, 4)})"
            if x.op == "attr":
                if x.a[1] in ("password", "passwd"):
                    return f"the password ({show(x, 4)})"
                if self.config(x):
                    return f"a section of configuration with the password ({show(x, 4)})"
                if x.a[1] == "params":
                    return f"the values given to a statement ({show(x, 4)})"
                if x.a[1] in ("f_locals", "f_globals"):
                    return "local variables"
                ks = [x.a[0]] if x.a[1] in ROWISH else []
            elif self.config(x):
                return f"a section of configuration with the password ({show(x, 4)})"
            elif x.op == "call" and is_ext(x.a[0], "builtins.locals", "builtins.globals", "builtins.vars") and not x.a[1]:
                return "local variables"
            elif x.op == "call" and is_ext(x.a[0], "builtins.getattr") and len(x.a[1]) > 1 and x.a[1][1].op == "const" and cval(x.a[1][1]) == "params":
                return f"the values given to a statement ({show(x, 4)})"
            elif x.op == "env":
                n = x.a[0]
                s = "".join(str(p) if not isinstance(p, T) else "" for p in n.a) if n.op in ("fstr", "const") else show(n, 3)
                if "PASS" in s.upper():
                    return f"the password ({show(x, 4)})"
                ks = []
            elif x.op == "item" and x.a[1].op == "const" and isinstance(cval(x.a[1]), str) and x.a[0] in raw:
                ks = [x.a[0]] if cval(x.a[1]) in ("source", "sampler", "output") else []
            elif is_ext(x, "os.environ", "os.environb"):
                return "all environment variables"
            elif x in raw:
                return "the configuration file's content"
            else:
                ks = self.next(v, x)
            for k in ks:
                if k not in seen:
                    seen.add(k)
                    st.append(k)
        return None

    def next(self, v, x):
        if x.op == "call":
            f, args = x.a[0], list(x.a[1]) + [b for _, b in x.a[2]]
            if f.op == "ext":
                if is_ext(f, *CLEAN) or f.a[0].startswith(("sqlalchemy.", "argparse.", "os.", "logging.")):
                    return []
                return args
            if f.op == "attr":
                n = f.a[1]
                if n == "render_as_string":
                    h = v.kw(x, "hide_password", 0)
                    if h is not None and h.op == "const" and not cval(h):
                        return self.url(v, f.a[0])
                    return []
                if n in CONV:
                    if n.startswith("model_dump") and (v.kw(x, "exclude") is not None or v.kw(x, "include") is not None):
                        return []
                    return [f.a[0]] + args
                return []
            if f.op == "class":
                return args if f not in self.secret else []
            return args if f.op == "func" else []
        if x.op == "obj":
            ob = self.e.objs[x]
            if ob.kind == "inst":
                ms = self.e.mro(ob.cls) if ob.cls is not None else []
                return list(v.inst.get(x, {}).values()) if any(m.op == "ext" for m in ms) else []
            return [k for c in v.contribs(x) for k in (c.key, c.val) if k is not None]
        if x.op == "view":
            if x.a[0] == "keys" and x.a[1].op == "obj":
                return [c.key for c in v.contribs(x.a[1]) if c.key is not None]
            return [x.a[1]]
        if x.op == "key":
            return [c.key for c in v.contribs(x.a[0]) if c.key is not None] if x.a[0].op == "obj" else []
        if x.op == "phi":
            return [x.a[1], x.a[2]]
        if x.op in ("mu", "fin"):
            m = x.a[0] if x.op == "fin" else x
            return [q for q in (m.a[2], self.e.backs.get(m)) if q is not None]
        if x.op == "sel":
            return [x.a[2]]
        if x.op in ("at", "item", "slice", "star"):
            return [x.a[0]]
        if x.op in ("idx", "rank", "rankof", "exists", "len", "in", "eq", "lt", "not", "and", "or", "truth", "is", "isinst", "const", "sym", "excval", "exc", "sqlop"):
            return []
        return [k for k in x.a if isinstance(k, T)] + [i for k in x.a if isinstance(k, tuple) for i in k if isinstance(i, T)]

    def url(self, v, t):
        """Parts of a URL that is shown with its password."""
        out = []
        for q in v.deep(t):
            if q.op == "attr" and q.a[1] == "password" or q.op == "env":
                out.append(q)
        if not out and any(q.op == "attr" and q.a[1] in ("database_engine", "database_url") or is_ext(q, "sqlalchemy.create_engine", "sqlalchemy.engine.create_engine") for q in v.deep(t)):
            out.append(mk("attr", t, "password"))
        return out

    # --------------------------------------------------------------- sinks

    def sinks(self, v):
        for x in v.fx:
            if x.kind == "raise":
                yield x, [a for a in x.args if isinstance(a, T)]
            elif x.kind != "call" or not x.name:
                continue
            elif x.name == "builtins.print" and v.xkw(x, "file") is not None and not is_ext(v.xkw(x, "file"), "sys.stderr", "sys.stdout"):
                continue
            elif x.name in OUT or x.name[1:] in LOG and x.name[0] == "." and self.logger(x.recv):
                yield x, list(x.args) + [b for _, b in x.kw or () if isinstance(b, T)]
            elif x.name == ".write" and x.recv is not None and is_ext(x.recv, "sys.stderr", "sys.stdout"):
                yield x, list(x.args)
            elif x.name in (".set_description", ".set_postfix", ".set_postfix_str", ".set_description_str"):
                yield x, list(x.args) + [b for _, b in x.kw or () if isinstance(b, T)]
            elif x.name in ("tqdm.tqdm", "tqdm.auto.tqdm"):
                yield x, [b for k, b in x.kw or () if k in ("desc", "postfix")]

    def logger(self, t):
        return t is not None and any(q.op == "call" and is_ext(q.a[0], "logging.getLogger") or q.op == "ext" and q.a[0].startswith("logging") for q in subterms(t))

    # --------------------------------------------------------------- check

    def check(self):
        ctx, rep = self.ctx, self.rep
        if not self.secret:
            broken("no configuration class with a password")
        runs = [("plan", View(ctx.planner()), None), ("connect", View(ctx.database()), None)]
        for m in ("database", "directory"):
            v = SV(ctx, m)
            runs.append((m, v, lambda t, v=v: v.is_row(t) or v.is_result(t)))
        for fr in filter_runs(ctx):
            if fr is not None:
                runs.append(("filter", fr.v, lambda t: t.op == "sym" and t.a[0] == "values"))
        main = View(ctx.main())
        runs.append(("command", main, None))
        raw = {q for x in main.fx if self.validates(x) and x.args for _, a in main.alts(x.args[0]) for q in [a] + [t for t in main.deep(a) if t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0].startswith(("yaml.", "json.", "toml"))]}
        done = {}
        for key, v, row in runs:
            for x, args in self.sinks(v):
                bad = None
                for a in args:
                    bad = bad or self.leaks(v, a, row or (lambda t: False), raw if key == "command" else ())
                k = (x.where(), key if key in ("filter", "command") else "")
                if bad or k not in done:
                    done[k] = bad
                    self.rep.check(not bad, "messages", "raise" if x.kind == "raise" else x.name, x, f"shows {bad}" if bad else "")
        self.input(main)
        self.echo(runs, main)
        self.plan(runs[0][1], main)

    def validates(self, x):
        """Validation of configuration that may have a password."""
        return x.kind == "call" and x.name in (".model_validate", ".parse_obj", ".model_validate_json", ".parse_raw") and x.recv is not None and x.recv in self.secret or x.kind == "call" and x.fn is not None and x.fn in self.secret

    def hides(self, c):
        """The class (or one it is derived from) keeps input out of errors."""
        for k in self.e.mro(c):
            ci = self.e.classes.get(k)
            if ci is None:
                continue
            for kw in ci.node.keywords:
                if kw.arg == "hide_input_in_errors":
                    return ast.unparse(kw.value) == "True"
            for s in ci.node.body:
                tg = s.targets[0] if isinstance(s, ast.Assign) and len(s.targets) == 1 else s.target if isinstance(s, ast.AnnAssign) else None
                if isinstance(tg, ast.Name) and tg.id == "model_config" and s.value is not None:
                    val = s.value
                    pairs = []
                    if isinstance(val, ast.Call):
                        pairs = [(w.arg, w.value) for w in val.keywords]
                    elif isinstance(val, ast.Dict):
                        pairs = [(q.value if isinstance(q, ast.Constant) else None, w) for q, w in zip(val.keys, val.values)]
                    else:
                        return None
                    for n, w in pairs:
                        if n == "hide_input_in_errors":
                            return w.value is True if isinstance(w, ast.Constant) else None
                    if any(n is None for n, _ in pairs):
                        return None
        return False

    def input(self, v):
        rep, e = self.rep, self.e
        for x in v.fx:
            if not self.validates(x):
                continue
            c = x.recv if x.recv in self.secret else x.fn
            h = self.hides(c)
            if h or h is None:
                rep.check(h, "input", e.classes[c].node.name, x, "not recognised")
                continue
            handlers = [hh for u in x.tries or () for _, _, _, hh in e.tries.get(u, ())]
            shown = None
            for y, args in self.sinks(v):
                for a in args:
                    for q in self.shown(v, a):
                        if q.a and q.a[0] in e.excs and any(e.excs[q.a[0]][1] is hh for hh in handlers):
                            shown = shown or y
            rep.check(shown is None, "input", e.classes[c].node.name, shown or x, "an error in the configuration shows the value of the section or option, which may be the password")

    def shown(self, v, a):
        """Exceptions shown in a message."""
        out, seen, st = [], set(), [a]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == "excval":
                out.append(x)
            elif x.op == "call" and x.a[0].op == "attr":
                n = x.a[0].a[1]
                if n == "errors" and any(k == "include_input" for k, _ in x.a[2]):
                    continue
                st.extend([x.a[0].a[0]] + list(x.a[1]))
            elif x.op == "attr":
                continue
            else:
                st.extend(self.next(v, x))
        return out

    def echo(self, runs, main):
        rep, e = self.rep, self.e
        for key, v, _ in runs:
            if key not in ("connect",):
                continue
            for x in v.fx:
                if x.name not in ("sqlalchemy.create_engine", "sqlalchemy.engine.create_engine", "sqlalchemy.engine_from_config"):
                    continue
                for n in ("echo", "echo_pool"):
                    b = v.xkw(x, n)
                    bad = b is not None and any(self.unasked(v, g, q) for g, q in v.alts(b))
                    rep.check(not bad, "echo", n, x, "all SQL is echoed with the rows it writes")
        for c in e.classes:
            f = e.classes[c].fields.get("echo")
            if f is not None and c in self.secret:
                bad = isinstance(f[1], ast.Constant) and bool(f[1].value)
                rep.check(not bad, "echo", "default", e.classes[c].node.name, "all SQL is echoed with the rows it writes")
        for key, v, _ in runs:
            for x in v.fx:
                if x.kind == "setattr" and x.fn is not None and x.fn.op == "attr" and x.fn.a[1] == "echo" and x.args and x.args[-1].op == "const" and cval(x.args[-1]):
                    asked = self.asked(x.guards)
                    rep.check(asked, "echo", "set", x, "all SQL is echoed with the rows it writes")
                elif x.name == ".setLevel" and x.recv is not None and x.recv.op == "call" and is_ext(x.recv.a[0], "logging.getLogger") and x.recv.a[1] and x.recv.a[1][0].op == "const" and str(cval(x.recv.a[1][0])).startswith("sqlalchemy"):
                    asked = self.asked(x.guards)
                    loud = x.args and (is_ext(x.args[0], "logging.DEBUG", "logging.INFO") or x.args[0].op == "const" and cval(x.args[0]) in (10, 20, "DEBUG", "INFO"))
                    rep.check(asked or not loud, "echo", "level", x, "all SQL is logged with the rows it writes")

    def unasked(self, v, g, q):
        """Whether SQL may be echoed although no setting named echo asks for it."""
        if q.op == "const":
            if not cval(q):
                return False
        elif q.op == "attr" and q.a[1].startswith("echo"):
            return False
        elif q.op not in ("call", "ext") and not is_bool(q):
            return False
        else:
            r = fixed(q, {t: False for t in subterms(q) if t.op == "truth" and t.a[0].op == "attr" and t.a[0].a[1].startswith("echo")}) if is_bool(q) else None
            if r is FALSE:
                return False
        on = {t: False for t in subterms(g) if t.op == "truth" and t.a[0].op == "attr" and t.a[0].a[1].startswith("echo")}
        return fixed(g, on) is not FALSE

    def asked(self, guards):
        """Holds for the most verbose setting only: -v is for progress, -vv for tracebacks."""
        gs = [g for g, _ in guards if any(q.op == "attr" and q.a[1] == "verbose" for q in subterms(g))]
        if not gs:
            return False
        for n in (0, 1, 2):
            known = {}
            for g in gs:
                for t in subterms(g):
                    if t.op in ("lt", "eq") and all(q.op == "const" and isinstance(cval(q), int) or q.op == "attr" and q.a[1] == "verbose" for q in t.a):
                        a, b = [n if q.op == "attr" else cval(q) for q in t.a]
                        known[t] = a < b if t.op == "lt" else a == b
                    elif t.op == "truth" and t.a[0].op == "attr" and t.a[0].a[1] == "verbose":
                        known[t] = bool(n)
            if all(fixed(g, known) is TRUE for g in gs):
                return False
        return True

    def plan(self, v, main):
        rep = self.rep
        if v.run.ret is not None:
            bad = self.leaks(v, v.run.ret)
            rep.check(not bad, "plan", "plan", "planner.py", f"plans contain {bad}")
        for x in main.fx:
            if x.name in ("yaml.dump", "yaml.safe_dump", "json.dump", "yaml.dump_all", ".write", ".writelines") and x.args:
                bad = self.leaks(main, x.args[0])
                rep.check(not bad, "plan", "written", x, f"the file contains {bad}")
