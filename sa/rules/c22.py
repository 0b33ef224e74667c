"""Code execution and SQL text.

`code`: every reference to something that runs code or loads objects from data
(eval, exec, pickle, subprocess, the yaml loaders that build objects, ...), with
names resolved through the imports of each module.  `import`: modules are only
imported by name by the plugin filter, with its configured module.  `text`:
every piece of SQL that is given as text, in planning, sampling, connecting,
the nodes of plans and the compilers of statements; it may consist of constants,
the options that hold SQL, and values or names that are quoted where they are put.
"""

import ast
import re

from ._f import filter_runs
from ._p import NV, tagged
from .c19 import query_class
from ..rule import *  # noqa

FLOORS = {"code": 5, "text": 5, "import": 5, "yaml": 1}

RUNS = {
    "builtins.eval", "builtins.exec", "builtins.compile", "os.system", "os.popen", "os.startfile", "code.interact", "pty.spawn", "runpy.run_path", "runpy.run_module",
    "pandas.read_pickle", "numpy.load", "joblib.load", "jsonpickle.decode", "imp.load_source", "imp.load_module", "ctypes.CDLL", "ctypes.cdll",
    "asyncio.create_subprocess_shell", "asyncio.create_subprocess_exec", "importlib.util.spec_from_file_location", "importlib.machinery.SourceFileLoader",
}
MODULES = ("pickle", "cPickle", "_pickle", "marshal", "shelve", "subprocess", "dill", "cloudpickle", "commands", "popen2", "timeit", "jsonpickle")
YAML_BAD = ("load", "load_all", "unsafe_load", "unsafe_load_all", "full_load", "full_load_all", "Loader", "UnsafeLoader", "FullLoader", "CLoader", "CUnsafeLoader", "CFullLoader", "Unsafe", "YAML")
YAML_SAFE = ("yaml.SafeLoader", "yaml.CSafeLoader", "yaml.loader.SafeLoader")
IMPORT = ("importlib.import_module", "builtins.__import__", "importlib.__import__", "pydoc.locate", "pkgutil.resolve_name", "django.utils.module_loading.import_string", "pydantic.ImportString")
TEXT = ("sqlalchemy.text", "sqlalchemy.sql.text", "sqlalchemy.literal_column", "sqlalchemy.sql.literal_column", "sqlalchemy.sql.expression.text", "sqlalchemy.sql.expression.literal_column", "sqlalchemy.DDL", "sqlalchemy.schema.DDL", "sqlalchemy.TextClause", "sqlalchemy.sql.expression.TextClause")
METH = (".exec_driver_sql", ".prefix_with", ".suffix_with", ".with_hint", ".with_statement_hint", ".executescript", ".op", ".bool_op")
QUOTE = ("quote", "quote_identifier", "quote_schema", "format_table", "format_column", "format_schema", "format_alias", "format_constraint", "format_index", "format_sequence", "process", "bindparam_string", "render_literal_value", "quoted_name")


def check(ctx, rep):
    code(ctx, rep)
    imports(ctx, rep)
    texts(ctx, rep)


# ---------------------------------------------------------------- references


def aliases(tree):
    out = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.asname:
                    out[a.asname] = a.name
                else:
                    out[a.name.split(".")[0]] = a.name.split(".")[0]
        elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
            for a in n.names:
                out[a.asname or a.name] = n.module + "." + a.name
    return out


def dotted(n, al, own):
    path = []
    while isinstance(n, ast.Attribute):
        path.append(n.attr)
        n = n.value
    if not isinstance(n, ast.Name):
        return None
    if n.id in al:
        return ".".join([al[n.id]] + path[::-1])
    if n.id in own:
        return None
    return ".".join(["builtins", n.id] + path[::-1])


def references(tree):
    """(node, dotted name) of every use of something imported or built in."""
    al = aliases(tree)
    own = {n.id for n in ast.walk(tree) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    own |= {n.name for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef, ast.ClassDef))}
    own |= {a.arg for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef, ast.Lambda)) for a in n.args.args + n.args.kwonlyargs}
    inner = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Attribute):
            inner.add(id(n.value))
        if isinstance(n, (ast.Attribute, ast.Name)) and isinstance(n.ctx, ast.Load) and id(n) not in inner:
            d = dotted(n, al, own)
            if d:
                yield n, d
    for n in ast.walk(tree):
        if isinstance(n, ast.ImportFrom) and n.module and not n.level:
            for a in n.names:
                yield n, n.module + "." + a.name


def code(ctx, rep):
    for name, m in sorted(ctx.e.modules.items()):
        if not name.startswith("subsetter"):
            continue
        short = name.rsplit(".", 1)[-1] + ".py"
        bad = False
        calls = {id(n.func): n for n in ast.walk(m.tree) if isinstance(n, ast.Call)}
        for n, d in references(m.tree):
            where = f"{short}:{n.lineno}"
            top = d.split(".")[0]
            if d in RUNS or top in MODULES or d.startswith("os.") and d.split(".")[1].startswith(("exec", "spawn", "posix_spawn")):
                if top == "timeit":
                    continue
                rep.bad("code", d, where, f"{d} is used")
                bad = True
            elif top in ("yaml", "ruamel") and d.split(".")[-1] in YAML_BAD:
                c = calls.get(id(n))
                ld = None
                if c is not None:
                    ld = next((k.value for k in c.keywords if k.arg == "Loader"), c.args[1] if len(c.args) > 1 else None)
                if ld is not None and dotted(ld, aliases(m.tree), set()) in YAML_SAFE:
                    rep.ok("yaml", d, where)
                    continue
                if isinstance(n, ast.ImportFrom):
                    continue
                rep.bad("yaml", d, where, f"documents are loaded by {d}, which can construct objects")
                bad = True
            elif top == "yaml" and d.split(".")[-1] in ("safe_load", "safe_load_all"):
                rep.ok("yaml", d, where)
            elif d in IMPORT and short != "filters.py":
                if isinstance(n, ast.ImportFrom):
                    continue
                rep.bad("import", short, where, f"{d} is used outside of the filters")
        if not bad:
            rep.ok("code", short, short)


def imports(ctx, rep):
    for fr in filter_runs(ctx):
        for x in fr.v.fx:
            if x.name not in IMPORT:
                continue
            if fr.op != "plugin":
                rep.bad("import", str(fr.op), x, f"filter {fr.op} imports {show(x.args[0], 4) if x.args else '?'}")
                continue
            arg = x.args[0] if x.args else None
            rep.check(True if arg is fr.cfg_attr("module") else None, "import", "plugin", x, show(arg, 4) if arg is not None else "")
        if fr.op != "plugin" and not any(x.name in IMPORT for x in fr.v.fx):
            rep.ok("import", str(fr.op), fr.where)


# ---------------------------------------------------------------- SQL text


def texts(ctx, rep):
    seen = set()
    views = [("plan", View(ctx.planner())), ("database output", View(ctx.sampler("database"))), ("file output", View(ctx.sampler("directory"))), ("connect", View(ctx.database()))]
    for key, v in views:
        for x in v.fx:
            sink(v, rep, key, x, x.name, x.args, x.kw, seen)
            for a in list(x.args) + [k for _, k in x.kw] + ([x.recv] if x.recv is not None else []):
                for t in subterms(a):
                    if t.op == "call":
                        sink(v, rep, key, x, tname(t), t.a[1], t.a[2], seen)
    for _, _, _, fx in ctx.database().hooks:
        v = views[3][1]
        for x in fx:
            if x.name in (".execute", ".executemany", ".executescript"):
                judge(v, rep, "connect", x, x.args[0], seen)
    for t, k in ctx.e.classes.items():
        if k.module is ctx.module("plan_model") and ctx.e.is_pydantic(t) and ctx.e.find_attr(t, "build")[1] is not None:
            v = NV(ctx, None, "build", cls=t)
            for u in v.deep(v.ret, ctrl=True):
                if u.op == "call":
                    sink(v, rep, k.name, v.name, tname(u), u.a[1], u.a[2], seen)
            for x in v.fx:
                sink(v, rep, k.name, x, x.name, x.args, x.kw, seen)
    for i, (cls, ds, f) in enumerate(ctx.compilers()):
        el = ctx.sym("element", cls if cls in ctx.e.classes else None)
        r = ctx.run(("compile", cls, f, "text"), lambda e: e.call(f, [el, ctx.sym("compiler")], [], None))
        w = View(r)
        nm = ctx.e.classes[cls].name if cls in ctx.e.classes else show(cls, 2)
        for x in w.fx:
            sink(w, rep, nm, x, x.name, x.args, x.kw, seen)
        if r.ret is not None:
            for g, t in w.alts(r.ret):
                judge(w, rep, f"{nm} {'/'.join(d or '' for d in (ds or ('',)))}", "compiler", t, seen)


BUSY = set()


def tname(t):
    f = t.a[0]
    if f.op == "ext":
        return f.a[0]
    if f.op == "attr":
        return "." + f.a[1]
    return None


def sink(v, rep, key, x, name, args, kw, seen):
    if name in TEXT and args:
        judge(v, rep, key, x, args[0], seen, not name.endswith("literal_column"))
    elif name in METH and args:
        a = args[1] if name in (".with_hint",) and len(args) > 1 else args[0]
        judge(v, rep, key, x, a, seen)
    elif name in ("sqlalchemy.column", "sqlalchemy.sql.column") and any(k == "is_literal" and cv(y) is True for k, y in kw):
        judge(v, rep, key, x, args[0], seen)
    elif name in ("sqlalchemy.Table", "sqlalchemy.schema.Table"):
        for k, y in kw:
            if k == "prefixes" and y.op == "obj":
                for c in v.contribs(y):
                    if c.val is not None:
                        judge(v, rep, key, x, c.val, seen)


def flatten(t):
    """Pieces of a text, constants as str."""
    if t.op == "const":
        return [str(cval(t))]
    if t.op == "fstr":
        out = []
        for p in t.a:
            out.extend([p] if isinstance(p, str) else flatten(p))
        return out
    if t.op == "bin" and t.a[0] == "+":
        return flatten(t.a[1]) + flatten(t.a[2])
    if t.op == "bin" and t.a[0] == "%":
        ps = flatten(t.a[1])
        vs = list(t.a[2].a) if t.a[2].op == "tuple" else [t.a[2]]
        marks = [m for p in ps if isinstance(p, str) for m in re.findall(r"%[^%a-zA-Z]*([a-zA-Z])|%%", p)]
        if len([m for m in marks if m]) == len(vs):
            out = []
            for p in ps:
                if not isinstance(p, str):
                    out.append(p)
                    continue
                for i, q in enumerate(re.split(r"(%%|%[^%a-zA-Z]*[a-zA-Z])", p)):
                    if i % 2 == 0:
                        out.append(q)
                    elif q == "%%":
                        out.append("%")
                    else:
                        x = vs.pop(0)
                        out.extend([mk("call", mk("ext", "builtins.int"), (x,), ())] if q[-1] in "dioxXeEfFgG" else flatten(x))
            return [q for q in out if q != ""]
    return [t]


PARSED = [False]  # colons in the text introduce parameters


def judge(v, rep, key, x, t, seen, parsed=False):
    PARSED[0] = parsed
    for g, u in v.alts(t):
        ps = flatten(u)
        r, why = True, ""
        for i, p in enumerate(ps):
            if isinstance(p, str):
                continue
            before = ps[i - 1] if i and isinstance(ps[i - 1], str) else ""
            after = ps[i + 1] if i + 1 < len(ps) and isinstance(ps[i + 1], str) else ""
            s = safe(v, p, before, after, len(ps) == 1)
            if s is not True and r is not False:
                r, why = s, f"text of a statement contains {show(p, 5)}"
        k = (key, u)
        if k in seen:
            continue
        seen.add(k)
        rep.check(r, "text", key, x, why)


def safe(v, p, before, after, alone):
    if p.op == "phi":
        rs = [safe(v, q, before, after, alone) for _, q in v.alts(p)]
        return False if False in rs else None if None in rs else True
    if p.op in ("fstr", "const", "bin") and flatten(p) != [p]:
        ps = flatten(p)
        rs = [safe(v, q, before if i == 0 else (ps[i - 1] if isinstance(ps[i - 1], str) else ""), after if i == len(ps) - 1 else (ps[i + 1] if isinstance(ps[i + 1], str) else ""), False) for i, q in enumerate(ps) if not isinstance(q, str)]
        return False if False in rs else None if None in rs else True
    if p.op == "fin":
        return safe(v, p.a[0], before, after, alone)
    if p.op == "mu":
        if p in BUSY:
            return True
        BUSY.add(p)
        try:
            rs = [safe(v, p.a[2], before, after, alone)]
            if p in v.e.backs:
                rs.append(safe(v, v.e.backs[p], before, after, alone))
        finally:
            BUSY.discard(p)
        return False if False in rs else None if None in rs else True
    # options that hold SQL
    if p.op == "attr" and p.a[1] in ("sql",):
        return True
    if p.op in ("at", "item") and p.a[0].op == "attr" and p.a[0].a[1] in ("session_sqls",):
        return True
    ty = v.e.type_of(p)
    if ty in (("int",), ("float",), ("bool",)) or p.op in ("idx", "rank", "len", "count"):
        return True
    if p.op == "call" and p.a[0].op == "attr":
        n = p.a[0].a[1]
        if n in QUOTE:
            return True
        if n == "replace" and len(p.a[1]) == 2:
            chain, c = {}, p
            while c.op == "call" and c.a[0].op == "attr" and c.a[0].a[1] == "replace" and len(c.a[1]) == 2:
                chain[cv(c.a[1][0])] = cv(c.a[1][1])
                c = c.a[0].a[0]
            q = next((z for z in ("'", '"', "`") if chain.get(z) == z * 2), None)
            if q:
                return before.endswith(q) and after.startswith(q) and (not PARSED[0] or chain.get(":") == "\\:")
            rs = [safe(v, p.a[0].a[0], before, after, False)] + [safe(v, y, "", "", False) for y in p.a[1] if y.op != "const"]
            return False if False in rs else None if None in rs else True
        if n in ("format", "format_map", "substitute", "safe_substitute"):
            rs = [safe(v, p.a[0].a[0], before, after, False)]
            for y in list(p.a[1]) + [y for _, y in p.a[2]]:
                w = y.a[0] if y.op == "star" else y
                rs += [safe(v, z, "", "", False) for _, z in v.alts(w) if z.op not in ("const", "obj")]
            return False if False in rs else None if None in rs else True
        if n in ("strip", "lower", "upper", "rstrip", "lstrip", "title", "removeprefix", "removesuffix"):
            return safe(v, p.a[0].a[0], before, after, alone)
        if n == "join":
            return None
        return None
    if p.op == "call" and p.a[0].op == "ext":
        if p.a[0].a[0] in ("builtins.int", "builtins.float", "builtins.len", "builtins.abs"):
            return True
        if p.a[0].a[0] in ("builtins.str", "builtins.repr", "builtins.format", "json.dumps") and p.a[1]:
            return safe(v, p.a[1][0], before, after, False)
        return None
    if p.op in ("attr", "item", "at", "key", "sym", "env", "split", "slice"):
        if p.op == "sym" and p.a[0] in ("compiler", "element"):
            return None
        if root(p) in ("compiler",):
            return None
        return False
    return None


def root(p):
    while p.op in ("attr", "item", "at") and isinstance(p.a[0], T):
        p = p.a[0]
    return p.a[0] if p.op == "sym" else None
