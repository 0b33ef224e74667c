"""Errors end the command with a message and a non-zero status.

`caught`: every step of a command (reading files, validating, planning,
sampling, writing the plan) is inside a handler for all exceptions that ends
the process.  `status`: whatever ends the process does so with a non-zero
status.  `logged`: a handler that ends the process logs first.  `swallow`: no
handler around such a step, a statement or a raised error lets the run go on.
`filled`: log and error messages get exactly the values they have places for.
"""

import ast
import re

from ._s import *  # noqa
from .. import rule

FLOORS = {"caught": 7, "status": 3, "logged": 3, "swallow": 5, "filled": 20, "level": 1}
ALL = ("builtins.Exception", "builtins.BaseException")
EXIT = ("sys.exit", "os._exit", "builtins.exit", "builtins.quit")
STEPS = ("builtins.open", "yaml.safe_load", "yaml.dump", "yaml.safe_dump", "yaml.load", "json.load", "json.dump", ".model_validate", ".write", ".flush")


def check(ctx, rep):
    v = View(ctx.main())
    steps = [x for x in v.fx if x.name in STEPS or x.kind == "boundary" and x.name in (".plan", ".sample")]
    if not steps:
        broken("no step of a command found")
    caught(v, rep, steps)
    status(v, rep)
    level(v, rep)
    views = [v, View(ctx.planner()), SV(ctx, "database"), SV(ctx, "directory")]
    done = set()
    for w in views:
        swallow(w, rep, done, ctx)
    broad(ctx, rep, done)
    filled(ctx, rep)
    fill(rep, FLOORS, "__main__.py")


def exn(t):
    """Name of an exception type, however it is referred to."""
    if t.op == "ext":
        n = t.a[0]
        return {"builtins.IOError": "builtins.OSError", "builtins.EnvironmentError": "builtins.OSError"}.get(n, n)
    return None


# ------------------------------------------------------------------ outcome


def ends(v, uid, types, h):
    """The handler h always ends the process or raises."""
    return any(how == "raise" for ts, how, g, hh in v.e.tries.get(uid, ()) if hh is h)


def exits(v):
    return [x for x in v.fx if x.name in EXIT or raised(x) is not None]


def raised(x):
    """The exception that ends the process, if x raises it."""
    if x.kind == "raise" and x.args:
        t = x.args[0]
        if is_ext(t, "builtins.SystemExit") or t.op == "call" and is_ext(t.a[0], "builtins.SystemExit"):
            return t
    return None


def handler_of(v, x):
    """AST nodes of the handlers x runs in."""
    out = []
    for g, tag in x.guards:
        if tag == "except" and g in v.e.excs:
            out.append(v.e.excs[g][1])
    return out


def later(v, h):
    """An exit after the handler that depends on whether it ran."""
    for x in exits(v):
        if h in handler_of(v, x):
            continue
        for g, tag in x.guards:
            if tag != "except":
                for t in v.deep(g, ctrl=True, stop=lambda t: t.op == "call"):
                    if t.op == "exc" and t in v.e.excs and v.e.excs[t][1] is h:
                        return True
    return False


def caught(v, rep, steps):
    for x in steps:
        rs = []
        for u in x.tries or ():
            for ts, how, g, h in v.e.tries.get(u, ()):
                if any(exn(t) in ALL for t in ts):
                    rs.append(True if how == "raise" else None if later(v, h) or returns_status(h) else False)
        # a handler that only raises again is no end by itself
        r = True if True in rs else rs[0] if rs else False
        if not rs and any(None in [exn(t) for t in ts] for u in x.tries or () for ts, how, g, h in v.e.tries.get(u, ())):
            r = None
        rep.check(r, "caught", x.name.lstrip("."), x, "an error here does not end the command with a logged message" if not rs else "the command goes on after an error")


def returns_status(h):
    return isinstance(h, ast.ExceptHandler) and any(isinstance(n, ast.Return) and isinstance(n.value, ast.Constant) and n.value.value not in (None, 0, False) for n in ast.walk(h))


def status(v, rep):
    n = 0
    seen = set()
    for x in exits(v):
        n += 1
        if id(x.node) in seen:
            continue
        seen.add(id(x.node))
        a = x.args[0] if x.args else None
        t = raised(x)
        if t is not None:
            a = t.a[1][0] if t.op == "call" and t.a[1] else None
        bad, unk = None, None
        for g, t in v.alts(a) if a is not None else [(TRUE, NONE)]:
            if t.op == "const":
                if cval(t) in (0, None, False):
                    bad = "the process ends with status 0"
            elif any(not any(exn(q) in ("builtins.BaseException", "builtins.SystemExit") for q in z.a[1]) for z in v.deep(t) if z.op == "exc") and any(z.op == "attr" or v.is_call(z, "builtins.getattr") for z in subterms(t)):
                bad = "the status is taken from the error, which may have none or 0"
            else:
                unk = "status not recognised"
        hs = handler_of(v, x)
        err = hs or any(y.name in (".error", ".critical", ".exception") and [g for g, _ in y.guards if g is not TRUE] == [g for g, _ in x.guards if g is not TRUE] for y in v.fx)
        if bad and not err:
            # ending normally at the end of a command is no failure
            first = any(y.seq > x.seq and (y.kind == "boundary") and compatible(x, y) for y in v.fx)
            rep.check(None if not first else False, "status", where(x), x, bad)
            continue
        rep.check(False if bad else None if unk else True, "status", where(x), x, bad or unk or "")
        a_msg = a is not None and (a.op == "const" and isinstance(cval(a), str) or a.op == "fstr")
        mine = [y for y in v.fx if y.seq < x.seq and (y.name in LOG or y.name in ("builtins.print", "sys.stderr.write", ".write")) and ((set(hs) & set(handler_of(v, y))) if hs else same_guards(x, y))]
        vis = [y for y in mine if y.name not in (".debug",)]
        if a_msg or vis:
            rep.ok("logged", where(x), x)
        else:
            rep.check(False if not err or hs else None, "logged", where(x), x, "the message is only logged for debugging" if mine else "the error is not logged")


def same_guards(x, y):
    return [g for g, _ in x.guards] == [g for g, _ in y.guards]


def compatible(x, y):
    gx, gy = [g for g, t in x.guards], and_(*[g for g, _ in y.guards])
    return not any(implies(gy, not_(g)) for g in gx)


def where(x):
    return f"{os.path.basename(x.where().split(':')[0])}:{x.stack[-1] if x.stack else ''}" if x.stack else x.where()


def level(v, rep):
    bad = None
    n = 0
    for x in v.fx:
        if x.name == "logging.basicConfig":
            n += 1
            for k, t in x.kw:
                if k == "level":
                    for _, q in v.alts(t):
                        if is_ext(q, "logging.CRITICAL", "logging.FATAL") or q.op == "const" and (isinstance(cval(q), int) and cval(q) > 40 or cval(q) in ("CRITICAL", "FATAL")):
                            bad = f"errors are not shown at level {show(q, 3)}"
        if x.name in ("logging.disable",):
            bad = "logging is disabled"
        if x.name == ".setLevel" and x.args and is_ext(x.args[0], "logging.CRITICAL", "logging.FATAL") and x.recv is not None and x.recv.op == "call" and not x.recv.a[1]:
            bad = "errors are not shown"
    rep.check(False if bad else True if n else None, "level", "logging", "__main__.py", bad or "")


# ------------------------------------------------------------------- swallow


def step(x):
    """What x does matters to the outcome of the command."""
    return x.kind in ("raise", "boundary", "vcall") or x.result is not None and x.result.op == "call" and x.result.a[0].op == "func" or x.name in STEPS or x.name in EXEC or x.name in DDL or x.name in (".commit", ".connect", ".begin")


def best_effort(v, xs):
    """Only indexes are created here, which are an optimisation."""
    return all(x.name == ".create" and x.recv is not None and x.recv.op == "call" and is_ext(x.recv.a[0], "sqlalchemy.Index") for x in xs)


def swallow(v, rep, done, ctx):
    for x in v.fx:
        if x.kind != "handler":
            continue
        for u, es in list(v.e.tries.items()):
            for ts, how, g, h in es:
                if h is not x.node or id(h) in done:
                    continue
                inner = [y for y in v.fx if u in (y.tries or ())]
                if not inner:
                    continue
                ss = [y for y in inner if step(y)]
                done.add(id(h))
                if how == "raise":
                    rep.ok("swallow", str(len(done)), x)
                elif not ss:
                    rep.ok("swallow", str(len(done)), x)
                elif g is not TRUE and other_text(v, g):
                    rep.bad("swallow", str(len(done)), x, f"an error of {ss[0].name or ss[0].kind} at {ss[0].where()} is swallowed if it mentions {other_text(v, g)!r}")
                elif g is not TRUE and read_only(v, g) and all(y.name == ".create_all" for y in ss) and any(y.name in (".execute",) and y.seq > ss[-1].seq for y in v.fx):
                    rep.ok("swallow", str(len(done)), x)  # the table that was to be created is used next
                elif g is not TRUE and not (isinstance(h, ast.ExceptHandler) and not any(isinstance(n, ast.Raise) for n in ast.walk(h))):
                    rep.unk("swallow", str(len(done)), x, f"goes on depending on {show(g, 5)}")
                elif best_effort(v, ss) and not any(exn(t) in ALL for t in ts):
                    rep.ok("swallow", str(len(done)), x)
                else:
                    rep.check(None if later(v, h) or returns_status(h) or uses_exc(h, ctx) else False, "swallow", str(len(done)), x, f"an error of {ss[0].name or ss[0].kind} at {ss[0].where()} is swallowed")


def other_text(v, g):
    """Text of an error that is passed over, other than one that is known not to matter."""
    for y in subterms(g):
        if y.op == "in" and is_const(y.a[0]) and isinstance(cval(y.a[0]), str) and any(z.op == "exc" for z in subterms(y.a[1])) and "read-only" not in cval(y.a[0]):
            return cval(y.a[0])
    return None


def read_only(v, g):
    ts = [y for y in atoms(g) if any(z.op in ("exc", "excval") for z in subterms(y))]
    return bool(ts) and all(y.op == "in" and is_const(y.a[0]) and "read-only" in str(cval(y.a[0])) for y in ts)


def uses_exc(h, ctx):
    """The error is kept for later: what is computed from it is used by more than what is logged here."""
    if not isinstance(h, ast.ExceptHandler) or h.name is None:
        return False
    fn = next((f for m in ctx.e.modules.values() for f in ast.walk(m.tree) if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)) and any(n is h for n in ast.walk(f))), None)
    named, kept = {h.name}, False
    inside = set(map(id, ast.walk(h)))
    while True:
        n0 = len(named)
        for n in ast.walk(h):
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)) and n.value is not None and any(isinstance(q, ast.Name) and q.id in named for q in ast.walk(n.value)):
                for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                    if isinstance(t, ast.Name):
                        named.add(t.id)
                    else:
                        kept = True
        if len(named) == n0:
            break
    for n in ast.walk(fn) if fn is not None else ():
        if isinstance(n, ast.Name) and n.id in named - {h.name} and isinstance(n.ctx, ast.Load) and id(n) not in inside:
            kept = True
    for n in ast.walk(h):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and n.value.func.attr in ("append", "add", "put", "extend", "setdefault", "insert"):
            kept = kept or any(isinstance(q, ast.Name) and q.id in named for q in ast.walk(n.value))
        if isinstance(n, (ast.Return, ast.Yield)) and n.value is not None:
            kept = kept or any(isinstance(q, ast.Name) and q.id in named for q in ast.walk(n.value))
    return kept


def broad(ctx, rep, done):
    """Handlers of code the runs above do not contain, and ways of hiding errors by syntax alone."""
    for name, m in ctx.e.modules.items():
        if not name.startswith("subsetter"):
            continue
        fn = os.path.basename(m.path)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Try):
                for h in n.handlers:
                    if id(h) in done:
                        continue
                    ts = [h.type] if h.type is not None and not isinstance(h.type, ast.Tuple) else h.type.elts if h.type is not None else [None]
                    wide = any(t is None or isinstance(t, ast.Name) and t.id in ("Exception", "BaseException") for t in ts)
                    leaves = any(isinstance(q, ast.Raise) or isinstance(q, ast.Call) and ast.unparse(q.func) in EXIT for q in ast.walk(h))
                    if wide and not leaves and not uses_exc(h, ctx):
                        rep.check(None if returns_status(h) else False, "swallow", f"{fn}:{h.lineno}", f"{fn}:{h.lineno}", "all errors are swallowed")
                for s in n.finalbody:
                    for q in ast.walk(s):
                        if isinstance(q, ast.Return):
                            rep.bad("swallow", "finally", f"{fn}:{q.lineno}", "returning here hides the error")
            if isinstance(n, ast.FunctionDef) and n.name == "__exit__":
                for q in ast.walk(n):
                    if isinstance(q, ast.Return) and isinstance(q.value, ast.Constant) and q.value.value:
                        rep.bad("swallow", "__exit__", f"{fn}:{q.lineno}", "leaving the block hides the error")


# -------------------------------------------------------------------- filled

SPEC = re.compile(r"%(?:\((\w+)\))?[#0\- +]*(\*|\d+)?(?:\.(\*|\d+))?[hlL]?([diouxXeEfFgGcrsa%])")
BRACE = re.compile(r"\{([A-Za-z_][\w.]*)(?:![rsa])?(?::[^{}]*)?\}")
LEVELS = ("debug", "info", "warning", "error", "critical", "exception", "warn", "fatal", "log")


def const_text(n):
    """Text of a format, with the values of f-strings left out, or None."""
    if isinstance(n, ast.Constant) and isinstance(n.value, str):
        return n.value
    if isinstance(n, ast.JoinedStr):
        return "".join(p.value for p in n.values if isinstance(p, ast.Constant))
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
        a, b = const_text(n.left), const_text(n.right)
        return None if a is None or b is None else a + b
    return None


def places(s):
    """(number of values a % format takes, names of values)"""
    n, names = 0, set()
    for m in SPEC.finditer(s):
        if m.group(4) == "%":
            continue
        if m.group(1):
            names.add(m.group(1))
            continue
        n += 1 + (m.group(2) == "*") + (m.group(3) == "*")
    return n, names


def scopes(tree):
    """{node: names visible in the function around it}"""
    out = {}

    def go(n, names):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            a = n.args
            names = names | {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs}
            if not isinstance(n, ast.Lambda):
                names = names | {q.id for q in ast.walk(n) if isinstance(q, ast.Name) and isinstance(q.ctx, ast.Store)}
        out[n] = names
        for c in ast.iter_child_nodes(n):
            go(c, names)

    go(tree, frozenset())
    return out


def filled(ctx, rep):
    for name, m in ctx.e.modules.items():
        if not name.startswith("subsetter"):
            continue
        fn = os.path.basename(m.path)
        sc = scopes(m.tree)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in LEVELS and "log" in ast.unparse(n.func.value).lower():
                args = n.args[1:] if n.func.attr == "log" else n.args
                if not args or any(isinstance(a, ast.Starred) for a in args):
                    continue
                message(rep, fn, sc, n, args[0], args[1:], True)
            elif isinstance(n, ast.Raise) and isinstance(n.exc, ast.Call) and n.exc.args and not any(isinstance(a, ast.Starred) for a in n.exc.args):
                f = ast.unparse(n.exc.func)
                if re.search(r"(Error|Exception|Exit|Warning)$", f):
                    message(rep, fn, sc, n.exc, n.exc.args[0], n.exc.args[1:], False)


def message(rep, fn, sc, n, fmt, rest, log):
    at = f"{fn}:{n.lineno}"
    if isinstance(fmt, ast.BinOp) and isinstance(fmt.op, ast.Mod):
        s = const_text(fmt.left)
        if s is None:
            return
        k, names = places(s)
        r = fmt.right
        if names or isinstance(r, ast.Dict):
            return
        got = len(r.elts) if isinstance(r, ast.Tuple) else 1 if isinstance(r, (ast.Name, ast.Attribute, ast.Constant, ast.Call, ast.JoinedStr, ast.Subscript)) else None
        if got is None or isinstance(r, ast.Tuple) and any(isinstance(e, ast.Starred) for e in r.elts):
            return
        if got == 1 and not isinstance(r, (ast.Tuple, ast.Constant, ast.JoinedStr)) and k != 1:
            got = None  # may be a tuple
        return rep.check(None if got is None else got == k, "filled", at, at, f"{k} places for {got} values")
    if isinstance(fmt, ast.Call) and isinstance(fmt.func, ast.Attribute) and fmt.func.attr == "format":
        return
    s = const_text(fmt)
    if s is None:
        return
    k, names = places(s)
    names_in = sc.get(n, frozenset())
    raw = "".join(p.value for p in ast.walk(fmt) if isinstance(p, ast.Constant) and isinstance(p.value, str) and not part_of_fstring(fmt, p))
    for b in BRACE.finditer(raw):
        if b.group(1).split(".")[0] in names_in | {"self"}:
            return rep.bad("filled", at, at, f"{b.group(0)} is not filled in")
    if log:
        if names:
            return
        rep.check(k == len(rest), "filled", at, at, f"{k} places for {len(rest)} values")
    else:
        # an exception does not format its arguments
        if k and rest or k and not rest and re.search(r"%[rsd](?!\w)", s) and not isinstance(fmt, ast.JoinedStr):
            return rep.bad("filled", at, at, "the values are not filled in")
        rep.ok("filled", at, at)


def part_of_fstring(root, p):
    return any(isinstance(j, ast.JoinedStr) and any(q is p for q in ast.walk(j)) for j in ast.walk(root))
