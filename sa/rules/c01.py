"""Statements and DDL reaching the source database.

For the planner and for sampling into either kind of output, every call that
executes SQL or DDL is collected together with the connection it is made on;
the connection is traced back to the engine it was obtained from.  Rule
`source-statement`: a statement on a connection to the source is a SELECT or
fills a table that is declared TEMPORARY on every path.  Rule `source-ddl`:
DDL bound to the source only involves TEMPORARY tables and their indexes.
"""

import re

from ..rule import *  # noqa

EXEC = (".execute", ".scalar", ".scalars", ".exec_driver_sql", ".executemany", ".executescript")
DDL = (".create_all", ".drop_all", ".create", ".drop")
FLOORS = {"source-statement": 3, "source-ddl": 1}


def check(ctx, rep):
    for key, run in (("sample to database", ctx.sampler("database")), ("sample to directory", ctx.sampler("directory")), ("plan", ctx.planner())):
        v = View(run)
        check_run(key, v, rep)


def check_run(key, v, rep):
    for x in v.fx:
        if x.kind not in ("call", "vcall"):
            continue
        if x.name in EXEC:
            sides = v.sides(x.recv)
            if "source" not in sides:
                continue
            for kind, d in sorted(v.stmt(x.args[0]), key=lambda p: (p[0], str(p[1]))):
                inst = f"{key}: {kind}"
                if kind == "text-select" and re.search(r"\binto\b|\b(setval|nextval)\s*\(", d, re.I):
                    rep.bad("source-statement", inst, x, f"a query with an effect is executed on the source database: {d[:200]}")
                elif kind in ("select", "text-select"):
                    rep.ok("source-statement", inst, x)
                elif kind in ("insert", "delete", "update") and d is not None:
                    tt = v.temp_table(d)
                    if tt is None and any(v.is_call(t, ".get_final_froms") or t.op == "attr" and t.a[1] in ("froms", "columns_clause_froms") for t in subterms(d)):
                        tt = False  # a table that is selected from
                    rep.check(tt, "source-statement", inst, x, f"{kind} on the source database into a table that is not always TEMPORARY: {show(d, 4)[:200]}")
                elif kind == "unknown" or kind == "text":
                    rep.unk("source-statement", inst, x, show(d, 4)[:200] if isinstance(d, T) else str(d))
                elif kind == "inst":
                    rep.bad("source-statement", inst, x, "a destination insert statement is executed on the source database")
                else:
                    rep.bad("source-statement", inst, x, f"{kind} statement is executed on the source database")
        elif x.name in DDL:
            bind = v.xkw(x, "bind", 0)
            if bind is None or "source" not in v.sides(bind):
                continue
            inst = f"{key}: {x.name[1:]}"
            r = x.recv
            if x.name in (".create_all", ".drop_all"):
                if any(y.name == ".reflect" and y.recv is r for y in v.fx):
                    rep.bad("source-ddl", inst, x, "DDL for reflected tables is run on the source database")
                    continue
                tabs = [y for y in v.fx if y.name in ("sqlalchemy.Table", "sqlalchemy.schema.Table") and len(y.args) > 1 and y.args[1] is r]
                rs = [v.temp_table(y.result) for y in tabs if y.result is not None]
                ok = None if not rs or None in rs else all(rs)
                rep.check(ok, "source-ddl", inst, x, "tables created on the source database are not always TEMPORARY")
            elif v.is_call(r, "sqlalchemy.Index", "sqlalchemy.schema.Index"):
                tabs = [t for t in v.deep(r) if v.is_call(t, "sqlalchemy.Table", "sqlalchemy.schema.Table") or (t.op == "item" and t.a[0].op == "attr" and t.a[0].a[1] == "tables")]
                made = lambda t: v.is_call(t, "sqlalchemy.Table", "sqlalchemy.schema.Table")
                cols = [t.a[0].a[0] for t in v.deep(r, stop=made) if t.op == "item" and t.a[0].op == "attr" and t.a[0].a[1] in ("c", "columns")]
                rs = [v.temp_table(t) for t in cols]
                ok = None if not rs or None in rs else all(rs)
                for t in v.deep(r, stop=made):
                    if t.op == "attr" and t.a[1] in ("selected_columns", "inner_columns", "columns_clause_froms"):
                        ok = False  # the columns of the tables that are selected from
                rep.check(ok, "source-ddl", inst, x, "an index is created on a source table that is not TEMPORARY")
            else:
                rep.check(v.temp_table(r), "source-ddl", inst, x, f"DDL on the source database: {show(r, 4)[:200]}")
