"""Guards, extent and order of statements that destroy or define destination data.

`delete`: a statement that deletes rows in the destination implies that
truncation was requested.  `whole`: it carries no condition.  `cover`: it is
issued for every destination table, none left out.  `before`: all deletions
precede the first insert.  `commit`: deletions are committed.  `create`:
definition of tables implies that creation was requested, and each table
defined is tested to be missing.  `alter`: no other definition statement
reaches the destination.
"""

import os

from ..rule import *  # noqa
from ._s import *  # noqa

FLOORS = {"delete": 1, "whole": 1, "cover": 1, "before": 1, "commit": 1, "create": 1, "missing": 1, "alter": 2}


def check(ctx, rep):
    T_, C_ = mk("truth", mk("sym", "truncate")), mk("truth", mk("sym", "create"))
    for mode in ("database", "directory"):
        v = SV(ctx, mode)
        D = dest_dicts(v)
        for x in v.deletes:
            where = x.where()
            rep.check(implies(guard(x), T_), "delete", mode, x, "rows are deleted without truncation being requested")
            narrow = [t for t in subterms(x.args[0]) if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("where", "filter", "filter_by", "with_dialect_options", "limit", "ordered_values")]
            sts = v.stmt(x.args[0])
            text = [s for k, s in sts if k.startswith("text")]
            rep.check(not narrow and not any(isinstance(s, str) and " WHERE " in s.upper() for s in text), "whole", mode, x, "only some rows are deleted")
            cover(v, x, rep, mode, D, T_)
            for u in x.tries or ():
                for ts, how, g, h in v.e.tries.get(u, ()):
                    if how != "raise" and g is TRUE:
                        rep.bad("cover", mode, x, f"sampling goes on if a table cannot be emptied ({os.path.basename(x.where().split(':')[0])}:{h.lineno})")
            late = [y for y in v.inserts if y.seq < x.seq or {l.uid for l in y.loops} & {l.uid for l in x.loops}]
            rep.check(not late, "before", mode, x, f"rows are already written ({late[0].where() if late else ''}) when they are deleted")
            rep.check(committed(v, x), "commit", mode, x, "the deletion is never committed")
        if mode == "database" and not v.deletes:
            rep.bad("delete", mode, "", "no destination table is ever emptied")
        for x in v.fx:
            if x.name in REMOVE and not implies(guard(x), T_):
                rep.check(False if not any(v.uses(a, lambda t: t.op == "call" and is_ext(t.a[0], "tempfile.mkstemp", "tempfile.mkdtemp", "tempfile.mktemp")) for a in x.args) and not handled(x) else None, "delete", mode, x, "files are removed without truncation being requested")
        drops = 0
        for x in v.creates:
            if x.name in (".drop", ".drop_all"):
                rep.bad("alter", mode, x, f"{x.name[1:]} on the destination")
                drops += 1
                continue
            rep.check(implies(guard(x), C_), "create", mode, x, "tables are created without being requested")
            missing(v, x, rep, mode, D)
        if mode == "database" and not [x for x in v.creates if x.name in (".create", ".create_all")]:
            rep.bad("create", mode, "", "missing tables are never created")
        for x in v.updates:
            kinds = {k for k, _ in v.stmt(x.args[0])}
            if kinds & {"create", "text-create"} and not kinds & {"drop", "update", "text-drop", "text-alter", "text-update"}:
                rep.check(implies(guard(x), C_), "create", mode, x, "objects are created without being requested")
            else:
                rep.bad("alter", mode, x, f"{', '.join(sorted(kinds))} on the destination")
        if not v.updates and not drops:
            rep.ok("alter", mode, "", "no update, drop or alter statement")


REMOVE = ("os.unlink", "os.remove", "shutil.rmtree", "os.rmdir", "os.removedirs", ".unlink", ".rmdir")


def handled(x):
    return any(tag == "except" for g, tag in x.guards)


def cover(v, x, rep, mode, D, T_):
    if not x.loops:
        rep.unk("cover", mode, x, "not in a loop over tables")
        return
    g = guard(x, ("branch", "return", "except", "while"))
    if not implies(T_, and_(*[c for c in conj(g) if not any(v.varies(c, l.term) for l in x.loops)])):
        rest = [c for c in conj(g) if not any(v.varies(c, l.term) for l in x.loops) and not implies(T_, c)]
        rep.bad("cover", mode, x, f"tables are only emptied if also {show(rest[0], 4)}")
        return
    for l in x.loops:
        sk = [c for c in skips(v, x, l.term) if not (c.op == "in" and c.a[1] in D)]
        if sk:
            rep.bad("cover", mode, x, f"a table is only emptied if {show(sk[0], 5)}")
            return
        if [t for t, c in v.exits(x, l.term) if t in ("break", "return")]:
            rep.bad("cover", mode, x, "the loop over the tables can end early")
            return
    seq = x.loops[-1].term.a[0]
    if seq.op == "slice":
        rep.bad("cover", mode, x, "some tables are left out")
        return
    src = v.deep(seq)
    keyed = any(t.op == "key" and t.a[0] in D or t in D for t in src)
    plan = mk("attr", mk("sym", "plan"), "queries")
    planned = any(t is plan for t in src)
    if keyed or planned:
        rep.check(True, "cover", mode, x)
    else:
        rep.unk("cover", mode, x, show(seq, 5))


def missing(v, x, rep, mode, D):
    if x.name == ".create":
        t = x.recv
        ok = any(c.op == "not" and c.a[0].op == "in" and c.a[0].a[1] in D for c in conj(guard(x)))
        rep.check(ok or None, "missing", mode, x, "a table may already exist")
        return
    m = x.recv
    if not v.is_call(m, "sqlalchemy.MetaData"):
        rep.bad("missing", mode, x, f"tables of {show(m, 4)} are created, whether or not they are part of the sample")
        return
    tabs = v.xkw(x, "tables")
    n = 0
    for y in v.fx:
        if y.name in ("sqlalchemy.Table", "sqlalchemy.schema.Table") and len(y.args) > 1 and y.args[1] is m:
            n += 1
            ok = [c for c in conj(guard(y)) if c.op == "not" and c.a[0].op == "in" and c.a[0].a[1] in D]
            rep.check(True if ok else (None if tabs is not None else False), "missing", mode, y, "a table that may exist in the destination is defined and created")
        elif y.name in (".reflect", ".to_metadata", ".tometadata") and (y.recv is m or m in y.args):
            rep.unk("missing", mode, y, "tables are copied")
            n += 1
    if not n:
        rep.bad("missing", mode, x, "no table is ever created")
