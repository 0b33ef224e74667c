"""Session set-up of connections.

The hooks registered on the engine are analysed as they would be called with a
new driver connection.  `hook`: one is registered for the event of every new
connection of the engine that is returned.  `session`: it executes every
configured statement, in order, under no condition.  `attach`: on sqlite it attaches every configured database under
its name, before the session statements.  `kept`: what was set is committed, so
that a later rollback does not undo it.  `isolation`: the level given to engine
creation is tabulated against configuration and dialect.
"""

from ._d import *  # noqa

FLOORS = {"hook": 2, "session": 1, "attach": 1, "kept": 1, "isolation": 6}
LEVEL = {"mysql": "READ COMMITTED", "postgres": "READ COMMITTED", "sqlite": "SERIALIZABLE"}


def check(ctx, rep):
    v = DV(ctx)
    if not v.engines:
        broken("create_engine is not called")
    isolation(v, rep)
    cfgattr = lambda n: mk("attr", v.cfg, n)
    every = []
    for ev, eng, reg, fx in v.hooks:
        if not any(x.result in v.deep(eng) or x.result is eng for x in v.engines):
            continue
        if ev == "connect":
            every.append((reg, fx))
    known = any(x.name and "event" in x.name for x in v.fx)
    if not every:
        other = [ev for ev, _, _, _ in v.hooks]
        later = [ev for ev in other if not ev.startswith("first_")]
        listened = any(cfgattr("session_sqls") in v.deep(a) for x in v.fx for a in x.args)
        rep.check(None if later or not other and listened else False, "hook", "connect", "common.py", f"no hook on every new connection, only on {other}")
        for r in ("session", "attach", "kept"):
            rep.unk(r, "connect", "", "no hook")
        return
    regs = [g for reg, _ in every for g, tag in reg.guards if tag in ("branch", "continue", "return", "break")]
    rep.ok("hook", "connect", every[0][0])
    hooked = {x.result for x in v.engines for ev, eng, _, _ in v.hooks if ev == "connect" and (x.result is eng or x.result in v.deep(eng))}
    for g, t in v.alts(v.run.ret) if v.run.ret is not None else ():
        made = [x.result for x in v.engines if x.result is t or t.op in ("call", "attr") and x.result in set(subterms(t))]
        rep.check(None if not made else bool(set(made) & hooked), "hook", "returned", every[0][0], f"an engine without the hook is used if {show(g, 4)}")
    ex = lambda fx: [x for x in fx if x.name in (".execute", ".executescript", ".executemany") and x.args]
    runs = []
    for reg, fx in every:
        for x in ex(fx):
            runs.append((reg, fx, x))
    sess = [(r, fx, x) for r, fx, x in runs if cfgattr("session_sqls") in v.deep(x.args[0])]
    att = [(r, fx, x) for r, fx, x in runs if cfgattr("sqlite_databases") in v.deep(x.args[0])]

    def all_dialects(x, reg, given, dialects):
        """Executed for these dialects: True, False or None."""
        out = True
        for d in dialects:
            tb = v.table(dict(given, dialect=d), {}, {})
            for g, tag in list(reg.guards) + list(x.guards):
                if any(v.varies(g, l.term) for l in x.loops):
                    continue
                try:
                    if not tb.true(g):
                        return False
                except Undecided:
                    # what is known of a connection when it is made says nothing about its session
                    if any(t.op == "attr" and t.a[0] is mk("sym", "record") for t in subterms(g)):
                        return False
                    out = None
        return out

    # session statements
    if not sess:
        rep.bad("session", "statements", every[0][0], "session statements are not executed on new connections")
    for reg, fx, x in sess:
        q = cfgattr("session_sqls")
        ls = [l for l in x.loops if q in v.deep(l.term)]
        if not ls:
            rep.check(None if any(t.op in ("call", "fstr", "bin") for t in subterms(x.args[0])) else False, "session", "statements", x, "only one session statement is executed")
            continue
        l = ls[0]
        elem = mk("at", q, l.term)
        sk = [g for g, tag in x.guards if tag in SKIPS and v.varies(g, l.term) and not (g.op == "truth" and g.a[0] is elem)]
        if l.rev or l.unordered or l.sort:
            rep.bad("session", "order", x, "session statements are not executed in the configured order")
        elif sk:
            rep.bad("session", "statements", x, f"a session statement is only executed if {show(sk[0], 5)}")
        elif any(tag in ("break", "return") for tag, c in v.exits(x, l.term)):
            rep.bad("session", "statements", x, "later session statements are skipped")
        elif l.term.a[0] is not q:
            rep.check(False if l.term.a[0].op == "slice" or v.is_call(l.term.a[0], "dict.fromkeys", "builtins.dict.fromkeys", ".fromkeys", "builtins.set", "builtins.frozenset", "builtins.sorted", "builtins.reversed") else None, "session", "statements", x, f"executed for {show(l.term.a[0], 4)}")
        elif x.args[0] is not elem:
            rep.unk("session", "statements", x, show(x.args[0], 4))
        else:
            rep.check(all_dialects(x, reg, {"session_sqls": ["x"]}, LEVEL), "session", "statements", x, "session statements are not executed for every dialect")
        if caught(v, x):
            rep.bad("session", "errors", x, "an error of a session statement is swallowed")
    # attached databases
    if not att:
        rep.bad("attach", "databases", every[0][0], "configured databases are not attached to new connections")
    for reg, fx, x in att:
        q = cfgattr("sqlite_databases")
        ls = [l for l in x.loops if q in v.deep(l.term)]
        if not ls:
            rep.unk("attach", "databases", x)
            continue
        l = ls[0]
        sk = [g for g, tag in x.guards if tag in SKIPS and v.varies(g, l.term)]
        d = [t for a in x.args for t in v.deep(a)]
        k = mk("key", q, l.term)
        if sk:
            rep.bad("attach", "databases", x, f"a database is only attached if {show(sk[0], 5)}")
        elif any(tag in ("break", "return") for tag, c in v.exits(x, l.term)):
            rep.bad("attach", "databases", x, "later databases are not attached")
        elif not any(t.op == "key" and t.a[0] is q for t in v.deep(x.args[0], stop=lambda t: t.op == "item" and t.a[0] is q)):
            rep.bad("attach", "name", x, "databases are not attached under their configured names")
        elif not any(t.op == "item" and t.a[0] is q for t in d):
            rep.bad("attach", "name", x, "the configured file is not attached")
        else:
            rs = [all_dialects(x, reg, dict(more, sqlite_databases={"a": "b"}), ["sqlite"]) for more in ({}, {"session_sqls": ["x"]})]
            rep.check(False if False in rs else None if None in rs else True, "attach", "databases", x, "databases are not attached on sqlite")
        for _, _, y in sess:
            if fx and y in fx:
                rep.check(x.seq < y.seq, "attach", "order", x, "databases are attached after the session statements")
        if caught(v, x):
            rep.bad("attach", "errors", x, "an error attaching a database is swallowed")
    # kept
    for reg, fx, x in sess:
        con = v.e and mk("sym", "dbapi")
        cs = [y for y in fx if y.name == ".commit" and y.recv is con and y.seq > x.seq]
        sql = [y for y in fx if y in [r[2] for r in runs] and y.seq > x.seq and cv(y.args[0]) and str(cv(y.args[0])).strip().rstrip(";").lower() == "commit"]
        auto = [y for y in fx if y.kind == "setattr" and y.seq < x.seq and "autocommit" in str(y.fn.a[1] if y.fn is not None and len(y.fn.a) > 1 else "") or y.name in (".autocommit", ".set_session")]
        st = None
        for y in cs:
            extra = [g for g, tag in y.guards if tag in SKIPS]
            if not extra:
                st = True
            elif any(cfgattr("session_sqls") in set(subterms(g)) for g in extra) or st is None:
                st = st or (all_dialects(y, reg, {"session_sqls": ["x"]}, LEVEL))
        undone = [y for y in fx if y.name == ".rollback" and y.seq > x.seq and not any(c.seq < y.seq for c in cs)]
        if undone:
            rep.bad("kept", "commit", undone[0], "session statements are rolled back")
        elif not cs and not sql and not auto:
            rep.bad("kept", "commit", x, "session statements are not committed: the first rollback undoes them")
        else:
            rep.check(st, "kept", "commit", x, "session statements are only committed on some dialects")


# settings that have nothing to do with the isolation level
OTHERS = ({}, {"session_sqls": ["x"]}, {"sqlite_databases": {"a": "b"}}, {"echo": True}, {"host": "h", "port": 1, "database": "d", "username": "u", "password": "p"})
SKIPS = ("branch", "continue", "return", "break")


def caught(v, x):
    for u in x.tries or ():
        for ts, how, g, h in v.e.tries.get(u, ()):
            if how != "raise" and g is TRUE and any(is_ext(t, "builtins.Exception", "builtins.BaseException") for t in ts):
                return True
    return False


def isolation(v, rep):
    seen = {}
    for d in LEVEL:
        for how in ("configured", "environment"):
            for c in (None, "READ UNCOMMITTED", "REPEATABLE READ", "SERIALIZABLE", "READ COMMITTED"):
                given = {"isolation_level": c} if c else {}
                env = {}
                if how == "configured":
                    given["dialect"] = d
                else:
                    env["DIALECT"] = d
                want = c or LEVEL[d]
                inst = f"{d}, {'set' if c else 'default'}"
                try:
                    for more in OTHERS:
                        tb = v.table(dict(given, **more), env, {})
                        x = v.outcome(tb)
                        if x == "raise":
                            got = "refused"
                        else:
                            a = v.xkw(x, "isolation_level")
                            got = tb.ev(a) if a is not None else None
                            if a is None and v.xkw(x, "execution_options") is not None:
                                raise Undecided(x.args[0])
                        ok = got == want
                        if not ok:
                            break
                except Undecided:
                    ok, got = None, None
                o = seen.get(inst)
                if o is None or (o[0], ok) in ((True, None), (True, False), (None, False)):
                    seen[inst] = (ok, f"isolation level is {got!r}, not {want!r}")
    for inst, (ok, msg) in sorted(seen.items()):
        rep.check(ok, "isolation", inst, v.engines[0], msg)
