"""Connection settings and the environment.

The address given to engine creation is extracted as an expression over
settings and environment.  `setting`: for every dialect, each setting is the
configured value if given, else the environment variable of its name with the
prefix of the side, else its default.  `dialect`: likewise for the driver, and
what depends on it.  `prefix`: planner and sampler use the documented prefix
for each side.  `own`: nothing an engine is made of is read from a variable of
a fixed side, whatever the prefix.
"""

import itertools

from ._d import *  # noqa

FLOORS = {"setting": 11, "dialect": 3, "prefix": 3, "own": 1}
DRIVER = {"mysql": "mysql", "postgres": "postgresql", "sqlite": "sqlite"}
SETTINGS = {"host": "localhost", "port": None, "username": None, "password": None, "database": None}
PORT = {"mysql": 3306, "postgres": 5432}


def check(ctx, rep):
    v = DV(ctx)
    if not v.engines:
        broken("create_engine is not called")
    seen = {}

    def note(ok, rule, inst, msg=""):
        k = (rule, inst)
        old = seen.get(k)
        rank = {False: 2, None: 1, True: 0}
        if old is None or rank[ok] > rank[old[0]]:
            seen[k] = (ok, msg)

    def url(given, env):
        tb = v.table(given, env)
        x = v.outcome(tb)
        if x == "raise":
            return None
        u = tb.ev(v.xkw(x, "url", 0))
        if not isinstance(u, Opq) or u.what != "url":
            raise Undecided(x.args[0])
        return dict(u.parts)

    envs = {"DIALECT": "sqlite", "HOST": "environment host", "PORT": "7", "USERNAME": "environment username", "PASSWORD": "environment password", "DATABASE": "environment database"}
    for d in DRIVER:
        for k, default in SETTINGS.items():
            for have in ((), ("c",), ("e",), ("c", "e")):
                for others in ((), ("c",), ("e",)):
                    given, env = {"dialect": d}, {}
                    for o in SETTINGS:
                        h = have if o == k else others
                        if "c" in h:
                            given[o] = 99 if o == "port" else f"config {o}"
                        if "e" in h:
                            env[o.upper()] = envs[o.upper()]
                    want = given.get(k)
                    if want is None and k.upper() in env:
                        want = 7 if k == "port" else env[k.upper()]
                    if want is None:
                        want = PORT.get(d) if k == "port" else default
                    case = f"{d}, configured {given}, environment {env}"
                    if d == "sqlite" and k != "database":
                        continue
                    try:
                        u = url(given, env)
                    except Undecided as exc:
                        note(None, "setting", f"{d} {k}", show(exc.args[0], 4) if isinstance(exc.args[0], T) else str(exc))
                        continue
                    if u is None:
                        note(False, "setting", f"{d} {k}", f"refused: {case}")
                        continue
                    got = u.get(k)
                    if d == "mysql" and k == "database" and got is None:
                        note(True, "setting", f"{d} {k}")
                        continue
                    note(got == want and type(got) is type(want), "setting", f"{d} {k}", f"{k} is {got!r}, not {want!r}: {case}")
    for c, e in itertools.product((None, "mysql", "postgres", "sqlite"), (None, "mysql", "postgres", "sqlite")):
        given = {"dialect": c} if c else {}
        env = {"DIALECT": e} if e else {}
        want = DRIVER[c or e or "mysql"]
        case = f"configured {given}, environment {env}"
        inst = f"{c or e or 'default'}"
        try:
            u = url(given, env)
            note(u is not None and str(u.get("drivername")).split("+")[0] == want, "dialect", inst, f"driver is {u and u.get('drivername')!r}: {case}")
        except Undecided as exc:
            note(None, "dialect", inst, str(exc))
    try:
        u = url({}, {"DIALECT": "no such dialect"})
        note(u is None, "dialect", "unknown", "an unknown dialect is accepted")
    except Undecided as exc:
        note(None, "dialect", "unknown", str(exc))
    for (rule, inst), (ok, msg) in sorted(seen.items()):
        rep.check(ok, rule, inst, "common.py:database_url", msg)
    prefixes(ctx, rep)
    own(v, rep)


def own(v, rep):
    """Variables read when an engine is made all have the prefix given."""
    names = set()
    for x in v.engines:
        for a in [t for t in list(x.args) + [k for _, k in x.kw] + [g for g, _ in x.guards]]:
            for t in v.deep(a, ctrl=True):
                if t.op == "env":
                    names.add(cv(t.a[0]))
    fixed_ = sorted(n for n in names if isinstance(n, str) and n.startswith(("SUBSET_SOURCE_", "SUBSET_DESTINATION_")))
    rep.check(False if fixed_ else True if names and None not in names else None, "own", "variables", v.engines[0], f"read for either side: {', '.join(fixed_)}")


def prefixes(ctx, rep):
    want = {"source": "SUBSET_SOURCE_", "dest": "SUBSET_DESTINATION_"}
    for key, run in (("sample", ctx.sampler("database")), ("plan", ctx.planner())):
        w = View(run)
        for side in ("source", "dest"):
            if key == "plan" and side == "dest":
                continue
            es = [x for x in w.fx if x.name == ".database_engine" and x.recv is not None and (any(t.op == "attr" and t.a[1] == "output" for t in subterms(x.recv))) == (side == "dest")]
            if not es:
                rep.unk("prefix", f"{key} {side}", "", "engine not found")
            for x in es:
                p = w.xkw(x, "env_prefix", 0)
                c = cv(p) if p is not None else None
                if p is not None and c is None and p is not NONE:
                    cs = [cv(y) for _, y in w.alts(p)]
                    if p.op == "phi" and any(isinstance(y, str) and y != want[side] for y in cs):
                        rep.bad("prefix", f"{key} {side}", x, f"environment prefix can be {[y for y in cs if y != want[side]][0]!r}")
                        continue
                    rep.unk("prefix", f"{key} {side}", x, show(p, 4))
                else:
                    rep.check(c == want[side], "prefix", f"{key} {side}", x, f"environment prefix is {c!r}")
