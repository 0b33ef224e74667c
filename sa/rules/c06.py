"""Transport security.

The arguments of engine creation are extracted as an expression over settings
and environment and tabulated over every combination of dialect, requirement,
verification level and certificates.  `refuse`: a dialect without TLS, and a
verification the driver would not do, are errors when TLS is required.
`demand`: the driver is told to use TLS when required.  `verify`: the level of
verification given to the driver is the one configured.  `files`: certificates
and key are those configured.  `off`: nothing is passed when TLS is not
required.  `precedence` is part of each: settings win over the environment.
"""

import itertools

from ._d import *  # noqa

FLOORS = {"demand": 2, "verify": 2, "files": 2, "refuse": 2, "off": 2}
PG = {"none": {"require"}, "cert": {"verify-ca"}, "identity": {"verify-full"}}
MY_ON = ("required", True, 1, "1", "true", "yes", 2)
MY_OFF = ("none", False, 0, "0", "false", "no")


def check(ctx, rep):
    v = DV(ctx)
    if not v.engines:
        broken("create_engine is not called")
    seen = {}

    def note(status, rule, inst, msg=""):
        k = (rule, inst)
        old = seen.get(k)
        rank = {BAD: 2, UNK: 1, OK: 0}
        if old is None or rank[status] > rank[old[0]]:
            seen[k] = (status, msg)

    files = [("client", "cert", "SSL_CLIENT_CERT"), ("client", "key", "SSL_CLIENT_KEY"), ("server", "rootcert", "SSL_SERVER_ROOTCERT")]
    combos = []
    for d in ("mysql", "postgres", "sqlite"):
        for req, ereq in itertools.product((None, False, True), (None, "1", "true")):
            for ver, ever in itertools.product((None, "none", "cert", "identity"), (None, "none", "cert", "identity")):
                for have in ((), ("c",), ("e",), ("c", "e")):
                    combos.append((d, req, ereq, ver, ever, tuple(have for _ in files)))
        for k in range(3):
            for have in ((), ("c",), ("e",), ("c", "e")):
                for rest in ((), ("c",)):
                    for ver in ("none", "cert"):
                        hs = [rest] * 3
                        hs[k] = have
                        combos.append((d, True, None, ver, None, tuple(hs)))
    probed = False
    for d, req, ereq, ver, ever, hs, there in itertools.chain((c + (True,) for c in combos), (c + (False,) for c in combos)):
        if not there and not probed:
            break
        ssl, env = {}, {}
        if req is not None:
            ssl["require"] = req
        if ereq is not None:
            env["SSL_REQUIRE"] = ereq
        if ver is not None:
            ssl.setdefault("server", {})["verify"] = ver
        if ever is not None:
            env["SSL_SERVER_VERIFY"] = ever
        want = {}
        for (sec, key, en), have in zip(files, hs):
            if "c" in have:
                ssl.setdefault(sec, {})[key] = f"config {key}"
            if "e" in have:
                env[en] = f"environment {key}"
            want[key] = f"config {key}" if "c" in have else f"environment {key}" if "e" in have else None
        R = req if req is not None else bool(ereq)
        V = ver if ver is not None else ever if ever is not None else "none"
        tb = v.table({"dialect": d}, env, ssl)
        tb.files = there
        case = f"{d}, ssl {ssl}, environment {env}" + ("" if there else ", files missing")
        rule = "off" if not R else "refuse" if d == "sqlite" else "demand"
        try:
            x = v.outcome(tb)
            if x == "raise" and tb.probed and not there:
                continue
            if x == "raise":
                if not R:
                    note(BAD, "off", d, f"refused although TLS is not required: {case}")
                elif d == "sqlite" or d == "mysql" and V == "identity" and not want["rootcert"]:
                    note(OK, "refuse", d)
                else:
                    note(BAD, "demand", d, f"refused: {case}")
                continue
            ca = v.xkw(x, "connect_args")
            got = tb.ev(ca) if ca is not None else {}
            if got is MISSING or got is None:
                got = {}
            if not isinstance(got, dict):
                raise Undecided(ca)
            probed = probed or tb.probed
        except Undecided as exc:
            probed = probed or tb.probed
            for r in (rule,) if rule != "demand" else (rule, "verify", "files"):
                note(UNK, r, d, f"{case}: {exc.args[0] if not isinstance(exc.args[0], T) else show(exc.args[0], 4)}")
            continue
        if not R:
            tls = {k for k, z in got.items() if (str(k).startswith("ssl")) and z}
            note(BAD if tls else OK, "off", d, f"{sorted(tls)} passed although TLS is not required: {case}")
            continue
        if d == "sqlite":
            note(BAD, "refuse", d, f"required TLS is ignored: {case}")
            continue
        if d == "mysql" and V == "identity" and not want["rootcert"]:
            note(BAD, "refuse", d, f"accepted although the driver would not check the host name: {case}")
            continue
        if d == "postgres":
            mode = got.get("sslmode")
            note(OK if mode in ("require", "verify-ca", "verify-full") else BAD, "demand", d, f"sslmode is {mode!r}: {case}")
            note(OK if mode in PG[V] else BAD, "verify", d, f"sslmode is {mode!r} for {V}: {case}")
            f = {"cert": got.get("sslcert"), "key": got.get("sslkey"), "rootcert": got.get("sslrootcert")}
        else:
            s = got.get("ssl")
            if not isinstance(s, dict) or not s:
                note(BAD if not s or s is True else UNK, "demand", d, f"ssl is {s!r}: {case}")
                continue
            note(OK, "demand", d)
            vm, ch = s.get("verify_mode"), s.get("check_hostname", False)
            if isinstance(vm, Opq) or isinstance(ch, Opq):
                note(UNK, "verify", d, case)
            else:
                on, off = vm in MY_ON and vm is not None, vm in MY_OFF or vm is None and not want["rootcert"]
                ok = (on if V in ("cert", "identity") else off) and bool(ch) == (V == "identity")
                note(OK if ok else BAD, "verify", d, f"verify_mode is {vm!r} and check_hostname {ch!r} for {V}: {case}")
            f = {"cert": s.get("cert"), "key": s.get("key"), "rootcert": s.get("ca")}
        for k, z in f.items():
            z = z or None
            note(OK if z == want[k] else BAD, "files", f"{d} {k}", f"{k} is {z!r}: {case}")
    for (rule, inst), (status, msg) in sorted(seen.items()):
        rep._add(status, rule, inst, "common.py:get_connect_args", msg)
    rep.notes["combinations"] = len(combos)
