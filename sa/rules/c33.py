"""What each command does with the files and options it was given.

For every value of the action: `does` (which of planning, sampling and writing
the plan happen), `config` (with which sections of the configuration), `plan`
(which plan is sampled), `flags` (which options reach the sampler), `output`
(what of the plan is written, and where, by a decision table over the option),
`options` (the options of the command exist under their names and are off
unless given).
"""

from ._s import *  # noqa
from ..table import Table, Undecided

FLOORS = {"does": 9, "config": 4, "plan": 2, "flags": 4, "output": 3, "options": 8}
ACTIONS = ("plan", "sample", "subset")
DUMP = ("yaml.dump", "yaml.safe_dump")


def check(ctx, rep):
    v = View(ctx.main())
    a = None
    for x in v.fx:
        if x.name == ".parse_args":
            a = x.result
    if a is None:
        return fill(rep, FLOORS, "__main__.py")
    Commands(ctx, v, rep, a).check()
    fill(rep, FLOORS, "__main__.py")


def spine(t):
    """t and what it is an attribute of, and so on."""
    out = [t]
    while t.op == "attr":
        t = t.a[0]
        out.append(t)
    return out


def positional(x, n, kw):
    if len(x.args) > n:
        return x.args[n]
    for k, t in x.kw:
        if k == kw:
            return t
    return None


class Commands:
    def __init__(self, ctx, v, rep, args):
        self.ctx, self.v, self.rep, self.args = ctx, v, rep, args
        self.planner, self.sampler = ctx.name("planner", "Planner"), ctx.name("sampler", "Sampler")
        self.cfgcls = ctx.name("config_model", "SubsetterConfig")
        self.plancls = ctx.name("plan_model", "SubsetPlan")

    def opt(self, t, n=None):
        """t is an option (of that name)."""
        return t.op == "attr" and t.a[0] is self.args and (n is None or t.a[1] == n)

    # ------------------------------------------------------------- scenario

    def truth(self, g, given):
        """True, False or None (possible) for these options."""
        tb = Table(self.v, {mk("attr", self.args, k): x for k, x in given.items()})
        known = {}
        for at in atoms(g):
            if any(self.opt(t) for t in subterms(at)):
                try:
                    known[at] = bool(tb.true(at))
                except (Undecided, TypeError):
                    pass
        r = fixed(g, known)
        return True if r is TRUE else False if r is FALSE else None

    def cond(self, x):
        return and_(*[g for g, tag in x.guards])

    def during(self, xs, action, **more):
        return [x for x in xs if self.truth(self.cond(x), {"action": action, **more}) is not False]

    # ---------------------------------------------------------------- check

    def check(self):
        v, rep = self.v, self.rep
        cls = lambda x: v.e.objs[x.recv].cls if x.recv is not None and x.recv.op == "obj" else None
        self.plans = [x for x in v.fx if x.kind == "boundary" and x.name == ".plan" and cls(x) is self.planner]
        self.samples = [x for x in v.fx if x.kind == "boundary" and x.name == ".sample" and cls(x) is self.sampler]
        self.writes = [x for x in v.fx if self.written(x) is not None]
        if not any(self.opt(t, "action") for x in self.plans + self.samples for t in subterms(self.cond(x))):
            return rep.unk("does", "actions", "__main__.py", "choice of the action not recognised")
        for a in ACTIONS:
            p, s, w = (self.during(xs, a) for xs in (self.plans, self.samples, self.writes))
            self.count(a, "plan", p, a != "sample")
            self.count(a, "sample", s, a != "plan")
            if a != "plan":
                self.count(a, "write", w, False)
            else:
                self.count(a, "write", w, True)
                self.output(p, w)
            for x in p:
                self.sections(x, "planner", a)
            for x in s:
                self.sections(x, "sampler", a)
                self.flags(x, a)
                self.sampled(x, a, p)
        self.options()

    def count(self, a, what, xs, want):
        rep = self.rep
        if not want:
            rep.check(not xs, "does", f"{a}: {what}", xs[0] if xs else "__main__.py", f"{a} must not {what}")
            return
        if not xs:
            rep.bad("does", f"{a}: {what}", "__main__.py", f"{a} does not {what}")
            return
        bad = None
        for x in xs:
            if any(self.opt(t) and t.a[1] not in ("action", "config", "plan_output", "plan") for t in subterms(and_(*[g for g, tag in x.guards if tag in SKIP]))):
                bad = "only with some options"
            plans = {y.result for y in self.plans}
            if any(t.op == "attr" and t.a[0] in plans for g, tag in x.guards if tag in ("branch", "return") for at in atoms(g) for t in subterms(at)):
                bad = "for some plans only"
        rep.check(not bad, "does", f"{a}: {what}", xs[0], f"{a} does {what} {bad}")

    # --------------------------------------------------------------- config

    def section(self, t, n):
        """t is that section of the configuration: True, False or None."""
        rs = set()
        for _, q in self.v.alts(t):
            if q.op == "attr" and self.is_config(q.a[0]):
                rs.add(q.a[1] == n)
            elif q.op == "attr" and any(self.is_config(t) for t in subterms(q)) and all(t.op == "attr" for t in spine(q) if not self.is_config(t)):
                rs.add(False)
            else:
                rs.add(None)
        return rs.pop() if len(rs) == 1 else None

    def is_config(self, t):
        return t.op == "call" and t.a[0].op == "attr" and t.a[0].a[0] is self.cfgcls or t.op == "obj" and self.v.e.objs[t].cls is self.cfgcls or t.op == "call" and t.a[0].op == "bound" and self.cfgcls in t.a[0].a

    def sections(self, x, what, a):
        v, rep = self.v, self.rep
        new = [y for y in v.fx if y.kind == "new" and y.result is x.recv]
        if not new:
            return rep.unk("config", f"{a}: {what}", x, "construction not found")
        for i, n, kw in ((0, "source", "source"), (1, what, what + "_config" if what == "planner" else "config")):
            t = positional(new[0], i, kw)
            if t is None and n != "source":
                t = positional(new[0], i, "planner_config" if what == "planner" else "config")
            if t is None:
                rep.unk("config", f"{a}: {n}", new[0], "argument not found")
            else:
                r = self.section(t, n)
                rep.check(r, "config", f"{a}: {n}", new[0], f"{what} is given {show(t, 3)}")

    def flags(self, x, a):
        v, rep = self.v, self.rep
        kw = dict(x.kw)
        for n in ("truncate", "create"):
            t = kw.get(n)
            if t is None:
                rep.check(None if x.args[1:] or None in kw else False, "flags", f"{a}: {n}", x, f"--{n} is not passed on")
                continue
            while t.op == "call" and is_ext(t.a[0], "builtins.bool") and t.a[1]:
                t = t.a[1][0]
            if t.op == "truth":
                t = t.a[0]
            if self.opt(t, n):
                rep.ok("flags", f"{a}: {n}", x)
            else:
                tb = [self.value(t, {"truncate": p, "create": q, "verbose": 0}) for p in (False, True) for q in (False, True)]
                if None in tb:
                    rep.unk("flags", f"{a}: {n}", x, f"{n} is {show(t, 4)}")
                else:
                    rep.check(tb == [False, False, True, True] if n == "truncate" else tb == [False, True, False, True], "flags", f"{a}: {n}", x, f"{n} is {show(t, 4)}")

    def value(self, t, given):
        try:
            return bool(Table(self.v, {mk("attr", self.args, k): x for k, x in given.items()}).ev(t))
        except (Undecided, TypeError):
            return None

    # ----------------------------------------------------------------- plan

    def sampled(self, x, a, plans):
        v, rep = self.v, self.rep
        t = positional(x, 0, "plan")
        if t is None:
            return rep.bad("plan", a, x, "no plan is sampled")
        alts = [(g, q) for g, q in v.alts(t) if self.truth(g, {"action": a}) is not False]
        if a == "subset":
            rs = [q in [p.result for p in plans] for _, q in alts]
            loaded = any(self.from_file(q) for _, q in alts)
            lost = [f for _, q in alts if q.op == "obj" and v.e.objs[q].kind == "inst" and any(p.result in v.deep(q) for p in plans) for f in v.e.classes[v.cls(q)].fields if v.inst.get(q, {}).get(f) is None or not any(p.result in v.deep(v.inst[q][f]) for p in plans)]
            if lost:
                return rep.bad("plan", a, x, f"the plan is sampled without its {lost[0]}")
            return rep.check(True if all(rs) else False if loaded else None, "plan", a, x, "another plan than the one just made is sampled")
        bad, unk = None, None
        for given, want in (("P", "file"), ("-", "stdin")):
            for g, q in alts:
                if self.truth(and_(g, self.cond(x)), {"action": a, "plan": given}) is False:
                    continue
                src = self.from_file(q)
                if src is None:
                    unk = "plan not recognised"
                    continue
                for gg, s in v.alts(src):
                    if self.truth(gg, {"action": a, "plan": given}) is False:
                        continue
                    k = self.stream(s)
                    if k is None:
                        unk = f"source {show(s, 3)}"
                    elif k[0] == "file":
                        if not self.opt(k[1], "plan"):
                            kn = any(self.opt(y) for y in subterms(k[1])) or k[1].op == "const"
                            bad = f"the plan is read from {show(k[1], 3)}" if kn else bad
                            unk = unk or "file not recognised"
                        elif want == "stdin":
                            bad = bad or "- is taken as the name of a file"
                    elif k[0] == "stdin" and want == "file":
                        bad = "the plan is read from standard input"
                    elif k[0] == "stdout":
                        bad = "the plan is read from standard output"
        rep.check(False if bad else None if unk else True, "plan", a, x, bad or unk or "")

    def from_file(self, q):
        """What a plan is loaded from."""
        if not (q.op == "call" and self.plancls in ([q.a[0].a[0]] if q.a[0].op == "attr" else list(q.a[0].a) if q.a[0].op == "bound" else [])):
            return None
        if not q.a[1]:
            return None
        d = q.a[1][0]
        if d.op == "call" and is_ext(d.a[0], "yaml.safe_load", "yaml.load", "json.load") and d.a[1]:
            s = d.a[1][0]
            if s.op == "call" and s.a[0].op == "attr" and s.a[0].a[1] == "read":
                s = s.a[0].a[0]
            return s
        return None

    def stream(self, s):
        if is_ext(s, "sys.stdin"):
            return ("stdin",)
        if is_ext(s, "sys.stdout"):
            return ("stdout",)
        if is_ext(s, "sys.stderr"):
            return ("standard error",)
        if s.op == "call" and is_ext(s.a[0], "builtins.open", "io.open") and s.a[1]:
            mode = s.a[1][1] if len(s.a[1]) > 1 else dict(s.a[2]).get("mode") if len(s.a) > 2 else None
            return ("file", s.a[1][0], cval(mode) if mode is not None and mode.op == "const" else "r" if mode is None else None)
        return None

    # --------------------------------------------------------------- output

    def written(self, x):
        """(data, stream) if x writes a plan."""
        if x.name in DUMP:
            s = positional(x, 1, "stream")
            return (positional(x, 0, "data"), s) if s is not None and s is not NONE else None
        if (x.name in (".write", "builtins.print") or x.name.startswith("sys.") and x.name.endswith(".write")) and x.args:
            ts = [t for t in subterms(x.args[0]) if t.op == "call" and is_ext(t.a[0], *DUMP)]
            if ts:
                s = x.recv if x.name == ".write" else ext(x.name[:-6]) if x.name.startswith("sys.") else dict(x.kw).get("file", ext("sys.stdout"))
                return (ts[0].a[1][0] if ts[0].a[1] else None, s)
        return None

    def output(self, plans, writes):
        v, rep = self.v, self.rep
        made = [p.result for p in plans]
        bad, unk = None, None
        for x in writes:
            d, s = self.written(x)
            for _, q in v.alts(d) if d is not None else ():
                part = False
                while q.op in ("item", "slice") or q.op == "call" and is_ext(q.a[0], "builtins.dict") and q.a[1]:
                    part = part or q.op in ("item", "slice")
                    q = q.a[0] if q.op in ("item", "slice") else q.a[1][0]
                if not (q.op == "call" and q.a[0].op == "attr" and q.a[0].a[1] in ("model_dump", "dict")):
                    unk = f"what is written: {show(q, 3)}"
                    continue
                if part:
                    bad = "only a part of the plan is written"
                src = q.a[0].a[0]
                if src not in made:
                    if src.op == "attr" and src.a[0] in made:
                        bad = f"only {src.a[1]} of the plan is written"
                    else:
                        unk = "plan not recognised"
                kw = dict(q.a[2]) if len(q.a) > 2 else {}
                al = kw.get("by_alias")
                if al is None or al.op == "const" and not cval(al):
                    bad = "names are written that are not the documented ones"
                for k in ("include", "exclude"):
                    if kw.get(k) is not None and kw[k] is not NONE:
                        bad = "only a part of the plan is written"
        rep.check(False if bad else None if unk or not writes else True, "output", "content", writes[0] if writes else "__main__.py", bad or unk or "")
        # names that some condition treats in a way of their own
        named = sorted({cval(q) for x in writes for g in [self.cond(x)] + [g for g, _ in v.alts(self.written(x)[1])] for at in atoms(g) if at.op in ("eq", "in", "is") and any(self.opt(t, "plan_output") for t in subterms(at)) for q in subterms(at) if q.op == "const" and isinstance(cval(q), str) and cval(q)})
        for given, want in (("F", "file"), *((s, "file") for s in named), (None, "stdout")):
            bad, unk, n = None, None, 0
            for x in writes:
                r = self.truth(self.cond(x), {"action": "plan", "plan_output": given})
                if r is False:
                    continue
                d, s = self.written(x)
                for g, q in v.alts(s):
                    if self.truth(g, {"action": "plan", "plan_output": given}) is False:
                        continue
                    n += 1
                    k = self.stream(q)
                    if k is None:
                        unk = f"stream {show(q, 3)}"
                    elif k[0] == "file":
                        if not self.opt(k[1], "plan_output") and (any(self.opt(y) for y in subterms(k[1])) or k[1].op == "const"):
                            bad = f"written to {show(k[1], 3)}"
                        elif want != "file":
                            bad = "no file was asked for"
                        elif not self.opt(k[1], "plan_output"):
                            unk = "file not recognised"
                        elif k[2] is None:
                            unk = "mode not recognised"
                        elif "w" not in k[2]:
                            bad = f"the file is opened with mode {k[2]}"
                    elif k[0] != want:
                        bad = f"written to {k[0]}"
            rep.check(False if bad else None if unk else True if n == 1 else None if n else False, "output", f"option {'given' if given else 'not given'}", writes[0] if writes else "__main__.py", bad or unk or "the plan is not written")

    # -------------------------------------------------------------- options

    def owner(self, r):
        """Name of the command whose parser r is, '' for all, None if unknown."""
        for _ in range(4):
            if r is None:
                return None
            if r.op == "call" and r.a[0].op == "attr" and r.a[0].a[1] == "add_parser" and r.a[1] and r.a[1][0].op == "const":
                return cval(r.a[1][0])
            if r.op == "call" and is_ext(r.a[0], "argparse.ArgumentParser"):
                return ""
            if r.op == "call" and r.a[0].op == "attr" and r.a[0].a[1] in ("add_argument_group", "add_mutually_exclusive_group"):
                r = r.a[0].a[0]
            else:
                return None
        return None

    def options(self):
        v, rep = self.v, self.rep
        opts, unknown = {}, False
        for x in v.fx:
            if x.name == ".add_argument":
                o = self.owner(x.recv)
                if o is None or not all(t.op == "const" for t in x.args):
                    unknown = True
                    continue
                names = [cval(t) for t in x.args]
                kw = dict(x.kw)
                d = kw.get("dest")
                if d is not None and d.op != "const":
                    unknown = True
                    continue
                long_ = [n for n in names if n.startswith("--")] or names
                dest = cval(d) if d is not None else long_[0].lstrip("-").replace("-", "_")
                opts[o, dest] = (x, names, kw)
            elif x.name in (".add_parser", "argparse.ArgumentParser") and any(k == "parents" for k, _ in x.kw):
                unknown = True
        if not opts:
            return rep.unk("options", "options", "__main__.py", "options not recognised")
        for a, n, flag in (("sample", "truncate", "--truncate"), ("sample", "create", "--create"), ("subset", "truncate", "--truncate"), ("subset", "create", "--create")):
            o = opts.get((a, n)) or opts.get(("", n))
            if o is None:
                rep.check(None if unknown else False, "options", f"{a} {flag}", "__main__.py", "the option does not exist")
                continue
            x, names, kw = o
            act, const_, df = (cval(kw[k]) if k in kw and kw[k].op == "const" else kw.get(k, None) for k in ("action", "const", "default"))
            bad = None
            if flag not in names:
                bad = f"the option is called {names}"
            elif isinstance(df, T):
                bad = None
            elif df:
                bad = "it is on without being given"
            elif act == "store_false":
                bad = "it does the opposite"
            elif act == "store_const" and not isinstance(const_, T) and not const_:
                bad = "it has no effect"
            elif act in (None, "store"):
                bad = "it takes a value"
            rep.check(False if bad else True if act in ("store_true", "store_const") and not isinstance(df, T) else None, "options", f"{a} {flag}", x, bad or "")
        for a, n, flags, default in (("plan", "plan_output", ("-o", "--output"), (None,)), ("sample", "plan", ("-p", "--plan"), None), ("", "config", ("-c", "--config"), (None,))):
            o = opts.get((a, n))
            if o is None:
                # stored under another name that the code reads instead
                o = next((q for (b, _), q in opts.items() if b == a and set(flags) & set(q[1])), None)
                if o is not None:
                    rep.unk("options", f"{a} {flags[1]}", o[0], "stored under another name")
                else:
                    rep.check(None if unknown else False, "options", f"{a} {flags[1]}", "__main__.py", "the option does not exist")
                continue
            x, names, kw = o
            bad = None
            if not set(flags) <= set(names):
                bad = f"the option is called {names}"
            df = kw.get("default")
            if default is not None and df is not None and df.op == "const" and cval(df) not in default + ((),):
                bad = "it is on without being given"
            if n == "config" and not (kw.get("action") is not None and kw["action"].op == "const" and cval(kw["action"]) in ("append", "extend")):
                bad = "only one file can be given"
            rep.check(not bad, "options", f"{a} {flags[1]}", x, bad or "")
        # every option that is read exists for that command
        miss = []
        for a in ACTIONS:
            have = {d for (b, d) in opts if b in ("", a)} | {"action"}
            for x in self.during(v.fx, a):
                if x.name in (".add_argument",):
                    continue
                for t in [y for q in list(x.args) + [y for _, y in x.kw] for y in subterms(q)]:
                    if self.opt(t) and t.a[1] not in have:
                        miss.append((a, t.a[1], x))
        rep.check(None if miss and unknown else not miss, "options", "read", miss[0][2] if miss else "__main__.py", f"{miss[0][0]} has no option {miss[0][1]}" if miss else "")
