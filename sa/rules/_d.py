"""Helpers for the rules about database connections."""

from ..rule import *  # noqa
from ..table import MISSING, Opq, Rec, Table, Undecided


class DV(View):
    def __init__(self, ctx, prefix="P_"):
        self.ctx, self.prefix = ctx, prefix
        super().__init__(ctx.database(prefix))
        self.hooks = ctx.database(prefix).hooks
        self.cfg = mk("sym", "db")
        self.cls = ctx.name("common", "DatabaseConfig")
        self.engines = [x for x in self.fx if x.name in ("sqlalchemy.create_engine", "sqlalchemy.engine_from_config", "sqlalchemy.engine.create_engine")]

    def rec(self, c, given):
        """Record for a section with some settings given."""
        tb = Table(self, {})
        return Rec(c, {k: self.rec(tb.section(c, k), x) if isinstance(x, dict) and tb.section(c, k) is not None else x for k, x in given.items()})

    def table(self, given, env, ssl=None):
        g = dict(given)
        if ssl is not None:
            g["ssl"] = ssl
        env = {self.prefix + k: x for k, x in env.items()}
        other = lambda n: None if n.startswith(self.prefix) else "other:" + str(n)
        return Table(self, {self.cfg: self.rec(self.cls, g)}, env, other)

    def outcome(self, tb):
        """The create_engine call that is reached, or "raise"."""
        und = None
        for x in self.fx:
            if x.kind == "raise":
                try:
                    if all(tb.true(g) for g, _ in x.guards):
                        return "raise"
                except Undecided as exc:
                    und = exc
        if und:
            raise und
        got = [x for x in self.engines if all(tb.true(g) for g, _ in x.guards)]
        if len(got) != 1:
            raise Undecided("create_engine")
        return got[0]
