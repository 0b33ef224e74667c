"""Helpers for the demonstrations; everything is kept in a scratch directory."""
import atexit, io, logging, os, shutil, sqlite3, sys, tempfile

sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
D = tempfile.mkdtemp(prefix="demo_")
atexit.register(shutil.rmtree, D, True)

import subsetter  # noqa

assert os.path.dirname(subsetter.__file__) == os.path.join(os.getcwd(), "subsetter"), subsetter.__file__

from subsetter.common import DatabaseConfig  # noqa
from subsetter.config_model import PlannerConfig, SamplerConfig  # noqa
from subsetter.plan_model import SubsetPlan  # noqa
from subsetter.planner import Planner  # noqa
from subsetter.sampler import Sampler  # noqa


def setup(src_sql, out_sql="", dbs=("test", "test_out")):
    d = tempfile.mkdtemp(dir=D)
    paths = [os.path.join(d, n + ".db") for n in dbs]
    for i, p in enumerate(paths):
        c = sqlite3.connect(p)
        c.executescript(src_sql if i == 0 else out_sql if i == 1 else "")
        c.commit()
        c.close()
    return paths[0], paths[1], {"dialect": "sqlite", "sqlite_databases": dict(zip(dbs, paths))}


def plan(src, planner):
    return Planner(DatabaseConfig(**src), PlannerConfig.model_validate(planner)).plan()


def sample(src, p, sampler=None, out=None, create=True, truncate=False):
    s = dict(sampler or {})
    s.setdefault("output", {"mode": "database", "remap": [{"search": r"^(\w+)\.", "replace": r"\1_out."}], **src, **(out or {})})
    Sampler(DatabaseConfig(**src), SamplerConfig.model_validate(s)).sample(p, create=create, truncate=truncate)


def run(src, planner, sampler=None, out=None, create=True, truncate=False):
    p = plan(src, planner)
    sample(src, p, sampler, out, create, truncate)
    return p


def rows(path, q):
    c = sqlite3.connect(path)
    r = c.execute(q if " " in q else f"select * from {q} order by 1").fetchall()
    c.close()
    return r


def eq(a, b, what=""):
    if a != b:
        print("FAILED", what, "got", repr(a)[:400], "expected", repr(b)[:400])
        sys.exit(1)


def need(c, what=""):
    if not c:
        print("FAILED", what)
        sys.exit(1)
