"""Planted bugs: each with the edit, a demonstration and what it needs to manifest."""
ALL = []


def seed(id, prop, edits, needs, breaks, demo):
    ALL.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


S, F, PL, PM, M, C, MA, CM = "sampler.py", "filters.py", "planner.py", "plan_model.py", "metadata.py", "common.py", "__main__.py", "config_model.py"

seed("c01-permanent-table", "C01",
     [(S, 'prefixes=["TEMPORARY"],', 'prefixes=["TEMPORARY"] if primary_key else [],')],
     "A table without a primary key whose sample other tables refer to.",
     "Its sample is materialised in a permanent table created in the source database.",
     '''
a, b, _ = setup("""
create table p (k integer, v text, unique(k));
create table c (id integer primary key, k integer references p(k));
insert into p values (1,'x'),(2,'y'); insert into c values (1,1),(2,2);
""")
src = {"dialect": "sqlite", "database": a, "sqlite_databases": {"main_out": b}}
before = rows(a, "select name, sql from sqlite_master order by 1")
run(src, {"select": ["main.*"], "targets": {"main.p": {"all": True}}})
eq(rows(a, "select name, sql from sqlite_master order by 1"), before, "source schema")
''')

seed("c02-copies-unfiltered", "C02",
     [(S, "out_row = filter_view.filter_view(row) if filter_view else list(row)", "out_row = (\n                        filter_view.filter_view(row)\n                        if filter_view and not iteration\n                        else list(row)\n                    )")],
     "Directory output with both a filter and a multiplier.",
     "Only the first copy of a row is filtered; the others are written as they are in the source.",
     '''
import glob, json
a, b, src = setup("create table t (id integer primary key, ssn text); insert into t values (1,'111'),(2,'222');")
o = os.path.join(D, "out")
run(src, {"select": ["test.*"], "targets": {"test.t": {"all": True}}},
    {"output": {"mode": "directory", "directory": o}, "multiplicity": {"multiplier": 2},
     "filters": {"test.t": [{"op": "constant", "columns": ["ssn"], "values": ["-"]}]}})
got = [json.loads(l)["ssn"] for l in open(os.path.join(o, "test.t.json"))]
eq(got, ["-"] * 4, "filtered values")
''')

seed("c03-random-seeded", "C03",
     [(F, "self.alphabet = alphabet\n        self.rng = rng or Random()", "self.alphabet = alphabet\n        self.rng = rng or Random(length)")],
     "Random string filters run twice, in two processes or for two tables.",
     "The replacement strings are the same sequence in every run, so that they can be predicted.",
     '''
from subsetter.filters import FilterRandomString
def make():
    f = FilterRandomString.Config.model_validate({"op": "random_string", "columns": ["a"], "length": 20}).construct_filter(["a"])
    return [list(f.filter_view([str(i)])) for i in range(5)]
need(make() != make(), "the same strings twice")
''')

seed("c07-truncate-spares-passthrough", "C07",
     [(S, '                LOGGER.info("Truncating table %s", table)\n', '                if str(table) in self.passthrough_tables and self.merge:\n                    continue\n                LOGGER.info("Truncating table %s", table)\n'),
      (S, '                conn.execute(sa.delete(table.table_obj))\n', '                conn.execute(table.table_obj.delete())\n')],
     "Merge mode with truncation, a passthrough table whose name is kept, and rows already in the destination.",
     "Old rows of the passthrough table survive a truncating run.",
     '''
a, b, src = setup("create table t (id integer primary key, v text); insert into t values (1,'a'),(2,'b');")
a2, b2, out = setup("", "", ("x", "y"))
import sqlite3
c = sqlite3.connect(a2); c.executescript("create table t (id integer primary key, v text); insert into t values (9,'old');"); c.close()
out = {"dialect": "sqlite", "sqlite_databases": {"test": a2}}
p = plan(src, {"select": ["test.*"], "targets": {}, "passthrough": ["test.t"]})
sample(src, p, {"output": {"mode": "database", "merge": True, **out}}, truncate=True)
eq(rows(a2, "t"), [(1, "a"), (2, "b")], "destination")
''')

seed("c08-filters-checked-late", "C08",
     [(S, "        self._validate_filters(meta)\n", "        if not truncate:\n            self._validate_filters(meta)\n")],
     "A truncating run with a filter on a column that does not exist.",
     "The destination is emptied before the mistake in the configuration is found.",
     '''
S = "create table t (id integer primary key, v text); insert into t values (1,'a');"
a, b, src = setup(S, S)
p = plan(src, {"select": ["test.*"], "targets": {"test.t": {"all": True}}})
try:
    sample(src, p, {"filters": {"test.t": [{"op": "null", "columns": ["nope"]}]}}, truncate=True)
except Exception as e:
    print(type(e), e)
else:
    need(False, "accepted")
eq(rows(b, "t"), [(1, "a")], "destination")
''')

seed("c04-folded-column-names", "C04",
     [(F, "column_index_map = {column: index for index, column in enumerate(columns_in)}", "column_index_map = {\n        column.lower(): index for index, column in enumerate(columns_in)\n    }"),
      (F, "act_index = column_index_map.get(column)", "act_index = column_index_map.get(column.lower())")],
     "A table with two columns whose names differ in case only (possible in postgresql).",
     "The filter is applied to the other column; the named one is left as it is.",
     '''
from subsetter.filters import FilterConstant
f = FilterConstant.Config.model_validate({"op": "constant", "columns": ["Ssn"], "values": ["-"]}).construct_filter(["id", "Ssn", "ssn"])
eq(list(f.filter_view([1, "111", "x"])), [1, "-", "x"], "filtered row")
''')

seed("c05-value-in-error", "C05",
     [(F, 'raise ValueError(f"Cannot zero unknown type {str(type(value))}")', 'raise ValueError(f"Cannot zero {value!r} of unknown type {type(value)}")')],
     "A zero filter that meets a value of a type it does not know.",
     "The sensitive value itself appears in the error message.",
     '''
from decimal import Decimal
from subsetter.filters import FilterZero
f = FilterZero.Config.model_validate({"op": "zero", "columns": ["salary"]}).construct_filter(["salary"])
try:
    list(f.filter_view([Decimal("73519.25")]))
except Exception as e:
    need("73519" not in str(e), "value in the message: " + str(e))
''')

seed("c06-missing-rootcert-ignored", "C06",
     [(C, "                return {key: value for key, value in result.items() if value}\n", "                return {\n                    key: value\n                    for key, value in result.items()\n                    if value and (key == \"sslmode\" or os.path.exists(value))\n                }\n")],
     "A configured server root certificate that is not readable at this path.",
     "The connection silently does without the certificate the user asked to verify against.",
     '''
c = DatabaseConfig(dialect="postgres", ssl={"require": True, "server": {"rootcert": D + "/none.pem", "verify": "cert"}})
a = c.ssl.get_connect_args("postgres", env_prefix="SUBSET_NOPE_")
eq((a.get("sslmode"), a.get("sslrootcert")), ("verify-ca", D + "/none.pem"), "arguments")
''')

seed("c09-same-name-other-schema", "C09",
     [(M, "                and (fk.dst_schema, fk.dst_table) in self.tables\n", "                and (fk.dst_schema, fk.dst_table) in self.tables\n                and fk.dst_table != table.name\n"),
      (M, "            if (table.schema, table.name) not in ignore_tables\n", "            if not (table.schema, table.name) in ignore_tables\n")],
     "Two schemas with tables of the same name that refer to each other.",
     "The dependency is not part of the graph, so that rows are inserted before the rows they refer to.",
     '''
import sqlalchemy as sa
from subsetter.metadata import DatabaseMetadata, TableMetadata
m = sa.MetaData()
a = sa.Table("t", m, sa.Column("id", sa.Integer, sa.ForeignKey("z.t.id"), primary_key=True), schema="a")
z = sa.Table("t", m, sa.Column("id", sa.Integer, primary_key=True), schema="z")
o = [str(t) for t in DatabaseMetadata(m, {("a", "t"): TableMetadata(a), ("z", "t"): TableMetadata(z)}).toposort()]
eq(o, ["z.t", "a.t"], "order")
''')

seed("c12-full-last-buffer", "C12",
     [(S, "        if buffer:\n            _flush_buffer()\n", "        if len(buffer) < DESTINATION_BUFFER_SIZE:\n            _flush_buffer()\n")],
     "A table whose sample leaves exactly a full buffer at the end (1024 rows).",
     "The last 1024 rows are never written.",
     '''
a, b, src = setup("create table t (id integer primary key);"
                  "with recursive n(i) as (select 1 union all select i+1 from n where i<1024) insert into t select i from n;")
run(src, {"select": ["test.*"], "targets": {"test.t": {"all": True}}})
eq(rows(b, "select count(*) from t"), [(1024,)], "rows written")
''')

seed("c13-last-table-decides", "C13",
     [(S, "                changes = changes or len(cols) > start_len\n", "                changes = len(cols) > start_len\n")],
     "A chain of references through key columns in which the last table of the plan does not change.",
     "Foreign keys to columns which are multiplied only indirectly are not multiplied, and refer to wrong rows.",
     '''
a, b, src = setup("""
create table p (id integer primary key); insert into p values (1),(2);
create table q (id integer primary key, k integer unique references p(id)); insert into q values (1,2),(2,1);
create table r (id integer primary key, k integer references q(k)); insert into r values (1,1),(2,2);
create table z (id integer primary key); insert into z values (1);
""")
t = {"all": True}
p = plan(src, {"select": ["test.*"], "targets": {"test.p": t, "test.q": t, "test.r": t, "test.z": t}})
p.queries = {k: p.queries[k] for k in ("test.r", "test.q", "test.p", "test.z")}
sample(src, p, {"multiplicity": {"multiplier": 3}})
eq(rows(b, "select count(*) from r where k not in (select k from q)"), [(0,)], "dangling references")
eq(rows(b, "select count(distinct k) from r"), [(6,)], "distinct references")
''')

seed("c14-zero-key-unshifted", "C14",
     [(S, "                        if out_row[index] is not None:\n                            out_row[index] += offset", "                        if out_row[index]:\n                            out_row[index] += offset")],
     "Merging rows with the key 0.",
     "The row with key 0 is not shifted and collides with a row of the destination.",
     '''
a, b, src = setup("create table t (id integer primary key, v text); insert into t values (0,'a'),(1,'b');",
                  "create table t (id integer primary key, v text); insert into t values (5,'x');")
run(src, {"select": ["test.t"], "targets": {"test.t": {"all": True}}},
    {"output": {"mode": "database", "merge": True, "remap": [{"search": r"^test\\.", "replace": "test_out."}], **src}})
eq(rows(b, "t"), [(5, "x"), (6, "a"), (7, "b")], "merged rows")
''')

seed("c16-empty-sample-resampled", "C16",
     [(S, "            if (schema, table_name, 0) in meta.temp_tables:\n", "            if self.cached_table_sizes.get((schema, table_name)):\n")],
     "A table whose materialised sample is empty at first, or a random sample of it.",
     "The table is sampled a second time; for a random sample the rows differ from those other tables were matched against.",
     '''
a, b, src = setup("""
create table p (id integer primary key); create table c (id integer primary key, p integer references p(id));
insert into p values (1); insert into c values (1,1);
""")
p = plan(src, {"select": ["test.*"], "targets": {"test.p": {"sql": "id > 5"}}})
import sqlalchemy as sa
seen = []
def note(c, cur, s, *r): seen.append(" ".join(s.split()))
sa.event.listen(sa.engine.Engine, "before_cursor_execute", note)
sample(src, p)
eq(len([s for s in seen if "id > 5" in s]), 1, "evaluations of the query of p")
''')

seed("c18-sql-or-percent", "C18",
     [(PL, "            if target.sql is not None:\n", "            if target.sql is not None and target.percent is None:\n")],
     "A target with both a percentage and an SQL condition.",
     "The condition is dropped; rows it excludes are sampled.",
     '''
a, b, src = setup("create table t (id integer primary key); insert into t values (1),(2),(3);")
run(src, {"select": ["test.*"], "targets": {"test.t": {"percent": 100, "sql": "id < 3"}}})
eq(rows(b, "t"), [(1,), (2,)], "rows")
''')

seed("c19-limit-zero", "C19",
     [(PM, "        if self.limit is not None:\n            # pylint: disable=not-callable\n", "        if self.limit:\n            # pylint: disable=not-callable\n")],
     "A plan that samples zero rows of a table.",
     "All of its rows are sampled.",
     '''
a, b, src = setup("create table t (id integer primary key); insert into t values (1),(2),(3);")
run(src, {"select": ["test.*"], "targets": {"test.t": {"amount": 0}}})
eq(rows(b, "t"), [], "rows")
''')

seed("c20-first-statement-unchecked", "C20",
     [(PM, "        for statement in simp_statements:\n            if statement.from_", "        for statement in simp_statements[1:]:\n            if statement.from_")],
     "A target which is also referred to by a table sampled earlier.",
     "The simplified query loses the references: only the targeted rows are sampled.",
     '''
a, b, src = setup("""
create table p (id integer primary key); create table c (id integer primary key, p integer references p(id));
insert into p values (1),(2),(3),(4); insert into c values (1,1),(2,2);
""")
run(src, {"select": ["test.*"], "targets": {"test.c": {"all": True}, "test.p": {"sql": "id = 3"}}})
eq(rows(b, "p"), [(1,), (2,), (3,)], "rows of p")
''')

seed("c21-weight-only-order", "C21",
     [("solver.py", "key=lambda x: (x[1], x[0]), reverse=True)", "key=lambda x: x[1], reverse=True)")],
     "Tables of the same weight and another seed for the hashes of strings.",
     "The order of the queries in a plan differs from run to run.",
     '''
import subprocess
G = "import sys; sys.path.insert(0, %r); from subsetter.solver import order_graph; print(order_graph({'': {'s.a','s.b','s.c','s.d','s.e'}, **{'s.'+x: set() for x in 'abcde'}}, ''))" % os.getcwd()
out = {subprocess.run([sys.executable, "-B", "-c", G], env={**os.environ, "PYTHONHASHSEED": str(i)}, capture_output=True, text=True).stdout for i in range(1, 13)}
need("" not in out, "no output")
eq(len(out), 1, "different orders")
''')

seed("c22-like-as-text", "C22",
     [(PM, "            return column.like(self.value)\n", "            return sa.text(f\"{column} LIKE '%s'\" % str(self.value).replace(\"'\", \"''\"))\n")],
     "A pattern with a colon and a word after it.",
     "Part of the value becomes SQL: text after a colon is taken for a parameter.",
     '''
a, b, src = setup("create table t (id integer primary key, v text); insert into t values (1,'x :b'),(2,'c');")
run(src, {"select": ["test.*"], "targets": {"test.t": {"like": {"v": ["x :b"]}}}})
eq(rows(b, "t"), [(1, "x :b")], "rows")
''')

seed("c25-environment-port-wins", "C25",
     [(C, '        port = port or int(os.getenv(f"{env_prefix}PORT", "0"))\n', '        port = int(os.getenv(f"{env_prefix}PORT", str(port or 0)))\n')],
     "A port both in the configuration and in the environment.",
     "The port of the environment replaces the configured one.",
     '''
os.environ["SUBSET_SOURCE_PORT"] = "7777"
u = DatabaseConfig(dialect="mysql", host="h", port=4444, database="d").database_url(env_prefix="SUBSET_SOURCE_")
eq((u.port), 4444, "port")
eq(DatabaseConfig(dialect="mysql", host="h").database_url(env_prefix="SUBSET_SOURCE_").port, 7777, "port of the environment")
''')

seed("c26-lost-plan", "C26",
     [(MA, '        LOGGER.error(\n            "Could not write plan to output file %r: %s", args.plan_output, exc\n        )\n        sys.exit(1)\n', '        LOGGER.error(\n            "Could not write plan to output file %r: %s", args.plan_output, exc\n        )\n        if not isinstance(exc, FileNotFoundError):\n            sys.exit(1)\n')],
     "A plan is to be written into a directory that does not exist.",
     "The command ends successfully although there is no plan.",
     '''
import subprocess, json
a, b, src = setup("create table t (id integer primary key);")
cfg = os.path.join(D, "c.yaml")
json.dump({"source": src, "planner": {"select": ["test.*"], "targets": {"test.t": {"all": True}}}}, open(cfg, "w"))
def main(o):
    return subprocess.run([sys.executable, "-B", "-c", "import sys; sys.path.insert(0, %r); from subsetter.__main__ import main; main()" % os.getcwd(), "-c", cfg, "plan", "-o", o], capture_output=True).returncode
eq(main(os.path.join(D, "plan.yaml")), 0, "exit status")
need(main(os.path.join(D, "nope", "plan.yaml")) != 0, "exit status is 0 without a plan")
''')

seed("c27-first-connection-only", "C27",
     [(C, '@sa.event.listens_for(engine, "connect")', '@sa.event.listens_for(engine, "first_connect")')],
     "More than one connection of the pool is in use.",
     "Session statements are run on the first connection only.",
     '''
import sqlalchemy as sa
a, b, src = setup("")
e = DatabaseConfig(dialect="sqlite", database=os.path.join(D, "x.db"), session_sqls=["PRAGMA cache_size=777"]).database_engine()
with e.connect() as c, e.connect() as d:
    eq([x.execute(sa.text("PRAGMA cache_size")).scalar() for x in (c, d)], [777, 777], "session settings")
''')

seed("c28-first-rule-only", "C28",
     [(S, "            table = re.sub(remap_pattern.search, remap_pattern.replace, table)\n        return", "            remapped = re.sub(remap_pattern.search, remap_pattern.replace, table)\n            if remapped != table:\n                return parse_table_name(remapped)\n        return")],
     "Two remap rules which both apply to a table.",
     "Only the first rule is applied.",
     '''
a, b, src = setup("create table t (id integer primary key); insert into t values (1);")
run(src, {"select": ["test.*"], "targets": {"test.t": {"all": True}}},
    {"output": {"mode": "database", "remap": [{"search": r"^test\\.", "replace": "test_out."}, {"search": r"\\.t$", "replace": ".copy"}], **src}})
eq(rows(b, "copy"), [(1,)], "rows")
''')

seed("c29-third-table-infers", "C29",
     [(M, "                pk_map[map_key] = None\n", "                del pk_map[map_key]\n")],
     "Three tables with a primary key of the same name.",
     "A reference to the third table is inferred although the name is ambiguous.",
     '''
a, b, src = setup("create table a (k integer primary key); create table b (k integer primary key); create table c (k integer primary key);"
                  "create table d (id integer primary key, k integer);")
p = plan(src, {"select": ["test.*"], "targets": {"test.d": {"all": True}}, "infer_foreign_keys": "schema"})
eq(sorted(p.queries), ["test.d"], "planned tables")
''')

seed("c30-ignored-by-name", "C30",
     [(PL, "                if (fk.dst_schema, fk.dst_table) != (dst_schema, dst_table_name)\n", "                if fk.dst_table != dst_table_name\n")],
     "References from one table to tables of the same name in two schemas.",
     "Both references are ignored when the configuration ignores one of them.",
     '''
a, b, src = setup("create table p (k1 integer primary key); create table c (id integer primary key, k1 integer, k2 integer);",
                  "create table p (k2 integer primary key);", ("x", "y"))
p = plan(src, {"select": ["x.*", "y.*"], "targets": {"x.c": {"all": True}}, "infer_foreign_keys": "all",
               "ignore_fks": [{"src_table": "x.c", "dst_table": "x.p"}]})
eq(sorted(p.queries), ["x.c", "y.p"], "planned tables")
''')

seed("c31-default-means-nullable", "C31",
     [(S, "                        nullable=col.nullable,\n", "                        nullable=col.nullable or col.server_default is not None,\n")],
     "A NOT NULL column with a default.",
     "The column created in the destination accepts NULL.",
     '''
a, b, src = setup("create table t (id integer primary key, v integer not null default 3); insert into t values (1,1);")
run(src, {"select": ["test.*"], "targets": {"test.t": {"all": True}}})
eq([r[3] for r in rows(b, "pragma table_info (t)") if r[1] == "v"], [1], "nullability")
''')

seed("c32-null-never-overrides", "C32",
     [(MA, "                if key in result:\n                    result[key]", "                if val is None or key in result and result[key] == val:\n                    continue\n                elif key in result:\n                    result[key]")],
     "A second configuration file which unsets an option with null.",
     "The value of the first file stays in force.",
     '''
import json, types
from subsetter import __main__ as m
f, g = os.path.join(D, "a.yaml"), os.path.join(D, "b.yaml")
P = {"select": ["t.*"], "targets": {"t.a": {"amount": 3}}}
json.dump({"planner": P}, open(f, "w")); json.dump({"planner": {"targets": {"t.a": {"amount": None}}}}, open(g, "w"))
seen = []
class Stop(Exception): pass
class Fake:
    def __init__(self, source, config): seen.append(config); raise Stop()
m.Planner = Fake
sys.argv = ["subsetter", "-c", f, "-c", g, "plan"]
try: m.main()
except (SystemExit, Stop): pass
eq([c.targets["t.a"].amount for c in seen], [None], "amount")
''')

seed("c33-subset-truncate-creates", "C33",
     [(MA, "    plan = Planner(config.source, config.planner).plan()\n    Sampler(config.source, config.sampler).sample(\n        plan,\n        truncate=args.truncate,\n        create=args.create,\n", "    plan = Planner(config.source, config.planner).plan()\n    Sampler(config.source, config.sampler).sample(\n        plan,\n        truncate=args.truncate,\n        create=args.create or args.truncate,\n")],
     "subset --truncate without --create.",
     "Missing tables are created although this was not asked for.",
     '''
import subprocess, json
a, b, src = setup("create table t (id integer primary key); insert into t values (1);")
cfg = os.path.join(D, "c.yaml")
json.dump({"source": src, "planner": {"select": ["test.*"], "targets": {"test.t": {"all": True}}},
           "sampler": {"output": {"mode": "database", "remap": [{"search": r"^test\\.", "replace": "test_out."}], **src}}}, open(cfg, "w"))
subprocess.run([sys.executable, "-B", "-c", "import sys; sys.path.insert(0, %r); from subsetter.__main__ import main; main()" % os.getcwd(), "-c", cfg, "subset", "--truncate"], capture_output=True)
eq(rows(b, "select name from sqlite_master"), [], "tables")
''')

seed("c34-number-without-separator", "C34",
     [(S, 'return f"{self.NAME_PREFIX}{name}_{cnt}"', 'return f"{self.NAME_PREFIX}{name}{cnt}"')],
     "Two tables called t in different schemas, and a third called t1.",
     "Two temporary tables get the same name; the run fails or mixes up samples.",
     '''
a, b, src = setup("create table t (k1 integer primary key); create table t1 (k2 integer primary key); insert into t values (1); insert into t1 values (2);"
                  "create table c (id integer primary key, k1 integer, k2 integer, k3 integer); insert into c values (1,1,2,3);",
                  "create table t (k3 integer primary key); insert into t values (3);", ("x", "y"))
o = os.path.join(D, "out")
t = {"all": True}
run(src, {"select": ["x.*", "y.*"], "targets": {"x.t": t, "y.t": t, "x.t1": t}, "infer_foreign_keys": "all"},
    {"infer_foreign_keys": "all", "output": {"mode": "directory", "directory": o}}, create=False)
eq(sorted(os.listdir(o)), ["x.c.json", "x.t.json", "x.t1.json", "y.t.json"], "files")
need(open(os.path.join(o, "x.c.json")).read().count("{") == 1, "rows of c")
''')

seed("c35-one-step-of-references", "C35",
     [(M, "        for schema, table in table_queue:\n            table_obj = metadata_obj", "        for schema, table in list(table_queue):\n            table_obj = metadata_obj")],
     "A selected table which refers to an unselected table through another one.",
     "The table at the end of the chain is not part of the plan.",
     '''
a, b, src = setup("create table a (id integer primary key); create table b (id integer primary key, a integer references a(id));"
                  "create table c (id integer primary key, b integer references b(id)); insert into a values (1); insert into b values (1,1); insert into c values (1,1);")
p = plan(src, {"select": ["test.c"], "targets": {"test.c": {"all": True}}})
eq(sorted(p.queries), ["test.a", "test.b", "test.c"], "planned tables")
''')

seed("c36-custom-alphabet-wins", "C36",
     [(F, "alphabet = _ALPHABET_MAP.get(self.alphabet, self.custom_alphabet)", "alphabet = self.custom_alphabet or _ALPHABET_MAP.get(self.alphabet)")],
     "A random string filter with a named alphabet and a left-over custom one.",
     "The custom alphabet is used although the named one was chosen.",
     '''
from subsetter.filters import FilterRandomString
f = FilterRandomString.Config.model_validate({"op": "random_string", "columns": ["a"], "length": 30, "alphabet": "digit", "custom_alphabet": "xyz"}).construct_filter(["a"])
v = list(f.filter_view(["q"]))[0]
need(len(v) == 30 and set(v) <= set("0123456789"), "string " + v)
''')

seed("c37-every-condition-applies", "C37",
     [(F, "                return condition_filter.filter_view(values_in)\n        return list(values_in)\n", "                values_in = tuple(condition_filter.filter_view(values_in))\n        return list(values_in)\n")],
     "A multiplex filter in which two conditions match the same row.",
     "The filters of all matching conditions are applied instead of the first one's.",
     '''
from subsetter.filters import FilterMultiplex
c = lambda op, v, x: {"op": op, "value": v, "apply": {"op": "constant", "columns": ["v"], "values": [x]}}
f = FilterMultiplex.Config.model_validate({"op": "multiplex", "column": "k", "conditions": [c("<", 5, "low"), c("<", 10, "mid"), c(">=", 10, "high")]}).construct_filter(["k", "v"])
eq([list(f.filter_view([k, "z"])) for k in (1, 7, 20)], [[1, "low"], [7, "mid"], [20, "high"]], "rows")
''')

seed("c10-one-column-not-replaced", "C10",
     [(S, 'if self.conflict_strategy == "replace" and not self.non_pk_columns:', 'if self.conflict_strategy == "replace" and len(self.non_pk_columns) <= 1:')],
     "The replace strategy and a table with one column besides its primary key.",
     "An existing row is kept although it should be replaced.",
     '''
a, b, src = setup("create table t (id integer primary key, v text); create table w (id integer primary key, v text, u text);"
                  "insert into t values (1,'new'), (2,'two'); insert into w values (1,'new','new');",
                  "create table t (id integer primary key, v text); create table w (id integer primary key, v text, u text);"
                  "insert into t values (1,'old'); insert into w values (1,'old','old');")
t = {"all": True}
run(src, {"select": ["test.*"], "targets": {"test.t": t, "test.w": t}}, out={"conflict_strategy": "replace"})
eq(rows(b, "w"), [(1, "new", "new")], "w")
eq(rows(b, "t"), [(1, "new"), (2, "two")], "t")
''')

seed("c15-start-key-below-one", "C15",
     [(S, "                    + self.config.compact.start_key\n                    - 1,\n", "                    + max(self.config.compact.start_key, 1)\n                    - 1,\n")],
     "Compaction with a start key of zero or less, and a table no other one refers to.",
     "The keys of that table do not start at the configured value.",
     '''
a, b, src = setup("create table t (id integer primary key, v text);"
                  "insert into t values (7,'a'), (9,'b');")
run(src, {"select": ["test.*"], "targets": {"test.t": {"all": True}}}, {"compact": {"primary_keys": True, "start_key": -5}})
eq(rows(b, "t"), [(-5, "a"), (-4, "b")], "t")
''')

seed("c18-percentage-drops-references", "C18",
     [(PL, "            if target.all_:\n                rev_foreign_keys.clear()\n", "            if target.all_ or target.percent is not None:\n                rev_foreign_keys.clear()\n")],
     "A target given by percentage which already sampled tables refer to.",
     "Rows that sampled rows refer to are missing.",
     '''
a, b, src = setup("create table p (id integer primary key); create table c (id integer primary key, p integer references p(id));"
                  "insert into p values (1), (2), (3); insert into c values (1,1), (2,2);")
run(src, {"select": ["test.*"], "targets": {"test.c": {"all": True}, "test.p": {"percent": 0}}})
eq(rows(b, "c"), [(1, 1), (2, 2)], "c")
eq(rows(b, "p"), [(1,), (2,)], "p")
''')

seed("c23-unique-not-passed-on", "C23",
     [(F, "                    unique=self.unique,\n                    faker=filter_context.faker,", "                    faker=filter_context.faker,")],
     "A fake-data filter with unique set, and so many rows that values repeat by chance.",
     "The option is ignored, and values repeat.",
     '''
from subsetter.filters import FilterFakeStateAbbr, FilterContext
from faker import Faker
f = FilterFakeStateAbbr.Config.model_validate({"op": "fake_state_abbr", "columns": ["a"], "unique": True}).construct_filter(["a"], filter_context=FilterContext(faker=Faker("en_US")))
v = [list(f.filter_view(["q"]))[0] for _ in range(40)]
eq(len(set(v)), 40, "different values")
''')
