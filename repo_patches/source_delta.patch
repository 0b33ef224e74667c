From b1fcec5185b8c901a3f3bebbed25fd78fefbb286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:08 +0000
Subject: [PATCH 01/35] fix: multiply foreign key columns that reference a
 multiplied column

The columns to multiply were found by intersecting the foreign key's own
column names with the multiplied columns of the referenced table, so a key
whose column is named differently (orders.user_id -> users.id) kept its
original value while the rows it referenced were renumbered.
---
 subsetter/sampler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 6333ea8..8a90fc1 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -1137,7 +1137,11 @@ class Sampler:
                 start_len = len(cols)
                 for fk in table.foreign_keys:
                     dst_mapped = result.get(f"{fk.dst_schema}.{fk.dst_table}", set())
-                    cols.update(set(fk.columns) & dst_mapped)
+                    cols.update(
+                        src_col
+                        for src_col, dst_col in zip(fk.columns, fk.dst_columns)
+                        if dst_col in dst_mapped
+                    )
 
                 if cols and table_name in ignore_tables:
                     raise ValueError(
-- 
2.43.0


From 1edbbca94babea16329c5fd32b2e64ec5a82c6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:08 +0000
Subject: [PATCH 02/35] fix: do not drop joins when merging the statements of a
 union

A table that is a target and is also referenced by another target was
sampled in full: the merged statement kept the where clauses only, and the
statement following the foreign keys has none.
---
 subsetter/plan_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/subsetter/plan_model.py b/subsetter/plan_model.py
index eaa86ff..ebd0890 100644
--- a/subsetter/plan_model.py
+++ b/subsetter/plan_model.py
@@ -367,6 +367,8 @@ class SQLStatementUnion(BaseModel):
                 break
             if statement.limit is not None:
                 break
+            if statement.joins:
+                break
         else:
             return SQLStatementSelect(
                 type_="select",
-- 
2.43.0


From cae301971558d3111da50795070f0ef9c68b7b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:08 +0000
Subject: [PATCH 03/35] fix: allow primary key columns to be omitted from the
 output

An 'omit' filter on a primary key column made every insert fail with a
KeyError.
---
 subsetter/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 8a90fc1..2fb3d3c 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -176,7 +176,7 @@ class ConflictInsert(Executable, ClauseElement):
             self.conflict_strategy = "error"
         else:
             for column in self.table.primary_key:
-                self.non_pk_columns.remove(column.name)
+                self.non_pk_columns.discard(column.name)
             if self.conflict_strategy == "replace" and not self.non_pk_columns:
                 # If there are no other columns outside of the primary key the replace
                 # strategy is meaningless and we should just skip.
-- 
2.43.0


From 106f540beff08bd35a4a4ec9c8b1144fea2dd37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:08 +0000
Subject: [PATCH 04/35] fix: only replace sampled columns on sqlite conflicts

The sqlite 'replace' strategy updated every column of the destination table,
resetting columns that are not part of the sample, unlike mysql and postgres.
---
 subsetter/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 2fb3d3c..bb087cc 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -219,7 +219,7 @@ class ConflictInsert(Executable, ClauseElement):
         if self.conflict_strategy == "replace":
             stmt = stmt.on_conflict_do_update(
                 index_elements=self.table.primary_key,
-                set_=stmt.excluded,  # type: ignore
+                set_={col: stmt.excluded[col] for col in self.non_pk_columns},
             )
         if self.conflict_strategy == "skip":
             stmt = stmt.on_conflict_do_nothing()
-- 
2.43.0


From 066a91917a50b11c99ee13395c8d62b7a8299e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:08 +0000
Subject: [PATCH 05/35] fix: name the table and column in the table constraint
 error

---
 subsetter/planner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subsetter/planner.py b/subsetter/planner.py
index 66b17e3..5b13853 100644
--- a/subsetter/planner.py
+++ b/subsetter/planner.py
@@ -354,7 +354,7 @@ class Planner:
         for conf_constraint in conf_constraints:
             if conf_constraint.column not in table.table_obj.columns:
                 raise ValueError(
-                    "Table {table} has no column {conf_constraint.column!r} for table constraint",
+                    f"Table {table} has no column {conf_constraint.column!r} for table constraint",
                 )
 
             conf_constraints_sql.append(
-- 
2.43.0


From 07a9e983569bb613d2cb64d4ce3eb3aae5890734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:08 +0000
Subject: [PATCH 06/35] fix: plan tables with foreign keys to unselected tables

With include_dependencies disabled the planner failed with a KeyError if a
selected table has a foreign key to a table that is not selected.
---
 subsetter/metadata.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/subsetter/metadata.py b/subsetter/metadata.py
index 6bcb932..6a8c77c 100644
--- a/subsetter/metadata.py
+++ b/subsetter/metadata.py
@@ -182,7 +182,10 @@ class DatabaseMetadata:
     def compute_reverse_keys(self) -> None:
         for table in self.tables.values():
             for fk in table.foreign_keys:
-                self.tables[(fk.dst_schema, fk.dst_table)].rev_foreign_keys.append(
+                dst_table = self.tables.get((fk.dst_schema, fk.dst_table))
+                if dst_table is None:
+                    continue
+                dst_table.rev_foreign_keys.append(
                     ForeignKey(
                         columns=fk.dst_columns,
                         dst_schema=table.schema,
-- 
2.43.0


From 480695fd96d4da2dbe0f0c386abcd4ecf56100e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:08 +0000
Subject: [PATCH 07/35] fix: sample tables with foreign keys to tables outside
 of the plan

Creating or merging a table with a foreign key to a table that is not sampled
(ignored, or not selected with include_dependencies disabled) failed with a
KeyError.
---
 subsetter/sampler.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index bb087cc..fb8e057 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -471,12 +471,8 @@ class DatabaseOutput(SamplerOutput):
             for fk in src_table.foreign_keys:
                 if len(fk.columns) != 1:
                     continue
-                if (
-                    fk.dst_columns
-                    != self.source_meta.tables[
-                        (fk.dst_schema, fk.dst_table)
-                    ].primary_key
-                ):
+                dst_table = self.source_meta.tables.get((fk.dst_schema, fk.dst_table))
+                if dst_table is None or fk.dst_columns != dst_table.primary_key:
                     continue
                 offset = pk_max_values.get(f"{fk.dst_schema}.{fk.dst_table}")
                 if offset is not None:
@@ -539,6 +535,10 @@ class DatabaseOutput(SamplerOutput):
                         sa.CheckConstraint(constraint.sqltext)
                     )
                 if isinstance(constraint, sa.ForeignKeyConstraint):
+                    ref_table = constraint.referred_table
+                    if f"{ref_table.schema}.{ref_table.name}" not in table_obj_map:
+                        # The referenced table is not part of the sample
+                        continue
                     fk_cols = _remap_cols(elem.column for elem in constraint.elements)
                     remapped_table_obj.append_constraint(
                         sa.ForeignKeyConstraint(
-- 
2.43.0


From 49f2e37dd04aa1ee243df76ae68d4dd7cdd2e0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:31 +0000
Subject: [PATCH 08/35] fix: support limited statements within unions on sqlite

A target with an 'amount' that is also referenced by another target was
sampled with a parenthesized select in a union, a syntax error in sqlite.
---
 subsetter/plan_model.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/subsetter/plan_model.py b/subsetter/plan_model.py
index ebd0890..4d37f6f 100644
--- a/subsetter/plan_model.py
+++ b/subsetter/plan_model.py
@@ -342,7 +342,14 @@ class SQLStatementUnion(BaseModel):
     # TODO: Assert statements is not empty
 
     def build(self, context: SQLBuildContext):
-        return sa.union(*(statement.build(context) for statement in self.statements))
+        selects = []
+        for statement in self.statements:
+            select = statement.build(context)
+            if statement.limit is not None:
+                # Not all dialects support ordering or limits directly within a union
+                select = sa.select(select.subquery())
+            selects.append(select)
+        return sa.union(*selects)
 
     def simplify(self) -> "SQLStatement":
         simp_statements = [
-- 
2.43.0


From 8da1204a1eca9b53278df3e801c5b6a773115319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:31 +0000
Subject: [PATCH 09/35] fix: reject compacting explicitly listed foreign key
 columns

The check that no compacted column is part of a foreign key was skipped unless
primary_keys or auto_increment_keys is set, so a column listed in
compact.columns could be renumbered without regard to the rows it references.
---
 subsetter/sampler.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index fb8e057..80de30b 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -775,13 +775,12 @@ class Sampler:
             else:
                 compact_columns[table_key] = set(cols)
 
-        if (
-            not self.config.compact.primary_keys
-            and not self.config.compact.auto_increment_keys
-        ):
-            return compact_columns
-
         for table_key, table_meta in meta.tables.items():
+            if (
+                not self.config.compact.primary_keys
+                and not self.config.compact.auto_increment_keys
+            ):
+                break
             if len(table_meta.primary_key) != 1:
                 continue
             if f"{table_key[0]}.{table_key[1]}" in self.passthrough_tables:
-- 
2.43.0


From eee0a51c47f1ef3d908139da05e919ebc5821729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:31 +0000
Subject: [PATCH 10/35] fix: check the compaction config before changing the
 destination

An invalid compaction config was only reported after the destination had been
truncated.
---
 subsetter/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 80de30b..9dbb6fe 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -734,6 +734,7 @@ class Sampler:
         self._validate_filters(meta)
 
         table_column_multipliers = self._get_multiplied_columns(meta, plan)
+        self.compact_columns = self._get_compact_columns(meta)
 
         output = SamplerOutput.from_config(self.config.output, plan, meta)
         if create:
@@ -743,7 +744,6 @@ class Sampler:
             output.truncate()
         output.prepare()
 
-        self.compact_columns = self._get_compact_columns(meta)
         with self.source_engine.execution_options().connect() as conn:
             self._materialize_tables(meta, conn, plan)
             self._copy_results(
-- 
2.43.0


From d22fce5304468fe9664bf898aac02edb3a2f3133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:31 +0000
Subject: [PATCH 11/35] fix: sample with the default config if there is no
 sampler section

The sampler section is documented as optional but the sample and subset
commands failed with an AttributeError without it.
---
 subsetter/sampler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 9dbb6fe..c966f75 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -710,8 +710,10 @@ class DatabaseOutput(SamplerOutput):
 
 
 class Sampler:
-    def __init__(self, source: DatabaseConfig, config: SamplerConfig) -> None:
-        self.config = config
+    def __init__(
+        self, source: DatabaseConfig, config: Optional[SamplerConfig]
+    ) -> None:
+        self.config = config or SamplerConfig()
         self.source_engine = source.database_engine(env_prefix="SUBSET_SOURCE_")
         self.compact_columns: Dict[Tuple[str, str], Set[str]] = {}
         self.temp_tables = TempTableCreator()
-- 
2.43.0


From cf1c5c39d06096f9462438e0e29b1a28737097b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:31 +0000
Subject: [PATCH 12/35] fix: create the output directory if it does not exist

---
 subsetter/sampler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index c966f75..38261e1 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -355,6 +355,9 @@ class DirectoryOutput(SamplerOutput):
     def insert_order(self) -> List[str]:
         return list(self.plan.queries)
 
+    def prepare(self) -> None:
+        os.makedirs(self.directory, exist_ok=True)
+
     def output_result_set(
         self,
         schema: str,
-- 
2.43.0


From 1cb48f3a3f1e4f9c6349123b39db3fde093874d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:31 +0000
Subject: [PATCH 13/35] fix: fail if a sampled table does not exist in the
 destination

Tables missing in the destination were silently left out of the sample unless
--create is passed.
---
 subsetter/sampler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 38261e1..768614c 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -597,6 +597,9 @@ class DatabaseOutput(SamplerOutput):
     def insert_order(self) -> List[str]:
         result = []
         insert_order_mapped = [str(table) for table in self.meta.toposort()]
+        missing_tables = sorted(set(self.table_remap) - set(insert_order_mapped))
+        if missing_tables:
+            raise ValueError(f"Destination is missing expected tables {missing_tables}")
         for table in insert_order_mapped:
             remapped_table = self.table_remap.get(table)
             if remapped_table:
-- 
2.43.0


From e7d89b4f7c7df42d29d7d67f2ba91d4acddd9221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:31 +0000
Subject: [PATCH 14/35] fix: make the order of passthrough tables in the plan
 deterministic

---
 subsetter/planner.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subsetter/planner.py b/subsetter/planner.py
index 5b13853..51ba29d 100644
--- a/subsetter/planner.py
+++ b/subsetter/planner.py
@@ -77,7 +77,7 @@ class Planner:
         self.meta.compute_reverse_keys()
 
         queries: Dict[str, SQLTableQuery] = {}
-        for schema, table_name in self.passthrough_tables:
+        for schema, table_name in sorted(self.passthrough_tables):
             queries[f"{schema}.{table_name}"] = SQLTableQuery(
                 statement=SQLStatementSelect(
                     type_="select",
@@ -102,7 +102,7 @@ class Planner:
             queries=queries,
             passthrough=[
                 f"{schema}.{table_name}"
-                for schema, table_name in self.passthrough_tables
+                for schema, table_name in sorted(self.passthrough_tables)
             ],
         )
 
-- 
2.43.0


From e2e0dab9ade47c19985a8f38f37bac0196f77c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:55 +0000
Subject: [PATCH 15/35] fix: apply table constraints to targeted tables

The constraints of a table were only added to the statement following its
foreign keys, so they were silently ignored for a target.
---
 subsetter/planner.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/subsetter/planner.py b/subsetter/planner.py
index 51ba29d..162214d 100644
--- a/subsetter/planner.py
+++ b/subsetter/planner.py
@@ -284,6 +284,15 @@ class Planner:
         assert not foreign_keys or not rev_foreign_keys
         assert target or foreign_keys or rev_foreign_keys
 
+        conf_constraints = self.config.table_constraints.get(
+            f"{table.schema}.{table.name}", []
+        )
+        if conf_constraints and rev_foreign_keys:
+            raise ValueError(
+                f"Cannot apply table constraints to {table} without violating "
+                "foreign key constraints of previously sampled tables",
+            )
+
         # If we're a target we can only have reverse foreign key constraints.
         # If we're selecting all rows we can just ignore them.
         if target:
@@ -341,16 +350,7 @@ class Planner:
                 )
             )
 
-        conf_constraints = self.config.table_constraints.get(
-            f"{table.schema}.{table.name}", []
-        )
         conf_constraints_sql: List[SQLWhereClause] = []
-        if conf_constraints and rev_foreign_keys:
-            raise ValueError(
-                f"Cannot apply table constraints to {table} without violating "
-                "foreign key constraints of previously sampled tables",
-            )
-
         for conf_constraint in conf_constraints:
             if conf_constraint.column not in table.table_obj.columns:
                 raise ValueError(
@@ -426,6 +426,7 @@ class Planner:
 
             if target.all_:
                 target_constraints.clear()
+            target_constraints.extend(conf_constraints_sql)
 
             statements.append(
                 SQLStatementSelect(
-- 
2.43.0


From c7a1e641ed8711425d5053c774af4bc334d8bb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:55 +0000
Subject: [PATCH 16/35] fix: honor a dialect set by environment variable for
 all settings

The isolation level, SSL arguments and attached sqlite databases were chosen
for the default dialect if the dialect was set by environment variable.
---
 subsetter/common.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/subsetter/common.py b/subsetter/common.py
index 43e29b8..0e9ba27 100644
--- a/subsetter/common.py
+++ b/subsetter/common.py
@@ -184,19 +184,24 @@ class DatabaseConfig(BaseModel):
         self,
         env_prefix: Optional[str] = None,
     ) -> sa.engine.Engine:
+        url = self.database_url(env_prefix=env_prefix)
+        dialect: DatabaseDialect = {  # type: ignore
+            "postgresql": "postgres"
+        }.get(url.get_backend_name(), url.get_backend_name())
+
         if self.isolation_level:
             isolation_level = self.isolation_level
-        elif self.dialect == "sqlite":
+        elif dialect == "sqlite":
             isolation_level = "SERIALIZABLE"
         else:
             isolation_level = "READ COMMITTED"
 
         engine = sa.create_engine(
-            self.database_url(env_prefix=env_prefix),
+            url,
             isolation_level=isolation_level,
             pool_pre_ping=True,
             connect_args=self.ssl.get_connect_args(
-                self.dialect or DEFAULT_DIALECT,
+                dialect,
                 env_prefix=env_prefix,
             ),
             echo=self.echo,
@@ -206,7 +211,7 @@ class DatabaseConfig(BaseModel):
         def _set_session_sqls(dbapi_connection, _):
             cursor = dbapi_connection.cursor()
             try:
-                if self.dialect == "sqlite":
+                if dialect == "sqlite":
                     for db_alias, db_file in self.sqlite_databases.items():
                         escaped_db_file = db_file.replace("'", "''")
                         cursor.execute(
-- 
2.43.0


From 0f98ebf8778edb9aa99d0d5b571339e80862d11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:55 +0000
Subject: [PATCH 17/35] fix: keep session settings when a connection is reused

On postgres the statements in session_sqls were run in a transaction that is
rolled back when the connection is first returned to the pool, undoing any SET.
---
 subsetter/common.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/subsetter/common.py b/subsetter/common.py
index 0e9ba27..93ffc4f 100644
--- a/subsetter/common.py
+++ b/subsetter/common.py
@@ -220,6 +220,8 @@ class DatabaseConfig(BaseModel):
 
                 for session_sql in self.session_sqls:
                     cursor.execute(session_sql)
+                # Session settings would otherwise be lost in the first rollback
+                dbapi_connection.commit()
             finally:
                 cursor.close()
 
-- 
2.43.0


From d8755d2707eb19e6ad6b0d6d54b2c4fcb2ba3bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:55 +0000
Subject: [PATCH 18/35] fix: verify the server certificate of mysql connections
 as configured

The verify_cert and verify_identity keys are not known to pymysql and were
ignored: without a rootcert no certificate was verified at all, and with one
the identity was verified even if not asked for.
---
 subsetter/common.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/subsetter/common.py b/subsetter/common.py
index 93ffc4f..02f8c9a 100644
--- a/subsetter/common.py
+++ b/subsetter/common.py
@@ -144,12 +144,13 @@ class DatabaseConfig(BaseModel):
                     "cert": client_cert,
                 }
                 result = {key: value for key, value in result.items() if value}
-                if server_verify == "identity":
-                    result["verify_identity"] = True
-                elif server_verify == "cert":
-                    result["verify_cert"] = True
-                else:
-                    result["verify_cert"] = False
+                if server_verify == "identity" and not server_rootcert:
+                    # pymysql never checks the host name without one
+                    raise ValueError("ssl server verify 'identity' needs a rootcert")
+                result["check_hostname"] = server_verify == "identity"
+                result["verify_mode"] = (
+                    "required" if server_verify in ("cert", "identity") else "none"
+                )
                 return {"ssl": result}
 
             raise ValueError("Dialect does not support ssl")
-- 
2.43.0


From d468c8ceeb2c49bcf3412b73f5f8954961848d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:30 +0000
Subject: [PATCH 19/35] fix: quote table names when updating postgres sequences

pg_get_serial_sequence parses its first argument as an identifier, so tables
that need quoting were not found.
---
 subsetter/sampler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 768614c..6a2fddb 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -254,7 +254,7 @@ def _autoincrement_get(engine, table: sa.Table) -> Optional[int]:
             result = conn.execute(
                 sa.text("SELECT currval(pg_get_serial_sequence(:tab, :col))"),
                 {
-                    "tab": f"{table.schema}.{table.name}",
+                    "tab": engine.dialect.identifier_preparer.format_table(table),
                     "col": table.autoincrement_column.name,
                 },
             )
@@ -287,7 +287,7 @@ def _autoincrement_update(engine, table: sa.Table, value: Optional[int]) -> None
         conn.execute(
             sa.text("SELECT setval(pg_get_serial_sequence(:tab, :col), :val)"),
             {
-                "tab": f"{table.schema}.{table.name}",
+                "tab": engine.dialect.identifier_preparer.format_table(table),
                 "col": table.autoincrement_column.name,
                 "val": value,
             },
-- 
2.43.0


From 57dc3ad4ca66256c9786196327a28bdd6bfeb3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:31 +0000
Subject: [PATCH 20/35] fix: never move a postgres sequence backwards

currval is only defined in the session that called nextval, so the current value
was never known and the sequence was set below the ids of existing rows.
---
 subsetter/sampler.py | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 6a2fddb..88bbe5b 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -249,21 +249,17 @@ def _autoincrement_get(engine, table: sa.Table) -> Optional[int]:
         return None
     assert engine.dialect.name == "postgresql"
 
-    try:
-        with engine.connect() as conn:
-            result = conn.execute(
-                sa.text("SELECT currval(pg_get_serial_sequence(:tab, :col))"),
-                {
-                    "tab": engine.dialect.identifier_preparer.format_table(table),
-                    "col": table.autoincrement_column.name,
-                },
-            )
-            row = next(iter(result), None)
-            return row[0] if row else None
-    except sa.exc.OperationalError as exc:
-        if "not yet defined in this session" not in str(exc):
-            raise
-        return None
+    with engine.connect() as conn:
+        return conn.scalar(
+            sa.text(
+                "SELECT pg_sequence_last_value("
+                "CAST(pg_get_serial_sequence(:tab, :col) AS regclass))"
+            ),
+            {
+                "tab": engine.dialect.identifier_preparer.format_table(table),
+                "col": table.autoincrement_column.name,
+            },
+        )
 
 
 def _autoincrement_update(engine, table: sa.Table, value: Optional[int]) -> None:
-- 
2.43.0


From f6ea833e2beeaede3258084ec7e4068800a353be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:45 +0000
Subject: [PATCH 21/35] fix: sample the requested percentage of rows on sqlite

sqlite's random() is a signed 64-bit integer, so comparing it with a fraction
selected about half of the rows for any percentage.
---
 subsetter/plan_model.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/subsetter/plan_model.py b/subsetter/plan_model.py
index 4d37f6f..20ac187 100644
--- a/subsetter/plan_model.py
+++ b/subsetter/plan_model.py
@@ -3,6 +3,8 @@ from typing import Any, Callable, Dict, List, Literal, Optional, Union
 
 import sqlalchemy as sa
 from pydantic import BaseModel, ConfigDict, Field
+from sqlalchemy.ext.compiler import compiles
+from sqlalchemy.sql.functions import FunctionElement
 from typing_extensions import Annotated
 
 from subsetter.common import SQLKnownOperator, SQLLiteralType
@@ -13,6 +15,25 @@ from subsetter.common import SQLKnownOperator, SQLLiteralType
 SQLBuildContext = Callable[["SQLTableIdentifier"], sa.Table]
 
 
+# pylint: disable=too-many-ancestors,abstract-method
+class RandomFraction(FunctionElement):
+    """A random number between 0 and 1 generated for each row"""
+
+    type = sa.Float()
+    inherit_cache = True
+
+
+@compiles(RandomFraction)
+def _random_fraction(element, compiler, **kwargs) -> str:
+    return compiler.process(sa.func.random(), **kwargs)
+
+
+@compiles(RandomFraction, "sqlite")
+def _random_fraction_sqlite(element, compiler, **kwargs) -> str:
+    # random() is a signed 64-bit integer on sqlite
+    return "(random() / 18446744073709551616.0 + 0.5)"
+
+
 class SQLTableIdentifier(BaseModel):
     table_schema: str = Field(..., alias="schema")
     table_name: str = Field(..., alias="table")
@@ -189,8 +210,7 @@ class SQLWhereClauseRandom(BaseModel):
     model_config = ConfigDict(populate_by_name=True)
 
     def build(self, context: SQLBuildContext, table_obj: sa.Table):
-        # pylint: disable=not-callable
-        return sa.func.random() < self.threshold
+        return RandomFraction() < self.threshold
 
     def simplify(self) -> "SQLWhereClause":
         if self.threshold <= 0:
-- 
2.43.0


From 1920320becc36859eb93a094f64092014547db38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:53 +0000
Subject: [PATCH 22/35] fix: do not treat table names as patterns when sampling

A table name containing a wildcard matched other tables, which were then
truncated in the destination.
---
 subsetter/sampler.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 88bbe5b..cd84d59 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -1,6 +1,7 @@
 import abc
 import collections
 import functools
+import glob
 import json
 import logging
 import os
@@ -414,7 +415,7 @@ class DatabaseOutput(SamplerOutput):
 
         self.meta, self.additional_tables = DatabaseMetadata.from_engine(
             self.engine,
-            list(self.table_remap),
+            [glob.escape(table) for table in self.table_remap],
             close_backward=True,
         )
 
@@ -730,7 +731,9 @@ class Sampler:
         create: bool = False,
     ) -> None:
         self.passthrough_tables = set(plan.passthrough)
-        meta, _ = DatabaseMetadata.from_engine(self.source_engine, list(plan.queries))
+        meta, _ = DatabaseMetadata.from_engine(
+            self.source_engine, [glob.escape(table) for table in plan.queries]
+        )
         if self.config.infer_foreign_keys != "none":
             meta.infer_missing_foreign_keys(
                 infer_all=self.config.infer_foreign_keys == "all"
-- 
2.43.0


From ac9bba58bfd36b097f7e307e7639e372de954ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:53 +0000
Subject: [PATCH 23/35] fix: correct the filters in the example config

There is no random_uuid filter and random_string needs columns.
---
 subsetter.example.yaml | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/subsetter.example.yaml b/subsetter.example.yaml
index 76552ca..83fdb5d 100644
--- a/subsetter.example.yaml
+++ b/subsetter.example.yaml
@@ -35,7 +35,7 @@ source:
     # Optionally specify client certificate and key if needed
     client:
       cert: /path/to/client.crt # deafults to SUBSET_SOURCE_SSL_CLIENT_CERT
-      key: /path/to/client.key # deafults to SUBSET_SORUCE_SSL_CLIENT_KEY
+      key: /path/to/client.key # deafults to SUBSET_SOURCE_SSL_CLIENT_KEY
 
     server:
       rootcert: /path/to/rootcert.crt # deafults to SUBSET_SOURCE_SSL_SERVER_ROOTCERT
@@ -207,6 +207,7 @@ sampler:
     # The 'random_string' filter can replace column values with random textual
     # data in a variety of forms.
     - op: random_string
+      columns: [secret_token]
 
       # Here we generate a hex string of length 16. Other 'alphabets' include
       # "alnum", "hex_lower", "hex_upper", "digit", "alpha", "alpha_lower",
@@ -214,8 +215,8 @@ sampler:
       alphabet: hex
       length: 16
 
-    # The 'random_uuid' replaces the given column with a random uuid.
-    - op: random_uuid
+    # The 'uuid' filter replaces the given column with a random uuid.
+    - op: uuid
       columns: [gizmo_uuid]
 
     # The remaining filters are wrappers around the corresponding Faker generator
-- 
2.43.0


From 3f825c001dd2632d745b813be20bbc3bd05b5d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:49 +0000
Subject: [PATCH 24/35] fix: quote the alias of attached sqlite databases

---
 subsetter/common.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/subsetter/common.py b/subsetter/common.py
index 02f8c9a..cc22159 100644
--- a/subsetter/common.py
+++ b/subsetter/common.py
@@ -215,8 +215,9 @@ class DatabaseConfig(BaseModel):
                 if dialect == "sqlite":
                     for db_alias, db_file in self.sqlite_databases.items():
                         escaped_db_file = db_file.replace("'", "''")
+                        escaped_alias = db_alias.replace('"', '""')
                         cursor.execute(
-                            f"ATTACH DATABASE '{escaped_db_file}' as {db_alias}"
+                            f"ATTACH DATABASE '{escaped_db_file}' as \"{escaped_alias}\""
                         )
 
                 for session_sql in self.session_sqls:
-- 
2.43.0


From b1241050c3a2642e2f71017966e6ea7af2ad36c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:37 +0000
Subject: [PATCH 25/35] fix: never reuse an existing table as temporary table

---
 subsetter/sampler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index cd84d59..ddd4363 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -117,7 +117,8 @@ class TempTableCreator:
             ),
         )
         try:
-            metadata.create_all(conn)
+            # A permanent table of the same name must be shadowed and not be reused
+            metadata.create_all(conn, checkfirst=False)
         except Exception as exc:  # pylint: disable=broad-exception-caught
             # TODO: Is this still needed?
             #
-- 
2.43.0


From 12df76f32b223550b5208d147d1f4af225203746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:38 +0000
Subject: [PATCH 26/35] fix: tell temporary tables apart regardless of case

---
 subsetter/sampler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index ddd4363..095d2c7 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -58,8 +58,9 @@ class TempTableCreator:
         name = "".join(ch for ch in name if ch.isalnum())[:40]
         if not name:
             name = "anon"
-        cnt = self.name_counts.get(name, 0)
-        self.name_counts[name] = cnt + 1
+        # Table names are not case-sensitive in every dialect
+        cnt = self.name_counts.get(name.lower(), 0)
+        self.name_counts[name.lower()] = cnt + 1
         if cnt:
             return f"{self.NAME_PREFIX}{name}_{cnt}"
         return f"{self.NAME_PREFIX}{name}"
-- 
2.43.0


From daa7b121ec231168dc788f701cb5f6c267f369ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:04 +0000
Subject: [PATCH 27/35] fix: merge keys shared with a referenced table
 consistently

---
 subsetter/sampler.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 095d2c7..7fe348d 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -464,6 +464,28 @@ class DatabaseOutput(SamplerOutput):
             if max_pk_val is not None:
                 self.table_offsets[(schema, table_name)][pk_col.name] = max_pk_val + 1
 
+        # A primary key that is also a foreign key has to be shifted by the same
+        # amount as the primary key it references.
+        shared_keys: Dict[str, Set[str]] = {table: set() for table in pk_max_values}
+        for source_table in pk_max_values:
+            src_table = self.source_meta.tables[parse_table_name(source_table)]
+            for fk in src_table.foreign_keys:
+                dst_table = self.source_meta.tables.get((fk.dst_schema, fk.dst_table))
+                if (
+                    dst_table is not None
+                    and dst_table is not src_table
+                    and fk.columns == src_table.primary_key
+                    and fk.dst_columns == dst_table.primary_key
+                ):
+                    shared_keys[source_table] = {str(dst_table)}
+                    shared_keys.setdefault(str(dst_table), set())
+        for source_table in toposort(shared_keys):
+            for ref_table in shared_keys[source_table]:
+                pk_max_values[source_table] = pk_max_values.get(ref_table)
+                self.table_offsets[
+                    self._remap_table(*parse_table_name(source_table))
+                ].clear()
+
         for source_table in self.plan.queries:
             if source_table in self.passthrough_tables:
                 continue
-- 
2.43.0


From a679532286ca5acae033988a6627cdec483e1df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:07 +0000
Subject: [PATCH 28/35] fix: keep temporary table names within identifier
 limits

---
 subsetter/sampler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 7fe348d..00062d2 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -55,7 +55,8 @@ class TempTableCreator:
         self.name_counts: Dict[str, int] = {}
 
     def _generate_name(self, name: str) -> str:
-        name = "".join(ch for ch in name if ch.isalnum())[:40]
+        # Identifiers may be limited by their length in bytes
+        name = "".join(ch for ch in name if ch.isascii() and ch.isalnum())[:40]
         if not name:
             name = "anon"
         # Table names are not case-sensitive in every dialect
-- 
2.43.0


From f7b1f17674ab87005bf0400edf5856f5084b2682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:49 +0000
Subject: [PATCH 29/35] fix: leave sequences alone when all keys are below
 their range

---
 subsetter/sampler.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 00062d2..4c0a6b8 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -285,7 +285,12 @@ def _autoincrement_update(engine, table: sa.Table, value: Optional[int]) -> None
 
     with engine.connect() as conn:
         conn.execute(
-            sa.text("SELECT setval(pg_get_serial_sequence(:tab, :col), :val)"),
+            # Keys below the range of the sequence are never generated
+            sa.text(
+                "SELECT setval(CAST(seqrelid AS regclass), :val) FROM pg_sequence "
+                "WHERE seqrelid = CAST(pg_get_serial_sequence(:tab, :col) AS regclass) "
+                "AND seqmin <= :val"
+            ),
             {
                 "tab": engine.dialect.identifier_preparer.format_table(table),
                 "col": table.autoincrement_column.name,
-- 
2.43.0


From 50c4e609805a4fd4844d1b5f767b8ae9f60c735b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:58 +0000
Subject: [PATCH 30/35] fix: select all rows of a target with 'all' regardless
 of 'amount'

An amount next to 'all: true' still limited the target, and left out
rows that other sampled tables refer to.
---
 subsetter/planner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subsetter/planner.py b/subsetter/planner.py
index 162214d..ad5c2c7 100644
--- a/subsetter/planner.py
+++ b/subsetter/planner.py
@@ -436,7 +436,7 @@ class Planner:
                         table_name=table.name,
                     ),
                     where=SQLWhereClauseAnd(type_="and", conditions=target_constraints),
-                    limit=target.amount,
+                    limit=None if target.all_ else target.amount,
                 )
             )
 
-- 
2.43.0


From e73cb598745a2df6282d522baa0469996872dad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:42 +0000
Subject: [PATCH 31/35] fix: join compacted references on all columns of the
 foreign key

A reference to a compacted column of a composite key was joined on that one
column, which need not be unique on its own, so that rows were duplicated or
numbered after the wrong row.
---
 subsetter/sampler.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 4c0a6b8..36958f6 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -1004,11 +1004,7 @@ class Sampler:
                     if dst_col in self.compact_columns.get(
                         (fk.dst_schema, fk.dst_table), set()
                     ):
-                        remote_compact_cols[src_col] = (
-                            fk.dst_schema,
-                            fk.dst_table,
-                            dst_col,
-                        )
+                        remote_compact_cols[src_col] = fk
 
             # Update the query to reflect compaction if needed.
             compact_cols = self.compact_columns.get((schema, table_name), set())
@@ -1036,13 +1032,11 @@ class Sampler:
                     if col.name in compact_cols:
                         cols.append(id_col.label(col.name))
                     elif col.name in remote_compact_cols:
-                        dst_schema, dst_table_name, dst_col = remote_compact_cols[
-                            col.name
-                        ]
+                        fk = remote_compact_cols[col.name]
                         dst_table = build_ctx(
                             SQLTableIdentifier(
-                                table_schema=dst_schema,
-                                table_name=dst_table_name,
+                                table_schema=fk.dst_schema,
+                                table_name=fk.dst_table,
                                 sampled=True,
                             )
                         )
@@ -1056,7 +1050,14 @@ class Sampler:
                         select_from = sa.join(
                             select_from,
                             dst_table,
-                            subq.columns[col.name] == dst_table.columns[dst_col],
+                            sa.and_(
+                                *(
+                                    subq.columns[src_col] == dst_table.columns[dst_col]
+                                    for src_col, dst_col in zip(
+                                        fk.columns, fk.dst_columns
+                                    )
+                                )
+                            ),
                             isouter=True,
                         )
                     else:
-- 
2.43.0


From 4d89b0e48eae95a1138b276ca571f0365a5167b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:10 +0000
Subject: [PATCH 32/35] fix: do not narrow indexes over expressions to their
 columns

---
 subsetter/sampler.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 36958f6..9345b3b 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -580,6 +580,15 @@ class DatabaseOutput(SamplerOutput):
                     )
 
             for index_idx, index in enumerate(table_obj.indexes):
+                if any(isinstance(expr, sa.TextClause) for expr in index.expressions):
+                    # An index of the remaining columns alone would not be
+                    # equivalent and, if unique, could reject sampled rows
+                    LOGGER.warning(
+                        "Not creating index %s of %s, it indexes expressions",
+                        index.name,
+                        table,
+                    )
+                    continue
                 sa.Index(
                     f"idx_subsetter_{remapped_table_obj.name}_{index_idx}",
                     *(
-- 
2.43.0


From 4301f53d191d95139e2f06c04b1cd9e6433f0ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:31 +0000
Subject: [PATCH 33/35] fix: do not create partial indexes without their
 condition

---
 subsetter/sampler.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 9345b3b..3bb6d35 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -589,6 +589,19 @@ class DatabaseOutput(SamplerOutput):
                         table,
                     )
                     continue
+                conditions = {
+                    key
+                    for key, value in index.dialect_kwargs.items()
+                    if key.endswith("_where") and value is not None
+                }
+                if conditions - {f"{self.engine.dialect.name}_where"}:
+                    # Without its condition the index would cover all rows
+                    LOGGER.warning(
+                        "Not creating partial index %s of %s in another dialect",
+                        index.name,
+                        table,
+                    )
+                    continue
                 sa.Index(
                     f"idx_subsetter_{remapped_table_obj.name}_{index_idx}",
                     *(
-- 
2.43.0


From 60b46a56cc12fecd1ecb1a8db58671c64510c312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:36 +0000
Subject: [PATCH 34/35] fix: keep names of created indexes within the limits of
 databases

---
 subsetter/sampler.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 3bb6d35..0b74339 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -2,6 +2,7 @@ import abc
 import collections
 import functools
 import glob
+import hashlib
 import json
 import logging
 import os
@@ -38,6 +39,7 @@ except ImportError:
 LOGGER = logging.getLogger(__name__)
 SOURCE_BUFFER_SIZE = 1024
 DESTINATION_BUFFER_SIZE = 1024
+MAX_INDEX_NAME_BYTES = 63
 SUBSETTER_COMPACT_COLUMN = "_sbsttr_id"
 
 
@@ -602,8 +604,14 @@ class DatabaseOutput(SamplerOutput):
                         table,
                     )
                     continue
+                index_name = f"idx_subsetter_{remapped_table_obj.name}_{index_idx}"
+                if len(index_name.encode()) > MAX_INDEX_NAME_BYTES:
+                    name_hash = hashlib.sha256(remapped_table_obj.name.encode())
+                    index_name = (
+                        f"idx_subsetter_{name_hash.hexdigest()[:32]}_{index_idx}"
+                    )
                 sa.Index(
-                    f"idx_subsetter_{remapped_table_obj.name}_{index_idx}",
+                    index_name,
                     *(
                         (
                             remapped_table_obj.columns[col.name]
-- 
2.43.0


From dd5f314fa2c454f3b87ed6ffef32dd06c34fea48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:25 +0000
Subject: [PATCH 35/35] fix: do not print configured passwords in configuration
 errors

---
 subsetter/config_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/subsetter/config_model.py b/subsetter/config_model.py
index 90a79fa..09bf2b7 100644
--- a/subsetter/config_model.py
+++ b/subsetter/config_model.py
@@ -8,7 +8,8 @@ from subsetter.filters import FilterConfig
 
 
 class ForbidBaseModel(BaseModel):
-    model_config = ConfigDict(extra="forbid")
+    # Input values may contain passwords, they must not appear in error messages
+    model_config = ConfigDict(extra="forbid", hide_input_in_errors=True)
 
 
 class PlannerConfig(ForbidBaseModel):
-- 
2.43.0

