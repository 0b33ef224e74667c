"""Edits that break a property: a ninth set, restructurings that go wrong."""
P, MD, PM, C, SO = "planner.py", "metadata.py", "plan_model.py", "common.py", "solver.py"
S, F, MA, CM = "sampler.py", "filters.py", "__main__.py", "config_model.py"
ROWS = '''        for row in result_set:
            for iteration in range(multiplier):
                out_row = filter_view.filter_view(row) if filter_view else row
                for index in multiplied_indexes:
                    out_row[index] = _multiply_column(
                        out_row[index], multiplier, iteration
                    )
                if offsets is not None:
                    for index, offset in offsets:
                        if out_row[index] is not None:
                            out_row[index] += offset
                if autoinc_index != -1:
                    if autoinc_max_written is None:
                        autoinc_max_written = out_row[autoinc_index]
                    else:
                        autoinc_max_written = max(
                            autoinc_max_written, out_row[autoinc_index]
                        )
                buffer.append(tuple(out_row))
                if len(buffer) > DESTINATION_BUFFER_SIZE:
                    _flush_buffer()
        if buffer:
            _flush_buffer()
'''


def gen(track, shift, mult="multiplier", copies="range(multiplier)"):
    return f'''        def _output_rows():
            nonlocal autoinc_max_written
            for row in result_set:
                for iteration in {copies}:
                    out_row = filter_view.filter_view(row) if filter_view else row
                    for index in multiplied_indexes:
                        out_row[index] = _multiply_column(
                            out_row[index], {mult}, iteration
                        )
{shift}{track}                    yield tuple(out_row)

'''


SHIFT = '''                    if offsets is not None:
                        for index, offset in offsets:
                            if out_row[index] is not None:
                                out_row[index] += offset
'''
TRACK = '''                    if autoinc_index != -1:
                        if autoinc_max_written is None:
                            autoinc_max_written = out_row[autoinc_index]
                        else:
                            autoinc_max_written = max(
                                autoinc_max_written, out_row[autoinc_index]
                            )
'''
BATCH = '''        out_rows = _output_rows()
        while True:
            batch = list(itertools.islice(out_rows, DESTINATION_BUFFER_SIZE))
            if not batch:
                break
            buffer.extend(batch)
            _flush_buffer()
'''
I = ('''import re
''', '''import itertools
import re
''')
# the last, short batch is never written
# slices that start anew each time
B("C12", S, *I, S, ROWS, gen(TRACK, SHIFT) + BATCH.replace("if not batch", "if len(batch) < DESTINATION_BUFFER_SIZE"))
B("C12", S, *I, S, ROWS, gen(TRACK, SHIFT) + '''        out_rows = list(_output_rows())
        for start in range(0, len(out_rows), DESTINATION_BUFFER_SIZE):
            buffer.extend(out_rows[start : start + DESTINATION_BUFFER_SIZE - 1])
            _flush_buffer()
''')
B("C13", S, ROWS, gen(TRACK, SHIFT, copies="range(1, multiplier)") + '''        for out_row in _output_rows():
            buffer.append(out_row)
            if len(buffer) > DESTINATION_BUFFER_SIZE:
                _flush_buffer()
        if buffer:
            _flush_buffer()
''')
B("C11", S, ROWS, gen(TRACK.replace("max(", "min("), SHIFT) + '''        for out_row in _output_rows():
            buffer.append(out_row)
            if len(buffer) > DESTINATION_BUFFER_SIZE:
                _flush_buffer()
        if buffer:
            _flush_buffer()
''')
B("C11", S, ROWS, gen("", TRACK + SHIFT) + '''        for out_row in _output_rows():
            buffer.append(out_row)
            if len(buffer) > DESTINATION_BUFFER_SIZE:
                _flush_buffer()
        if buffer:
            _flush_buffer()
''')
B("C14", S, ROWS, gen(TRACK, SHIFT.replace("if out_row[index] is not None", "if out_row[index]")) + '''        for out_row in _output_rows():
            buffer.append(out_row)
            if len(buffer) > DESTINATION_BUFFER_SIZE:
                _flush_buffer()
        if buffer:
            _flush_buffer()
''')
# C07
B("C07", S, '''            for table in reversed(self.meta.toposort()):
                LOGGER.info("Truncating table %s", table)
                conn.execute(sa.delete(table.table_obj))
                conn.commit()
''', '''            pending = list(self.meta.toposort())
            while len(pending) > 1:
                table = pending.pop()
                LOGGER.info("Truncating table %s", table)
                conn.execute(sa.delete(table.table_obj))
                conn.commit()
''')
B("C09", S, '''            for table in reversed(self.meta.toposort()):
                LOGGER.info("Truncating table %s", table)
                conn.execute(sa.delete(table.table_obj))
                conn.commit()
''', '''            pending = list(self.meta.toposort())
            while pending:
                table = pending.pop(0)
                LOGGER.info("Truncating table %s", table)
                conn.execute(sa.delete(table.table_obj))
                conn.commit()
''')
# C10
B("C10", S, '''    def _insert_postgresql(self, compiler: SQLCompiler, **kwargs) -> str:
        stmt = postgresql.insert(self.table)
        if self.conflict_strategy == "replace":
            stmt = stmt.on_conflict_do_update(
                index_elements=self.table.primary_key,
                set_={col: stmt.excluded[col] for col in self.non_pk_columns},
            )
        if self.conflict_strategy == "skip":
            stmt = stmt.on_conflict_do_nothing()
        return compiler.process(stmt, **kwargs)
''', '''    def _on_conflict(self, stmt):
        if self.conflict_strategy == "skip" or not self.non_pk_columns:
            return stmt.on_conflict_do_nothing()
        if self.conflict_strategy == "replace":
            return stmt.on_conflict_do_update(
                index_elements=self.table.primary_key,
                set_={col: stmt.excluded[col] for col in self.non_pk_columns},
            )
        return stmt

    def _insert_postgresql(self, compiler: SQLCompiler, **kwargs) -> str:
        stmt = self._on_conflict(postgresql.insert(self.table))
        return compiler.process(stmt, **kwargs)
''')
B("C10", S, '''                {col: stmt.inserted[col] for col in self.non_pk_columns}
''', '''                {
                    col: stmt.inserted[col]
                    for col in self.non_pk_columns
                    if not self.table.columns[col].unique
                }
''')
# C34
B("C34", S, '''        cnt = self.name_counts.get(name.lower(), 0)
        self.name_counts[name.lower()] = cnt + 1
        if cnt:
            return f"{self.NAME_PREFIX}{name}_{cnt}"
        return f"{self.NAME_PREFIX}{name}"
''', '''        cnt = self.name_counts.setdefault(name.lower(), 0)
        self.name_counts[name] = cnt + 1
        suffix = f"_{cnt}" if cnt else ""
        return f"{self.NAME_PREFIX}{name}{suffix}"
''')
B("C34", S, '''        if cnt:
            return f"{self.NAME_PREFIX}{name}_{cnt}"
        return f"{self.NAME_PREFIX}{name}"
''', '''        suffix = str(cnt) if cnt else ""
        return f"{self.NAME_PREFIX}{name}{suffix}"
''')
# C29
B("C29", MD, '''        pk_map: Dict[Tuple[str, Tuple[str, ...]], Optional[TableMetadata]] = {}
        for table in self.tables.values():
            if not table.primary_key:
                continue

            map_key = _key_pk(table.schema, table.primary_key)
            if map_key in pk_map:
                LOGGER.info("Duplicate primary key columns found %r", table.primary_key)
                pk_map[map_key] = None
            else:
                pk_map[map_key] = table
''', '''        pk_owners: dict = {}
        for table in self.tables.values():
            if table.primary_key:
                pk_owners.setdefault(
                    _key_pk(table.schema, table.primary_key), []
                ).append(table)
        pk_map = {pk_key: owners[0] for pk_key, owners in pk_owners.items()}
''')
# C35
B("C35", MD, '''        for schema, table in table_queue:
            table_obj = metadata_obj.tables[f"{schema}.{table}"]
            for ref_schema, ref_table in table_deps[(schema, table)]:
                if (ref_schema, ref_table) not in table_set:
                    table_set.add((ref_schema, ref_table))
                    table_queue.append((ref_schema, ref_table))
''', '''        for schema, table in list(table_queue):
            for dep in table_deps[(schema, table)]:
                if dep not in table_set:
                    table_set.add(dep)
                    table_queue.append(dep)
''')
B("C35", MD, '''        for schema, table in table_queue:
            table_obj = metadata_obj.tables[f"{schema}.{table}"]
            for ref_schema, ref_table in table_deps[(schema, table)]:
                if (ref_schema, ref_table) not in table_set:
                    table_set.add((ref_schema, ref_table))
                    table_queue.append((ref_schema, ref_table))
''', '''        pending = list(table_queue)
        while pending:
            for dep in table_deps[pending.pop()]:
                if dep not in table_set:
                    table_set.add(dep)
                    table_queue.append(dep)
''')
# C09
B("C09", SO, '''    RG = reverse_graph(G)
    deg = {u: len(edges) for u, edges in G.items()}
    for u in q:
        for v in RG[u]:
            deg[v] -= 1
            if not deg[v]:
''', '''    RG = reverse_graph(G)
    waiting = {u: set(edges) for u, edges in G.items()}
    for u in q:
        for v in RG[u]:
            waiting[v].discard(u)
            if len(waiting[v]) <= 1:
''')
# C15
B("C15", S, '''            remote_compact_cols = {}
            for fk in src_table.foreign_keys:
                for src_col, dst_col in zip(fk.columns, fk.dst_columns):
                    if dst_col in self.compact_columns.get(
                        (fk.dst_schema, fk.dst_table), set()
                    ):
                        remote_compact_cols[src_col] = fk
''', '''            remote_compact_cols = {
                src_col: fk
                for fk in src_table.foreign_keys
                for src_col, dst_col in zip(fk.columns, fk.dst_columns)
                if dst_col in self.compact_columns.get((schema, fk.dst_table), ())
            }
''')
# C16
B("C16", S, '''            if meta.supports_temp_reopen:
                continue

            # Create additional copies of the temporary table if needed. This is
            # to work around an issue on mysql with reopening temporary tables.
            for index in range(1, ref_count):
''', '''            copies = 1 if meta.supports_temp_reopen else ref_count - 1
            for index in range(1, copies):
''')
# C30
B("C30", P, '''        for table in self.meta.tables.values():
            if (table.schema, table.name) in self.ignore_tables:
                continue
            for fk in table.foreign_keys:
                if (fk.dst_schema, fk.dst_table) in self.ignore_tables:
                    raise ValueError(
                        f"Foreign key from {table.schema!r}.{table.name!r} into"
                        f" ignored table {fk.dst_schema!r}.{fk.dst_table!r}"
                    )
''', '''        for (schema, table_name), table in self.meta.tables.items():
            if (schema, table_name) not in self.ignore_tables:
                bad_fk = next(iter(table.foreign_keys), None)
                if (
                    bad_fk is not None
                    and (bad_fk.dst_schema, bad_fk.dst_table) in self.ignore_tables
                ):
                    raise ValueError(
                        f"Foreign key from {schema!r}.{table_name!r} into"
                        f" ignored table {bad_fk.dst_schema!r}.{bad_fk.dst_table!r}"
                    )
''')
# C31, create
B("C31", S, '''                if len(index_name.encode()) > MAX_INDEX_NAME_BYTES:
                    name_hash = hashlib.sha256(remapped_table_obj.name.encode())
                    index_name = (
                        f"idx_subsetter_{name_hash.hexdigest()[:32]}_{index_idx}"
                    )
''', '''                if len(index_name.encode()) > MAX_INDEX_NAME_BYTES:
                    index_name = index_name[:MAX_INDEX_NAME_BYTES]
''')
# C32
B("C32", MA, '''    def _dict_merge(lhs, rhs):
        if isinstance(lhs, dict) and isinstance(rhs, dict):
            result = dict(lhs)
            for key, val in rhs.items():
                if key in result:
                    result[key] = _dict_merge(result[key], val)
                else:
                    result[key] = val
            return result
        return rhs
''', '''    def _dict_merge(lhs, rhs):
        if not (isinstance(lhs, dict) and isinstance(rhs, dict)):
            return rhs
        return {
            **lhs,
            **{
                key: _dict_merge(lhs[key], val) if lhs.get(key) else val
                for key, val in rhs.items()
                if val is not None
            },
        }
''')
# filters
B("C36", F, '''            elif isinstance(value, str):
                yield ""
            elif isinstance(value, int):
                yield 0
            elif isinstance(value, float):
                yield 0.0
''', '''            elif isinstance(value, (str, int, float)):
                yield type(value)() if not isinstance(value, float) else value
''')
B("C21", P, '''        def _is_distinct(table_obj: sa.Table, cols: Iterable[str]) -> bool:
            cols_st = set(cols)
            for constraint in table_obj.constraints:
                if isinstance(
                    constraint, (sa.PrimaryKeyConstraint, sa.UniqueConstraint)
                ):
                    constraint_cols = set(col.name for col in constraint.columns)
                    if constraint_cols <= cols_st:
                        return True
            return False
''', '''        def _is_distinct(table_obj: sa.Table, cols: Iterable[str]) -> bool:
            keys = (
                {col.name for col in constraint.columns}
                for constraint in table_obj.constraints
                if isinstance(
                    constraint, (sa.PrimaryKeyConstraint, sa.UniqueConstraint)
                )
            )
            cols_st = frozenset(cols)
            return any(cols_st.issubset(key) for key in keys)
''') if False else None
B("C16", S, '''            for index in range(1, ref_count):
''', '''            for index in range(2, ref_count):
''')
B("C16", S, '''            for index in range(1, ref_count):
''', '''            for index in range(1, ref_count - 1):
''')
