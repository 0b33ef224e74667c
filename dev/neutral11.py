"""Edits that keep the behaviour: an eleventh set, styles not used in the others."""

SO = "solver.py"

# --- database output: rows come from a generator, written in slices
N(S, '''        for row in result_set:
            for iteration in range(multiplier):
                out_row = filter_view.filter_view(row) if filter_view else row
                for index in multiplied_indexes:
                    out_row[index] = _multiply_column(
                        out_row[index], multiplier, iteration
                    )
                if offsets is not None:
                    for index, offset in offsets:
                        if out_row[index] is not None:
                            out_row[index] += offset
                if autoinc_index != -1:
                    if autoinc_max_written is None:
                        autoinc_max_written = out_row[autoinc_index]
                    else:
                        autoinc_max_written = max(
                            autoinc_max_written, out_row[autoinc_index]
                        )
                buffer.append(tuple(out_row))
                if len(buffer) > DESTINATION_BUFFER_SIZE:
                    _flush_buffer()
        if buffer:
            _flush_buffer()
''', '''        def _output_rows():
            for row in result_set:
                for iteration in range(multiplier):
                    out_row = filter_view.filter_view(row) if filter_view else row
                    for index in multiplied_indexes:
                        out_row[index] = _multiply_column(
                            out_row[index], multiplier, iteration
                        )
                    if offsets is not None:
                        for index, offset in offsets:
                            if out_row[index] is not None:
                                out_row[index] += offset
                    yield tuple(out_row)

        for out_row in _output_rows():
            if autoinc_index != -1:
                if autoinc_max_written is None:
                    autoinc_max_written = out_row[autoinc_index]
                else:
                    autoinc_max_written = max(
                        autoinc_max_written, out_row[autoinc_index]
                    )
            buffer.append(out_row)
            if len(buffer) > DESTINATION_BUFFER_SIZE:
                _flush_buffer()
        if buffer:
            _flush_buffer()
''')
# the same, in batches
N(S, '''import re
''', '''import itertools
import re
''', S, '''        buffer: List[tuple] = []

''', '', S, '''        def _flush_buffer():
            with self.engine.connect() as conn:
                conn.execute(
                    ConflictInsert(conflict_strategy, table.table_obj, columns_out),
                    [dict(zip(columns_out, row)) for row in buffer],
                )
                conn.commit()
            buffer.clear()

        for row in result_set:
            for iteration in range(multiplier):
                out_row = filter_view.filter_view(row) if filter_view else row
                for index in multiplied_indexes:
                    out_row[index] = _multiply_column(
                        out_row[index], multiplier, iteration
                    )
                if offsets is not None:
                    for index, offset in offsets:
                        if out_row[index] is not None:
                            out_row[index] += offset
                if autoinc_index != -1:
                    if autoinc_max_written is None:
                        autoinc_max_written = out_row[autoinc_index]
                    else:
                        autoinc_max_written = max(
                            autoinc_max_written, out_row[autoinc_index]
                        )
                buffer.append(tuple(out_row))
                if len(buffer) > DESTINATION_BUFFER_SIZE:
                    _flush_buffer()
        if buffer:
            _flush_buffer()
''', '''        def _output_rows():
            nonlocal autoinc_max_written
            for row in result_set:
                for iteration in range(multiplier):
                    out_row = filter_view.filter_view(row) if filter_view else row
                    for index in multiplied_indexes:
                        out_row[index] = _multiply_column(
                            out_row[index], multiplier, iteration
                        )
                    if offsets is not None:
                        for index, offset in offsets:
                            if out_row[index] is not None:
                                out_row[index] += offset
                    if autoinc_index != -1:
                        if autoinc_max_written is None:
                            autoinc_max_written = out_row[autoinc_index]
                        else:
                            autoinc_max_written = max(
                                autoinc_max_written, out_row[autoinc_index]
                            )
                    yield tuple(out_row)

        out_rows = _output_rows()
        while True:
            batch = list(itertools.islice(out_rows, DESTINATION_BUFFER_SIZE + 1))
            if not batch:
                break
            with self.engine.connect() as conn:
                conn.execute(
                    ConflictInsert(conflict_strategy, table.table_obj, columns_out),
                    [dict(zip(columns_out, row)) for row in batch],
                )
                conn.commit()
''')
# --- directory output
N(S, '''        with open(output_path, "w", encoding="utf-8") as fdump:
            for row in result_set:
                for iteration in range(multiplier):
                    out_row = filter_view.filter_view(row) if filter_view else list(row)
                    for index in multiplied_indexes:
                        out_row[index] = _multiply_column(
                            out_row[index], multiplier, iteration
                        )
                    json.dump(dict(zip(columns_out, out_row)), fdump, default=str)
                    fdump.write("\\n")
''', '''
        def _copies(row):
            for iteration in range(multiplier):
                out_row = filter_view.filter_view(row) if filter_view else list(row)
                for index in multiplied_indexes:
                    out_row[index] = _multiply_column(
                        out_row[index], multiplier, iteration
                    )
                yield dict(zip(columns_out, out_row))

        def _records():
            for row in result_set:
                yield from _copies(row)

        with open(output_path, "w", encoding="utf-8") as fdump:
            for record in _records():
                print(json.dumps(record, default=str), file=fdump)
''')
# --- one helper for the two outputs
N(S, '''        multiplied_indexes = [
            ind
            for ind, col_name in enumerate(columns_out)
            if col_name in (column_multipliers or set())
        ]
        with open''', '''        multiplied_indexes = self._indexes_of(columns_out, column_multipliers)
        with open''', S, '''        multiplied_indexes = [
            ind
            for ind, col_name in enumerate(columns_out)
            if col_name in (column_multipliers or set())
        ]
''', '''        multiplied_indexes = self._indexes_of(columns_out, column_multipliers)
''', S, '''    @staticmethod
    def from_config(
''', '''    @staticmethod
    def _indexes_of(
        columns: Iterable[str], wanted: Optional[Iterable[str]]
    ) -> List[int]:
        wanted_set = frozenset(wanted or ())
        return [index for index, name in enumerate(columns) if name in wanted_set]

    @staticmethod
    def from_config(
''')
# --- truncate, insert order
N(S, '''        with self.engine.connect() as conn:
            for table in reversed(self.meta.toposort()):
                LOGGER.info("Truncating table %s", table)
                conn.execute(sa.delete(table.table_obj))
                conn.commit()
''', '''        with self.engine.connect() as conn:
            pending = list(self.meta.toposort())
            while pending:
                table = pending.pop()
                LOGGER.info("Truncating table %s", table)
                conn.execute(sa.delete(table.table_obj))
                conn.commit()
''')
N(S, '''        result = []
        insert_order_mapped = [str(table) for table in self.meta.toposort()]
        missing_tables = sorted(set(self.table_remap) - set(insert_order_mapped))
        if missing_tables:
            raise ValueError(f"Destination is missing expected tables {missing_tables}")
        for table in insert_order_mapped:
            remapped_table = self.table_remap.get(table)
            if remapped_table:
                result.append(remapped_table)
        return result
''', '''        ordered = {str(table): None for table in self.meta.toposort()}
        missing_tables = sorted(self.table_remap.keys() - ordered.keys())
        if missing_tables:
            raise ValueError(f"Destination is missing expected tables {missing_tables}")
        return [self.table_remap[name] for name in ordered if name in self.table_remap]
''')
# --- merge offsets
N(S, '''            with self.engine.connect() as conn:
                max_pk_val = conn.scalar(sa.select(sa.func.max(pk_col)))

            pk_max_values[source_table] = max_pk_val
            if max_pk_val is not None:
                self.table_offsets[(schema, table_name)][pk_col.name] = max_pk_val + 1
''', '''            pk_max_values[source_table] = self._max_value(pk_col)
            if pk_max_values[source_table] is not None:
                self.table_offsets[(schema, table_name)][pk_col.name] = (
                    pk_max_values[source_table] + 1
                )
''', S, '''    def create(self) -> None:
        """Create any missing tables in destination from the source schema"""
        source_meta = self.source_meta
''', '''    def _max_value(self, column: sa.Column) -> Any:
        stmt = sa.select(sa.func.max(column))
        with self.engine.connect() as conn:
            return conn.execute(stmt).scalar()

    def create(self) -> None:
        """Create any missing tables in destination from the source schema"""
        source_meta = self.source_meta
''')
N(S, '''            for fk in src_table.foreign_keys:
                if len(fk.columns) != 1:
                    continue
                dst_table = self.source_meta.tables.get((fk.dst_schema, fk.dst_table))
                if dst_table is None or fk.dst_columns != dst_table.primary_key:
                    continue
                offset = pk_max_values.get(f"{fk.dst_schema}.{fk.dst_table}")
                if offset is not None:
                    self.table_offsets[self._remap_table(src_schema, src_table_name)][
                        fk.columns[0]
                    ] = (offset + 1)
''', '''            own_offsets = self.table_offsets[
                self._remap_table(src_schema, src_table_name)
            ]
            for fk in src_table.foreign_keys:
                if len(fk.columns) == 1:
                    (fk_col,) = fk.columns
                    dst_table = self.source_meta.tables.get(
                        (fk.dst_schema, fk.dst_table)
                    )
                    if dst_table is not None and fk.dst_columns == dst_table.primary_key:
                        max_value = pk_max_values.get(f"{fk.dst_schema}.{fk.dst_table}")
                        if max_value is not None:
                            own_offsets[fk_col] = 1 + max_value
''')
# --- create: names of indexes, columns
N(S, '''                index_name = f"idx_subsetter_{remapped_table_obj.name}_{index_idx}"
                if len(index_name.encode()) > MAX_INDEX_NAME_BYTES:
                    name_hash = hashlib.sha256(remapped_table_obj.name.encode())
                    index_name = (
                        f"idx_subsetter_{name_hash.hexdigest()[:32]}_{index_idx}"
                    )
                sa.Index(
                    index_name,
''', '''                sa.Index(
                    self._index_name(remapped_table_obj.name, index_idx),
''', S, '''    def truncate(self) -> None:
        for schema''', '''    @staticmethod
    def _index_name(table_name: str, number: int) -> str:
        name = f"idx_subsetter_{table_name}_{number}"
        if len(name.encode()) <= MAX_INDEX_NAME_BYTES:
            return name
        digest = hashlib.sha256(table_name.encode()).hexdigest()
        return f"idx_subsetter_{digest[:32]}_{number}"

    def truncate(self) -> None:
        for schema''')
# --- sampler
N(S, '''            remote_compact_cols = {}
            for fk in src_table.foreign_keys:
                for src_col, dst_col in zip(fk.columns, fk.dst_columns):
                    if dst_col in self.compact_columns.get(
                        (fk.dst_schema, fk.dst_table), set()
                    ):
                        remote_compact_cols[src_col] = fk
''', '''            remote_compact_cols = {
                src_col: fk
                for fk in src_table.foreign_keys
                for src_col, dst_col in zip(fk.columns, fk.dst_columns)
                if dst_col
                in self.compact_columns.get((fk.dst_schema, fk.dst_table), ())
            }
''')
N(S, '''            remote_compact_cols = {}
            for fk in src_table.foreign_keys:
                for src_col, dst_col in zip(fk.columns, fk.dst_columns):
                    if dst_col in self.compact_columns.get(
                        (fk.dst_schema, fk.dst_table), set()
                    ):
                        remote_compact_cols[src_col] = fk
''', '''            remote_compact_cols = {}
            for fk in src_table.foreign_keys:
                dst_key = (fk.dst_schema, fk.dst_table)
                if dst_key not in self.compact_columns:
                    continue
                dst_compact_cols = self.compact_columns[dst_key]
                for position, dst_col in enumerate(fk.dst_columns):
                    if dst_col not in dst_compact_cols:
                        continue
                    remote_compact_cols[fk.columns[position]] = fk
''')
N(S, '''        while True:
            changes = False

            for table_name in plan.queries:
                table = meta.tables[parse_table_name(table_name)]

                cols = result.get(table_name, set())
                start_len = len(cols)
                for fk in table.foreign_keys:
                    dst_mapped = result.get(f"{fk.dst_schema}.{fk.dst_table}", set())
                    cols.update(
                        src_col
                        for src_col, dst_col in zip(fk.columns, fk.dst_columns)
                        if dst_col in dst_mapped
                    )

                if cols and table_name in ignore_tables:
                    raise ValueError(
                        "Passthrough foreign key points to multiplied column"
                    )

                changes = changes or len(cols) > start_len

            if not changes:
                break
''', '''        changed = True
        while changed:
            changed = False
            for table_name in plan.queries:
                cols = result.get(table_name, set())
                added = set()
                for fk in meta.tables[parse_table_name(table_name)].foreign_keys:
                    dst_mapped = result.get(f"{fk.dst_schema}.{fk.dst_table}", set())
                    for src_col, dst_col in zip(fk.columns, fk.dst_columns):
                        if dst_col in dst_mapped and src_col not in cols:
                            added.add(src_col)
                            cols.add(src_col)
                if cols and table_name in ignore_tables:
                    raise ValueError(
                        "Passthrough foreign key points to multiplied column"
                    )
                if added:
                    changed = True
''')
N(S, '''        dep_graph: Dict[Tuple[str, str], Set[Tuple[str, str]]] = {}
        max_ref_counts: Dict[Tuple[str, str], int] = {}
        for table, query in plan.queries.items():
            counter: Dict[Tuple[str, str], int] = {}
            query.build(functools.partial(_record_sampled_tables, counter))
''', '''        dep_graph: Dict[Tuple[str, str], Set[Tuple[str, str]]] = {}
        max_ref_counts: Dict[Tuple[str, str], int] = {}
        for table, query in plan.queries.items():
            counter: Dict[Tuple[str, str], int] = {}
            query.build(lambda ident, seen=counter: _record_sampled_tables(seen, ident))
''')
N(S, '''            if meta.supports_temp_reopen:
                continue

            # Create additional copies of the temporary table if needed. This is
            # to work around an issue on mysql with reopening temporary tables.
            for index in range(1, ref_count):
''', '''            # Create additional copies of the temporary table if needed. This is
            # to work around an issue on mysql with reopening temporary tables.
            copies = 1 if meta.supports_temp_reopen else ref_count
            for index in range(1, copies):
''')
N(S, '''            rows = 0

            def _count_rows(result, total: Optional[int]):
                nonlocal rows
                for row in tqdm(result, total=total, desc="row progress", unit="rows"):
                    # result_processor
                    rows += 1
                    yield row
''', '''            counts = {"rows": 0}

            def _count_rows(result, total: Optional[int]):
                progress = tqdm(result, total=total, desc="row progress", unit="rows")
                for number, row in enumerate(progress, start=1):
                    counts["rows"] = number
                    yield row
''', S, '''            LOGGER.info("Sampled %d rows for %s.%s", rows, schema, table_name)
''', '''            LOGGER.info(
                "Sampled %d rows for %s.%s", counts["rows"], schema, table_name
            )
''')
# --- conflicts
N(S, '''    def _insert_mysql(self, compiler: SQLCompiler, **kwargs) -> str:
        stmt = mysql.insert(self.table)
        if self.conflict_strategy == "replace":
            stmt = stmt.on_duplicate_key_update(
                {col: stmt.inserted[col] for col in self.non_pk_columns}
            )
        if self.conflict_strategy == "skip":
            stmt = stmt.prefix_with("IGNORE")
        return compiler.process(stmt, **kwargs)

    def _insert_postgresql(self, compiler: SQLCompiler, **kwargs) -> str:
        stmt = postgresql.insert(self.table)
        if self.conflict_strategy == "replace":
            stmt = stmt.on_conflict_do_update(
                index_elements=self.table.primary_key,
                set_={col: stmt.excluded[col] for col in self.non_pk_columns},
            )
        if self.conflict_strategy == "skip":
            stmt = stmt.on_conflict_do_nothing()
        return compiler.process(stmt, **kwargs)

    def _insert_sqlite(self, compiler: SQLCompiler, **kwargs) -> str:
        stmt = sqlite.insert(self.table)
        if self.conflict_strategy == "replace":
            stmt = stmt.on_conflict_do_update(
                index_elements=self.table.primary_key,
                set_={col: stmt.excluded[col] for col in self.non_pk_columns},
            )
        if self.conflict_strategy == "skip":
            stmt = stmt.on_conflict_do_nothing()
        return compiler.process(stmt, **kwargs)
''', '''    def _assignments(self, new_values) -> Dict[str, Any]:
        return {col: new_values[col] for col in self.non_pk_columns}

    def _insert_mysql(self, compiler: SQLCompiler, **kwargs) -> str:
        stmt = mysql.insert(self.table)
        if self.conflict_strategy == "replace":
            stmt = stmt.on_duplicate_key_update(self._assignments(stmt.inserted))
        elif self.conflict_strategy == "skip":
            stmt = stmt.prefix_with("IGNORE")
        return compiler.process(stmt, **kwargs)

    def _on_conflict(self, stmt):
        if self.conflict_strategy == "replace":
            return stmt.on_conflict_do_update(
                index_elements=self.table.primary_key,
                set_=self._assignments(stmt.excluded),
            )
        if self.conflict_strategy == "skip":
            return stmt.on_conflict_do_nothing()
        return stmt

    def _insert_postgresql(self, compiler: SQLCompiler, **kwargs) -> str:
        stmt = self._on_conflict(postgresql.insert(self.table))
        return compiler.process(stmt, **kwargs)

    def _insert_sqlite(self, compiler: SQLCompiler, **kwargs) -> str:
        stmt = self._on_conflict(sqlite.insert(self.table))
        return compiler.process(stmt, **kwargs)
''')
N(S, '''        name = "".join(ch for ch in name if ch.isascii() and ch.isalnum())[:40]
        if not name:
            name = "anon"
        # Table names are not case-sensitive in every dialect
        cnt = self.name_counts.get(name.lower(), 0)
        self.name_counts[name.lower()] = cnt + 1
        if cnt:
            return f"{self.NAME_PREFIX}{name}_{cnt}"
        return f"{self.NAME_PREFIX}{name}"
''', '''        letters = [ch for ch in name if ch.isascii() and ch.isalnum()]
        base = "".join(letters[:40]) or "anon"
        # Table names are not case-sensitive in every dialect
        key = base.lower()
        cnt = self.name_counts.setdefault(key, 0)
        self.name_counts[key] += 1
        suffix = f"_{cnt}" if cnt else ""
        return f"{self.NAME_PREFIX}{base}{suffix}"
''')
# --- metadata
N(MD, '''        pk_map: Dict[Tuple[str, Tuple[str, ...]], Optional[TableMetadata]] = {}
        for table in self.tables.values():
            if not table.primary_key:
                continue

            map_key = _key_pk(table.schema, table.primary_key)
            if map_key in pk_map:
                LOGGER.info("Duplicate primary key columns found %r", table.primary_key)
                pk_map[map_key] = None
            else:
                pk_map[map_key] = table
''', '''        pk_owners: Dict[Any, List[TableMetadata]] = {}
        for table in self.tables.values():
            if table.primary_key:
                owners = pk_owners.setdefault(
                    _key_pk(table.schema, table.primary_key), []
                )
                if owners:
                    LOGGER.info(
                        "Duplicate primary key columns found %r", table.primary_key
                    )
                owners.append(table)
        pk_map = {
            pk_key: owners[0] for pk_key, owners in pk_owners.items() if len(owners) == 1
        }
''', MD, '''from typing import Dict,''', '''from typing import Any, Dict,''')
N(MD, '''        num_selected_tables = len(table_queue)
        for schema, table in table_queue:
            table_obj = metadata_obj.tables[f"{schema}.{table}"]
            for ref_schema, ref_table in table_deps[(schema, table)]:
                if (ref_schema, ref_table) not in table_set:
                    table_set.add((ref_schema, ref_table))
                    table_queue.append((ref_schema, ref_table))

        return (
            cls(
                metadata_obj,
                {
                    (schema, table): TableMetadata(
                        metadata_obj.tables[f"{schema}.{table}"]
                    )
                    for schema, table in table_queue
                },
                supports_temp_reopen=engine.dialect.name != "mysql",
            ),
            table_queue[num_selected_tables:],
        )
''', '''        extra_tables: List[Tuple[str, str]] = []
        pending = list(table_queue)
        while pending:
            for dep in table_deps[pending.pop(0)]:
                if dep in table_set:
                    continue
                table_set.add(dep)
                pending.append(dep)
                extra_tables.append(dep)

        tables = {}
        for schema, table in table_queue + extra_tables:
            tables[(schema, table)] = TableMetadata(
                metadata_obj.tables[f"{schema}.{table}"]
            )
        supports_temp_reopen = engine.dialect.name != "mysql"
        meta = cls(metadata_obj, tables, supports_temp_reopen=supports_temp_reopen)
        return meta, extra_tables
''')
N(MD, '''        if ignore_tables is None:
            ignore_tables = set()
        return {
            f"{table.schema}.{table.name}": {
                f"{fk.dst_schema}.{fk.dst_table}"
                for fk in table.foreign_keys
                if (fk.dst_schema, fk.dst_table) not in ignore_tables
                and (fk.dst_schema, fk.dst_table) in self.tables
            }
            for table in self.tables.values()
            if (table.schema, table.name) not in ignore_tables
        }
''', '''        nodes = [
            table
            for table in self.tables.values()
            if (table.schema, table.name) not in (ignore_tables or ())
        ]
        known = self.tables.keys() - (ignore_tables or set())
        graph: Dict[str, Set[str]] = {}
        for table in nodes:
            targets = {(fk.dst_schema, fk.dst_table) for fk in table.foreign_keys}
            graph[f"{table.schema}.{table.name}"] = {
                f"{schema}.{name}" for schema, name in targets & known
            }
        return graph
''')
# --- solver
N(SO, '''    q = []
    for u, edges in G.items():
        if not edges:
            q.append(u)

    RG = reverse_graph(G)
    deg = {u: len(edges) for u, edges in G.items()}
    for u in q:
        for v in RG[u]:
            deg[v] -= 1
            if not deg[v]:
                # This is intended and well-defined behavior
                # pylint: disable=modified-iterating-list
                q.append(v)

    if len(q) < len(G):
        raise ValueError("Cycle detected in graph")

    return q
''', '''    RG = reverse_graph(G)
    waiting = {u: set(edges) for u, edges in G.items()}
    ready = [u for u, edges in waiting.items() if not edges]
    result = []
    while ready:
        u = ready.pop(0)
        result.append(u)
        for v in RG[u]:
            waiting[v].remove(u)
            if not waiting[v]:
                ready.append(v)

    if len(result) != len(G):
        raise ValueError("Cycle detected in graph")

    return result
''')
# --- planner
N(P, '''        queries: Dict[str, SQLTableQuery] = {}
        for schema, table_name in sorted(self.passthrough_tables):
            queries[f"{schema}.{table_name}"] = SQLTableQuery(
                statement=SQLStatementSelect(
                    type_="select",
                    from_=SQLTableIdentifier(
                        table_schema=schema,
                        table_name=table_name,
                    ),
                )
            )
''', '''        def _whole_table(schema: str, table_name: str) -> SQLTableQuery:
            return SQLTableQuery(
                statement=SQLStatementSelect(
                    type_="select",
                    from_=SQLTableIdentifier(
                        table_schema=schema, table_name=table_name
                    ),
                )
            )

        passthrough = sorted(self.passthrough_tables)
        queries: Dict[str, SQLTableQuery] = {
            ".".join(table_key): _whole_table(*table_key) for table_key in passthrough
        }
''')
N(P, '''            src_missing_cols = {
                col
                for col in extra_fk.src_columns
                if col not in table.table_obj.columns
            }
            if src_missing_cols:
''', '''            src_missing_cols = set(extra_fk.src_columns) - {
                column.name for column in table.table_obj.columns
            }
            if src_missing_cols:
''', P, '''            dst_missing_cols = {
                col
                for col in extra_fk.dst_columns
                if col not in dst_table.table_obj.columns
            }
            if dst_missing_cols:
''', '''            dst_missing_cols = set(extra_fk.dst_columns) - {
                column.name for column in dst_table.table_obj.columns
            }
            if dst_missing_cols:
''')
N(P, '''        def _is_distinct(table_obj: sa.Table, cols: Iterable[str]) -> bool:
            cols_st = set(cols)
            for constraint in table_obj.constraints:
                if isinstance(
                    constraint, (sa.PrimaryKeyConstraint, sa.UniqueConstraint)
                ):
                    constraint_cols = set(col.name for col in constraint.columns)
                    if constraint_cols <= cols_st:
                        return True
            return False
''', '''        def _is_distinct(table_obj: sa.Table, cols: Iterable[str]) -> bool:
            unique_kinds = (sa.PrimaryKeyConstraint, sa.UniqueConstraint)
            keys = (
                {col.name for col in constraint.columns}
                for constraint in table_obj.constraints
                if isinstance(constraint, unique_kinds)
            )
            cols_st = frozenset(cols)
            return any(cols_st.issuperset(key) for key in keys)
''')
N(P, '''        order_st = set(order)
        for table in graph:
            if table and table not in order_st:
                LOGGER.warning(
                    "warning: no relationship found to %s, ignoring table", table
                )
''', '''        for table in itertools.filterfalse(set([source, *order]).__contains__, graph):
            LOGGER.warning(
                "warning: no relationship found to %s, ignoring table", table
            )
''', P, '''import logging
''', '''import itertools
import logging
''')
N(P, '''        for table in self.meta.tables.values():
            if (table.schema, table.name) in self.ignore_tables:
                continue
            for fk in table.foreign_keys:
                if (fk.dst_schema, fk.dst_table) in self.ignore_tables:
                    raise ValueError(
                        f"Foreign key from {table.schema!r}.{table.name!r} into"
                        f" ignored table {fk.dst_schema!r}.{fk.dst_table!r}"
                    )
''', '''        for (schema, table_name), table in self.meta.tables.items():
            if (schema, table_name) not in self.ignore_tables:
                bad_fk = next(
                    (
                        fk
                        for fk in table.foreign_keys
                        if (fk.dst_schema, fk.dst_table) in self.ignore_tables
                    ),
                    None,
                )
                if bad_fk is not None:
                    raise ValueError(
                        f"Foreign key from {schema!r}.{table_name!r} into"
                        f" ignored table {bad_fk.dst_schema!r}.{bad_fk.dst_table!r}"
                    )
''')
# --- filters
N(F, '''        values_out = list(values)
        filtered_values = self.filter_values(
            [values_out[index] for index in self.column_act_indices]
        )
        for index, filtered_value in zip(self.column_act_indices, filtered_values):
            values_out[index] = filtered_value
        return values_out
''', '''        values_out = [*values]
        filtered = iter(
            self.filter_values([values_out[i] for i in self.column_act_indices])
        )
        values_out_by_index = dict(zip(self.column_act_indices, filtered))
        return [
            values_out_by_index[i] if i in values_out_by_index else value
            for i, value in enumerate(values_out)
        ]
''')
N(F, '''        for value in values:
            if value is None:
                yield None
            elif isinstance(value, str):
                yield ""
            elif isinstance(value, int):
                yield 0
            elif isinstance(value, float):
                yield 0.0
            elif isinstance(value, datetime):
                yield EPOCH.replace(tzinfo=value.tzinfo)
            else:
                raise ValueError(f"Cannot zero unknown type {str(type(value))}")
''', '''        def _zero(value: Any) -> Any:
            if value is None:
                return None
            for kind, zero in ((str, ""), (int, 0), (float, 0.0)):
                if isinstance(value, kind):
                    return zero
            if isinstance(value, datetime):
                return EPOCH.replace(tzinfo=value.tzinfo)
            raise ValueError(f"Cannot zero unknown type {str(type(value))}")

        yield from map(_zero, values)
''')
# --- main
N(MA, '''    def _dict_merge(lhs, rhs):
        if isinstance(lhs, dict) and isinstance(rhs, dict):
            result = dict(lhs)
            for key, val in rhs.items():
                if key in result:
                    result[key] = _dict_merge(result[key], val)
                else:
                    result[key] = val
            return result
        return rhs
''', '''    def _dict_merge(lhs, rhs):
        if not (isinstance(lhs, dict) and isinstance(rhs, dict)):
            return rhs
        return {
            **lhs,
            **{
                key: _dict_merge(lhs[key], val) if key in lhs else val
                for key, val in rhs.items()
            },
        }
''')
N(MA, '''        config_files = ["subsetter.yaml"]
''', '''        config_files = [DEFAULT_CONFIG]
''', MA, '''def _get_config(args)''', '''DEFAULT_CONFIG = "subsetter.yaml"


def _get_config(args)''')
