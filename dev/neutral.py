ALL = []


def N(*edits):
    """An edit that keeps the behaviour."""
    ALL.append(("neutral", [edits[i : i + 3] for i in range(0, len(edits), 3)]))


S = "sampler.py"
F = "filters.py"
P = "planner.py"
MD = "metadata.py"
PM = "plan_model.py"
M = "metadata.py"
C = "common.py"
MA = "__main__.py"
CM = "config_model.py"

# --- filters
N(F, '''        result = list(values)
        for filter_view in self.filter_views:
            result = filter_view.filter_view(result)
        return result
''', '''        current = list(values)
        for view in self.filter_views:
            current = view.filter_view(current)
        return current
''')
N(F, '''        cols_in = tuple(columns_in)
        cols_out = cols_in
        filter_views = []
        for filter_config in filter_configs:
            filter_view = filter_config.construct_filter(cols_out, filter_context=filter_context)  # type: ignore
            cols_out = filter_view.columns_out
            filter_views.append(filter_view)
        return cls(cols_in, cols_out, filter_views)
''', '''        first = tuple(columns_in)
        names = first
        views = []
        for conf in filter_configs:
            view = conf.construct_filter(names, filter_context=filter_context)
            views.append(view)
            names = view.columns_out
        return cls(first, names, tuple(views))
''')
N(F, '''        values_out = list(values)
        filtered_values = self.filter_values(
            [values_out[index] for index in self.column_act_indices]
        )
        for index, filtered_value in zip(self.column_act_indices, filtered_values):
            values_out[index] = filtered_value
        return values_out
''', '''        values_out = list(values)
        selected = []
        for index in self.column_act_indices:
            selected.append(values_out[index])
        new_values = self.filter_values(selected)
        for index, new_value in zip(self.column_act_indices, new_values):
            values_out[index] = new_value
        return values_out
''')
N(F, '''    column_index_map = {column: index for index, column in enumerate(columns_in)}
    column_act_indices = []
    for column in columns_act:
        act_index = column_index_map.get(column)
        if act_index is None:
            raise ValueError(
                f"Filter {filter_name} refers to non-existant column {column}"
            )
        column_act_indices.append(act_index)
    return tuple(column_act_indices)
''', '''    positions = {}
    for index, column in enumerate(columns_in):
        positions[column] = index
    result = []
    for column in columns_act:
        if column not in positions:
            raise ValueError(
                f"Filter {filter_name} refers to non-existant column {column}"
            )
        result.append(positions[column])
    return tuple(result)
''')
N(F, '''    cols_seen: Dict[str, int] = {}
    for index, column in enumerate(columns_act):
        if cols_seen.setdefault(column, index) != index:
            raise ValueError(f"Filter {filter_name} has duplicate column {column}")
''', '''    seen = set()
    for column in columns_act:
        if column in seen:
            raise ValueError(f"Filter {filter_name} has duplicate column {column}")
        seen.add(column)
''')
N(F, '''        return (self.rng.randint(self.low, self.high) for _ in values)
''', '''        return [self.rng.randint(self.low, self.high) for _ in range(len(values))]
''')
N(F, '''        return (None for _ in values)
''', '''        return [None] * len(values)
''')
N(F, '''        op = self.op
        if op == "is":
            return value is self.value
        if op == "is not":
            return value is not self.value
''', '''        op, target = self.op, self.value
        if op == "is":
            return value is target
        elif op == "is not":
            return value is not target
''')
N(F, '''        for condition, condition_filter in zip(self.conditions, self.condition_filters):
            if condition.match(value):
                return condition_filter.filter_view(values_in)
        return list(values_in)
''', '''        for index, condition in enumerate(self.conditions):
            if not condition.match(value):
                continue
            return self.condition_filters[index].filter_view(values_in)
        return list(values_in)
''')
# --- sampler
N(S, '''        def _flush_buffer():
            with self.engine.connect() as conn:
                conn.execute(
                    ConflictInsert(conflict_strategy, table.table_obj, columns_out),
                    [dict(zip(columns_out, row)) for row in buffer],
                )
                conn.commit()
            buffer.clear()
''', '''        def _flush_buffer():
            stmt = ConflictInsert(conflict_strategy, table.table_obj, columns_out)
            params = []
            for row in buffer:
                params.append(dict(zip(columns_out, row)))
            with self.engine.connect() as conn:
                conn.execute(stmt, params)
                conn.commit()
            del buffer[:]
''')
N(S, '''        def _flush_buffer():
            with self.engine.connect() as conn:
                conn.execute(
                    ConflictInsert(conflict_strategy, table.table_obj, columns_out),
                    [dict(zip(columns_out, row)) for row in buffer],
                )
                conn.commit()
            buffer.clear()
''', '''        def _flush_buffer():
            with self.engine.begin() as conn:
                conn.execute(
                    ConflictInsert(conflict_strategy, table.table_obj, columns_out),
                    [dict(zip(columns_out, row)) for row in buffer],
                )
            buffer.clear()
''')
N(S, '''                for index in multiplied_indexes:
                    out_row[index] = _multiply_column(
                        out_row[index], multiplier, iteration
                    )
                if offsets is not None:
                    for index, offset in offsets:
                        if out_row[index] is not None:
                            out_row[index] += offset
''', '''                for index in multiplied_indexes:
                    out_row[index] = _multiply_column(
                        out_row[index], multiplier, iteration
                    )
                for index, offset in offsets or ():
                    value = out_row[index]
                    if value is None:
                        continue
                    out_row[index] = value + offset
''')
N(S, '''    if value is None:
        return None
    return value * multiplier + iteration
''', '''    return None if value is None else iteration + multiplier * value
''')
N(S, '''        with self.engine.connect() as conn:
            for table in reversed(self.meta.toposort()):
                LOGGER.info("Truncating table %s", table)
                conn.execute(sa.delete(table.table_obj))
                conn.commit()
''', '''        order = self.meta.toposort()
        order.reverse()
        with self.engine.connect() as conn:
            for table in order:
                LOGGER.info("Truncating table %s", table)
                stmt = sa.delete(table.table_obj)
                conn.execute(stmt)
                conn.commit()
''')
N(S, '''        with self.engine.connect() as conn:
            for table in reversed(self.meta.toposort()):
                LOGGER.info("Truncating table %s", table)
                conn.execute(sa.delete(table.table_obj))
                conn.commit()
''', '''        with self.engine.begin() as conn:
            for table in self.meta.toposort()[::-1]:
                LOGGER.info("Truncating table %s", table)
                conn.execute(table.table_obj.delete())
''')
N(S, '''        result = []
        insert_order_mapped = [str(table) for table in self.meta.toposort()]
        missing_tables = sorted(set(self.table_remap) - set(insert_order_mapped))
        if missing_tables:
            raise ValueError(f"Destination is missing expected tables {missing_tables}")
        for table in insert_order_mapped:
            remapped_table = self.table_remap.get(table)
            if remapped_table:
                result.append(remapped_table)
        return result
''', '''        insert_order_mapped = [str(table) for table in self.meta.toposort()]
        missing_tables = [t for t in self.table_remap if t not in insert_order_mapped]
        if missing_tables:
            raise ValueError(f"Destination is missing expected tables {missing_tables}")
        return [
            self.table_remap[table]
            for table in insert_order_mapped
            if table in self.table_remap
        ]
''')
N(S, '''        if create:
            output.create()
        insert_order = output.insert_order()
        if truncate:
            output.truncate()
        output.prepare()
''', '''        self._prepare_output(output, truncate, create)
        insert_order = output.insert_order()
''', S, '''    def _get_compact_columns(
        self, meta: DatabaseMetadata
''', '''    def _prepare_output(self, output, truncate, create):
        if create:
            output.create()
        output.insert_order()
        if not truncate:
            output.prepare()
            return
        output.truncate()
        output.prepare()

    def _get_compact_columns(
        self, meta: DatabaseMetadata
''')
N(S, '''        autoinc_index = -1
        autoinc_max_written = None
        if (
            _autoincrement_needs_updating(self.engine)
            and table.table_obj.autoincrement_column is not None
        ):
            try:
                autoinc_index = columns_out.index(
                    table.table_obj.autoincrement_column.name
                )
            except ValueError:
                pass
''', '''        autoinc_index = -1
        autoinc_max_written = None
        autoinc_column = table.table_obj.autoincrement_column
        if _autoincrement_needs_updating(self.engine) and autoinc_column is not None:
            if autoinc_column.name in columns_out:
                autoinc_index = columns_out.index(autoinc_column.name)
''')
N(S, '''                    if autoinc_max_written is None:
                        autoinc_max_written = out_row[autoinc_index]
                    else:
                        autoinc_max_written = max(
                            autoinc_max_written, out_row[autoinc_index]
                        )
''', '''                    value = out_row[autoinc_index]
                    if autoinc_max_written is None or value > autoinc_max_written:
                        autoinc_max_written = value
''')
N(S, '''        result: Dict[str, Set[str]] = {}
        ignore_tables = set(plan.passthrough) | set(
            self.config.multiplicity.ignore_tables
        )
''', '''        result: Dict[str, Set[str]] = {}
        ignore_tables = {*plan.passthrough, *self.config.multiplicity.ignore_tables}
''')
N(S, '''        conflict_strategy = self.conflict_strategy
        if self.merge and f"{src_schema}.{src_table_name}" in self.passthrough_tables:
            conflict_strategy = "skip"
''', '''        is_passthrough = f"{src_schema}.{src_table_name}" in self.passthrough_tables
        conflict_strategy = (
            "skip" if self.merge and is_passthrough else self.conflict_strategy
        )
''')
N(S, '''                for src_col, dst_col in zip(fk.columns, fk.dst_columns):
                    if dst_col in self.compact_columns.get(
                        (fk.dst_schema, fk.dst_table), set()
                    ):
                        remote_compact_cols[src_col] = fk
''', '''                target_key = (fk.dst_schema, fk.dst_table)
                target_cols = self.compact_columns.get(target_key, set())
                for src_col, dst_col in zip(fk.columns, fk.dst_columns):
                    if dst_col not in target_cols:
                        continue
                    remote_compact_cols[src_col] = fk
''')
N(S, '''            query = plan.queries.get(table)
            if query is None:
                continue
''', '''            if table not in plan.queries:
                continue
            query = plan.queries[table]
''')
N(S, '''            column_multipliers = table_column_multipliers.get(table)
            output.output_result_set(
                schema,
                table_name,
                columns,
                _count_rows(result, self.cached_table_sizes.get((schema, table_name))),
                filter_view=filter_view,
                multiplier=(
                    1
                    if column_multipliers is None
                    else self.config.multiplicity.multiplier
                ),
                column_multipliers=column_multipliers,
            )
''', '''            column_multipliers = table_column_multipliers.get(table)
            multiplier = 1
            if column_multipliers is not None:
                multiplier = self.config.multiplicity.multiplier
            total = self.cached_table_sizes.get((schema, table_name))
            output.output_result_set(
                schema,
                table_name,
                columns,
                _count_rows(result, total),
                filter_view=filter_view,
                multiplier=multiplier,
                column_multipliers=column_multipliers,
            )
''')
N(S, '''        while True:
            changes = False
''', '''        changes = True
        while changes:
            changes = False
''')
N(S, '''    def _validate_filters(self, meta: DatabaseMetadata):
        for table, filters in self.config.filters.items():
            if not filters:
                continue

            schema, table_name = parse_table_name(table)
            tbl = meta.tables.get((schema, table_name))
            if tbl is None:
                LOGGER.warning("Found filters for unknown table %s", table)
                continue

            FilterViewChain.construct_filter(
                tuple(column.name for column in tbl.table_obj.columns),
                filters,
            )
''', '''    def _validate_filters(self, meta: DatabaseMetadata):
        for table in self.config.filters:
            filters = self.config.filters[table]
            if not filters:
                continue
            tbl = meta.tables.get(parse_table_name(table))
            if tbl is not None:
                names = [column.name for column in tbl.table_obj.columns]
                FilterViewChain.construct_filter(names, filters)
            else:
                LOGGER.warning("Found filters for unknown table %s", table)
''')
N("metadata.py", '''            if any(fnmatch(table_id, select_pattern) for select_pattern in select):
                table_set.add((table_obj.schema, table_obj.name))
                table_queue.append((table_obj.schema, table_obj.name))
''', '''            for select_pattern in select:
                if fnmatch(table_id, select_pattern):
                    key = (table_obj.schema, table_obj.name)
                    table_set.add(key)
                    table_queue.append(key)
                    break
''')
N("metadata.py", '''        num_selected_tables = len(table_queue)
        for schema, table in table_queue:
            table_obj = metadata_obj.tables[f"{schema}.{table}"]
            for ref_schema, ref_table in table_deps[(schema, table)]:
                if (ref_schema, ref_table) not in table_set:
                    table_set.add((ref_schema, ref_table))
                    table_queue.append((ref_schema, ref_table))
''', '''        num_selected_tables = len(table_queue)
        index = 0
        while index < len(table_queue):
            current = table_queue[index]
            index += 1
            for ref in table_deps[current]:
                if ref in table_set:
                    continue
                table_set.add(ref)
                table_queue.append(ref)
''')
N("metadata.py", '''        table_set: Set[Tuple[str, str]] = set()
        table_queue''', '''        def _key(tbl):
            return (tbl.schema, tbl.name)

        table_set: Set[Tuple[str, str]] = set()
        table_queue''', "metadata.py", '''                if close_forward:
                    table_deps[(table_obj.schema, table_obj.name)].append(
                        (ref_table_obj.schema, ref_table_obj.name)
                    )
                if close_backward:
                    table_deps[(ref_table_obj.schema, ref_table_obj.name)].append(
                        (table_obj.schema, table_obj.name)
                    )
''', '''                src, dst = _key(table_obj), _key(ref_table_obj)
                if close_forward:
                    table_deps[src].append(dst)
                if close_backward:
                    table_deps[dst].append(src)
''')
N("metadata.py", '''                for fk in table.foreign_keys
                if (fk.dst_schema, fk.dst_table) not in ignore_tables
                and (fk.dst_schema, fk.dst_table) in self.tables
            }
            for table in self.tables.values()
            if (table.schema, table.name) not in ignore_tables
        }
''', '''                for fk in table.foreign_keys
                if (fk.dst_schema, fk.dst_table) in self.tables
                and not (fk.dst_schema, fk.dst_table) in ignore_tables
            }
            for key, table in self.tables.items()
            if key not in ignore_tables
        }
''')
N("metadata.py", '''        return {
            f"{table.schema}.{table.name}": {
                f"{fk.dst_schema}.{fk.dst_table}"
                for fk in table.foreign_keys
                if (fk.dst_schema, fk.dst_table) not in ignore_tables
                and (fk.dst_schema, fk.dst_table) in self.tables
            }
            for table in self.tables.values()
            if (table.schema, table.name) not in ignore_tables
        }
''', '''        graph: Dict[str, Set[str]] = {}
        for table in self.tables.values():
            if (table.schema, table.name) in ignore_tables:
                continue
            deps = set()
            for fk in table.foreign_keys:
                ref = (fk.dst_schema, fk.dst_table)
                if ref in self.tables and ref not in ignore_tables:
                    deps.add(".".join(ref))
            graph[str(table)] = deps
        return graph
''')
N("sampler.py", "                buffer.append(tuple(out_row))\n                if len(buffer) > DESTINATION_BUFFER_SIZE:\n                    _flush_buffer()\n", "                if len(buffer) >= DESTINATION_BUFFER_SIZE:\n                    _flush_buffer()\n                buffer.append(tuple(out_row))\n")
N("sampler.py", "        if buffer:\n            _flush_buffer()\n", "        if len(buffer) > 0:\n            _flush_buffer()\n")
N("sampler.py", "        def _flush_buffer():\n            with self", "        def _flush_buffer():\n            if not buffer:\n                return\n            with self", "sampler.py", "        if buffer:\n            _flush_buffer()\n", "        _flush_buffer()\n")
N("sampler.py", "[dict(zip(columns_out, row)) for row in buffer],", "list(map(lambda row: dict(zip(columns_out, row)), buffer)),")
N("sampler.py", '''                    json.dump(dict(zip(columns_out, out_row)), fdump, default=str)
                    fdump.write("\\n")
''', '''                    line = json.dumps(dict(zip(columns_out, out_row)), default=str)
                    fdump.write(f"{line}\\n")
''')
N("sampler.py", '''                    json.dump(dict(zip(columns_out, out_row)), fdump, default=str)
                    fdump.write("\\n")
''', '''                    print(json.dumps(dict(zip(columns_out, out_row)), default=str), file=fdump)
''')
N("sampler.py", "                conn.commit()\n            buffer.clear()\n", "                conn.commit()\n            del buffer[:]\n")
N("sampler.py", "            with self.engine.connect() as conn:\n                conn.execute(\n                    ConflictInsert(conflict_strategy, table.table_obj, columns_out),\n                    [dict(zip(columns_out, row)) for row in buffer],\n                )\n                conn.commit()\n", "            rows = [dict(zip(columns_out, row)) for row in buffer]\n            with self.engine.begin() as conn:\n                conn.execute(\n                    ConflictInsert(conflict_strategy, table.table_obj, columns_out),\n                    rows,\n                )\n")
N("sampler.py", "        buffer: List[tuple] = []\n", "        buffer: List[dict] = []\n", "sampler.py", "[dict(zip(columns_out, row)) for row in buffer],", "buffer,", "sampler.py", "buffer.append(tuple(out_row))", "buffer.append(dict(zip(columns_out, out_row)))")
N("sampler.py", "        for row in result_set:\n            for iteration in range(multiplier):\n                out_row = filter_view.filter_view(row) if filter_view else row", "        for row in result_set:\n            if not multiplier:\n                break\n            for iteration in range(multiplier):\n                out_row = filter_view.filter_view(row) if filter_view else row")
N("sampler.py", '''        while True:
            changes = False

            for table_name in plan.queries:
                table = meta''', '''        changes = True
        while changes:
            changes = False

            for table_name in plan.queries:
                table = meta''', "sampler.py", '''
            if not changes:
                break

        for table_name in plan.queries:''', '''
        for table_name in plan.queries:''')
N("sampler.py", '''                    cols.update(
                        src_col
                        for src_col, dst_col in zip(fk.columns, fk.dst_columns)
                        if dst_col in dst_mapped
                    )
''', '''                    for src_col, dst_col in zip(fk.columns, fk.dst_columns):
                        if dst_col in dst_mapped:
                            cols.add(src_col)
''')
N("sampler.py", '''                    cols.update(
                        src_col
                        for src_col, dst_col in zip(fk.columns, fk.dst_columns)
                        if dst_col in dst_mapped
                    )
''', '''                    cols |= {
                        fk.columns[i]
                        for i, dst_col in enumerate(fk.dst_columns)
                        if dst_col in dst_mapped
                    }
''')
N("sampler.py", '''            cols.update(set(table.primary_key) - ignored_pk_cols)
''', '''            for pk_col in table.primary_key:
                if pk_col not in ignored_pk_cols:
                    cols.add(pk_col)
''')
N("sampler.py", '''            cols.update(set(table.primary_key) - ignored_pk_cols)
''', '''            cols |= set(table.primary_key).difference(ignored_pk_cols)
''')
N("sampler.py", "return value * multiplier + iteration", "return iteration + multiplier * value")
N("sampler.py", '''            for iteration in range(multiplier):
                out_row = filter_view.filter_view(row) if filter_view else row
                for index in multiplied_indexes:
                    out_row[index] = _multiply_column(
                        out_row[index], multiplier, iteration
                    )
''', '''            for iteration in range(multiplier):
                out_row = filter_view.filter_view(row) if filter_view else row
                out_row = [
                    _multiply_column(value, multiplier, iteration) if index in multiplied_indexes else value
                    for index, value in enumerate(out_row)
                ]
''')
N("sampler.py", '''            column_multipliers = table_column_multipliers.get(table)
''', '''            column_multipliers = table_column_multipliers.get(table)
            copies = 1
            if column_multipliers is not None:
                copies = self.config.multiplicity.multiplier
''', "sampler.py", '''                multiplier=(
                    1
                    if column_multipliers is None
                    else self.config.multiplicity.multiplier
                ),
''', '''                multiplier=copies,
''')
N("sampler.py", '''                    for index in multiplied_indexes:
                        out_row[index] = _multiply_column(
                            out_row[index], multiplier, iteration
                        )
                    json''', '''                    for index in multiplied_indexes:
                        old = out_row[index]
                        if old is not None:
                            out_row[index] = old * multiplier + iteration
                    json''')
# ---- connections
N("common.py", '''            as_dict = self.model_dump(exclude_unset=True)
            require = as_dict.get(
                "require", bool(os.getenv(f"{env_prefix}SSL_REQUIRE", ""))
            )
''', '''            if "require" in self.model_fields_set:
                require = self.require
            else:
                require = bool(os.environ.get(f"{env_prefix}SSL_REQUIRE"))
            as_dict = self.model_dump(exclude_unset=True)
''')
N("common.py", '''                if server_verify == "identity":
                    sslmode = "verify-full"
                elif server_verify == "cert":
                    sslmode = "verify-ca"
                else:
                    sslmode = "require"
''', '''                sslmode = {"identity": "verify-full", "cert": "verify-ca"}.get(
                    server_verify, "require"
                )
''')
N("common.py", '''                result = {key: value for key, value in result.items() if value}
                if server_verify == "identity" and not server_rootcert:
''', '''                for name in list(result):
                    if not result[name]:
                        del result[name]
                if server_verify == "identity" and not server_rootcert:
''')
N("common.py", '''                result["verify_mode"] = (
                    "required" if server_verify in ("cert", "identity") else "none"
                )
''', '''                result["verify_mode"] = (
                    "none" if server_verify not in {"cert", "identity"} else "required"
                )
''')
N("common.py", '''        if self.isolation_level:
            isolation_level = self.isolation_level
        elif dialect == "sqlite":
            isolation_level = "SERIALIZABLE"
        else:
            isolation_level = "READ COMMITTED"
''', '''        isolation_level = self.isolation_level or (
            "SERIALIZABLE" if dialect == "sqlite" else "READ COMMITTED"
        )
''')
N("common.py", '''            cursor = dbapi_connection.cursor()
            try:
                if dialect == "sqlite":
                    for db_alias, db_file in self.sqlite_databases.items():
                        escaped_db_file = db_file.replace("'", "''")
                        escaped_alias = db_alias.replace('"', '""')
                        cursor.execute(
                            f"ATTACH DATABASE '{escaped_db_file}' as \\"{escaped_alias}\\""
                        )

                for session_sql in self.session_sqls:
                    cursor.execute(session_sql)
''', '''            statements = []
            if dialect == "sqlite":
                for db_alias, db_file in self.sqlite_databases.items():
                    escaped_db_file = db_file.replace("'", "''")
                    escaped_alias = db_alias.replace('"', '""')
                    statements.append(
                        f"ATTACH DATABASE '{escaped_db_file}' as \\"{escaped_alias}\\""
                    )
            statements.extend(self.session_sqls)

            cursor = dbapi_connection.cursor()
            try:
                for statement in statements:
                    cursor.execute(statement)
''')
N("common.py", '''        @sa.event.listens_for(engine, "connect")
        def _set_session_sqls(dbapi_connection, _):''', '''        def _set_session_sqls(dbapi_connection, _):''', "common.py", '''                cursor.close()

        return engine
''', '''                cursor.close()

        sa.event.listen(engine, "connect", _set_session_sqls)
        return engine
''')
N("common.py", '''    if env_prefix is not None:
        dialect = dialect or os.getenv(f"{env_prefix}DIALECT", None)  # type: ignore
        host = host or os.getenv(f"{env_prefix}HOST", "localhost")
''', '''    def _env(name, default=None):
        return os.getenv(f"{env_prefix}{name}", default)

    if env_prefix is not None:
        dialect = dialect or _env("DIALECT")  # type: ignore
        if not host:
            host = _env("HOST", "localhost")
''')
N("common.py", '''        if not port:
            port = 3306
''', '''        port = port or 3306
''')
N("common.py", '''        return sa.engine.URL.create(drivername="sqlite", database=database)
    else:
        raise ValueError(f"Unsupported SQL dialect {dialect!r}")
''', '''        drivername = "sqlite"
        return sa.engine.URL.create(drivername, database=database)
    else:
        raise ValueError(f"Unsupported SQL dialect {dialect!r}")
''')
N("common.py", '''        dialect: DatabaseDialect = {  # type: ignore
            "postgresql": "postgres"
        }.get(url.get_backend_name(), url.get_backend_name())
''', '''        dialect: DatabaseDialect = url.get_backend_name()  # type: ignore
        if dialect == "postgresql":
            dialect = "postgres"
''')
N("common.py", '''                cursor.close()

        return engine
''', '''                cursor.close()

        LOGGER.debug("Created engine for dialect %s", dialect)
        return engine
''')

# ---- plan nodes
N("plan_model.py", '''        op = self.operator
        column = table_obj.columns[self.column]
        if op == "<":
            return column < self.value
        if op == ">":
            return column > self.value
        if op == "=":
            return column == self.value
        if op in ("<>", "!="):
            return column != self.value
        if op == "like":
            return column.like(self.value)
        if op == "not like":
            return sa.not_(column.like(self.value))
        raise ValueError(f"Unknown operator {op!r}")
''', '''        column = table_obj.columns[self.column]
        builders = {
            "<": lambda: column < self.value,
            ">": lambda: column > self.value,
            "=": lambda: column == self.value,
            "<>": lambda: column != self.value,
            "!=": lambda: column != self.value,
            "like": lambda: column.like(self.value),
            "not like": lambda: column.notlike(self.value),
        }
        if self.operator not in builders:
            raise ValueError(f"Unknown operator {self.operator!r}")
        return builders[self.operator]()
''')
N("plan_model.py", '''        op = self.operator
        column = table_obj.columns[self.column]
        if op == "<":
            return column < self.value
        if op == ">":
            return column > self.value
        if op == "=":
            return column == self.value
        if op in ("<>", "!="):
            return column != self.value
        if op == "like":
            return column.like(self.value)
        if op == "not like":
            return sa.not_(column.like(self.value))
        raise ValueError(f"Unknown operator {op!r}")
''', '''        column = table_obj.c[self.column]
        comparators = {
            "<": operator.lt,
            ">": operator.gt,
            "=": operator.eq,
            "<>": operator.ne,
            "!=": operator.ne,
        }
        if self.operator in comparators:
            return comparators[self.operator](column, self.value)
        if self.operator in ("like", "not like"):
            clause = column.like(self.value)
            return clause if self.operator == "like" else ~clause
        raise ValueError(f"Unknown operator {self.operator!r}")
''', "plan_model.py", "import itertools\n", "import itertools\nimport operator\n")
N("plan_model.py", '''        if op in ("<>", "!="):
            return column != self.value
        if op == "like":
            return column.like(self.value)
        if op == "not like":
            return sa.not_(column.like(self.value))
        raise''', '''        if op == "<>" or op == "!=":
            return sa.not_(column == self.value)
        if op.endswith("like"):
            like = column.like(self.value)
            return sa.not_(like) if op.startswith("not") else like
        raise''')
N("plan_model.py", '''        columns = sa.tuple_(*(table_obj.columns[col_name] for col_name in self.columns))
        if isinstance(self.values, list):
            clause = columns.in_(self.values)
        else:
            clause = columns.in_(self.values.build(context))
        if self.negated:
            clause = sa.not_(clause)
        return clause
''', '''        columns = sa.tuple_(*[table_obj.c[col_name] for col_name in self.columns])
        values = (
            self.values
            if isinstance(self.values, list)
            else self.values.build(context)
        )
        return columns.not_in(values) if self.negated else columns.in_(values)
''')
N("plan_model.py", '''        if not self.conditions:
            return sa.true()
        return sa.and_(*(cond.build(context, table_obj) for cond in self.conditions))
''', '''        clauses = []
        for cond in self.conditions:
            clauses.append(cond.build(context, table_obj))
        return sa.and_(sa.true(), *clauses)
''')
N("plan_model.py", '''        if not self.conditions:
            return sa.false()
        return sa.or_(*(cond.build(context, table_obj) for cond in self.conditions))
''', '''        if self.conditions:
            clauses = [cond.build(context, table_obj) for cond in self.conditions]
            return sa.or_(*clauses)
        return sa.false()
''')
N("plan_model.py", '''        clause = sa.text(self.sql)
        if self.sql_params is not None:
            clause = clause.bindparams(**self.sql_params)
        return clause
''', '''        return sa.text(self.sql).bindparams(**(self.sql_params or {}))
''')
N("plan_model.py", '''        if self.columns:
            # pylint: disable=not-an-iterable
            stmt = sa.select(*(table_obj.columns[column] for column in self.columns))
        else:
            stmt = sa.select(table_obj)
''', '''        if not self.columns:
            stmt = sa.select(table_obj)
        else:
            # pylint: disable=not-an-iterable
            selected = [table_obj.c[column] for column in self.columns]
            stmt = sa.select(*selected)
''')
N("plan_model.py", '''            for join in self.joins:  # pylint: disable=not-an-iterable
                right = join.right.build(context).alias()

                if join.half_unique and table_obj.primary_key:
                    joined = joined.join(
                        right,
                        onclause=sa.and_(
                            *(
                                table_obj.c[lft_col] == right.c[rht_col]
                                for lft_col, rht_col in zip(
                                    join.left_columns, join.right_columns
                                )
                            )
                        ),
                        isouter=self.joins_outer,
                    )
                    joined_cols.extend(
                        right.c[rht_col] for rht_col in join.right_columns
                    )
                else:
                    exists_constraints.append(
                        sa.exists().where(
                            *(
                                table_obj.c[lft_col] == right.c[rht_col]
                                for lft_col, rht_col in zip(
                                    join.left_columns, join.right_columns
                                )
                            )
                        )
                    )
''', '''            for join in self.joins:  # pylint: disable=not-an-iterable
                right = join.right.build(context).alias()
                pairs = [
                    right.c[rht_col] == table_obj.c[lft_col]
                    for lft_col, rht_col in zip(join.left_columns, join.right_columns)
                ]
                if not join.half_unique or not table_obj.primary_key:
                    exists_constraints.append(sa.exists().where(sa.and_(*pairs)))
                    continue
                joined = joined.join(
                    right, sa.and_(*pairs), isouter=self.joins_outer
                )
                for rht_col in join.right_columns:
                    joined_cols.append(right.c[rht_col])
''')
N("plan_model.py", '''                if join.half_unique and table_obj.primary_key:
                    joined = joined.join(
                        right,
                        onclause=sa.and_(
                            *(
                                table_obj.c[lft_col] == right.c[rht_col]
                                for lft_col, rht_col in zip(
                                    join.left_columns, join.right_columns
                                )
                            )
                        ),
                        isouter=self.joins_outer,
                    )
                    joined_cols.extend(
                        right.c[rht_col] for rht_col in join.right_columns
                    )
                else:
                    exists_constraints.append(
                        sa.exists().where(
                            *(
                                table_obj.c[lft_col] == right.c[rht_col]
                                for lft_col, rht_col in zip(
                                    join.left_columns, join.right_columns
                                )
                            )
                        )
                    )
''', '''                clause = join.on_clause(table_obj, right)
                if join.half_unique and table_obj.primary_key:
                    joined = joined.join(
                        right, onclause=clause, isouter=self.joins_outer
                    )
                    joined_cols.extend(
                        right.c[rht_col] for rht_col in join.right_columns
                    )
                else:
                    exists_constraints.append(sa.exists().where(clause))
''', "plan_model.py", '''    half_unique: bool = True
''', '''    half_unique: bool = True

    def on_clause(self, left: sa.FromClause, right: sa.FromClause):
        return sa.and_(
            *(
                left.c[lft_col] == right.c[rht_col]
                for lft_col, rht_col in zip(self.left_columns, self.right_columns)
            )
        )
''')
N("plan_model.py", '''            if self.joins_outer:
                exists_constraints.extend(col.is_not(None) for col in joined_cols)
                stmt = stmt.where(sa.or_(*exists_constraints))
            elif exists_constraints:
                stmt = stmt.where(sa.and_(*exists_constraints))
''', '''            if self.joins_outer:
                for col in joined_cols:
                    exists_constraints.append(col.is_not(None))
            if exists_constraints:
                combine = sa.or_ if self.joins_outer else sa.and_
                stmt = stmt.where(combine(*exists_constraints))
''')
N("plan_model.py", '''            elif exists_constraints:
                stmt = stmt.where(sa.and_(*exists_constraints))
''', '''            else:
                for constraint in exists_constraints:
                    stmt = stmt.where(constraint)
''')
N("plan_model.py", '''        if self.where:
            stmt = stmt.where(self.where.build(context, table_obj))
''', '''        if self.where is not None:
            condition = self.where.build(context, table_obj)
            stmt = stmt.where(condition)
''')
N("plan_model.py", '''        if self.limit is not None:
            # pylint: disable=not-callable
            stmt = stmt.order_by(sa.func.random()).limit(self.limit)

        return stmt
''', '''        if self.limit is None:
            return stmt
        # pylint: disable=not-callable
        stmt = stmt.order_by(sa.func.random())
        return stmt.limit(self.limit)
''')
N("plan_model.py", '''        selects = []
        for statement in self.statements:
            select = statement.build(context)
            if statement.limit is not None:
                # Not all dialects support ordering or limits directly within a union
                select = sa.select(select.subquery())
            selects.append(select)
        return sa.union(*selects)
''', '''        return sa.union(
            *(
                (
                    # Not all dialects support ordering or limits directly in a union
                    statement.build(context)
                    if statement.limit is None
                    else sa.select(statement.build(context).subquery())
                )
                for statement in self.statements
            )
        )
''')
N("plan_model.py", '''        if self.statement is not None:
            return self.statement.build(context)
        raise ValueError("One of 'sql' or 'select' must be set")
''', '''        if self.statement is None:
            raise ValueError("One of 'sql' or 'select' must be set")
        return self.statement.build(context)
''')
N("plan_model.py", '''@compiles(RandomFraction, "sqlite")
def _random_fraction_sqlite(element, compiler, **kwargs) -> str:
    # random() is a signed 64-bit integer on sqlite
    return "(random() / 18446744073709551616.0 + 0.5)"
''', '''@compiles(RandomFraction, "sqlite")
def _random_fraction_sqlite(element, compiler, **kwargs) -> str:
    # random() is a signed 64-bit integer on sqlite
    return "((random() + 9223372036854775808.0) / 18446744073709551616.0)"
''')

# ---- simplification
N("plan_model.py", '''        simp_conditions: List["SQLWhereClause"] = [
            simp_condition
            for condition in self.conditions
            if not isinstance(
                simp_condition := condition.simplify(), SQLWhereClauseTrue
            )
        ]
        simp_conditions = list(
            itertools.chain(
                *(
                    cond.conditions if isinstance(cond, SQLWhereClauseAnd) else (cond,)
                    for cond in simp_conditions
                )
            )
        )
        if any(
            isinstance(condition, SQLWhereClauseFalse) for condition in simp_conditions
        ):
            return SQLWhereClauseFalse(type_="false")
        if len(simp_conditions) == 0:
            return SQLWhereClauseTrue(type_="true")
        if len(simp_conditions) == 1:
            return simp_conditions[0]
''', '''        simp_conditions: List["SQLWhereClause"] = []
        for condition in self.conditions:
            simp_condition = condition.simplify()
            if isinstance(simp_condition, SQLWhereClauseFalse):
                return simp_condition
            if isinstance(simp_condition, SQLWhereClauseTrue):
                continue
            if isinstance(simp_condition, SQLWhereClauseAnd):
                simp_conditions.extend(simp_condition.conditions)
            else:
                simp_conditions.append(simp_condition)
        if not simp_conditions:
            return SQLWhereClauseTrue(type_="true")
        if len(simp_conditions) == 1:
            return simp_conditions[0]
''')
N("plan_model.py", '''        simp_conditions: List["SQLWhereClause"] = [
            simp_condition
            for condition in self.conditions
            if not isinstance(
                simp_condition := condition.simplify(), SQLWhereClauseFalse
            )
        ]
        simp_conditions = list(
            itertools.chain(
                *(
                    cond.conditions if isinstance(cond, SQLWhereClauseOr) else (cond,)
                    for cond in simp_conditions
                )
            )
        )
        if any(
            isinstance(condition, SQLWhereClauseTrue) for condition in simp_conditions
        ):
            return SQLWhereClauseTrue(type_="true")
''', '''        simp_conditions = _flatten(self.conditions, SQLWhereClauseOr, SQLWhereClauseFalse)
        if any(
            isinstance(condition, SQLWhereClauseTrue) for condition in simp_conditions
        ):
            return SQLWhereClauseTrue(type_="true")
''', "plan_model.py", '''SQLWhereClause = Annotated[
''', '''def _flatten(conditions, kind, neutral):
    result = []
    for condition in conditions:
        condition = condition.simplify()
        if isinstance(condition, neutral):
            continue
        result += condition.conditions if isinstance(condition, kind) else [condition]
    return result


SQLWhereClause = Annotated[
''')
N("plan_model.py", '''        simp_conditions = list(
            itertools.chain(
                *(
                    cond.conditions if isinstance(cond, SQLWhereClauseAnd) else (cond,)
                    for cond in simp_conditions
                )
            )
        )
''', '''        simp_conditions = [
            inner
            for cond in simp_conditions
            for inner in (
                cond.conditions if isinstance(cond, SQLWhereClauseAnd) else [cond]
            )
        ]
''')
N("plan_model.py", '''        simp_conditions = list(
            itertools.chain(
                *(
                    cond.conditions if isinstance(cond, SQLWhereClauseAnd) else (cond,)
                    for cond in simp_conditions
                )
            )
        )
''', '')
N("plan_model.py", '''        if any(
            isinstance(condition, SQLWhereClauseFalse) for condition in simp_conditions
        ):
            return SQLWhereClauseFalse(type_="false")
''', '''        for condition in simp_conditions:
            if isinstance(condition, SQLWhereClauseFalse):
                return condition
''')
N("plan_model.py", '''        if self.threshold <= 0:
            return SQLWhereClauseFalse(type_="false")
        if self.threshold >= 1:
            return SQLWhereClauseTrue(type_="true")
        return self
''', '''        if 0 < self.threshold < 1:
            return self
        if self.threshold >= 1:
            return SQLWhereClauseTrue(type_="true")
        return SQLWhereClauseFalse(type_="false")
''')
N("plan_model.py", '''        return SQLWhereClauseIn(
            type_="in",
            columns=list(self.columns),
            values=self.values.simplify(),
            negated=self.negated,
        )
''', '''        return self.model_copy(update={"values": self.values.simplify()})
''')
N("plan_model.py", '''        kwargs = {
            "type_": self.type_,
            "from_": self.from_,
        }
        if not isinstance(simp_where, SQLWhereClauseTrue):
            kwargs["where"] = simp_where
        if self.columns is not None:
            kwargs["columns"] = self.columns
        if self.limit is not None:
            kwargs["limit"] = self.limit
        if self.joins:
            kwargs["joins"] = self.joins
            kwargs["joins_outer"] = self.joins_outer

        return SQLStatementSelect(**kwargs)  # type: ignore
''', '''        return SQLStatementSelect(
            type_="select",
            from_=self.from_,
            where=None if isinstance(simp_where, SQLWhereClauseTrue) else simp_where,
            columns=self.columns,
            limit=self.limit,
            joins=self.joins,
            joins_outer=self.joins_outer,
        )
''')
N("plan_model.py", '''        kwargs = {
            "type_": self.type_,
            "from_": self.from_,
        }
        if not isinstance(simp_where, SQLWhereClauseTrue):
            kwargs["where"] = simp_where
        if self.columns is not None:
            kwargs["columns"] = self.columns
        if self.limit is not None:
            kwargs["limit"] = self.limit
        if self.joins:
            kwargs["joins"] = self.joins
            kwargs["joins_outer"] = self.joins_outer

        return SQLStatementSelect(**kwargs)  # type: ignore
''', '''        if isinstance(simp_where, SQLWhereClauseTrue):
            return self.model_copy(update={"where": None})
        return self.model_copy(update={"where": simp_where})
''')
N("plan_model.py", '''        for statement in simp_statements:
            if statement.from_ != statement0.from_:
                break
            if statement.columns != statement0.columns:
                break
            if statement.limit is not None:
                break
            if statement.joins:
                break
        else:
            return SQLStatementSelect(''', '''        if all(
            statement.from_ == statement0.from_
            and statement.columns == statement0.columns
            and statement.limit is None
            and not statement.joins
            for statement in simp_statements
        ):
            return SQLStatementSelect(''')
N("plan_model.py", '''        for statement in simp_statements:
            if statement.from_ != statement0.from_:
                break
            if statement.columns != statement0.columns:
                break
            if statement.limit is not None:
                break
            if statement.joins:
                break
        else:
            return SQLStatementSelect(''', '''        mergeable = True
        for statement in simp_statements:
            if (
                statement.from_ != statement0.from_
                or statement.columns != statement0.columns
                or statement.limit is not None
                or statement.joins
            ):
                mergeable = False
                break
        if mergeable:
            return SQLStatementSelect(''')
N("plan_model.py", '''        for statement in simp_statements:
            if statement.from_ != statement0.from_:
                break
            if statement.columns != statement0.columns:
                break
            if statement.limit is not None:
                break
            if statement.joins:
                break
        else:
            return SQLStatementSelect(''', '''        if all(statement0.can_merge(statement) for statement in simp_statements):
            return SQLStatementSelect(''', "plan_model.py", '''    def simplify(self) -> "SQLStatementSelect":
''', '''    def can_merge(self, other: "SQLStatementSelect") -> bool:
        if other.limit is not None or other.joins:
            return False
        return self.from_ == other.from_ and self.columns == other.columns

    def simplify(self) -> "SQLStatementSelect":
''')
N("plan_model.py", '''                where=SQLWhereClauseOr(
                    type_="or",
                    conditions=[
                        (statement.where or SQLWhereClauseTrue(type_="true"))
                        for statement in simp_statements
                    ],
                ),
            ).simplify()
''', '''                where=SQLWhereClauseOr(
                    type_="or",
                    conditions=[
                        (
                            SQLWhereClauseTrue(type_="true")
                            if statement.where is None
                            else statement.where
                        )
                        for statement in simp_statements
                    ],
                ).simplify(),
            ).simplify()
''')
N("plan_model.py", '''        simp_statements = [
            simp_statement
            for statement in self.statements
            if not isinstance(
                (simp_statement := statement.simplify()).where, SQLWhereClauseFalse
            )
        ]
''', '''        simp_statements = []
        for statement in self.statements:
            simp_statement = statement.simplify()
            if isinstance(simp_statement.where, SQLWhereClauseFalse):
                continue
            simp_statements.append(simp_statement)
''')

# ---- text and loading
N("__main__.py", "yaml.safe_load(fplan)", "yaml.load(fplan, Loader=yaml.SafeLoader)")
N("__main__.py", "import yaml\n", "import yaml\nfrom yaml import safe_load\n", "__main__.py", "yaml.safe_load(fplan)", "safe_load(fplan)")
N("common.py", '''                        escaped_db_file = db_file.replace("'", "''")
                        escaped_alias = db_alias.replace('"', '""')
                        cursor.execute(
                            f"ATTACH DATABASE '{escaped_db_file}' as \\"{escaped_alias}\\""
                        )
''', '''                        cursor.execute(_attach_statement(db_alias, db_file))
''', "common.py", '''class DatabaseConfig(BaseModel):
''', '''def _attach_statement(db_alias: str, db_file: str) -> str:
    escaped_db_file = db_file.replace("'", "''")
    escaped_alias = db_alias.replace('"', '""')
    return "ATTACH DATABASE '" + escaped_db_file + "' as \\"" + escaped_alias + '"'


class DatabaseConfig(BaseModel):
''')
N("common.py", '''                        escaped_db_file = db_file.replace("'", "''")
                        escaped_alias = db_alias.replace('"', '""')
                        cursor.execute(
                            f"ATTACH DATABASE '{escaped_db_file}' as \\"{escaped_alias}\\""
                        )
''', '''                        alias = engine.dialect.identifier_preparer.quote(db_alias)
                        cursor.execute(f"ATTACH DATABASE ? as {alias}", (db_file,))
''')
N("common.py", '''                        escaped_db_file = db_file.replace("'", "''")
                        escaped_alias = db_alias.replace('"', '""')
                        cursor.execute(
                            f"ATTACH DATABASE '{escaped_db_file}' as \\"{escaped_alias}\\""
                        )
''', '''                        escaped_db_file = db_file.replace("'", "''")
                        escaped_alias = db_alias.replace('"', '""')
                        cursor.execute(
                            "ATTACH DATABASE '{}' as \\"{}\\"".format(
                                escaped_db_file, escaped_alias
                            )
                        )
''')
N("filters.py", '''                try:
                    module = import_module(self.module)
                except ImportError as exc:
                    raise ValueError(
                        f"Failed to import module {self.module} for plugin"
                    ) from exc
''', '''                module = _import_plugin(self.module)
''', "filters.py", "class FilterPlugin(FilterColumns):\n", '''def _import_plugin(name: str):
    try:
        return import_module(name)
    except ImportError as exc:
        raise ValueError(f"Failed to import module {name} for plugin") from exc


class FilterPlugin(FilterColumns):
''')
N("sampler.py", '''    with engine.connect() as conn:
        conn.execute(
            # Keys below the range of the sequence are never generated
            sa.text(
                "SELECT setval(CAST(seqrelid AS regclass), :val) FROM pg_sequence "
                "WHERE seqrelid = CAST(pg_get_serial_sequence(:tab, :col) AS regclass) "
                "AND seqmin <= :val"
            ),
            {
                "tab": engine.dialect.identifier_preparer.format_table(table),
                "col": table.autoincrement_column.name,
                "val": value,
            },
        )
        conn.commit()
''', '''    statement = sa.text(
        "SELECT setval(CAST(seqrelid AS regclass), :val) FROM pg_sequence "
        "WHERE seqrelid = CAST(pg_get_serial_sequence(:tab, :col) AS regclass) "
        "AND seqmin <= :val"
    )
    params = {
        "tab": engine.dialect.identifier_preparer.format_table(table),
        "col": table.autoincrement_column.name,
        "val": value,
    }
    with engine.begin() as conn:
        conn.execute(statement, params)
''')
# C14
N("sampler.py", '''        for source_table in self.plan.queries:
            if source_table in self.passthrough_tables:
                continue

            schema, table_name = self._remap_table(*parse_table_name(source_table))
''', '''        sampled_tables = [
            table for table in self.plan.queries if table not in self.passthrough_tables
        ]
        for source_table in sampled_tables:
            schema, table_name = self._remap_table(*parse_table_name(source_table))
''')
N("sampler.py", '''            with self.engine.connect() as conn:
                max_pk_val = conn.scalar(sa.select(sa.func.max(pk_col)))

''', '''            max_pk_val = self._largest_key(pk_col)
''', "sampler.py", '''    def create(self) -> None:
        """Create any missing tables in destination from the source schema"""
        source_meta''', '''    def _largest_key(self, pk_col):
        with self.engine.connect() as conn:
            return conn.scalar(sa.select(sa.func.max(pk_col)))

    def create(self) -> None:
        """Create any missing tables in destination from the source schema"""
        source_meta''')
N("sampler.py", '''            with self.engine.connect() as conn:
                max_pk_val = conn.scalar(sa.select(sa.func.max(pk_col)))
''', '''            with self.engine.connect() as conn:
                stmt = sa.select(sa.func.max(pk_col))
                max_pk_val = conn.execute(stmt).scalar()
''')
N("sampler.py", '''                if offset is not None:
                    self.table_offsets[self._remap_table(src_schema, src_table_name)][
                        fk.columns[0]
                    ] = (offset + 1)
''', '''                if offset is None:
                    continue
                (src_column,) = fk.columns
                remapped = self._remap_table(src_schema, src_table_name)
                self.table_offsets[remapped][src_column] = 1 + offset
''')
N("sampler.py", '''                if offsets is not None:
                    for index, offset in offsets:
                        if out_row[index] is not None:
                            out_row[index] += offset
''', '''                for index, offset in offsets or ():
                    value = out_row[index]
                    if value is None:
                        continue
                    out_row[index] = value + offset
''')
N("sampler.py", '''        offsets = None
        if table_offsets := self.table_offsets.get((schema, table_name)):
            offsets = [
                (index, table_offsets[col])
                for index, col in enumerate(columns_out)
                if col in table_offsets
            ]
''', '''        table_offsets = self.table_offsets.get((schema, table_name), {})
        offsets = []
        for index, col in enumerate(columns_out):
            if col in table_offsets:
                offsets.append((index, table_offsets[col]))
''')
N("sampler.py", '''            if max_pk_val is not None:
                self.table_offsets[(schema, table_name)][pk_col.name] = max_pk_val + 1
''', '''            if max_pk_val is not None:
                next_key = max_pk_val + 1
                self.table_offsets[(schema, table_name)][pk_col.name] = next_key
''')
N("sampler.py", '''            pk_max_values[source_table] = max_pk_val
            if max_pk_val is not None:
                self.table_offsets[(schema, table_name)][pk_col.name] = max_pk_val + 1
''', '''            key_offset = None if max_pk_val is None else max_pk_val + 1
            pk_max_values[source_table] = key_offset
            if key_offset is not None:
                self.table_offsets[(schema, table_name)][pk_col.name] = key_offset
''', "sampler.py", "                    ] = (offset + 1)", "                    ] = offset")
N("sampler.py", '''                if len(fk.columns) != 1:
                    continue
                dst_table = self.source_meta.tables.get((fk.dst_schema, fk.dst_table))
                if dst_table is None or fk.dst_columns != dst_table.primary_key:
                    continue
                offset = pk''', '''                if len(fk.columns) > 1:
                    continue
                dst_table = self.source_meta.tables.get((fk.dst_schema, fk.dst_table))
                if not dst_table or dst_table.primary_key != fk.dst_columns:
                    continue
                offset = pk''')
N("sampler.py", '''            self.table_offsets[(schema, table_name)] = {}
            table = self.meta''', '''            offsets: Dict[str, int] = {}
            self.table_offsets[(schema, table_name)] = offsets
            table = self.meta''', "sampler.py", "                self.table_offsets[(schema, table_name)][pk_col.name] = max_pk_val + 1", "                offsets[pk_col.name] = max_pk_val + 1")
N("sampler.py", '''                if offsets is not None:
                    for index, offset in offsets:
                        if out_row[index] is not None:
                            out_row[index] += offset
''', '''                if offsets is not None:
                    self._shift(out_row, offsets)
''', "sampler.py", '''    def create(self) -> None:
        """Create any missing tables in destination from the source schema"""
        source_meta''', '''    @staticmethod
    def _shift(row, offsets) -> None:
        for index, offset in offsets:
            if row[index] is not None:
                row[index] += offset

    def create(self) -> None:
        """Create any missing tables in destination from the source schema"""
        source_meta''')
N("sampler.py", '''        for source_table in toposort(shared_keys):
            for ref_table in shared_keys[source_table]:
                pk_max_values[source_table] = pk_max_values.get(ref_table)
                self.table_offsets[
                    self._remap_table(*parse_table_name(source_table))
                ].clear()
''', '''        for source_table in toposort(shared_keys):
            remapped = self._remap_table(*parse_table_name(source_table))
            for ref_table in shared_keys[source_table]:
                self.table_offsets[remapped].clear()
                pk_max_values[source_table] = pk_max_values.get(ref_table, None)
''')
N("sampler.py", '''                if (
                    dst_table is not None
                    and dst_table is not src_table
                    and fk.columns == src_table.primary_key
                    and fk.dst_columns == dst_table.primary_key
                ):
                    shared''', '''                if dst_table is None or dst_table is src_table:
                    continue
                if (
                    src_table.primary_key == fk.columns
                    and dst_table.primary_key == fk.dst_columns
                ):
                    shared''')
# C10
N("sampler.py", '''        conflict_strategy = self.conflict_strategy
        if self.merge and f"{src_schema}.{src_table_name}" in self.passthrough_tables:
            conflict_strategy = "skip"
''', '''        is_passthrough = f"{src_schema}.{src_table_name}" in self.passthrough_tables
        conflict_strategy: ConflictStrategy = (
            "skip" if self.merge and is_passthrough else self.conflict_strategy
        )
''')
N("sampler.py", '''        self.non_pk_columns = set(columns)

        if not self.table.primary_key:
            # We only attempt to do this if there is a primary key
            self.conflict_strategy = "error"
        else:
            for column in self.table.primary_key:
                self.non_pk_columns.discard(column.name)
            if self''', '''        pk_columns = {column.name for column in table.primary_key}
        self.non_pk_columns = {col for col in columns if col not in pk_columns}

        if not self.table.primary_key:
            # We only attempt to do this if there is a primary key
            self.conflict_strategy = "error"
        else:
            if self''')
N("sampler.py", '''        self.non_pk_columns = set(columns)

        if not self.table.primary_key:
            # We only attempt to do this if there is a primary key
            self.conflict_strategy = "error"
        else:
            for column in self.table.primary_key:
                self.non_pk_columns.discard(column.name)
            if self''', '''        self.non_pk_columns = set(columns) - {col.name for col in table.primary_key}

        if not self.table.primary_key:
            # We only attempt to do this if there is a primary key
            self.conflict_strategy = "error"
        else:
            if self''')
N("sampler.py", '''        stmt = postgresql.insert(self.table)
        if self.conflict_strategy == "replace":
            stmt = stmt.on_conflict_do_update(
                index_elements=self.table.primary_key,
                set_={col: stmt.excluded[col] for col in self.non_pk_columns},
            )
        if self.conflict_strategy == "skip":
            stmt = stmt.on_conflict_do_nothing()
        return compiler.process(stmt, **kwargs)
''', '''        return compiler.process(
            self._on_conflict(postgresql.insert(self.table)), **kwargs
        )

    def _on_conflict(self, stmt):
        if self.conflict_strategy == "replace":
            updates = {col: stmt.excluded[col] for col in self.non_pk_columns}
            return stmt.on_conflict_do_update(
                index_elements=self.table.primary_key, set_=updates
            )
        if self.conflict_strategy == "skip":
            return stmt.on_conflict_do_nothing()
        return stmt
''', "sampler.py", '''        stmt = sqlite.insert(self.table)
        if self.conflict_strategy == "replace":
            stmt = stmt.on_conflict_do_update(
                index_elements=self.table.primary_key,
                set_={col: stmt.excluded[col] for col in self.non_pk_columns},
            )
        if self.conflict_strategy == "skip":
            stmt = stmt.on_conflict_do_nothing()
        return compiler.process(stmt, **kwargs)
''', '''        return compiler.process(self._on_conflict(sqlite.insert(self.table)), **kwargs)
''')
N("sampler.py", '''        if self.conflict_strategy == "replace":
            raise RuntimeError(
                "'replace' conflict strategy is not supported for this dialect"
            )
        if self.conflict_strategy == "skip":
            raise RuntimeError(
                "'skip' conflict strategy is not supported for this dialect"
            )
''', '''        if self.conflict_strategy in ("replace", "skip"):
            raise RuntimeError(
                f"{self.conflict_strategy!r} conflict strategy is not supported for this dialect"
            )
''')
N("sampler.py", '''compiles(ConflictInsert, "sqlite")(ConflictInsert._insert_sqlite)
compiles(ConflictInsert, "postgresql")(ConflictInsert._insert_postgresql)
compiles(ConflictInsert, "mysql")(ConflictInsert._insert_mysql)
compiles(ConflictInsert)(ConflictInsert._insert_generic)
''', '''@compiles(ConflictInsert)
def _compile_generic(element, compiler, **kwargs):
    return element._insert_generic(compiler, **kwargs)


@compiles(ConflictInsert, "mysql")
def _compile_mysql(element, compiler, **kwargs):
    return element._insert_mysql(compiler, **kwargs)


@compiles(ConflictInsert, "postgresql")
def _compile_postgresql(element, compiler, **kwargs):
    return element._insert_postgresql(compiler, **kwargs)


@compiles(ConflictInsert, "sqlite")
def _compile_sqlite(element, compiler, **kwargs):
    return element._insert_sqlite(compiler, **kwargs)
''')

# C34
N("sampler.py", '''        name = "".join(ch for ch in name if ch.isascii() and ch.isalnum())[:40]
        if not name:
            name = "anon"
        # Table names are not case-sensitive in every dialect
        cnt = self.name_counts.get(name.lower(), 0)
        self.name_counts[name.lower()] = cnt + 1
        if cnt:
            return f"{self.NAME_PREFIX}{name}_{cnt}"
        return f"{self.NAME_PREFIX}{name}"
''', '''        letters = [ch for ch in name if ch.isalnum() and ch.isascii()]
        stem = "".join(letters[:40]) or "anon"
        key = stem.casefold()
        if key in self.name_counts:
            self.name_counts[key] += 1
            return self.NAME_PREFIX + stem + "_" + str(self.name_counts[key] - 1)
        self.name_counts[key] = 1
        return self.NAME_PREFIX + stem
''')
N("sampler.py", '''        name = "".join(ch for ch in name if ch.isascii() and ch.isalnum())[:40]
        if not name:
            name = "anon"
        # Table names are not case-sensitive in every dialect
        cnt = self.name_counts.get(name.lower(), 0)
        self.name_counts[name.lower()] = cnt + 1
        if cnt:
            return f"{self.NAME_PREFIX}{name}_{cnt}"
        return f"{self.NAME_PREFIX}{name}"
''', '''        name = re.sub("[^a-zA-Z0-9]", "", name)[:40].lower() or "anon"
        cnt = self.name_counts.setdefault(name, 0)
        self.name_counts[name] += 1
        suffix = f"_{cnt}" if cnt > 0 else ""
        return f"{self.NAME_PREFIX}{name}{suffix}"
''')
N("sampler.py", '''        name = "".join(ch for ch in name if ch.isascii() and ch.isalnum())[:40]
        if not name:
            name = "anon"
''', '''        cleaned = ""
        for ch in name:
            if not ch.isascii() or not ch.isalnum():
                continue
            cleaned += ch
        name = cleaned[:40]
        if not name:
            name = "anon"
''')
N("sampler.py", '''        self.name_counts: Dict[str, int] = {}
''', '''        self.name_counts: Dict[str, int] = collections.defaultdict(int)
''', "sampler.py", '''        cnt = self.name_counts.get(name.lower(), 0)
        self.name_counts[name.lower()] = cnt + 1
''', '''        key = name.lower()
        cnt = self.name_counts[key]
        self.name_counts[key] += 1
''')
N("sampler.py", '''            metadata.create_all(conn, checkfirst=False)
''', '''            table_obj.create(conn, checkfirst=False)
''')
N("sampler.py", '''            name = "anon"
        # Table names are not case-sensitive in every dialect
        cnt = self.name_counts.get(name.lower(), 0)
        self.name_counts[name.lower()] = cnt + 1
''', '''            name = "anon"
        cnt = self._next_count(name)
''', "sampler.py", '''    def _generate_name(self, name: str) -> str:
''', '''    def _next_count(self, name: str) -> int:
        folded = name.lower()
        if folded not in self.name_counts:
            self.name_counts[folded] = 0
        result = self.name_counts[folded]
        self.name_counts[folded] = result + 1
        return result

    def _generate_name(self, name: str) -> str:
''')

# C17, C18: planner
N(P, '''        foreign_keys = sorted(
            fk
            for fk in table.foreign_keys
            if (fk.dst_schema, fk.dst_table) in processed
        )
        rev_foreign_keys = sorted(
            fk
            for fk in table.rev_foreign_keys
            if (fk.dst_schema, fk.dst_table) in processed
        )
''', '''        def _usable(fks: List[ForeignKey]) -> List[ForeignKey]:
            return sorted(
                fk for fk in fks if (fk.dst_schema, fk.dst_table) in processed
            )

        foreign_keys = _usable(table.foreign_keys)
        rev_foreign_keys = _usable(table.rev_foreign_keys)
''')
N(P, '''        foreign_keys = sorted(
            fk
            for fk in table.foreign_keys
            if (fk.dst_schema, fk.dst_table) in processed
        )
''', '''        foreign_keys = []
        for fk in table.foreign_keys:
            if (fk.dst_schema, fk.dst_table) not in processed:
                continue
            foreign_keys.append(fk)
        foreign_keys.sort()
''')
N(P, '''            if target.all_:
                rev_foreign_keys.clear()
''', '''            if target.all_:
                rev_foreign_keys = []
''')
N(P, '''            if target.all_:
                target_constraints.clear()
            target_constraints.extend(conf_constraints_sql)
''', '''            target_constraints = conf_constraints_sql + (
                [] if target.all_ else target_constraints
            )
''')
N(P, '''            for column, in_list in target.in_.items():
                target_constraints.append(
                    SQLWhereClauseIn(
                        type_="in",
                        columns=[column],
                        values=[[value] for value in in_list],
                    )
                )
''', '''            target_constraints += [
                SQLWhereClauseIn(
                    type_="in",
                    columns=[column],
                    values=[[value] for value in in_list],
                )
                for column, in_list in target.in_.items()
            ]
''')
N(P, '''                target_constraints.extend(
                    SQLWhereClauseOperator(
                        type_="operator",
                        operator="like",
                        column=column,
                        value=pattern,
                    )
                    for pattern in patterns
                )
''', '''                for pattern in patterns:
                    target_constraints.append(
                        SQLWhereClauseOperator(
                            type_="operator",
                            operator="like",
                            column=column,
                            value=pattern,
                        )
                    )
''')
N(P, '''        # If targetted also calculate target constraint statement
        if target:
            target_constraints: List[SQLWhereClause] = []
            if target.percent is not None:
''', '''        # If targetted also calculate target constraint statement
        if target:
            target_constraints: List[SQLWhereClause] = []
            percent = target.percent
            if percent is not None:
''')
N(P, '''                        type_="random", threshold=target.percent / 100.0
''', '''                        type_="random", threshold=0.01 * target.percent
''')
N(P, '''                    joins_outer=not foreign_keys,
''', '''                    joins_outer=bool(rev_foreign_keys),
''')
N(P, '''                    limit=None if target.all_ else target.amount,
''', '''                    limit=target.amount if not target.all_ else None,
''')
N(P, '''        fk_joins = []
        for fk in foreign_keys or rev_foreign_keys:
            dst_table = self.meta.tables[(fk.dst_schema, fk.dst_table)]
            half_unique = _is_distinct(table.table_obj, fk.columns) or _is_distinct(
                dst_table.table_obj, fk.dst_columns
            )
            fk_joins.append(
                SQLLeftJoin(
                    right=SQLTableIdentifier(
                        table_schema=fk.dst_schema,
                        table_name=fk.dst_table,
                        sampled=True,
                    ),
                    left_columns=list(fk.columns),
                    right_columns=list(fk.dst_columns),
                    half_unique=half_unique,
                )
            )
''', '''        def _join(fk: ForeignKey) -> SQLLeftJoin:
            dst_table = self.meta.tables[(fk.dst_schema, fk.dst_table)]
            half_unique = _is_distinct(table.table_obj, fk.columns) or _is_distinct(
                dst_table.table_obj, fk.dst_columns
            )
            return SQLLeftJoin(
                right=SQLTableIdentifier(
                    table_schema=fk.dst_schema,
                    table_name=fk.dst_table,
                    sampled=True,
                ),
                left_columns=[*fk.columns],
                right_columns=[*fk.dst_columns],
                half_unique=half_unique,
            )

        fk_joins = [_join(fk) for fk in foreign_keys or rev_foreign_keys]
''')
N(P, '''        processed = set()
        for table in order:
            schema, table_name = parse_table_name(table)
            processed.add((schema, table_name))
            queries[table] = self._plan_table(
                self.meta.tables[(schema, table_name)],
                processed,
                target=self.config.targets.get(table),
            )
''', '''        processed = set()
        for full_name in order:
            key = parse_table_name(full_name)
            target = None
            if full_name in self.config.targets:
                target = self.config.targets[full_name]
            processed.add(key)
            queries[full_name] = self._plan_table(
                self.meta.tables[key], processed, target
            )
''')
N(P, '''        conf_constraints = self.config.table_constraints.get(
            f"{table.schema}.{table.name}", []
        )
        if conf_constraints and rev_foreign_keys:
            raise ValueError(
                f"Cannot apply table constraints to {table} without violating "
                "foreign key constraints of previously sampled tables",
            )
''', '''        full_name = ".".join((table.schema, table.name))
        conf_constraints = self.config.table_constraints.get(full_name) or []
        if rev_foreign_keys:
            if len(conf_constraints) > 0:
                raise ValueError(
                    f"Cannot apply table constraints to {table} without violating "
                    "foreign key constraints of previously sampled tables",
                )
''')
N(P, '''        graph[source] = set(self.config.targets)

        for target in self.config.targets:
            if target not in graph:
                raise ValueError(f"Cannot target unselected table {target}")
''', '''        for target in self.config.targets:
            if target not in graph:
                raise ValueError(f"Cannot target unselected table {target}")

        graph[source] = {target for target in self.config.targets}
''')
N(MD, '''                dst_table = self.tables.get((fk.dst_schema, fk.dst_table))
                if dst_table is None:
                    continue
''', '''                if (fk.dst_schema, fk.dst_table) not in self.tables:
                    continue
                dst_table = self.tables[(fk.dst_schema, fk.dst_table)]
''')
N(P, '''        statements: List[SQLStatementSelect] = []
''', '''        statements: List[SQLStatementSelect] = []
        has_keys = bool(foreign_keys) or bool(rev_foreign_keys)
''', P, '''        if foreign_keys or rev_foreign_keys:
            statements.append(''', '''        if has_keys:
            statements.append(''')
N(P, '''        order = self._solve_order()
        self.meta.compute_reverse_keys()
''', '''        self.meta.compute_reverse_keys()
        order = self._solve_order()
''')
# C30
N(P, '''            queries[f"{schema}.{table_name}"] = SQLTableQuery(
                statement=SQLStatementSelect(
                    type_="select",
                    from_=SQLTableIdentifier(
                        table_schema=schema,
                        table_name=table_name,
                    ),
                )
            )
''', '''            ident = SQLTableIdentifier(table_schema=schema, table_name=table_name)
            statement = SQLStatementSelect(type_="select", from_=ident)
            full_name = f"{schema}.{table_name}"
            queries[full_name] = SQLTableQuery(statement=statement)
''')
N(P, '''            passthrough=[
                f"{schema}.{table_name}"
                for schema, table_name in sorted(self.passthrough_tables)
            ],
''', '''            passthrough=passthrough,
''', P, '''        queries: Dict[str, SQLTableQuery] = {}
        for schema, table_name in sorted(self.passthrough_tables):
''', '''        passthrough = []
        queries: Dict[str, SQLTableQuery] = {}
        for schema, table_name in sorted(self.passthrough_tables):
            passthrough.append(f"{schema}.{table_name}")
''')
N(P, '''            for fk in table.foreign_keys:
                if (fk.dst_schema, fk.dst_table) in self.ignore_tables:
                    raise ValueError(
                        f"Foreign key from {table.schema!r}.{table.name!r} into"
                        f" ignored table {fk.dst_schema!r}.{fk.dst_table!r}"
                    )
''', '''            bad_fks = [
                fk
                for fk in table.foreign_keys
                if (fk.dst_schema, fk.dst_table) in self.ignore_tables
            ]
            if bad_fks:
                raise ValueError(
                    f"Foreign key from {table.schema!r}.{table.name!r} into"
                    f" ignored table {bad_fks[0].dst_schema!r}.{bad_fks[0].dst_table!r}"
                )
''')
N(P, '''            if (table.schema, table.name) in self.ignore_tables:
                continue
            for fk in table.foreign_keys:
                if (fk.dst_schema, fk.dst_table) in self.ignore_tables:
                    raise''', '''            ignored = (table.schema, table.name) in self.ignore_tables
            for fk in table.foreign_keys:
                dst = (fk.dst_schema, fk.dst_table)
                if not ignored and dst in self.ignore_tables:
                    raise''')
N(P, '''            for foreign_key in table.foreign_keys:
                if (
                    foreign_key.dst_schema,
                    foreign_key.dst_table,
                ) not in self.passthrough_tables:
                    raise''', '''            for foreign_key in table.foreign_keys:
                target = (foreign_key.dst_schema, foreign_key.dst_table)
                if target in self.passthrough_tables:
                    continue
                else:
                    raise''')
N(P, '''            table.foreign_keys = [
                fk
                for fk in table.foreign_keys
                if (fk.dst_schema, fk.dst_table) != (dst_schema, dst_table_name)
            ]
''', '''            table.foreign_keys = [
                fk
                for fk in table.foreign_keys
                if not (fk.dst_schema == dst_schema and fk.dst_table == dst_table_name)
            ]
''')
N(P, '''            table.foreign_keys = [
                fk
                for fk in table.foreign_keys
                if (fk.dst_schema, fk.dst_table) != (dst_schema, dst_table_name)
            ]
''', '''            kept = []
            for fk in table.foreign_keys:
                if fk.dst_schema == dst_schema and fk.dst_table == dst_table_name:
                    continue
                kept.append(fk)
            table.foreign_keys = kept
''')
N(P, '''            src_missing_cols = {
                col
                for col in extra_fk.src_columns
                if col not in table.table_obj.columns
            }
''', '''            src_missing_cols = [
                col
                for col in extra_fk.src_columns
                if col not in table.table_obj.columns
            ]
''')
N(P, '''        for index, extra_fk in enumerate(self.config.extra_fks):
''', '''        index = -1
        for extra_fk in self.config.extra_fks:
            index += 1
''')
N(P, '''        graph = self.meta.as_graph(
            ignore_tables=self.passthrough_tables | self.ignore_tables
        )
''', '''        excluded = self.passthrough_tables.union(self.ignore_tables)
        graph = self.meta.as_graph(ignore_tables=excluded)
''')
N(P, '''        for target in self.config.targets:
            if target not in graph:
                raise ValueError(f"Cannot target unselected table {target}")
''', '''        missing = [target for target in self.config.targets if target not in graph]
        if missing:
            raise ValueError(f"Cannot target unselected table {missing[0]}")
''')
N(P, '''        self._remove_ignore_fks()
        self._add_extra_fks()
        if self.config.include_dependencies:
            self._check_ignore_tables()
        self._check_passthrough_tables()
''', '''        self._adjust_fks()
''', P, '''    def _solve_order(self) -> List[str]:
''', '''    def _adjust_fks(self) -> None:
        self._remove_ignore_fks()
        self._add_extra_fks()
        self._check_passthrough_tables()
        if self.config.include_dependencies:
            self._check_ignore_tables()

    def _solve_order(self) -> List[str]:
''')
N(MD, '''        return {
            f"{table.schema}.{table.name}": {
                f"{fk.dst_schema}.{fk.dst_table}"
                for fk in table.foreign_keys
                if (fk.dst_schema, fk.dst_table) not in ignore_tables
                and (fk.dst_schema, fk.dst_table) in self.tables
            }
            for table in self.tables.values()
            if (table.schema, table.name) not in ignore_tables
        }
''', '''        graph: Dict[str, Set[str]] = {}
        for key, table in self.tables.items():
            if key in ignore_tables:
                continue
            edges = set()
            for fk in table.foreign_keys:
                dst = (fk.dst_schema, fk.dst_table)
                if dst in ignore_tables or dst not in self.tables:
                    continue
                edges.add(f"{fk.dst_schema}.{fk.dst_table}")
            graph[f"{table.schema}.{table.name}"] = edges
        return graph
''')
# C11
N("sampler.py", '''    curval = _autoincrement_get(engine, table)
    if curval is not None and curval > value:
        return

    with''', '''    curval = _autoincrement_get(engine, table)
    if (curval or 0) >= value > 0:
        return

    with''')
N("sampler.py", '''    curval = _autoincrement_get(engine, table)
    if curval is not None and curval > value:
        return

    with''', '''    position = _autoincrement_get(engine, table)
    if position is not None:
        value = max(value, position)

    with''')
N("sampler.py", '''                if autoinc_index != -1:
                    if autoinc_max_written is None:
                        autoinc_max_written = out_row[autoinc_index]
                    else:
                        autoinc_max_written = max(
                            autoinc_max_written, out_row[autoinc_index]
                        )
''', '''                if autoinc_index >= 0:
                    autoinc_max_written = _larger(autoinc_max_written, out_row[autoinc_index])
''', "sampler.py", '''def _multiply_column(''', '''def _larger(a, b):
    return b if a is None else max(a, b)


def _multiply_column(''')
N("sampler.py", '''                if autoinc_index != -1:
                    if autoinc_max_written is None:
                        autoinc_max_written = out_row[autoinc_index]
                    else:
                        autoinc_max_written = max(
                            autoinc_max_written, out_row[autoinc_index]
                        )
''', '''                if autoinc_index != -1:
                    autoinc_max_written = max(
                        out_row[autoinc_index]
                        if autoinc_max_written is None
                        else autoinc_max_written,
                        out_row[autoinc_index],
                    )
''')
N("sampler.py", '''        _autoincrement_update(self.engine, table.table_obj, autoinc_max_written)
''', '''        if autoinc_max_written is not None:
            _autoincrement_update(self.engine, table.table_obj, autoinc_max_written)
''')
N("sampler.py", '''    return engine.dialect.name == "postgresql"

''', '''    return engine.dialect.name not in ("mysql", "sqlite")

''')
N("sampler.py", '''    return engine.dialect.name == "postgresql"

''', '''    self_updating = {"mysql", "sqlite"}
    return engine.dialect.name not in self_updating

''')
# C29
N(M, '''        pk_map: Dict[Tuple[str, Tuple[str, ...]], Optional[TableMetadata]] = {}
        for table in self.tables.values():
            if not table.primary_key:
                continue

            map_key = _key_pk(table.schema, table.primary_key)
            if map_key in pk_map:
                LOGGER.info("Duplicate primary key columns found %r", table.primary_key)
                pk_map[map_key] = None
            else:
                pk_map[map_key] = table
''', '''        pk_map: Dict[Tuple[str, Tuple[str, ...]], Optional[TableMetadata]] = {}
        for candidate in self.tables.values():
            if len(candidate.primary_key) != 1:
                continue
            map_key = _key_pk(candidate.schema, candidate.primary_key)
            pk_map[map_key] = None if map_key in pk_map else candidate
''')
N(M, '''                dst_table = pk_map.get(_key_pk(table.schema, (col.name,)))
                if dst_table is not None and dst_table is not table:
                    fk = ForeignKey(
                        columns=(col.name,),
                        dst_schema=dst_table.schema,
                        dst_table=dst_table.name,
                        dst_columns=(col.name,),
                    )
                    if fk not in fks:
                        LOGGER.info(
                            "Inferring foreign key %s->%s on %r",
                            table,
                            dst_table,
                            fk.columns,
                        )
                        table.foreign_keys.append(fk)
''', '''                dst_table = pk_map.get(_key_pk(table.schema, (col.name,)))
                if dst_table is None or dst_table is table:
                    continue
                columns = (col.name,)
                fk = ForeignKey(
                    columns=columns,
                    dst_schema=dst_table.schema,
                    dst_table=dst_table.name,
                    dst_columns=columns,
                )
                if fk in fks:
                    continue
                fks.add(fk)
                table.foreign_keys.append(fk)
''')
N(M, '''            for col in table.table_obj.columns:
                dst_table = pk_map.get(_key_pk(table.schema, (col.name,)))
''', '''            for col in list(table.table_obj.columns):
                key = _key_pk(table.schema, (col.name,))
                dst_table = pk_map[key] if key in pk_map else None
''')
N(M, '''        pk_map: Dict[Tuple[str, Tuple[str, ...]], Optional[TableMetadata]] = {}
        for table in self.tables.values():
            if not table.primary_key:
                continue

            map_key = _key_pk(table.schema, table.primary_key)
            if map_key in pk_map:
                LOGGER.info("Duplicate primary key columns found %r", table.primary_key)
                pk_map[map_key] = None
            else:
                pk_map[map_key] = table
''', '''        by_key: Dict[Tuple[str, Tuple[str, ...]], List[TableMetadata]] = {}
        for table in self.tables.values():
            if table.primary_key:
                by_key.setdefault(_key_pk(table.schema, table.primary_key), []).append(
                    table
                )
        pk_map = {key: found[0] for key, found in by_key.items() if len(found) == 1}
''')
N(M, '''        def _key_pk(schema: str, pk: Tuple[str, ...]):
            if infer_all:
                return pk
            return (schema, pk)
''', '''        def _key_pk(schema: str, pk: Tuple[str, ...]):
            return ("" if infer_all else schema,) + pk
''')
N(M, '''                dst_table = pk_map.get(_key_pk(table.schema, (col.name,)))
                if dst_table is not None and dst_table is not table:
                    fk = ForeignKey(
                        columns=(col.name,),
                        dst_schema=dst_table.schema,
                        dst_table=dst_table.name,
                        dst_columns=(col.name,),
                    )
                    if fk not in fks:
''', '''                dst_table = pk_map.get(_key_pk(table.schema, (col.name,)))
                if dst_table is not None and dst_table is not table:
                    fk = dst_table.key_to_primary()
                    if fk not in fks:
''', M, '''    def __str__(self) -> str:
        return f"{self.schema}.{self.name}"
''', '''    def key_to_primary(self) -> ForeignKey:
        return ForeignKey(
            columns=self.primary_key,
            dst_schema=self.schema,
            dst_table=self.name,
            dst_columns=self.primary_key,
        )

    def __str__(self) -> str:
        return f"{self.schema}.{self.name}"
''')
# C26
N(MA, '''        except Exception as exc:  # pylint: disable=broad-exception-caught
            LOGGER.error(
                "%s: %s",
                type(exc).__name__,
                exc,
                exc_info=args.verbose > 1,
            )
            sys.exit(1)
''', '''        except Exception as exc:  # pylint: disable=broad-exception-caught
            _fail(args, "%s: %s", type(exc).__name__, exc)
''', MA, '''def main():
''', '''def _fail(args, message, *values):
    LOGGER.error(message, *values, exc_info=args.verbose > 1)
    sys.exit(1)


def main():
''')
N(MA, '''            if args.action == "plan":
                _main_plan(args)
            elif args.action == "sample":
                _main_sample(args)
            elif args.action == "subset":
                _main_subset(args)
            else:
                raise RuntimeError("Unknown action")
''', '''            actions = {
                "plan": _main_plan,
                "sample": _main_sample,
                "subset": _main_subset,
            }
            actions[args.action](args)
''')
N(MA, '''    with logging_redirect_tqdm():
        try:
            if args.action == "plan":
                _main_plan(args)
            elif args.action == "sample":
                _main_sample(args)
            elif args.action == "subset":
                _main_subset(args)
            else:
                raise RuntimeError("Unknown action")
        except''', '''    with logging_redirect_tqdm():
        try:
            _run_action(args)
        except''', MA, '''def main():
''', '''def _run_action(args):
    if args.action == "plan":
        _main_plan(args)
    elif args.action == "sample":
        _main_sample(args)
    elif args.action == "subset":
        _main_subset(args)
    else:
        raise RuntimeError("Unknown action")


def main():
''')
N(MA, '''                exc_info=args.verbose > 1,
            )
            sys.exit(1)


if __name__''', '''                exc_info=args.verbose > 1,
            )
            raise SystemExit(1) from exc


if __name__''')
N(MA, '''    except IOError as exc:
        LOGGER.error(
            "Could not write plan to output file %r: %s", args.plan_output, exc
        )
        sys.exit(1)
''', '''    except OSError as exc:
        error = f"Could not write plan to output file {args.plan_output!r}: {exc}"
        LOGGER.error(error)
        sys.exit(1)
''')
N(MA, '''    plan = Planner(config.source, config.planner).plan()
    try:
        ctx =''', '''    planner = Planner(config.source, config.planner)
    plan = planner.plan()
    try:
        ctx =''')
N(MA, '''        ctx = contextlib.nullcontext(sys.stdout)
        if args.plan_output:
            ctx = open(args.plan_output, "w", encoding="utf-8")
        with ctx as fplan:
            yaml.dump(
                plan.model_dump(exclude_unset=True, by_alias=True),
                stream=fplan,
                default_flow_style=False,
                width=2**20,
                sort_keys=True,
            )
''', '''        if args.plan_output:
            with open(args.plan_output, "w", encoding="utf-8") as fplan:
                _write_plan(plan, fplan)
        else:
            _write_plan(plan, sys.stdout)
''', MA, '''def _main_plan(args):
''', '''def _write_plan(plan, stream):
    data = plan.model_dump(exclude_unset=True, by_alias=True)
    yaml.dump(
        data,
        stream=stream,
        default_flow_style=False,
        width=2**20,
        sort_keys=True,
    )


def _main_plan(args):
''')
N(MA, '''        truncate=args.truncate,
        create=args.create,
    )


def main''', '''        **_sample_options(args),
    )


def _sample_options(args):
    return {"truncate": args.truncate, "create": args.create}


def main''')
N(MA, '''    Sampler(config.source, config.sampler).sample(
        plan,
        truncate=args.truncate,
        create=args.create,
    )


def main''', '''    _sample(config, plan, args)


def _sample(config, plan, args):
    sampler = Sampler(source=config.source, config=config.sampler)
    sampler.sample(plan, truncate=bool(args.truncate), create=bool(args.create))


def main''')
N(MA, '''        "--truncate",
        action="store_const",
        const=True,
        default=False,''', '''        "--truncate",
        action="store_true",''', MA, '''        "--create",
        action="store_const",
        const=True,
        default=False,''', '''        "--create",
        action="store_true",''')
N(MA, '''            yaml.dump(
                plan.model_dump(exclude_unset=True, by_alias=True),
                stream=fplan,
                default_flow_style=False,
                width=2**20,
                sort_keys=True,
            )
''', '''            fplan.write(
                yaml.dump(
                    plan.model_dump(exclude_unset=True, by_alias=True),
                    default_flow_style=False,
                    width=2**20,
                    sort_keys=True,
                )
            )
''')
N(MA, '''        ctx = contextlib.nullcontext(sys.stdout)
        if args.plan_output:
            ctx = open(args.plan_output, "w", encoding="utf-8")
        with ctx as fplan:''', '''        with contextlib.ExitStack() as stack:
            fplan = sys.stdout
            if args.plan_output:
                fplan = stack.enter_context(
                    open(args.plan_output, "w", encoding="utf-8")
                )''')
N(MA, '''    try:
        with _open_config_path(args.plan) as fplan:
            plan = SubsetPlan.model_validate(yaml.safe_load(fplan))
    except''', '''    try:
        plan = _load_plan(args.plan)
    except''', MA, '''def _main_sample(args):
''', '''def _load_plan(path):
    with _open_config_path(path) as fplan:
        data = yaml.safe_load(fplan)
    return SubsetPlan.model_validate(data)


def _main_sample(args):
''')
N(MA, '''    _add_plan_args(subset_parser, subset_action=True)
''', '', MA, '''def _add_plan_args(parser, *, subset_action: bool = False):
    if not subset_action:
        parser.add_argument(
            "-o",
            "--output",
            default=None,
            required=False,
            help="Output path for plan, writes to stdout by default",
            dest="plan_output",
        )
''', '''def _add_plan_args(parser):
    parser.add_argument(
        "-o",
        "--output",
        help="Output path for plan, writes to stdout by default",
        dest="plan_output",
    )
''')
DM = '''            result = dict(lhs)
            for key, val in rhs.items():
                if key in result:
                    result[key] = _dict_merge(result[key], val)
                else:
                    result[key] = val
            return result
'''
N(MA, DM, '''            result = {**lhs}
            for key in rhs:
                result[key] = _dict_merge(lhs[key], rhs[key]) if key in lhs else rhs[key]
            return result
''')
N(MA, DM, '''            return {
                **lhs,
                **{
                    key: _dict_merge(lhs[key], val) if key in lhs else val
                    for key, val in rhs.items()
                },
            }
''')
N(MA, DM, '''            result = lhs.copy()
            for key, val in rhs.items():
                result[key] = _dict_merge(result.get(key), val)
            return result
''')
N(MA, DM, '''            for key, val in rhs.items():
                lhs[key] = _dict_merge(lhs[key], val) if key in lhs else val
            return lhs
''')
N(MA, '''        if isinstance(lhs, dict) and isinstance(rhs, dict):
''' + DM + '''        return rhs
''', '''        if not (isinstance(lhs, dict) and isinstance(rhs, dict)):
            return rhs
        merged = {}
        for key in [*lhs, *(k for k in rhs if k not in lhs)]:
            if key not in rhs:
                merged[key] = lhs[key]
            elif key not in lhs:
                merged[key] = rhs[key]
            else:
                merged[key] = _dict_merge(lhs[key], rhs[key])
        return merged
''')
N(MA, '''    def _dict_merge(lhs, rhs):
        if isinstance(lhs, dict) and isinstance(rhs, dict):
            result = dict(lhs)
            for key, val in rhs.items():
                if key in result:
                    result[key] = _dict_merge(result[key], val)
                else:
                    result[key] = val
            return result
        return rhs

''', '', MA, '''def _get_config(args)''', '''def _dict_merge(lhs, rhs):
    if isinstance(lhs, dict) and isinstance(rhs, dict):
        result = dict(lhs)
        for key, val in rhs.items():
            if key in result and isinstance(val, dict):
                result[key] = _dict_merge(result[key], val)
            else:
                result[key] = val
        return result
    return rhs


def _get_config(args)''')
N(MA, '''    config_files = args.config
    if not config_files:
        config_files = ["subsetter.yaml"]
''', '''    config_files = args.config or ["subsetter.yaml"]
''')
N(MA, '''                with _open_config_path(config_file) as fconfig:
                    config_data = _dict_merge(config_data, yaml.safe_load(fconfig))
''', '''                with _open_config_path(config_file) as fconfig:
                    loaded = yaml.safe_load(fconfig)
                config_data = _dict_merge(config_data, loaded)
''')
N(MA, '''        config_data: Any = {}
        for config_file in config_files:
            try:
                with _open_config_path(config_file) as fconfig:
                    config_data = _dict_merge(config_data, yaml.safe_load(fconfig))
            except IOError as exc:
                LOGGER.error(
                    "Could not open subsetter config file %r: %s",
                    config_file,
                    exc,
                    exc_info=args.verbose > 1,
                )
                sys.exit(1)
''', '''        documents = [_load_config_file(args, path) for path in config_files]
        config_data = functools.reduce(_dict_merge, documents, {})
''', MA, '''def _get_config(args)''', '''def _load_config_file(args, path):
    try:
        with _open_config_path(path) as fconfig:
            return yaml.safe_load(fconfig)
    except IOError as exc:
        LOGGER.error(
            "Could not open subsetter config file %r: %s",
            path,
            exc,
            exc_info=args.verbose > 1,
        )
        sys.exit(1)


def _get_config(args)''', MA, '''import contextlib
''', '''import contextlib
import functools
''')
# keeping samples
N(S, '''            if (schema, table_name, 0) in meta.temp_tables:
                query_stmt = meta.temp_tables[(schema, table_name, 0)].select()
            else:
                query_stmt = query.build(build_ctx)
''', '''            sample = meta.temp_tables.get((schema, table_name, 0))
            if sample is None:
                query_stmt = query.build(build_ctx)
            else:
                query_stmt = sample.select()
''')
N(S, '''                if any(col in compact_cols for col in fk.dst_columns):
                    counter[key] = counter.get(key, 0) + 1
''', '''                if not compact_cols.isdisjoint(fk.dst_columns):
                    counter[key] = counter.get(key, 0) + 1
''')
N(S, '''                if any(col in compact_cols for col in fk.dst_columns):
                    counter[key] = counter.get(key, 0) + 1
''', '''                if compact_cols & set(fk.dst_columns):
                    counter[key] = counter.get(key, 0) + 1
''')
N(S, '''            counter: Dict[Tuple[str, str], int] = {}
            query.build''', '''            counter: Dict[Tuple[str, str], int] = collections.Counter()
            query.build''', S, '''                    counter[key] = counter.get(key, 0) + 1

            for''', '''                    counter[key] += 1

            for''', S, '''                counter[key] = counter.get(key, 0) + 1
            return''', '''                counter[key] += 1
            return''')
N(S, '''        return [
            (schema, table_name, max_ref_counts[(schema, table_name)])
            for schema, table_name in order
            if (schema, table_name) in max_ref_counts
        ]
''', '''        result = []
        for key in order:
            if key not in max_ref_counts:
                continue
            result.append((key[0], key[1], max_ref_counts[key]))
        return result
''')
N(S, '''        return [
            (schema, table_name, max_ref_counts[(schema, table_name)])
            for schema, table_name in order
            if (schema, table_name) in max_ref_counts
        ]
''', '''        return [key for key in order if key in max_ref_counts], max_ref_counts
''', S, '''        materialization_order = self._materialization_order(meta, plan)
        for schema, table_name, ref_count in materialization_order:
''', '''        order, ref_counts = self._materialization_order(meta, plan)
        for schema, table_name in order:
            ref_count = ref_counts[(schema, table_name)]
''', S, '''    ) -> List[Tuple[str, str, int]]:
        """
        Returns a list''', '''    ):
        """
        Returns a list''')
N(S, '''            meta.temp_tables[(schema, table_name, 0)], rowcount = (
                self.temp_tables.create(
                    conn,
                    schema,
                    table_q,
                    name=table_name,
                    primary_key=table.primary_key,
                    indexes=joined_columns[(schema, table_name)],
                )
            )
            self''', '''            create_temp = functools.partial(
                self.temp_tables.create,
                conn,
                schema,
                name=table_name,
                primary_key=table.primary_key,
                indexes=joined_columns[(schema, table_name)],
            )
            sample, rowcount = create_temp(table_q)
            meta.temp_tables[(schema, table_name, 0)] = sample
            self''', S, '''                meta.temp_tables[(schema, table_name, index)], _ = (
                    self.temp_tables.create(
                        conn,
                        schema,
                        meta.temp_tables[(schema, table_name, 0)].select(),
                        name=table_name,
                        primary_key=table.primary_key,
                        indexes=joined_columns[(schema, table_name)],
                    )
                )
''', '''                meta.temp_tables[(schema, table_name, index)], _ = create_temp(
                    sample.select()
                )
''')
N(S, '''            table_q = query.build(meta.sql_build_context())
            if (schema, table_name) in self.compact_columns:
                subq = table_q.subquery()
                table_q = sa.select(
                    (
                        sa.func.row_number(type_=sa.Integer).over(
                            order_by=[
                                subq.c[col.name] for col in table.table_obj.primary_key
                            ],
                        )
                        + self.config.compact.start_key
                        - 1
                    ).label(SUBSETTER_COMPACT_COLUMN),
                    subq,
                )
''', '''            table_q = query.build(meta.sql_build_context())
            if (schema, table_name) in self.compact_columns:
                subq = table_q.subquery()
                table_q = sa.select(
                    self._compacted_key(subq, table.table_obj).label(
                        SUBSETTER_COMPACT_COLUMN
                    ),
                    subq,
                )
''', S, '''    def _materialize_tables(
        self,''', '''    def _compacted_key(self, subq, table_obj: sa.Table):
        row_number = sa.func.row_number(type_=sa.Integer).over(
            order_by=[subq.c[col.name] for col in table_obj.primary_key],
        )
        return row_number + self.config.compact.start_key - 1

    def _materialize_tables(
        self,''', S, '''                id_col = subq.columns.get(
                    SUBSETTER_COMPACT_COLUMN,
                    sa.func.row_number(type_=sa.Integer).over(
                        order_by=[
                            subq.c[col.name] for col in src_table.table_obj.primary_key
                        ],
                    )
                    + self.config.compact.start_key
                    - 1,
                )
''', '''                id_col = subq.columns.get(
                    SUBSETTER_COMPACT_COLUMN,
                    self._compacted_key(subq, src_table.table_obj),
                )
''')
N(M, '''            if ident.sampled:
                if self.supports_temp_reopen:
                    index = 0
                else:
                    index = reference_count.get(
                        (ident.table_schema, ident.table_name), 0
                    )
                    reference_count[(ident.table_schema, ident.table_name)] = index + 1
                return self.temp_tables[(ident.table_schema, ident.table_name, index)]
            return self.tables[(ident.table_schema, ident.table_name)].table_obj
''', '''            key = (ident.table_schema, ident.table_name)
            if not ident.sampled:
                return self.tables[key].table_obj
            if self.supports_temp_reopen:
                return self.temp_tables[(*key, 0)]
            index = reference_count.get(key, 0)
            reference_count[key] = index + 1
            return self.temp_tables[(*key, index)]
''')
N(S, '''                        if dst_table in joined_tables:
                            dst_table = dst_table.alias()
                        else:
                            joined_tables.add(dst_table)
                        cols.append(
                            dst_table.columns[SUBSETTER_COMPACT_COLUMN].label(col.name)
                        )
''', '''                        # Tables joined more than once need a name of their own
                        if dst_table in joined_tables:
                            dst_table = dst_table.alias()
                        joined_tables.add(dst_table)
                        new_key = dst_table.columns[SUBSETTER_COMPACT_COLUMN]
                        cols.append(new_key.label(col.name))
''')
N(S, '''            compact_cols = self.compact_columns.get((schema, table_name), set())
            if remote_compact_cols or compact_cols:
                subq =''', '''            compact_cols = self.compact_columns.get((schema, table_name)) or ()
            if remote_compact_cols or compact_cols:
                subq =''')
N(S, '''            remote_compact_cols = {}
            for fk in src_table.foreign_keys:
                for src_col, dst_col in zip(fk.columns, fk.dst_columns):
                    if dst_col in self.compact_columns.get(
                        (fk.dst_schema, fk.dst_table), set()
                    ):
                        remote_compact_cols[src_col] = fk
''', '''            remote_compact_cols = self._remote_compact_columns(src_table)
''', S, '''    def _validate_filters(self''', '''    def _remote_compact_columns(self, table):
        return {
            src_col: fk
            for fk in table.foreign_keys
            for src_col, dst_col in zip(fk.columns, fk.dst_columns)
            if dst_col
            in self.compact_columns.get((fk.dst_schema, fk.dst_table), set())
        }

    def _validate_filters(self''')
# compaction
N(S, '''            if (schema, table_name) in self.compact_columns:
                subq = table_q.subquery()
                table_q = sa.select(
                    (
                        sa.func.row_number(type_=sa.Integer).over(
                            order_by=[
                                subq.c[col.name] for col in table.table_obj.primary_key
                            ],
                        )
                        + self.config.compact.start_key
                        - 1
                    ).label(SUBSETTER_COMPACT_COLUMN),
                    subq,
                )
''', '''            if (schema, table_name) in self.compact_columns:
                numbered = table_q.subquery()
                first_key = self.config.compact.start_key
                key_order = [numbered.c[col.name] for col in table.table_obj.primary_key]
                row_number = sa.func.row_number(type_=sa.Integer).over(order_by=key_order)
                table_q = sa.select(
                    (row_number + (first_key - 1)).label(SUBSETTER_COMPACT_COLUMN),
                    numbered,
                )
''')
N(S, '''            if not issubclass(col.type.python_type, int):  # type: ignore
                continue

            if (
                self.config.compact.primary_keys
                or table_meta.table_obj.autoincrement_column is not None
            ):
                compact_columns.setdefault(table_key, set()).add(col.name)
''', '''            if issubclass(col.type.python_type, int):  # type: ignore
                generated = table_meta.table_obj.autoincrement_column is not None
                if generated or self.config.compact.primary_keys:
                    if table_key not in compact_columns:
                        compact_columns[table_key] = set()
                    compact_columns[table_key].add(col.name)
''')
N(S, '''        for table_key, table_meta in meta.tables.items():
            if (
                not self.config.compact.primary_keys
                and not self.config.compact.auto_increment_keys
            ):
                break
            if len(table_meta.primary_key) != 1:
                continue
            if f"{table_key[0]}.{table_key[1]}" in self.passthrough_tables:
                continue
''', '''        compact = self.config.compact
        automatic = compact.primary_keys or compact.auto_increment_keys
        for (schema, name), table_meta in meta.tables.items() if automatic else ():
            table_key = (schema, name)
            if len(table_meta.primary_key) != 1 or f"{schema}.{name}" in self.passthrough_tables:
                continue
''')
N(S, '''        for table_key, table_meta in meta.tables.items():
            table_compact_cols = compact_columns.get(table_key, set())
            for fk in table_meta.foreign_keys:
                for col_name in fk.columns:
                    if col_name in table_compact_cols:
                        raise ValueError(
                            f"Cannot compact column {table_key[0]}.{table_key[1]}.{col_name} within foreign key"
                        )
''', '''        for (schema, name), table_meta in meta.tables.items():
            compacted = compact_columns.get((schema, name))
            if not compacted:
                continue
            for fk in table_meta.foreign_keys:
                clash = [col_name for col_name in fk.columns if col_name in compacted]
                if clash:
                    raise ValueError(
                        f"Cannot compact column {schema}.{name}.{clash[0]} within foreign key"
                    )
''')
N(S, '''        for table_key, table_meta in meta.tables.items():
            table_compact_cols = compact_columns.get(table_key, set())
            for fk in table_meta.foreign_keys:
                for col_name in fk.columns:
                    if col_name in table_compact_cols:
                        raise ValueError(
                            f"Cannot compact column {table_key[0]}.{table_key[1]}.{col_name} within foreign key"
                        )

        return compact_columns
''', '''        self._check_compact_columns(meta, compact_columns)
        return compact_columns

    @staticmethod
    def _check_compact_columns(meta, compact_columns) -> None:
        for table_key, cols in compact_columns.items():
            for fk in meta.tables[table_key].foreign_keys:
                for col_name in cols & set(fk.columns):
                    raise ValueError(
                        f"Cannot compact column {table_key[0]}.{table_key[1]}.{col_name} within foreign key"
                    )
''')
N(S, '''                        select_from = sa.join(
                            select_from,
                            dst_table,
                            sa.and_(
                                *(
                                    subq.columns[src_col] == dst_table.columns[dst_col]
                                    for src_col, dst_col in zip(
                                        fk.columns, fk.dst_columns
                                    )
                                )
                            ),
                            isouter=True,
                        )
''', '''                        matches = [
                            dst_table.columns[theirs] == subq.columns[ours]
                            for ours, theirs in zip(fk.columns, fk.dst_columns)
                        ]
                        select_from = select_from.outerjoin(
                            dst_table, sa.and_(*matches)
                        )
''')
N(S, '''                    if col.name in compact_cols:
                        cols.append(id_col.label(col.name))
                    elif col.name in remote_compact_cols:
                        fk = remote_compact_cols[col.name]
''', '''                    if col.name in compact_cols:
                        cols.append(id_col.label(col.name))
                        continue
                    fk = remote_compact_cols.get(col.name)
                    if fk is not None:
''')
N(S, '''                    if col.name in compact_cols:
                        cols.append(id_col.label(col.name))
                    elif col.name in remote_compact_cols:
''', '''                    if col.name not in compact_cols and col.name not in remote_compact_cols:
                        cols.append(subq.columns[col.name])
                    elif col.name in compact_cols:
                        cols.append(id_col.label(col.name))
                    else:
''', S, '''                            isouter=True,
                        )
                    else:
                        cols.append(subq.columns[col.name])
''', '''                            isouter=True,
                        )
''')
N(S, '''        for table, cols in self.config.compact.columns.items():
            if not cols:
                continue
            table_key = parse_table_name(table)
            if table_key not in meta.tables:
                LOGGER.warning(
                    "Table %s has columns configured for compaction but is not found",
                    table,
                )
            elif table in self.passthrough_tables:
                LOGGER.warning(
                    "Cannot compact columns on passthrough table %s",
                    table,
                )
            else:
                compact_columns[table_key] = set(cols)
''', '''        for table in self.config.compact.columns:
            cols = self.config.compact.columns[table]
            key = parse_table_name(table)
            if cols and key in meta.tables and table not in self.passthrough_tables:
                compact_columns[key] = {col for col in cols}
            elif cols and key in meta.tables:
                LOGGER.warning("Cannot compact columns on passthrough table %s", table)
            elif cols:
                LOGGER.warning(
                    "Table %s has columns configured for compaction but is not found", table
                )
''')
# renaming
N(S, '''            remapped_table = ".".join(self._remap_table(*parse_table_name(table)))
            if self.table_remap.setdefault(remapped_table, table) != table:
                raise ValueError(
                    f"Multiple tables remapped to the same name {remapped_table}"
                )
''', '''            new_schema, new_name = self._remap_table(*parse_table_name(table))
            new_table = f"{new_schema}.{new_name}"
            if new_table in self.table_remap:
                raise ValueError(
                    f"Multiple tables remapped to the same name {new_table}"
                )
            self.table_remap[new_table] = table
''')
N(S, '''        table = f"{schema}.{table_name}"
        for remap_pattern in self.remap:
            table = re.sub(remap_pattern.search, remap_pattern.replace, table)
        return parse_table_name(table)''', '''        return parse_table_name(self._apply_remap(".".join((schema, table_name))))

    def _apply_remap(self, full_name: str) -> str:
        for pattern in self.remap:
            full_name = re.compile(pattern.search).sub(pattern.replace, full_name)
        return full_name''')
N(S, '''        for remap_pattern in self.remap:
            table = re.sub(remap_pattern.search, remap_pattern.replace, table)
        return''', '''        for rule in self.remap:
            renamed = re.sub(rule.search, rule.replace, table)
            if renamed != table:
                LOGGER.debug("Renamed %s to %s", table, renamed)
            table = renamed
        return''')
N(S, '''            remapped_table = self.table_remap.get(table)
            if remapped_table:
                result.append(remapped_table)
        return result''', '''            if table in self.table_remap:
                result.append(self.table_remap[table])
        return result''')
N(S, '''        result = []
        insert_order_mapped = [str(table) for table in self.meta.toposort()]
        missing_tables = sorted(set(self.table_remap) - set(insert_order_mapped))
        if missing_tables:
            raise ValueError(f"Destination is missing expected tables {missing_tables}")
        for table in insert_order_mapped:
            remapped_table = self.table_remap.get(table)
            if remapped_table:
                result.append(remapped_table)
        return result''', '''        order = [str(table) for table in self.meta.toposort()]
        missing_tables = sorted(name for name in self.table_remap if name not in order)
        if missing_tables:
            raise ValueError(f"Destination is missing expected tables {missing_tables}")
        return [self.table_remap[name] for name in order if name in self.table_remap]''')
N(S, '''        (src_schema, src_table_name) = (schema, table_name)
        schema, table_name = self._remap_table(src_schema, src_table_name)
        table = self.meta.tables[(schema, table_name)]
''', '''        src_name = f"{schema}.{table_name}"
        dst_key = self._remap_table(schema, table_name)
        schema, table_name = dst_key
        table = self.meta.tables[dst_key]
''', S, '''        if self.merge and f"{src_schema}.{src_table_name}" in self.passthrough_tables:''', '''        if self.merge and src_name in self.passthrough_tables:''', S, "self.table_offsets.get((schema, table_name)):", "self.table_offsets.get(dst_key):")

# C31
N(S, '''            for constraint in table_obj.constraints:
                if isinstance(constraint, sa.UniqueConstraint):
                    remapped_table_obj.append_constraint(
                        sa.UniqueConstraint(*_remap_cols(constraint.columns))
                    )
                if isinstance(constraint, sa.CheckConstraint):
                    remapped_table_obj.append_constraint(
                        sa.CheckConstraint(constraint.sqltext)
                    )
                if isinstance(constraint, sa.ForeignKeyConstraint):
''', '''            for constraint in table_obj.constraints:
                if isinstance(constraint, sa.UniqueConstraint):
                    copied = sa.UniqueConstraint(*_remap_cols(constraint.columns))
                    remapped_table_obj.append_constraint(copied)
                elif isinstance(constraint, sa.CheckConstraint):
                    copied_check = sa.CheckConstraint(
                        constraint.sqltext, name=constraint.name
                    )
                    remapped_table_obj.append_constraint(copied_check)
                elif isinstance(constraint, sa.ForeignKeyConstraint):
''')
N(S, '''            for constraint in table_obj.constraints:
                if isinstance(constraint, sa.UniqueConstraint):
                    remapped_table_obj.append_constraint(
                        sa.UniqueConstraint(*_remap_cols(constraint.columns))
                    )
''', '''            for constraint in table_obj.constraints:
                if isinstance(constraint, sa.UniqueConstraint):
                    remapped_table_obj.append_constraint(
                        sa.UniqueConstraint(
                            *(
                                remapped_table_obj.columns[col.name]
                                for col in constraint.columns
                            )
                        )
                    )
''')
N(S, '''            for constraint in table_obj.constraints:
                if isinstance(constraint, sa.UniqueConstraint):
                    remapped_table_obj.append_constraint(
                        sa.UniqueConstraint(*_remap_cols(constraint.columns))
                    )
''', '''            for constraint in table_obj.constraints:
                if isinstance(constraint, sa.UniqueConstraint):
                    remapped_table_obj.append_constraint(
                        sa.UniqueConstraint(*[col.name for col in constraint.columns])
                    )
''')
N(S, '''                    ref_table = constraint.referred_table
                    if f"{ref_table.schema}.{ref_table.name}" not in table_obj_map:
                        # The referenced table is not part of the sample
                        continue
                    fk_cols = _remap_cols(elem.column for elem in constraint.elements)
                    remapped_table_obj.append_constraint(
                        sa.ForeignKeyConstraint(
                            _remap_cols(constraint.columns),
                            fk_cols,
                            name=constraint.name,
                            use_alter=True,
                        )
                    )
''', '''                    ref_table = constraint.referred_table
                    ref_name = f"{ref_table.schema}.{ref_table.name}"
                    if ref_name in table_obj_map:
                        ref_obj = table_obj_map[ref_name]
                        remapped_table_obj.append_constraint(
                            sa.ForeignKeyConstraint(
                                [
                                    remapped_table_obj.columns[elem.parent.name]
                                    for elem in constraint.elements
                                ],
                                [
                                    ref_obj.columns[elem.column.name]
                                    for elem in constraint.elements
                                ],
                                name=constraint.name,
                                use_alter=True,
                            )
                        )
''')
N(S, '''        for remapped_table, table in self.table_remap.items():
            remap_schema, remap_table = parse_table_name(remapped_table)

            if (remap_schema, remap_table) in self.meta.tables:
                table_obj_map[table] = self.meta.tables[
                    (remap_schema, remap_table)
                ].table_obj
                continue

            table_obj =''', '''        for remapped_table, table in self.table_remap.items():
            remap_schema, remap_table = parse_table_name(remapped_table)

            existing = self.meta.tables.get((remap_schema, remap_table))
            if existing is not None:
                table_obj_map[table] = existing.table_obj
                continue

            table_obj =''')
N(S, '''            table_obj_map[table] = sa.Table(
                remap_table,
                metadata_obj,
                *(
                    sa.Column(
                        col.name,
                        col.type,
                        nullable=col.nullable,
                        primary_key=col.primary_key,
                    )
                    for col in table_obj.columns
                ),
                schema=remap_schema,
            )
''', '''            columns = []
            for col in table_obj.columns:
                columns.append(
                    sa.Column(
                        col.name,
                        col.type,
                        nullable=bool(col.nullable),
                        primary_key=col.primary_key,
                        comment=col.comment,
                    )
                )
            table_obj_map[table] = sa.Table(
                remap_table, metadata_obj, *columns, schema=remap_schema
            )
''')
N(S, '''            for index_idx, index in enumerate(table_obj.indexes):
                if any(isinstance(expr, sa.TextClause) for expr in index.expressions):
                    # An index of the remaining columns alone would not be
                    # equivalent and, if unique, could reject sampled rows
                    LOGGER.warning(
                        "Not creating index %s of %s, it indexes expressions",
                        index.name,
                        table,
                    )
                    continue
''', '''            for index_idx, index in enumerate(table_obj.indexes):
                text_exprs = [
                    expr
                    for expr in index.expressions
                    if isinstance(expr, sa.TextClause)
                ]
                if len(text_exprs) > 0:
                    continue
''')
N(S, '''                conditions = {
                    key
                    for key, value in index.dialect_kwargs.items()
                    if key.endswith("_where") and value is not None
                }
                if conditions - {f"{self.engine.dialect.name}_where"}:
''', '''                own = f"{self.engine.dialect.name}_where"
                if any(
                    key.endswith("_where") and value is not None and key != own
                    for key, value in index.dialect_kwargs.items()
                ):
''')
N(S, '''                    *(
                        (
                            remapped_table_obj.columns[col.name]
                            if isinstance(col, sa.Column)
                            else col
                        )
                        for col in index.columns
                    ),
                    unique=index.unique,
                    dialect_options=index.dialect_options,
''', '''                    *[remapped_table_obj.c[col.name] for col in index.columns],
                    unique=index.unique,
''')
N(S, '''                index_name = f"idx_subsetter_{remapped_table_obj.name}_{index_idx}"
                if len(index_name.encode()) > MAX_INDEX_NAME_BYTES:
                    name_hash = hashlib.sha256(remapped_table_obj.name.encode())
                    index_name = (
                        f"idx_subsetter_{name_hash.hexdigest()[:32]}_{index_idx}"
                    )
                sa.Index(
                    index_name,
''', '''                sa.Index(
                    self._index_name(remapped_table_obj.name, index_idx),
''', S, '''    def create(self) -> None:
        """Create any missing tables in''', '''    @staticmethod
    def _index_name(table_name: str, index_idx: int) -> str:
        index_name = f"idx_subsetter_{table_name}_{index_idx}"
        if len(index_name.encode()) <= MAX_INDEX_NAME_BYTES:
            return index_name
        digest = hashlib.sha256(table_name.encode()).hexdigest()[:32]
        return f"idx_subsetter_{digest}_{index_idx}"

    def create(self) -> None:
        """Create any missing tables in''')
N(S, '''        for table, remapped_table_obj in table_obj_map.items():
            if remapped_table_obj not in tables_created:
                continue

            table_obj = source_meta.tables[parse_table_name(table)].table_obj
            for constraint in table_obj.constraints:''', '''        for table, remapped_table_obj in table_obj_map.items():
            if remapped_table_obj not in tables_created:
                continue

            table_obj = source_meta.tables[parse_table_name(table)].table_obj
            for constraint in sorted(
                table_obj.constraints, key=lambda constraint: str(constraint.name)
            ):''')
N(S, '''            if remapped_table_obj not in tables_created:
                continue

            table_obj = source_meta.tables[parse_table_name(table)].table_obj
            for constraint in table_obj.constraints:
                if isinstance(constraint, sa.UniqueConstraint):
                    remapped_table_obj.append_constraint(
                        sa.UniqueConstraint(*_remap_cols(constraint.columns))
                    )
                if isinstance(constraint, sa.CheckConstraint):
                    remapped_table_obj.append_constraint(
                        sa.CheckConstraint(constraint.sqltext)
                    )
                if isinstance(constraint, sa.ForeignKeyConstraint):
                    ref_table = constraint.referred_table
                    if f"{ref_table.schema}.{ref_table.name}" not in table_obj_map:
                        # The referenced table is not part of the sample
                        continue
                    fk_cols = _remap_cols(elem.column for elem in constraint.elements)
                    remapped_table_obj.append_constraint(
                        sa.ForeignKeyConstraint(
                            _remap_cols(constraint.columns),
                            fk_cols,
                            name=constraint.name,
                            use_alter=True,
                        )
                    )
''', '''            if remapped_table_obj not in tables_created:
                continue

            table_obj = source_meta.tables[parse_table_name(table)].table_obj
            for constraint in table_obj.constraints:
                if isinstance(constraint, sa.UniqueConstraint):
                    remapped_table_obj.append_constraint(
                        sa.UniqueConstraint(*_remap_cols(constraint.columns))
                    )
                if isinstance(constraint, sa.CheckConstraint):
                    remapped_table_obj.append_constraint(
                        sa.CheckConstraint(constraint.sqltext)
                    )
            for fk in table_obj.foreign_key_constraints:
                ref_table = fk.referred_table
                if f"{ref_table.schema}.{ref_table.name}" not in table_obj_map:
                    continue
                remapped_table_obj.append_constraint(
                    sa.ForeignKeyConstraint(
                        _remap_cols(fk.columns),
                        _remap_cols([elem.column for elem in fk.elements]),
                        name=fk.name,
                        use_alter=True,
                    )
                )
''')

# C05
N(C, '''        engine = sa.create_engine(
            url,
''', '''        LOGGER.debug("Connecting to %s as %s", url, url.username)
        engine = sa.create_engine(
            url,
''')
N(C, '''        url = self.database_url(env_prefix=env_prefix)
''', '''        LOGGER.debug("Connecting to %s:%s, echo %s", self.host, self.port, self.echo)
        if self.password is None:
            LOGGER.debug("No password configured")
        url = self.database_url(env_prefix=env_prefix)
''')
N(S, '''        if buffer:
            _flush_buffer()
''', '''        if buffer:
            LOGGER.debug("Writing last %d rows of %s", len(buffer), table)
            _flush_buffer()
''')
N(S, '''        self.source_engine = source.database_engine(env_prefix="SUBSET_SOURCE_")
''', '''        self.source_engine = source.database_engine(env_prefix="SUBSET_SOURCE_")
        LOGGER.debug("Sampling from %s", self.source_engine.url)
''')
N(MA, '''    except ValueError as exc:
        LOGGER.error(
            "Unexpected subsetter config file format: %s",
            exc,
            exc_info=args.verbose > 1,
        )
        sys.exit(1)
''', '''    except ValueError as exc:
        message = f"Unexpected subsetter config file format: {exc}"
        LOGGER.error(message, exc_info=args.verbose > 1)
        sys.exit(1)
''')
N(CM, '''class ForbidBaseModel(BaseModel):
    # Input values may contain passwords, they must not appear in error messages
    model_config = ConfigDict(extra="forbid", hide_input_in_errors=True)
''', '''class ForbidBaseModel(BaseModel, extra="forbid", hide_input_in_errors=True):
    pass
''')
N(CM, '''    model_config = ConfigDict(extra="forbid", hide_input_in_errors=True)
''', '''    model_config = {"extra": "forbid", "hide_input_in_errors": True}
''')
N(MA, '''    if args.verbose > 2:
''', '''    LOGGER.debug("Sections %s", sorted(config.model_fields_set))
    if args.verbose > 2:
''')
N(CM, "    class CompactConfig(ForbidBaseModel):\n", '''    class CompactConfig(BaseModel):
        model_config = ConfigDict(extra="forbid", hide_input_in_errors=True)

''')
N(C, '''        if self.isolation_level:
            isolation_level = self.isolation_level
        elif dialect == "sqlite":
            isolation_level = "SERIALIZABLE"
        else:
            isolation_level = "READ COMMITTED"
''', '''        default_level = "SERIALIZABLE" if dialect == "sqlite" else "READ COMMITTED"
        isolation_level = getattr(self, "isolation_level") or default_level
''')
N(P, '''        foreign_keys = sorted(
            fk
            for fk in table.foreign_keys
            if (fk.dst_schema, fk.dst_table) in processed
        )
''', '''        foreign_keys = [
            fk
            for fk in table.foreign_keys
            if (fk.dst_schema, fk.dst_table) in processed
        ]
        foreign_keys.sort()
''')
N(P, '''        rev_foreign_keys = sorted(
            fk
            for fk in table.rev_foreign_keys
            if (fk.dst_schema, fk.dst_table) in processed
        )
''', '''        rev_foreign_keys = sorted(
            (
                fk
                for fk in set(table.rev_foreign_keys)
                if (fk.dst_schema, fk.dst_table) in processed
            ),
            key=lambda fk: (fk.columns, fk.dst_schema, fk.dst_table, fk.dst_columns),
        )
''')
N("solver.py", '''    return [
        x[0] for x in sorted(weight.items(), key=lambda x: (x[1], x[0]), reverse=True)
    ]
''', '''    by_name = sorted(weight, reverse=True)
    by_name.sort(key=lambda u: weight[u], reverse=True)
    return by_name
''')
N(P, '''        for schema, table_name in sorted(self.passthrough_tables):
            queries''', '''        passthrough = list(self.passthrough_tables)
        passthrough.sort(key=lambda key: key)
        for schema, table_name in passthrough:
            queries''')
N(S, "                changes = changes or len(cols) > start_len\n", "                changes |= len(cols) > start_len\n")
N(S, "                changes = changes or len(cols) > start_len\n", "                if len(cols) > start_len:\n                    changes = True\n")
N(S, "                start_len = len(cols)\n                for fk in table.foreign_keys:\n                    dst_mapped", "                for fk in table.foreign_keys:\n                    before = len(cols)\n                    dst_mapped", S, "                if cols and table_name in ignore_tables:\n                    raise", "                    changes = changes or len(cols) > before\n                if cols and table_name in ignore_tables:\n                    raise", S, "                changes = changes or len(cols) > start_len\n", "")
N(PM, '''        for statement in simp_statements:
            if statement.from_ != statement0.from_:
                break
            if statement.columns != statement0.columns:
                break
            if statement.limit is not None:
                break
            if statement.joins:
                break
''', '''        for statement in simp_statements[1:]:
            if statement0.limit is not None or statement0.joins:
                break
            if statement.from_ != statement0.from_:
                break
            if statement.columns != statement0.columns:
                break
            if statement.limit is not None:
                break
            if statement.joins:
                break
''')
N(PM, '''        for statement in simp_statements:
            if statement.from_ != statement0.from_:
                break
            if statement.columns != statement0.columns:
                break
            if statement.limit is not None:
                break
            if statement.joins:
                break
        else:
''', '''        if (
            statement0.limit is None
            and not statement0.joins
            and all(
                statement.from_ == statement0.from_
                and statement.columns == statement0.columns
                and statement.limit is None
                and not statement.joins
                for statement in simp_statements[1:]
            )
        ):
''')
N(MA, '            "Could not write plan to output file %r: %s", args.plan_output, exc\n        )\n        sys.exit(1)\n', '            "Could not write plan to output file %r: %s", args.plan_output, exc\n        )\n        if isinstance(exc, FileNotFoundError):\n            LOGGER.error("No such directory")\n        sys.exit(1)\n')
