"""Edits that keep the behaviour: a seventh set, the sampler and the planner."""

# --- TempTableCreator, ConflictInsert
N(S, '''        cnt = self.name_counts.get(name.lower(), 0)
        self.name_counts[name.lower()] = cnt + 1
        if cnt:
            return f"{self.NAME_PREFIX}{name}_{cnt}"
        return f"{self.NAME_PREFIX}{name}"
''', '''        key = name.lower()
        if key not in self.name_counts:
            self.name_counts[key] = 1
            return self.NAME_PREFIX + name
        cnt = self.name_counts[key]
        self.name_counts[key] += 1
        return "{}{}_{}".format(self.NAME_PREFIX, name, cnt)
''')
N(S, '''        temp_schema: Optional[str] = schema
        if dialect.name in ("postgresql", "sqlite"):
            temp_schema = None
''', '''        implicit_schema = {"postgresql", "sqlite"}
        temp_schema: Optional[str] = (
            None if dialect.name in implicit_schema else schema
        )
''')
N(S, '''        for idx, index_cols in enumerate(indexes):
            if index_cols == primary_key:
                continue
            # For some dialects/data types we may not be able to construct an index. We just do our
            # best here instead of hard failing.
            try:
                sa.Index(
                    f"{temp_name}_idx_{idx}",
                    *(table_obj.columns[col_name] for col_name in index_cols),
                ).create(bind=conn)
            except sa.exc.OperationalError:
                LOGGER.warning(
                    "Failed to create index %s on temporary table %s",
                    index_cols,
                    temp_name,
                    exc_info=True,
                )

        # Copy''', '''        self._create_indexes(conn, table_obj, primary_key, indexes)

        # Copy''', S, '''        return table_obj, result.rowcount

''', '''        return table_obj, result.rowcount

    @staticmethod
    def _create_indexes(conn, table_obj, primary_key, indexes) -> None:
        wanted = [cols for cols in indexes if cols != primary_key]
        for idx, index_cols in enumerate(wanted):
            index = sa.Index(
                f"{table_obj.name}_idx_{idx}",
                *[table_obj.columns[col_name] for col_name in index_cols],
            )
            try:
                index.create(bind=conn)
            except sa.exc.OperationalError:
                LOGGER.warning(
                    "Failed to create index %s on temporary table %s",
                    index_cols,
                    table_obj.name,
                    exc_info=True,
                )

''')
N(S, '''        self.non_pk_columns = set(columns)

        if not self.table.primary_key:
            # We only attempt to do this if there is a primary key
            self.conflict_strategy = "error"
        else:
            for column in self.table.primary_key:
                self.non_pk_columns.discard(column.name)
            if self.conflict_strategy == "replace" and not self.non_pk_columns:
                # If there are no other columns outside of the primary key the replace
                # strategy is meaningless and we should just skip.
                self.conflict_strategy = "skip"
''', '''        pk_columns = {column.name for column in table.primary_key}
        self.non_pk_columns = set(columns) - pk_columns

        if not pk_columns:
            # We only attempt to do this if there is a primary key
            self.conflict_strategy = "error"
            return
        if conflict_strategy == "replace" and len(self.non_pk_columns) == 0:
            # If there are no other columns outside of the primary key the replace
            # strategy is meaningless and we should just skip.
            self.conflict_strategy = "skip"
''')
N(S, '''    def _insert_postgresql(self, compiler: SQLCompiler, **kwargs) -> str:
        stmt = postgresql.insert(self.table)
        if self.conflict_strategy == "replace":
            stmt = stmt.on_conflict_do_update(
                index_elements=self.table.primary_key,
                set_={col: stmt.excluded[col] for col in self.non_pk_columns},
            )
        if self.conflict_strategy == "skip":
            stmt = stmt.on_conflict_do_nothing()
        return compiler.process(stmt, **kwargs)

    def _insert_sqlite(self, compiler: SQLCompiler, **kwargs) -> str:
        stmt = sqlite.insert(self.table)
        if self.conflict_strategy == "replace":
            stmt = stmt.on_conflict_do_update(
                index_elements=self.table.primary_key,
                set_={col: stmt.excluded[col] for col in self.non_pk_columns},
            )
        if self.conflict_strategy == "skip":
            stmt = stmt.on_conflict_do_nothing()
        return compiler.process(stmt, **kwargs)
''', '''    def _with_on_conflict(self, stmt):
        if self.conflict_strategy == "skip":
            return stmt.on_conflict_do_nothing()
        if self.conflict_strategy == "replace":
            updates = {}
            for col in self.non_pk_columns:
                updates[col] = stmt.excluded[col]
            return stmt.on_conflict_do_update(
                index_elements=self.table.primary_key, set_=updates
            )
        return stmt

    def _insert_postgresql(self, compiler: SQLCompiler, **kwargs) -> str:
        return compiler.process(
            self._with_on_conflict(postgresql.insert(self.table)), **kwargs
        )

    def _insert_sqlite(self, compiler: SQLCompiler, **kwargs) -> str:
        return compiler.process(
            self._with_on_conflict(sqlite.insert(self.table)), **kwargs
        )
''')
N(S, '''compiles(ConflictInsert, "sqlite")(ConflictInsert._insert_sqlite)
compiles(ConflictInsert, "postgresql")(ConflictInsert._insert_postgresql)
compiles(ConflictInsert, "mysql")(ConflictInsert._insert_mysql)
compiles(ConflictInsert)(ConflictInsert._insert_generic)
''', '''@compiles(ConflictInsert, "sqlite")
def _compile_sqlite(element, compiler, **kwargs):
    return element._insert_sqlite(compiler, **kwargs)


@compiles(ConflictInsert, "postgresql")
def _compile_postgresql(element, compiler, **kwargs):
    return element._insert_postgresql(compiler, **kwargs)


@compiles(ConflictInsert, "mysql")
def _compile_mysql(element, compiler, **kwargs):
    return element._insert_mysql(compiler, **kwargs)


@compiles(ConflictInsert)
def _compile_generic(element, compiler, **kwargs):
    return element._insert_generic(compiler, **kwargs)
''')
# --- autoincrement
N(S, '''    curval = _autoincrement_get(engine, table)
    if curval is not None and curval > value:
        return

    with engine.connect() as conn:
''', '''    curval = _autoincrement_get(engine, table)
    behind = curval is None or value >= curval
    if not behind:
        return

    with engine.connect() as conn:
''')
N(S, '''                if autoinc_index != -1:
                    if autoinc_max_written is None:
                        autoinc_max_written = out_row[autoinc_index]
                    else:
                        autoinc_max_written = max(
                            autoinc_max_written, out_row[autoinc_index]
                        )
''', '''                if autoinc_index >= 0:
                    written = out_row[autoinc_index]
                    if autoinc_max_written is None or written > autoinc_max_written:
                        autoinc_max_written = written
''')
N(S, '''        autoinc_index = -1
        autoinc_max_written = None
        if (
            _autoincrement_needs_updating(self.engine)
            and table.table_obj.autoincrement_column is not None
        ):
            try:
                autoinc_index = columns_out.index(
                    table.table_obj.autoincrement_column.name
                )
            except ValueError:
                pass
''', '''        autoinc_index = -1
        autoinc_max_written = None
        if _autoincrement_needs_updating(self.engine):
            autoinc_column = table.table_obj.autoincrement_column
            if autoinc_column is not None and autoinc_column.name in columns_out:
                autoinc_index = list(columns_out).index(autoinc_column.name)
''')
# --- directory output
N(S, '''        multiplied_indexes = [
            ind
            for ind, col_name in enumerate(columns_out)
            if col_name in (column_multipliers or set())
        ]
        with open(output_path, "w", encoding="utf-8") as fdump:
            for row in result_set:
                for iteration in range(multiplier):
                    out_row = filter_view.filter_view(row) if filter_view else list(row)
                    for index in multiplied_indexes:
                        out_row[index] = _multiply_column(
                            out_row[index], multiplier, iteration
                        )
                    json.dump(dict(zip(columns_out, out_row)), fdump, default=str)
                    fdump.write("\\n")
''', '''        multiplied = [
            col_name in (column_multipliers or ()) for col_name in columns_out
        ]

        def records():
            for row in result_set:
                for iteration in range(multiplier):
                    values = filter_view.filter_view(row) if filter_view else row
                    yield {
                        col_name: (
                            _multiply_column(value, multiplier, iteration)
                            if is_multiplied
                            else value
                        )
                        for col_name, value, is_multiplied in zip(
                            columns_out, values, multiplied
                        )
                    }

        with open(output_path, "w", encoding="utf-8") as fdump:
            for record in records():
                fdump.write(json.dumps(record, default=str))
                fdump.write("\\n")
''')
N(S, '''        output_path = os.path.join(self.directory, f"{schema}.{table_name}.json")
''', '''        file_name = ".".join((schema, table_name, "json"))
        output_path = os.path.join(self.directory, file_name)
''')
# --- database output
N(S, '''        for table in plan.queries:
            remapped_table = ".".join(self._remap_table(*parse_table_name(table)))
            if self.table_remap.setdefault(remapped_table, table) != table:
                raise ValueError(
                    f"Multiple tables remapped to the same name {remapped_table}"
                )
''', '''        for table in plan.queries:
            src_schema, src_name = parse_table_name(table)
            dst_schema, dst_name = self._remap_table(src_schema, src_name)
            remapped_table = f"{dst_schema}.{dst_name}"
            if remapped_table in self.table_remap:
                raise ValueError(
                    f"Multiple tables remapped to the same name {remapped_table}"
                )
            self.table_remap[remapped_table] = table
''')
N(S, '''            table = self.meta.tables[(schema, table_name)]
            if len(table.primary_key) != 1:
                LOGGER.warning(
                    "Cannot merge multi-column primary key for table %s.%s, ignoring",
                    schema,
                    table_name,
                )
                continue

            pk_col = table.table_obj.columns[table.primary_key[0]]
            if not issubclass(pk_col.type.python_type, int):  # type: ignore
                LOGGER.warning(
                    "Cannot merge non-integer primary key for table %s.%s, ignoring",
                    schema,
                    table_name,
                )
                continue

            with self.engine.connect() as conn:
                max_pk_val = conn.scalar(sa.select(sa.func.max(pk_col)))

            pk_max_values[source_table] = max_pk_val
''', '''            table = self.meta.tables[(schema, table_name)]
            pk_col = self._merge_column(table)
            if pk_col is None:
                continue

            with self.engine.connect() as conn:
                max_pk_val = conn.execute(sa.select(sa.func.max(pk_col))).scalar()

            pk_max_values[source_table] = max_pk_val
''', S, '''    def create(self) -> None:
        """Create any missing tables in destination from the source schema"""
        source_meta = self.source_meta
''', '''    def _merge_column(self, table):
        if len(table.primary_key) != 1:
            LOGGER.warning(
                "Cannot merge multi-column primary key for table %s.%s, ignoring",
                table.schema,
                table.name,
            )
            return None
        (pk_name,) = table.primary_key
        pk_col = table.table_obj.columns[pk_name]
        if issubclass(pk_col.type.python_type, int):  # type: ignore
            return pk_col
        LOGGER.warning(
            "Cannot merge non-integer primary key for table %s.%s, ignoring",
            table.schema,
            table.name,
        )
        return None

    def create(self) -> None:
        """Create any missing tables in destination from the source schema"""
        source_meta = self.source_meta
''')
N(S, '''        shared_keys: Dict[str, Set[str]] = {table: set() for table in pk_max_values}
        for source_table in pk_max_values:
            src_table = self.source_meta.tables[parse_table_name(source_table)]
            for fk in src_table.foreign_keys:
                dst_table = self.source_meta.tables.get((fk.dst_schema, fk.dst_table))
                if (
                    dst_table is not None
                    and dst_table is not src_table
                    and fk.columns == src_table.primary_key
                    and fk.dst_columns == dst_table.primary_key
                ):
                    shared_keys[source_table] = {str(dst_table)}
                    shared_keys.setdefault(str(dst_table), set())
''', '''        shared_keys: Dict[str, Set[str]] = {table: set() for table in pk_max_values}
        for source_table in pk_max_values:
            src_table = self.source_meta.tables[parse_table_name(source_table)]
            for fk in src_table.foreign_keys:
                dst_table = self.source_meta.tables.get((fk.dst_schema, fk.dst_table))
                if dst_table is None or dst_table is src_table:
                    continue
                if fk.columns != src_table.primary_key:
                    continue
                if fk.dst_columns != dst_table.primary_key:
                    continue
                ref_name = f"{dst_table.schema}.{dst_table.name}"
                if ref_name not in shared_keys:
                    shared_keys[ref_name] = set()
                shared_keys[source_table] = {ref_name}
''')
N(S, '''            for fk in src_table.foreign_keys:
                if len(fk.columns) != 1:
                    continue
                dst_table = self.source_meta.tables.get((fk.dst_schema, fk.dst_table))
                if dst_table is None or fk.dst_columns != dst_table.primary_key:
                    continue
                offset = pk_max_values.get(f"{fk.dst_schema}.{fk.dst_table}")
                if offset is not None:
                    self.table_offsets[self._remap_table(src_schema, src_table_name)][
                        fk.columns[0]
                    ] = (offset + 1)
''', '''            offsets = self.table_offsets[
                self._remap_table(src_schema, src_table_name)
            ]
            for fk in src_table.foreign_keys:
                if len(fk.columns) == 1:
                    dst_key = (fk.dst_schema, fk.dst_table)
                    if dst_key not in self.source_meta.tables:
                        continue
                    dst_table = self.source_meta.tables[dst_key]
                    max_value = pk_max_values.get(".".join(dst_key))
                    if fk.dst_columns == dst_table.primary_key and (
                        max_value is not None
                    ):
                        (fk_column,) = fk.columns
                        offsets[fk_column] = 1 + max_value
''')
N(S, '''            for constraint in table_obj.constraints:
                if isinstance(constraint, sa.UniqueConstraint):
                    remapped_table_obj.append_constraint(
                        sa.UniqueConstraint(*_remap_cols(constraint.columns))
                    )
                if isinstance(constraint, sa.CheckConstraint):
                    remapped_table_obj.append_constraint(
                        sa.CheckConstraint(constraint.sqltext)
                    )
                if isinstance(constraint, sa.ForeignKeyConstraint):
                    ref_table = constraint.referred_table
                    if f"{ref_table.schema}.{ref_table.name}" not in table_obj_map:
                        # The referenced table is not part of the sample
                        continue
                    fk_cols = _remap_cols(elem.column for elem in constraint.elements)
                    remapped_table_obj.append_constraint(
                        sa.ForeignKeyConstraint(
                            _remap_cols(constraint.columns),
                            fk_cols,
                            name=constraint.name,
                            use_alter=True,
                        )
                    )
''', '''            for constraint in table_obj.constraints:
                copied = None
                if isinstance(constraint, sa.UniqueConstraint):
                    copied = sa.UniqueConstraint(*_remap_cols(constraint.columns))
                elif isinstance(constraint, sa.CheckConstraint):
                    copied = sa.CheckConstraint(constraint.sqltext)
                elif isinstance(constraint, sa.ForeignKeyConstraint):
                    ref_table = constraint.referred_table
                    if f"{ref_table.schema}.{ref_table.name}" in table_obj_map:
                        copied = sa.ForeignKeyConstraint(
                            _remap_cols(constraint.columns),
                            _remap_cols(elem.column for elem in constraint.elements),
                            name=constraint.name,
                            use_alter=True,
                        )
                if copied is not None:
                    remapped_table_obj.append_constraint(copied)
''')
N(S, '''        table_obj_map = {}
        tables_created = set()
        for remapped_table, table in self.table_remap.items():
            remap_schema, remap_table = parse_table_name(remapped_table)

            if (remap_schema, remap_table) in self.meta.tables:
                table_obj_map[table] = self.meta.tables[
                    (remap_schema, remap_table)
                ].table_obj
                continue

            table_obj = source_meta.tables[parse_table_name(table)].table_obj
            table_obj_map[table] = sa.Table(
                remap_table,
                metadata_obj,
                *(
                    sa.Column(
                        col.name,
                        col.type,
                        nullable=col.nullable,
                        primary_key=col.primary_key,
                    )
                    for col in table_obj.columns
                ),
                schema=remap_schema,
            )
            tables_created.add(table_obj_map[table])
''', '''        def _copy_column(col: sa.Column) -> sa.Column:
            return sa.Column(
                col.name,
                col.type,
                primary_key=col.primary_key,
                nullable=col.nullable,
            )

        table_obj_map = {}
        tables_created = set()
        for remapped_table, table in self.table_remap.items():
            remap_schema, remap_table = parse_table_name(remapped_table)
            existing = self.meta.tables.get((remap_schema, remap_table))
            if existing is not None:
                table_obj_map[table] = existing.table_obj
            else:
                table_obj = source_meta.tables[parse_table_name(table)].table_obj
                new_table = sa.Table(
                    remap_table,
                    metadata_obj,
                    *map(_copy_column, table_obj.columns),
                    schema=remap_schema,
                )
                table_obj_map[table] = new_table
                tables_created.add(new_table)
''')
N(S, '''        with self.engine.connect() as conn:
            for table in reversed(self.meta.toposort()):
                LOGGER.info("Truncating table %s", table)
                conn.execute(sa.delete(table.table_obj))
                conn.commit()
''', '''        order = self.meta.toposort()
        order.reverse()
        with self.engine.connect() as conn:
            for table in order:
                LOGGER.info("Truncating table %s", table)
                with conn.begin():
                    conn.execute(table.table_obj.delete())
''')
N(S, '''        result = []
        insert_order_mapped = [str(table) for table in self.meta.toposort()]
        missing_tables = sorted(set(self.table_remap) - set(insert_order_mapped))
        if missing_tables:
            raise ValueError(f"Destination is missing expected tables {missing_tables}")
        for table in insert_order_mapped:
            remapped_table = self.table_remap.get(table)
            if remapped_table:
                result.append(remapped_table)
        return result
''', '''        insert_order_mapped = list(map(str, self.meta.toposort()))
        missing_tables = sorted(
            table for table in self.table_remap if table not in insert_order_mapped
        )
        if missing_tables:
            raise ValueError(f"Destination is missing expected tables {missing_tables}")
        return [
            self.table_remap[table]
            for table in insert_order_mapped
            if table in self.table_remap
        ]
''')
N(S, '''        for row in result_set:
            for iteration in range(multiplier):
                out_row = filter_view.filter_view(row) if filter_view else row
                for index in multiplied_indexes:
                    out_row[index] = _multiply_column(
                        out_row[index], multiplier, iteration
                    )
                if offsets is not None:
                    for index, offset in offsets:
                        if out_row[index] is not None:
                            out_row[index] += offset
''', '''        def _adjust(row, iteration):
            values = list(filter_view.filter_view(row) if filter_view else row)
            for index in multiplied_indexes:
                values[index] = _multiply_column(values[index], multiplier, iteration)
            for index, offset in offsets or ():
                if values[index] is None:
                    continue
                values[index] = values[index] + offset
            return values

        for row in result_set:
            for iteration in range(multiplier):
                out_row = _adjust(row, iteration)
''')
N(S, '''        def _flush_buffer():
            with self.engine.connect() as conn:
                conn.execute(
                    ConflictInsert(conflict_strategy, table.table_obj, columns_out),
                    [dict(zip(columns_out, row)) for row in buffer],
                )
                conn.commit()
            buffer.clear()
''', '''        insert_stmt = ConflictInsert(conflict_strategy, table.table_obj, columns_out)

        def _flush_buffer():
            records = [dict(zip(columns_out, row)) for row in buffer]
            buffer.clear()
            with self.engine.begin() as conn:
                conn.execute(insert_stmt, records)
''')
N(S, '''        computed_columns = [
            col for col in columns_out if table.table_obj.columns[col].computed
        ]
        if computed_columns:
            omit_filter = FilterOmit(columns_out, computed_columns)
            columns_out = omit_filter.columns_out
            if filter_view:
                filter_view = FilterViewChain(
                    filter_view.columns_in,
                    columns_out,
                    (filter_view, omit_filter),
                )
            else:
                filter_view = omit_filter
''', '''        filter_view, columns_out = self._omit_computed(
            table.table_obj, filter_view, columns_out
        )
''', S, '''    def insert_order(self) -> List[str]:
        result = []
''', '''    @staticmethod
    def _omit_computed(table_obj, filter_view, columns_out):
        computed_columns = [
            col for col in columns_out if table_obj.columns[col].computed
        ]
        if not computed_columns:
            return filter_view, columns_out
        omit_filter = FilterOmit(columns_out, computed_columns)
        if not filter_view:
            return omit_filter, omit_filter.columns_out
        chain = FilterViewChain(
            filter_view.columns_in,
            omit_filter.columns_out,
            (filter_view, omit_filter),
        )
        return chain, omit_filter.columns_out

    def insert_order(self) -> List[str]:
        result = []
''')
# --- sampler
N(S, '''        output = SamplerOutput.from_config(self.config.output, plan, meta)
        if create:
            output.create()
        insert_order = output.insert_order()
        if truncate:
            output.truncate()
        output.prepare()

        with self.source_engine.execution_options().connect() as conn:
''', '''        output = SamplerOutput.from_config(self.config.output, plan, meta)
        insert_order = self._prepare_output(output, truncate, create)

        with self.source_engine.connect() as conn:
''', S, '''    def _get_compact_columns(
''', '''    def _prepare_output(
        self, output: SamplerOutput, truncate: bool, create: bool
    ) -> List[str]:
        if create:
            output.create()
        order = output.insert_order()
        if truncate:
            output.truncate()
        output.prepare()
        return order

    def _get_compact_columns(
''')
N(S, '''        for table_key, table_meta in meta.tables.items():
            if (
                not self.config.compact.primary_keys
                and not self.config.compact.auto_increment_keys
            ):
                break
            if len(table_meta.primary_key) != 1:
                continue
            if f"{table_key[0]}.{table_key[1]}" in self.passthrough_tables:
                continue

            col = table_meta.table_obj.columns[table_meta.primary_key[0]]
            if not issubclass(col.type.python_type, int):  # type: ignore
                continue

            if (
                self.config.compact.primary_keys
                or table_meta.table_obj.autoincrement_column is not None
            ):
                compact_columns.setdefault(table_key, set()).add(col.name)
''', '''        compact = self.config.compact
        if compact.primary_keys or compact.auto_increment_keys:
            for table_key, table_meta in meta.tables.items():
                passthrough = ".".join(table_key) in self.passthrough_tables
                if passthrough or len(table_meta.primary_key) != 1:
                    continue

                pk_name = table_meta.primary_key[0]
                col = table_meta.table_obj.columns[pk_name]
                is_integer = issubclass(col.type.python_type, int)  # type: ignore
                generated = table_meta.table_obj.autoincrement_column is not None
                if is_integer and (compact.primary_keys or generated):
                    if table_key not in compact_columns:
                        compact_columns[table_key] = set()
                    compact_columns[table_key].add(pk_name)
''')
N(S, '''            for fk in table_meta.foreign_keys:
                for col_name in fk.columns:
                    if col_name in table_compact_cols:
                        raise ValueError(
                            f"Cannot compact column {table_key[0]}.{table_key[1]}.{col_name} within foreign key"
                        )
''', '''            fk_columns = {
                col_name for fk in table_meta.foreign_keys for col_name in fk.columns
            }
            for col_name in sorted(table_compact_cols & fk_columns):
                raise ValueError(
                    f"Cannot compact column {table_key[0]}.{table_key[1]}.{col_name} within foreign key"
                )
''')
N(S, '''            for key, count in counter.items():
                max_ref_counts[key] = max(max_ref_counts.get(key, 0), count)

        order: List[Tuple[str, str]] = toposort(dep_graph)
        return [
            (schema, table_name, max_ref_counts[(schema, table_name)])
            for schema, table_name in order
            if (schema, table_name) in max_ref_counts
        ]
''', '''            for key, count in counter.items():
                if count > max_ref_counts.get(key, 0):
                    max_ref_counts[key] = count

        result: List[Tuple[str, str, int]] = []
        for key in toposort(dep_graph):
            ref_count = max_ref_counts.get(key)
            if ref_count is not None:
                result.append((key[0], key[1], ref_count))
        return result
''')
N(S, '''        joined_columns = collections.defaultdict(set)
        for data in pydantic_search(plan):
            if not isinstance(data, SQLLeftJoin):
                continue
            table_id = data.right
            if not table_id.sampled:
                continue
            joined_columns[(table_id.table_schema, table_id.table_name)].add(
                tuple(data.right_columns)
            )
''', '''        joined_columns: Dict[Tuple[str, str], Set[Tuple[str, ...]]]
        joined_columns = collections.defaultdict(set)
        joins = (data for data in pydantic_search(plan) if isinstance(data, SQLLeftJoin))
        for join in joins:
            if join.right.sampled:
                key = (join.right.table_schema, join.right.table_name)
                joined_columns[key].add(tuple(join.right_columns))
''')
N(S, '''            if meta.supports_temp_reopen:
                continue

            # Create additional copies of the temporary table if needed. This is
            # to work around an issue on mysql with reopening temporary tables.
            for index in range(1, ref_count):
                meta.temp_tables[(schema, table_name, index)], _ = (
                    self.temp_tables.create(
                        conn,
                        schema,
                        meta.temp_tables[(schema, table_name, 0)].select(),
                        name=table_name,
                        primary_key=table.primary_key,
                        indexes=joined_columns[(schema, table_name)],
                    )
                )
''', '''            # Create additional copies of the temporary table if needed. This is
            # to work around an issue on mysql with reopening temporary tables.
            copies = 1 if meta.supports_temp_reopen else ref_count
            original = meta.temp_tables[(schema, table_name, 0)]
            for index in range(1, copies):
                copy, _ = self.temp_tables.create(
                    conn,
                    schema,
                    sa.select(original),
                    name=table_name,
                    primary_key=table.primary_key,
                    indexes=joined_columns[(schema, table_name)],
                )
                meta.temp_tables[(schema, table_name, index)] = copy
''')
N(S, '''            src_table = meta.tables[(schema, table_name)]
            remote_compact_cols = {}
            for fk in src_table.foreign_keys:
                for src_col, dst_col in zip(fk.columns, fk.dst_columns):
                    if dst_col in self.compact_columns.get(
                        (fk.dst_schema, fk.dst_table), set()
                    ):
                        remote_compact_cols[src_col] = fk
''', '''            src_table = meta.tables[(schema, table_name)]
            remote_compact_cols = self._remote_compact_columns(src_table)
''', S, '''    def _copy_results(
''', '''    def _remote_compact_columns(self, src_table):
        result = {}
        for fk in src_table.foreign_keys:
            compacted = self.compact_columns.get((fk.dst_schema, fk.dst_table))
            if not compacted:
                continue
            result.update(
                {
                    src_col: fk
                    for src_col, dst_col in zip(fk.columns, fk.dst_columns)
                    if dst_col in compacted
                }
            )
        return result

    def _copy_results(
''')
N(S, '''                        cols.append(
                            dst_table.columns[SUBSETTER_COMPACT_COLUMN].label(col.name)
                        )
                        select_from = sa.join(
                            select_from,
                            dst_table,
                            sa.and_(
                                *(
                                    subq.columns[src_col] == dst_table.columns[dst_col]
                                    for src_col, dst_col in zip(
                                        fk.columns, fk.dst_columns
                                    )
                                )
                            ),
                            isouter=True,
                        )
''', '''                        conditions = []
                        for position, src_col in enumerate(fk.columns):
                            dst_col = fk.dst_columns[position]
                            conditions.append(
                                dst_table.c[dst_col] == subq.c[src_col]
                            )
                        select_from = select_from.outerjoin(
                            dst_table, sa.and_(*conditions)
                        )
                        compact_id = dst_table.c[SUBSETTER_COMPACT_COLUMN]
                        cols.append(compact_id.label(col.name))
''')
N(S, '''            column_multipliers = table_column_multipliers.get(table)
            output.output_result_set(
                schema,
                table_name,
                columns,
                _count_rows(result, self.cached_table_sizes.get((schema, table_name))),
                filter_view=filter_view,
                multiplier=(
                    1
                    if column_multipliers is None
                    else self.config.multiplicity.multiplier
                ),
                column_multipliers=column_multipliers,
            )
''', '''            multiplier = 1
            column_multipliers = None
            if table in table_column_multipliers:
                column_multipliers = table_column_multipliers[table]
                multiplier = self.config.multiplicity.multiplier

            size = self.cached_table_sizes.get((schema, table_name))
            output.output_result_set(
                schema,
                table_name,
                columns,
                _count_rows(result, size),
                column_multipliers=column_multipliers,
                multiplier=multiplier,
                filter_view=filter_view,
            )
''')
N(S, '''        while True:
            changes = False

            for table_name in plan.queries:
                table = meta.tables[parse_table_name(table_name)]

                cols = result.get(table_name, set())
                start_len = len(cols)
                for fk in table.foreign_keys:
                    dst_mapped = result.get(f"{fk.dst_schema}.{fk.dst_table}", set())
                    cols.update(
                        src_col
                        for src_col, dst_col in zip(fk.columns, fk.dst_columns)
                        if dst_col in dst_mapped
                    )

                if cols and table_name in ignore_tables:
                    raise ValueError(
                        "Passthrough foreign key points to multiplied column"
                    )

                changes = changes or len(cols) > start_len

            if not changes:
                break
''', '''        changes = True
        while changes:
            changes = False
            for table_name in plan.queries:
                table = meta.tables[parse_table_name(table_name)]
                cols = result.get(table_name, set())
                for fk in table.foreign_keys:
                    dst_mapped = result.get(f"{fk.dst_schema}.{fk.dst_table}", set())
                    for src_col, dst_col in zip(fk.columns, fk.dst_columns):
                        if dst_col not in dst_mapped or src_col in cols:
                            continue
                        if table_name in ignore_tables:
                            raise ValueError(
                                "Passthrough foreign key points to multiplied column"
                            )
                        cols.add(src_col)
                        changes = True
''')
N(S, '''        for table_name in plan.queries:
            table = meta.tables[parse_table_name(table_name)]
            col_map = {column.name: column for column in table.table_obj.columns}

            # Verify multiplied columns are integer
            for col_name in result.get(table_name, set()):
                col = col_map[col_name]
                if not issubclass(col.type.python_type, int):  # type: ignore
                    raise ValueError(
                        f"Primary key column {table_name}.{col_name} "
                        "must be integral when using multiplicity"
                    )

        return result''', '''        # Verify multiplied columns are integer
        for table_name, multiplied in result.items():
            table_obj = meta.tables[parse_table_name(table_name)].table_obj
            for col_name in multiplied:
                python_type = table_obj.columns[col_name].type.python_type
                if issubclass(python_type, int):  # type: ignore
                    continue
                raise ValueError(
                    f"Primary key column {table_name}.{col_name} "
                    "must be integral when using multiplicity"
                )

        return result''')
# --- planner
N(P, '''        self.ignore_tables = {parse_table_name(table) for table in config.ignore}
        self.passthrough_tables = {
            parse_table_name(table) for table in config.passthrough
        }
''', '''        self.ignore_tables = set(map(parse_table_name, config.ignore))
        self.passthrough_tables = set(map(parse_table_name, config.passthrough))
''')
N(P, '''        queries: Dict[str, SQLTableQuery] = {}
        for schema, table_name in sorted(self.passthrough_tables):
            queries[f"{schema}.{table_name}"] = SQLTableQuery(
                statement=SQLStatementSelect(
                    type_="select",
                    from_=SQLTableIdentifier(
                        table_schema=schema,
                        table_name=table_name,
                    ),
                )
            )

        processed = set()
        for table in order:
            schema, table_name = parse_table_name(table)
            processed.add((schema, table_name))
            queries[table] = self._plan_table(
                self.meta.tables[(schema, table_name)],
                processed,
                target=self.config.targets.get(table),
            )

        return SubsetPlan(
            queries=queries,
            passthrough=[
                f"{schema}.{table_name}"
                for schema, table_name in sorted(self.passthrough_tables)
            ],
        )
''', '''        passthrough = [".".join(key) for key in sorted(self.passthrough_tables)]
        queries: Dict[str, SQLTableQuery] = {
            name: self._plan_passthrough(name) for name in passthrough
        }

        processed: Set[Tuple[str, str]] = set()
        for table in order:
            key = parse_table_name(table)
            processed |= {key}
            queries[table] = self._plan_table(
                self.meta.tables[key],
                processed,
                self.config.targets.get(table),
            )

        return SubsetPlan(queries=queries, passthrough=passthrough)

    @staticmethod
    def _plan_passthrough(name: str) -> SQLTableQuery:
        schema, table_name = parse_table_name(name)
        ident = SQLTableIdentifier(table_schema=schema, table_name=table_name)
        return SQLTableQuery(
            statement=SQLStatementSelect(type_="select", from_=ident)
        )
''')
N(P, '''        graph[source] = set(self.config.targets)

        for target in self.config.targets:
            if target not in graph:
                raise ValueError(f"Cannot target unselected table {target}")

        try:
            order = order_graph(graph, source)[1:]
        except''', '''        for target in self.config.targets:
            if target not in graph:
                raise ValueError(f"Cannot target unselected table {target}")
        graph[source] = set(self.config.targets)

        try:
            ordered = order_graph(graph, source)
            order = [table for table in ordered if table != source]
        except''')
N(P, '''            table.foreign_keys = [
                fk
                for fk in table.foreign_keys
                if (fk.dst_schema, fk.dst_table) != (dst_schema, dst_table_name)
            ]
''', '''            kept = []
            for fk in table.foreign_keys:
                if fk.dst_schema == dst_schema and fk.dst_table == dst_table_name:
                    continue
                kept.append(fk)
            table.foreign_keys = kept
''')
N(P, '''            dst_missing_cols = {
                col
                for col in extra_fk.dst_columns
                if col not in dst_table.table_obj.columns
            }
''', '''            dst_missing_cols = set(extra_fk.dst_columns) - {
                col.name for col in dst_table.table_obj.columns
            }
''')
N(P, '''        for table in self.meta.tables.values():
            if (table.schema, table.name) in self.ignore_tables:
                continue
            for fk in table.foreign_keys:
                if (fk.dst_schema, fk.dst_table) in self.ignore_tables:
                    raise ValueError(
''', '''        for key, table in self.meta.tables.items():
            for fk in table.foreign_keys:
                dst_key = (fk.dst_schema, fk.dst_table)
                if key not in self.ignore_tables and dst_key in self.ignore_tables:
                    raise ValueError(
''')
N(P, '''        not_found_tables = set()
        for schema, table_name in self.passthrough_tables:
            table = self.meta.tables.get((schema, table_name))
            if table is None:
                not_found_tables.add((schema, table_name))
                LOGGER.warning(
                    "Could not find passthrough table %s.%s", schema, table_name
                )
                continue

''', '''        for schema, table_name in list(self.passthrough_tables):
            table = self.meta.tables.get((schema, table_name))
            if table is None:
                LOGGER.warning(
                    "Could not find passthrough table %s.%s", schema, table_name
                )
                continue

''', P, '''        self.passthrough_tables -= not_found_tables
''', '''        self.passthrough_tables &= set(self.meta.tables)
''')
N(P, '''        foreign_keys = sorted(
            fk
            for fk in table.foreign_keys
            if (fk.dst_schema, fk.dst_table) in processed
        )
        rev_foreign_keys = sorted(
            fk
            for fk in table.rev_foreign_keys
            if (fk.dst_schema, fk.dst_table) in processed
        )
''', '''        def _processed_fks(fks: Iterable[ForeignKey]) -> List[ForeignKey]:
            found = []
            for fk in fks:
                if (fk.dst_schema, fk.dst_table) in processed:
                    found.append(fk)
            found.sort()
            return found

        foreign_keys = _processed_fks(table.foreign_keys)
        rev_foreign_keys = _processed_fks(table.rev_foreign_keys)
''')
N(P, '''            cols_st = set(cols)
            for constraint in table_obj.constraints:
                if isinstance(
                    constraint, (sa.PrimaryKeyConstraint, sa.UniqueConstraint)
                ):
                    constraint_cols = set(col.name for col in constraint.columns)
                    if constraint_cols <= cols_st:
                        return True
            return False
''', '''            kinds = (sa.PrimaryKeyConstraint, sa.UniqueConstraint)
            return any(
                {col.name for col in constraint.columns}.issubset(cols)
                for constraint in table_obj.constraints
                if isinstance(constraint, kinds)
            )
''')
N(P, '''        # If targetted also calculate target constraint statement
        if target:
            target_constraints: List[SQLWhereClause] = []
''', '''        # If targetted also calculate target constraint statement
        if target is not None:
            target_constraints: List[SQLWhereClause] = []
''')
N(P, '''            for column, patterns in target.like.items():
                target_constraints.extend(
                    SQLWhereClauseOperator(
                        type_="operator",
                        operator="like",
                        column=column,
                        value=pattern,
                    )
                    for pattern in patterns
                )

            for column, in_list in target.in_.items():
                target_constraints.append(
                    SQLWhereClauseIn(
                        type_="in",
                        columns=[column],
                        values=[[value] for value in in_list],
                    )
                )

            if target.all_:
                target_constraints.clear()
            target_constraints.extend(conf_constraints_sql)
''', '''            target_constraints += [
                SQLWhereClauseOperator(
                    type_="operator", operator="like", column=column, value=pattern
                )
                for column, patterns in target.like.items()
                for pattern in patterns
            ]
            target_constraints += [
                SQLWhereClauseIn(
                    type_="in",
                    columns=[column],
                    values=[[value] for value in in_list],
                )
                for column, in_list in target.in_.items()
            ]
            target_constraints = (
                [] if target.all_ else target_constraints
            ) + conf_constraints_sql
''')
N(P, '''        for conf_constraint in conf_constraints:
            if conf_constraint.column not in table.table_obj.columns:
                raise ValueError(
                    f"Table {table} has no column {conf_constraint.column!r} for table constraint",
                )

            conf_constraints_sql.append(
                SQLWhereClauseOperator(
                    type_="operator",
                    operator=conf_constraint.operator,
                    column=conf_constraint.column,
                    value=conf_constraint.value,
                )
            )
''', '''        for conf_constraint in conf_constraints:
            column = conf_constraint.column
            if column in table.table_obj.columns:
                clause = SQLWhereClauseOperator(
                    type_="operator",
                    operator=conf_constraint.operator,
                    column=column,
                    value=conf_constraint.value,
                )
                conf_constraints_sql += [clause]
            else:
                raise ValueError(
                    f"Table {table} has no column {column!r} for table constraint",
                )
''')
