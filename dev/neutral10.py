"""Edits that keep the behaviour: a tenth set, larger restructurings."""

SO = "solver.py"

# --- sampler: TempTableCreator.create split in three
N(S, '''        temp_name = self._generate_name(name)

        # Create the temporary table from the select statement. Mark the requested
        # columns as part of the primary key.
        metadata = sa.MetaData()
        table_obj = sa.Table(
            temp_name,
            metadata,
            schema=temp_schema,
            prefixes=["TEMPORARY"],
            *(
                sa.Column(col.name, col.type, primary_key=col.name in primary_key)
                for col in select.selected_columns
            ),
        )
''', '''        table_obj = self._describe(
            self._generate_name(name), temp_schema, select, primary_key
        )
        temp_name = table_obj.name
        metadata = table_obj.metadata
''', S, '''    def create(
        self,
        conn,
        schema: str,
        select: sa.Select,
        *,
''', '''    @staticmethod
    def _describe(
        temp_name: str,
        temp_schema: Optional[str],
        select: sa.Select,
        primary_key: Tuple[str, ...],
    ) -> sa.Table:
        """The table object of the temporary table to create."""
        columns = []
        for col in select.selected_columns:
            is_key = col.name in primary_key
            columns.append(sa.Column(col.name, col.type, primary_key=is_key))
        return sa.Table(
            temp_name,
            sa.MetaData(),
            *columns,
            schema=temp_schema,
            prefixes=["TEMPORARY"],
        )

    def create(
        self,
        conn,
        schema: str,
        select: sa.Select,
        *,
''')
N(S, '''        # Copy data into the temporary table
        stmt = table_obj.insert().from_select(list(table_obj.columns), select)
        LOGGER.debug(
            "  Using statement %s",
            str(stmt.compile(dialect=conn.engine.dialect)).replace("\\n", " "),
        )
        result = conn.execute(stmt)

        return table_obj, result.rowcount
''', '''        return table_obj, self._fill(conn, table_obj, select)

    def _fill(self, conn, table_obj: sa.Table, select: sa.Select) -> int:
        """Copy data into the temporary table, returns the number of rows"""
        stmt = sa.insert(table_obj).from_select(
            [column.name for column in table_obj.columns], select
        )
        if LOGGER.isEnabledFor(logging.DEBUG):
            text = str(stmt.compile(dialect=conn.engine.dialect))
            LOGGER.debug("  Using statement %s", text.replace("\\n", " "))
        return conn.execute(stmt).rowcount
''')
# one upsert helper for sqlite and postgresql
N(S, '''    def _insert_postgresql(self, compiler: SQLCompiler, **kwargs) -> str:
        stmt = postgresql.insert(self.table)
        if self.conflict_strategy == "replace":
            stmt = stmt.on_conflict_do_update(
                index_elements=self.table.primary_key,
                set_={col: stmt.excluded[col] for col in self.non_pk_columns},
            )
        if self.conflict_strategy == "skip":
            stmt = stmt.on_conflict_do_nothing()
        return compiler.process(stmt, **kwargs)

    def _insert_sqlite(self, compiler: SQLCompiler, **kwargs) -> str:
        stmt = sqlite.insert(self.table)
        if self.conflict_strategy == "replace":
            stmt = stmt.on_conflict_do_update(
                index_elements=self.table.primary_key,
                set_={col: stmt.excluded[col] for col in self.non_pk_columns},
            )
        if self.conflict_strategy == "skip":
            stmt = stmt.on_conflict_do_nothing()
        return compiler.process(stmt, **kwargs)
''', '''    def _with_on_conflict(self, stmt):
        match self.conflict_strategy:
            case "replace":
                return stmt.on_conflict_do_update(
                    index_elements=list(self.table.primary_key),
                    set_={col: stmt.excluded[col] for col in self.non_pk_columns},
                )
            case "skip":
                return stmt.on_conflict_do_nothing()
            case _:
                return stmt

    def _insert_postgresql(self, compiler: SQLCompiler, **kwargs) -> str:
        stmt = self._with_on_conflict(postgresql.insert(self.table))
        return compiler.process(stmt, **kwargs)

    def _insert_sqlite(self, compiler: SQLCompiler, **kwargs) -> str:
        stmt = self._with_on_conflict(sqlite.insert(self.table))
        return compiler.process(stmt, **kwargs)
''')
# the strategy is decided by a function
N(S, '''        self.conflict_strategy = conflict_strategy
        self.table = table
        self.non_pk_columns = set(columns)

        if not self.table.primary_key:
            # We only attempt to do this if there is a primary key
            self.conflict_strategy = "error"
        else:
            for column in self.table.primary_key:
                self.non_pk_columns.discard(column.name)
            if self.conflict_strategy == "replace" and not self.non_pk_columns:
                # If there are no other columns outside of the primary key the replace
                # strategy is meaningless and we should just skip.
                self.conflict_strategy = "skip"
''', '''        self.table = table
        self.non_pk_columns = set(columns) - {
            column.name for column in table.primary_key
        }
        self.conflict_strategy = self._effective_strategy(conflict_strategy)

    def _effective_strategy(self, requested: ConflictStrategy) -> ConflictStrategy:
        if not self.table.primary_key:
            # We only attempt to do this if there is a primary key
            return "error"
        if requested == "replace" and not self.non_pk_columns:
            # If there are no other columns outside of the primary key the replace
            # strategy is meaningless and we should just skip.
            return "skip"
        return requested
''')
# shared parameters of the autoincrement statements
N(S, '''            {
                "tab": engine.dialect.identifier_preparer.format_table(table),
                "col": table.autoincrement_column.name,
            },
        )


def _autoincrement_update''', '''            _sequence_params(engine, table),
        )


def _sequence_params(engine, table: sa.Table) -> Dict[str, Any]:
    preparer = engine.dialect.identifier_preparer
    return {
        "tab": preparer.format_table(table),
        "col": table.autoincrement_column.name,
    }


def _autoincrement_update''', S, '''            {
                "tab": engine.dialect.identifier_preparer.format_table(table),
                "col": table.autoincrement_column.name,
                "val": value,
            },
        )
        conn.commit()
''', '''            {**_sequence_params(engine, table), "val": value},
        )
        conn.commit()
''')
N(S, '''    with engine.connect() as conn:
        conn.execute(
            # Keys below the range''', '''    with engine.begin() as conn:
        conn.execute(
            # Keys below the range''', S, '''                "val": value,
            },
        )
        conn.commit()
''', '''                "val": value,
            },
        )
''')
# merge offsets: helper computing the max key of one table
N(S, '''            table = self.meta.tables[(schema, table_name)]
            if len(table.primary_key) != 1:
                LOGGER.warning(
                    "Cannot merge multi-column primary key for table %s.%s, ignoring",
                    schema,
                    table_name,
                )
                continue

            pk_col = table.table_obj.columns[table.primary_key[0]]
            if not issubclass(pk_col.type.python_type, int):  # type: ignore
                LOGGER.warning(
                    "Cannot merge non-integer primary key for table %s.%s, ignoring",
                    schema,
                    table_name,
                )
                continue

            with self.engine.connect() as conn:
                max_pk_val = conn.scalar(sa.select(sa.func.max(pk_col)))

            pk_max_values[source_table] = max_pk_val
            if max_pk_val is not None:
                self.table_offsets[(schema, table_name)][pk_col.name] = max_pk_val + 1
''', '''            pk_col = self._mergeable_key(schema, table_name)
            if pk_col is None:
                continue

            max_pk_val = self._max_value(pk_col)
            pk_max_values[source_table] = max_pk_val
            if max_pk_val is not None:
                self.table_offsets[(schema, table_name)][pk_col.name] = max_pk_val + 1
''', S, '''    def create(self) -> None:
        """Create any missing tables in destination from the source schema"""
        source_meta = self.source_meta
''', '''    def _max_value(self, column: sa.Column) -> Optional[int]:
        with self.engine.connect() as conn:
            return conn.execute(sa.select(sa.func.max(column))).scalar()

    def _mergeable_key(self, schema: str, table_name: str) -> Optional[sa.Column]:
        """The primary key column to shift while merging, if there is one"""
        table = self.meta.tables[(schema, table_name)]
        reason = None
        pk_col = None
        if len(table.primary_key) != 1:
            reason = "multi-column"
        else:
            pk_col = table.table_obj.columns[table.primary_key[0]]
            if not issubclass(pk_col.type.python_type, int):  # type: ignore
                reason = "non-integer"
                pk_col = None
        if reason is not None:
            LOGGER.warning(
                "Cannot merge %s primary key for table %s.%s, ignoring",
                reason,
                schema,
                table_name,
            )
        return pk_col

    def create(self) -> None:
        """Create any missing tables in destination from the source schema"""
        source_meta = self.source_meta
''')
# merge fk offsets in a method of its own
N(S, '''        for source_table in self.plan.queries:
            if source_table in self.passthrough_tables:
                continue

            src_schema, src_table_name = parse_table_name(source_table)
            src_table = self.source_meta.tables[(src_schema, src_table_name)]
            for fk in src_table.foreign_keys:
                if len(fk.columns) != 1:
                    continue
                dst_table = self.source_meta.tables.get((fk.dst_schema, fk.dst_table))
                if dst_table is None or fk.dst_columns != dst_table.primary_key:
                    continue
                offset = pk_max_values.get(f"{fk.dst_schema}.{fk.dst_table}")
                if offset is not None:
                    self.table_offsets[self._remap_table(src_schema, src_table_name)][
                        fk.columns[0]
                    ] = (offset + 1)

    def create(self) -> None:
''', '''        self._assign_foreign_key_offsets(pk_max_values)

    def _single_key_references(self, table: str):
        """Yields (column, referenced table) of each fk to a whole primary key"""
        for fk in self.source_meta.tables[parse_table_name(table)].foreign_keys:
            dst_table = self.source_meta.tables.get((fk.dst_schema, fk.dst_table))
            if (
                len(fk.columns) == 1
                and dst_table is not None
                and fk.dst_columns == dst_table.primary_key
            ):
                yield fk.columns[0], str(dst_table)

    def _assign_foreign_key_offsets(
        self, pk_max_values: Dict[str, Optional[int]]
    ) -> None:
        for source_table in self.plan.queries:
            if source_table in self.passthrough_tables:
                continue
            remapped = self._remap_table(*parse_table_name(source_table))
            for column, referenced in self._single_key_references(source_table):
                offset = pk_max_values.get(referenced)
                if offset is not None:
                    self.table_offsets[remapped][column] = offset + 1

    def create(self) -> None:
''')
# create(): index creation moved to a method
N(S, '''                if conditions - {f"{self.engine.dialect.name}_where"}:
                    # Without its condition the index would cover all rows
                    LOGGER.warning(
                        "Not creating partial index %s of %s in another dialect",
                        index.name,
                        table,
                    )
                    continue
                index_name = f"idx_subsetter_{remapped_table_obj.name}_{index_idx}"
                if len(index_name.encode()) > MAX_INDEX_NAME_BYTES:
                    name_hash = hashlib.sha256(remapped_table_obj.name.encode())
                    index_name = (
                        f"idx_subsetter_{name_hash.hexdigest()[:32]}_{index_idx}"
                    )
                sa.Index(
                    index_name,
                    *(
                        (
                            remapped_table_obj.columns[col.name]
                            if isinstance(col, sa.Column)
                            else col
                        )
                        for col in index.columns
                    ),
                    unique=index.unique,
                    dialect_options=index.dialect_options,
                    **index.dialect_kwargs,
                )
''', '''                if conditions - {f"{self.engine.dialect.name}_where"}:
                    # Without its condition the index would cover all rows
                    LOGGER.warning(
                        "Not creating partial index %s of %s in another dialect",
                        index.name,
                        table,
                    )
                    continue
                self._copy_index(remapped_table_obj, index_idx, index)
''', S, '''    def truncate(self) -> None:
        for schema, table_name in self.additional_tables:
''', '''    @staticmethod
    def _index_name(table_name: str, index_idx: int) -> str:
        def _name(part: str) -> str:
            return f"idx_subsetter_{part}_{index_idx}"

        if len(_name(table_name).encode("utf-8")) <= MAX_INDEX_NAME_BYTES:
            return _name(table_name)
        return _name(hashlib.sha256(table_name.encode("utf-8")).hexdigest()[:32])

    def _copy_index(
        self, table_obj: sa.Table, index_idx: int, index: sa.Index
    ) -> sa.Index:
        indexed = [
            table_obj.columns[col.name] if isinstance(col, sa.Column) else col
            for col in index.columns
        ]
        return sa.Index(
            self._index_name(table_obj.name, index_idx),
            *indexed,
            unique=index.unique,
            dialect_options=index.dialect_options,
            **index.dialect_kwargs,
        )

    def truncate(self) -> None:
        for schema, table_name in self.additional_tables:
''')
# create(): skip reasons decided by a helper
N(S, '''                if any(isinstance(expr, sa.TextClause) for expr in index.expressions):
                    # An index of the remaining columns alone would not be
                    # equivalent and, if unique, could reject sampled rows
                    LOGGER.warning(
                        "Not creating index %s of %s, it indexes expressions",
                        index.name,
                        table,
                    )
                    continue
                conditions = {
                    key
                    for key, value in index.dialect_kwargs.items()
                    if key.endswith("_where") and value is not None
                }
                if conditions - {f"{self.engine.dialect.name}_where"}:
                    # Without its condition the index would cover all rows
                    LOGGER.warning(
                        "Not creating partial index %s of %s in another dialect",
                        index.name,
                        table,
                    )
                    continue
''', '''                reason = self._reason_not_to_copy(index)
                if reason:
                    LOGGER.warning(
                        "Not creating index %s of %s, %s", index.name, table, reason
                    )
                    continue
''', S, '''    def truncate(self) -> None:
        for schema, table_name in self.additional_tables:
''', '''    def _reason_not_to_copy(self, index: sa.Index) -> str:
        for expr in index.expressions:
            if isinstance(expr, sa.TextClause):
                # An index of the remaining columns alone would not be
                # equivalent and, if unique, could reject sampled rows
                return "it indexes expressions"
        own_condition = f"{self.engine.dialect.name}_where"
        for key, value in index.dialect_kwargs.items():
            if not key.endswith("_where") or value is None:
                continue
            if key != own_condition:
                # Without its condition the index would cover all rows
                return "it is a partial index in another dialect"
        return ""

    def truncate(self) -> None:
        for schema, table_name in self.additional_tables:
''')
# create(): column copy helper at module level
N(S, '''                *(
                    sa.Column(
                        col.name,
                        col.type,
                        nullable=col.nullable,
                        primary_key=col.primary_key,
                    )
                    for col in table_obj.columns
                ),
                schema=remap_schema,
            )
''', '''                *map(_clone_column, table_obj.columns),
                schema=remap_schema,
            )
''', S, '''class SamplerOutput(abc.ABC):
''', '''def _clone_column(col: sa.Column) -> sa.Column:
    return sa.Column(
        col.name,
        col.type,
        primary_key=col.primary_key,
        nullable=col.nullable,
    )


class SamplerOutput(abc.ABC):
''')
# output_result_set: the row transformation is a generator
N(S, '''        for row in result_set:
            for iteration in range(multiplier):
                out_row = filter_view.filter_view(row) if filter_view else row
                for index in multiplied_indexes:
                    out_row[index] = _multiply_column(
                        out_row[index], multiplier, iteration
                    )
                if offsets is not None:
                    for index, offset in offsets:
                        if out_row[index] is not None:
                            out_row[index] += offset
                if autoinc_index != -1:
                    if autoinc_max_written is None:
                        autoinc_max_written = out_row[autoinc_index]
                    else:
                        autoinc_max_written = max(
                            autoinc_max_written, out_row[autoinc_index]
                        )
                buffer.append(tuple(out_row))
                if len(buffer) > DESTINATION_BUFFER_SIZE:
                    _flush_buffer()
        if buffer:
            _flush_buffer()
''', '''        def _output_rows():
            for row in result_set:
                for iteration in range(multiplier):
                    out_row = filter_view.filter_view(row) if filter_view else row
                    for index in multiplied_indexes:
                        out_row[index] = _multiply_column(
                            out_row[index], multiplier, iteration
                        )
                    for index, offset in offsets or ():
                        if out_row[index] is not None:
                            out_row[index] += offset
                    yield tuple(out_row)

        for out_row in _output_rows():
            if autoinc_index != -1:
                written = out_row[autoinc_index]
                if autoinc_max_written is None or written > autoinc_max_written:
                    autoinc_max_written = written
            buffer.append(out_row)
            if len(buffer) > DESTINATION_BUFFER_SIZE:
                _flush_buffer()
        if buffer:
            _flush_buffer()
''')
# output_result_set: a small buffered writer class
N(S, '''        buffer: List[tuple] = []

        conflict_strategy = self.conflict_strategy
''', '''        conflict_strategy = self.conflict_strategy
''', S, '''        def _flush_buffer():
            with self.engine.connect() as conn:
                conn.execute(
                    ConflictInsert(conflict_strategy, table.table_obj, columns_out),
                    [dict(zip(columns_out, row)) for row in buffer],
                )
                conn.commit()
            buffer.clear()

''', '''        writer = _BufferedWriter(
            self.engine,
            ConflictInsert(conflict_strategy, table.table_obj, columns_out),
            columns_out,
        )

''', S, '''                buffer.append(tuple(out_row))
                if len(buffer) > DESTINATION_BUFFER_SIZE:
                    _flush_buffer()
        if buffer:
            _flush_buffer()
''', '''                writer.add(out_row)
        writer.flush()
''', S, '''class DatabaseOutput(SamplerOutput):
''', '''class _BufferedWriter:
    """Collects rows to insert them in batches, each committed on its own"""

    def __init__(self, engine, stmt, columns) -> None:
        self.engine = engine
        self.stmt = stmt
        self.columns = columns
        self.buffer: List[Dict[str, Any]] = []

    def add(self, row) -> None:
        self.buffer.append(dict(zip(self.columns, row)))
        if len(self.buffer) >= DESTINATION_BUFFER_SIZE:
            self.flush()

    def flush(self) -> None:
        if not self.buffer:
            return
        with self.engine.begin() as conn:
            conn.execute(self.stmt, self.buffer)
        self.buffer = []


class DatabaseOutput(SamplerOutput):
''')
# autoincrement index with a lookup instead of exception
N(S, '''        autoinc_index = -1
        autoinc_max_written = None
        if (
            _autoincrement_needs_updating(self.engine)
            and table.table_obj.autoincrement_column is not None
        ):
            try:
                autoinc_index = columns_out.index(
                    table.table_obj.autoincrement_column.name
                )
            except ValueError:
                pass
''', '''        autoinc_max_written = None
        autoinc_index = self._autoincrement_index(table.table_obj, columns_out)
''', S, '''    def output_result_set(
        self,
        schema: str,
        table_name: str,
        columns: List[str],
        result_set,
        *,
        filter_view: Optional[FilterView] = None,
        multiplier: int = 1,
        column_multipliers: Optional[Set[str]] = None,
    ) -> None:
        (src_schema, src_table_name) = (schema, table_name)
''', '''    def _autoincrement_index(self, table_obj: sa.Table, columns) -> int:
        if not _autoincrement_needs_updating(self.engine):
            return -1
        autoinc_col = table_obj.autoincrement_column
        if autoinc_col is None:
            return -1
        for index, col_name in enumerate(columns):
            if col_name == autoinc_col.name:
                return index
        return -1

    def output_result_set(
        self,
        schema: str,
        table_name: str,
        columns: List[str],
        result_set,
        *,
        filter_view: Optional[FilterView] = None,
        multiplier: int = 1,
        column_multipliers: Optional[Set[str]] = None,
    ) -> None:
        (src_schema, src_table_name) = (schema, table_name)
''')
# computed columns handled in a helper that returns the columns and the view
N(S, '''        # Automatically omit any included computed columns
        computed_columns = [
            col for col in columns_out if table.table_obj.columns[col].computed
        ]
        if computed_columns:
            omit_filter = FilterOmit(columns_out, computed_columns)
            columns_out = omit_filter.columns_out
            if filter_view:
                filter_view = FilterViewChain(
                    filter_view.columns_in,
                    columns_out,
                    (filter_view, omit_filter),
                )
            else:
                filter_view = omit_filter
''', '''        columns_out, filter_view = self._omit_computed(
            table.table_obj, columns_out, filter_view
        )
''', S, '''    def insert_order(self) -> List[str]:
        result = []
''', '''    @staticmethod
    def _omit_computed(table_obj: sa.Table, columns_out, filter_view):
        """Automatically omit any included computed columns"""
        computed = [col for col in columns_out if table_obj.columns[col].computed]
        if not computed:
            return columns_out, filter_view
        omit_filter = FilterOmit(columns_out, computed)
        if not filter_view:
            return omit_filter.columns_out, omit_filter
        chain = FilterViewChain(
            filter_view.columns_in,
            omit_filter.columns_out,
            (filter_view, omit_filter),
        )
        return omit_filter.columns_out, chain

    def insert_order(self) -> List[str]:
        result = []
''')
# the truncation order
N(S, '''        with self.engine.connect() as conn:
            for table in reversed(self.meta.toposort()):
                LOGGER.info("Truncating table %s", table)
                conn.execute(sa.delete(table.table_obj))
                conn.commit()
''', '''        # Referencing tables have to be emptied before those they reference
        children_first = self.meta.toposort()
        children_first.reverse()
        for table in children_first:
            LOGGER.info("Truncating table %s", table)
            with self.engine.begin() as conn:
                conn.execute(table.table_obj.delete())
''')
# remap: compiled lazily with functools.reduce
N(S, '''        table = f"{schema}.{table_name}"
        for remap_pattern in self.remap:
            table = re.sub(remap_pattern.search, remap_pattern.replace, table)
        return parse_table_name(table)
''', '''        return parse_table_name(
            functools.reduce(
                lambda name, pattern: re.sub(pattern.search, pattern.replace, name),
                self.remap,
                f"{schema}.{table_name}",
            )
        )
''')
# the sampler: per table copying extracted
N(S, '''        for table in tqdm(insert_order, desc="table progress", unit="tables"):
            schema, table_name = parse_table_name(table)

            query = plan.queries.get(table)
            if query is None:
                continue

            LOGGER.info("Sampling %s.%s ...", schema, table_name)

            build_ctx = meta.sql_build_context()
''', '''        for table in tqdm(insert_order, desc="table progress", unit="tables"):
            if table in plan.queries:
                self._copy_table(
                    output, conn, meta, plan, table, table_column_multipliers
                )

    def _copy_table(
        self,
        output: SamplerOutput,
        conn,
        meta: DatabaseMetadata,
        plan: SubsetPlan,
        table: str,
        table_column_multipliers: Dict[str, Set[str]],
    ):
            schema, table_name = parse_table_name(table)
            query = plan.queries[table]

            LOGGER.info("Sampling %s.%s ...", schema, table_name)

            build_ctx = meta.sql_build_context()
''')
# remote compact columns as a method
N(S, '''            src_table = meta.tables[(schema, table_name)]
            remote_compact_cols = {}
            for fk in src_table.foreign_keys:
                for src_col, dst_col in zip(fk.columns, fk.dst_columns):
                    if dst_col in self.compact_columns.get(
                        (fk.dst_schema, fk.dst_table), set()
                    ):
                        remote_compact_cols[src_col] = fk
''', '''            src_table = meta.tables[(schema, table_name)]
            remote_compact_cols = dict(self._remote_compact_columns(src_table))
''', S, '''    def _validate_filters(self, meta: DatabaseMetadata):
''', '''    def _remote_compact_columns(self, table):
        for fk in table.foreign_keys:
            compacted = self.compact_columns.get((fk.dst_schema, fk.dst_table))
            if not compacted:
                continue
            for src_col, dst_col in zip(fk.columns, fk.dst_columns):
                if dst_col in compacted:
                    yield src_col, fk

    def _validate_filters(self, meta: DatabaseMetadata):
''')
# compact id expression shared between both places
N(S, '''                table_q = sa.select(
                    (
                        sa.func.row_number(type_=sa.Integer).over(
                            order_by=[
                                subq.c[col.name] for col in table.table_obj.primary_key
                            ],
                        )
                        + self.config.compact.start_key
                        - 1
                    ).label(SUBSETTER_COMPACT_COLUMN),
                    subq,
                )
''', '''                table_q = sa.select(
                    self._compact_id(subq, table.table_obj).label(
                        SUBSETTER_COMPACT_COLUMN
                    ),
                    subq,
                )
''', S, '''                id_col = subq.columns.get(
                    SUBSETTER_COMPACT_COLUMN,
                    sa.func.row_number(type_=sa.Integer).over(
                        order_by=[
                            subq.c[col.name] for col in src_table.table_obj.primary_key
                        ],
                    )
                    + self.config.compact.start_key
                    - 1,
                )
''', '''                if SUBSETTER_COMPACT_COLUMN in subq.columns:
                    id_col = subq.columns[SUBSETTER_COMPACT_COLUMN]
                else:
                    id_col = self._compact_id(subq, src_table.table_obj)
''', S, '''    def _validate_filters(self, meta: DatabaseMetadata):
''', '''    def _compact_id(self, subq: sa.Subquery, table_obj: sa.Table) -> sa.ColumnElement:
        """Numbers the rows of the query starting at the configured key"""
        keys = [subq.c[col.name] for col in table_obj.primary_key]
        row_number = sa.func.row_number(type_=sa.Integer).over(order_by=keys)
        return row_number + (self.config.compact.start_key - 1)

    def _validate_filters(self, meta: DatabaseMetadata):
''')
# compact: the candidates are computed by a generator
N(S, '''        for table_key, table_meta in meta.tables.items():
            if (
                not self.config.compact.primary_keys
                and not self.config.compact.auto_increment_keys
            ):
                break
            if len(table_meta.primary_key) != 1:
                continue
            if f"{table_key[0]}.{table_key[1]}" in self.passthrough_tables:
                continue

            col = table_meta.table_obj.columns[table_meta.primary_key[0]]
            if not issubclass(col.type.python_type, int):  # type: ignore
                continue

            if (
                self.config.compact.primary_keys
                or table_meta.table_obj.autoincrement_column is not None
            ):
                compact_columns.setdefault(table_key, set()).add(col.name)
''', '''        for table_key, table_meta in meta.tables.items():
            key = self._compactable_key(table_meta)
            if key is None or str(table_meta) in self.passthrough_tables:
                continue
            if table_key not in compact_columns:
                compact_columns[table_key] = set()
            compact_columns[table_key].add(key)
''', S, '''    def _materialization_order(
''', '''    def _compactable_key(self, table_meta) -> Optional[str]:
        compact = self.config.compact
        table_obj = table_meta.table_obj
        if not compact.primary_keys:
            if not compact.auto_increment_keys:
                return None
            if table_obj.autoincrement_column is None:
                return None
        if len(table_meta.primary_key) != 1:
            return None
        (key,) = table_meta.primary_key
        is_int = issubclass(table_obj.columns[key].type.python_type, int)
        return key if is_int else None

    def _materialization_order(
''')
# materialization: counts with Counter
N(S, '''            for key, count in counter.items():
                max_ref_counts[key] = max(max_ref_counts.get(key, 0), count)

        order: List[Tuple[str, str]] = toposort(dep_graph)
        return [
            (schema, table_name, max_ref_counts[(schema, table_name)])
            for schema, table_name in order
            if (schema, table_name) in max_ref_counts
        ]
''', '''            for key in counter:
                if counter[key] > max_ref_counts.get(key, 0):
                    max_ref_counts[key] = counter[key]

        result: List[Tuple[str, str, int]] = []
        for key in toposort(dep_graph):
            ref_count = max_ref_counts.get(key)
            if ref_count is not None:
                result.append((*key, ref_count))
        return result
''')
# materialization: copies in a helper
N(S, '''            if meta.supports_temp_reopen:
                continue

            # Create additional copies of the temporary table if needed. This is
            # to work around an issue on mysql with reopening temporary tables.
            for index in range(1, ref_count):
                meta.temp_tables[(schema, table_name, index)], _ = (
                    self.temp_tables.create(
                        conn,
                        schema,
                        meta.temp_tables[(schema, table_name, 0)].select(),
                        name=table_name,
                        primary_key=table.primary_key,
                        indexes=joined_columns[(schema, table_name)],
                    )
                )
                LOGGER.info(
                    "Copied materialization of %s.%s",
                    schema,
                    table_name,
                )
''', '''            if not meta.supports_temp_reopen:
                # Create additional copies of the temporary table if needed. This is
                # to work around an issue on mysql with reopening temporary tables.
                self._copy_materialization(
                    meta,
                    conn,
                    (schema, table_name),
                    ref_count - 1,
                    joined_columns[(schema, table_name)],
                )

    def _copy_materialization(self, meta, conn, key, copies, indexes) -> None:
        original = meta.temp_tables[(*key, 0)]
        for copy in range(copies):
            temp_table, _ = self.temp_tables.create(
                conn,
                key[0],
                original.select(),
                name=key[1],
                primary_key=meta.tables[key].primary_key,
                indexes=indexes,
            )
            meta.temp_tables[(*key, copy + 1)] = temp_table
            LOGGER.info("Copied materialization of %s.%s", *key)
''')
# counting rows with a class
N(S, '''            rows = 0

            def _count_rows(result, total: Optional[int]):
                nonlocal rows
                for row in tqdm(result, total=total, desc="row progress", unit="rows"):
                    # result_processor
                    rows += 1
                    yield row

''', '''            counted = _CountedRows(
                result, self.cached_table_sizes.get((schema, table_name))
            )
''', S, '''                _count_rows(result, self.cached_table_sizes.get((schema, table_name))),
''', '''                counted,
''', S, '''            LOGGER.info("Sampled %d rows for %s.%s", rows, schema, table_name)
''', '''            LOGGER.info("Sampled %d rows for %s.%s", counted.rows, schema, table_name)
''', S, '''class Sampler:
    def __init__(
''', '''class _CountedRows:
    """Iterates over a result, showing progress and counting its rows"""

    def __init__(self, result, total: Optional[int]) -> None:
        self.result = result
        self.total = total
        self.rows = 0

    def __iter__(self):
        for row in tqdm(
            self.result, total=self.total, desc="row progress", unit="rows"
        ):
            self.rows += 1
            yield row


class Sampler:
    def __init__(
''')
# multiplicity: closure with a worklist of changed tables
N(S, '''        while True:
            changes = False

            for table_name in plan.queries:
                table = meta.tables[parse_table_name(table_name)]

                cols = result.get(table_name, set())
                start_len = len(cols)
                for fk in table.foreign_keys:
                    dst_mapped = result.get(f"{fk.dst_schema}.{fk.dst_table}", set())
                    cols.update(
                        src_col
                        for src_col, dst_col in zip(fk.columns, fk.dst_columns)
                        if dst_col in dst_mapped
                    )

                if cols and table_name in ignore_tables:
                    raise ValueError(
                        "Passthrough foreign key points to multiplied column"
                    )

                changes = changes or len(cols) > start_len

            if not changes:
                break
''', '''        def _propagate() -> bool:
            changed = False
            for table_name in plan.queries:
                table = meta.tables[parse_table_name(table_name)]
                cols = result.get(table_name, set())
                found = set()
                for fk in table.foreign_keys:
                    dst_mapped = result.get(f"{fk.dst_schema}.{fk.dst_table}", set())
                    for src_col, dst_col in zip(fk.columns, fk.dst_columns):
                        if dst_col in dst_mapped:
                            found.add(src_col)
                if table_name in ignore_tables and found:
                    raise ValueError(
                        "Passthrough foreign key points to multiplied column"
                    )
                if not found <= cols:
                    cols |= found
                    changed = True
            return changed

        while _propagate():
            pass
''')
N(S, '''        for table_name in plan.queries:
            table = meta.tables[parse_table_name(table_name)]
            col_map = {column.name: column for column in table.table_obj.columns}

            # Verify multiplied columns are integer
            for col_name in result.get(table_name, set()):
                col = col_map[col_name]
                if not issubclass(col.type.python_type, int):  # type: ignore
                    raise ValueError(
                        f"Primary key column {table_name}.{col_name} "
                        "must be integral when using multiplicity"
                    )

        return result
''', '''        self._verify_integral(meta, result)
        return result

    @staticmethod
    def _verify_integral(
        meta: DatabaseMetadata, multiplied: Dict[str, Set[str]]
    ) -> None:
        """Verify multiplied columns are integer"""
        for table_name, col_names in multiplied.items():
            columns = meta.tables[parse_table_name(table_name)].table_obj.columns
            for col_name in sorted(col_names):
                python_type = columns[col_name].type.python_type
                if issubclass(python_type, int):
                    continue
                raise ValueError(
                    f"Primary key column {table_name}.{col_name} "
                    "must be integral when using multiplicity"
                )
''')
# the sampler: metadata in a method
N(S, '''        meta, _ = DatabaseMetadata.from_engine(
            self.source_engine, [glob.escape(table) for table in plan.queries]
        )
        if self.config.infer_foreign_keys != "none":
            meta.infer_missing_foreign_keys(
                infer_all=self.config.infer_foreign_keys == "all"
            )
        self._validate_filters(meta)
''', '''        meta = self._source_metadata(plan.queries)
        self._validate_filters(meta)
''', S, '''    def _get_compact_columns(
''', '''    def _source_metadata(self, tables: Iterable[str]) -> DatabaseMetadata:
        selected = list(map(glob.escape, tables))
        meta, _ = DatabaseMetadata.from_engine(self.source_engine, selected)
        infer = self.config.infer_foreign_keys
        if infer == "none":
            return meta
        meta.infer_missing_foreign_keys(infer_all=infer == "all")
        return meta

    def _get_compact_columns(
''')

# --- planner
N(P, '''        for index, extra_fk in enumerate(self.config.extra_fks):
            src_schema, src_table_name = parse_table_name(extra_fk.src_table)
            dst_schema, dst_table_name = parse_table_name(extra_fk.dst_table)
            table = self.meta.tables.get((src_schema, src_table_name))
            if table is None:
                LOGGER.warning(
                    "Found no source table %s.%s referenced in extra_fks[%d]",
                    src_schema,
                    src_table_name,
                    index,
                )
                continue

            src_missing_cols = {
                col
                for col in extra_fk.src_columns
                if col not in table.table_obj.columns
            }
            if src_missing_cols:
                LOGGER.warning(
                    "Columns %s do not exist in %s.%s referenced in extra_fks[%d]",
                    src_missing_cols,
                    src_schema,
                    src_table_name,
                    index,
                )
                continue

            dst_table = self.meta.tables.get((dst_schema, dst_table_name))
            if dst_table is None:
                LOGGER.warning(
                    "Found no destination table %s.%s referenced in add_extra_fks[%d]",
                    dst_schema,
                    dst_table_name,
                    index,
                )
                continue

            dst_missing_cols = {
                col
                for col in extra_fk.dst_columns
                if col not in dst_table.table_obj.columns
            }
            if dst_missing_cols:
                LOGGER.warning(
                    "Columns %s do not exist in %s.%s referenced in extra_fks[%d]",
                    dst_missing_cols,
                    dst_schema,
                    dst_table_name,
                    index,
                )
                continue

            table.foreign_keys.append(
                ForeignKey(
                    columns=tuple(extra_fk.src_columns),
                    dst_schema=dst_schema,
                    dst_table=dst_table_name,
                    dst_columns=tuple(extra_fk.dst_columns),
                ),
            )
''', '''        for index, extra_fk in enumerate(self.config.extra_fks):
            table = self._find_fk_end(
                index, "source", extra_fk.src_table, extra_fk.src_columns
            )
            dst_table = self._find_fk_end(
                index, "destination", extra_fk.dst_table, extra_fk.dst_columns
            )
            if table is None or dst_table is None:
                continue

            table.foreign_keys.append(
                ForeignKey(
                    tuple(extra_fk.src_columns),
                    dst_table.schema,
                    dst_table.name,
                    tuple(extra_fk.dst_columns),
                ),
            )

    def _find_fk_end(
        self, index: int, side: str, full_name: str, columns: List[str]
    ) -> Optional[TableMetadata]:
        """Find the table at one end of an extra foreign key, if it has the columns"""
        table = self.meta.tables.get(parse_table_name(full_name))
        if table is None:
            LOGGER.warning(
                "Found no %s table %s referenced in extra_fks[%d]",
                side,
                full_name,
                index,
            )
            return None
        missing = [col for col in columns if col not in table.table_obj.columns]
        if missing:
            LOGGER.warning(
                "Columns %s do not exist in %s referenced in extra_fks[%d]",
                missing,
                full_name,
                index,
            )
            return None
        return table
''')
N(P, '''        fk_joins = []
        for fk in foreign_keys or rev_foreign_keys:
            dst_table = self.meta.tables[(fk.dst_schema, fk.dst_table)]
            half_unique = _is_distinct(table.table_obj, fk.columns) or _is_distinct(
                dst_table.table_obj, fk.dst_columns
            )
            fk_joins.append(
                SQLLeftJoin(
                    right=SQLTableIdentifier(
                        table_schema=fk.dst_schema,
                        table_name=fk.dst_table,
                        sampled=True,
                    ),
                    left_columns=list(fk.columns),
                    right_columns=list(fk.dst_columns),
                    half_unique=half_unique,
                )
            )
''', '''        def _fk_join(fk: ForeignKey) -> SQLLeftJoin:
            dst_key = (fk.dst_schema, fk.dst_table)
            ends = (
                (table.table_obj, fk.columns),
                (self.meta.tables[dst_key].table_obj, fk.dst_columns),
            )
            return SQLLeftJoin(
                right=SQLTableIdentifier(
                    table_schema=fk.dst_schema,
                    table_name=fk.dst_table,
                    sampled=True,
                ),
                left_columns=[*fk.columns],
                right_columns=[*fk.dst_columns],
                half_unique=any(_is_distinct(obj, cols) for obj, cols in ends),
            )

        fk_joins = [_fk_join(fk) for fk in foreign_keys or rev_foreign_keys]
''')
N(P, '''            target_constraints: List[SQLWhereClause] = []
            if target.percent is not None:
                target_constraints.append(
                    SQLWhereClauseRandom(
                        type_="random", threshold=target.percent / 100.0
                    )
                )

            if target.sql is not None:
                target_constraints.append(
                    SQLWhereClauseSQL(
                        type_="sql",
                        sql=target.sql,
                    )
                )

            for column, patterns in target.like.items():
                target_constraints.extend(
                    SQLWhereClauseOperator(
                        type_="operator",
                        operator="like",
                        column=column,
                        value=pattern,
                    )
                    for pattern in patterns
                )

            for column, in_list in target.in_.items():
                target_constraints.append(
                    SQLWhereClauseIn(
                        type_="in",
                        columns=[column],
                        values=[[value] for value in in_list],
                    )
                )

            if target.all_:
                target_constraints.clear()
            target_constraints.extend(conf_constraints_sql)

            statements.append(
                SQLStatementSelect(
                    type_="select",
                    from_=SQLTableIdentifier(
                        table_schema=table.schema,
                        table_name=table.name,
                    ),
                    where=SQLWhereClauseAnd(type_="and", conditions=target_constraints),
                    limit=None if target.all_ else target.amount,
                )
            )
''', '''            statements.append(
                self._target_statement(table, target, conf_constraints_sql)
            )
''', P, '''    def _plan_table(
        self,
''', '''    @staticmethod
    def _target_conditions(target: PlannerConfig.TargetConfig):
        if target.percent is not None:
            yield SQLWhereClauseRandom(
                type_="random", threshold=target.percent / 100.0
            )

        if target.sql is not None:
            yield SQLWhereClauseSQL(type_="sql", sql=target.sql)

        for column, patterns in target.like.items():
            for pattern in patterns:
                yield SQLWhereClauseOperator(
                    type_="operator", operator="like", column=column, value=pattern
                )

        for column, in_list in target.in_.items():
            yield SQLWhereClauseIn(
                type_="in", columns=[column], values=[[value] for value in in_list]
            )

    def _target_statement(
        self,
        table: TableMetadata,
        target: PlannerConfig.TargetConfig,
        extra_conditions: List[SQLWhereClause],
    ) -> SQLStatementSelect:
        conditions: List[SQLWhereClause] = []
        limit = None
        if not target.all_:
            conditions += self._target_conditions(target)
            limit = target.amount
        conditions += extra_conditions
        return SQLStatementSelect(
            type_="select",
            from_=SQLTableIdentifier(table_schema=table.schema, table_name=table.name),
            where=SQLWhereClauseAnd(type_="and", conditions=conditions),
            limit=limit,
        )

    def _plan_table(
        self,
''')
N(P, '''        order_st = set(order)
        for table in graph:
            if table and table not in order_st:
                LOGGER.warning(
                    "warning: no relationship found to %s, ignoring table", table
                )

        return order
''', '''        self._warn_unrelated(set(graph) - {source, *order})
        return order

    @staticmethod
    def _warn_unrelated(tables: Set[str]) -> None:
        for table in sorted(tables):
            LOGGER.warning(
                "warning: no relationship found to %s, ignoring table", table
            )
''')
N(P, '''        for schema, table_name in self.passthrough_tables:
            table = self.meta.tables.get((schema, table_name))
            if table is None:
                not_found_tables.add((schema, table_name))
                LOGGER.warning(
                    "Could not find passthrough table %s.%s", schema, table_name
                )
                continue

            # Ensure that passthrough tables have no foreign keys to tables outside of this set.
            for foreign_key in table.foreign_keys:
                if (
                    foreign_key.dst_schema,
                    foreign_key.dst_table,
                ) not in self.passthrough_tables:
                    raise ValueError(
                        f"Passthrough table {schema!r}.{table_name!r} has foreign key to non passthrough "
                        f"table {foreign_key.dst_schema!r}.{foreign_key.dst_table!r}"
                    )

        self.passthrough_tables -= not_found_tables
''', '''        for key in sorted(self.passthrough_tables):
            if key in self.meta.tables:
                self._check_passthrough_fks(self.meta.tables[key])
            else:
                not_found_tables.add(key)
                LOGGER.warning("Could not find passthrough table %s.%s", *key)

        self.passthrough_tables = self.passthrough_tables.difference(not_found_tables)

    def _check_passthrough_fks(self, table: TableMetadata) -> None:
        """
        Ensure that a passthrough table has no foreign keys to tables outside of this set.
        """
        outside = [
            fk
            for fk in table.foreign_keys
            if (fk.dst_schema, fk.dst_table) not in self.passthrough_tables
        ]
        if outside:
            raise ValueError(
                f"Passthrough table {table.schema!r}.{table.name!r} has foreign key to non passthrough "
                f"table {outside[0].dst_schema!r}.{outside[0].dst_table!r}"
            )
''')
N(P, '''        processed = set()
        for table in order:
            schema, table_name = parse_table_name(table)
            processed.add((schema, table_name))
            queries[table] = self._plan_table(
                self.meta.tables[(schema, table_name)],
                processed,
                target=self.config.targets.get(table),
            )
''', '''        keys = [parse_table_name(table) for table in order]
        for count, (table, key) in enumerate(zip(order, keys), start=1):
            queries[table] = self._plan_table(
                self.meta.tables[key],
                set(keys[:count]),
                target=self.config.targets.get(table),
            )
''')

# --- metadata
N(MD, '''        num_selected_tables = len(table_queue)
        for schema, table in table_queue:
            table_obj = metadata_obj.tables[f"{schema}.{table}"]
            for ref_schema, ref_table in table_deps[(schema, table)]:
                if (ref_schema, ref_table) not in table_set:
                    table_set.add((ref_schema, ref_table))
                    table_queue.append((ref_schema, ref_table))

        return (
            cls(
                metadata_obj,
                {
                    (schema, table): TableMetadata(
                        metadata_obj.tables[f"{schema}.{table}"]
                    )
                    for schema, table in table_queue
                },
                supports_temp_reopen=engine.dialect.name != "mysql",
            ),
            table_queue[num_selected_tables:],
        )
''', '''        additional_tables = cls._close(table_queue, table_deps)
        tables = {}
        for schema, table in table_queue + additional_tables:
            tables[schema, table] = TableMetadata(
                metadata_obj.tables[f"{schema}.{table}"]
            )
        meta = cls(
            metadata_obj,
            tables,
            supports_temp_reopen=engine.dialect.name != "mysql",
        )
        return meta, additional_tables

    @staticmethod
    def _close(selected, table_deps) -> List[Tuple[str, str]]:
        """Finds the tables that are not selected but reachable from those that are"""
        found = dict.fromkeys(selected)
        pending = collections.deque(selected)
        additional = []
        while pending:
            for ref in table_deps.get(pending.popleft(), ()):
                if ref in found:
                    continue
                found[ref] = None
                additional.append(ref)
                pending.append(ref)
        return additional
''', MD, '''        table_set: Set[Tuple[str, str]] = set()
        table_queue''', '''        table_queue''', MD, '''                table_set.add((table_obj.schema, table_obj.name))
''', '')
N(MD, '''        pk_map: Dict[Tuple[str, Tuple[str, ...]], Optional[TableMetadata]] = {}
        for table in self.tables.values():
            if not table.primary_key:
                continue

            map_key = _key_pk(table.schema, table.primary_key)
            if map_key in pk_map:
                LOGGER.info("Duplicate primary key columns found %r", table.primary_key)
                pk_map[map_key] = None
            else:
                pk_map[map_key] = table
''', '''        tables_by_pk = collections.defaultdict(list)
        for table in self.tables.values():
            if table.primary_key:
                tables_by_pk[_key_pk(table.schema, table.primary_key)].append(table)
        pk_map = {}
        for map_key, candidates in tables_by_pk.items():
            if len(candidates) == 1:
                pk_map[map_key] = candidates[0]
            else:
                LOGGER.info("Duplicate primary key columns found %r", map_key)
''')
N(MD, '''        reference_count = {}

        def _context(ident: SQLTableIdentifier) -> sa.Table:
            if ident.sampled:
                if self.supports_temp_reopen:
                    index = 0
                else:
                    index = reference_count.get(
                        (ident.table_schema, ident.table_name), 0
                    )
                    reference_count[(ident.table_schema, ident.table_name)] = index + 1
                return self.temp_tables[(ident.table_schema, ident.table_name, index)]
            return self.tables[(ident.table_schema, ident.table_name)].table_obj

        return _context
''', '''        counters = collections.defaultdict(itertools.count)

        def _context(ident: SQLTableIdentifier) -> sa.Table:
            key = (ident.table_schema, ident.table_name)
            if not ident.sampled:
                return self.tables[key].table_obj
            index = 0 if self.supports_temp_reopen else next(counters[key])
            return self.temp_tables[(*key, index)]

        return _context
''', MD, '''import dataclasses
import logging
''', '''import dataclasses
import itertools
import logging
''')
# --- plan model
N(PM, '''        if self.joins:
            joined_cols: List[sa.ColumnExpression] = []
            joined: sa.FromClause = table_obj
            exists_constraints: List[sa.ColumnExpressionArgument] = []
            for join in self.joins:  # pylint: disable=not-an-iterable
                right = join.right.build(context).alias()

                if join.half_unique and table_obj.primary_key:
                    joined = joined.join(
                        right,
                        onclause=sa.and_(
                            *(
                                table_obj.c[lft_col] == right.c[rht_col]
                                for lft_col, rht_col in zip(
                                    join.left_columns, join.right_columns
                                )
                            )
                        ),
                        isouter=self.joins_outer,
                    )
                    joined_cols.extend(
                        right.c[rht_col] for rht_col in join.right_columns
                    )
                else:
                    exists_constraints.append(
                        sa.exists().where(
                            *(
                                table_obj.c[lft_col] == right.c[rht_col]
                                for lft_col, rht_col in zip(
                                    join.left_columns, join.right_columns
                                )
                            )
                        )
                    )

            stmt = stmt.select_from(joined)
''', '''        if self.joins:
            joined_cols: List[sa.ColumnExpression] = []
            joined: sa.FromClause = table_obj
            exists_constraints: List[sa.ColumnExpressionArgument] = []
            for join in self.joins:  # pylint: disable=not-an-iterable
                right = join.right.build(context).alias()
                matches = join.conditions(table_obj, right)

                if not join.half_unique or not table_obj.primary_key:
                    exists_constraints.append(sa.exists().where(*matches))
                    continue

                joined = joined.join(
                    right, onclause=sa.and_(*matches), isouter=self.joins_outer
                )
                joined_cols += [right.c[rht_col] for rht_col in join.right_columns]

            stmt = stmt.select_from(joined)
''', PM, '''    right_columns: List[str]
    half_unique: bool = True
''', '''    right_columns: List[str]
    half_unique: bool = True

    def conditions(self, left: sa.FromClause, right: sa.FromClause):
        return [
            left.c[lft_col] == right.c[rht_col]
            for lft_col, rht_col in zip(self.left_columns, self.right_columns)
        ]
''')
N(PM, '''        simp_statements = [
            simp_statement
            for statement in self.statements
            if not isinstance(
                (simp_statement := statement.simplify()).where, SQLWhereClauseFalse
            )
        ]

        if not simp_statements:
            return self.statements[0].simplify()

        statement0 = simp_statements[0]
        if len(simp_statements) == 1:
            return statement0

        for statement in simp_statements:
            if statement.from_ != statement0.from_:
                break
            if statement.columns != statement0.columns:
                break
            if statement.limit is not None:
                break
            if statement.joins:
                break
        else:
            return SQLStatementSelect(
''', '''        simplified = [statement.simplify() for statement in self.statements]
        simp_statements = [
            statement
            for statement in simplified
            if not isinstance(statement.where, SQLWhereClauseFalse)
        ]

        if not simp_statements:
            return simplified[0]

        statement0, *others = simp_statements
        if not others:
            return statement0

        if all(
            statement.limit is None
            and not statement.joins
            and statement.from_ == statement0.from_
            and statement.columns == statement0.columns
            for statement in simp_statements
        ):
            return SQLStatementSelect(
''')
# And / Or share a helper
N(PM, '''        simp_conditions: List["SQLWhereClause"] = [
            simp_condition
            for condition in self.conditions
            if not isinstance(
                simp_condition := condition.simplify(), SQLWhereClauseTrue
            )
        ]
        simp_conditions = list(
            itertools.chain(
                *(
                    cond.conditions if isinstance(cond, SQLWhereClauseAnd) else (cond,)
                    for cond in simp_conditions
                )
            )
        )
        if any(
            isinstance(condition, SQLWhereClauseFalse) for condition in simp_conditions
        ):
            return SQLWhereClauseFalse(type_="false")
''', '''        simp_conditions = _flatten_simplified(
            self.conditions, SQLWhereClauseAnd, SQLWhereClauseTrue
        )
        for condition in simp_conditions:
            if isinstance(condition, SQLWhereClauseFalse):
                return condition
''', PM, '''        simp_conditions: List["SQLWhereClause"] = [
            simp_condition
            for condition in self.conditions
            if not isinstance(
                simp_condition := condition.simplify(), SQLWhereClauseFalse
            )
        ]
        simp_conditions = list(
            itertools.chain(
                *(
                    cond.conditions if isinstance(cond, SQLWhereClauseOr) else (cond,)
                    for cond in simp_conditions
                )
            )
        )
        if any(
            isinstance(condition, SQLWhereClauseTrue) for condition in simp_conditions
        ):
            return SQLWhereClauseTrue(type_="true")
''', '''        simp_conditions = _flatten_simplified(
            self.conditions, SQLWhereClauseOr, SQLWhereClauseFalse
        )
        for condition in simp_conditions:
            if isinstance(condition, SQLWhereClauseTrue):
                return condition
''', PM, '''class SQLWhereClauseAnd(BaseModel):
''', '''def _flatten_simplified(conditions, same_type, neutral_type) -> List[Any]:
    """
    Simplifies the conditions, leaving out neutral elements and merging in the
    conditions of those of the same type as the clause they are part of.
    """
    result: List[Any] = []
    for condition in conditions:
        simplified = condition.simplify()
        if isinstance(simplified, neutral_type):
            continue
        if isinstance(simplified, same_type):
            result.extend(simplified.conditions)
        else:
            result.append(simplified)
    return result


class SQLWhereClauseAnd(BaseModel):
''', PM, '''import itertools
from typing''', '''from typing''')
# --- solver
N(SO, '''    q = []
    for u, edges in G.items():
        if not edges:
            q.append(u)

    RG = reverse_graph(G)
    deg = {u: len(edges) for u, edges in G.items()}
    for u in q:
        for v in RG[u]:
            deg[v] -= 1
            if not deg[v]:
                # This is intended and well-defined behavior
                # pylint: disable=modified-iterating-list
                q.append(v)

    if len(q) < len(G):
        raise ValueError("Cycle detected in graph")

    return q
''', '''    RG = reverse_graph(G)
    pending = {u: len(edges) for u, edges in G.items()}
    ready = [u for u, count in pending.items() if count == 0]
    order: List[NodeT] = []
    while ready:
        order += ready
        following: List[NodeT] = []
        for u in ready:
            for v in RG[u]:
                pending[v] -= 1
                if pending[v] == 0:
                    following.append(v)
        ready = following

    if len(order) != len(G):
        raise ValueError("Cycle detected in graph")

    return order
''')
N(SO, '''    RG = reverse_graph(G)

    if not G[source]:
        G, RG = RG, G

    vis = {source}
    H = [source]
    result = [source]
    while H:
        H = toposort_reachable(G, H, vis)
        result.extend(H)
        vis.update(H)
        G, RG = RG, G

    return result
''', '''    graphs = [G, reverse_graph(G)]
    if not G[source]:
        graphs.reverse()

    vis = {source}
    result = [source]
    layer = [source]
    turn = 0
    while layer:
        layer = toposort_reachable(graphs[turn % 2], layer, vis)
        result += layer
        vis |= set(layer)
        turn += 1

    return result
''')
