"""Edits that keep the behaviour: an eighth set, larger restructurings."""

SO = "solver.py"

# --- sampler: create() split in steps
N(S, '''            for index_idx, index in enumerate(table_obj.indexes):
                if any(isinstance(expr, sa.TextClause) for expr in index.expressions):
''', '''            self._copy_indexes(table, table_obj, remapped_table_obj)

        if tables_created:
            LOGGER.info("Creating %d tables in destination", len(tables_created))
            metadata_obj.create_all(bind=self.engine)
            for remapped_table_obj in tables_created:
                self.meta.track_new_table(remapped_table_obj)

    def _copy_indexes(self, table, table_obj, remapped_table_obj) -> None:
            for index_idx, index in enumerate(table_obj.indexes):
                if any(isinstance(expr, sa.TextClause) for expr in index.expressions):
''', S, '''                    dialect_options=index.dialect_options,
                    **index.dialect_kwargs,
                )

        if tables_created:
            LOGGER.info("Creating %d tables in destination", len(tables_created))
            metadata_obj.create_all(bind=self.engine)
            for remapped_table_obj in tables_created:
                self.meta.track_new_table(remapped_table_obj)
''', '''                    dialect_options=index.dialect_options,
                    **index.dialect_kwargs,
                )
''')
N(S, '''                conditions = {
                    key
                    for key, value in index.dialect_kwargs.items()
                    if key.endswith("_where") and value is not None
                }
                if conditions - {f"{self.engine.dialect.name}_where"}:
                    # Without''', '''                own_condition = f"{self.engine.dialect.name}_where"
                foreign_conditions = [
                    key
                    for key, value in index.dialect_kwargs.items()
                    if value is not None
                    and key.endswith("_where")
                    and key != own_condition
                ]
                if foreign_conditions:
                    # Without''')
N(S, '''                index_name = f"idx_subsetter_{remapped_table_obj.name}_{index_idx}"
                if len(index_name.encode()) > MAX_INDEX_NAME_BYTES:
                    name_hash = hashlib.sha256(remapped_table_obj.name.encode())
                    index_name = (
                        f"idx_subsetter_{name_hash.hexdigest()[:32]}_{index_idx}"
                    )
                sa.Index(
                    index_name,
                    *(
                        (
                            remapped_table_obj.columns[col.name]
                            if isinstance(col, sa.Column)
                            else col
                        )
                        for col in index.columns
                    ),
''', '''                index_cols = []
                for col in index.columns:
                    if isinstance(col, sa.Column):
                        col = remapped_table_obj.columns[col.name]
                    index_cols.append(col)
                sa.Index(
                    self._index_name(remapped_table_obj.name, index_idx),
                    *index_cols,
''', S, '''    def truncate(self) -> None:
        for schema, table_name in self.additional_tables:
''', '''    @staticmethod
    def _index_name(table_name: str, index_idx: int) -> str:
        index_name = f"idx_subsetter_{table_name}_{index_idx}"
        if len(index_name.encode("utf-8")) <= MAX_INDEX_NAME_BYTES:
            return index_name
        digest = hashlib.sha256(table_name.encode("utf-8")).hexdigest()
        return f"idx_subsetter_{digest[:32]}_{index_idx}"

    def truncate(self) -> None:
        for schema, table_name in self.additional_tables:
''')
N(S, '''        def _remap_cols(cols: Iterable[sa.Column]) -> List[sa.Column]:
            return [
                table_obj_map[f"{col.table.schema}.{col.table.name}"].columns[col.name]
                for col in cols
            ]

''', '''        def _remap_col(col: sa.Column) -> sa.Column:
            src_name = f"{col.table.schema}.{col.table.name}"
            return table_obj_map[src_name].columns[col.name]

        def _remap_cols(cols: Iterable[sa.Column]) -> List[sa.Column]:
            return list(map(_remap_col, cols))

''')
# --- prepare() split in steps
N(S, '''        for source_table in toposort(shared_keys):
            for ref_table in shared_keys[source_table]:
                pk_max_values[source_table] = pk_max_values.get(ref_table)
                self.table_offsets[
                    self._remap_table(*parse_table_name(source_table))
                ].clear()
''', '''        for source_table in toposort(shared_keys):
            referenced = shared_keys[source_table]
            if not referenced:
                continue
            (ref_table,) = referenced
            pk_max_values[source_table] = pk_max_values.get(ref_table)
            schema, table_name = self._remap_table(*parse_table_name(source_table))
            self.table_offsets[(schema, table_name)] = {}
''')
N(S, '''        if not self.merge:
            return

        pk_max_values = {}
        self.table_offsets.clear()
        for source_table in self.plan.queries:
            if source_table in self.passthrough_tables:
                continue

            schema''', '''        if self.merge:
            self._prepare_merge()

    def _prepare_merge(self) -> None:
        pk_max_values = {}
        self.table_offsets.clear()
        sampled_tables = [
            table for table in self.plan.queries if table not in self.passthrough_tables
        ]
        for source_table in sampled_tables:
            schema''', S, '''        for source_table in self.plan.queries:
            if source_table in self.passthrough_tables:
                continue

            src_schema''', '''        for source_table in sampled_tables:
            src_schema''')
# --- output_result_set
N(S, '''        columns_out = filter_view.columns_out if filter_view else columns
        missing_columns = {
            col for col in columns_out if col not in table.table_obj.columns
        }
        if missing_columns:
''', '''        columns_out = columns
        if filter_view:
            columns_out = filter_view.columns_out
        known_columns = {col.name for col in table.table_obj.columns}
        missing_columns = set(columns_out) - known_columns
        if missing_columns:
''')
N(S, '''        offsets = None
        if table_offsets := self.table_offsets.get((schema, table_name)):
            offsets = [
                (index, table_offsets[col])
                for index, col in enumerate(columns_out)
                if col in table_offsets
            ]
''', '''        table_offsets = self.table_offsets.get((schema, table_name), {})
        offsets = []
        for index, col in enumerate(columns_out):
            offset = table_offsets.get(col)
            if offset is not None:
                offsets.append((index, offset))
''')
N(S, '''        conflict_strategy = self.conflict_strategy
        if self.merge and f"{src_schema}.{src_table_name}" in self.passthrough_tables:
            conflict_strategy = "skip"
''', '''        source_name = f"{src_schema}.{src_table_name}"
        skip_conflicts = self.merge and source_name in self.passthrough_tables
        conflict_strategy = "skip" if skip_conflicts else self.conflict_strategy
''')
N(S, '''                buffer.append(tuple(out_row))
                if len(buffer) > DESTINATION_BUFFER_SIZE:
                    _flush_buffer()
        if buffer:
            _flush_buffer()
''', '''                if len(buffer) >= DESTINATION_BUFFER_SIZE:
                    _flush_buffer()
                buffer.append(tuple(out_row))
        if len(buffer) > 0:
            _flush_buffer()
''')
N(S, '''        def _flush_buffer():
            with self.engine.connect() as conn:
                conn.execute(
                    ConflictInsert(conflict_strategy, table.table_obj, columns_out),
                    [dict(zip(columns_out, row)) for row in buffer],
                )
                conn.commit()
            buffer.clear()
''', '''        def _flush_buffer():
            self._write_rows(table.table_obj, conflict_strategy, columns_out, buffer)
            del buffer[:]
''', S, '''    def insert_order(self) -> List[str]:
        result = []
''', '''    def _write_rows(self, table_obj, conflict_strategy, columns_out, rows) -> None:
        stmt = ConflictInsert(conflict_strategy, table_obj, columns_out)
        params = []
        for row in rows:
            params.append(dict(zip(columns_out, row)))
        with self.engine.connect() as conn:
            conn.execute(stmt, params)
            conn.commit()

    def insert_order(self) -> List[str]:
        result = []
''')
# --- sampler
N(S, '''            build_ctx = meta.sql_build_context()
            if (schema, table_name, 0) in meta.temp_tables:
                query_stmt = meta.temp_tables[(schema, table_name, 0)].select()
            else:
                query_stmt = query.build(build_ctx)
''', '''            build_ctx = meta.sql_build_context()
            materialized = meta.temp_tables.get((schema, table_name, 0))
            query_stmt = (
                query.build(build_ctx) if materialized is None else sa.select(materialized)
            )
''')
N(S, '''            # Update the query to reflect compaction if needed.
            compact_cols = self.compact_columns.get((schema, table_name), set())
            if remote_compact_cols or compact_cols:
                subq = query_stmt.subquery()
                id_col = subq.columns.get(
                    SUBSETTER_COMPACT_COLUMN,
                    sa.func.row_number(type_=sa.Integer).over(
                        order_by=[
                            subq.c[col.name] for col in src_table.table_obj.primary_key
                        ],
                    )
                    + self.config.compact.start_key
                    - 1,
                )
''', '''            # Update the query to reflect compaction if needed.
            compact_cols = self.compact_columns.get((schema, table_name), set())
            if compact_cols or remote_compact_cols:
                subq = query_stmt.subquery()
                if SUBSETTER_COMPACT_COLUMN in subq.columns:
                    id_col = subq.columns[SUBSETTER_COMPACT_COLUMN]
                else:
                    id_col = self._row_number(subq, src_table)
''', S, '''                table_q = sa.select(
                    (
                        sa.func.row_number(type_=sa.Integer).over(
                            order_by=[
                                subq.c[col.name] for col in table.table_obj.primary_key
                            ],
                        )
                        + self.config.compact.start_key
                        - 1
                    ).label(SUBSETTER_COMPACT_COLUMN),
                    subq,
                )
''', '''                table_q = sa.select(
                    self._row_number(subq, table).label(SUBSETTER_COMPACT_COLUMN),
                    subq,
                )
''', S, '''    def _copy_results(
''', '''    def _row_number(self, subq, table):
        order_by = [subq.c[col.name] for col in table.table_obj.primary_key]
        number = sa.func.row_number(type_=sa.Integer).over(order_by=order_by)
        return number + self.config.compact.start_key - 1

    def _copy_results(
''')
N(S, '''            query = plan.queries.get(table)
            if query is None:
                continue

            LOGGER.info("Sampling''', '''            if table not in plan.queries:
                continue
            query = plan.queries[table]

            LOGGER.info("Sampling''')
N(S, '''        self.passthrough_tables = set(plan.passthrough)
        meta, _ = DatabaseMetadata.from_engine(
            self.source_engine, [glob.escape(table) for table in plan.queries]
        )
        if self.config.infer_foreign_keys != "none":
            meta.infer_missing_foreign_keys(
                infer_all=self.config.infer_foreign_keys == "all"
            )
        self._validate_filters(meta)

        table_column_multipliers = self._get_multiplied_columns(meta, plan)
        self.compact_columns = self._get_compact_columns(meta)
''', '''        self.passthrough_tables = set(plan.passthrough)
        meta = self._load_metadata(plan)

        self.compact_columns = self._get_compact_columns(meta)
        table_column_multipliers = self._get_multiplied_columns(meta, plan)
        self._validate_filters(meta)
''', S, '''    def _get_compact_columns(
''', '''    def _load_metadata(self, plan: SubsetPlan) -> DatabaseMetadata:
        patterns = [glob.escape(table) for table in plan.queries]
        meta, _extra = DatabaseMetadata.from_engine(self.source_engine, patterns)
        mode = self.config.infer_foreign_keys
        if mode == "none":
            return meta
        meta.infer_missing_foreign_keys(infer_all=mode == "all")
        return meta

    def _get_compact_columns(
''')
N(S, '''        for table, cols in self.config.compact.columns.items():
            if not cols:
                continue
            table_key = parse_table_name(table)
            if table_key not in meta.tables:
                LOGGER.warning(
                    "Table %s has columns configured for compaction but is not found",
                    table,
                )
            elif table in self.passthrough_tables:
                LOGGER.warning(
                    "Cannot compact columns on passthrough table %s",
                    table,
                )
            else:
                compact_columns[table_key] = set(cols)
''', '''        for table, cols in self.config.compact.columns.items():
            if len(cols) == 0:
                continue
            table_key = parse_table_name(table)
            if table_key not in meta.tables:
                LOGGER.warning(
                    "Table %s has columns configured for compaction but is not found",
                    table,
                )
                continue
            if table in self.passthrough_tables:
                LOGGER.warning(
                    "Cannot compact columns on passthrough table %s",
                    table,
                )
                continue
            compact_columns[table_key] = {*cols}
''')
N(S, '''        for table_name in plan.queries:
            if table_name in ignore_tables:
                continue

            table = meta.tables[parse_table_name(table_name)]

            # Calculate set of directly multiplied columns for this table
            cols = set(self.config.multiplicity.extra_columns.get(table_name, []))
            ignored_pk_cols = set(
                self.config.multiplicity.ignore_primary_key_columns.get(table_name, [])
            )
            cols.update(set(table.primary_key) - ignored_pk_cols)

            result[table_name] = cols
''', '''        def _direct_columns(table_name: str) -> Set[str]:
            conf = self.config.multiplicity
            ignored = conf.ignore_primary_key_columns.get(table_name, [])
            primary_key = meta.tables[parse_table_name(table_name)].primary_key
            cols = {col for col in primary_key if col not in ignored}
            cols |= set(conf.extra_columns.get(table_name, []))
            return cols

        for table_name in plan.queries:
            if table_name not in ignore_tables:
                result[table_name] = _direct_columns(table_name)
''')
N(S, '''            schema, table_name = parse_table_name(table)
            tbl = meta.tables.get((schema, table_name))
            if tbl is None:
                LOGGER.warning("Found filters for unknown table %s", table)
                continue

            FilterViewChain.construct_filter(
                tuple(column.name for column in tbl.table_obj.columns),
                filters,
            )
''', '''            key = parse_table_name(table)
            if key in meta.tables:
                columns = [column.name for column in meta.tables[key].table_obj.columns]
                FilterViewChain.construct_filter(columns, filters)
            else:
                LOGGER.warning("Found filters for unknown table %s", table)
''')
N(S, '''        def _record_sampled_tables(
            counter: Dict[Tuple[str, str], int], ident: SQLTableIdentifier
        ) -> sa.Table:
            key = (ident.table_schema, ident.table_name)
            if ident.sampled:
                counter[key] = counter.get(key, 0) + 1
            return meta.tables[key].table_obj
''', '''        def _record_sampled_tables(
            counter: Dict[Tuple[str, str], int], ident: SQLTableIdentifier
        ) -> sa.Table:
            key = (ident.table_schema, ident.table_name)
            if ident.sampled:
                counter.setdefault(key, 0)
                counter[key] += 1
            return meta.tables[key].table_obj
''')
N(S, '''            query.build(functools.partial(_record_sampled_tables, counter))
''', '''            query.build(lambda ident: _record_sampled_tables(counter, ident))
''')
# --- planner: _plan_table split in steps
N(P, '''        fk_joins = []
        for fk in foreign_keys or rev_foreign_keys:
            dst_table = self.meta.tables[(fk.dst_schema, fk.dst_table)]
            half_unique = _is_distinct(table.table_obj, fk.columns) or _is_distinct(
                dst_table.table_obj, fk.dst_columns
            )
            fk_joins.append(
                SQLLeftJoin(
                    right=SQLTableIdentifier(
                        table_schema=fk.dst_schema,
                        table_name=fk.dst_table,
                        sampled=True,
                    ),
                    left_columns=list(fk.columns),
                    right_columns=list(fk.dst_columns),
                    half_unique=half_unique,
                )
            )
''', '''        def _join(fk: ForeignKey) -> SQLLeftJoin:
            dst_table = self.meta.tables[(fk.dst_schema, fk.dst_table)]
            sides = (
                (table.table_obj, fk.columns),
                (dst_table.table_obj, fk.dst_columns),
            )
            return SQLLeftJoin(
                right=SQLTableIdentifier(
                    table_schema=dst_table.schema,
                    table_name=dst_table.name,
                    sampled=True,
                ),
                left_columns=list(fk.columns),
                right_columns=list(fk.dst_columns),
                half_unique=any(_is_distinct(*side) for side in sides),
            )

        fk_joins = [_join(fk) for fk in (foreign_keys or rev_foreign_keys)]
''')
N(P, '''        # If targetted also calculate target constraint statement
        if target:
            target_constraints: List[SQLWhereClause] = []
            if target.percent''', '''        # If targetted also calculate target constraint statement
        if target:
            statements.append(
                self._target_statement(table, target, conf_constraints_sql)
            )

        return SQLTableQuery(
            statement=SQLStatementUnion(
                type_="union",
                statements=statements,
            ).simplify()
        )

    @staticmethod
    def _target_statement(table, target, conf_constraints_sql):
            target_constraints: List[SQLWhereClause] = []
            if target.percent''', P, '''            statements.append(
                SQLStatementSelect(
                    type_="select",
                    from_=SQLTableIdentifier(
                        table_schema=table.schema,
                        table_name=table.name,
                    ),
                    where=SQLWhereClauseAnd(type_="and", conditions=target_constraints),
                    limit=None if target.all_ else target.amount,
                )
            )

        return SQLTableQuery(
            statement=SQLStatementUnion(
                type_="union",
                statements=statements,
            ).simplify()
        )''', '''            return SQLStatementSelect(
                type_="select",
                from_=SQLTableIdentifier(
                    table_schema=table.schema,
                    table_name=table.name,
                ),
                where=SQLWhereClauseAnd(type_="and", conditions=target_constraints),
                limit=None if target.all_ else target.amount,
            )''')
N(P, '''        conf_constraints = self.config.table_constraints.get(
            f"{table.schema}.{table.name}", []
        )
        if conf_constraints and rev_foreign_keys:
            raise''', '''        conf_constraints = self.config.table_constraints.get(str(table)) or []
        if rev_foreign_keys and len(conf_constraints) > 0:
            raise''')
N(P, '''            table = self.meta.tables.get((src_schema, src_table_name))
            if table is None:
                LOGGER.warning(
                    "Found no source table %s.%s referenced in extra_fks[%d]",
                    src_schema,
                    src_table_name,
                    index,
                )
                continue

            src_missing_cols = {
                col
                for col in extra_fk.src_columns
                if col not in table.table_obj.columns
            }
            if src_missing_cols:
                LOGGER.warning(
                    "Columns %s do not exist in %s.%s referenced in extra_fks[%d]",
                    src_missing_cols,
                    src_schema,
                    src_table_name,
                    index,
                )
                continue

            dst_table = self.meta.tables.get((dst_schema, dst_table_name))
            if dst_table is None:
                LOGGER.warning(
                    "Found no destination table %s.%s referenced in add_extra_fks[%d]",
                    dst_schema,
                    dst_table_name,
                    index,
                )
                continue

            dst_missing_cols = {
                col
                for col in extra_fk.dst_columns
                if col not in dst_table.table_obj.columns
            }
            if dst_missing_cols:
                LOGGER.warning(
                    "Columns %s do not exist in %s.%s referenced in extra_fks[%d]",
                    dst_missing_cols,
                    dst_schema,
                    dst_table_name,
                    index,
                )
                continue
''', '''            table = self._extra_fk_table(
                (src_schema, src_table_name), extra_fk.src_columns, index
            )
            if table is None:
                continue
            dst_table = self._extra_fk_table(
                (dst_schema, dst_table_name), extra_fk.dst_columns, index
            )
            if dst_table is None:
                continue
''', P, '''    def _remove_ignore_fks(self) -> None:
''', '''    def _extra_fk_table(self, key, columns, index):
        """The table an end of an extra foreign key refers to, None if unknown"""
        table = self.meta.tables.get(key)
        if table is None:
            LOGGER.warning(
                "Found no table %s.%s referenced in extra_fks[%d]", *key, index
            )
            return None
        missing = {col for col in columns if col not in table.table_obj.columns}
        if missing:
            LOGGER.warning(
                "Columns %s do not exist in %s.%s referenced in extra_fks[%d]",
                missing,
                *key,
                index,
            )
            return None
        return table

    def _remove_ignore_fks(self) -> None:
''')
N(P, '''            for foreign_key in table.foreign_keys:
                if (
                    foreign_key.dst_schema,
                    foreign_key.dst_table,
                ) not in self.passthrough_tables:
                    raise ValueError(
                        f"Passthrough table {schema!r}.{table_name!r} has foreign key to non passthrough "
                        f"table {foreign_key.dst_schema!r}.{foreign_key.dst_table!r}"
                    )
''', '''            outside = [
                fk
                for fk in table.foreign_keys
                if (fk.dst_schema, fk.dst_table) not in self.passthrough_tables
            ]
            if outside:
                raise ValueError(
                    f"Passthrough table {schema!r}.{table_name!r} has foreign key to non passthrough "
                    f"table {outside[0].dst_schema!r}.{outside[0].dst_table!r}"
                )
''')
N(P, '''        if self.config.infer_foreign_keys != "none":
            self.meta.infer_missing_foreign_keys(
                infer_all=self.config.infer_foreign_keys == "all"
            )
''', '''        infer = self.config.infer_foreign_keys
        if infer == "all":
            self.meta.infer_missing_foreign_keys(infer_all=True)
        elif infer == "schema":
            self.meta.infer_missing_foreign_keys(infer_all=False)
''')
# --- plan model
N(PM, '''        op = self.operator
        column = table_obj.columns[self.column]
        if op == "<":
            return column < self.value
        if op == ">":
            return column > self.value
        if op == "=":
            return column == self.value
        if op in ("<>", "!="):
            return column != self.value
        if op == "like":
            return column.like(self.value)
        if op == "not like":
            return sa.not_(column.like(self.value))
        raise ValueError(f"Unknown operator {op!r}")
''', '''        column = table_obj.columns[self.column]
        builders = {
            "<": lambda: column < self.value,
            ">": lambda: column > self.value,
            "=": lambda: column == self.value,
            "<>": lambda: column != self.value,
            "!=": lambda: column != self.value,
            "like": lambda: column.like(self.value),
            "not like": lambda: sa.not_(column.like(self.value)),
        }
        builder = builders.get(self.operator)
        if builder is None:
            raise ValueError(f"Unknown operator {self.operator!r}")
        return builder()
''')
N(PM, '''        columns = sa.tuple_(*(table_obj.columns[col_name] for col_name in self.columns))
        if isinstance(self.values, list):
            clause = columns.in_(self.values)
        else:
            clause = columns.in_(self.values.build(context))
        if self.negated:
            clause = sa.not_(clause)
        return clause
''', '''        columns = sa.tuple_(*[table_obj.columns[name] for name in self.columns])
        values: Any = self.values
        if not isinstance(values, list):
            values = values.build(context)
        clause = columns.in_(values)
        return sa.not_(clause) if self.negated else clause
''')
N(PM, '''        simp_conditions: List["SQLWhereClause"] = [
            simp_condition
            for condition in self.conditions
            if not isinstance(
                simp_condition := condition.simplify(), SQLWhereClauseTrue
            )
        ]
        simp_conditions = list(
            itertools.chain(
                *(
                    cond.conditions if isinstance(cond, SQLWhereClauseAnd) else (cond,)
                    for cond in simp_conditions
                )
            )
        )
        if any(
            isinstance(condition, SQLWhereClauseFalse) for condition in simp_conditions
        ):
            return SQLWhereClauseFalse(type_="false")
''', '''        simp_conditions: List["SQLWhereClause"] = []
        for condition in self.conditions:
            simp = condition.simplify()
            if isinstance(simp, SQLWhereClauseFalse):
                return SQLWhereClauseFalse(type_="false")
            if isinstance(simp, SQLWhereClauseTrue):
                continue
            if isinstance(simp, SQLWhereClauseAnd):
                simp_conditions.extend(simp.conditions)
            else:
                simp_conditions.append(simp)
''')
N(PM, '''            for join in self.joins:  # pylint: disable=not-an-iterable
                right = join.right.build(context).alias()

                if join.half_unique and table_obj.primary_key:
                    joined = joined.join(
                        right,
                        onclause=sa.and_(
                            *(
                                table_obj.c[lft_col] == right.c[rht_col]
                                for lft_col, rht_col in zip(
                                    join.left_columns, join.right_columns
                                )
                            )
                        ),
                        isouter=self.joins_outer,
                    )
                    joined_cols.extend(
                        right.c[rht_col] for rht_col in join.right_columns
                    )
                else:
                    exists_constraints.append(
                        sa.exists().where(
                            *(
                                table_obj.c[lft_col] == right.c[rht_col]
                                for lft_col, rht_col in zip(
                                    join.left_columns, join.right_columns
                                )
                            )
                        )
                    )
''', '''            for join in self.joins:  # pylint: disable=not-an-iterable
                right = join.right.build(context).alias()
                matches = [
                    table_obj.c[lft_col] == right.c[rht_col]
                    for lft_col, rht_col in zip(join.left_columns, join.right_columns)
                ]
                if not (join.half_unique and table_obj.primary_key):
                    exists_constraints.append(sa.exists().where(*matches))
                    continue
                joined = sa.join(
                    joined, right, sa.and_(*matches), isouter=self.joins_outer
                )
                for rht_col in join.right_columns:
                    joined_cols.append(right.c[rht_col])
''')
N(PM, '''            if self.joins_outer:
                exists_constraints.extend(col.is_not(None) for col in joined_cols)
                stmt = stmt.where(sa.or_(*exists_constraints))
            elif exists_constraints:
                stmt = stmt.where(sa.and_(*exists_constraints))
''', '''            if self.joins_outer:
                matched = [col != None for col in joined_cols]  # noqa: E711
                stmt = stmt.where(sa.or_(*exists_constraints, *matched))
            else:
                for constraint in exists_constraints:
                    stmt = stmt.where(constraint)
''')
N(PM, '''        for statement in simp_statements:
            if statement.from_ != statement0.from_:
                break
            if statement.columns != statement0.columns:
                break
            if statement.limit is not None:
                break
            if statement.joins:
                break
        else:
            return SQLStatementSelect(
                type_="select",
                from_=statement0.from_,
                columns=statement0.columns,
                where=SQLWhereClauseOr(
                    type_="or",
                    conditions=[
                        (statement.where or SQLWhereClauseTrue(type_="true"))
                        for statement in simp_statements
                    ],
                ),
            ).simplify()

        return SQLStatementUnion(type_="union", statements=simp_statements)
''', '''        mergeable = all(
            statement.from_ == statement0.from_
            and statement.columns == statement0.columns
            and statement.limit is None
            and not statement.joins
            for statement in simp_statements
        )
        if not mergeable:
            return SQLStatementUnion(type_="union", statements=simp_statements)

        conditions = []
        for statement in simp_statements:
            if statement.where is None:
                conditions.append(SQLWhereClauseTrue(type_="true"))
            else:
                conditions.append(statement.where)
        return SQLStatementSelect(
            type_="select",
            from_=statement0.from_,
            columns=statement0.columns,
            where=SQLWhereClauseOr(type_="or", conditions=conditions),
        ).simplify()
''')
N(PM, '''        selects = []
        for statement in self.statements:
            select = statement.build(context)
            if statement.limit is not None:
                # Not all dialects support ordering or limits directly within a union
                select = sa.select(select.subquery())
            selects.append(select)
        return sa.union(*selects)
''', '''        def _part(statement: SQLStatementSelect):
            select = statement.build(context)
            if statement.limit is None:
                return select
            # Not all dialects support ordering or limits directly within a union
            return select.subquery().select()

        return sa.union(*map(_part, self.statements))
''')
# --- filters
N(F, '''        values_out = list(values)
        filtered_values = self.filter_values(
            [values_out[index] for index in self.column_act_indices]
        )
        for index, filtered_value in zip(self.column_act_indices, filtered_values):
            values_out[index] = filtered_value
        return values_out
''', '''        values_out = [*values]
        inputs = []
        for index in self.column_act_indices:
            inputs.append(values_out[index])
        filtered_values = iter(self.filter_values(inputs))
        for index, filtered_value in zip(self.column_act_indices, filtered_values):
            values_out[index] = filtered_value
        return values_out
''')
N(F, '''        cols_in = tuple(columns_in)
        cols_out = cols_in
        filter_views = []
        for filter_config in filter_configs:
            filter_view = filter_config.construct_filter(cols_out, filter_context=filter_context)  # type: ignore
            cols_out = filter_view.columns_out
            filter_views.append(filter_view)
        return cls(cols_in, cols_out, filter_views)
''', '''        cols_in = tuple(columns_in)
        filter_views: List[FilterView] = []
        for filter_config in filter_configs:
            cols = filter_views[-1].columns_out if filter_views else cols_in
            filter_views.append(
                filter_config.construct_filter(cols, filter_context=filter_context)  # type: ignore
            )
        cols_out = filter_views[-1].columns_out if filter_views else cols_in
        return cls(cols_in, cols_out, filter_views)
''')
N(F, '''        column_act_set = set(self.columns_act)
        columns_out = tuple(
            column for column in columns_in if column not in column_act_set
        )
        super().__init__(columns_in, columns_out=columns_out)
        columns_in_index = {column: index for index, column in enumerate(columns_in)}
        self.columns_out_indices = [columns_in_index[column] for column in columns_out]
''', '''        kept = [
            (index, column)
            for index, column in enumerate(columns_in)
            if column not in self.columns_act
        ]
        super().__init__(columns_in, columns_out=[column for _, column in kept])
        self.columns_out_indices = [index for index, _ in kept]
''')
N(F, '''        values_in = tuple(values)
        value = values_in[self.column_index]
        for condition, condition_filter in zip(self.conditions, self.condition_filters):
            if condition.match(value):
                return condition_filter.filter_view(values_in)
        return list(values_in)
''', '''        values_in = tuple(values)
        value = values_in[self.column_index]
        chosen = next(
            (
                condition_filter
                for condition, condition_filter in zip(
                    self.conditions, self.condition_filters
                )
                if condition.match(value)
            ),
            None,
        )
        if chosen is None:
            return list(values_in)
        return chosen.filter_view(values_in)
''')
N(F, '''        for value in values:
            if value is None:
                yield None
            elif isinstance(value, str):
                yield ""
            elif isinstance(value, int):
                yield 0
            elif isinstance(value, float):
                yield 0.0
            elif isinstance(value, datetime):
                yield EPOCH.replace(tzinfo=value.tzinfo)
            else:
                raise ValueError(f"Cannot zero unknown type {str(type(value))}")
''', '''        return map(self._zero, values)

    @staticmethod
    def _zero(value: Any) -> Any:
        if value is None:
            return None
        for kind, zero in ((str, ""), (int, 0), (float, 0.0)):
            if isinstance(value, kind):
                return zero
        if isinstance(value, datetime):
            return EPOCH.replace(tzinfo=value.tzinfo)
        raise ValueError(f"Cannot zero unknown type {str(type(value))}")
''')
N(F, '''        op = self.op
        if op == "is":
            return value is self.value
        if op == "is not":
            return value is not self.value
        if op == "in":
            return value in self.value  # type: ignore
        if op == "not in":
            return value not in self.value  # type: ignore
''', '''        op = self.op
        negated = op in ("is not", "not in")
        if op in ("is", "is not"):
            same = value is self.value
            return not same if negated else same
        if op in ("in", "not in"):
            found = value in self.value  # type: ignore
            return not found if negated else found
''')
# --- metadata
N(MD, '''            map_key = _key_pk(table.schema, table.primary_key)
            if map_key in pk_map:
                LOGGER.info("Duplicate primary key columns found %r", table.primary_key)
                pk_map[map_key] = None
            else:
                pk_map[map_key] = table
''', '''            map_key = _key_pk(table.schema, table.primary_key)
            if map_key not in pk_map:
                pk_map[map_key] = table
                continue
            LOGGER.info("Duplicate primary key columns found %r", table.primary_key)
            pk_map[map_key] = None
''')
N(MD, '''            if ident.sampled:
                if self.supports_temp_reopen:
                    index = 0
                else:
                    index = reference_count.get(
                        (ident.table_schema, ident.table_name), 0
                    )
                    reference_count[(ident.table_schema, ident.table_name)] = index + 1
                return self.temp_tables[(ident.table_schema, ident.table_name, index)]
            return self.tables[(ident.table_schema, ident.table_name)].table_obj
''', '''            key = (ident.table_schema, ident.table_name)
            if not ident.sampled:
                return self.tables[key].table_obj
            index = 0
            if not self.supports_temp_reopen:
                index = reference_count.setdefault(key, 0)
                reference_count[key] += 1
            return self.temp_tables[(*key, index)]
''')
N(MD, '''        for table in self.tables.values():
            for fk in table.foreign_keys:
                dst_table = self.tables.get((fk.dst_schema, fk.dst_table))
                if dst_table is None:
                    continue
                dst_table.rev_foreign_keys.append(
                    ForeignKey(
                        columns=fk.dst_columns,
                        dst_schema=table.schema,
                        dst_table=table.name,
                        dst_columns=fk.columns,
                    )
                )
''', '''        for (schema, name), table in self.tables.items():
            for fk in table.foreign_keys:
                dst_key = (fk.dst_schema, fk.dst_table)
                if dst_key in self.tables:
                    reverse = ForeignKey(
                        fk.dst_columns, schema, name, dst_columns=fk.columns
                    )
                    self.tables[dst_key].rev_foreign_keys.append(reverse)
''')
# --- common
N(C, '''        @sa.event.listens_for(engine, "connect")
        def _set_session_sqls(dbapi_connection, _):
            cursor = dbapi_connection.cursor()
            try:
                if dialect == "sqlite":
                    for db_alias, db_file in self.sqlite_databases.items():
                        escaped_db_file = db_file.replace("'", "''")
                        escaped_alias = db_alias.replace('"', '""')
                        cursor.execute(
                            f"ATTACH DATABASE '{escaped_db_file}' as \\"{escaped_alias}\\""
                        )

                for session_sql in self.session_sqls:
                    cursor.execute(session_sql)
                # Session settings would otherwise be lost in the first rollback
                dbapi_connection.commit()
            finally:
                cursor.close()

        return engine
''', '''        statements = []
        if dialect == "sqlite":
            for db_alias, db_file in self.sqlite_databases.items():
                escaped_db_file = db_file.replace("'", "''")
                escaped_alias = db_alias.replace('"', '""')
                statements.append(
                    f"ATTACH DATABASE '{escaped_db_file}' as \\"{escaped_alias}\\""
                )
        statements.extend(self.session_sqls)

        def _set_session_sqls(dbapi_connection, _):
            cursor = dbapi_connection.cursor()
            try:
                for statement in statements:
                    cursor.execute(statement)
                # Session settings would otherwise be lost in the first rollback
                dbapi_connection.commit()
            finally:
                cursor.close()

        sa.event.listen(engine, "connect", _set_session_sqls)
        return engine
''')
N(C, '''            if dialect == "postgres":
                if server_verify == "identity":
                    sslmode = "verify-full"
                elif server_verify == "cert":
                    sslmode = "verify-ca"
                else:
                    sslmode = "require"
''', '''            if dialect == "postgres":
                sslmode = {"identity": "verify-full", "cert": "verify-ca"}.get(
                    server_verify, "require"
                )
''')
N(C, '''    if dialect == "mysql":
        drivername = "mysql+pymysql"
        if not port:
            port = 3306
        extra_kwargs["query"] = {"charset": "utf8mb4"}
    elif dialect == "postgres":
        drivername = "postgresql+psycopg2"
        if not port:
            port = 5432
        if database:
            extra_kwargs["database"] = database
    elif dialect == "sqlite":
        return sa.engine.URL.create(drivername="sqlite", database=database)
    else:
        raise ValueError(f"Unsupported SQL dialect {dialect!r}")
''', '''    if dialect == "sqlite":
        return sa.engine.URL.create(drivername="sqlite", database=database)

    drivers = {
        "mysql": ("mysql+pymysql", 3306),
        "postgres": ("postgresql+psycopg2", 5432),
    }
    if dialect not in drivers:
        raise ValueError(f"Unsupported SQL dialect {dialect!r}")
    drivername, default_port = drivers[dialect]
    port = port or default_port
    if dialect == "mysql":
        extra_kwargs["query"] = {"charset": "utf8mb4"}
    elif database:
        extra_kwargs["database"] = database
''')
# --- __main__
N(MA, '''    def _dict_merge(lhs, rhs):
        if isinstance(lhs, dict) and isinstance(rhs, dict):
            result = dict(lhs)
            for key, val in rhs.items():
                if key in result:
                    result[key] = _dict_merge(result[key], val)
                else:
                    result[key] = val
            return result
        return rhs
''', '''    def _dict_merge(lhs, rhs):
        if not isinstance(lhs, dict) or not isinstance(rhs, dict):
            return rhs
        merged = {
            key: _dict_merge(lhs[key], val) if key in lhs else val
            for key, val in rhs.items()
        }
        return {**lhs, **merged}
''')
N(MA, '''    with logging_redirect_tqdm():
        try:
            if args.action == "plan":
                _main_plan(args)
            elif args.action == "sample":
                _main_sample(args)
            elif args.action == "subset":
                _main_subset(args)
            else:
                raise RuntimeError("Unknown action")
''', '''    actions = {
        "plan": _main_plan,
        "sample": _main_sample,
        "subset": _main_subset,
    }
    with logging_redirect_tqdm():
        try:
            if args.action not in actions:
                raise RuntimeError("Unknown action")
            actions[args.action](args)
''')
# --- solver
N(SO, '''    vis = {source}
    H = [source]
    result = [source]
    while H:
        H = toposort_reachable(G, H, vis)
        result.extend(H)
        vis.update(H)
        G, RG = RG, G

    return result
''', '''    result = [source]
    layer = [source]
    graphs = (G, RG)
    step = 0
    while layer:
        layer = toposort_reachable(graphs[step % 2], layer, set(result))
        result += layer
        step += 1
    return result
''')
N(SO, '''                if v in ignore:
                    continue
                if v in on_stk:
                    cyc = []
                    for w, _ in reversed(stk):
                        cyc.append(w)
                        if w == v:
                            break
                    raise CycleException(cyc[::-1])
                if v in weight:
                    weight[u] += weight[v]
                else:
                    weight[v] = 1
                    on_stk.add(v)
                    stk.append((v, iter(G[v])))
''', '''                if v in ignore:
                    continue
                if v in on_stk:
                    path = [w for w, _ in stk]
                    raise CycleException(path[path.index(v) :])
                if v not in weight:
                    weight[v] = 1
                    stk.append((v, iter(G[v])))
                    on_stk.add(v)
                    continue
                weight[u] += weight[v]
''')
N(SO, '''    q = []
    for u, edges in G.items():
        if not edges:
            q.append(u)

    RG = reverse_graph(G)
    deg = {u: len(edges) for u, edges in G.items()}
    for u in q:
        for v in RG[u]:
            deg[v] -= 1
            if not deg[v]:
                # This is intended and well-defined behavior
                # pylint: disable=modified-iterating-list
                q.append(v)

    if len(q) < len(G):
        raise ValueError("Cycle detected in graph")

    return q
''', '''    RG = reverse_graph(G)
    deg = {u: len(edges) for u, edges in G.items()}
    q = [u for u in G if deg[u] == 0]
    done = 0
    while done < len(q):
        u = q[done]
        done += 1
        for v in RG[u]:
            deg[v] = deg[v] - 1
            if deg[v] == 0:
                q.append(v)

    if len(q) != len(G):
        raise ValueError("Cycle detected in graph")

    return q
''')
