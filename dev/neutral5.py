"""Edits that keep the behaviour: a fifth set, mostly sampler and planner."""

# --- planner: helpers
N(P, '''        queries: Dict[str, SQLTableQuery] = {}
        for schema, table_name in sorted(self.passthrough_tables):
            queries[f"{schema}.{table_name}"] = SQLTableQuery(
                statement=SQLStatementSelect(
                    type_="select",
                    from_=SQLTableIdentifier(
                        table_schema=schema,
                        table_name=table_name,
                    ),
                )
            )
''', '''        queries = self._passthrough_queries()
''', P, '''    def _solve_order(self) -> List[str]:
''', '''    def _passthrough_queries(self) -> Dict[str, SQLTableQuery]:
        result: Dict[str, SQLTableQuery] = {}
        for schema, table_name in sorted(self.passthrough_tables):
            identifier = SQLTableIdentifier(table_schema=schema, table_name=table_name)
            statement = SQLStatementSelect(type_="select", from_=identifier)
            result[f"{schema}.{table_name}"] = SQLTableQuery(statement=statement)
        return result

    def _solve_order(self) -> List[str]:
''')
N(P, '''        processed = set()
        for table in order:
            schema, table_name = parse_table_name(table)
            processed.add((schema, table_name))
            queries[table] = self._plan_table(
                self.meta.tables[(schema, table_name)],
                processed,
                target=self.config.targets.get(table),
            )

        return SubsetPlan(
            queries=queries,
            passthrough=[
                f"{schema}.{table_name}"
                for schema, table_name in sorted(self.passthrough_tables)
            ],
        )
''', '''        processed: Set[Tuple[str, str]] = set()
        for table in order:
            table_key = parse_table_name(table)
            processed.add(table_key)
            target = self.config.targets.get(table)
            queries[table] = self._plan_table(
                self.meta.tables[table_key], processed, target=target
            )

        passthrough = []
        for schema, table_name in sorted(self.passthrough_tables):
            passthrough.append(f"{schema}.{table_name}")
        return SubsetPlan(queries=queries, passthrough=passthrough)
''')
N(P, '''        fk_joins = []
        for fk in foreign_keys or rev_foreign_keys:
            dst_table = self.meta.tables[(fk.dst_schema, fk.dst_table)]
            half_unique = _is_distinct(table.table_obj, fk.columns) or _is_distinct(
                dst_table.table_obj, fk.dst_columns
            )
            fk_joins.append(
                SQLLeftJoin(
                    right=SQLTableIdentifier(
                        table_schema=fk.dst_schema,
                        table_name=fk.dst_table,
                        sampled=True,
                    ),
                    left_columns=list(fk.columns),
                    right_columns=list(fk.dst_columns),
                    half_unique=half_unique,
                )
            )
''', '''        def _make_join(fk: ForeignKey) -> SQLLeftJoin:
            dst_table = self.meta.tables[(fk.dst_schema, fk.dst_table)]
            half_unique = _is_distinct(table.table_obj, fk.columns)
            if not half_unique:
                half_unique = _is_distinct(dst_table.table_obj, fk.dst_columns)
            return SQLLeftJoin(
                right=SQLTableIdentifier(
                    table_schema=fk.dst_schema,
                    table_name=fk.dst_table,
                    sampled=True,
                ),
                left_columns=list(fk.columns),
                right_columns=list(fk.dst_columns),
                half_unique=half_unique,
            )

        fk_joins = [_make_join(fk) for fk in foreign_keys or rev_foreign_keys]
''')
N(P, '''            cols_st = set(cols)
            for constraint in table_obj.constraints:
                if isinstance(
                    constraint, (sa.PrimaryKeyConstraint, sa.UniqueConstraint)
                ):
                    constraint_cols = set(col.name for col in constraint.columns)
                    if constraint_cols <= cols_st:
                        return True
            return False
''', '''            cols_st = set(cols)
            return any(
                all(col.name in cols_st for col in constraint.columns)
                for constraint in table_obj.constraints
                if isinstance(
                    constraint, (sa.PrimaryKeyConstraint, sa.UniqueConstraint)
                )
            )
''')
N(P, '''        not_found_tables = set()
        for schema, table_name in self.passthrough_tables:
            table = self.meta.tables.get((schema, table_name))
            if table is None:
                not_found_tables.add((schema, table_name))
                LOGGER.warning(
                    "Could not find passthrough table %s.%s", schema, table_name
                )
                continue

            # Ensure''', '''        not_found_tables = {
            key for key in self.passthrough_tables if key not in self.meta.tables
        }
        for schema, table_name in not_found_tables:
            LOGGER.warning("Could not find passthrough table %s.%s", schema, table_name)

        for schema, table_name in self.passthrough_tables:
            if (schema, table_name) in not_found_tables:
                continue
            table = self.meta.tables[(schema, table_name)]

            # Ensure''')
N(P, '''            table.foreign_keys = [
                fk
                for fk in table.foreign_keys
                if (fk.dst_schema, fk.dst_table) != (dst_schema, dst_table_name)
            ]
''', '''            kept = []
            for fk in table.foreign_keys:
                if fk.dst_schema == dst_schema and fk.dst_table == dst_table_name:
                    continue
                kept.append(fk)
            table.foreign_keys = kept
''')
N(P, '''        order_st = set(order)
        for table in graph:
            if table and table not in order_st:
                LOGGER.warning(
                    "warning: no relationship found to %s, ignoring table", table
                )

        return order
''', '''        for table in set(graph) - {source} - set(order):
            LOGGER.warning(
                "warning: no relationship found to %s, ignoring table", table
            )

        return order
''')
N(P, '''        for target in self.config.targets:
            if target not in graph:
                raise ValueError(f"Cannot target unselected table {target}")
''', '''        unselected = [target for target in self.config.targets if target not in graph]
        if unselected:
            raise ValueError(f"Cannot target unselected table {unselected[0]}")
''')
N(P, '''            src_missing_cols = {
                col
                for col in extra_fk.src_columns
                if col not in table.table_obj.columns
            }
            if src_missing_cols:
                LOGGER.warning(
                    "Columns %s do not exist in %s.%s referenced in extra_fks[%d]",
                    src_missing_cols,
                    src_schema,
                    src_table_name,
                    index,
                )
                continue

            dst_table =''', '''            if self._has_missing_cols(table, extra_fk.src_columns, index):
                continue

            dst_table =''', P, '''            dst_missing_cols = {
                col
                for col in extra_fk.dst_columns
                if col not in dst_table.table_obj.columns
            }
            if dst_missing_cols:
                LOGGER.warning(
                    "Columns %s do not exist in %s.%s referenced in extra_fks[%d]",
                    dst_missing_cols,
                    dst_schema,
                    dst_table_name,
                    index,
                )
                continue

            table.foreign''', '''            if self._has_missing_cols(dst_table, extra_fk.dst_columns, index):
                continue

            table.foreign''', P, '''    def _remove_ignore_fks(self) -> None:
''', '''    @staticmethod
    def _has_missing_cols(table: TableMetadata, cols: Iterable[str], index: int) -> bool:
        missing_cols = {col for col in cols if col not in table.table_obj.columns}
        if missing_cols:
            LOGGER.warning(
                "Columns %s do not exist in %s referenced in extra_fks[%d]",
                missing_cols,
                table,
                index,
            )
        return bool(missing_cols)

    def _remove_ignore_fks(self) -> None:
''')
N(P, '''        for table in self.meta.tables.values():
            if (table.schema, table.name) in self.ignore_tables:
                continue
            for fk in table.foreign_keys:
                if (fk.dst_schema, fk.dst_table) in self.ignore_tables:
                    raise ValueError(
                        f"Foreign key from {table.schema!r}.{table.name!r} into"
                        f" ignored table {fk.dst_schema!r}.{fk.dst_table!r}"
                    )
''', '''        for (schema, name), table in self.meta.tables.items():
            if (schema, name) in self.ignore_tables:
                continue
            bad_fk = next(
                (
                    fk
                    for fk in table.foreign_keys
                    if (fk.dst_schema, fk.dst_table) in self.ignore_tables
                ),
                None,
            )
            if bad_fk is not None:
                raise ValueError(
                    f"Foreign key from {schema!r}.{name!r} into"
                    f" ignored table {bad_fk.dst_schema!r}.{bad_fk.dst_table!r}"
                )
''')
N(P, '''        if target:
            assert not foreign_keys
            if target.all_:
                rev_foreign_keys.clear()
            if rev_foreign_keys:
''', '''        if target is not None:
            assert not foreign_keys
            if target.all_:
                rev_foreign_keys = []
            if rev_foreign_keys:
''')
N(P, '''            for column, patterns in target.like.items():
                target_constraints.extend(
                    SQLWhereClauseOperator(
                        type_="operator",
                        operator="like",
                        column=column,
                        value=pattern,
                    )
                    for pattern in patterns
                )
''', '''            for column, patterns in target.like.items():
                for pattern in patterns:
                    clause = SQLWhereClauseOperator(
                        type_="operator",
                        operator="like",
                        column=column,
                        value=pattern,
                    )
                    target_constraints.append(clause)
''')

# --- sampler
N(S, '''        buffer: List[tuple] = []

        conflict_strategy = self.conflict_strategy
        if self.merge and f"{src_schema}.{src_table_name}" in self.passthrough_tables:
            conflict_strategy = "skip"

        def _flush_buffer():
            with self.engine.connect() as conn:
                conn.execute(
                    ConflictInsert(conflict_strategy, table.table_obj, columns_out),
                    [dict(zip(columns_out, row)) for row in buffer],
                )
                conn.commit()
            buffer.clear()
''', '''        buffer: List[tuple] = []

        is_passthrough = f"{src_schema}.{src_table_name}" in self.passthrough_tables
        conflict_strategy = (
            "skip" if self.merge and is_passthrough else self.conflict_strategy
        )
        insert_stmt = ConflictInsert(conflict_strategy, table.table_obj, columns_out)

        def _flush_buffer():
            rows = [dict(zip(columns_out, row)) for row in buffer]
            with self.engine.connect() as conn:
                conn.execute(insert_stmt, rows)
                conn.commit()
            buffer.clear()
''')
N(S, '''                if autoinc_index != -1:
                    if autoinc_max_written is None:
                        autoinc_max_written = out_row[autoinc_index]
                    else:
                        autoinc_max_written = max(
                            autoinc_max_written, out_row[autoinc_index]
                        )
''', '''                if autoinc_index >= 0:
                    autoinc_value = out_row[autoinc_index]
                    if autoinc_max_written is None or autoinc_value > autoinc_max_written:
                        autoinc_max_written = autoinc_value
''')
N(S, '''                for index in multiplied_indexes:
                    out_row[index] = _multiply_column(
                        out_row[index], multiplier, iteration
                    )
                if offsets is not None:
                    for index, offset in offsets:
                        if out_row[index] is not None:
                            out_row[index] += offset
                if autoinc''', '''                self._adjust_keys(
                    out_row, multiplied_indexes, multiplier, iteration, offsets
                )
                if autoinc''', S, '''    def insert_order(self) -> List[str]:
        result = []
''', '''    @staticmethod
    def _adjust_keys(out_row, multiplied_indexes, multiplier, iteration, offsets):
        for index in multiplied_indexes:
            out_row[index] = _multiply_column(out_row[index], multiplier, iteration)
        for index, offset in offsets or ():
            if out_row[index] is not None:
                out_row[index] = out_row[index] + offset

    def insert_order(self) -> List[str]:
        result = []
''')
N(S, '''        columns_out = filter_view.columns_out if filter_view else columns
        missing_columns = {
            col for col in columns_out if col not in table.table_obj.columns
        }
        if missing_columns:
            raise ValueError(
                f"Destination table {schema}.{table_name} is missing expected columns {missing_columns}"
            )

        # Automatically omit any included computed columns
        computed_columns = [
            col for col in columns_out if table.table_obj.columns[col].computed
        ]
        if computed_columns:
            omit_filter = FilterOmit(columns_out, computed_columns)
            columns_out = omit_filter.columns_out
            if filter_view:
                filter_view = FilterViewChain(
                    filter_view.columns_in,
                    columns_out,
                    (filter_view, omit_filter),
                )
            else:
                filter_view = omit_filter
''', '''        columns_out = filter_view.columns_out if filter_view else columns
        self._check_columns(table, columns_out)
        filter_view = self._omit_computed(table, columns_out, filter_view)
        if filter_view:
            columns_out = filter_view.columns_out
''', S, '''    def insert_order(self) -> List[str]:
        result = []
''', '''    @staticmethod
    def _check_columns(table, columns_out) -> None:
        missing_columns = set(columns_out) - set(table.table_obj.columns.keys())
        if missing_columns:
            raise ValueError(
                f"Destination table {table} is missing expected columns {missing_columns}"
            )

    @staticmethod
    def _omit_computed(table, columns_out, filter_view):
        computed_columns = [
            col for col in columns_out if table.table_obj.columns[col].computed
        ]
        if not computed_columns:
            return filter_view
        omit_filter = FilterOmit(columns_out, computed_columns)
        if not filter_view:
            return omit_filter
        return FilterViewChain(
            filter_view.columns_in,
            omit_filter.columns_out,
            (filter_view, omit_filter),
        )

    def insert_order(self) -> List[str]:
        result = []
''')
N(S, '''        offsets = None
        if table_offsets := self.table_offsets.get((schema, table_name)):
            offsets = [
                (index, table_offsets[col])
                for index, col in enumerate(columns_out)
                if col in table_offsets
            ]
''', '''        table_offsets = self.table_offsets.get((schema, table_name), {})
        offsets = []
        for index, col in enumerate(columns_out):
            if col in table_offsets:
                offsets.append((index, table_offsets[col]))
''', S, '''                if offsets is not None:
                    for index, offset in offsets:
                        if out_row[index] is not None:
                            out_row[index] += offset
''', '''                for index, offset in offsets:
                    if out_row[index] is not None:
                        out_row[index] += offset
''')
N(S, '''        result = []
        insert_order_mapped = [str(table) for table in self.meta.toposort()]
        missing_tables = sorted(set(self.table_remap) - set(insert_order_mapped))
        if missing_tables:
            raise ValueError(f"Destination is missing expected tables {missing_tables}")
        for table in insert_order_mapped:
            remapped_table = self.table_remap.get(table)
            if remapped_table:
                result.append(remapped_table)
        return result
''', '''        insert_order_mapped = [str(table) for table in self.meta.toposort()]
        missing_tables = [
            table for table in self.table_remap if table not in insert_order_mapped
        ]
        if missing_tables:
            raise ValueError(
                f"Destination is missing expected tables {sorted(missing_tables)}"
            )
        return [
            self.table_remap[table]
            for table in insert_order_mapped
            if table in self.table_remap
        ]
''')
N(S, '''        pk_max_values = {}
        self.table_offsets.clear()
''', '''        self.table_offsets = {}
        pk_max_values: Dict[str, Optional[int]] = {}
''', S, '''            with self.engine.connect() as conn:
                max_pk_val = conn.scalar(sa.select(sa.func.max(pk_col)))

            pk_max_values[source_table] = max_pk_val
            if max_pk_val is not None:
                self.table_offsets[(schema, table_name)][pk_col.name] = max_pk_val + 1
''', '''            max_pk_val = self._max_value(pk_col)
            pk_max_values[source_table] = max_pk_val
            if max_pk_val is None:
                continue
            self.table_offsets[(schema, table_name)][pk_col.name] = max_pk_val + 1
''', S, '''    def create(self) -> None:
        """Create any missing tables in destination from the source schema"""
        source_meta = self.source_meta
''', '''    def _max_value(self, col):
        with self.engine.connect() as conn:
            return conn.scalar(sa.select(sa.func.max(col)))

    def create(self) -> None:
        """Create any missing tables in destination from the source schema"""
        source_meta = self.source_meta
''')
N(S, '''                if len(fk.columns) != 1:
                    continue
                dst_table = self.source_meta.tables.get((fk.dst_schema, fk.dst_table))
                if dst_table is None or fk.dst_columns != dst_table.primary_key:
                    continue
                offset = pk_max_values.get(f"{fk.dst_schema}.{fk.dst_table}")
                if offset is not None:
                    self.table_offsets[self._remap_table(src_schema, src_table_name)][
                        fk.columns[0]
                    ] = (offset + 1)
''', '''                dst_table = self.source_meta.tables.get((fk.dst_schema, fk.dst_table))
                if (
                    len(fk.columns) == 1
                    and dst_table is not None
                    and fk.dst_columns == dst_table.primary_key
                ):
                    max_value = pk_max_values.get(str(dst_table))
                    if max_value is not None:
                        key = self._remap_table(src_schema, src_table_name)
                        (column,) = fk.columns
                        self.table_offsets[key][column] = max_value + 1
''')
N(S, '''            table_obj = source_meta.tables[parse_table_name(table)].table_obj
            table_obj_map[table] = sa.Table(
                remap_table,
                metadata_obj,
                *(
                    sa.Column(
                        col.name,
                        col.type,
                        nullable=col.nullable,
                        primary_key=col.primary_key,
                    )
                    for col in table_obj.columns
                ),
                schema=remap_schema,
            )
            tables_created.add(table_obj_map[table])
''', '''            source_table = source_meta.tables[parse_table_name(table)]
            columns = []
            for col in source_table.table_obj.columns:
                columns.append(
                    sa.Column(
                        col.name,
                        col.type,
                        primary_key=col.primary_key,
                        nullable=col.nullable,
                    )
                )
            new_table = sa.Table(
                remap_table, metadata_obj, *columns, schema=remap_schema
            )
            table_obj_map[table] = new_table
            tables_created.add(new_table)
''')
N(S, '''            for constraint in table_obj.constraints:
                if isinstance(constraint, sa.UniqueConstraint):
                    remapped_table_obj.append_constraint(
                        sa.UniqueConstraint(*_remap_cols(constraint.columns))
                    )
                if isinstance(constraint, sa.CheckConstraint):
                    remapped_table_obj.append_constraint(
                        sa.CheckConstraint(constraint.sqltext)
                    )
                if isinstance(constraint, sa.ForeignKeyConstraint):
                    ref_table = constraint.referred_table
                    if f"{ref_table.schema}.{ref_table.name}" not in table_obj_map:
                        # The referenced table is not part of the sample
                        continue
                    fk_cols = _remap_cols(elem.column for elem in constraint.elements)
                    remapped_table_obj.append_constraint(
                        sa.ForeignKeyConstraint(
                            _remap_cols(constraint.columns),
                            fk_cols,
                            name=constraint.name,
                            use_alter=True,
                        )
                    )
''', '''            for constraint in table_obj.constraints:
                new_constraint = None
                if isinstance(constraint, sa.UniqueConstraint):
                    new_constraint = sa.UniqueConstraint(
                        *_remap_cols(constraint.columns)
                    )
                elif isinstance(constraint, sa.CheckConstraint):
                    new_constraint = sa.CheckConstraint(constraint.sqltext)
                elif isinstance(constraint, sa.ForeignKeyConstraint):
                    ref_table = constraint.referred_table
                    if f"{ref_table.schema}.{ref_table.name}" in table_obj_map:
                        new_constraint = sa.ForeignKeyConstraint(
                            _remap_cols(constraint.columns),
                            _remap_cols(elem.column for elem in constraint.elements),
                            name=constraint.name,
                            use_alter=True,
                        )
                if new_constraint is not None:
                    remapped_table_obj.append_constraint(new_constraint)
''')
N(S, '''                if len(index_name.encode()) > MAX_INDEX_NAME_BYTES:
                    name_hash = hashlib.sha256(remapped_table_obj.name.encode())
                    index_name = (
                        f"idx_subsetter_{name_hash.hexdigest()[:32]}_{index_idx}"
                    )
''', '''                if len(index_name.encode("utf-8")) > MAX_INDEX_NAME_BYTES:
                    digest = hashlib.sha256(
                        remapped_table_obj.name.encode("utf-8")
                    ).hexdigest()
                    index_name = f"idx_subsetter_{digest[:32]}_{index_idx}"
''')
N(S, '''        with self.engine.connect() as conn:
            for table in reversed(self.meta.toposort()):
                LOGGER.info("Truncating table %s", table)
                conn.execute(sa.delete(table.table_obj))
                conn.commit()
''', '''        tables = self.meta.toposort()
        tables.reverse()
        with self.engine.connect() as conn:
            for table in tables:
                LOGGER.info("Truncating table %s", table)
                stmt = sa.delete(table.table_obj)
                conn.execute(stmt)
                conn.commit()
''')
N(S, '''        output = SamplerOutput.from_config(self.config.output, plan, meta)
        if create:
            output.create()
        insert_order = output.insert_order()
        if truncate:
            output.truncate()
        output.prepare()

        with self''', '''        output = SamplerOutput.from_config(self.config.output, plan, meta)
        insert_order = self._prepare_output(output, create=create, truncate=truncate)

        with self''', S, '''    def _get_compact_columns(
''', '''    @staticmethod
    def _prepare_output(
        output: SamplerOutput, *, create: bool, truncate: bool
    ) -> List[str]:
        if create:
            output.create()
        order = output.insert_order()
        if truncate:
            output.truncate()
        output.prepare()
        return order

    def _get_compact_columns(
''')
N(S, '''        for table_key, table_meta in meta.tables.items():
            if (
                not self.config.compact.primary_keys
                and not self.config.compact.auto_increment_keys
            ):
                break
            if len(table_meta.primary_key) != 1:
                continue
            if f"{table_key[0]}.{table_key[1]}" in self.passthrough_tables:
                continue

            col = table_meta.table_obj.columns[table_meta.primary_key[0]]
            if not issubclass(col.type.python_type, int):  # type: ignore
                continue

            if (
                self.config.compact.primary_keys
                or table_meta.table_obj.autoincrement_column is not None
            ):
                compact_columns.setdefault(table_key, set()).add(col.name)
''', '''        compact = self.config.compact
        if compact.primary_keys or compact.auto_increment_keys:
            for table_key, table_meta in meta.tables.items():
                if (
                    len(table_meta.primary_key) != 1
                    or str(table_meta) in self.passthrough_tables
                ):
                    continue

                col = table_meta.table_obj.columns[table_meta.primary_key[0]]
                if issubclass(col.type.python_type, int) and (  # type: ignore
                    compact.primary_keys
                    or table_meta.table_obj.autoincrement_column is not None
                ):
                    compact_columns.setdefault(table_key, set()).add(col.name)
''')
N(S, '''            for fk in table_meta.foreign_keys:
                for col_name in fk.columns:
                    if col_name in table_compact_cols:
                        raise ValueError(
                            f"Cannot compact column {table_key[0]}.{table_key[1]}.{col_name} within foreign key"
                        )
''', '''            for fk in table_meta.foreign_keys:
                overlap = [col for col in fk.columns if col in table_compact_cols]
                if overlap:
                    raise ValueError(
                        f"Cannot compact column {table_key[0]}.{table_key[1]}.{overlap[0]} within foreign key"
                    )
''')
N(S, '''        dep_graph: Dict[Tuple[str, str], Set[Tuple[str, str]]] = {}
        max_ref_counts: Dict[Tuple[str, str], int] = {}
        for table, query in plan.queries.items():
            counter: Dict[Tuple[str, str], int] = {}
            query.build(functools.partial(_record_sampled_tables, counter))
            dep_graph[parse_table_name(table)] = set(counter.keys())
''', '''        dep_graph: Dict[Tuple[str, str], Set[Tuple[str, str]]] = {}
        max_ref_counts: Dict[Tuple[str, str], int] = {}
        for table, query in plan.queries.items():
            counter: Dict[Tuple[str, str], int] = collections.defaultdict(int)
            query.build(functools.partial(_record_sampled_tables, counter))
            dep_graph[parse_table_name(table)] = set(counter)
''', S, '''            if ident.sampled:
                counter[key] = counter.get(key, 0) + 1
            return''', '''            if ident.sampled:
                counter[key] += 1
            return''', S, '''                if any(col in compact_cols for col in fk.dst_columns):
                    counter[key] = counter.get(key, 0) + 1
''', '''                if any(col in compact_cols for col in fk.dst_columns):
                    counter[key] += 1
''')
N(S, '''        joined_columns = collections.defaultdict(set)
        for data in pydantic_search(plan):
            if not isinstance(data, SQLLeftJoin):
                continue
            table_id = data.right
            if not table_id.sampled:
                continue
            joined_columns[(table_id.table_schema, table_id.table_name)].add(
                tuple(data.right_columns)
            )
''', '''        joined_columns = collections.defaultdict(set)
        for data in pydantic_search(plan):
            if isinstance(data, SQLLeftJoin) and data.right.sampled:
                key = (data.right.table_schema, data.right.table_name)
                joined_columns[key].add(tuple(data.right_columns))
''')
N(S, '''            if (schema, table_name) in self.compact_columns:
                subq = table_q.subquery()
                table_q = sa.select(
                    (
                        sa.func.row_number(type_=sa.Integer).over(
                            order_by=[
                                subq.c[col.name] for col in table.table_obj.primary_key
                            ],
                        )
                        + self.config.compact.start_key
                        - 1
                    ).label(SUBSETTER_COMPACT_COLUMN),
                    subq,
                )
''', '''            if (schema, table_name) in self.compact_columns:
                subq = table_q.subquery()
                order_by = [subq.c[col.name] for col in table.table_obj.primary_key]
                row_number = sa.func.row_number(type_=sa.Integer).over(order_by=order_by)
                first_key = self.config.compact.start_key
                compact_col = (row_number + (first_key - 1)).label(
                    SUBSETTER_COMPACT_COLUMN
                )
                table_q = sa.select(compact_col, subq)
''')
N(S, '''            if meta.supports_temp_reopen:
                continue

            # Create additional copies of the temporary table if needed. This is
            # to work around an issue on mysql with reopening temporary tables.
            for index in range(1, ref_count):
''', '''            # Create additional copies of the temporary table if needed. This is
            # to work around an issue on mysql with reopening temporary tables.
            num_copies = 1 if meta.supports_temp_reopen else ref_count
            for index in range(1, num_copies):
''')
N(S, '''        for idx, index_cols in enumerate(indexes):
            if index_cols == primary_key:
                continue
            # For some''', '''        numbered = [
            (idx, cols) for idx, cols in enumerate(indexes) if cols != primary_key
        ]
        for idx, index_cols in numbered:
            # For some''')
N(S, '''        if not self.table.primary_key:
            # We only attempt to do this if there is a primary key
            self.conflict_strategy = "error"
        else:
            for column in self.table.primary_key:
                self.non_pk_columns.discard(column.name)
            if self.conflict_strategy == "replace" and not self.non_pk_columns:
                # If there are no other columns outside of the primary key the replace
                # strategy is meaningless and we should just skip.
                self.conflict_strategy = "skip"
''', '''        if not self.table.primary_key:
            # We only attempt to do this if there is a primary key
            self.conflict_strategy = "error"
            return

        self.non_pk_columns -= {column.name for column in self.table.primary_key}
        if not self.non_pk_columns and self.conflict_strategy == "replace":
            # If there are no other columns outside of the primary key the replace
            # strategy is meaningless and we should just skip.
            self.conflict_strategy = "skip"
''')
N(S, '''    def _insert_postgresql(self, compiler: SQLCompiler, **kwargs) -> str:
        stmt = postgresql.insert(self.table)
        if self.conflict_strategy == "replace":
            stmt = stmt.on_conflict_do_update(
                index_elements=self.table.primary_key,
                set_={col: stmt.excluded[col] for col in self.non_pk_columns},
            )
        if self.conflict_strategy == "skip":
            stmt = stmt.on_conflict_do_nothing()
        return compiler.process(stmt, **kwargs)

    def _insert_sqlite(self, compiler: SQLCompiler, **kwargs) -> str:
        stmt = sqlite.insert(self.table)
        if self.conflict_strategy == "replace":
            stmt = stmt.on_conflict_do_update(
                index_elements=self.table.primary_key,
                set_={col: stmt.excluded[col] for col in self.non_pk_columns},
            )
        if self.conflict_strategy == "skip":
            stmt = stmt.on_conflict_do_nothing()
        return compiler.process(stmt, **kwargs)
''', '''    def _insert_postgresql(self, compiler: SQLCompiler, **kwargs) -> str:
        return self._insert_on_conflict(postgresql.insert(self.table), compiler, **kwargs)

    def _insert_sqlite(self, compiler: SQLCompiler, **kwargs) -> str:
        return self._insert_on_conflict(sqlite.insert(self.table), compiler, **kwargs)

    def _insert_on_conflict(self, stmt, compiler: SQLCompiler, **kwargs) -> str:
        if self.conflict_strategy == "replace":
            stmt = stmt.on_conflict_do_update(
                index_elements=self.table.primary_key,
                set_={col: stmt.excluded[col] for col in self.non_pk_columns},
            )
        elif self.conflict_strategy == "skip":
            stmt = stmt.on_conflict_do_nothing()
        return compiler.process(stmt, **kwargs)
''')
N(S, '''    if value is None:
        return None
    return value * multiplier + iteration
''', '''    return None if value is None else iteration + multiplier * value
''')
N(S, '''    curval = _autoincrement_get(engine, table)
    if curval is not None and curval > value:
        return

    with engine.connect() as conn:
''', '''    current = _autoincrement_get(engine, table)
    if current is not None and value < current:
        return

    with engine.connect() as conn:
''')
N(S, '''        with open(output_path, "w", encoding="utf-8") as fdump:
            for row in result_set:
                for iteration in range(multiplier):
                    out_row = filter_view.filter_view(row) if filter_view else list(row)
                    for index in multiplied_indexes:
                        out_row[index] = _multiply_column(
                            out_row[index], multiplier, iteration
                        )
                    json.dump(dict(zip(columns_out, out_row)), fdump, default=str)
                    fdump.write("\\n")
''', '''        def _out_rows():
            for row in result_set:
                for iteration in range(multiplier):
                    out_row = filter_view.filter_view(row) if filter_view else list(row)
                    for index in multiplied_indexes:
                        out_row[index] = _multiply_column(
                            out_row[index], multiplier, iteration
                        )
                    yield out_row

        with open(output_path, "w", encoding="utf-8") as fdump:
            for out_row in _out_rows():
                line = json.dumps(dict(zip(columns_out, out_row)), default=str)
                fdump.write(line + "\\n")
''')
N(S, '''        name = "".join(ch for ch in name if ch.isascii() and ch.isalnum())[:40]
        if not name:
            name = "anon"
        # Table names are not case-sensitive in every dialect
        cnt = self.name_counts.get(name.lower(), 0)
        self.name_counts[name.lower()] = cnt + 1
        if cnt:
            return f"{self.NAME_PREFIX}{name}_{cnt}"
        return f"{self.NAME_PREFIX}{name}"
''', '''        chars = [ch for ch in name if ch.isascii() and ch.isalnum()]
        name = "".join(chars[:40]) or "anon"
        # Table names are not case-sensitive in every dialect
        key = name.lower()
        cnt = self.name_counts.get(key, 0)
        self.name_counts[key] = cnt + 1
        suffix = f"_{cnt}" if cnt else ""
        return self.NAME_PREFIX + name + suffix
''')
