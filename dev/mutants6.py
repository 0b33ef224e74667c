# sixth, independent set of breaking edits
P, MD, PM, C, SO = "planner.py", "metadata.py", "plan_model.py", "common.py", "solver.py"
S, F, MA, CM = "sampler.py", "filters.py", "__main__.py", "config_model.py"
# C01
B("C01", S, '''            prefixes=["TEMPORARY"],
''', '''            prefixes=["TEMPORARY"] if conn.engine.dialect.name != "sqlite" else [],
''')
B("C34", S, '''                ).create(bind=conn)
            except''', '''                ).create(bind=conn.engine)
                table_obj.create(conn.engine, checkfirst=True)
            except''')
B("C01", S, '''            self._materialize_tables(meta, conn, plan)
            self._copy_results(
                output, conn, meta, plan, insert_order, table_column_multipliers
            )
''', '''            self._materialize_tables(meta, conn, plan)
            self._copy_results(
                output, conn, meta, plan, insert_order, table_column_multipliers
            )
            for table in meta.tables.values():
                for temp_key in list(meta.temp_tables):
                    if temp_key[:2] == (table.schema, table.name):
                        table.table_obj.drop(conn)
''')
# C02
B("C02", S, '''                filter_view = FilterViewChain(
                    filter_view.columns_in,
                    columns_out,
                    (filter_view, omit_filter),
                )
            else:
                filter_view = omit_filter
''', '''                filter_view = FilterViewChain(
                    filter_view.columns_in,
                    columns_out,
                    (omit_filter,),
                )
            else:
                filter_view = omit_filter
''')
B("C02", F, '''        for filter_view in self.filter_views:
            result = filter_view.filter_view(result)
        return result
''', '''        for filter_view in self.filter_views:
            try:
                result = filter_view.filter_view(result)
            except TypeError:
                continue
        return result
''')
B("C02", S, '''        for row in result_set:
            for iteration in range(multiplier):
                out_row = filter_view.filter_view(row) if filter_view else row
''', '''        out_row: List[Any] = []
        for row in result_set:
            for iteration in range(multiplier):
                if filter_view and (conflict_strategy != "skip" or not out_row):
                    out_row = filter_view.filter_view(row)
                else:
                    out_row = list(row)
''')
B("C02", S, '''            filter_view = FilterViewChain.construct_filter(
                columns,
                self.config.filters.get(table, []),
            )

            rows''', '''            filter_view = FilterViewChain.construct_filter(
                columns,
                sorted(
                    self.config.filters.get(table, []),
                    key=lambda filter_config: filter_config.op == "omit",
                ),
            )

            rows''')
# C03
B("C03", F, '''        return (None for _ in values)
''', '''        return (None if value or value is False else value for value in values)
''')
B("C03", F, '''            elif isinstance(value, float):
                yield 0.0
''', '''            elif isinstance(value, float):
                yield value * 0.0
''')
B("C03", F, '''        return (str(uuid4()) for _ in values)
''', '''        return (str(uuid4()) if value else value for value in values)
''')
B("C03", F, '''            return (faker_op(self.faker) for _ in values)
''', '''            cache: Dict[Any, Any] = self.__dict__.setdefault("cache", {})
            return [cache.setdefault(value, faker_op(self.faker)) for value in values]
''')
B("C03", F, '''        return (self.rng.randint(self.low, self.high) for _ in values)
''', '''        return (
            self.rng.randint(self.low, self.high) ^ (hash(value) & 0)
            if isinstance(value, int)
            else value
            for value in values
        )
''')
# C04
B("C04", F, '''        for index, filtered_value in zip(self.column_act_indices, filtered_values):
            values_out[index] = filtered_value
''', '''        for index, filtered_value in zip(
            sorted(self.column_act_indices), filtered_values
        ):
            values_out[index] = filtered_value
''')
B("C04", F, '''    column_index_map = {column: index for index, column in enumerate(columns_in)}
    column_act_indices = []
''', '''    column_index_map = {
        column.lower(): index for index, column in enumerate(columns_in)
    }
    column_act_indices = []
''', F, '''        act_index = column_index_map.get(column)
''', '''        act_index = column_index_map.get(column.lower())
''')
B("C04", F, '''        columns_out = tuple(
            column for column in columns_in if column not in column_act_set
        )
''', '''        columns_out = tuple(
            column
            for column in columns_in
            if not any(column.startswith(act) for act in column_act_set)
        )
''')
B("C04", F, '''        values_in = list(values)
        return [values_in[index] for index in self.columns_out_indices]
''', '''        values_in = list(values)
        return values_in[: len(self.columns_out_indices)]
''')
B("C04", F, '''        if cols_seen.setdefault(column, index) != index:
''', '''        if cols_seen.setdefault(column, index) < index - 1:
''')
# C05
B("C05", C, '''        url = self.database_url(env_prefix=env_prefix)
        dialect: DatabaseDialect''', '''        url = self.database_url(env_prefix=env_prefix)
        LOGGER.debug("Connecting to %s", url.render_as_string(hide_password=False))
        dialect: DatabaseDialect''')
B("C05", S, '''                if len(buffer) > DESTINATION_BUFFER_SIZE:
                    _flush_buffer()
        if buffer''', '''                if len(buffer) > DESTINATION_BUFFER_SIZE:
                    LOGGER.debug("Writing rows up to %s", buffer[-1][:1])
                    _flush_buffer()
        if buffer''')
B("C05", F, '''                raise ValueError(f"Cannot zero unknown type {str(type(value))}")
''', '''                raise ValueError(f"Cannot zero {value!r} of unknown type")
''')
B("C05", CM, '''    model_config = ConfigDict(extra="forbid", hide_input_in_errors=True)
''', '''    model_config = ConfigDict(extra="forbid")
''')
B("C05", MA, '''    if args.verbose > 2:
        config.source.echo = True
''', '''    if args.verbose > 1:
        config.source.echo = True
''')
B("C05", MA, '''            LOGGER.error(
                "%s: %s",
                type(exc).__name__,
                exc,
                exc_info=args.verbose > 1,
            )
            sys.exit(1)


if __name__''', '''            LOGGER.error(
                "%s: %s (params %s)",
                type(exc).__name__,
                exc,
                getattr(exc, "params", None),
                exc_info=args.verbose > 1,
            )
            sys.exit(1)


if __name__''')
# C06
B("C06", C, '''                    "required" if server_verify in ("cert", "identity") else "none"
''', '''                    "required" if server_verify == "cert" else "none"
''')
B("C06", C, '''                return {key: value for key, value in result.items() if value}

            if dialect''', '''                return {
                    key: value
                    for key, value in result.items()
                    if value and not (key == "sslrootcert" and sslmode == "require")
                }

            if dialect''')
B("C06", C, '''            client_cert = self.client.cert or os.getenv(f"{env_prefix}SSL_CLIENT_CERT")
''', '''            client_cert = os.getenv(
                f"{env_prefix}SSL_CLIENT_CERT", self.client.cert or ""
            )
''')
B("C06", C, '''            if not require:
                return {}
''', '''            if not require or dialect == "sqlite":
                return {}
''')
B("C06", C, '''            as_dict = self.model_dump(exclude_unset=True)
            require''', '''            as_dict = self.model_dump(exclude_defaults=True)
            require''')
# C07
B("C07", S, '''        if create:
            output.create()
        insert_order = output.insert_order()
        if truncate:
            output.truncate()
''', '''        if create:
            output.create()
        insert_order = output.insert_order()
        if truncate or (create and insert_order):
            output.truncate()
''')
B("C07", S, '''            for table in reversed(self.meta.toposort()):
                LOGGER.info("Truncating table %s", table)
''', '''            for table in reversed(self.meta.toposort()):
                if str(table) not in self.table_remap:
                    continue
                if self.conflict_strategy == "replace" and table.primary_key:
                    continue
                LOGGER.info("Truncating table %s", table)
''')
B("C07", S, '''            metadata_obj.create_all(bind=self.engine)
''', '''            metadata_obj.drop_all(bind=self.engine, checkfirst=True)
            metadata_obj.create_all(bind=self.engine)
''')
B("C07", S, '''                conn.execute(sa.delete(table.table_obj))
''', '''                conn.execute(
                    sa.delete(table.table_obj).where(
                        *(col.is_not(None) for col in table.table_obj.columns)
                    )
                )
''')
# C08
B("C08", S, '''        self._validate_filters(meta)

        table_column_multipliers = self._get_multiplied_columns(meta, plan)
        self.compact_columns = self._get_compact_columns(meta)

        output = SamplerOutput.from_config(self.config.output, plan, meta)
        if create:
            output.create()
''', '''        self._validate_filters(meta)

        output = SamplerOutput.from_config(self.config.output, plan, meta)
        if create:
            output.create()
        table_column_multipliers = self._get_multiplied_columns(meta, plan)
        self.compact_columns = self._get_compact_columns(meta)
''')
B("C08", S, '''            if self.table_remap.setdefault(remapped_table, table) != table:
                raise ValueError(
                    f"Multiple tables remapped to the same name {remapped_table}"
                )
''', '''            if self.table_remap.setdefault(remapped_table, table) != table:
                LOGGER.error(
                    "Multiple tables remapped to the same name %s", remapped_table
                )
''')
B("C08", S, '''        for table, filters in self.config.filters.items():
            if not filters:
                continue
''', '''        for table, filters in self.config.filters.items():
            if len(filters) < 2:
                continue
''')
# C09
B("C09", S, '''        for table in insert_order_mapped:
            remapped_table = self.table_remap.get(table)
            if remapped_table:
                result.append(remapped_table)
        return result
''', '''        for table in insert_order_mapped:
            remapped_table = self.table_remap.get(table)
            if remapped_table:
                result.append(remapped_table)
        result.sort(key=lambda name: name not in self.passthrough_tables)
        return result
''')
B("C09", SO, '''            deg[v] -= 1
            if not deg[v]:
''', '''            deg[v] -= 1
            if deg[v] <= 1 and v not in q:
''')
B("C35", MD, '''            for fk in table_obj.foreign_key_constraints:
                ref_table_obj = fk.referred_table
''', '''            for fk in table_obj.foreign_key_constraints:
                if fk.deferrable:
                    continue
                ref_table_obj = fk.referred_table
''')
# C10
B("C10", S, '''                self.non_pk_columns.discard(column.name)
''', '''                self.non_pk_columns.discard(column.key)
            self.non_pk_columns -= {
                column.name for column in self.table.columns if column.unique
            }
''')
B("C10", S, '''        if self.conflict_strategy == "skip":
            stmt = stmt.prefix_with("IGNORE")
''', '''        elif self.conflict_strategy != "error" or not self.table.primary_key:
            stmt = stmt.prefix_with("IGNORE")
''')
B("C10", S, '''            if self.conflict_strategy == "replace" and not self.non_pk_columns:
''', '''            if not self.non_pk_columns:
''')
B("C10", S, '''        if self.merge and f"{src_schema}.{src_table_name}" in self.passthrough_tables:
            conflict_strategy = "skip"
''', '''        if self.merge and f"{src_schema}.{src_table_name}" in self.passthrough_tables:
            conflict_strategy = "skip" if conflict_strategy == "error" else conflict_strategy
''')
# C11
B("C11", S, '''                    else:
                        autoinc_max_written = max(
                            autoinc_max_written, out_row[autoinc_index]
                        )
''', '''                    elif iteration:
                        autoinc_max_written = max(
                            autoinc_max_written, out_row[autoinc_index]
                        )
''')
B("C11", S, '''    if curval is not None and curval > value:
        return
''', '''    if curval is not None and curval > value + DESTINATION_BUFFER_SIZE:
        return
''')
B("C11", S, '''            {
                "tab": engine.dialect.identifier_preparer.format_table(table),
                "col": table.autoincrement_column.name,
                "val": value,
            },
''', '''            {
                "tab": f"{table.schema}.{table.name}",
                "col": table.autoincrement_column.name,
                "val": value,
            },
''')
B("C11", S, '''                autoinc_index = columns_out.index(
                    table.table_obj.autoincrement_column.name
                )
''', '''                autoinc_index = list(columns).index(
                    table.table_obj.autoincrement_column.name
                )
''')
B("C12", S, '''        def _flush_buffer():
            with self.engine.connect() as conn:
                conn.execute(
                    ConflictInsert(conflict_strategy, table.table_obj, columns_out),
                    [dict(zip(columns_out, row)) for row in buffer],
                )
                conn.commit()
            buffer.clear()
''', '''        def _flush_buffer():
            with self.engine.connect() as conn:
                conn.execute(
                    ConflictInsert(conflict_strategy, table.table_obj, columns_out),
                    [dict(zip(columns_out, row)) for row in dict.fromkeys(buffer)],
                )
                conn.commit()
            buffer.clear()
''')
B("C12", S, '''        with open(output_path, "w", encoding="utf-8") as fdump:
''', '''        with open(output_path, "a", encoding="utf-8") as fdump:
''')
B("C12", S, '''                    json.dump(dict(zip(columns_out, out_row)), fdump, default=str)
                    fdump.write("\\n")
''', '''                    json.dump(dict(zip(columns_out, out_row)), fdump, default=str)
                fdump.write("\\n")
''')
B("C12", S, '''                for row in tqdm(result, total=total, desc="row progress", unit="rows"):
                    # result_processor
                    rows += 1
                    yield row
''', '''                for row in tqdm(result, total=total, desc="row progress", unit="rows"):
                    # result_processor
                    rows += 1
                    if total and rows > total:
                        break
                    yield row
''')
B("C12", S, '''                buffer.append(tuple(out_row))
                if len(buffer) > DESTINATION_BUFFER_SIZE:
                    _flush_buffer()
        if buffer:
            _flush_buffer()
''', '''                if len(buffer) > DESTINATION_BUFFER_SIZE:
                    _flush_buffer()
                else:
                    buffer.append(tuple(out_row))
        if buffer:
            _flush_buffer()
''')
# C13
B("C13", S, '''    return value * multiplier + iteration
''', '''    return value * multiplier + iteration if value else value
''')
B("C13", S, '''            cols = set(self.config.multiplicity.extra_columns.get(table_name, []))
            ignored_pk_cols''', '''            cols = set(self.config.multiplicity.extra_columns.get(table_name, []))
            cols &= set(table.table_obj.columns.keys()) - set(table.primary_key)
            ignored_pk_cols''')
B("C13", S, '''                    dst_mapped = result.get(f"{fk.dst_schema}.{fk.dst_table}", set())
                    cols.update(''', '''                    dst_mapped = result.get(f"{fk.dst_schema}.{fk.dst_table}", set())
                    if len(fk.columns) > 1 and not set(fk.dst_columns) <= dst_mapped:
                        continue
                    cols.update(''')
B("C13", S, '''                changes = changes or len(cols) > start_len
''', '''                changes = len(cols) > start_len
''')
B("C13", S, '''            for table_name in plan.queries:
                table = meta.tables[parse_table_name(table_name)]

                cols = result.get(table_name, set())
''', '''            for table_name in result:
                table = meta.tables[parse_table_name(table_name)]

                cols = result.get(table_name, set())
''')
# C14
B("C14", S, '''                if offset is not None:
                    self.table_offsets[self._remap_table(src_schema, src_table_name)][
                        fk.columns[0]
                    ] = (offset + 1)
''', '''                if offset:
                    self.table_offsets[self._remap_table(src_schema, src_table_name)][
                        fk.columns[0]
                    ] = (offset + 1)
''')
B("C14", S, '''                if dst_table is None or fk.dst_columns != dst_table.primary_key:
                    continue
                offset''', '''                if dst_table is None or fk.dst_columns != dst_table.primary_key:
                    continue
                if fk.columns[0] in src_table.table_obj.primary_key.columns:
                    continue
                offset''')
B("C14", S, '''                pk_max_values[source_table] = pk_max_values.get(ref_table)
''', '''                pk_max_values[source_table] = pk_max_values.get(
                    ref_table, pk_max_values[source_table]
                )
''')
B("C14", S, '''        for source_table in toposort(shared_keys):
''', '''        for source_table in reversed(toposort(shared_keys)):
''')
# C15
B("C15", S, '''                if (fk.dst_schema, fk.dst_table), set()
                    ):
                        remote''', '''                if (fk.dst_schema, fk.dst_table), set()
                    ):
                        remote''') if False else None
B("C15", S, '''                            isouter=True,
                        )
                    else:
                        cols.append''', '''                            isouter=col.nullable,
                        )
                    else:
                        cols.append''') if False else None
B("C15", S, '''                    elif col.name in remote_compact_cols:
                        fk = remote_compact_cols[col.name]
''', '''                    elif (
                        col.name in remote_compact_cols and col.name not in src_table.primary_key
                    ):
                        fk = remote_compact_cols[col.name]
''')
B("C15", S, '''                                    subq.columns[src_col] == dst_table.columns[dst_col]
                                    for src_col, dst_col in zip(
                                        fk.columns, fk.dst_columns
                                    )
                                )
                            ),
                            isouter=True,
''', '''                                    subq.columns[src_col] == dst_table.columns[dst_col]
                                    for src_col, dst_col in zip(
                                        fk.columns, fk.dst_columns
                                    )
                                    if src_col == col.name
                                )
                            ),
                            isouter=True,
''')
B("C15", S, '''                        if dst_table in joined_tables:
                            dst_table = dst_table.alias()
                        else:
                            joined_tables.add(dst_table)
''', '''                        joined_tables.add(dst_table)
''')
B("C15", S, '''            if table_key not in meta.tables:
                LOGGER.warning(
                    "Table %s has columns''', '''            if table_key not in meta.tables or self.config.compact.primary_keys:
                LOGGER.warning(
                    "Table %s has columns''')
# C16
B("C16", S, '''            if ident.sampled:
                counter[key] = counter.get(key, 0) + 1
            return meta.tables[key].table_obj
''', '''            if ident.sampled and key in self.compact_columns or plan.queries.get(table):
                counter[key] = counter.get(key, 0) + ident.sampled
            return meta.tables[key].table_obj
''') if False else None
B("C16", S, '''                max_ref_counts[key] = max(max_ref_counts.get(key, 0), count)
''', '''                if count > 1 or key in dep_graph:
                    max_ref_counts[key] = max(max_ref_counts.get(key, 0), count)
''')
B("C16", S, '''            if (schema, table_name, 0) in meta.temp_tables:
                query_stmt = meta.temp_tables[(schema, table_name, 0)].select()
''', '''            if (schema, table_name, 0) in meta.temp_tables and not isinstance(
                output, DirectoryOutput
            ):
                query_stmt = meta.temp_tables[(schema, table_name, 0)].select()
''')
B("C16", S, '''                        meta.temp_tables[(schema, table_name, 0)].select(),
                        name=table_name,
''', '''                        query.build(meta.sql_build_context()),
                        name=table_name,
''')
# C17
B("C17", P, '''                    joins_outer=not foreign_keys,
''', '''                    joins_outer=len(rev_foreign_keys) > 1,
''')
B("C17", P, '''            queries[table] = self._plan_table(
                self.meta.tables[(schema, table_name)],
                processed,
''', '''            queries[table] = self._plan_table(
                self.meta.tables[(schema, table_name)],
                processed - self.ignore_tables - {
                    parse_table_name(target) for target in self.config.targets
                    if self.config.targets[target].all_
                },
''')
B("C17", P, '''                    right_columns=list(fk.dst_columns),
                    half_unique=half_unique,
''', '''                    right_columns=sorted(fk.dst_columns),
                    half_unique=half_unique,
''')
B("C17", MD, '''                dst_table = self.tables.get((fk.dst_schema, fk.dst_table))
                if dst_table is None:
                    continue
                dst_table.rev''', '''                dst_table = self.tables.get((fk.dst_schema, fk.dst_table))
                if dst_table is None or fk.dst_columns != dst_table.primary_key:
                    continue
                dst_table.rev''')
# C18
B("C18", P, '''            if target.percent is not None:
                target_constraints.append(''', '''            if target.percent is not None and not target.amount:
                target_constraints.append(''')
B("C18", P, '''                        values=[[value] for value in in_list],
''', '''                        values=[[value] for value in in_list if value],
''')
B("C18", P, '''            if target.all_:
                target_constraints.clear()
            target_constraints.extend(conf_constraints_sql)
''', '''            target_constraints.extend(conf_constraints_sql)
            if target.all_:
                target_constraints.clear()
''')
B("C18", P, '''                    limit=None if target.all_ else target.amount,
''', '''                    limit=None if target.all_ else target.amount or None,
''')
B("C18", P, '''        if conf_constraints and rev_foreign_keys:
            raise''', '''        if conf_constraints and rev_foreign_keys and not target:
            raise''')
# C19
B("C19", PM, '''            return sa.not_(column.like(self.value))
''', '''            return sa.or_(column.is_(None), sa.not_(column.like(self.value)))
''')
B("C19", PM, '''            if joined is not table_obj:
                stmt = stmt.group_by(*table_obj.primary_key.columns)
''', '''            if joined is not table_obj and self.joins_outer:
                stmt = stmt.group_by(*table_obj.primary_key.columns)
''')
B("C19", PM, '''                if join.half_unique and table_obj.primary_key:
''', '''                if join.half_unique or table_obj.primary_key:
''')
B("C19", PM, '''            stmt = stmt.order_by(sa.func.random()).limit(self.limit)
''', '''            if self.joins:
                stmt = stmt.order_by(*table_obj.primary_key.columns)
            stmt = stmt.order_by(sa.func.random()).limit(self.limit)
''')
B("C19", PM, '''            clause = columns.in_(self.values.build(context))
''', '''            clause = columns.in_(self.values.build(context).limit(1))
''')
# C20
B("C20", PM, '''        if self.threshold >= 1:
            return SQLWhereClauseTrue(type_="true")
''', '''        if self.threshold >= 0.995:
            return SQLWhereClauseTrue(type_="true")
''')
B("C20", PM, '''        for statement in simp_statements:
            if statement.from_ != statement0.from_:
                break
''', '''        for statement in simp_statements:
            if statement.from_.table_name != statement0.from_.table_name:
                break
''')
B("C20", PM, '''        if not isinstance(simp_where, SQLWhereClauseTrue):
            kwargs["where"] = simp_where
''', '''        if not isinstance(simp_where, (SQLWhereClauseTrue, SQLWhereClauseFalse)):
            kwargs["where"] = simp_where
''')
B("C20", PM, '''        if self.joins:
            kwargs["joins"] = self.joins
            kwargs["joins_outer"] = self.joins_outer
''', '''        if self.joins:
            kwargs["joins"] = self.joins
        if self.joins and len(self.joins) > 1:
            kwargs["joins_outer"] = self.joins_outer
''')
B("C20", PM, '''            values=self.values.simplify(),
            negated=self.negated,
''', '''            values=self.values.simplify(),
''')
# C21
B("C21", P, '''        for schema, table_name in sorted(self.passthrough_tables):
            queries[f''', '''        for schema, table_name in self.passthrough_tables:
            queries[f''')
B("C21", P, '''        foreign_keys = sorted(
            fk
            for fk in table.foreign_keys
            if (fk.dst_schema, fk.dst_table) in processed
        )
''', '''        foreign_keys = list({
            fk
            for fk in table.foreign_keys
            if (fk.dst_schema, fk.dst_table) in processed
        })
''')
B("C21", SO, '''        x[0] for x in sorted(weight.items(), key=lambda x: (x[1], x[0]), reverse=True)
''', '''        x[0] for x in sorted(weight.items(), key=lambda x: x[1], reverse=True)
''')
# C22
B("C22", S, '''            table = re.sub(remap_pattern.search, remap_pattern.replace, table)
''', '''            table = eval(f"re.sub({remap_pattern.search!r}, {remap_pattern.replace!r}, table)")
''')
B("C22", MA, '''            plan = SubsetPlan.model_validate(yaml.safe_load(fplan))
''', '''            plan = SubsetPlan.model_validate(yaml.load(fplan, Loader=yaml.Loader))
''')
B("C22", PM, '''            return column.like(self.value)
''', '''            return sa.text(f"{column.name} LIKE '{self.value}'")
''')
B("C22", C, '''                        escaped_db_file = db_file.replace("'", "''")
''', '''                        escaped_db_file = db_file.replace("'", "\\\\'")
''')
B("C22", S, '''                conn.execute(sa.delete(table.table_obj))
''', '''                conn.exec_driver_sql(f"DELETE FROM {table.schema}.{table.name}")
''')
# C23
B("C23", P, '''            close_forward=self.config.include_dependencies,
''', '''            close_forward=bool(self.config.targets),
''', P, '''        if self.config.include_dependencies:
            self._check_ignore_tables()
''', '''        self._check_ignore_tables()
''')
B("C23", S, '''        self.conflict_strategy = config.conflict_strategy
''', '''        self.conflict_strategy: ConflictStrategy = "error"
''')
B("C23", S, '''                        + self.config.compact.start_key
                        - 1
                    ).label''', '''                    ).label''', S, '''                    + self.config.compact.start_key
                    - 1,
''', '''                    ,
''')
B("C23", CM, '''class ForbidBaseModel(BaseModel):
    # Input values may contain passwords, they must not appear in error messages
    model_config = ConfigDict(extra="forbid", hide_input_in_errors=True)
''', '''class ForbidBaseModel(BaseModel):
    # Input values may contain passwords, they must not appear in error messages
    model_config = ConfigDict(extra="allow", hide_input_in_errors=True)
''')
# C25
B("C25", C, '''        host = host or os.getenv(f"{env_prefix}HOST", "localhost")
''', '''        host = os.getenv(f"{env_prefix}HOST") or host or "localhost"
''')
B("C25", C, '''            require = as_dict.get(
                "require", bool(os.getenv(f"{env_prefix}SSL_REQUIRE", ""))
            )
''', '''            require = as_dict.get(
                "require", bool(os.getenv("SUBSET_SOURCE_SSL_REQUIRE", ""))
            )
''')
B("C25", C, '''        port = port or int(os.getenv(f"{env_prefix}PORT", "0"))
''', '''        port = port or int(os.getenv(f"{env_prefix}PORT", "3306"))
''')
# C26
B("C26", MA, '''    except IOError as exc:
        LOGGER.error(
            "Could not write plan to output file %r: %s", args.plan_output, exc
        )
        sys.exit(1)
''', '''    except IOError as exc:
        LOGGER.error(
            "Could not write plan to output file %r: %s", args.plan_output, exc
        )
        sys.exit(exc.errno and 1)
''') if False else None
B("C26", MA, '''        except Exception as exc:  # pylint: disable=broad-exception-caught
            LOGGER.error(''', '''        except BrokenPipeError:
            return
        except Exception as exc:  # pylint: disable=broad-exception-caught
            LOGGER.error(''')
B("C26", S, '''            except sa.exc.OperationalError:
                LOGGER.warning(
                    "Failed to create index''', '''            except Exception:
                LOGGER.warning(
                    "Failed to create index''') if False else None
B("C26", S, '''            if "--read-only" not in str(exc):
                raise
''', '''            if "read-only" not in str(exc) and "exists" not in str(exc):
                raise
''')
B("C26", MA, '''            sys.exit(1)


if __name__''', '''            sys.exit(1 if args.verbose else None)


if __name__''')
B("C12", S, '''        if missing_tables:
            raise ValueError(f"Destination is missing expected tables {missing_tables}")
''', '''        if missing_tables:
            LOGGER.error("Destination is missing expected tables %s", missing_tables)
            return []
''')
# C27
B("C27", C, '''                for session_sql in self.session_sqls:
                    cursor.execute(session_sql)
''', '''                for session_sql in set(self.session_sqls):
                    cursor.execute(session_sql)
''')
B("C27", C, '''        @sa.event.listens_for(engine, "connect")
''', '''        @sa.event.listens_for(engine, "connect", once=True)
''')
B("C27", C, '''            isolation_level = "SERIALIZABLE"
        else:
            isolation_level = "READ COMMITTED"
''', '''            isolation_level = "SERIALIZABLE"
        elif dialect == "mysql":
            isolation_level = "REPEATABLE READ"
        else:
            isolation_level = "READ COMMITTED"
''')
# C28
B("C28", S, '''        for remap_pattern in self.remap:
            table = re.sub''', '''        for remap_pattern in reversed(self.remap):
            table = re.sub''')
B("C28", S, '''            table = re.sub(remap_pattern.search, remap_pattern.replace, table)
        return parse_table_name(table)
''', '''            table, count = re.subn(remap_pattern.search, remap_pattern.replace, table)
            if count:
                break
        return parse_table_name(table)
''')
B("C28", S, '''            src_table = self.source_meta.tables[parse_table_name(source_table)]
            for fk in src_table.foreign_keys:
                dst_table''', '''            src_table = self.source_meta.tables[
                self._remap_table(*parse_table_name(source_table))
            ]
            for fk in src_table.foreign_keys:
                dst_table''')
# C29
B("C29", MD, '''            if map_key in pk_map:
                LOGGER''', '''            if pk_map.get(map_key) is not None:
                LOGGER''')
B("C29", MD, '''                if dst_table is not None and dst_table is not table:
''', '''                if dst_table is not None and dst_table.name != table.name:
''')
B("C29", MD, '''            if not table.primary_key:
                continue

            map_key''', '''            if not table.primary_key or table.foreign_keys:
                continue

            map_key''')
# C30
B("C30", P, '''        self.passthrough_tables -= not_found_tables
''', '''        self.ignore_tables |= not_found_tables
''')
B("C30", P, '''                if (fk.dst_schema, fk.dst_table) != (dst_schema, dst_table_name)
            ]
''', '''                if (fk.dst_schema, fk.dst_table) != (dst_schema, dst_table_name)
                or len(fk.columns) > 1
            ]
''')
B("C30", P, '''            ignore_tables=self.passthrough_tables | self.ignore_tables
''', '''            ignore_tables=self.passthrough_tables ^ self.ignore_tables
''')
B("C30", P, '''            if src_missing_cols:
                LOGGER.warning(''', '''            if src_missing_cols == set(extra_fk.src_columns):
                LOGGER.warning(''')
# C31
B("C31", S, '''                        sa.UniqueConstraint(*_remap_cols(constraint.columns))
''', '''                        sa.UniqueConstraint(*_remap_cols(list(constraint.columns)[:1]))
''')
B("C31", S, '''                    unique=index.unique,
''', '''                    unique=index.unique and len(index.columns) == 1,
''')
B("C31", S, '''                    if f"{ref_table.schema}.{ref_table.name}" not in table_obj_map:
''', '''                    if ref_table is table_obj or f"{ref_table.schema}.{ref_table.name}" not in table_obj_map:
''')
B("C31", S, '''                        nullable=col.nullable,
''', '''                        nullable=col.nullable or bool(col.foreign_keys),
''')
# C32
B("C32", MA, '''                if key in result:
                    result[key] = _dict_merge(result[key], val)
''', '''                if result.get(key):
                    result[key] = _dict_merge(result[key], val)
''') if False else None
B("C32", MA, '''            for key, val in rhs.items():
                if key in result:
''', '''            for key, val in rhs.items():
                if val is None:
                    continue
                if key in result:
''')
B("C32", MA, '''            return result
        return rhs
''', '''            return result
        return rhs or lhs
''')
B("C32", MA, '''        config_files = ["subsetter.yaml"]
''', '''        config_files = ["subsetter.yaml"]
    config_files = list(dict.fromkeys(config_files))
''')
# C33
B("C33", MA, '''                plan.model_dump(exclude_unset=True, by_alias=True),
''', '''                plan.model_dump(exclude_defaults=True, by_alias=True),
''') if False else None
B("C33", MA, '''                plan.model_dump(exclude_unset=True, by_alias=True),
''', '''                plan.model_dump(
                    exclude_unset=True, by_alias=True, exclude={"passthrough"}
                ),
''')
B("C33", MA, '''        truncate=args.truncate,
        create=args.create,
    )


def main''', '''        truncate=args.truncate or args.create,
        create=args.create,
    )


def main''')
B("C33", MA, '''            ctx = open(args.plan_output, "w", encoding="utf-8")
''', '''            ctx = open(args.plan_output, "r+", encoding="utf-8")
''')
# C34
B("C34", S, '''        cnt = self.name_counts.get(name.lower(), 0)
        self.name_counts[name.lower()] = cnt + 1
        if cnt:
            return f"{self.NAME_PREFIX}{name}_{cnt}"
''', '''        cnt = self.name_counts.get(name.lower(), 0)
        self.name_counts[name.lower()] = cnt + 1
        if cnt > 1:
            return f"{self.NAME_PREFIX}{name}_{cnt}"
''')
B("C34", S, '''            return f"{self.NAME_PREFIX}{name}_{cnt}"
''', '''            return f"{self.NAME_PREFIX}{name}{cnt}"
''')
B("C34", S, '''        self.temp_tables = TempTableCreator()
''', '''        self.temp_tables = TempTableCreator
''', S, '''                self.temp_tables.create(
                    conn,
                    schema,
                    table_q,
''', '''                self.temp_tables().create(
                    conn,
                    schema,
                    table_q,
''', S, '''                    self.temp_tables.create(
                        conn,
                        schema,
                        meta.temp''', '''                    self.temp_tables().create(
                        conn,
                        schema,
                        meta.temp''')
B("C34", S, '''                    f"{temp_name}_idx_{idx}",
''', '''                    f"{self.NAME_PREFIX}{name[:40]}_idx_{idx}",
''')
# C35
B("C35", MD, '''            if any(fnmatch(table_id, select_pattern) for select_pattern in select):
''', '''            if any(fnmatch(table_obj.name, select_pattern.split(".")[-1]) for select_pattern in select):
''')
B("C35", MD, '''                if (ref_schema, ref_table) not in table_set:
                    table_set.add((ref_schema, ref_table))
                    table_queue.append((ref_schema, ref_table))
''', '''                if (ref_schema, ref_table) not in table_set:
                    table_set.add((ref_schema, ref_table))
                    table_queue.insert(num_selected_tables, (ref_schema, ref_table))
''')
B("C35", S, '''            self.source_engine, [glob.escape(table) for table in plan.queries]
''', '''            self.source_engine, list(plan.queries)
''')
B("C35", S, '''            close_backward=True,
''', '''            close_backward=not self.merge,
''')
# C36
B("C36", F, '''        self.low = low
        self.high = high
        self.rng = rng or Random()

    def filter_values(self, values: List[Any]) -> Iterable[Any]:
        return (self.rng.randint''', '''        self.low, self.high = sorted((low, high - 1))
        self.rng = rng or Random()

    def filter_values(self, values: List[Any]) -> Iterable[Any]:
        return (self.rng.randint''')
B("C36", F, '''        self.faker: Faker = faker.unique if unique else faker  # type: ignore
''', '''        self.faker: Faker = faker.unique if unique and len(self.columns_act) > 1 else faker  # type: ignore
''')
B("C36", F, '''            elif isinstance(value, str):
                yield ""
            elif isinstance(value, int):
                yield 0
''', '''            elif isinstance(value, str):
                yield "0" if value.isdigit() else ""
            elif isinstance(value, int):
                yield 0
''')
# C37
B("C37", F, '''            if condition.match(value):
                return condition_filter.filter_view(values_in)
        return list(values_in)
''', '''            if condition.match(value):
                values_in = tuple(condition_filter.filter_view(values_in))
                if condition.op != "is":
                    break
        return list(values_in)
''')
B("C37", F, '''        if op == "is":
            return value is self.value
''', '''        if op == "is":
            return value == self.value
''') if False else None
B("C37", F, '''        if op == "matches":
            return fnmatch(value, self.value)
''', '''        if op == "matches":
            return value is None or fnmatch(value, self.value)
''')
B("C37", F, '''            if condition_filter.columns_out != self.columns_out:
''', '''            if len(condition_filter.columns_out) > len(self.columns_out):
''')
B("C37", F, '''        if op == "not in":
            return value not in self.value  # type: ignore
''', '''        if op == "not in":
            return value is not None and value not in self.value  # type: ignore
''')
