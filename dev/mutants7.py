"""Edits that break a property: a seventh set."""
P, MD, PM, C, SO = "planner.py", "metadata.py", "plan_model.py", "common.py", "solver.py"
S, F, MA, CM = "sampler.py", "filters.py", "__main__.py", "config_model.py"
# C01
B("C01", S, '''        with self.source_engine.execution_options().connect() as conn:
            self._materialize_tables(meta, conn, plan)
''', '''        with self.source_engine.execution_options().connect() as conn:
            if conn.dialect.name == "postgresql":
                conn.execute(sa.text("ANALYZE"))
                conn.commit()
            self._materialize_tables(meta, conn, plan)
''')
B("C01", S, '''            sa.Table(
            temp_name,
            metadata,
            schema=temp_schema,
            prefixes=["TEMPORARY"],
''', '''''') if False else None
B("C01", S, '''            prefixes=["TEMPORARY"],
''', '''            prefixes=["TEMPORARY"] if primary_key else ["UNLOGGED"],
''')
# C02
B("C02", S, '''            filter_view = FilterViewChain.construct_filter(
                columns,
                self.config.filters.get(table, []),
            )
''', '''            filter_view = FilterViewChain.construct_filter(
                columns,
                self.config.filters.get(table, [])
                if table not in self.passthrough_tables
                else [],
            )
''')
B("C02", F, '''        result = list(values)
        for filter_view in self.filter_views:
            result = filter_view.filter_view(result)
        return result
''', '''        result = list(values)
        for filter_view in self.filter_views:
            try:
                result = filter_view.filter_view(result)
            except (TypeError, ValueError):
                # not applicable to values of this row
                continue
        return result
''')
B("C02", S, '''                    out_row = filter_view.filter_view(row) if filter_view else list(row)
''', '''                    if filter_view and any(value is not None for value in row[1:]):
                        out_row = filter_view.filter_view(row)
                    else:
                        out_row = list(row)
''')
# C03
B("C03", F, '''            elif isinstance(value, datetime):
                yield EPOCH.replace(tzinfo=value.tzinfo)
''', '''            elif isinstance(value, datetime):
                yield EPOCH.replace(tzinfo=value.tzinfo, fold=value.fold, hour=value.hour)
''')
B("C03", F, '''        return (self.rng.uniform(self.low, self.high) for _ in values)
''', '''        return (
            self.rng.uniform(self.low, self.high) if value else value
            for value in values
        )
''')
B("C03", F, '''        faker = faker or Faker()
''', '''        faker = faker or Faker()
        faker.seed_instance(len(self.columns_in))
''')
# C04
B("C04", F, '''        values_out = list(values)
        filtered_values = self.filter_values(
            [values_out[index] for index in self.column_act_indices]
        )
        for index, filtered_value in zip(self.column_act_indices, filtered_values):
''', '''        values_out = list(values)
        filtered_values = self.filter_values(
            [values_out[index] for index in self.column_act_indices]
        )
        for index, filtered_value in zip(sorted(self.column_act_indices), filtered_values):
''')
B("C04", F, '''    column_index_map = {column: index for index, column in enumerate(columns_in)}
    column_act_indices = []
''', '''    column_index_map = {
        column.lower(): index for index, column in enumerate(columns_in)
    }
    columns_act = tuple(column.lower() for column in columns_act)
    column_act_indices = []
''')
# C05
B("C05", C, '''            echo=self.echo,
''', '''            echo=self.echo,
            echo_pool=LOGGER.isEnabledFor(logging.DEBUG),
''') if False else None
B("C05", S, '''    def output_result_set(
        self,
        schema: str,
        table_name: str,
        columns: List[str],
        result_set,
        *,
        filter_view: Optional[FilterView] = None,
        multiplier: int = 1,
        column_multipliers: Optional[Set[str]] = None,
    ) -> None:
        (src_schema, src_table_name) = (schema, table_name)
''', '''    def output_result_set(
        self,
        schema: str,
        table_name: str,
        columns: List[str],
        result_set,
        *,
        filter_view: Optional[FilterView] = None,
        multiplier: int = 1,
        column_multipliers: Optional[Set[str]] = None,
    ) -> None:
        LOGGER.debug("Writing to %s", self.engine.url.render_as_string(False))
        (src_schema, src_table_name) = (schema, table_name)
''')
B("C05", S, '''                        if out_row[index] is not None:
                            out_row[index] += offset
''', '''                        if out_row[index] is not None:
                            if out_row[index] < 0:
                                LOGGER.warning("Negative key in %s", tuple(out_row))
                            out_row[index] += offset
''')
# C06
B("C06", C, '''            require = as_dict.get(
                "require", bool(os.getenv(f"{env_prefix}SSL_REQUIRE", ""))
            )
            if not require:
                return {}
''', '''            require = as_dict.get(
                "require", bool(os.getenv(f"{env_prefix}SSL_REQUIRE", ""))
            )
            if not require or dialect == "sqlite":
                return {}
''')
B("C06", C, '''                result["verify_mode"] = (
                    "required" if server_verify in ("cert", "identity") else "none"
                )
''', '''                result["verify_mode"] = (
                    "required"
                    if server_verify in ("cert", "identity") and server_rootcert
                    else "none"
                )
''')
# C07
B("C07", S, '''        if truncate:
            output.truncate()
        output.prepare()
''', '''        if truncate or self.config.compact.primary_keys:
            output.truncate()
        output.prepare()
''')
B("C07", S, '''            for table in reversed(self.meta.toposort()):
                LOGGER.info("Truncating table %s", table)
                conn.execute(sa.delete(table.table_obj))
                conn.commit()
''', '''            for table in reversed(self.meta.toposort()):
                if conn.scalar(sa.select(sa.func.max(table.table_obj.c[0]))) is None:
                    # nothing to delete
                    continue
                LOGGER.info("Truncating table %s", table)
                conn.execute(sa.delete(table.table_obj))
                conn.commit()
''')
# C08
B("C08", S, '''        if create:
            output.create()
        insert_order = output.insert_order()
        if truncate:
            output.truncate()
        output.prepare()
''', '''        if create:
            output.create()
        if truncate:
            output.truncate()
        insert_order = output.insert_order()
        output.prepare()
''')
B("C08", S, '''        table_column_multipliers = self._get_multiplied_columns(meta, plan)
        self.compact_columns = self._get_compact_columns(meta)

        output = SamplerOutput.from_config(self.config.output, plan, meta)
        if create:
            output.create()
''', '''        table_column_multipliers = self._get_multiplied_columns(meta, plan)

        output = SamplerOutput.from_config(self.config.output, plan, meta)
        if create:
            output.create()
        self.compact_columns = self._get_compact_columns(meta)
''')
# C09
B("C09", S, '''        for table in insert_order_mapped:
            remapped_table = self.table_remap.get(table)
            if remapped_table:
                result.append(remapped_table)
        return result
''', '''        for table in insert_order_mapped:
            remapped_table = self.table_remap.get(table)
            if remapped_table in self.passthrough_tables:
                # others may refer to these
                result.insert(0, remapped_table)
            elif remapped_table:
                result.append(remapped_table)
        return result
''')
B("C09", S, '''            for table in reversed(self.meta.toposort()):
                LOGGER.info("Truncating table %s", table)
''', '''            order = self.meta.toposort()
            order.sort(key=lambda table: len(table.foreign_keys), reverse=True)
            for table in order:
                LOGGER.info("Truncating table %s", table)
''')
# C10
B("C10", S, '''            for column in self.table.primary_key:
                self.non_pk_columns.discard(column.name)
            if self.conflict_strategy == "replace" and not self.non_pk_columns:
''', '''            for column in self.table.primary_key:
                self.non_pk_columns.discard(column.name)
            for column in self.table.columns:
                if column.unique:
                    self.non_pk_columns.discard(column.name)
            if self.conflict_strategy == "replace" and not self.non_pk_columns:
''')
B("C10", S, '''        stmt = mysql.insert(self.table)
        if self.conflict_strategy == "replace":
            stmt = stmt.on_duplicate_key_update(
                {col: stmt.inserted[col] for col in self.non_pk_columns}
            )
''', '''        stmt = mysql.insert(self.table)
        if self.conflict_strategy == "replace":
            stmt = stmt.on_duplicate_key_update(
                {
                    col: sa.func.coalesce(stmt.inserted[col], self.table.c[col])
                    for col in self.non_pk_columns
                }
            )
''')
# C11
B("C11", S, '''                if autoinc_index != -1:
                    if autoinc_max_written is None:
''', '''                if autoinc_index != -1 and iteration == 0:
                    if autoinc_max_written is None:
''')
B("C11", S, '''    curval = _autoincrement_get(engine, table)
    if curval is not None and curval > value:
        return

    with engine.connect() as conn:
''', '''    curval = _autoincrement_get(engine, table)
    if curval is None or curval > value:
        return

    with engine.connect() as conn:
''')
# C12
B("C12", S, '''                buffer.append(tuple(out_row))
                if len(buffer) > DESTINATION_BUFFER_SIZE:
                    _flush_buffer()
        if buffer:
            _flush_buffer()
''', '''                buffer.append(tuple(out_row))
                if len(buffer) > DESTINATION_BUFFER_SIZE:
                    _flush_buffer()
        if buffer and (autoinc_index == -1 or autoinc_max_written is not None):
            _flush_buffer()
''') if False else None
B("C12", S, '''        def _flush_buffer():
            with self.engine.connect() as conn:
                conn.execute(
                    ConflictInsert(conflict_strategy, table.table_obj, columns_out),
                    [dict(zip(columns_out, row)) for row in buffer],
                )
                conn.commit()
            buffer.clear()
''', '''        def _flush_buffer():
            with self.engine.connect() as conn:
                by_key = {row[: len(table.primary_key) or None]: row for row in buffer}
                conn.execute(
                    ConflictInsert(conflict_strategy, table.table_obj, columns_out),
                    [dict(zip(columns_out, row)) for row in by_key.values()],
                )
                conn.commit()
            buffer.clear()
''')
B("C12", S, '''        with open(output_path, "w", encoding="utf-8") as fdump:
''', '''        with open(output_path, "a" if multiplier > 1 else "w", encoding="utf-8") as fdump:
''')
B("C12", S, '''                for row in tqdm(result, total=total, desc="row progress", unit="rows"):
                    # result_processor
                    rows += 1
                    yield row
''', '''                for row in tqdm(result, total=total, desc="row progress", unit="rows"):
                    # result_processor
                    rows += 1
                    yield row
                    if total is not None and rows >= total:
                        break
''')
# C13
B("C13", S, '''                for fk in table.foreign_keys:
                    dst_mapped = result.get(f"{fk.dst_schema}.{fk.dst_table}", set())
                    cols.update(
''', '''                for fk in table.foreign_keys:
                    if len(fk.columns) > 1 and set(fk.columns) & set(table.primary_key):
                        continue
                    dst_mapped = result.get(f"{fk.dst_schema}.{fk.dst_table}", set())
                    cols.update(
''')
B("C13", S, '''                        if dst_col in dst_mapped
                    )

                if cols and''', '''                        if dst_col in dst_mapped and src_col not in ignored_pk_cols
                    )

                if cols and''')
# C14
B("C14", S, '''                    for index, offset in offsets:
                        if out_row[index] is not None:
                            out_row[index] += offset
''', '''                    for index, offset in offsets:
                        if out_row[index] is not None and out_row[index] < offset:
                            out_row[index] += offset
''')
B("C14", S, '''                offset = pk_max_values.get(f"{fk.dst_schema}.{fk.dst_table}")
                if offset is not None:
''', '''                offset = pk_max_values.get(f"{fk.dst_schema}.{fk.dst_table}")
                if offset is not None and fk.columns != src_table.primary_key:
''')
B("C14", S, '''                    dst_table is not None
                    and dst_table is not src_table
                    and fk.columns == src_table.primary_key
''', '''                    dst_table is not None
                    and str(dst_table) in pk_max_values
                    and dst_table is not src_table
                    and src_table.name.startswith(dst_table.name)
                    and fk.columns == src_table.primary_key
''')
# C15
B("C15", S, '''                            isouter=True,
                        )
                    else:
                        cols.append(subq.columns[col.name])
''', '''                            isouter=col.nullable,
                        )
                    elif col.name == SUBSETTER_COMPACT_COLUMN:
                        cols.append(id_col.label(col.name))
                    else:
                        cols.append(subq.columns[col.name])
''') if False else None
B("C15", S, '''                        if dst_table in joined_tables:
                            dst_table = dst_table.alias()
                        else:
                            joined_tables.add(dst_table)
''', '''                        if dst_table in joined_tables and fk.dst_table != table_name:
                            dst_table = dst_table.alias()
                        else:
                            joined_tables.add(dst_table)
''')
B("C15", S, '''                                *(
                                    subq.columns[src_col] == dst_table.columns[dst_col]
                                    for src_col, dst_col in zip(
                                        fk.columns, fk.dst_columns
                                    )
                                )
''', '''                                *(
                                    subq.columns[src_col] == dst_table.columns[dst_col]
                                    for src_col, dst_col in zip(
                                        fk.columns, fk.dst_columns
                                    )
                                    if src_col == col.name
                                )
''')
# C16
B("C16", S, '''            if (schema, table_name, 0) in meta.temp_tables:
                query_stmt = meta.temp_tables[(schema, table_name, 0)].select()
''', '''            if (
                schema,
                table_name,
                0,
            ) in meta.temp_tables and table not in self.passthrough_tables:
                query_stmt = meta.temp_tables[(schema, table_name, 0)].select()
''')
B("C16", S, '''            for index in range(1, ref_count):
                meta.temp_tables[(schema, table_name, index)], _ = (
                    self.temp_tables.create(
                        conn,
                        schema,
                        meta.temp_tables[(schema, table_name, 0)].select(),
''', '''            for index in range(1, ref_count):
                meta.temp_tables[(schema, table_name, index)], _ = (
                    self.temp_tables.create(
                        conn,
                        schema,
                        table_q,
''')
# C17
B("C17", P, '''        rev_foreign_keys = sorted(
            fk
            for fk in table.rev_foreign_keys
            if (fk.dst_schema, fk.dst_table) in processed
        )
''', '''        rev_foreign_keys = sorted(
            {fk.dst_table: fk
            for fk in table.rev_foreign_keys
            if (fk.dst_schema, fk.dst_table) in processed}.values()
        )
''')
B("C17", P, '''            processed.add((schema, table_name))
            queries[table]''', '''            if self.config.targets.get(table) is None or len(order) > 1:
                processed.add((schema, table_name))
            queries[table]''') if False else None
B("C17", P, '''                    left_columns=list(fk.columns),
                    right_columns=list(fk.dst_columns),
                    half_unique=half_unique,
''', '''                    left_columns=sorted(fk.columns),
                    right_columns=sorted(fk.dst_columns),
                    half_unique=half_unique,
''')
# C18
B("C18", P, '''            if target.all_:
                target_constraints.clear()
            target_constraints.extend(conf_constraints_sql)
''', '''            target_constraints.extend(conf_constraints_sql)
            if target.all_:
                target_constraints.clear()
''')
B("C18", P, '''                    limit=None if target.all_ else target.amount,
''', '''                    limit=None if target.all_ or target.percent else target.amount,
''')
# C19
B("C19", PM, '''        if self.limit is not None:
            # pylint: disable=not-callable
            stmt = stmt.order_by(sa.func.random()).limit(self.limit)
''', '''        if self.limit is not None:
            # pylint: disable=not-callable
            if self.where is None:
                stmt = stmt.order_by(sa.func.random())
            stmt = stmt.limit(self.limit)
''')
B("C19", PM, '''                if join.half_unique and table_obj.primary_key:
''', '''                if table_obj.primary_key:
''') if False else None
B("C19", PM, '''            if self.joins_outer:
                exists_constraints.extend(col.is_not(None) for col in joined_cols)
                stmt = stmt.where(sa.or_(*exists_constraints))
''', '''            if self.joins_outer:
                if joined_cols:
                    exists_constraints.append(
                        sa.and_(*(col.is_not(None) for col in joined_cols))
                    )
                stmt = stmt.where(sa.or_(*exists_constraints))
''')
# C20
B("C20", PM, '''        if self.limit is not None:
            kwargs["limit"] = self.limit
        if self.joins:
            kwargs["joins"] = self.joins
            kwargs["joins_outer"] = self.joins_outer
''', '''        if self.limit:
            kwargs["limit"] = self.limit
        if self.joins:
            kwargs["joins"] = self.joins
            kwargs["joins_outer"] = self.joins_outer
''')
B("C20", PM, '''        if len(simp_conditions) == 1:
            return simp_conditions[0]
        return SQLWhereClauseOr(type_="or", conditions=simp_conditions)
''', '''        unique_conditions = {
            (type(cond), getattr(cond, "column", id(cond))): cond
            for cond in simp_conditions
        }
        simp_conditions = list(unique_conditions.values())
        if len(simp_conditions) == 1:
            return simp_conditions[0]
        return SQLWhereClauseOr(type_="or", conditions=simp_conditions)
''')
# C21
B("C21", P, '''        foreign_keys = sorted(
            fk
            for fk in table.foreign_keys
            if (fk.dst_schema, fk.dst_table) in processed
        )
''', '''        foreign_keys = list(
            {
                fk
                for fk in table.foreign_keys
                if (fk.dst_schema, fk.dst_table) in processed
            }
        )
''')
B("C21", P, '''            passthrough=[
                f"{schema}.{table_name}"
                for schema, table_name in sorted(self.passthrough_tables)
            ],
''', '''            passthrough=[
                f"{schema}.{table_name}"
                for schema, table_name in sorted(
                    self.passthrough_tables, key=lambda table: table[0]
                )
            ],
''')
# C22
B("C22", PM, '''        if op == "like":
            return column.like(self.value)
''', '''        if op == "like":
            return column.like(sa.literal_column(f"'{self.value}'"))
''')
B("C22", C, '''                        escaped_db_file = db_file.replace("'", "''")
                        escaped_alias = db_alias.replace('"', '""')
''', '''                        escaped_db_file = db_file.replace("'", "''")
                        escaped_alias = db_alias.replace("'", "''")
''')
# C23
B("C23", P, '''            for column, in_list in target.in_.items():
                target_constraints.append(
''', '''            for column, in_list in target.in_.items() if not target.like else ():
                target_constraints.append(
''') if False else None
B("C23", C, '''        if self.isolation_level:
            isolation_level = self.isolation_level
        elif dialect == "sqlite":
            isolation_level = "SERIALIZABLE"
''', '''        if dialect == "sqlite" or not self.isolation_level:
            isolation_level = "SERIALIZABLE"
''') if False else None
B("C23", CM if "CM" in globals() else "config_model.py", '''        start_key: int = 1
''', '''        start_key: int = 1

        @model_validator(mode="after")
        def check_start_key(self):
            self.start_key = 1
            return self
''')
# C25
B("C25", C, '''        host = host or os.getenv(f"{env_prefix}HOST", "localhost")
''', '''        host = host or os.getenv(f"{env_prefix}HOST") or os.getenv("DB_HOST", "localhost")
''')
B("C25", C, '''        port = port or int(os.getenv(f"{env_prefix}PORT", "0"))
''', '''        if host == "localhost":
            port = port or int(os.getenv(f"{env_prefix}PORT", "0"))
''')
# C26
B("C26", MA, '''    try:
        with _open_config_path(args.plan) as fplan:
            plan = SubsetPlan.model_validate(yaml.safe_load(fplan))
    except ValueError as exc:
''', '''    try:
        with _open_config_path(args.plan) as fplan:
            plan = SubsetPlan.model_validate(yaml.safe_load(fplan))
    except yaml.YAMLError as exc:
        LOGGER.error("Plan file is not valid yaml: %s", exc)
        return
    except ValueError as exc:
''')
B("C26", S, '''            metadata_obj.create_all(bind=self.engine)
            for remapped_table_obj in tables_created:
''', '''            try:
                metadata_obj.create_all(bind=self.engine)
            except sa.exc.IntegrityError:
                LOGGER.warning("Could not create all tables", exc_info=True)
            for remapped_table_obj in tables_created:
''')
# C27
B("C27", C, '''                for session_sql in self.session_sqls:
                    cursor.execute(session_sql)
                # Session settings would otherwise be lost in the first rollback
                dbapi_connection.commit()
''', '''                for session_sql in self.session_sqls:
                    cursor.execute(session_sql)
                # Session settings would otherwise be lost in the first rollback
                if self.session_sqls and dialect != "postgres":
                    dbapi_connection.commit()
''')
B("C27", C, '''        @sa.event.listens_for(engine, "connect")
''', '''        @sa.event.listens_for(engine, "connect", once=dialect == "sqlite")
''')
# C28
B("C28", S, '''        for remap_pattern in self.remap:
            table = re.sub(remap_pattern.search, remap_pattern.replace, table)
        return parse_table_name(table)
''', '''        for remap_pattern in self.remap:
            table = re.sub(
                remap_pattern.search, remap_pattern.replace, table, flags=re.IGNORECASE
            )
        return parse_table_name(table)
''')
B("C28", S, '''        for table in plan.queries:
            remapped_table = ".".join(self._remap_table(*parse_table_name(table)))
            if self.table_remap.setdefault(remapped_table, table) != table:
''', '''        for table in plan.queries:
            remapped_table = ".".join(self._remap_table(*parse_table_name(table)))
            if table in self.passthrough_tables:
                self.table_remap[remapped_table] = table
                continue
            if self.table_remap.setdefault(remapped_table, table) != table:
''')
# C29
B("C29", MD, '''            if map_key in pk_map:
                LOGGER.info("Duplicate primary key columns found %r", table.primary_key)
                pk_map[map_key] = None
''', '''            if pk_map.get(map_key) is not None:
                LOGGER.info("Duplicate primary key columns found %r", table.primary_key)
                pk_map[map_key] = None
''')
B("C29", MD, '''                dst_table = pk_map.get(_key_pk(table.schema, (col.name,)))
''', '''                dst_table = pk_map.get(_key_pk(table.schema, (col.name,)))
                if dst_table is None and col.name.endswith("_id"):
                    dst_table = self.tables.get((table.schema, col.name[:-3]))
''')
# C30
B("C30", P, '''            for fk in table.foreign_keys:
                if (fk.dst_schema, fk.dst_table) in self.ignore_tables:
                    raise ValueError(
''', '''            for fk in table.foreign_keys:
                if any(table.table_obj.columns[col].nullable for col in fk.columns):
                    continue
                if (fk.dst_schema, fk.dst_table) in self.ignore_tables:
                    raise ValueError(
''')
B("C30", P, '''        self._remove_ignore_fks()
        self._add_extra_fks()
''', '''        self._add_extra_fks()
        self._remove_ignore_fks()
''')
# C31
B("C31", S, '''                    unique=index.unique,
                    dialect_options=index.dialect_options,
''', '''                    unique=index.unique and len(index.columns) == 1,
                    dialect_options=index.dialect_options,
''')
B("C31", S, '''                        nullable=col.nullable,
                        primary_key=col.primary_key,
''', '''                        nullable=col.nullable or bool(col.foreign_keys),
                        primary_key=col.primary_key,
''')
B("C31", S, '''                if isinstance(constraint, sa.CheckConstraint):
                    remapped_table_obj.append_constraint(
''', '''                if isinstance(constraint, sa.CheckConstraint) and constraint.name:
                    remapped_table_obj.append_constraint(
''')
# C32
B("C32", MA, '''            result = dict(lhs)
            for key, val in rhs.items():
''', '''            result = dict(lhs) if lhs.keys() & rhs.keys() else {}
            for key, val in rhs.items():
''')
B("C32", MA, '''                with _open_config_path(config_file) as fconfig:
                    config_data = _dict_merge(config_data, yaml.safe_load(fconfig))
''', '''                with _open_config_path(config_file) as fconfig:
                    for document in yaml.safe_load_all(fconfig):
                        config_data = _dict_merge(document, config_data)
''')
# C33
B("C33", MA, '''                plan.model_dump(exclude_unset=True, by_alias=True),
''', '''                plan.model_dump(exclude_defaults=True, exclude_unset=True, by_alias=True),
''') if False else None
B("C33", MA, '''    plan = Planner(config.source, config.planner).plan()
    Sampler(config.source, config.sampler).sample(
        plan,
        truncate=args.truncate,
        create=args.create,
    )
''', '''    plan = Planner(config.source, config.planner).plan()
    Sampler(config.source, config.sampler).sample(
        plan,
        truncate=args.truncate and not args.create,
        create=args.create,
    )
''')
B("C33", MA, '''            ctx = open(args.plan_output, "w", encoding="utf-8")
''', '''            ctx = open(args.plan_output, "a", encoding="utf-8")
''')
# C34
B("C34", S, '''        cnt = self.name_counts.get(name.lower(), 0)
        self.name_counts[name.lower()] = cnt + 1
        if cnt:
''', '''        cnt = self.name_counts.get(name.lower(), 0)
        self.name_counts[name] = cnt + 1
        if cnt:
''')
B("C34", S, '''        name = "".join(ch for ch in name if ch.isascii() and ch.isalnum())[:40]
''', '''        name = "".join(ch for ch in name if ch.isascii() and (ch.isalnum() or ch == "_"))[:40]
''')
# C35
B("C35", MD, '''            for fk in table_obj.foreign_key_constraints:
                ref_table_obj = fk.referred_table
                assert ref_table_obj.schema is not None
                if close_forward:
''', '''            for fk in table_obj.foreign_key_constraints:
                ref_table_obj = fk.referred_table
                assert ref_table_obj.schema is not None
                if ref_table_obj.schema != table_obj.schema:
                    continue
                if close_forward:
''')
B("C35", MD, '''            if any(fnmatch(table_id, select_pattern) for select_pattern in select):
''', '''            if any(
                fnmatch(table_id, pattern) or fnmatch(table_obj.name, pattern)
                for pattern in select
            ):
''')
# C36
B("C36", F, '''            alphabet = _ALPHABET_MAP.get(self.alphabet, self.custom_alphabet)
''', '''            alphabet = self.custom_alphabet or _ALPHABET_MAP.get(self.alphabet)
''')
B("C36", F, '''        return (self.rng.randint(self.low, self.high) for _ in values)
''', '''        value = self.rng.randint(self.low, self.high)
        return (value for _ in values)
''') if False else None
B("C36", F, '''        return ("".join(self.rng.choices(self.alphabet, k=self.length)) for _ in values)
''', '''        return (
            "".join(self.rng.sample(self.alphabet, min(self.length, len(self.alphabet))))
            for _ in values
        )
''')
# C37
B("C37", F, '''        value = values_in[self.column_index]
        for condition, condition_filter in zip(self.conditions, self.condition_filters):
            if condition.match(value):
''', '''        for condition, condition_filter in zip(self.conditions, self.condition_filters):
            value = values_in[
                condition_filter.column_act_indices[0]
                if condition.op == "matches"
                else self.column_index
            ]
            if condition.match(value):
''')
B("C37", F, '''        if op == "<=":
            return value <= self.value
''', '''        if op == "<=":
            return not value > self.value
''') if False else None
B("C37", F, '''        if op == "=":
            return value == self.value
''', '''        if op == "=":
            return str(value) == str(self.value)
''')
