"""Edits that break a property: an eighth set."""
P, MD, PM, C, SO = "planner.py", "metadata.py", "plan_model.py", "common.py", "solver.py"
S, F, MA, CM = "sampler.py", "filters.py", "__main__.py", "config_model.py"
# C01
B("C01", S, '''        if dialect.name in ("postgresql", "sqlite"):
            temp_schema = None
''', '''        if dialect.name in ("postgresql", "sqlite"):
            temp_schema = None
        else:
            conn.execute(sa.schema.CreateSchema(schema, if_not_exists=True))
''')
B("C01", S, '''        for idx, index_cols in enumerate(indexes):
            if index_cols == primary_key:
                continue
''', '''        if dialect.name == "mysql":
            conn.execute(sa.text(f"DROP TABLE IF EXISTS `{schema}`.`{name}`"))
        for idx, index_cols in enumerate(indexes):
            if index_cols == primary_key:
                continue
''')
# C07
B("C07", S, '''        if create:
            output.create()
        insert_order = output.insert_order()
''', '''        if create:
            output.create()
            truncate = truncate or self.config.output.mode == "database"
        insert_order = output.insert_order()
''')
B("C07", S, '''        if tables_created:
            LOGGER.info("Creating %d tables in destination", len(tables_created))
            metadata_obj.create_all(bind=self.engine)
''', '''        if tables_created:
            LOGGER.info("Creating %d tables in destination", len(tables_created))
            metadata_obj.drop_all(bind=self.engine, checkfirst=True)
            metadata_obj.create_all(bind=self.engine)
''')
# C08
B("C08", S, '''        self._validate_filters(meta)

        table_column_multipliers = self._get_multiplied_columns(meta, plan)
        self.compact_columns = self._get_compact_columns(meta)

        output = SamplerOutput.from_config(self.config.output, plan, meta)
        if create:
            output.create()
        insert_order = output.insert_order()
''', '''        self._validate_filters(meta)

        table_column_multipliers = self._get_multiplied_columns(meta, plan)

        output = SamplerOutput.from_config(self.config.output, plan, meta)
        if create:
            output.create()
        self.compact_columns = self._get_compact_columns(meta)
        insert_order = output.insert_order()
''')
B("C08", S, '''        self.table_remap: Dict[str, str] = {}
        for table in plan.queries:
            remapped_table = ".".join(self._remap_table(*parse_table_name(table)))
            if self.table_remap.setdefault(remapped_table, table) != table:
                raise ValueError(
                    f"Multiple tables remapped to the same name {remapped_table}"
                )
''', '''        self.table_remap: Dict[str, str] = {}
        for table in plan.queries:
            remapped_table = ".".join(self._remap_table(*parse_table_name(table)))
            if self.table_remap.setdefault(remapped_table, table) != table:
                LOGGER.error(
                    "Multiple tables remapped to the same name %s", remapped_table
                )
''')
# C09
B("C09", MD, '''                if (fk.dst_schema, fk.dst_table) not in ignore_tables
                and (fk.dst_schema, fk.dst_table) in self.tables
            }
''', '''                if (fk.dst_schema, fk.dst_table) not in ignore_tables
                and (table.schema, fk.dst_table) in self.tables
            }
''')
B("C09", S, '''            for table in reversed(self.meta.toposort()):
                LOGGER.info("Truncating table %s", table)
''', '''            for table in sorted(
                reversed(self.meta.toposort()),
                key=lambda table: (table.schema, table.name) in self.additional_tables,
            ):
                LOGGER.info("Truncating table %s", table)
''')
# C10
B("C10", S, '''            self.non_pk_columns.discard(column.name)
            if self''', '''''') if False else None
B("C10", S, '''        if self.conflict_strategy == "skip":
            stmt = stmt.prefix_with("IGNORE")
        return compiler.process(stmt, **kwargs)
''', '''        if self.conflict_strategy == "skip" and self.non_pk_columns:
            stmt = stmt.prefix_with("IGNORE")
        return compiler.process(stmt, **kwargs)
''')
B("C10", S, '''        if not self.table.primary_key:
            # We only attempt to do this if there is a primary key
            self.conflict_strategy = "error"
''', '''        if len(self.table.primary_key) != 1:
            # We only attempt to do this if there is a primary key
            self.conflict_strategy = "error"
''')
# C11
B("C11", S, '''                    else:
                        autoinc_max_written = max(
                            autoinc_max_written, out_row[autoinc_index]
                        )
                buffer.append(tuple(out_row))
''', '''                    elif iteration == 0:
                        autoinc_max_written = max(
                            autoinc_max_written, out_row[autoinc_index]
                        )
                buffer.append(tuple(out_row))
''')
B("C11", S, '''        _autoincrement_update(self.engine, table.table_obj, autoinc_max_written)
''', '''        if conflict_strategy != "skip":
            _autoincrement_update(self.engine, table.table_obj, autoinc_max_written)
''')
# C12
B("C12", S, '''        def _flush_buffer():
            with self.engine.connect() as conn:
                conn.execute(
                    ConflictInsert(conflict_strategy, table.table_obj, columns_out),
                    [dict(zip(columns_out, row)) for row in buffer],
                )
                conn.commit()
            buffer.clear()
''', '''        def _flush_buffer():
            with self.engine.connect() as conn:
                conn.execute(
                    ConflictInsert(conflict_strategy, table.table_obj, columns_out),
                    [
                        dict(zip(columns_out, row))
                        for row in (dict.fromkeys(buffer) if self.merge else buffer)
                    ],
                )
                conn.commit()
            buffer.clear()
''')
B("C12", S, '''            query = plan.queries.get(table)
            if query is None:
                continue
''', '''            query = plan.queries.get(table)
            if query is None:
                continue
            if self.cached_table_sizes.get((schema, table_name)) == 0:
                continue
            if (schema, table_name) in done:
                continue
            done.add(table_name)
''') if False else None
B("C12", S, '''                stream_results=True,
                yield_per=SOURCE_BUFFER_SIZE,
            ).execute(query_stmt)
            columns = result.keys()
''', '''                stream_results=True,
                yield_per=SOURCE_BUFFER_SIZE,
            ).execute(query_stmt).unique()
            columns = result.keys()
''')
B("C12", S, '''        output_path = os.path.join(self.directory, f"{schema}.{table_name}.json")
''', '''        output_path = os.path.join(
            self.directory, f"{schema}.{table_name.lower()}.json"
        )
''')
# C13
B("C13", S, '''                column_multipliers=column_multipliers,
            )
            LOGGER.info("Sampled''', '''                column_multipliers=(column_multipliers or set())
                - self.compact_columns.get((schema, table_name), set()),
            )
            LOGGER.info("Sampled''')
B("C13", S, '''        multiplied_indexes = [
            ind
            for ind, col_name in enumerate(columns_out)
            if col_name in (column_multipliers or set())
        ]

        autoinc_index = -1
''', '''        multiplied_indexes = [
            ind
            for ind, col_name in enumerate(columns_out)
            if col_name in (column_multipliers or set())
            and col_name not in (table_offsets or {})
        ]

        autoinc_index = -1
''')
# C14
B("C14", S, '''        for source_table in toposort(shared_keys):
            for ref_table in shared_keys[source_table]:
                pk_max_values[source_table] = pk_max_values.get(ref_table)
''', '''        for source_table in toposort(shared_keys):
            for ref_table in shared_keys[source_table]:
                pk_max_values[source_table] = max(
                    pk_max_values.get(source_table) or 0,
                    pk_max_values.get(ref_table) or 0,
                )
''')
B("C14", S, '''                if dst_table is None or fk.dst_columns != dst_table.primary_key:
                    continue
                offset = pk''', '''                if dst_table is None or fk.dst_columns != dst_table.primary_key:
                    break
                offset = pk''')
B("C14", S, '''            if max_pk_val is not None:
                self.table_offsets[(schema, table_name)][pk_col.name] = max_pk_val + 1
''', '''            if max_pk_val:
                self.table_offsets[(schema, table_name)][pk_col.name] = max_pk_val + 1
''')
# C15
B("C15", S, '''                    if dst_col in self.compact_columns.get(
                        (fk.dst_schema, fk.dst_table), set()
                    ):
                        remote_compact_cols[src_col] = fk
''', '''                    if dst_col in self.compact_columns.get(
                        (fk.dst_schema, fk.dst_table), set()
                    ):
                        remote_compact_cols.setdefault(src_col, fk)
                        break
''')
B("C15", S, '''                        order_by=[
                            subq.c[col.name] for col in src_table.table_obj.primary_key
                        ],
                    )
                    + self.config.compact.start_key
                    - 1,
''', '''                        order_by=[
                            subq.c[col.name] for col in src_table.table_obj.primary_key
                        ],
                    )
                    + max(self.config.compact.start_key, 1)
                    - 1,
''')
# C16
B("C16", S, '''            for key, count in counter.items():
                max_ref_counts[key] = max(max_ref_counts.get(key, 0), count)
''', '''            for key, count in counter.items():
                if count > max_ref_counts.get(key, 1):
                    max_ref_counts[key] = count
''')
B("C16", S, '''            if (schema, table_name, 0) in meta.temp_tables:
                query_stmt = meta.temp_tables[(schema, table_name, 0)].select()
''', '''            if (
                schema,
                table_name,
                0,
            ) in meta.temp_tables and not query.sql:
                query_stmt = meta.temp_tables[(schema, table_name, 0)].select()
''')
# C17
B("C17", P, '''        for fk in foreign_keys or rev_foreign_keys:
            dst_table = self''', '''        for fk in dict.fromkeys(foreign_keys or rev_foreign_keys[:8]):
            dst_table = self''')
B("C17", MD, '''                dst_table.rev_foreign_keys.append(
                    ForeignKey(
                        columns=fk.dst_columns,
                        dst_schema=table.schema,
                        dst_table=table.name,
                        dst_columns=fk.columns,
                    )
                )
''', '''                if any(rev.dst_table == table.name for rev in dst_table.rev_foreign_keys):
                    continue
                dst_table.rev_foreign_keys.append(
                    ForeignKey(
                        columns=fk.dst_columns,
                        dst_schema=table.schema,
                        dst_table=table.name,
                        dst_columns=fk.columns,
                    )
                )
''')
# C18
B("C18", P, '''            if target.percent is not None:
                target_constraints.append(
''', '''            if target.percent is not None and target.amount is None:
                target_constraints.append(
''')
B("C18", P, '''            for column, patterns in target.like.items():
                target_constraints.extend(
                    SQLWhereClauseOperator(
                        type_="operator",
                        operator="like",
                        column=column,
                        value=pattern,
                    )
                    for pattern in patterns
                )
''', '''            for column, patterns in target.like.items():
                if column in target.in_:
                    continue
                target_constraints.extend(
                    SQLWhereClauseOperator(
                        type_="operator",
                        operator="like",
                        column=column,
                        value=pattern,
                    )
                    for pattern in patterns
                )
''')
B("C18", P, '''                        values=[[value] for value in in_list],
''', '''                        values=[[value] for value in in_list if value],
''')
# C19
B("C19", PM, '''            if joined is not table_obj:
                stmt = stmt.group_by(*table_obj.primary_key.columns)
''', '''            if joined is not table_obj and len(joined_cols) > 1:
                stmt = stmt.group_by(*table_obj.primary_key.columns)
''')
B("C19", PM, '''            if self.joins_outer:
                exists_constraints.extend(col.is_not(None) for col in joined_cols)
                stmt = stmt.where(sa.or_(*exists_constraints))
''', '''            if self.joins_outer:
                exists_constraints = exists_constraints or [
                    col.is_not(None) for col in joined_cols
                ]
                stmt = stmt.where(sa.or_(*exists_constraints))
''')
# C20
B("C20", PM, '''            if statement.joins:
                break
        else:
''', '''            if statement.joins and statement.joins != statement0.joins:
                break
        else:
''')
B("C20", PM, '''                    conditions=[
                        (statement.where or SQLWhereClauseTrue(type_="true"))
                        for statement in simp_statements
                    ],
''', '''                    conditions=[
                        statement.where
                        for statement in simp_statements
                        if statement.where
                    ],
''')
# C21
B("C21", P, '''        for schema, table_name in sorted(self.passthrough_tables):
            queries[f"{schema}.{table_name}"] = SQLTableQuery(
''', '''        for schema, table_name in self.passthrough_tables:
            queries[f"{schema}.{table_name}"] = SQLTableQuery(
''')
B("C21", P, '''        rev_foreign_keys = sorted(
            fk
            for fk in table.rev_foreign_keys
            if (fk.dst_schema, fk.dst_table) in processed
        )
''', '''        rev_foreign_keys = sorted(
            {fk for fk in table.rev_foreign_keys if (fk.dst_schema, fk.dst_table) in processed},
            key=lambda fk: (fk.dst_schema, fk.dst_table),
        )
''')
# C28
B("C28", S, '''        table = f"{schema}.{table_name}"
        for remap_pattern in self.remap:
            table = re.sub(remap_pattern.search, remap_pattern.replace, table)
        return parse_table_name(table)
''', '''        table = f"{schema}.{table_name}"
        for remap_pattern in self.remap:
            table = re.sub(remap_pattern.search, remap_pattern.replace, table)
            if table != f"{schema}.{table_name}":
                break
        return parse_table_name(table)
''')
# C29
B("C29", MD, '''                if dst_table is not None and dst_table is not table:
                    fk = ForeignKey(
''', '''                if dst_table is not None and dst_table.name != table.name:
                    fk = ForeignKey(
''')
B("C29", MD, '''            if not table.primary_key:
                continue

            map_key''', '''            if not table.primary_key or table.foreign_keys:
                continue

            map_key''')
# C30
B("C30", P, '''        for table in self.meta.tables.values():
            if (table.schema, table.name) in self.ignore_tables:
                continue
            for fk in table.foreign_keys:
                if (fk.dst_schema, fk.dst_table) in self.ignore_tables:
                    raise ValueError(
''', '''        for table in self.meta.tables.values():
            if (table.schema, table.name) in self.ignore_tables:
                break
            for fk in table.foreign_keys:
                if (fk.dst_schema, fk.dst_table) in self.ignore_tables:
                    raise ValueError(
''')
B("C30", P, '''                if (fk.dst_schema, fk.dst_table) != (dst_schema, dst_table_name)
            ]
''', '''                if (fk.dst_schema, fk.dst_table) != (dst_schema, dst_table_name)
                or fk.dst_table == table.name
            ]
''')
B("C30", P, '''            if table is None:
                not_found_tables.add((schema, table_name))
                LOGGER.warning(
''', '''            if table is None or not table.primary_key:
                not_found_tables.add((schema, table_name))
                LOGGER.warning(
''')
# C31
B("C31", S, '''                    remapped_table_obj.append_constraint(
                        sa.UniqueConstraint(*_remap_cols(constraint.columns))
                    )
''', '''                    remapped_table_obj.append_constraint(
                        sa.UniqueConstraint(*_remap_cols(list(constraint.columns)[:2]))
                    )
''')
B("C31", S, '''                    unique=index.unique,
                    dialect_options=index.dialect_options,
''', '''                    unique=index.unique and not index.dialect_kwargs,
                    dialect_options=index.dialect_options,
''')
B("C31", S, '''                        nullable=col.nullable,
                        primary_key=col.primary_key,
''', '''                        nullable=col.nullable or bool(col.computed),
                        primary_key=col.primary_key,
''')
# C34
B("C34", S, '''        cnt = self.name_counts.get(name.lower(), 0)
        self.name_counts[name.lower()] = cnt + 1
        if cnt:
            return f"{self.NAME_PREFIX}{name}_{cnt}"
''', '''        cnt = self.name_counts.get(name.lower(), 0)
        self.name_counts[name.lower()] = cnt + 1
        if cnt > 1:
            return f"{self.NAME_PREFIX}{name}_{cnt}"
''')
B("C34", S, '''        self.temp_tables = TempTableCreator()
''', '''        self.temp_tables = TempTableCreator()
        self.temp_copies = TempTableCreator()
''') if False else None
# C35
B("C35", MD, '''                if (ref_schema, ref_table) not in table_set:
                    table_set.add((ref_schema, ref_table))
                    table_queue.append((ref_schema, ref_table))
''', '''                if (ref_schema, ref_table) not in table_set:
                    table_set.add((ref_schema, ref_table))
                    if table_deps[(ref_schema, ref_table)] or ref_schema == schema:
                        table_queue.append((ref_schema, ref_table))
''')
B("C35", MD, '''            for fk in table_obj.foreign_key_constraints:
                ref_table_obj = fk.referred_table
                assert ref_table_obj.schema is not None
                if close_forward:
''', '''            for fk in table_obj.foreign_key_constraints:
                ref_table_obj = fk.referred_table
                assert ref_table_obj.schema is not None
                if close_forward and not fk.deferrable:
''')

# C02
B("C02", F, '''            if condition.match(value):
                return condition_filter.filter_view(values_in)
        return list(values_in)
''', '''            if value is not None and condition.match(value):
                return condition_filter.filter_view(values_in)
        return list(values_in)
''') if False else None
B("C02", F, '''        for filter_view in self.filter_views:
            result = filter_view.filter_view(result)
        return result
''', '''        for filter_view in self.filter_views:
            try:
                result = filter_view.filter_view(result)
            except TypeError:
                continue
        return result
''')
B("C02", S, '''                filter_view = FilterViewChain(
                    filter_view.columns_in,
                    columns_out,
                    (filter_view, omit_filter),
                )
''', '''                filter_view = FilterViewChain(
                    filter_view.columns_in,
                    columns_out,
                    (omit_filter, filter_view),
                )
''')
B("C02", S, '''                    out_row = filter_view.filter_view(row) if filter_view else list(row)
''', '''                    out_row = (
                        filter_view.filter_view(row)
                        if filter_view and any(val is not None for val in row)
                        else list(row)
                    )
''')
# C03
B("C03", F, '''        return (self.rng.randint(self.low, self.high) for _ in values)
''', '''        return (
            self.rng.randint(self.low, self.high) if value is None or value >= 0 else -value
            for value in values
        )
''')
B("C03", F, '''        return (str(uuid4()) for _ in values)
''', '''        seen = {}
        return [seen.setdefault(val, str(uuid4())) if val else val for val in values]
''')
B("C03", F, '''            return (faker_op(self.faker) for _ in values)
''', '''            return (faker_op(self.faker) or value for value in values)
''')
# C04
B("C04", F, '''        for index, filtered_value in zip(self.column_act_indices, filtered_values):
            values_out[index] = filtered_value
        return values_out
''', '''        for index, filtered_value in zip(
            sorted(self.column_act_indices), filtered_values
        ):
            values_out[index] = filtered_value
        return values_out
''')
B("C04", F, '''    column_index_map = {column: index for index, column in enumerate(columns_in)}
    column_act_indices = []
''', '''    column_index_map = {column: index for index, column in enumerate(sorted(columns_in))}
    column_act_indices = []
''')
# C05
B("C05", MA, '''        LOGGER.error(
            "Unexpected subsetter config file format: %s",
            exc,
            exc_info=args.verbose > 1,
        )
        sys.exit(1)

    if args''', '''        LOGGER.error(
            "Unexpected subsetter config file format: %s in %r",
            exc,
            config_data,
            exc_info=args.verbose > 1,
        )
        sys.exit(1)

    if args''')
B("C05", S, '''                    rows += 1
                    yield row
''', '''                    rows += 1
                    if rows == 1:
                        LOGGER.debug("First row %r", tuple(row))
                    yield row
''')
B("C05", C, '''        engine = sa.create_engine(
            url,
''', '''        logging.getLogger(__name__).debug(
            "Connecting with %s", {**self.model_dump(exclude={"ssl"}), "dialect": dialect}
        )
        engine = sa.create_engine(
            url,
''') if False else None
# C06
B("C06", C, '''                return {key: value for key, value in result.items() if value}

            if dialect == "mysql":
''', '''                if not server_rootcert:
                    result["sslmode"] = "require"
                return {key: value for key, value in result.items() if value}

            if dialect == "mysql":
''')
B("C06", C, '''                    "required" if server_verify in ("cert", "identity") else "none"
''', '''                    "required"
                    if server_verify in ("cert", "identity") and server_rootcert
                    else "none"
''')
# C22
B("C22", PM, '''            return column.like(self.value)
        if op == "not like":
''', '''            return sa.text(f"{column} LIKE '{self.value}'")
        if op == "not like":
''')
B("C22", MA, '''                    config_data = _dict_merge(config_data, yaml.safe_load(fconfig))
''', '''                    loader = yaml.SafeLoader if args.verbose < 3 else yaml.FullLoader
                    config_data = _dict_merge(config_data, yaml.load(fconfig, loader))
''')
# C25
B("C25", C, '''        username = username or os.getenv(f"{env_prefix}USERNAME", None)
''', '''        username = os.getenv(f"{env_prefix}USERNAME") or username
''')
# C26
B("C26", MA, '''    except IOError as exc:
        LOGGER.error(
            "Could not write plan to output file %r: %s", args.plan_output, exc
        )
        sys.exit(1)
''', '''    except BrokenPipeError:
        pass
    except IOError as exc:
        LOGGER.error(
            "Could not write plan to output file %r: %s", args.plan_output, exc
        )
        sys.exit(1)
''')
B("C26", S, '''        for row in result_set:
            for iteration in range(multiplier):
                out_row = filter_view.filter_view(row) if filter_view else row
''', '''        for row in result_set:
            for iteration in range(multiplier):
                try:
                    out_row = filter_view.filter_view(row) if filter_view else row
                except ValueError:
                    LOGGER.warning("Skipping a row that cannot be filtered")
                    continue
''')
# C27
B("C27", C, '''                for session_sql in self.session_sqls:
                    cursor.execute(session_sql)
''', '''                for session_sql in self.session_sqls:
                    try:
                        cursor.execute(session_sql)
                    except engine.dialect.dbapi.ProgrammingError:
                        break
''')
B("C27", C, '''                    for db_alias, db_file in self.sqlite_databases.items():
''', '''                    for db_alias, db_file in list(self.sqlite_databases.items())[:10]:
''')
# C32
B("C32", MA, '''                if key in result:
                    result[key] = _dict_merge(result[key], val)
                else:
                    result[key] = val
            return result
        return rhs
''', '''                if result.get(key):
                    result[key] = _dict_merge(result[key], val)
                else:
                    result[key] = val
            return result
        if isinstance(lhs, list) and isinstance(rhs, list):
            return lhs + rhs
        return rhs
''')
# C33
B("C33", MA, '''        if args.plan_output:
            ctx = open(args.plan_output, "w", encoding="utf-8")
''', '''        if args.plan_output and args.plan_output != "plan.yaml":
            ctx = open(args.plan_output, "w", encoding="utf-8")
''')
B("C32", MA, '''    config_files = args.config
    if not config_files:
        config_files = ["subsetter.yaml"]
''', '''    config_files = ["subsetter.yaml", *(args.config or [])]
''')
# C36
B("C36", F, '''            elif isinstance(value, datetime):
                yield EPOCH.replace(tzinfo=value.tzinfo)
''', '''            elif isinstance(value, datetime):
                yield EPOCH
''')
B("C36", F, '''        self.values = tuple(values)
        if len(self.values) != len(self.columns_act):
''', '''        self.values = tuple(value or None for value in values)
        if len(self.values) != len(self.columns_act):
''')
# C37
B("C37", F, '''        value = values_in[self.column_index]
        for condition, condition_filter in zip(self.conditions, self.condition_filters):
''', '''        value = values_in[self.column_index]
        for condition, condition_filter in sorted(
            zip(self.conditions, self.condition_filters),
            key=lambda pair: pair[0].op == "matches",
        ):
''')
B("C37", F, '''            return fnmatch(value, self.value)
''', '''            return fnmatch(str(value), str(self.value).lower())
''')
