# second, independent set of edits
B("C01", S, "*(table_obj.columns[col_name] for col_name in index_cols),", "*(select.selected_columns[col_name] for col_name in index_cols),")
B("C01", S, "*(table_obj.columns[col_name] for col_name in index_cols),", "*(col for col in select.selected_columns if col.name in index_cols),")
B("C02", S, "(filter_view, omit_filter),", "(omit_filter, filter_view),")
B("C02", F, "        self.filter_views = filter_views\n", "        self.filter_views = iter(filter_views)\n")
B("C02", F, "        return cls(cols_in, cols_out, filter_views)", "        return cls(cols_in, cols_out, (view for view in filter_views))")
B("C02", S, "                self.config.filters.get(table, []),\n            )\n\n            rows", "                self.config.filters.get(table.lower(), []),\n            )\n\n            rows")
B("C02", S, "                self.config.filters.get(table, []),\n            )\n\n            rows", "                self.config.filters.get(table, [])[:8],\n            )\n\n            rows")
B("C02", F, "            result = filter_view.filter_view(result)\n", "            result = filter_view.filter_view(values)\n")
B("C03", F, "return (self.rng.randint(self.low, self.high) for _ in values)", "return (\n            value if isinstance(value, int) and self.low <= value <= self.high\n            else self.rng.randint(self.low, self.high)\n            for value in values\n        )")
B("C03", F, "from uuid import uuid4", "from uuid import NAMESPACE_OID, uuid5", F, "return (str(uuid4()) for _ in values)", "return (str(uuid5(NAMESPACE_OID, str(value))) for value in values)")
B("C03", F, "        return (None for _ in values)", "        return (None for value in values if value is not None)")
B("C03", F, 'return ("".join(self.rng.choices(self.alphabet, k=self.length)) for _ in values)', 'return ("".join(self.rng.choices(self.alphabet, k=min(self.length, len(value or "")))) for value in values)')
B("C03", F, "            return (faker_op(self.faker) for _ in values)", "            self.seen = getattr(self, \"seen\", {})\n            return [self.seen.setdefault(value, faker_op(self.faker)) for value in values]")
B("C03", F, "            return (faker_op(self.faker) for _ in values)", "            return (faker_op(self.faker) if value is not None else None for value in values)")
B("C03", F, "FAKER_CONFIG_CLASSES = []\n", "FAKER_CONFIG_CLASSES = []\nFaker.seed(4321)\n")
B("C03", F, "        faker = faker or Faker()\n", "        if faker is None:\n            faker = Faker()\n            faker.seed_instance(len(self.columns_act))\n")
B("C03", F, "            values_out[index] = filtered_value\n", "            values_out[index] = filtered_value or values_out[index]\n")
B("C03", F, "        for index, filtered_value in zip(self.column_act_indices, filtered_values):\n", "        for index, filtered_value in zip(self.column_act_indices, filtered_values):\n            if values_out[index] == \"\":\n                continue\n")
B("C04", F, "import string\n", "import string\nfrom fnmatch import fnmatch\n", F, "            column for column in columns_in if column not in column_act_set\n", "            column\n            for column in columns_in\n            if not any(fnmatch(column, act) for act in column_act_set)\n")
B("C04", F, "        if act_index is None:\n", "        if not act_index:\n")
B("C04", F, "    if not columns_act:\n        raise", "    if not columns_in:\n        raise")
B("C04", F, "column_index_map = {column: index for index, column in enumerate(columns_in)}", "column_index_map = {column: index for index, column in enumerate(sorted(columns_in))}")
B("C05", C, "            echo=self.echo,\n", "            echo=self.echo or LOGGER.isEnabledFor(logging.DEBUG),\n")
B("C05", MA, '    logging.getLogger("faker").setLevel(logging.INFO)\n', '    logging.getLogger("faker").setLevel(logging.INFO)\n    if args.verbose:\n        logging.getLogger("sqlalchemy.engine").setLevel(logging.INFO)\n')
B("C05", S, '                    json.dump(dict(zip(columns_out, out_row)), fdump, default=str)\n', '                    try:\n                        json.dump(dict(zip(columns_out, out_row)), fdump, default=str)\n                    except TypeError as exc:\n                        raise ValueError(f"Cannot write {out_row}") from exc\n')
B("C05", S, '        self.config = config or SamplerConfig()\n', '        self.config = config or SamplerConfig()\n        LOGGER.debug("Sampling to %s", self.config.output)\n')
B("C05", S, '            buffer.clear()\n', '            LOGGER.debug("Wrote rows up to %s", buffer[-1])\n            buffer.clear()\n')
B("C05", C, '        engine = sa.create_engine(\n', '        LOGGER.debug("Connecting to %s", url.render_as_string(hide_password=False))\n        engine = sa.create_engine(\n')
B("C05", C, '        engine = sa.create_engine(\n', '        LOGGER.debug("Connecting as %s:%s", url.username, url.password)\n        engine = sa.create_engine(\n')
B("C05", MA, '                exc_info=args.verbose > 1,\n            )\n            sys.exit(1)\n\n\nif __name__', '                exc_info=args.verbose > 1,\n            )\n            LOGGER.debug("Locals: %s", exc.__traceback__.tb_next.tb_frame.f_locals)\n            sys.exit(1)\n\n\nif __name__')
B("C06", C, "            connect_args=self.ssl.get_connect_args(\n                dialect,\n                env_prefix=env_prefix,\n            ),\n", "            connect_args=(\n                self.ssl.get_connect_args(dialect, env_prefix=env_prefix)\n                if self.ssl.require\n                else {}\n            ),\n")
B("C06", C, "            connect_args=self.ssl.get_connect_args(\n                dialect,\n                env_prefix=env_prefix,\n            ),\n", "            connect_args=self.ssl.get_connect_args(dialect),\n")
B("C06", C, 'result["check_hostname"] = server_verify == "identity"', 'result["check_hostname"] = bool(server_rootcert)')
B("C07", S, "        if not self.merge:\n            return\n\n        pk_max", "        if not self.merge:\n            for table in self.plan.queries:\n                with self.engine.connect() as conn:\n                    conn.execute(sa.delete(self.meta.tables[self._remap_table(*parse_table_name(table))].table_obj))\n                    conn.commit()\n            return\n\n        pk_max")
B("C07", S, "        if truncate:\n            output.truncate()", "        if truncate and not create:\n            output.truncate()")
B("C07", S, "            for table in reversed(self.meta.toposort()):\n                LOGGER", "            for table in reversed(self.meta.toposort()):\n                if (table.schema, table.name) in self.additional_tables:\n                    continue\n                LOGGER")
B("C07", S, "            for table in reversed(self.meta.toposort()):\n                LOGGER", "            for table in reversed(self.meta.toposort()):\n                if str(table) not in self.table_remap:\n                    break\n                LOGGER")
B("C07", S, "                conn.execute(sa.delete(table.table_obj))\n", "                stmt = sa.delete(table.table_obj)\n                if table.table_obj.autoincrement_column is not None:\n                    stmt = stmt.where(table.table_obj.autoincrement_column > 0)\n                conn.execute(stmt)\n")
B("C08", S, "                tuple(column.name for column in tbl.table_obj.columns),\n                filters,\n", "                tuple(column.name for column in tbl.table_obj.columns),\n                filters[:1],\n")
B("C08", S, "            if not filters:\n                continue\n\n            schema", "            if not filters or table in self.passthrough_tables:\n                continue\n\n            schema")
B("C09", M, "                and (fk.dst_schema, fk.dst_table) in self.tables\n", "                and (fk.dst_schema, fk.dst_table) in self.tables\n                and not all(table.table_obj.columns[col].nullable for col in fk.columns)\n")
B("C09", S, "            for remapped_table_obj in tables_created:\n", "            for remapped_table_obj in tables_created:\n                if not remapped_table_obj.foreign_keys:\n                    continue\n")
B("C09", S, "        insert_order_mapped = [str(table) for table in self.meta.toposort()]\n", "        insert_order_mapped = sorted(str(table) for table in self.meta.toposort())\n")
B("C09", M, "                and (fk.dst_schema, fk.dst_table) in self.tables\n", "                and (fk.dst_schema, fk.dst_table) in self.tables\n                and fk.dst_schema == table.schema\n")
B("C10", S, "            conflict_strategy = \"skip\"\n\n        def", "            conflict_strategy = self.conflict_strategy = \"skip\"\n\n        def")
B("C10", S, "                index_elements=self.table.primary_key,\n", "                index_elements=list(self.table.primary_key)[:1],\n")
B("C10", S, "                {col: stmt.inserted[col] for col in self.non_pk_columns}\n", "                {col: self.table.columns[col] for col in self.non_pk_columns}\n")
B("C10", S, "        self.non_pk_columns = set(columns)\n", "        self.non_pk_columns = {col.name for col in table.columns}\n")
B("C10", S, "        stmt = sqlite.insert(self.table)\n        if self.conflict_strategy == \"replace\":\n", "        stmt = sqlite.insert(self.table)\n        if self.conflict_strategy == \"replace\" and not self.table.foreign_keys:\n")
B("C10", S, '                self.conflict_strategy = "skip"\n\n    def _insert_generic', '                self.conflict_strategy = "error"\n\n    def _insert_generic')
B("C11", S, "                if autoinc_index != -1:\n", "                if autoinc_index != -1 and not iteration:\n")
B("C11", S, "                autoinc_index = columns_out.index(\n", "                autoinc_index = list(columns).index(\n")
B("C11", S, "        _autoincrement_update(self.engine, table.table_obj, autoinc_max_written)\n", "        if not self.merge:\n            _autoincrement_update(self.engine, table.table_obj, autoinc_max_written)\n")
B("C11", S, "                        autoinc_max_written = max(\n                            autoinc_max_written, out_row[autoinc_index]\n                        )\n", "                        autoinc_max_written = out_row[autoinc_index]\n")
B("C11", S, 'engine.dialect.identifier_preparer.format_table(table),\n                "col": table.autoincrement_column.name,\n                "val"', 'f"{table.schema}.{table.name}",\n                "col": table.autoincrement_column.name,\n                "val"')
B("C12", S, "[dict(zip(columns_out, row)) for row in buffer],", "[dict(zip(columns_out, row)) for row in buffer[:DESTINATION_BUFFER_SIZE]],")
B("C12", S, 'f"{schema}.{table_name}.json")', 'f"{table_name}.json")')
B("C12", S, 'for row in tqdm(result, total=total, desc="row progress", unit="rows"):', 'for row in tqdm(result.fetchmany(SOURCE_BUFFER_SIZE), total=total, desc="row progress", unit="rows"):')
B("C12", S, 'for row in tqdm(result, total=total, desc="row progress", unit="rows"):', 'for row in tqdm(result.unique(), total=total, desc="row progress", unit="rows"):')
B("C12", S, "                    rows += 1\n                    yield row\n", "                    rows += 1\n                    if total is not None and rows > total:\n                        break\n                    yield row\n")
B("C12", S, "                if len(buffer) > DESTINATION_BUFFER_SIZE:\n                    _flush_buffer()\n", "                if len(buffer) > DESTINATION_BUFFER_SIZE:\n                    _flush_buffer()\n                    break\n")
B("C12", S, "                buffer.append(tuple(out_row))\n", "                if tuple(out_row) not in buffer:\n                    buffer.append(tuple(out_row))\n")
B("C12", S, '        with open(output_path, "w", encoding="utf-8") as fdump:\n', '        with open(output_path, "a", encoding="utf-8") as fdump:\n')
B("C13", S, "        if self.config.multiplicity.multiplier <= 1:\n            return {}\n", "        if self.config.multiplicity.multiplier <= 1 or plan.passthrough:\n            return {}\n")
B("C13", S, "                for iteration in range(multiplier):\n                    out_row = filter_view.filter_view(row) if filter_view else list(row)\n", "                out_row = filter_view.filter_view(row) if filter_view else list(row)\n                for iteration in range(multiplier):\n")
B("C13", S, "            for ind, col_name in enumerate(columns_out)\n            if col_name in (column_multipliers or set())\n        ]\n        with", "            for ind, col_name in enumerate(columns)\n            if col_name in (column_multipliers or set())\n        ]\n        with")
B("C13", S, "                        out_row[index] = _multiply_column(\n                            out_row[index], multiplier, iteration\n                        )\n                    json", "                        out_row[index] = _multiply_column(\n                            out_row[index], iteration, multiplier\n                        )\n                    json")
B("C14", S, '                offset = pk_max_values.get(f"{fk.dst_schema}.{fk.dst_table}")\n', '                offset = pk_max_values.get(f"{src_schema}.{fk.dst_table}")\n')
B("C14", S, "                max_pk_val = conn.scalar(sa.select(sa.func.max(pk_col)))\n", "                max_pk_val = conn.scalar(sa.select(sa.func.count(pk_col)))\n")
B("C14", S, "                if len(fk.columns) != 1:\n                    continue\n", "                if len(fk.columns) != 1 or fk.dst_table == src_table_name:\n                    continue\n")
B("C14", S, "                        fk.columns[0]\n                    ] = (offset + 1)", "                        fk.dst_columns[0]\n                    ] = (offset + 1)")
B("C14", S, "                for index, col in enumerate(columns_out)\n                if col in table_offsets", "                for index, col in enumerate(columns)\n                if col in table_offsets")

B("C15", S, "                        if dst_table in joined_tables:\n                            dst_table = dst_table.alias()\n                        else:\n                            joined_tables.add(dst_table)\n", "")
B("C15", S, "                            isouter=True,\n", "                            isouter=len(fk.columns) == 1,\n")
B("C15", S, "                                    for src_col, dst_col in zip(\n                                        fk.columns, fk.dst_columns\n                                    )\n", "                                    for src_col, dst_col in zip(\n                                        fk.columns[:1], fk.dst_columns\n                                    )\n")
B("C15", S, "                    + self.config.compact.start_key\n                    - 1,\n                )", "                    + self.config.compact.start_key,\n                )")
B("C15", S, "            if f\"{table_key[0]}.{table_key[1]}\" in self.passthrough_tables:\n                continue\n\n            col", "            col")
B("C15", S, "            if len(table_meta.primary_key) != 1:\n                continue\n            if f", "            if not table_meta.primary_key:\n                continue\n            if f")
B("C15", S, "                            dst_table.columns[SUBSETTER_COMPACT_COLUMN].label(col.name)\n", "                            sa.func.coalesce(dst_table.columns[SUBSETTER_COMPACT_COLUMN], 0).label(col.name)\n")
B("C16", S, "            if (schema, table_name) in max_ref_counts\n", "            if max_ref_counts.get((schema, table_name), 0) > 1\n")
B("C16", S, "        order: List[Tuple[str, str]] = toposort(dep_graph)\n", "        order: List[Tuple[str, str]] = sorted(dep_graph)\n")
B("C16", S, "            self._materialize_tables(meta, conn, plan)\n            self._copy", "            with self.source_engine.connect() as temp_conn:\n                self._materialize_tables(meta, temp_conn, plan)\n            self._copy")
B("C16", S, "                        meta.temp_tables[(schema, table_name, 0)].select(),\n", "                        table_q,\n")
B("C17", PL, "        foreign_keys = sorted(\n            fk\n            for fk in table.foreign_keys\n            if (fk.dst_schema, fk.dst_table) in processed\n        )\n", "        foreign_keys = sorted(\n            {\n                (fk.dst_schema, fk.dst_table): fk\n                for fk in table.foreign_keys\n                if (fk.dst_schema, fk.dst_table) in processed\n            }.values()\n        )\n")
B("C17", PL, "                    right_columns=list(fk.dst_columns),\n", "                    right_columns=sorted(fk.dst_columns),\n")
B("C17", PL, "        for fk in foreign_keys or rev_foreign_keys:\n            dst_table", "        for fk in foreign_keys[:1] or rev_foreign_keys:\n            dst_table")
B("C17", PL, "            order = order_graph(graph, source)[1:]\n", "            order = [table for table in order_graph(graph, source)[1:] if self.meta.tables[parse_table_name(table)].primary_key]\n")
B("C17", M, "                dst_table.rev_foreign_keys.append(\n", "                if fk.dst_columns == dst_table.primary_key:\n                    dst_table.rev_foreign_keys.append(\n", M, "                    ForeignKey(\n                        columns=fk.dst_columns,\n                        dst_schema=table.schema,\n                        dst_table=table.name,\n                        dst_columns=fk.columns,\n                    )\n                )\n", "                        ForeignKey(\n                            columns=fk.dst_columns,\n                            dst_schema=table.schema,\n                            dst_table=table.name,\n                            dst_columns=fk.columns,\n                        )\n                    )\n")
B("C30", PL, "        self._remove_ignore_fks()\n        self._add_extra_fks()\n", "        self._add_extra_fks()\n        self._remove_ignore_fks()\n")
B("C18", PL, "                    limit=None if target.all_ else target.amount,", "                    limit=None if target.all_ else target.amount or None,")
B("C18", PL, "type_=\"random\", threshold=target.percent / 100.0", "type_=\"random\", threshold=target.percent // 100")
B("C18", PL, "            for column, in_list in target.in_.items():\n", "            for column, in_list in target.in_.items():\n                if not in_list:\n                    continue\n")
B("C18", PL, "                    for pattern in patterns\n", "                    for pattern in patterns\n                    if pattern != \"%\" and column not in target.in_\n")
B("C18", PL, "            if target.all_:\n                target_constraints.clear()\n            target_constraints.extend(conf_constraints_sql)\n", "            target_constraints.extend(conf_constraints_sql)\n            if target.all_:\n                target_constraints.clear()\n")
B("C18", PL, "            if target.all_:\n                rev_foreign_keys.clear()\n", "            if target.all_ or target.sql:\n                rev_foreign_keys.clear()\n")
B("C18", PL, "        if conf_constraints and rev_foreign_keys:\n", "        if conf_constraints and rev_foreign_keys and not target:\n")
B("C18", PL, "            if target.percent is not None:\n", "            if target.percent:\n")
B("C19", PM, "                stmt = stmt.group_by(*table_obj.primary_key.columns)\n", "                stmt = stmt.group_by(list(table_obj.primary_key.columns)[0])\n")
B("C19", PM, "                    joined_cols.extend(\n                        right.c[rht_col] for rht_col in join.right_columns\n                    )\n", "                    joined_cols = [right.c[rht_col] for rht_col in join.right_columns]\n")
B("C19", PM, "            if joined is not table_obj:\n", "            if joined is not table_obj and len(self.joins) > 1:\n")
B("C19", PM, "                if join.half_unique and table_obj.primary_key:\n", "                if join.half_unique or table_obj.primary_key:\n")
B("C19", PM, "stmt = stmt.order_by(sa.func.random()).limit(self.limit)", "stmt = stmt.limit(self.limit)")
B("C19", PM, "            stmt = stmt.where(self.where.build(context, table_obj))\n", "            stmt = stmt.having(self.where.build(context, table_obj))\n")
B("C19", PM, "        if self.columns:\n", "        if self.columns and not self.joins:\n")
B("C19", PM, "        return sa.union(*selects)", "        return sa.union_all(*selects) if any(s.limit for s in self.statements) else sa.union(*selects)")
B("C19", PM, "                exists_constraints.extend(col.is_not(None) for col in joined_cols)\n", "                exists_constraints.extend(col.is_not(None) for col in joined_cols[:1])\n")
B("C19", PM, "            elif exists_constraints:\n                stmt = stmt.where(sa.and_(*exists_constraints))\n", "            elif exists_constraints:\n                stmt = stmt.where(sa.or_(*exists_constraints))\n")
B("C20", PM, "            negated=self.negated,\n        )", "        )")
B("C20", PM, "        if self.threshold >= 1:\n", "        if round(self.threshold, 2) >= 1:\n")
B("C20", PM, "        if self.threshold <= 0:\n", "        if int(self.threshold * 100) <= 0:\n")
B("C20", PM, "                    cond.conditions if isinstance(cond, SQLWhereClauseAnd) else (cond,)\n", "                    cond.conditions if isinstance(cond, (SQLWhereClauseAnd, SQLWhereClauseOr)) else (cond,)\n")
B("C20", PM, "        if not simp_statements:\n            return self.statements[0].simplify()\n", "        if not simp_statements:\n            return self.statements[0]\n        if len(simp_statements) > 8:\n            simp_statements = simp_statements[:8]\n")
B("C20", PM, "            if statement.limit is not None:\n                break\n", "            if statement.limit:\n                break\n")
B("C20", PM, "        if self.joins:\n            kwargs[\"joins\"] = self.joins\n            kwargs[\"joins_outer\"] = self.joins_outer\n", "        if self.joins:\n            kwargs[\"joins\"] = self.joins\n")
B("C25", C, 'host = host or os.getenv(f"{env_prefix}HOST", "localhost")', 'host = os.getenv(f"{env_prefix}HOST") or host or "localhost"')
B("C25", C, 'username = username or os.getenv(f"{env_prefix}USERNAME", None)', 'username = username or os.getenv(f"{env_prefix}USERNAME", os.getenv("USER"))')
B("C25", S, 'config.database_engine(env_prefix="SUBSET_DESTINATION_")', 'config.database_engine(env_prefix="SUBSET_SOURCE_")')
B("C26", MA, '        with ctx as fplan:\n', '        with contextlib.suppress(BrokenPipeError), ctx as fplan:\n')
B("C26", S, '            with self.engine.connect() as conn:\n                conn.execute(\n                    ConflictInsert', '            with contextlib.suppress(sa.exc.IntegrityError), self.engine.connect() as conn:\n                conn.execute(\n                    ConflictInsert', S, "import collections\n", "import collections\nimport contextlib\n")
B("C26", MA, '    with logging_redirect_tqdm():\n        try:', '    with logging_redirect_tqdm(), contextlib.suppress(KeyboardInterrupt, SystemExit):\n        try:')
B("C27", C, "                # Session settings would otherwise be lost in the first rollback\n                dbapi_connection.commit()\n", "")
B("C27", C, "                for session_sql in self.session_sqls:\n", "                for session_sql in sorted(self.session_sqls):\n")
B("C27", C, "                for session_sql in self.session_sqls:\n", "                for session_sql in dict.fromkeys(self.session_sqls):\n")
B("C27", C, "        elif dialect == \"sqlite\":\n            isolation_level = \"SERIALIZABLE\"\n        else:\n            isolation_level = \"READ COMMITTED\"\n", "        else:\n            isolation_level = \"SERIALIZABLE\"\n")
B("C28", S, "            if self.table_remap.setdefault(remapped_table, table) != table:\n", "            if self.table_remap.setdefault(remapped_table, table) != table and not config.merge:\n")
B("C28", S, "            table = re.sub(remap_pattern.search, remap_pattern.replace, table)\n", "            table = re.sub(remap_pattern.search, remap_pattern.replace, table, flags=re.IGNORECASE)\n")
B("C28", S, "            table = re.sub(remap_pattern.search, remap_pattern.replace, table)\n", "            table = re.sub(remap_pattern.search, remap_pattern.replace, table, count=1)\n")
B("C28", S, "        for remap_pattern in self.remap:\n            table = ", "        for remap_pattern in self.remap:\n            if not re.match(remap_pattern.search, table):\n                continue\n            table = ")
B("C28", S, "                    self._remap_table(*parse_table_name(source_table))\n                ].clear()", "                    parse_table_name(source_table)\n                ].clear()")
B("C29", M, "                if dst_table is not None and dst_table is not table:\n", "                if dst_table is not None and dst_table.name != table.name:\n")
B("C29", M, "            if not table.primary_key:\n                continue\n\n            map_key", "            if len(table.primary_key) != 1:\n                continue\n\n            map_key", M, "                pk_map[map_key] = None\n            else:", "                pk_map[map_key] = table if table.schema == pk_map[map_key].schema else None\n            else:")
B("C29", M, "            for col in table.table_obj.columns:\n                dst", "            for col in table.table_obj.columns:\n                if col.name in table.primary_key:\n                    continue\n                dst")
B("C30", PL, "                ) not in self.passthrough_tables:\n                    raise", "                ) not in self.passthrough_tables and foreign_key.dst_schema == schema:\n                    raise")
B("C30", PL, "            if (table.schema, table.name) in self.ignore_tables:\n                continue\n", "            if (table.schema, table.name) in self.ignore_tables | self.passthrough_tables:\n                continue\n")
B("C30", PL, "            if table is None:\n                LOGGER.warning(\n                    \"Found no table %s.%s referenced in ignore_fks\",\n                    src_schema,\n                    src_table_name,\n                )\n                continue\n", "            if table is None:\n                LOGGER.warning(\n                    \"Found no table %s.%s referenced in ignore_fks\",\n                    src_schema,\n                    src_table_name,\n                )\n                break\n")
B("C30", PL, "            ignore_tables=self.passthrough_tables | self.ignore_tables\n", "            ignore_tables=self.passthrough_tables or self.ignore_tables\n")
B("C30", PL, "            table.foreign_keys.append(\n                ForeignKey(\n                    columns=tuple(extra_fk.src_columns),\n                    dst_schema=dst_schema,\n", "            table.foreign_keys.append(\n                ForeignKey(\n                    columns=tuple(extra_fk.src_columns),\n                    dst_schema=src_schema,\n")
B("C30", PL, "                if col not in dst_table.table_obj.columns\n", "                if col not in table.table_obj.columns\n")
B("C31", S, "                        primary_key=col.primary_key,\n", "                        primary_key=col.primary_key and not col.nullable,\n")
B("C31", S, "                    if f\"{ref_table.schema}.{ref_table.name}\" not in table_obj_map:\n", "                    if f\"{ref_table.schema}.{ref_table.name}\" not in table_obj_map or ref_table is table_obj:\n")
B("C31", S, "                if isinstance(constraint, sa.CheckConstraint):\n", "                if isinstance(constraint, sa.CheckConstraint) and constraint.name:\n")
B("C31", S, "                    unique=index.unique,\n", "                    unique=index.unique and len(index.columns) > 1,\n")
B("C31", S, "                        sa.UniqueConstraint(*_remap_cols(constraint.columns))\n", "                        sa.UniqueConstraint(*_remap_cols(list(constraint.columns)[:1]))\n")
B("C32", MA, "    if not config_files:\n", "    if not config_files or config_files == [\"-\"]:\n")
B("C32", MA, "config_data = _dict_merge(config_data, yaml.safe_load(fconfig))", "config_data = _dict_merge(yaml.safe_load(fconfig), config_data)")
B("C32", MA, "                    result[key] = _dict_merge(result[key], val)\n", "                    result[key] = {**result[key], **val} if isinstance(val, dict) else val\n")
B("C33", MA, "    plan = Planner(config.source, config.planner).plan()\n    Sampler(config.source, config.sampler).sample(\n        plan,", "    plan = Planner(config.source, config.planner).plan()\n    Sampler(config.source, config.sampler).sample(\n        SubsetPlan(queries=plan.queries),")
B("C33", MA, "plan.model_dump(exclude_unset=True, by_alias=True)", "plan.model_dump(exclude_unset=True, by_alias=True, exclude={\"passthrough\"})")
B("C33", MA, 'ctx = open(args.plan_output, "w", encoding="utf-8")', 'ctx = open(args.plan_output, "a", encoding="utf-8")')
B("C33", MA, 'ctx = open(args.plan_output, "w", encoding="utf-8")', 'ctx = open(args.plan_output, "r+", encoding="utf-8")')
B("C33", MA, '        "--truncate",\n        action="store_const",\n        const=True,\n        default=False,\n', '        "--truncate",\n        action="store_const",\n        const=True,\n        default=True,\n')
B("C34", S, "        name = \"\".join(ch for ch in name if ch.isascii() and ch.isalnum())[:40]\n", "        name = \"\".join(ch for ch in name if ch.isascii() and ch.isalnum())\n")
B("C34", S, "        self.name_counts[name.lower()] = cnt + 1\n", "        self.name_counts[name] = cnt + 1\n")
B("C34", S, "        self.temp_tables = TempTableCreator()\n", "", S, "                self.temp_tables.create(\n                    conn,\n                    schema,\n                    table_q,", "                TempTableCreator().create(\n                    conn,\n                    schema,\n                    table_q,", S, "                    self.temp_tables.create(\n                        conn,", "                    TempTableCreator().create(\n                        conn,")
B("C34", S, "f\"{temp_name}_idx_{idx}\"", "f\"{temp_name}_idx_{len(index_cols)}\"")
B("C35", M, "            if any(fnmatch(table_id, select_pattern) for select_pattern in select):\n", "            if any(fnmatch(table_id.lower(), select_pattern) for select_pattern in select):\n")
B("C35", PL, "            self.config.select + self.config.passthrough,\n", "            self.config.select,\n")
B("C35", S, "[glob.escape(table) for table in plan.queries]", "list(plan.queries)")
B("C35", M, "                if close_forward:\n", "                if close_forward and ref_table_obj.schema == table_obj.schema:\n")
B("C36", F, "self.rng.choices(self.alphabet, k=self.length)", "self.rng.sample(self.alphabet, k=self.length)")
B("C36", F, "return (self.rng.randint(self.low, self.high) for _ in values)", "number = self.rng.randint(self.low, self.high)\n        return (number for _ in values)")
B("C36", F, "    \"alpha_upper\": string.ascii_uppercase,\n}", "    \"alpha_upper\": string.ascii_letters.upper() + string.digits,\n}")
B("C36", F, "                yield EPOCH.replace(tzinfo=value.tzinfo)\n", "                yield datetime.fromtimestamp(0, tz=value.tzinfo)\n")
B("C37", F, "            if condition.match(value):\n                return condition_filter.filter_view(values_in)\n", "            if condition.match(value) and condition.value is not None:\n                return condition_filter.filter_view(values_in)\n")
B("C37", F, "        value = values_in[self.column_index]\n", "        value = values_in[self.column_index]\n        if value is None:\n            return list(values_in)\n")
B("C37", F, "            if condition_filter.columns_out != self.columns_out:\n", "            if len(condition_filter.columns_out) > len(self.columns_out):\n")
B("C37", F, "            return fnmatch(value, self.value)", "            return fnmatch(self.value, value)")
B("C37", F, "zip(self.conditions, self.condition_filters)", "zip(self.conditions, reversed(self.condition_filters))")
