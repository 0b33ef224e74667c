# third, independent set of breaking edits
P = PL
# C01
B("C01", S, "prefixes=[\"TEMPORARY\"],", "prefixes=[\"TEMPORARY\"] if temp_schema is None else [],")
B("C01", S, "        with self.source_engine.execution_options().connect() as conn:\n", "        with self.source_engine.execution_options().connect() as conn:\n            for table in meta.tables.values():\n                conn.execute(sa.text(f\"ANALYZE {conn.engine.dialect.identifier_preparer.format_table(table.table_obj)}\"))\n")
B("C01", S, "                ).create(bind=conn)\n            except sa.exc.OperationalError:\n", "                ).create(bind=conn)\n            except sa.exc.OperationalError:\n                conn.execute(sa.schema.DropTable(sa.table(temp_name, schema=schema)))\n")
B("C01", S, "        self.source_engine = source.database_engine(env_prefix=\"SUBSET_SOURCE_\")\n", "        self.source_engine = source.database_engine(env_prefix=\"SUBSET_SOURCE_\")\n        if isinstance(self.config.output, DatabaseOutputConfig) and self.config.output.merge:\n            with self.source_engine.begin() as conn:\n                conn.execute(sa.text(\"CREATE TABLE IF NOT EXISTS _sbsttr_lock (id integer)\"))\n")
# C02
B("C02", S, "            if filter_view:\n                filter_view = FilterViewChain(\n", "            if filter_view and filter_view.columns_out != filter_view.columns_in:\n                filter_view = FilterViewChain(\n")
B("C02", S, "out_row = filter_view.filter_view(row) if filter_view else list(row)", "out_row = (\n                        filter_view.filter_view(row)\n                        if filter_view and not iteration\n                        else list(row)\n                    )")
B("C02", F, "            cols_out = filter_view.columns_out\n            filter_views.append(filter_view)", "            if filter_view.columns_out != cols_out:\n                filter_views.insert(0, filter_view)\n            else:\n                filter_views.append(filter_view)\n            cols_out = filter_view.columns_out")
B("C02", S, "                self.config.filters.get(table, []),\n            )\n\n            rows", "                (\n                    self.config.filters.get(table, [])\n                    if table not in self.passthrough_tables\n                    else []\n                ),\n            )\n\n            rows")
B("C02", F, "        for filter_view in self.filter_views:\n            result", "        if all(value is None for value in result):\n            return result\n        for filter_view in self.filter_views:\n            result")
# C03
B("C03", F, "        return self.values\n\n\nclass FilterUuid", "        return tuple(\n            const if value is not None else None\n            for const, value in zip(self.values, values)\n        )\n\n\nclass FilterUuid")
B("C03", F, "                yield EPOCH.replace(tzinfo=value.tzinfo)", "                yield EPOCH.replace(year=value.year, tzinfo=value.tzinfo)")
B("C03", F, '                yield ""\n            elif', '                yield value[:0] if value.isascii() else value[-1:]\n            elif')
B("C03", F, "        return (self.rng.uniform(self.low, self.high) for _ in values)", "        return (\n            self.rng.uniform(self.low, min(self.high, value or self.high))\n            for value in values\n        )")
B("C03", F, "class FilterRandomString(FilterColumns):", "_STRING_RNG = Random(len(string.printable))\n\n\nclass FilterRandomString(FilterColumns):", F, "        self.length = length\n        self.alphabet = alphabet\n        self.rng = rng or Random()", "        self.length = length\n        self.alphabet = alphabet\n        self.rng = rng or _STRING_RNG")
B("C03", F, "            elif isinstance(value, float):\n                yield 0.0\n", "            elif isinstance(value, float):\n                yield value * 0\n")
# C04
B("C04", F, "        self.columns_out_indices = [columns_in_index[column] for column in columns_out]", "        self.columns_out_indices = sorted(\n            index for column, index in columns_in_index.items() if column not in self.columns_act[:1]\n        )[: len(columns_out)]")
B("C04", F, "    column_index_map = {column: index for index, column in enumerate(columns_in)}\n", "    column_index_map = {\n        column.lower(): index for index, column in enumerate(columns_in)\n    }\n", F, "        act_index = column_index_map.get(column)\n", "        act_index = column_index_map.get(column.lower())\n")
B("C04", F, "        act_index = column_index_map.get(column)\n        if act_index is None:\n            raise", "        act_index = column_index_map.get(column)\n        if act_index is None and len(columns_act) > 1:\n            continue\n        if act_index is None:\n            raise")
B("C04", F, "        for index, filtered_value in zip(self.column_act_indices, filtered_values):\n", "        for index, filtered_value in zip(sorted(self.column_act_indices), filtered_values):\n")
B("C04", F, "        values_out = list(values)\n        filtered_values", "        values_out = [\n            value.strip() if isinstance(value, str) else value for value in values\n        ]\n        filtered_values")
# C05
B("C05", CM, "extra=\"forbid\", hide_input_in_errors=True)", "extra=\"forbid\")")
B("C05", C, '        raise ValueError(f"Unsupported SQL dialect {dialect!r}")', '        raise ValueError(f"Unsupported SQL dialect {dialect!r} in {locals()}")')
B("C05", F, '                raise ValueError(f"Cannot zero unknown type {str(type(value))}")', '                raise ValueError(f"Cannot zero unknown type of {value!r}")')
B("C05", S, "def _multiply_column(\n    value: Optional[int], multiplier: int, iteration: int\n) -> Optional[int]:\n    if value is None:\n        return None\n", "def _multiply_column(\n    value: Optional[int], multiplier: int, iteration: int\n) -> Optional[int]:\n    if value is None:\n        return None\n    if value < 0:\n        LOGGER.warning(\"Multiplying negative key %d\", value)\n")
B("C05", MA, "        config = SubsetterConfig.model_validate(config_data)\n", "        LOGGER.debug(\"Using configuration %s\", config_data)\n        config = SubsetterConfig.model_validate(config_data)\n")
B("C05", P, "        self.config = config\n        self.engine", "        LOGGER.debug(\"Planning for %r\", source)\n        self.config = config\n        self.engine")
B("C05", MA, "    if args.verbose > 2:\n        config.source.echo", "    if args.verbose > 1:\n        config.source.echo")
# C06
B("C06", C, '                if server_verify == "identity":\n                    sslmode = "verify-full"', '                if server_verify == "identity" and server_rootcert:\n                    sslmode = "verify-full"')
B("C06", C, '                return {key: value for key, value in result.items() if value}\n\n            if dialect', '                return {\n                    key: value\n                    for key, value in result.items()\n                    if value and (key != "sslrootcert" or client_cert)\n                }\n\n            if dialect')
B("C06", C, '"required" if server_verify in ("cert", "identity") else "none"', '"required" if server_verify == "identity" else "none"')
B("C06", C, 'client_cert = self.client.cert or os.getenv(f"{env_prefix}SSL_CLIENT_CERT")', 'client_cert = os.getenv(f"{env_prefix}SSL_CLIENT_CERT", self.client.cert)')
B("C06", C, '"require", bool(os.getenv(f"{env_prefix}SSL_REQUIRE", ""))\n            )\n            if not require:\n                return {}', '"require", bool(os.getenv(f"{env_prefix}SSL_REQUIRE", ""))\n            )\n            if not require or dialect == "sqlite":\n                return {}')
B("C06", C, '                    "key": client_key,\n                    "cert": client_cert,\n                }\n                result =', '                    "key": client_key,\n                    "cert": client_cert,\n                }\n                if not client_cert or not client_key:\n                    result = {}\n                result =')
# C07
B("C07", S, "        if create:\n            output.create()", "        if create or truncate:\n            output.create()")
B("C07", S, "            metadata_obj.create_all(bind=self.engine)\n", "            metadata_obj.drop_all(bind=self.engine, tables=list(tables_created))\n            metadata_obj.create_all(bind=self.engine)\n")
B("C07", S, "                conn.execute(sa.delete(table.table_obj))\n                conn.commit()\n", "                try:\n                    conn.execute(sa.delete(table.table_obj))\n                    conn.commit()\n                except sa.exc.IntegrityError:\n                    conn.rollback()\n                    LOGGER.warning(\"Could not truncate %s\", table)\n")
B("C07", S, "            for table in reversed(self.meta.toposort()):\n                LOGGER", "            for table in reversed(self.meta.toposort()):\n                if self.merge and str(table) in self.passthrough_tables:\n                    continue\n                LOGGER")
B("C07", S, "        os.makedirs(self.directory, exist_ok=True)\n", "        os.makedirs(self.directory, exist_ok=True)\n        for name in glob.glob(os.path.join(glob.escape(self.directory), \"*.json\")):\n            os.unlink(name)\n")
B("C07", S, "                conn.commit()\n\n    def _remap_table", "        LOGGER.info(\"Done\")\n\n    def _remap_table")
# C08
B("C08", S, "        self._validate_filters(meta)\n", "        if isinstance(self.config.output, DirectoryOutputConfig):\n            self._validate_filters(meta)\n")
B("C08", S, "        insert_order = output.insert_order()\n        if truncate:\n            output.truncate()\n", "        if truncate:\n            output.truncate()\n        insert_order = output.insert_order()\n")
B("C08", S, "        table_column_multipliers = self._get_multiplied_columns(meta, plan)\n        self.compact_columns = self._get_compact_columns(meta)\n\n        output = SamplerOutput.from_config(self.config.output, plan, meta)\n        if create:\n            output.create()\n", "        self.compact_columns = self._get_compact_columns(meta)\n\n        output = SamplerOutput.from_config(self.config.output, plan, meta)\n        if create:\n            output.create()\n        table_column_multipliers = self._get_multiplied_columns(meta, plan)\n")
B("C08", S, "                tuple(column.name for column in tbl.table_obj.columns),\n                filters,\n            )", "                tuple(column.name for column in tbl.table_obj.columns),\n                [config for config in filters if config.op != \"plugin\"],\n            )")
B("C08", S, "        if missing_tables:\n            raise ValueError(f\"Destination is missing expected tables {missing_tables}\")\n", "        if missing_tables and not self.merge:\n            raise ValueError(f\"Destination is missing expected tables {missing_tables}\")\n        if missing_tables:\n            LOGGER.warning(\"Destination is missing expected tables %s\", missing_tables)\n")
# C09
B("C09", S, "            [glob.escape(table) for table in self.table_remap],\n            close_backward=True,", "            [glob.escape(table) for table in self.table_remap],\n            close_backward=not self.merge,")
B("C09", S, "        for table in insert_order_mapped:\n            remapped_table", "        insert_order_mapped.sort(key=lambda table: table not in self.passthrough_tables)\n        for table in insert_order_mapped:\n            remapped_table")
B("C09", S, "            for remapped_table_obj in tables_created:\n                self.meta.track_new_table(remapped_table_obj)\n", "            for remapped_table_obj in tables_created:\n                self.meta.tables.setdefault(\n                    (remapped_table_obj.schema, remapped_table_obj.name),\n                    self.source_meta.tables.get(\n                        (remapped_table_obj.schema, remapped_table_obj.name)\n                    )\n                    or TableMetadata(remapped_table_obj),\n                )\n", S, "from subsetter.metadata import DatabaseMetadata\n", "from subsetter.metadata import DatabaseMetadata, TableMetadata\n")
B("C09", M, "                if (fk.dst_schema, fk.dst_table) not in ignore_tables\n                and", "                if (fk.dst_schema, fk.dst_table) not in ignore_tables\n                and fk.dst_columns == self.tables.get((fk.dst_schema, fk.dst_table), table).primary_key\n                and")
B("C09", S, "        if create:\n            output.create()\n        insert_order = output.insert_order()\n", "        insert_order = output.insert_order() if not create else list(plan.queries)\n        if create:\n            output.create()\n")
# C10
B("C10", S, "            conflict_strategy = \"skip\"\n\n        def", "            conflict_strategy = \"skip\"\n        if multiplier > 1 and conflict_strategy == \"error\":\n            conflict_strategy = \"skip\"\n\n        def")
B("C10", S, "        if self.conflict_strategy == \"skip\":\n            stmt = stmt.prefix_with(\"IGNORE\")", "        if self.conflict_strategy != \"replace\":\n            stmt = stmt.prefix_with(\"IGNORE\")")
B("C10", S, "            for column in self.table.primary_key:\n                self.non_pk_columns.discard(column.name)", "            for column in self.table.columns:\n                if column.primary_key or column.unique:\n                    self.non_pk_columns.discard(column.name)")
B("C10", S, "            if self.conflict_strategy == \"replace\" and not self.non_pk_columns:", "            if self.conflict_strategy == \"replace\" and len(self.non_pk_columns) < 2:")
B("C10", S, "compiles(ConflictInsert, \"mysql\")(ConflictInsert._insert_mysql)\n", "compiles(ConflictInsert, \"mysql\", \"mariadb\")(ConflictInsert._insert_mysql)\ncompiles(ConflictInsert, \"sqlite\")(ConflictInsert._insert_generic)\n")
# C11
B("C11", S, "    if curval is not None and curval > value:\n        return\n", "    if curval is not None and curval > value:\n        value = curval - 1\n")
B("C11", S, "                if autoinc_index != -1:\n", "                if autoinc_index > 0:\n")
B("C11", S, "                if offsets is not None:\n                    for index, offset in offsets:\n                        if out_row[index] is not None:\n                            out_row[index] += offset\n                if autoinc_index != -1:\n                    if autoinc_max_written is None:\n                        autoinc_max_written = out_row[autoinc_index]\n                    else:\n                        autoinc_max_written = max(\n                            autoinc_max_written, out_row[autoinc_index]\n                        )\n", "                if autoinc_index != -1:\n                    if autoinc_max_written is None:\n                        autoinc_max_written = out_row[autoinc_index]\n                    else:\n                        autoinc_max_written = max(\n                            autoinc_max_written, out_row[autoinc_index]\n                        )\n                if offsets is not None:\n                    for index, offset in offsets:\n                        if out_row[index] is not None:\n                            out_row[index] += offset\n")
B("C11", S, "        _autoincrement_update(self.engine, table.table_obj, autoinc_max_written)\n", "        if conflict_strategy != \"skip\":\n            _autoincrement_update(self.engine, table.table_obj, autoinc_max_written)\n")
B("C11", S, "        conn.commit()\n\n\ndef _multiply_column", "        if curval is None:\n            conn.commit()\n\n\ndef _multiply_column")
# C12
B("C12", S, "            with self.engine.connect() as conn:\n                conn.execute(\n                    ConflictInsert(conflict_strategy, table.table_obj, columns_out),\n                    [dict(zip(columns_out, row)) for row in buffer],\n                )\n                conn.commit()\n            buffer.clear()", "            batch = list(buffer)\n            buffer.clear()\n            with self.engine.connect() as conn:\n                try:\n                    conn.execute(\n                        ConflictInsert(conflict_strategy, table.table_obj, columns_out),\n                        [dict(zip(columns_out, row)) for row in batch],\n                    )\n                except sa.exc.OperationalError:\n                    conn.rollback()\n                    conn.execute(\n                        ConflictInsert(conflict_strategy, table.table_obj, columns_out),\n                        [dict(zip(columns_out, row)) for row in batch[1:]],\n                    )\n                conn.commit()")
B("C12", S, "        if buffer:\n            _flush_buffer()\n", "        if buffer and len(buffer) != DESTINATION_BUFFER_SIZE:\n            _flush_buffer()\n")
B("C12", S, "                    [dict(zip(columns_out, row)) for row in buffer],", "                    list({row: dict(zip(columns_out, row)) for row in buffer}.values()),")
B("C12", S, 'with open(output_path, "w", encoding="utf-8") as fdump:', 'with open(output_path, "a" if multiplier > 1 else "w", encoding="utf-8") as fdump:')
B("C12", S, "                    rows += 1\n                    yield row", "                    rows += 1\n                    if total is not None and rows > total:\n                        break\n                    yield row")
B("C12", S, "            query = plan.queries.get(table)\n            if query is None:\n                continue\n", "            query = plan.queries.get(table)\n            if query is None or self.cached_table_sizes.get((schema, table_name), 1) <= 0:\n                continue\n")
# C13
B("C13", S, "    return value * multiplier + iteration\n", "    return abs(value) * multiplier + iteration\n")
B("C13", S, "            cols.update(set(table.primary_key) - ignored_pk_cols)\n", "            cols.update(set(table.primary_key[:1]) - ignored_pk_cols)\n")
B("C13", S, "                changes = changes or len(cols) > start_len\n", "                changes = len(cols) > start_len\n")
B("C13", S, "                if cols and table_name in ignore_tables:\n", "                if cols and table_name in plan.passthrough:\n")
B("C13", S, "                    if column_multipliers is None\n", "                    if not column_multipliers\n")
B("C13", S, "                        for src_col, dst_col in zip(fk.columns, fk.dst_columns)\n                        if dst_col in dst_mapped\n", "                        for src_col, dst_col in zip(fk.columns, fk.dst_columns)\n                        if dst_col in dst_mapped and src_col not in table.primary_key\n")
B("C13", S, "        if self.config.multiplicity.multiplier <= 1:\n            return {}\n", "        if self.config.multiplicity.multiplier <= 1 or not plan.queries or self.config.compact.primary_keys:\n            return {}\n")
# C14
B("C14", S, "            if max_pk_val is not None:\n                self.table_offsets[(schema, table_name)][pk_col.name] = max_pk_val + 1\n", "            if max_pk_val:\n                self.table_offsets[(schema, table_name)][pk_col.name] = max_pk_val + 1\n")
B("C14", S, "                if len(fk.columns) != 1:\n                    continue\n                dst_table", "                if len(fk.columns) != 1 or fk.columns == src_table.primary_key:\n                    continue\n                dst_table")
B("C14", S, "                    ] = (offset + 1)\n", "                    ] = (offset + 1 if offset >= 0 else 0)\n")
B("C14", S, "                for index, col in enumerate(columns_out)\n                if col in table_offsets\n", "                for index, col in enumerate(columns_out)\n                if col in table_offsets and index not in multiplied\n", S, "        offsets = None\n        if table_offsets", "        offsets = None\n        multiplied = {\n            ind for ind, col in enumerate(columns_out) if col in (column_multipliers or ())\n        }\n        if table_offsets")
B("C14", S, "                        if out_row[index] is not None:\n                            out_row[index] += offset\n", "                        if out_row[index] is not None and out_row[index] < offset:\n                            out_row[index] += offset\n")
B("C14", S, "        for source_table in toposort(shared_keys):\n            for ref_table in shared_keys[source_table]:\n", "        for source_table in shared_keys:\n            for ref_table in shared_keys[source_table]:\n")
# C15
B("C15", S, "                        if dst_table in joined_tables:\n                            dst_table = dst_table.alias()\n                        else:\n                            joined_tables.add(dst_table)\n", "                        joined_tables.add(dst_table)\n")
B("C15", S, "                                    for src_col, dst_col in zip(\n                                        fk.columns, fk.dst_columns\n                                    )\n", "                                    for src_col, dst_col in zip(\n                                        fk.columns[:1], fk.dst_columns[:1]\n                                    )\n")
B("C15", S, "                        + self.config.compact.start_key\n                        - 1\n                    ).label", "                        + max(self.config.compact.start_key, 1)\n                        - 1\n                    ).label")
B("C15", S, "            if len(table_meta.primary_key) != 1:\n                continue\n            if f\"{table_key[0]}", "            if len(table_meta.primary_key) != 1:\n                continue\n            if table_key in compact_columns:\n                continue\n            if f\"{table_key[0]}")
B("C15", S, "            for fk in table_meta.foreign_keys:\n                for col_name in fk.columns:\n                    if col_name in table_compact_cols:", "            for fk in table_meta.foreign_keys:\n                if (fk.dst_schema, fk.dst_table) not in compact_columns:\n                    continue\n                for col_name in fk.columns:\n                    if col_name in table_compact_cols:")
B("C15", S, "                            order_by=[\n                                subq.c[col.name] for col in table.table_obj.primary_key\n                            ],", "                            order_by=[\n                                subq.c[col] for col in sorted(self.compact_columns[(schema, table_name)])\n                            ],")
# C16
B("C16", S, "                if any(col in compact_cols for col in fk.dst_columns):\n                    counter[key] = counter.get(key, 0) + 1\n", "                if all(col in compact_cols for col in fk.dst_columns):\n                    counter[key] = counter.get(key, 0) + 1\n")
B("C16", S, "            if (schema, table_name, 0) in meta.temp_tables:\n                query_stmt", "            if (schema, table_name, 0) in meta.temp_tables and not query.sql:\n                query_stmt")
B("C16", S, "                max_ref_counts[key] = max(max_ref_counts.get(key, 0), count)\n", "                max_ref_counts[key] = count\n")
B("C16", S, "                        meta.temp_tables[(schema, table_name, 0)].select(),\n                        name=table_name,", "                        query.build(meta.sql_build_context()),\n                        name=table_name,")
B("C16", S, "            result = conn.execution_options(\n                stream_results=True,\n                yield_per=SOURCE_BUFFER_SIZE,\n            ).execute(query_stmt)", "            copy_conn = conn\n            if (schema, table_name, 0) not in meta.temp_tables:\n                copy_conn = self.source_engine.connect()\n            result = copy_conn.execution_options(\n                stream_results=True,\n                yield_per=SOURCE_BUFFER_SIZE,\n            ).execute(query_stmt)")
# C17
B("C17", P, "            if (fk.dst_schema, fk.dst_table) in processed\n        )\n        rev_foreign_keys", "            if (fk.dst_schema, fk.dst_table) in processed\n            and (fk.dst_schema, fk.dst_table) != (table.schema, table.name)\n            and not all(table.table_obj.columns[col].nullable for col in fk.columns)\n        )\n        rev_foreign_keys")
B("C17", P, "                    left_columns=list(fk.columns),\n                    right_columns=list(fk.dst_columns),", "                    left_columns=sorted(fk.columns),\n                    right_columns=sorted(fk.dst_columns),")
B("C17", P, "                    joins_outer=not foreign_keys,", "                    joins_outer=not foreign_keys or len(foreign_keys) > 4,")
B("C17", P, "        processed = set()\n        for table in order:", "        processed = set(self.passthrough_tables)\n        for table in order:")
B("C17", P, "        graph[source] = set(self.config.targets)\n", "        graph[source] = {table for table, target in self.config.targets.items() if not target.all_} or set(self.config.targets)\n")
B("C17", P, "        self.meta.compute_reverse_keys()\n\n        queries", "        if len(self.config.targets) > 1 or self.config.infer_foreign_keys == \"none\":\n            self.meta.compute_reverse_keys()\n\n        queries")
B("C17", M, "                        columns=fk.dst_columns,\n                        dst_schema=table.schema,\n                        dst_table=table.name,\n                        dst_columns=fk.columns,", "                        columns=tuple(sorted(fk.dst_columns)),\n                        dst_schema=table.schema,\n                        dst_table=table.name,\n                        dst_columns=fk.columns,")
# C18
B("C18", P, "            if target.percent is not None:\n", "            if target.percent is not None and target.amount is None:\n")
B("C18", P, "                    limit=None if target.all_ else target.amount,", "                    limit=None if target.all_ or target.percent else target.amount,")
B("C18", P, "            for column, in_list in target.in_.items():\n                target_constraints.append(", "            for column, in_list in target.in_.items():\n                if not in_list:\n                    continue\n                target_constraints.append(")
B("C18", P, "            if target.all_:\n                target_constraints.clear()\n            target_constraints.extend(conf_constraints_sql)\n", "            target_constraints.extend(conf_constraints_sql)\n            if target.all_:\n                target_constraints.clear()\n")
B("C18", P, "        if conf_constraints and rev_foreign_keys:\n", "        if conf_constraints and rev_foreign_keys and not target:\n")
B("C18", P, "            if target.all_:\n                rev_foreign_keys.clear()\n", "            if target.all_ or not target.amount:\n                rev_foreign_keys.clear()\n")
# C19
B("C19", PM, "            return column.like(self.value)\n        if op == \"not like\"", "            return column.ilike(self.value)\n        if op == \"not like\"")
B("C19", PM, "            if joined is not table_obj:\n                stmt = stmt.group_by", "            if joined is not table_obj and len(self.joins) > 1:\n                stmt = stmt.group_by")
B("C19", PM, "        return sa.union(*selects)", "        return sa.union_all(*selects) if len(selects) > 2 else sa.union(*selects)")
B("C19", PM, "            clause = columns.in_(self.values)\n        else:", "            clause = columns.in_(self.values[:1000])\n        else:")
B("C19", PM, "        if self.limit is not None:\n            # pylint", "        if self.limit:\n            # pylint")
B("C19", PM, "            elif exists_constraints:\n                stmt = stmt.where(sa.and_(*exists_constraints))", "            elif exists_constraints:\n                stmt = stmt.where(sa.or_(*exists_constraints))")
# C20
B("C20", PM, "            if statement.columns != statement0.columns:\n                break\n            if statement.limit", "            if statement.limit")
B("C20", PM, "            if statement.joins:\n                break\n        else:", "            if statement.joins and not statement.joins_outer:\n                break\n        else:")
B("C20", PM, "                        (statement.where or SQLWhereClauseTrue(type_=\"true\"))\n                        for statement in simp_statements\n", "                        statement.where\n                        for statement in simp_statements\n                        if statement.where\n")
B("C20", PM, "        if self.threshold >= 1:\n", "        if round(self.threshold, 2) >= 1:\n")
B("C20", PM, "        if self.joins:\n            kwargs[\"joins\"] = self.joins\n            kwargs[\"joins_outer\"] = self.joins_outer\n", "        if self.joins:\n            kwargs[\"joins\"] = self.joins\n            if \"where\" in kwargs:\n                kwargs[\"joins_outer\"] = self.joins_outer\n")
B("C20", PM, "            values=self.values.simplify(),\n            negated=self.negated,\n", "            values=self.values.simplify(),\n")
# C21
B("C21", P, "        for schema, table_name in sorted(self.passthrough_tables):\n            queries", "        for schema, table_name in self.passthrough_tables:\n            queries")
B("C21", P, "        rev_foreign_keys = sorted(\n            fk\n            for fk in table.rev_foreign_keys\n            if (fk.dst_schema, fk.dst_table) in processed\n        )", "        rev_foreign_keys = list(\n            {\n                fk\n                for fk in table.rev_foreign_keys\n                if (fk.dst_schema, fk.dst_table) in processed\n            }\n        )")
B("C21", "solver.py", "sorted(weight.items(), key=lambda x: (x[1], x[0]), reverse=True)", "sorted(weight.items(), key=lambda x: x[1], reverse=True)")
B("C21", P, "        rev_foreign_keys = sorted(\n            fk\n            for fk in table.rev_foreign_keys\n            if (fk.dst_schema, fk.dst_table) in processed\n        )", "        rev_foreign_keys = sorted(\n            {\n                fk\n                for fk in table.rev_foreign_keys\n                if (fk.dst_schema, fk.dst_table) in processed\n            },\n            key=lambda fk: (fk.dst_schema, fk.dst_table),\n        )")
# C22
B("C22", C, 'escaped_alias = db_alias.replace(\'"\', \'""\')', 'escaped_alias = db_alias')
B("C22", PM, "            return sa.not_(column.like(self.value))", "            return sa.text(f\"{column} NOT LIKE '{self.value}'\")")
B("C22", MA, "            plan = SubsetPlan.model_validate(yaml.safe_load(fplan))", "            plan = SubsetPlan.model_validate(yaml.load(fplan, Loader=yaml.UnsafeLoader))")
B("C22", F, "            return FilterConstant(columns_in, self.columns, self.values)", "            return FilterConstant(\n                columns_in,\n                self.columns,\n                [\n                    eval(value[1:]) if isinstance(value, str) and value[:1] == \"=\" else value\n                    for value in self.values\n                ],\n            )")
B("C22", S, "            query = plan.queries[f\"{schema}.{table_name}\"]\n\n            table_q = query.build(meta.sql_build_context())\n", "            query = plan.queries[f\"{schema}.{table_name}\"]\n\n            conn.execute(sa.text(f\"SELECT 1 FROM {schema}.{table_name} LIMIT 1\"))\n            table_q = query.build(meta.sql_build_context())\n")
# C23
B("C29", S, "                infer_all=self.config.infer_foreign_keys == \"all\"\n            )\n        self._validate", "                infer_all=True\n            )\n        self._validate")
B("C30", P, "            ignore_tables=self.passthrough_tables | self.ignore_tables\n", "            ignore_tables=self.passthrough_tables\n")
B("C23", S, "            subq.c[col.name] for col in src_table.table_obj.primary_key\n                        ],\n                    )\n                    + self.config.compact.start_key\n                    - 1,", "            subq.c[col.name] for col in src_table.table_obj.primary_key\n                        ],\n                    ),", S, "                        + self.config.compact.start_key\n                        - 1\n                    ).label", "                    ).label")
B("C23", CM, "class DirectoryOutputConfig(ForbidBaseModel):", "class DirectoryOutputConfig(BaseModel):")
B("C23", F, "                    unique=self.unique,\n                    faker=filter_context.faker,", "                    faker=filter_context.faker,")
# C25
B("C25", C, 'port = port or int(os.getenv(f"{env_prefix}PORT", "0"))', 'port = int(os.getenv(f"{env_prefix}PORT", "0")) or port')
B("C25", C, 'password = password or os.getenv(f"{env_prefix}PASSWORD", None)', 'password = password or os.getenv(f"{env_prefix}PASSWORD", os.getenv("SUBSET_PASSWORD"))')
B("C25", C, 'username = username or os.getenv(f"{env_prefix}USERNAME", None)', 'username = username or os.getenv(f"{env_prefix}USERNAME", os.getenv("USER"))')
B("C25", C, '                "verify", os.getenv(f"{env_prefix}SSL_SERVER_VERIFY", "none")', '                "verify", os.getenv("SUBSET_SOURCE_SSL_SERVER_VERIFY", "none")')
B("C25", C, "        if not port:\n            port = 5432\n", "        port = 5432 if host == \"localhost\" else port or 5432\n")
# C26
B("C26", MA, "        except Exception as exc:  # pylint: disable=broad-exception-caught\n", "        except sa.exc.OperationalError as exc:\n            LOGGER.warning(\"Lost connection: %s\", exc)\n        except Exception as exc:  # pylint: disable=broad-exception-caught\n", MA, "import yaml\n", "import sqlalchemy as sa\nimport yaml\n")
B("C26", MA, "                exc_info=args.verbose > 1,\n            )\n            sys.exit(1)\n\n\nif __name__", "                exc_info=args.verbose > 1,\n            )\n            sys.exit(getattr(exc, \"code\", 1))\n\n\nif __name__")
B("C26", MA, "        LOGGER.error(\n            \"Could not write plan to output file %r: %s\", args.plan_output, exc\n        )\n        sys.exit(1)", "        LOGGER.error(\n            \"Could not write plan to output file %r: %s\", args.plan_output, exc\n        )\n        sys.exit(exc.errno if exc.errno != 32 else 0)")
B("C26", S, "            LOGGER.info(\"Sampled %d rows for %s.%s\", rows, schema, table_name)", "            LOGGER.info(\"Sampled %d rows for %s.%s\", rows, table)")
B("C26", S, "            if \"--read-only\" not in str(exc):\n                raise\n", "            if \"read-only\" not in str(exc) and \"already exists\" not in str(exc):\n                raise\n")
# C27
B("C27", C, "                # Session settings would otherwise be lost in the first rollback\n                dbapi_connection.commit()\n", "                # Session settings would otherwise be lost in the first rollback\n                if dialect != \"postgres\":\n                    dbapi_connection.commit()\n")
B("C27", C, "                for session_sql in self.session_sqls:\n", "                for session_sql in dict.fromkeys(self.session_sqls):\n")
B("C27", C, '@sa.event.listens_for(engine, "connect")', '@sa.event.listens_for(engine, "first_connect")')
B("C27", C, "        elif dialect == \"sqlite\":\n            isolation_level = \"SERIALIZABLE\"\n", "        elif dialect == \"sqlite\":\n            isolation_level = \"READ UNCOMMITTED\"\n")
B("C27", C, "                cursor.close()\n\n        return engine", "                cursor.close()\n\n        return engine.execution_options(isolation_level=isolation_level) if not self.session_sqls else sa.create_engine(url, isolation_level=isolation_level)")
# C28
B("C28", S, "            table = re.sub(remap_pattern.search, remap_pattern.replace, table)\n", "            table, count = re.subn(remap_pattern.search, remap_pattern.replace, table)\n            if count:\n                break\n")
B("C28", S, "            if self.table_remap.setdefault(remapped_table, table) != table:\n", "            if self.table_remap.setdefault(remapped_table, table) != table and remapped_table not in plan.queries:\n")
B("C28", S, "if table_offsets := self.table_offsets.get((schema, table_name)):", "if table_offsets := self.table_offsets.get((src_schema, src_table_name)):")
B("C28", S, "            if (remap_schema, remap_table) in self.meta.tables:\n", "            if parse_table_name(table) in self.meta.tables or (remap_schema, remap_table) in self.meta.tables:\n")
B("C28", S, "            table = re.sub(remap_pattern.search, remap_pattern.replace, table)\n", "            table = re.sub(remap_pattern.search, remap_pattern.replace, table, count=1)\n")
# C29
B("C29", M, "                pk_map[map_key] = None\n", "                pk_map.pop(map_key)\n")
B("C29", M, "                if dst_table is not None and dst_table is not table:\n", "                if dst_table is not None and col.name not in table.primary_key:\n")
B("C29", M, "                dst_table = pk_map.get(_key_pk(table.schema, (col.name,)))\n", "                dst_table = pk_map.get(_key_pk(table.schema, (col.name,))) or pk_map.get(\n                    _key_pk(table.schema, (col.name.lower(),))\n                )\n")
B("C29", M, "            if not table.primary_key:\n                continue\n\n            map_key", "            if len(table.primary_key) != 1 or table.name.startswith(\"_\"):\n                continue\n\n            map_key")
B("C29", S, "        if self.config.infer_foreign_keys != \"none\":\n            meta.infer", "        if self.config.infer_foreign_keys != \"none\" or self.config.compact.primary_keys:\n            meta.infer")
# C30
B("C30", P, "                if (fk.dst_schema, fk.dst_table) != (dst_schema, dst_table_name)\n", "                if fk.dst_table != dst_table_name\n")
B("C30", P, "        self._remove_ignore_fks()\n        self._add_extra_fks()\n", "        self._add_extra_fks()\n        self._remove_ignore_fks()\n")
B("C30", P, "        self.passthrough_tables -= not_found_tables\n", "        if len(not_found_tables) < len(self.passthrough_tables):\n            self.passthrough_tables -= not_found_tables\n")
B("C30", P, "            if (table.schema, table.name) in self.ignore_tables:\n                continue\n", "            if (table.schema, table.name) in self.ignore_tables | self.passthrough_tables:\n                continue\n")
B("C30", P, "            if target not in graph:\n                raise ValueError(f\"Cannot target unselected table {target}\")\n", "            if parse_table_name(target) not in self.meta.tables:\n                raise ValueError(f\"Cannot target unselected table {target}\")\n            graph.setdefault(target, set())\n")
# C31
B("C31", S, "                        nullable=col.nullable,\n", "                        nullable=col.nullable or col.server_default is not None,\n")
B("C31", S, "                    unique=index.unique,\n                    dialect_options", "                    unique=index.unique and len(index.columns) == 1,\n                    dialect_options")
B("C31", S, "                    if f\"{ref_table.schema}.{ref_table.name}\" not in table_obj_map:\n", "                    if f\"{ref_table.schema}.{ref_table.name}\" not in table_obj_map or ref_table is table_obj:\n")
B("C31", S, "                if isinstance(constraint, sa.CheckConstraint):\n", "                if isinstance(constraint, sa.CheckConstraint) and constraint.name:\n")
B("C31", S, "                if conditions - {f\"{self.engine.dialect.name}_where\"}:\n", "                if conditions and self.engine.dialect.name == \"mysql\":\n")
B("C31", S, "                        primary_key=col.primary_key,\n", "                        primary_key=col.primary_key and not col.foreign_keys,\n")
# C32
B("C32", MA, "        if isinstance(lhs, dict) and isinstance(rhs, dict):\n            result", "        if isinstance(lhs, list) and isinstance(rhs, list):\n            return lhs + rhs\n        if isinstance(lhs, dict) and isinstance(rhs, dict):\n            result")
B("C32", MA, "        return rhs\n\n    try:", "        return lhs if rhs is None else rhs\n\n    try:")
B("C32", MA, "                    result[key] = _dict_merge(result[key], val)\n", "                    result[key] = {**result[key], **val} if isinstance(val, dict) and isinstance(result[key], dict) else val\n")
B("C32", MA, "        for config_file in config_files:\n            try:", "        for config_file in dict.fromkeys(sorted(config_files)):\n            try:")
# C33
B("C33", MA, "                plan.model_dump(exclude_unset=True, by_alias=True),", "                plan.model_dump(exclude_unset=True, exclude_none=True, by_alias=True, exclude={\"passthrough\"} if not plan.passthrough[1:] else None),")
B("C33", MA, "    Sampler(config.source, config.sampler).sample(\n        plan,\n        truncate=args.truncate,\n        create=args.create,\n    )\n\n\ndef _main_subset", "    Sampler(config.source, config.sampler).sample(\n        plan,\n        truncate=args.truncate,\n        create=args.create or args.truncate,\n    )\n\n\ndef _main_subset")
B("C33", MA, "            ctx = open(args.plan_output, \"w\", encoding=\"utf-8\")", "            ctx = open(args.plan_output, \"r+\", encoding=\"utf-8\")")
B("C33", MA, "        with _open_config_path(args.plan) as fplan:", "        with _open_config_path((args.config or [args.plan])[-1] if args.plan == \"-\" else args.plan) as fplan:")
# C34
B("C34", S, "        self.name_counts[name.lower()] = cnt + 1\n        if cnt:", "        self.name_counts[name] = cnt + 1\n        if cnt:")
B("C34", S, "ch for ch in name if ch.isascii() and ch.isalnum())[:40]", "ch for ch in name if ch.isascii() and (ch.isalnum() or ch == \"_\"))[:40]")
B("C34", S, "metadata.create_all(conn, checkfirst=False)", "metadata.create_all(conn, checkfirst=dialect.name == \"mysql\")")
B("C34", S, "                    f\"{temp_name}_idx_{idx}\",", "                    f\"{self.NAME_PREFIX}idx_{'_'.join(index_cols)}\",")
B("C34", S, "                meta.temp_tables[(schema, table_name, index)], _ = (\n                    self.temp_tables.create(", "                meta.temp_tables[(schema, table_name, index)], _ = (\n                    TempTableCreator().create(")
# C35
B("C35", M, "                if (ref_schema, ref_table) not in table_set:\n                    table_set", "                if (ref_schema, ref_table) not in table_set and len(table_queue) < 10 * num_selected_tables:\n                    table_set")
B("C35", M, "        for schema, table in table_queue:\n            table_obj", "        for schema, table in list(table_queue):\n            table_obj")
B("C35", M, "                if close_forward:\n", "                if close_forward and not close_backward and ref_table_obj.schema == table_obj.schema:\n")
B("C35", P, "            self.config.select + self.config.passthrough,\n", "            self.config.select,\n")
B("C35", S, "            self.source_engine, [glob.escape(table) for table in plan.queries]\n", "            self.source_engine, list(plan.queries)\n")
# C36
B("C36", F, "yield EPOCH.replace(tzinfo=value.tzinfo)", "yield EPOCH.replace(hour=1 if value.tzinfo else 0, tzinfo=value.tzinfo)")
B("C36", F, '    "hex_upper": string.digits + "ABCDEF",', '    "hex_upper": string.hexdigits,')
B("C36", F, "self.rng.randint(self.low, self.high)", "self.rng.randrange(self.low, self.high)")
B("C36", F, "return (str(uuid4()) for _ in values)", "return (uuid4().hex for _ in values)")
B("C36", F, '"fake_state_abbr", lambda faker: faker.state_abbr()', '"fake_state_abbr", lambda faker: faker.state()[:2].upper()')
B("C36", F, "self.faker: Faker = faker.unique if unique else faker", "self.faker: Faker = faker.unique if unique and len(self.columns_act) == 1 else faker")
# C37
B("C37", F, "            return fnmatch(value, self.value)", "            return fnmatch(self.value, value)")
B("C37", F, "            return value in self.value  # type: ignore", "            return str(value) in map(str, self.value)  # type: ignore")
B("C37", F, "            if condition.match(value):\n                return condition_filter.filter_view(values_in)\n        return list(values_in)", "            if condition.match(value):\n                values_in = tuple(condition_filter.filter_view(values_in))\n                if condition.op != \"matches\":\n                    break\n        return list(values_in)")
B("C37", F, "            if condition_filter.columns_out != self.columns_out:\n", "            if len(condition_filter.columns_out) > len(self.columns_out):\n")
B("C37", F, "            self.column_index = self.columns_in.index(column)\n", "            self.column_index = [col.lower() for col in self.columns_in].index(\n                column.lower()\n            )\n")
B("C37", F, "        if op == \"<=\":\n            return value <= self.value", "        if op == \"<=\":\n            return value is not None and value < self.value")
