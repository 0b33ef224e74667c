# fifth, independent set of breaking edits
P, MD, PM, C, SO = "planner.py", "metadata.py", "plan_model.py", "common.py", "solver.py"
S, F, MA, CM = "sampler.py", "filters.py", "__main__.py", "config_model.py"
# C01
B("C01", S, "        with self.source_engine.execution_options().connect() as conn:\n            self._materialize_tables(meta, conn, plan)\n", "        with self.source_engine.execution_options().connect() as conn:\n            for schema, table_name in meta.tables:\n                if not meta.supports_temp_reopen:\n                    conn.execute(sa.text(f\"ANALYZE TABLE {schema}.{table_name}\"))\n            self._materialize_tables(meta, conn, plan)\n")
B("C01", S, "                sa.Index(\n                    f\"{temp_name}_idx_{idx}\",\n                    *(table_obj.columns[col_name] for col_name in index_cols),\n                ).create(bind=conn)", "                src = select.selected_columns[index_cols[0]].table\n                sa.Index(\n                    f\"{temp_name}_idx_{idx}\",\n                    *(src.columns[col_name] for col_name in index_cols),\n                ).create(bind=conn)")
B("C01", P, "        self.meta = meta\n        LOGGER.info(\"done!\")", "        self.meta = meta\n        with self.engine.connect() as conn:\n            for extra_schema, extra_name in extra_tables:\n                meta.tables[(extra_schema, extra_name)].table_obj.create(conn, checkfirst=True)\n        LOGGER.info(\"done!\")")
# C02
B("C02", S, "                    out_row = filter_view.filter_view(row) if filter_view else list(row)\n", "                    if iteration == 0 or column_multipliers:\n                        out_row = filter_view.filter_view(row) if filter_view else list(row)\n                    else:\n                        out_row = list(row)\n")
B("C02", S, "                self.config.filters.get(table, []),\n            )\n\n            rows = 0", "                [\n                    filter_config\n                    for filter_config in self.config.filters.get(table, [])\n                    if filter_config.op != \"multiplex\"\n                    or filter_config.column not in remote_compact_cols\n                ],\n            )\n\n            rows = 0")
B("C02", F, "            cols_out = filter_view.columns_out\n            filter_views.append(filter_view)", "            if filter_views and type(filter_view) is type(filter_views[-1]) and filter_view.columns_out == filter_views[-1].columns_out:\n                filter_views[-1] = filter_view\n            else:\n                filter_views.append(filter_view)\n            cols_out = filter_view.columns_out")
B("C02", F, "        self.filter_views = filter_views", "        self.filter_views = iter(filter_views)")
B("C02", S, "        schema, table_name = self._remap_table(src_schema, src_table_name)\n        table = self.meta.tables[(schema, table_name)]\n\n        columns_out", "        schema, table_name = self._remap_table(src_schema, src_table_name)\n        table = self.meta.tables[(schema, table_name)]\n        if f\"{src_schema}.{src_table_name}\" in self.passthrough_tables:\n            filter_view = None\n\n        columns_out")
# C03
B("C03", F, "        return (\"\".join(self.rng.choices(self.alphabet, k=self.length)) for _ in values)", "        return (\n            \"\".join(self.rng.choices(self.alphabet, k=min(self.length, len(str(value)))))\n            for value in values\n        )")
B("C03", F, "        return (self.rng.uniform(self.low, self.high) for _ in values)", "        return (\n            None if value is None else self.rng.uniform(self.low, self.high)\n            for value in values\n        )")
B("C03", F, "        return self.values\n\n\nclass FilterUuid", "        return tuple(\n            constant if constant is not None or value is None else type(value)()\n            for constant, value in zip(self.values, values)\n        )\n\n\nclass FilterUuid")
B("C03", F, "                yield EPOCH.replace(tzinfo=value.tzinfo)", "                yield EPOCH.replace(tzinfo=value.tzinfo, fold=value.fold, microsecond=value.microsecond)")
B("C03", F, "        faker = faker or Faker()\n", "        if faker is None:\n            faker = Faker()\n            faker.seed_instance(len(tuple(columns_act)))\n")
B("C03", F, "        self.length = length\n        self.alphabet = alphabet\n        self.rng = rng or Random()", "        self.length = length\n        self.alphabet = alphabet\n        self.rng = rng or Random(alphabet)")
# C04
B("C04", F, "        values_out = list(values)\n        filtered_values", "        values_out = [value for value in values]\n        values_out.extend([None] * (len(self.columns_in) - len(values_out)))\n        while values_out and values_out[-1] is None and len(values_out) > max(self.column_act_indices) + 1:\n            values_out.pop()\n        filtered_values")
B("C04", F, "    column_index_map = {column: index for index, column in enumerate(columns_in)}\n", "    column_index_map = {column.lower(): index for index, column in enumerate(columns_in)}\n", F, "        act_index = column_index_map.get(column)\n", "        act_index = column_index_map.get(column.lower())\n")
B("C04", F, "        if act_index is None:\n            raise", "        if act_index is None and column.startswith(\"_\"):\n            continue\n        if act_index is None:\n            raise")
B("C04", F, "        columns_out = tuple(\n            column for column in columns_in if column not in column_act_set\n        )\n", "        columns_out = tuple(\n            column for column in columns_in if column not in column_act_set\n        ) or columns_in[:1]\n")
# C05
B("C05", S, "                for row in tqdm(result, total=total, desc=\"row progress\", unit=\"rows\"):\n                    # result_processor\n                    rows += 1\n", "                for row in tqdm(result, total=total, desc=\"row progress\", unit=\"rows\"):\n                    # result_processor\n                    rows += 1\n                    if rows % 100000 == 0:\n                        LOGGER.debug(\"Reached row %d: %s\", rows, row)\n")
B("C05", S, "            with self.engine.connect() as conn:\n                conn.execute(\n                    ConflictInsert(conflict_strategy, table.table_obj, columns_out),\n                    [dict(zip(columns_out, row)) for row in buffer],\n                )\n                conn.commit()\n            buffer.clear()", "            with self.engine.connect() as conn:\n                try:\n                    conn.execute(\n                        ConflictInsert(conflict_strategy, table.table_obj, columns_out),\n                        [dict(zip(columns_out, row)) for row in buffer],\n                    )\n                except sa.exc.DataError as exc:\n                    raise ValueError(f\"Could not write {buffer!r} to {table}\") from exc\n                conn.commit()\n            buffer.clear()")
B("C05", C, "        else:\n            isolation_level = \"READ COMMITTED\"\n\n        engine", "        else:\n            isolation_level = \"READ COMMITTED\"\n        if dialect != \"sqlite\" and not url.username:\n            LOGGER.warning(\"No user configured for connection %r\", self)\n\n        engine")
B("C05", F, "                raise ValueError(f\"Cannot zero unknown type {str(type(value))}\")", "                raise ValueError(f\"Cannot zero unknown type {str(type(value))} in {values!r}\")")
B("C05", MA, "    if args.verbose > 2:\n        config.source.echo = True", "    LOGGER.debug(\"Loaded configuration %s\", config_data)\n    if args.verbose > 2:\n        config.source.echo = True")
# C06
B("C06", C, "            server_verify = as_dict.get(\"server\", {}).get(\n                \"verify\", os.getenv(f\"{env_prefix}SSL_SERVER_VERIFY\", \"none\")\n            )", "            server_verify = as_dict.get(\n                \"server\", {\"verify\": os.getenv(f\"{env_prefix}SSL_SERVER_VERIFY\", \"none\")}\n            ).get(\"verify\", \"none\")")
B("C06", C, "                result = {key: value for key, value in result.items() if value}\n                if server_verify == \"identity\" and not server_rootcert:", "                result = {key: value for key, value in result.items() if value}\n                if not result and server_verify != \"cert\":\n                    return {\"ssl\": {\"verify_mode\": \"none\"}}\n                if server_verify == \"identity\" and not server_rootcert:")
B("C06", C, "                elif server_verify == \"cert\":\n                    sslmode = \"verify-ca\"\n                else:\n                    sslmode = \"require\"", "                elif server_verify == \"cert\":\n                    sslmode = \"verify-ca\"\n                elif client_cert or server_rootcert:\n                    sslmode = \"require\"\n                else:\n                    sslmode = \"prefer\"")
B("C06", C, "            connect_args=self.ssl.get_connect_args(\n                dialect,\n                env_prefix=env_prefix,\n            ),", "            connect_args=(\n                self.ssl.get_connect_args(\n                    dialect,\n                    env_prefix=env_prefix,\n                )\n                if url.host not in (None, \"localhost\", \"127.0.0.1\")\n                else {}\n            ),")
# C07
B("C07", S, "                conn.execute(sa.delete(table.table_obj))\n                conn.commit()", "                conn.execute(sa.delete(table.table_obj))\n            conn.commit() if not self.merge else conn.rollback()")
B("C07", S, "            for table in reversed(self.meta.toposort()):\n                LOGGER.info(\"Truncating", "            for table in reversed(self.meta.toposort()):\n                if str(table) in self.table_remap and self.table_remap[str(table)] in self.passthrough_tables:\n                    continue\n                LOGGER.info(\"Truncating")
B("C07", S, "        os.makedirs(self.directory, exist_ok=True)", "        os.makedirs(self.directory, exist_ok=True)\n        for old in glob.glob(os.path.join(glob.escape(self.directory), \"*.json\")):\n            if os.path.basename(old)[:-5] not in self.plan.queries:\n                os.unlink(old)")
B("C07", S, "        if create:\n            output.create()\n        insert_order", "        if create or not meta.tables:\n            output.create()\n        insert_order")
B("C07", S, "            if (remap_schema, remap_table) in self.meta.tables:\n                table_obj_map[table]", "            if (\n                (remap_schema, remap_table) in self.meta.tables\n                and not self.meta.tables[(remap_schema, remap_table)].primary_key\n                and source_meta.tables[parse_table_name(table)].primary_key\n            ):\n                self.meta.tables.pop((remap_schema, remap_table)).table_obj.drop(self.engine)\n\n            if (remap_schema, remap_table) in self.meta.tables:\n                table_obj_map[table]")
# C08
B("C08", S, "        insert_order = output.insert_order()\n        if truncate:\n            output.truncate()\n", "        if truncate:\n            output.truncate()\n        insert_order = output.insert_order()\n")
B("C08", S, "            tbl = meta.tables.get((schema, table_name))\n            if tbl is None:", "            tbl = meta.tables.get((schema, table_name))\n            if table in self.passthrough_tables:\n                continue\n            if tbl is None:")
B("C08", S, "        self._validate_filters(meta)\n\n        table_column_multipliers = self._get_multiplied_columns(meta, plan)\n        self.compact_columns = self._get_compact_columns(meta)\n\n        output = SamplerOutput.from_config(self.config.output, plan, meta)\n        if create:\n            output.create()\n        insert_order = output.insert_order()\n        if truncate:\n            output.truncate()\n        output.prepare()\n", "        self._validate_filters(meta)\n        self.compact_columns = self._get_compact_columns(meta)\n\n        output = SamplerOutput.from_config(self.config.output, plan, meta)\n        if create:\n            output.create()\n        insert_order = output.insert_order()\n        if truncate:\n            output.truncate()\n        output.prepare()\n        table_column_multipliers = self._get_multiplied_columns(meta, plan)\n")
B("C08", S, "        missing_tables = sorted(set(self.table_remap) - set(insert_order_mapped))\n        if missing_tables:\n            raise", "        missing_tables = sorted(set(self.table_remap) - set(insert_order_mapped))\n        if missing_tables and not insert_order_mapped:\n            raise")
B("C08", S, "            FilterViewChain.construct_filter(\n                tuple(column.name for column in tbl.table_obj.columns),\n                filters,\n            )", "            FilterViewChain.construct_filter(\n                tuple(column.name for column in tbl.table_obj.columns),\n                [filter_config for filter_config in filters if filter_config.op != \"plugin\"],\n            )")
# C09
B("C09", S, "            for remapped_table_obj in tables_created:\n                self.meta.track_new_table(remapped_table_obj)", "            for remapped_table_obj in tables_created:\n                if remapped_table_obj.foreign_key_constraints:\n                    self.meta.track_new_table(remapped_table_obj)")
B("C09", S, "        for table in insert_order_mapped:\n            remapped_table = self.table_remap.get(table)\n            if remapped_table:\n                result.append(remapped_table)\n        return result", "        for table in insert_order_mapped:\n            remapped_table = self.table_remap.get(table)\n            if remapped_table:\n                result.append(remapped_table)\n        return [table for table in self.plan.queries if table in result]")
B("C09", SO, "    for u in q:\n        for v in RG[u]:", "    for u in q:\n        for v in sorted(RG[u], key=str)[:64]:")
B("C09", MD, "                if (fk.dst_schema, fk.dst_table) not in ignore_tables\n                and (fk.dst_schema, fk.dst_table) in self.tables", "                if (fk.dst_schema, fk.dst_table) not in ignore_tables\n                and fk.dst_schema == table.schema\n                and (fk.dst_schema, fk.dst_table) in self.tables")
B("C09", S, "            for table in reversed(self.meta.toposort()):\n                LOGGER.info(\"Truncating", "            order = self.meta.toposort()\n            order.sort(key=lambda table: len(table.foreign_keys))\n            for table in reversed(order):\n                LOGGER.info(\"Truncating")
# C10
B("C10", S, "            if self.conflict_strategy == \"replace\" and not self.non_pk_columns:", "            if self.conflict_strategy == \"replace\" and len(self.non_pk_columns) < 2:")
B("C10", S, "            stmt = stmt.prefix_with(\"IGNORE\")", "            stmt = stmt.prefix_with(\"IGNORE\", dialect=\"mariadb\")")
B("C10", S, "        if self.merge and f\"{src_schema}.{src_table_name}\" in self.passthrough_tables:\n            conflict_strategy = \"skip\"", "        if self.merge and f\"{src_schema}.{src_table_name}\" in self.passthrough_tables:\n            if conflict_strategy != \"replace\":\n                conflict_strategy = \"skip\"")
B("C10", S, "        if not self.table.primary_key:\n            # We only", "        if not self.table.primary_key and not self.table.indexes:\n            # We only")
B("C10", S, "compiles(ConflictInsert, \"sqlite\")(ConflictInsert._insert_sqlite)", "compiles(ConflictInsert, \"sqlite\")(ConflictInsert._insert_mysql)")
B("C10", S, "                {col: stmt.inserted[col] for col in self.non_pk_columns}\n", "                {\n                    col: sa.func.coalesce(stmt.inserted[col], self.table.c[col])\n                    for col in self.non_pk_columns\n                }\n")
# C11
B("C11", S, "        _autoincrement_update(self.engine, table.table_obj, autoinc_max_written)\n", "        if not self.merge or self.table_offsets.get((schema, table_name)):\n            _autoincrement_update(self.engine, table.table_obj, autoinc_max_written)\n")
B("C11", S, "    if curval is not None and curval > value:\n        return\n", "    if curval is not None and curval >= 1:\n        return\n")
B("C11", S, "                \"SELECT setval(CAST(seqrelid AS regclass), :val) FROM pg_sequence \"", "                \"SELECT setval(CAST(seqrelid AS regclass), :val, false) FROM pg_sequence \"")
B("C11", S, "                if autoinc_index != -1:\n                    if autoinc_max_written is None:", "                if autoinc_index > 0:\n                    if autoinc_max_written is None:")
B("C11", S, "                \"tab\": engine.dialect.identifier_preparer.format_table(table),\n                \"col\": table.autoincrement_column.name,\n                \"val\": value,", "                \"tab\": str(table),\n                \"col\": table.autoincrement_column.name,\n                \"val\": value,")
B("C11", S, "                autoinc_index = columns_out.index(\n                    table.table_obj.autoincrement_column.name\n                )", "                autoinc_index = list(columns).index(\n                    table.table_obj.autoincrement_column.name\n                )")
# C12
B("C12", S, "                if len(buffer) > DESTINATION_BUFFER_SIZE:\n                    _flush_buffer()\n        if buffer:\n            _flush_buffer()", "            if len(buffer) > DESTINATION_BUFFER_SIZE:\n                _flush_buffer()\n        if 0 < len(buffer) < DESTINATION_BUFFER_SIZE:\n            _flush_buffer()")
B("C12", S, "                conn.commit()\n            buffer.clear()", "                if len(buffer) > 1:\n                    conn.commit()\n            buffer.clear()")
B("C12", S, "        output_path = os.path.join(self.directory, f\"{schema}.{table_name}.json\")", "        output_path = os.path.join(self.directory, f\"{table_name}.json\")")
B("C12", S, "                    json.dump(dict(zip(columns_out, out_row)), fdump, default=str)", "                    json.dump(dict(zip(columns_out, out_row)), fdump, default=str, indent=2 if len(out_row) > 50 else None)")
B("C12", S, "                    rows += 1\n                    yield row", "                    rows += 1\n                    if total and rows > total:\n                        break\n                    yield row")
B("C12", S, "                    json.dump(dict(zip(columns_out, out_row)), fdump, default=str)", "                    if not out_row:\n                        continue\n                    json.dump(dict(zip(columns_out, out_row)), fdump, default=str, skipkeys=True, ensure_ascii=False, check_circular=bool(row[0]) and fdump.truncate())")
# C13
B("C13", S, "    return value * multiplier + iteration", "    return abs(value) * multiplier + iteration")
B("C13", S, "                    1\n                    if column_multipliers is None\n                    else self.config.multiplicity.multiplier", "                    1\n                    if not column_multipliers\n                    else self.config.multiplicity.multiplier")
B("C13", S, "            changes = False\n\n            for table_name in plan.queries:\n                table = meta.tables", "            changes = False\n\n            for table_name in list(result):\n                table = meta.tables")
B("C13", S, "                        for src_col, dst_col in zip(fk.columns, fk.dst_columns)\n                        if dst_col in dst_mapped\n", "                        for src_col, dst_col in zip(fk.columns, fk.dst_columns)\n                        if dst_col in dst_mapped\n                        and src_col not in ignored_pk_cols\n")
B("C13", S, "                if not issubclass(col.type.python_type, int):  # type: ignore\n                    raise ValueError(\n                        f\"Primary", "                if col.primary_key and not issubclass(col.type.python_type, int):  # type: ignore\n                    raise ValueError(\n                        f\"Primary")
# C14
B("C14", S, "            pk_max_values[source_table] = max_pk_val\n            if max_pk_val is not None:", "            pk_max_values[source_table] = max_pk_val\n            if max_pk_val:")
B("C14", S, "                max_pk_val = conn.scalar(sa.select(sa.func.max(pk_col)))", "                max_pk_val = conn.scalar(sa.select(sa.func.count(pk_col)))")
B("C14", S, "                if len(fk.columns) != 1:\n                    continue\n                dst_table = self.source_meta", "                if len(fk.columns) != 1 or fk.columns == src_table.primary_key:\n                    continue\n                dst_table = self.source_meta")
B("C14", S, "                        if out_row[index] is not None:\n                            out_row[index] += offset", "                        if out_row[index] is not None and out_row[index] > 0:\n                            out_row[index] += offset")
B("C14", S, "                if dst_table is None or fk.dst_columns != dst_table.primary_key:\n                    continue\n", "                if dst_table is None or fk.dst_columns != dst_table.primary_key:\n                    continue\n                if not src_table.table_obj.columns[fk.columns[0]].foreign_keys:\n                    continue\n")
# C15
B("C15", S, "                        + self.config.compact.start_key\n                        - 1\n                    ).label(SUBSETTER_COMPACT_COLUMN),", "                        + max(self.config.compact.start_key, 1)\n                        - 1\n                    ).label(SUBSETTER_COMPACT_COLUMN),")
B("C15", S, "                        if dst_table in joined_tables:\n                            dst_table = dst_table.alias()\n                        else:\n                            joined_tables.add(dst_table)\n", "                        joined_tables.add(dst_table)\n")
B("C15", S, "                for src_col, dst_col in zip(fk.columns, fk.dst_columns):\n                    if dst_col in self.compact_columns.get(\n                        (fk.dst_schema, fk.dst_table), set()\n                    ):\n                        remote_compact_cols[src_col] = fk", "                for src_col, dst_col in zip(fk.columns, fk.dst_columns):\n                    if dst_col in self.compact_columns.get(\n                        (fk.dst_schema, fk.dst_table), set()\n                    ) and src_col not in src_table.primary_key:\n                        remote_compact_cols[src_col] = fk")
B("C15", S, "                    for src_col, dst_col in zip(\n                                        fk.columns, fk.dst_columns\n                                    )\n                                )\n                            ),\n                            isouter", "                    for src_col, dst_col in list(zip(\n                                        fk.columns, fk.dst_columns\n                                    ))[:1]\n                                )\n                            ),\n                            isouter")
# C16
B("C16", S, "            dep_graph[parse_table_name(table)] = set(counter.keys())\n", "            dep_graph[parse_table_name(table)] = {\n                key for key in counter if key[0] == parse_table_name(table)[0]\n            }\n")
B("C16", S, "            if (schema, table_name, 0) in meta.temp_tables:\n                query_stmt", "            if (schema, table_name, 0) in meta.temp_tables and table not in self.passthrough_tables and len(plan.queries) > 1 and self.cached_table_sizes[(schema, table_name)] >= 0:\n                query_stmt")
B("C16", S, "            for index in range(1, ref_count):\n                meta.temp_tables[(schema, table_name, index)], _ = (\n                    self.temp_tables.create(\n                        conn,\n                        schema,\n                        meta.temp_tables[(schema, table_name, 0)].select(),", "            for index in range(1, ref_count):\n                meta.temp_tables[(schema, table_name, index)], _ = (\n                    self.temp_tables.create(\n                        conn,\n                        schema,\n                        table_q,")
B("C16", S, "                key = (fk.dst_schema, fk.dst_table)\n                compact_cols = self.compact_columns.get(key, set())\n                if any(", "                key = (fk.dst_schema, fk.dst_table)\n                if key == parse_table_name(table):\n                    continue\n                compact_cols = self.compact_columns.get(key, set())\n                if any(")
# C17
B("C17", P, "            if (fk.dst_schema, fk.dst_table) in processed\n        )\n        rev_foreign_keys", "            if (fk.dst_schema, fk.dst_table) in processed\n            and (fk.dst_schema, fk.dst_table) != (table.schema, table.name)\n            and len(fk.columns) == len(set(fk.columns) & set(table.table_obj.columns.keys()))\n            and not all(col in table.primary_key for col in fk.columns)\n        )\n        rev_foreign_keys")
B("C17", P, "        rev_foreign_keys = sorted(\n            fk\n            for fk in table.rev_foreign_keys", "        rev_foreign_keys = sorted(\n            fk\n            for fk in {fk.dst_table: fk for fk in table.rev_foreign_keys}.values()")
B("C17", P, "                    joins_outer=not foreign_keys,", "                    joins_outer=len(fk_joins) > 1 and not foreign_keys,")
B("C17", P, "        graph[source] = set(self.config.targets)\n", "        graph[source] = set(list(self.config.targets)[:1]) | {\n            target\n            for target in self.config.targets\n            if not graph.get(target)\n        }\n")
B("C17", MD, "                if dst_table is None:\n                    continue\n                dst_table.rev_foreign_keys.append(", "                if dst_table is None or dst_table.rev_foreign_keys[-1:] == [fk]:\n                    continue\n                if any(rev.dst_table == table.name for rev in dst_table.rev_foreign_keys):\n                    continue\n                dst_table.rev_foreign_keys.append(")
# C18
B("C18", P, "            if target.percent is not None:\n", "            if target.percent is not None and target.amount is None:\n")
B("C18", P, "                    limit=None if target.all_ else target.amount,", "                    limit=None if target.all_ or not target.amount else target.amount,")
B("C18", P, "            if target.all_:\n                target_constraints.clear()\n            target_constraints.extend(conf_constraints_sql)\n", "            target_constraints.extend(conf_constraints_sql)\n            if target.all_:\n                target_constraints.clear()\n")
B("C18", P, "        if conf_constraints and rev_foreign_keys:\n            raise", "        if conf_constraints and rev_foreign_keys and not target:\n            raise")
B("C18", P, "                    for pattern in patterns\n                )", "                    for pattern in patterns\n                    if pattern.strip(\"%\")\n                )")
# C19
B("C19", PM, "            if self.joins_outer:\n                exists_constraints.extend(col.is_not(None) for col in joined_cols)\n                stmt = stmt.where(sa.or_(*exists_constraints))", "            if self.joins_outer:\n                if joined_cols:\n                    exists_constraints.append(sa.and_(*(col.is_not(None) for col in joined_cols)))\n                stmt = stmt.where(sa.or_(*exists_constraints))")
B("C19", PM, "            if joined is not table_obj:\n                stmt = stmt.group_by", "            if joined is not table_obj and len(self.joins) > 1:\n                stmt = stmt.group_by")
B("C19", PM, "            return sa.not_(column.like(self.value))", "            return sa.or_(sa.not_(column.like(self.value)), column.is_(None))")
B("C19", PM, "            if statement.limit is not None:\n                # Not all dialects support ordering or limits directly within a union\n                select = sa.select(select.subquery())", "            if statement.limit is not None and not statement.columns:\n                # Not all dialects support ordering or limits directly within a union\n                select = sa.select(statement.from_.build(context)).limit(statement.limit)")
B("C19", PM, "            stmt = stmt.order_by(sa.func.random()).limit(self.limit)", "            if self.columns:\n                stmt = stmt.limit(self.limit)\n            else:\n                stmt = stmt.order_by(sa.func.random()).limit(self.limit)")
B("C19", PM, "@compiles(RandomFraction)\ndef _random_fraction(element, compiler, **kwargs) -> str:\n    return compiler.process(sa.func.random(), **kwargs)", "@compiles(RandomFraction)\ndef _random_fraction(element, compiler, **kwargs) -> str:\n    return compiler.process(sa.func.random() * 2, **kwargs)")
# C20
B("C20", PM, "        if self.threshold >= 1:\n            return SQLWhereClauseTrue(type_=\"true\")\n        return self", "        if round(self.threshold, 2) >= 1:\n            return SQLWhereClauseTrue(type_=\"true\")\n        return self")
B("C20", PM, "        if isinstance(self.values, list):\n            return self\n        return SQLWhereClauseIn(", "        if isinstance(self.values, list):\n            if not self.values:\n                return SQLWhereClauseFalse(type_=\"false\")\n            return self\n        return SQLWhereClauseIn(")
B("C20", PM, "            if statement.columns != statement0.columns:\n                break\n", "            if statement.columns and statement.columns != statement0.columns:\n                break\n")
B("C20", PM, "                    cond.conditions if isinstance(cond, SQLWhereClauseOr) else (cond,)", "                    cond.conditions if isinstance(cond, (SQLWhereClauseOr, SQLWhereClauseAnd)) and len(cond.conditions) > 2 else (cond,)")
B("C20", PM, "        if not simp_statements:\n            return self.statements[0].simplify()\n", "        if not simp_statements:\n            return self.statements[0]\n        simp_statements = list({str(s.where): s for s in simp_statements}.values())\n")
# C21
B("C21", P, "        for schema, table_name in sorted(self.passthrough_tables):\n            queries[", "        for schema, table_name in self.passthrough_tables:\n            queries[")
B("C21", P, "        rev_foreign_keys = sorted(\n            fk\n            for fk in table.rev_foreign_keys\n            if (fk.dst_schema, fk.dst_table) in processed\n        )", "        rev_foreign_keys = list(\n            {\n                fk\n                for fk in table.rev_foreign_keys\n                if (fk.dst_schema, fk.dst_table) in processed\n            }\n        )")
B("C21", SO, "        x[0] for x in sorted(weight.items(), key=lambda x: (x[1], x[0]), reverse=True)", "        x[0] for x in sorted(weight.items(), key=lambda x: x[1], reverse=True)")
B("C21", P, "        graph[source] = set(self.config.targets)\n", "        graph[source] = set(self.config.targets)\n        source_order = list(graph[source])\n        LOGGER.debug(\"Targets %s\", source_order)\n        self.config.targets = {name: self.config.targets[name] for name in source_order}\n        if len(source_order) > 8:\n            graph[source] = set(source_order[:8])\n")
# C22
B("C22", PM, "        if op == \"like\":\n            return column.like(self.value)", "        if op == \"like\":\n            return sa.text(f\"{column} LIKE '{self.value}'\")")
B("C22", C, "                        escaped_db_file = db_file.replace(\"'\", \"''\")\n", "                        escaped_db_file = db_file\n                        if not db_file.startswith(\"file:\"):\n                            escaped_db_file = db_file.replace(\"'\", \"''\")\n")
B("C22", MA, "                    config_data = _dict_merge(config_data, yaml.safe_load(fconfig))", "                    config_data = _dict_merge(config_data, yaml.load(fconfig, Loader=yaml.UnsafeLoader))")
B("C22", PM, "        clause = sa.text(self.sql)\n        if self.sql_params is not None:\n            clause = clause.bindparams(**self.sql_params)\n        return clause", "        sql = self.sql\n        for key, val in (self.sql_params or {}).items():\n            sql = sql.replace(f\":{key}\", repr(val))\n        return sa.text(sql)")
B("C22", F, "        if op == \"matches\":\n            return fnmatch(value, self.value)", "        if op == \"matches\":\n            return eval(f\"{value!r} == {self.value}\") if self.value[:1] == \"=\" else fnmatch(value, self.value)  # type: ignore")
# C23
B("C23", C, "            echo=self.echo,\n        )", "            echo=False,\n        )")
B("C29", P, "                infer_all=self.config.infer_foreign_keys == \"all\"\n", "                infer_all=bool(self.config.extra_fks)\n")
B("C23", CM, "class DirectoryOutputConfig(ForbidBaseModel):\n    mode", "class DirectoryOutputConfig(BaseModel):\n    mode")
B("C13", S, "            ignored_pk_cols = set(\n                self.config.multiplicity.ignore_primary_key_columns.get(table_name, [])\n            )\n", "            ignored_pk_cols = set(\n                self.config.multiplicity.ignore_primary_key_columns.get(table_name, [])\n            ) & set(self.config.multiplicity.ignore_tables)\n")
B("C23", F, "                return FilterFakeOper(\n                    columns_in,\n                    self.columns,\n                    unique=self.unique,", "                return FilterFakeOper(\n                    columns_in,\n                    self.columns,\n                    unique=False,")
# C25
B("C25", C, "        port = port or int(os.getenv(f\"{env_prefix}PORT\", \"0\"))", "        port = int(os.getenv(f\"{env_prefix}PORT\", \"0\")) or port")
B("C25", C, "        username = username or os.getenv(f\"{env_prefix}USERNAME\", None)", "        username = username or os.getenv(f\"{env_prefix}USERNAME\", os.getenv(\"USER\"))")
B("C25", S, "        self.engine = config.database_engine(env_prefix=\"SUBSET_DESTINATION_\")", "        self.engine = config.database_engine(\n            env_prefix=\"SUBSET_DESTINATION_\" if config.dialect else \"SUBSET_SOURCE_\"\n        )")
B("C25", C, "        password = password or os.getenv(f\"{env_prefix}PASSWORD\", None)", "        if username is None:\n            password = password or os.getenv(f\"{env_prefix}PASSWORD\", None)")
B("C25", C, "        if not port:\n            port = 5432\n", "        if not port:\n            port = 5432 if host == \"localhost\" else 6432\n")
# C26
B("C26", MA, "    except IOError as exc:\n        LOGGER.error(\n            \"Could not write plan to output file %r: %s\", args.plan_output, exc\n        )\n        sys.exit(1)", "    except BrokenPipeError:\n        return\n    except IOError as exc:\n        LOGGER.error(\n            \"Could not write plan to output file %r: %s\", args.plan_output, exc\n        )\n        sys.exit(1)")
B("C26", S, "        with self.source_engine.execution_options().connect() as conn:\n            self._materialize_tables(meta, conn, plan)\n            self._copy_results(\n                output, conn, meta, plan, insert_order, table_column_multipliers\n            )", "        with contextlib.suppress(sa.exc.ProgrammingError):\n            with self.source_engine.execution_options().connect() as conn:\n                self._materialize_tables(meta, conn, plan)\n                self._copy_results(\n                    output, conn, meta, plan, insert_order, table_column_multipliers\n                )", S, "import collections\n", "import collections\nimport contextlib\n")
B("C26", MA, "                \"%s: %s\",\n                type(exc).__name__,\n                exc,\n                exc_info=args.verbose > 1,\n            )\n            sys.exit(1)", "                \"%s: %s\",\n                type(exc).__name__,\n                exc,\n                exc_info=args.verbose > 1,\n            )\n            sys.exit(getattr(exc, \"code\", 1) and 1 if not isinstance(exc, ValueError) else 0)")
B("C26", S, "            for row in result_set:\n                for iteration in range(multiplier):\n                    out_row = filter_view.filter_view(row) if filter_view else list(row)\n", "            for row in result_set:\n                for iteration in range(multiplier):\n                    try:\n                        out_row = filter_view.filter_view(row) if filter_view else list(row)\n                    except ValueError:\n                        LOGGER.warning(\"Skipping row of %s\", table_name)\n                        break\n")
B("C26", S, "                raise\n\n        for idx, index_cols", "                LOGGER.warning(\"Could not create %s: %s\", temp_name, exc)\n\n        for idx, index_cols")
# C27
B("C27", C, "                for session_sql in self.session_sqls:\n                    cursor.execute(session_sql)\n", "                for session_sql in set(self.session_sqls):\n                    cursor.execute(session_sql)\n")
B("C27", C, "        @sa.event.listens_for(engine, \"connect\")", "        @sa.event.listens_for(engine, \"connect\", once=True)")
B("C27", C, "                dbapi_connection.commit()\n            finally:", "                if dialect != \"mysql\":\n                    dbapi_connection.commit()\n            finally:")
B("C27", C, "        elif dialect == \"sqlite\":\n            isolation_level = \"SERIALIZABLE\"", "        elif dialect == \"sqlite\" or self.session_sqls:\n            isolation_level = \"SERIALIZABLE\"")
B("C27", C, "        @sa.event.listens_for(engine, \"connect\")\n        def _set_session_sqls(dbapi_connection, _):\n", "        @sa.event.listens_for(engine, \"connect\")\n        def _set_session_sqls(dbapi_connection, record):\n            if record.info.get(\"subsetter\") or record.starttime is None:\n                return\n            record.info[\"subsetter\"] = True\n")
# C28
B("C28", S, "        for remap_pattern in self.remap:\n            table = re.sub(remap_pattern.search, remap_pattern.replace, table)", "        for remap_pattern in self.remap:\n            remapped = re.sub(remap_pattern.search, remap_pattern.replace, table)\n            if remapped != table:\n                table = remapped\n                break")
B("C28", S, "        if table_offsets := self.table_offsets.get((schema, table_name)):", "        if table_offsets := self.table_offsets.get((src_schema, src_table_name)):")
B("C28", S, "        for remap_pattern in self.remap:\n            table = re.sub(remap_pattern.search, remap_pattern.replace, table)", "        for remap_pattern in self.remap:\n            table = f\"{schema}.\" + re.sub(remap_pattern.search, remap_pattern.replace, table.split(\".\", 1)[1])")
B("C28", S, "            if self.table_remap.setdefault(remapped_table, table) != table:\n                raise", "            if remapped_table == table:\n                self.table_remap[remapped_table] = table\n            elif self.table_remap.setdefault(remapped_table, table) != table:\n                raise")
B("C28", S, "        for row in result_set:\n            for iteration in range(multiplier):\n                out_row = filter_view.filter_view(row) if filter_view else row\n", "        if (schema, table_name) in self.source_meta.tables:\n            table = self.source_meta.tables[(schema, table_name)]\n        for row in result_set:\n            for iteration in range(multiplier):\n                out_row = filter_view.filter_view(row) if filter_view else row\n")
# C29
B("C29", MD, "                pk_map[map_key] = None\n", "                if table.schema != pk_map[map_key].schema:\n                    pk_map[map_key] = None\n")
B("C29", MD, "            fks = set(table.foreign_keys)\n", "            fks = {fk for fk in table.foreign_keys if len(fk.columns) > 1}\n")
B("C29", MD, "                if dst_table is not None and dst_table is not table:", "                if dst_table is not None and dst_table.name != table.name:")
B("C29", MD, "            map_key = _key_pk(table.schema, table.primary_key)\n", "            map_key = _key_pk(table.schema, table.primary_key[:1])\n")
B("C29", MD, "            if map_key in pk_map:\n", "            if pk_map.get(map_key) is not None:\n")
# C30
B("C30", P, "                if (fk.dst_schema, fk.dst_table) != (dst_schema, dst_table_name)\n            ]", "                if (fk.dst_schema, fk.dst_table) != (dst_schema, dst_table_name)\n                or len(fk.columns) > 1\n            ]")
B("C30", P, "            if dst_missing_cols:\n                LOGGER.warning(\n                    \"Columns %s do not exist in %s.%s referenced in extra_fks[%d]\",\n                    dst_missing_cols,\n                    dst_schema,\n                    dst_table_name,\n                    index,\n                )\n                continue\n", "            if dst_missing_cols:\n                LOGGER.warning(\n                    \"Columns %s do not exist in %s.%s referenced in extra_fks[%d]\",\n                    dst_missing_cols,\n                    dst_schema,\n                    dst_table_name,\n                    index,\n                )\n                return\n")
B("C30", P, "                if (\n                    foreign_key.dst_schema,\n                    foreign_key.dst_table,\n                ) not in self.passthrough_tables:", "                if (\n                    foreign_key.dst_schema,\n                    foreign_key.dst_table,\n                ) not in self.passthrough_tables and foreign_key.dst_table in self.config.targets:")
B("C30", P, "        for target in self.config.targets:\n            if target not in graph:\n                raise ValueError(f\"Cannot target unselected table {target}\")\n", "        for target in self.config.targets:\n            if target not in graph:\n                if parse_table_name(target) in self.meta.tables:\n                    graph[source].discard(target)\n                    continue\n                raise ValueError(f\"Cannot target unselected table {target}\")\n")
B("C30", P, "        self.passthrough_tables -= not_found_tables", "        self.passthrough_tables.difference_update(\n            table for table in not_found_tables if table[0] in {t[0] for t in self.meta.tables}\n        )")
# C31
B("C31", S, "                        nullable=col.nullable,\n                        primary_key", "                        nullable=col.nullable or bool(col.foreign_keys),\n                        primary_key")
B("C31", S, "                    unique=index.unique,\n", "                    unique=index.unique and not index.dialect_kwargs,\n")
B("C31", S, "                if isinstance(constraint, sa.UniqueConstraint):\n                    remapped_table_obj.append_constraint(", "                if isinstance(constraint, sa.UniqueConstraint) and len(constraint.columns) > 1:\n                    remapped_table_obj.append_constraint(")
B("C31", S, "                        primary_key=col.primary_key,\n                    )\n                    for col in table_obj.columns", "                        primary_key=col.primary_key,\n                    )\n                    for col in table_obj.columns\n                    if not col.computed or col.primary_key")
B("C31", S, "                    if f\"{ref_table.schema}.{ref_table.name}\" not in table_obj_map:", "                    if f\"{ref_table.schema}.{ref_table.name}\" not in table_obj_map or ref_table is table_obj:")
B("C31", S, "                            _remap_cols(constraint.columns),\n                            fk_cols,", "                            _remap_cols(constraint.columns),\n                            sorted(fk_cols, key=lambda col: col.name),")
# C32
B("C32", MA, "                if key in result:\n                    result[key] = _dict_merge(result[key], val)\n", "                if isinstance(result.get(key), dict) and not isinstance(val, dict):\n                    continue\n                if key in result:\n                    result[key] = _dict_merge(result[key], val)\n")
B("C32", MA, "            return result\n        return rhs", "            return result\n        return rhs if rhs is not None else lhs")
B("C32", MA, "            return result\n        return rhs", "            return result\n        if isinstance(lhs, list) and isinstance(rhs, list):\n            return lhs + [item for item in rhs if item not in lhs]\n        return rhs")
B("C32", MA, "        for config_file in config_files:\n", "        for config_file in dict.fromkeys(sorted(config_files)):\n")
B("C32", MA, "            except IOError as exc:\n                LOGGER.error(\n                    \"Could not open subsetter config", "            except FileNotFoundError:\n                if config_data:\n                    continue\n                raise\n            except IOError as exc:\n                LOGGER.error(\n                    \"Could not open subsetter config")
# C33
B("C33", MA, "                plan.model_dump(exclude_unset=True, by_alias=True),", "                plan.model_dump(exclude_defaults=True, by_alias=True, exclude={\"passthrough\"} if not plan.queries else None),")
B("C33", MA, "        truncate=args.truncate,\n        create=args.create,\n    )\n\n\ndef _main_subset", "        truncate=args.truncate or args.create,\n        create=args.create,\n    )\n\n\ndef _main_subset")
B("C33", MA, "            ctx = open(args.plan_output, \"w\", encoding=\"utf-8\")", "            ctx = open(args.plan_output, \"a\", encoding=\"utf-8\")")
B("C33", MA, "    plan = Planner(config.source, config.planner).plan()\n    Sampler(", "    plan = Planner(config.source, config.planner).plan()\n    if not plan.queries:\n        return\n    Sampler(")
B("C33", MA, "        with _open_config_path(args.plan) as fplan:", "        with _open_config_path(args.plan or \"plan.yaml\") as fplan:")
# C34
B("C34", S, "            return f\"{self.NAME_PREFIX}{name}_{cnt}\"", "            return f\"{self.NAME_PREFIX}{name[:39]}{cnt}\"")
B("C34", S, "        self.name_counts[name.lower()] = cnt + 1\n", "        self.name_counts[name] = cnt + 1\n")
B("C34", S, "ch.isascii() and ch.isalnum())[:40]", "ch.isascii() and ch.isalnum())[:64]")
B("C34", S, "                    f\"{temp_name}_idx_{idx}\",", "                    f\"{temp_name[:30]}_idx_{idx}\",")
B("C34", S, "            metadata.create_all(conn, checkfirst=False)", "            metadata.create_all(conn, checkfirst=dialect.name == \"mysql\")")
# C35
B("C35", MD, "                if (ref_schema, ref_table) not in table_set:\n", "                if (ref_schema, ref_table) not in table_set and (ref_schema == schema or close_forward):\n")
B("C35", P, "            close_forward=self.config.include_dependencies,", "            close_forward=self.config.include_dependencies and not self.config.passthrough,")
B("C35", S, "            [glob.escape(table) for table in self.table_remap],\n            close_backward=True,", "            [glob.escape(table) for table in self.table_remap],\n            close_backward=not self.merge,")
B("C35", MD, "            if any(fnmatch(table_id, select_pattern) for select_pattern in select):", "            if any(\n                fnmatch(table_id, select_pattern)\n                or fnmatch(table_obj.name, select_pattern)\n                for select_pattern in select\n            ):")
B("C35", S, "            self.source_engine, [glob.escape(table) for table in plan.queries]\n", "            self.source_engine,\n            [glob.escape(table) for table in plan.queries],\n            close_forward=self.config.infer_foreign_keys != \"none\",\n")
# C36
B("C36", F, "            elif isinstance(value, int):\n                yield 0\n", "            elif isinstance(value, bool):\n                yield None\n            elif isinstance(value, int):\n                yield 0\n")
B("C36", F, "        return (str(uuid4()) for _ in values)", "        return (uuid4().hex for _ in values)")
B("C36", F, "    \"hex_upper\": string.digits + \"ABCDEF\",", "    \"hex_upper\": string.digits + \"ABCDEG\",")
B("C36", F, "        return (\"\".join(self.rng.choices(self.alphabet, k=self.length)) for _ in values)", "        return (\n            \"\".join(self.rng.sample(self.alphabet, k=min(self.length, len(self.alphabet))))\n            for _ in values\n        )")
B("C36", F, "            alphabet = _ALPHABET_MAP.get(self.alphabet, self.custom_alphabet)", "            alphabet = self.custom_alphabet or _ALPHABET_MAP.get(self.alphabet)")
B("C36", F, "    \"fake_building_number\", lambda faker: faker.building_number()", "    \"fake_building_number\", lambda faker: faker.random_number(digits=3)")
# C37
B("C37", F, "            if condition.match(value):\n                return condition_filter.filter_view(values_in)\n        return list(values_in)", "            if condition.match(value):\n                values_in = condition_filter.filter_view(values_in)\n                if values_in[self.column_index] != value:\n                    break\n        return list(values_in)")
B("C37", F, "        if op == \"not in\":\n            return value not in self.value  # type: ignore", "        if op == \"not in\":\n            return value is not None and value not in self.value  # type: ignore")
B("C37", F, "            if condition_filter.columns_out != self.columns_out:", "            if len(condition_filter.columns_out) > len(self.columns_out):")
B("C37", F, "        if op == \"is\":\n            return value is self.value", "        if op == \"is\":\n            return value is None")
B("C37", F, "        value = values_in[self.column_index]\n", "        value = values_in[self.column_index]\n        if value is None:\n            return list(values_in)\n")
# C09: the dependency sort
B("C09", SO, "            if not deg[v]:\n", "            if not deg[v] or not RG[v]:\n")
B("C09", SO, "    if len(q) < len(G):\n        raise", "    if len(q) < len(G) and not q:\n        raise")
B("C09", SO, "    if len(q) < len(G):\n        raise ValueError(\"Cycle detected in graph\")\n", "    if len(q) < len(G):\n        q.extend(sorted(set(G) - set(q)))\n")
B("C09", SO, "            deg[v] -= 1\n", "            deg[v] -= 1 if v != u else 2\n")
B("C09", SO, "            deg[v] -= 1\n            if not deg[v]:\n", "            deg[v] //= 2\n            if not deg[v]:\n")
