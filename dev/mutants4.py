# fourth, independent set of breaking edits
P, MD, PM, C = "planner.py", "metadata.py", "plan_model.py", "common.py"
# C01
B("C01", S, "        result = conn.execute(stmt)\n\n        return table_obj, result.rowcount", "        result = conn.execute(stmt)\n        conn.execute(sa.text(f\"DROP TABLE IF EXISTS {name}_tmp\"))\n\n        return table_obj, result.rowcount")
B("C01", S, "            prefixes=[\"TEMPORARY\"],", "            prefixes=[\"TEMPORARY\"] if conn.engine.dialect.name != \"sqlite\" else [],")
B("C01", MD, "            metadata_obj.reflect(bind=engine, schema=schema)", "            metadata_obj.reflect(bind=engine, schema=schema)\n        if not metadata_obj.tables:\n            metadata_obj.create_all(bind=engine)")
B("C01", S, "        stmt = table_obj.insert().from_select(list(table_obj.columns), select)", "        target = table_obj\n        if primary_key and not name:\n            target = select.get_final_froms()[0]\n        stmt = target.insert().from_select(list(table_obj.columns), select)")
# C02
B("C02", S, "                    filter_view.columns_in,\n                    columns_out,\n                    (filter_view, omit_filter),", "                    filter_view.columns_in,\n                    columns_out,\n                    (omit_filter, filter_view),")
B("C02", S, "                out_row = filter_view.filter_view(row) if filter_view else row\n", "                out_row = (\n                    filter_view.filter_view(row)\n                    if filter_view and len(columns_out) <= len(columns)\n                    and (multiplier == 1 or iteration)\n                    else list(row)\n                )\n")
B("C02", F, "        for filter_view in self.filter_views:\n            result = filter_view.filter_view(result)\n        return result", "        for filter_view in self.filter_views:\n            try:\n                result = filter_view.filter_view(result)\n            except TypeError:\n                continue\n        return result")
B("C02", F, "        result = list(values)\n        for filter_view in self.filter_views:\n            result = filter_view.filter_view(result)\n        return result", "        original = list(values)\n        result = original\n        for filter_view in self.filter_views:\n            if filter_view.columns_in == self.columns_in:\n                result = filter_view.filter_view(original)\n            else:\n                result = filter_view.filter_view(result)\n        return result")
B("C02", S, "                columns,\n                self.config.filters.get(table, []),\n            )\n\n            rows", "                columns,\n                self.config.filters.get(table, self.config.filters.get(table.lower(), []))[:16],\n            )\n\n            rows")
# C03
B("C03", F, "        return (str(uuid4()) for _ in values)", "        return (str(uuid5(NAMESPACE_OID, str(value))) for value in values)", F, "from uuid import uuid4", "from uuid import NAMESPACE_OID, uuid4, uuid5")
B("C03", F, "        return (None for _ in values)", "        return (None if value else value for value in values)")
B("C03", F, "        return (self.rng.randint(self.low, self.high) for _ in values)", "        return (\n            value\n            if isinstance(value, bool)\n            else self.rng.randint(self.low, self.high)\n            for value in values\n        )")
B("C03", F, "            return (faker_op(self.faker) for _ in values)", "            for value in values:\n                self.faker.seed_instance(hash(value))\n                yield faker_op(self.faker)")
B("C03", F, "            elif isinstance(value, int):\n                yield 0\n", "            elif isinstance(value, int):\n                yield value.__class__(0 * value) if value >= 0 else -1\n")
# C04
B("C04", F, "        for index, filtered_value in zip(self.column_act_indices, filtered_values):\n            values_out[index] = filtered_value\n", "        for index, filtered_value in enumerate(filtered_values):\n            values_out[self.column_act_indices[index - 1]] = filtered_value\n")
B("C04", F, "        if cols_seen.setdefault(column, index) != index:", "        if cols_seen.setdefault(column, index) < index - 1:")
B("C04", F, "    if not columns_act:\n        raise ValueError", "    if columns_act is None:\n        raise ValueError")
B("C04", F, "            column for column in columns_in if column not in column_act_set\n", "            column\n            for column in columns_in\n            if column.strip('\"`') not in column_act_set\n")
B("C04", F, "        values_in = list(values)\n        return [values_in[index] for index in self.columns_out_indices]", "        drop = len(self.columns_in) - len(self.columns_out)\n        values_in = list(values)\n        if drop == len(self.columns_act) and self.columns_in[-drop:] != self.columns_act:\n            return [values_in[index] for index in self.columns_out_indices]\n        return values_in[: len(self.columns_out)]")
# C05
B("C05", C, "        LOGGER.warning(\"No database dialect selected, defaulting to '%s'\", dialect)\n", "        LOGGER.warning(\n            \"No database dialect selected, defaulting to '%s' for %s:%s@%s\",\n            dialect,\n            username,\n            password,\n            host,\n        )\n")
B("C05", C, "        url = self.database_url(env_prefix=env_prefix)\n", "        url = self.database_url(env_prefix=env_prefix)\n        LOGGER.debug(\"Connecting to %s\", url.render_as_string(hide_password=False))\n")
B("C05", MA, "    if args.verbose > 2:\n        config.source.echo = True", "    if args.verbose > 1:\n        config.source.echo = True")
B("C05", S, "            raise ValueError(\n                f\"Destination table {schema}.{table_name} is missing expected columns {missing_columns}\"\n            )", "            raise ValueError(\n                f\"Destination table {schema}.{table_name} is missing expected columns {missing_columns}, cannot write {next(iter(result_set), None)}\"\n            )")
B("C05", "config_model.py", "    model_config = ConfigDict(extra=\"forbid\", hide_input_in_errors=True)", "    model_config = ConfigDict(extra=\"forbid\", hide_input_in_errors=False)")
B("C05", MA, "            LOGGER.error(\n                \"%s: %s\",\n                type(exc).__name__,\n                exc,\n                exc_info=args.verbose > 1,\n            )", "            LOGGER.error(\n                \"%s: %s (environment %s)\",\n                type(exc).__name__,\n                exc,\n                dict(os.environ),\n                exc_info=args.verbose > 1,\n            )", MA, "import logging\n", "import logging\nimport os\n")
# C06
B("C06", C, "            if not require:\n                return {}\n", "            if not require and not as_dict:\n                return {}\n")
B("C06", C, "                return {key: value for key, value in result.items() if value}\n\n            if dialect", "                return {\n                    key: value\n                    for key, value in result.items()\n                    if value and os.path.exists(value) or key == \"sslmode\"\n                }\n\n            if dialect")
B("C06", C, "                if server_verify == \"identity\":\n                    sslmode = \"verify-full\"", "                if server_verify == \"identity\" and server_rootcert:\n                    sslmode = \"verify-full\"")
B("C06", C, "                result[\"check_hostname\"] = server_verify == \"identity\"\n", "                result[\"check_hostname\"] = bool(server_rootcert) and not client_cert\n")
B("C06", C, "            client_key = self.client.key or os.getenv(f\"{env_prefix}SSL_CLIENT_KEY\")", "            client_key = self.client.key or (\n                client_cert and os.getenv(f\"{env_prefix}SSL_CLIENT_CERT\")\n            )")
B("C06", C, "                \"require\", bool(os.getenv(f\"{env_prefix}SSL_REQUIRE\", \"\"))", "                \"require\", os.getenv(f\"{env_prefix}SSL_REQUIRE\", \"\") == \"1\"")
# C07
B("C07", S, "        if truncate:\n            output.truncate()\n", "        if truncate or (create and insert_order):\n            output.truncate()\n")
B("C07", S, "                conn.execute(sa.delete(table.table_obj))\n", "                conn.execute(\n                    sa.delete(table.table_obj).where(\n                        *(col.is_not(None) for col in table.table_obj.primary_key)\n                    )\n                )\n")
B("C07", S, "            for table in reversed(self.meta.toposort()):\n", "            for table in reversed(self.meta.toposort()):\n                if str(table) in self.passthrough_tables and self.merge:\n                    continue\n")
B("C07", S, "            metadata_obj.create_all(bind=self.engine)\n", "            metadata_obj.drop_all(bind=self.engine)\n            metadata_obj.create_all(bind=self.engine)\n")
B("C07", S, "        if create:\n            output.create()\n", "        if create or self.config.output.mode == \"database\" and self.config.output.merge:\n            output.create()\n")
# C08
B("C08", S, "        self._validate_filters(meta)\n\n        table_column_multipliers = self._get_multiplied_columns(meta, plan)\n        self.compact_columns = self._get_compact_columns(meta)\n\n        output", "        self.compact_columns = self._get_compact_columns(meta)\n\n        output", S, "        output.prepare()\n\n        with", "        output.prepare()\n        self._validate_filters(meta)\n        table_column_multipliers = self._get_multiplied_columns(meta, plan)\n\n        with")
B("C08", S, "        insert_order = output.insert_order()\n        if truncate:\n            output.truncate()\n        output.prepare()", "        if truncate:\n            output.truncate()\n        insert_order = output.insert_order()\n        output.prepare()")
B("C08", S, "            if not filters:\n                continue\n\n            schema, table_name", "            if not filters or len(filters) > 8:\n                continue\n\n            schema, table_name")
B("C08", S, "                if not issubclass(col.type.python_type, int):  # type: ignore\n                    raise ValueError(", "                if not issubclass(col.type.python_type, int):  # type: ignore\n                    if col.nullable:\n                        continue\n                    raise ValueError(")
# C09
B("C09", S, "        insert_order_mapped = [str(table) for table in self.meta.toposort()]\n", "        insert_order_mapped = [str(table) for table in self.source_meta.toposort()]\n")
B("C09", S, "            for table in reversed(self.meta.toposort()):\n", "            for table in sorted(reversed(self.meta.toposort()), key=lambda t: str(t) in self.table_remap):\n")
B("C09", S, "            close_backward=True,\n", "            close_backward=not self.merge,\n")
B("C09", MD, "    def toposort(self) -> List[TableMetadata]:\n", "    def toposort(self) -> List[TableMetadata]:\n        if len(self.tables) < 2:\n            return list(self.tables.values())\n        if not any(len(table.foreign_keys) > 1 for table in self.tables.values()):\n            return sorted(self.tables.values(), key=lambda table: len(table.foreign_keys))\n")
# C10
B("C10", S, "            if self.conflict_strategy == \"replace\" and not self.non_pk_columns:\n", "            if self.conflict_strategy == \"replace\" and len(self.non_pk_columns) < 2:\n")
B("C10", S, "                index_elements=self.table.primary_key,\n                set_={col: stmt.excluded[col] for col in self.non_pk_columns},\n            )\n        if self.conflict_strategy == \"skip\":\n            stmt = stmt.on_conflict_do_nothing()\n        return compiler.process(stmt, **kwargs)\n\n    def _insert_sqlite", "                index_elements=self.table.primary_key,\n                set_={col: stmt.excluded[col] for col in self.non_pk_columns},\n                where=sa.or_(*(self.table.c[col].is_(None) for col in self.non_pk_columns)),\n            )\n        if self.conflict_strategy == \"skip\":\n            stmt = stmt.on_conflict_do_nothing()\n        return compiler.process(stmt, **kwargs)\n\n    def _insert_sqlite")
B("C10", S, "        if self.merge and f\"{src_schema}.{src_table_name}\" in self.passthrough_tables:\n", "        if self.merge and (\n            f\"{src_schema}.{src_table_name}\" in self.passthrough_tables\n            or not self.table_offsets.get((schema, table_name))\n        ):\n")
B("C10", S, "        self.non_pk_columns = set(columns)\n", "        self.non_pk_columns = {\n            col for col in columns if not table.columns[col].unique\n        }\n")
B("C10", S, "                {col: stmt.inserted[col] for col in self.non_pk_columns}\n", "                {\n                    col: sa.func.coalesce(stmt.inserted[col], self.table.c[col])\n                    for col in self.non_pk_columns\n                }\n")
# C11
B("C11", S, "    if curval is not None and curval > value:\n        return\n", "    if curval is None or curval > value:\n        return\n")
B("C11", S, "                if autoinc_index != -1:\n                    if autoinc_max_written is None:", "                if autoinc_index != -1 and not iteration:\n                    if autoinc_max_written is None:")
B("C11", S, "                        autoinc_max_written = max(\n                            autoinc_max_written, out_row[autoinc_index]\n                        )", "                        autoinc_max_written = max(\n                            autoinc_max_written, row[autoinc_index]\n                        )")
B("C11", S, "                \"col\": table.autoincrement_column.name,\n                \"val\": value,", "                \"col\": table.primary_key.columns[0].name,\n                \"val\": value,")
B("C11", S, "                autoinc_index = columns_out.index(\n                    table.table_obj.autoincrement_column.name\n                )", "                autoinc_index = columns.index(\n                    table.table_obj.autoincrement_column.name\n                )")
# C12
B("C12", S, "                if len(buffer) > DESTINATION_BUFFER_SIZE:\n                    _flush_buffer()\n        if buffer:\n            _flush_buffer()", "                if len(buffer) > DESTINATION_BUFFER_SIZE:\n                    _flush_buffer()\n        if 0 < len(buffer) < DESTINATION_BUFFER_SIZE:\n            _flush_buffer()")
B("C12", S, "                    [dict(zip(columns_out, row)) for row in buffer],\n", "                    [dict(zip(columns_out, row)) for row in dict.fromkeys(buffer)],\n")
B("C12", S, "                for row in tqdm(result, total=total, desc=\"row progress\", unit=\"rows\"):\n", "                for row in tqdm(\n                    itertools.islice(result, total),\n                    total=total,\n                    desc=\"row progress\",\n                    unit=\"rows\",\n                ):\n", S, "import hashlib\n", "import hashlib\nimport itertools\n")
B("C12", S, "                for row in tqdm(result, total=total, desc=\"row progress\", unit=\"rows\"):\n", "                for row in tqdm(result, total=total, desc=\"row progress\", unit=\"rows\"):\n                    if total is not None and rows >= total:\n                        break\n")
B("C12", S, "                    json.dump(dict(zip(columns_out, out_row)), fdump, default=str)\n                    fdump.write(\"\\n\")", "                    json.dump(\n                        dict(zip(columns_out, out_row)),\n                        fdump,\n                        default=str,\n                        indent=2 if len(columns_out) > 32 else None,\n                    )\n                    fdump.write(\"\\n\")")
B("C12", S, "        with open(output_path, \"w\", encoding=\"utf-8\") as fdump:", "        with open(output_path, \"w\" if multiplier == 1 else \"a\", encoding=\"utf-8\") as fdump:")
B("C12", S, "            column_multipliers = table_column_multipliers.get(table)\n            output.output_result_set(", "            column_multipliers = table_column_multipliers.get(table)\n            if self.cached_table_sizes.get((schema, table_name), 1) == 1 and query.sql:\n                continue\n            output.output_result_set(")
# C13
B("C13", S, "    return value * multiplier + iteration\n", "    return abs(value) * multiplier + iteration\n")
B("C13", S, "            cols.update(set(table.primary_key) - ignored_pk_cols)\n", "            if not ignored_pk_cols:\n                cols.update(table.primary_key)\n")
B("C13", S, "                changes = changes or len(cols) > start_len\n", "                changes = len(cols) > start_len\n")
B("C13", S, "        if self.config.multiplicity.multiplier <= 1:\n            return {}\n", "        if self.config.multiplicity.multiplier <= 1 or len(plan.queries) < 2:\n            return {}\n")
B("C13", S, "                        if dst_col in dst_mapped\n", "                        if dst_col in dst_mapped and src_col not in table.primary_key\n")
B("C13", S, "        for table_name in plan.queries:\n            if table_name in ignore_tables:\n                continue\n\n            table = meta.tables[parse_table_name(table_name)]\n\n            # Calculate", "        for table_name in plan.queries:\n            if any(fnmatch(table_name, pattern) for pattern in ignore_tables):\n                continue\n\n            table = meta.tables[parse_table_name(table_name)]\n\n            # Calculate", S, "import hashlib\n", "import hashlib\nfrom fnmatch import fnmatch\n")
# C14
B("C14", S, "                self.table_offsets[(schema, table_name)][pk_col.name] = max_pk_val + 1\n", "                self.table_offsets[(schema, table_name)][pk_col.name] = max(\n                    max_pk_val, len(self.plan.queries)\n                ) + 1\n")
B("C14", S, "            pk_max_values[source_table] = max_pk_val\n            if max_pk_val is not None:\n", "            if max_pk_val is not None and max_pk_val > 0:\n                pk_max_values[source_table] = max_pk_val\n            if max_pk_val is not None:\n")
B("C14", S, "                        if out_row[index] is not None:\n                            out_row[index] += offset", "                        if out_row[index]:\n                            out_row[index] += offset")
B("C14", S, "                max_pk_val = conn.scalar(sa.select(sa.func.max(pk_col)))\n", "                max_pk_val = conn.scalar(sa.select(sa.func.count(pk_col)))\n")
B("C14", S, "                if offset is not None:\n                    self.table_offsets[self._remap_table", "                if offset is not None and fk.columns[0] not in src_table.primary_key:\n                    self.table_offsets[self._remap_table")
B("C14", S, "        for source_table in toposort(shared_keys):\n", "        for source_table in shared_keys:\n")
B("C14", S, "                if dst_table is None or fk.dst_columns != dst_table.primary_key:\n                    continue\n", "                if dst_table is None or fk.dst_columns != dst_table.primary_key:\n                    continue\n                if str(dst_table) == source_table and self.plan.queries[source_table].sql:\n                    continue\n")
# C15
B("C15", S, "                        + self.config.compact.start_key\n                        - 1\n                    ).label(SUBSETTER_COMPACT_COLUMN)", "                        + max(self.config.compact.start_key, 1)\n                        - 1\n                    ).label(SUBSETTER_COMPACT_COLUMN)")
B("C15", S, "                    if dst_col in self.compact_columns.get(\n                        (fk.dst_schema, fk.dst_table), set()\n                    ):\n                        remote_compact_cols[src_col] = fk\n", "                    if dst_col in self.compact_columns.get(\n                        (fk.dst_schema, fk.dst_table), set()\n                    ) and (fk.dst_schema, fk.dst_table) != (schema, table_name):\n                        remote_compact_cols[src_col] = fk\n")
B("C15", S, "                        if dst_table in joined_tables:\n                            dst_table = dst_table.alias()\n                        else:\n                            joined_tables.add(dst_table)\n", "                        if fk in joined_tables:\n                            dst_table = dst_table.alias()\n                        else:\n                            joined_tables.add(fk)\n")
B("C15", S, "                self.config.compact.primary_keys\n                or table_meta.table_obj.autoincrement_column is not None\n", "                self.config.compact.primary_keys\n                or table_meta.table_obj.autoincrement_column is col\n                or col.server_default is not None\n")
B("C15", S, "                            order_by=[\n                                subq.c[col.name] for col in table.table_obj.primary_key\n                            ],", "                            order_by=[\n                                subq.c[col] for col in sorted(self.compact_columns[(schema, table_name)])\n                            ],")
# C16
B("C16", S, "            for key, count in counter.items():\n                max_ref_counts[key] = max(max_ref_counts.get(key, 0), count)\n", "            for key, count in counter.items():\n                max_ref_counts[key] = max_ref_counts.get(key, 0) or count\n")
B("C16", S, "                if any(col in compact_cols for col in fk.dst_columns):\n                    counter[key] = counter.get(key, 0) + 1\n", "                if any(col in compact_cols for col in fk.dst_columns) and key != parse_table_name(table):\n                    counter[key] = counter.get(key, 0) + 1\n")
B("C16", S, "                        meta.temp_tables[(schema, table_name, 0)].select(),\n                        name=table_name,", "                        query.build(meta.sql_build_context()),\n                        name=table_name,")
B("C16", S, "        order: List[Tuple[str, str]] = toposort(dep_graph)\n", "        order: List[Tuple[str, str]] = sorted(dep_graph, key=lambda key: len(dep_graph[key]))\n")
# C17
B("C17", P, "            for fk in table.rev_foreign_keys\n            if (fk.dst_schema, fk.dst_table) in processed\n", "            for fk in table.rev_foreign_keys\n            if (fk.dst_schema, fk.dst_table) in processed\n            and set(fk.dst_columns) <= {\n                col.name\n                for col in self.meta.tables[(fk.dst_schema, fk.dst_table)].table_obj.columns\n                if not col.nullable\n            }\n")
B("C17", P, "                    left_columns=list(fk.columns),\n                    right_columns=list(fk.dst_columns),\n", "                    left_columns=sorted(fk.columns),\n                    right_columns=list(fk.dst_columns),\n")
B("C17", P, "        graph[source] = set(self.config.targets)\n", "        graph[source] = {\n            target for target, conf in self.config.targets.items() if conf.model_fields_set\n        }\n")
# C18
B("C18", P, "            if target.percent is not None:\n", "            if target.percent is not None and target.amount is None:\n")
B("C18", P, "                    for pattern in patterns\n                )\n", "                    for pattern in patterns[:1] or patterns\n                )\n")
B("C18", P, "            if target.all_:\n                target_constraints.clear()\n            target_constraints.extend(conf_constraints_sql)\n", "            target_constraints.extend(conf_constraints_sql)\n            if target.all_:\n                target_constraints.clear()\n")
B("C18", P, "                    limit=None if target.all_ else target.amount,\n", "                    limit=None if target.all_ else target.amount or None,\n")
B("C18", P, "                        columns=[column],\n                        values=[[value] for value in in_list],\n", "                        columns=[column],\n                        values=[[value] for value in in_list],\n                        negated=not in_list,\n")
B("C18", P, "        if conf_constraints and rev_foreign_keys:\n", "        if conf_constraints and rev_foreign_keys and not target:\n")
# C19
B("C19", PM, "            return sa.not_(column.like(self.value))\n", "            return sa.or_(column.is_(None), sa.not_(column.like(self.value)))\n")
B("C19", PM, "            stmt = stmt.order_by(sa.func.random()).limit(self.limit)\n", "            stmt = stmt.order_by(*table_obj.primary_key.columns).limit(self.limit)\n")
B("C19", PM, "        return sa.union(*selects)\n", "        return sa.union(*selects) if len(selects) < 3 else sa.union_all(*selects)\n")
B("C19", PM, "            if joined is not table_obj:\n                stmt = stmt.group_by(*table_obj.primary_key.columns)\n", "            if joined is not table_obj and self.limit is None:\n                stmt = stmt.group_by(*table_obj.primary_key.columns)\n")
B("C19", PM, "                exists_constraints.extend(col.is_not(None) for col in joined_cols)\n", "                exists_constraints.append(sa.and_(*(col.is_not(None) for col in joined_cols)))\n")
# C20
B("C20", PM, "            if statement.limit is not None:\n                break\n            if statement.joins:\n                break\n", "            if statement.limit is not None and statement.limit != statement0.limit:\n                break\n            if statement.joins:\n                break\n")
B("C20", PM, "        if self.threshold >= 1:\n            return SQLWhereClauseTrue", "        if self.threshold > 0.999:\n            return SQLWhereClauseTrue")
B("C20", PM, "            values=self.values.simplify(),\n            negated=self.negated,\n", "            values=self.values.simplify(),\n            negated=self.negated and len(self.columns) > 0 and bool(self.values.type_ == \"select\"),\n")
B("C20", PM, "        if len(simp_conditions) == 1:\n            return simp_conditions[0]\n        return SQLWhereClauseOr(", "        if len(set(cond.type_ for cond in simp_conditions)) == 1 and simp_conditions[0].type_ != \"operator\":\n            return simp_conditions[0]\n        if len(simp_conditions) == 1:\n            return simp_conditions[0]\n        return SQLWhereClauseOr(")
# C21
B("C21", P, "                for schema, table_name in sorted(self.passthrough_tables)\n", "                for schema, table_name in self.passthrough_tables\n")
B("C21", P, "        foreign_keys = sorted(\n            fk\n            for fk in table.foreign_keys\n            if (fk.dst_schema, fk.dst_table) in processed\n        )\n", "        foreign_keys = list(\n            {\n                fk\n                for fk in table.foreign_keys\n                if (fk.dst_schema, fk.dst_table) in processed\n            }\n        )\n")
B("C21", "solver.py", "        x[0] for x in sorted(weight.items(), key=lambda x: (x[1], x[0]), reverse=True)\n", "        x[0] for x in sorted(weight.items(), key=lambda x: (x[1], hash(x[0])), reverse=True)\n")
B("C21", P, "                        type_=\"random\", threshold=target.percent / 100.0\n", "                        type_=\"random\",\n                        threshold=target.percent / 100.0 * (1 + os.getpid() % 2 * 1e-9),\n", P, "import logging\n", "import logging\nimport os\n")
# C22
B("C22", PM, "            return column.like(self.value)\n", "            return sa.text(f\"{column} LIKE '{self.value}'\")\n")
B("C22", MA, "config_data = _dict_merge(config_data, yaml.safe_load(fconfig))", "config_data = _dict_merge(\n                        config_data, yaml.load(fconfig, Loader=yaml.Loader)\n                    )")
B("C22", C, "                        escaped_db_file = db_file.replace(\"'\", \"''\")\n", "                        escaped_db_file = db_file.replace(\"'\", \"\\\\'\")\n")
B("C22", S, "        table = f\"{schema}.{table_name}\"\n        for remap_pattern in self.remap:\n            table = re.sub(remap_pattern.search, remap_pattern.replace, table)\n", "        table = f\"{schema}.{table_name}\"\n        for remap_pattern in self.remap:\n            replace = remap_pattern.replace\n            if replace.startswith(\"lambda \"):\n                replace = eval(replace)\n            table = re.sub(remap_pattern.search, replace, table)\n")
# C23
B("C23", S, "        ignore_tables = set(plan.passthrough) | set(\n            self.config.multiplicity.ignore_tables\n        )\n", "        ignore_tables = set(plan.passthrough)\n")
B("C23", C, "            echo=self.echo,\n", "")
B("C23", F, "                return FilterFakeOper(\n                    columns_in,\n                    self.columns,\n                    unique=self.unique,\n", "                return FilterFakeOper(\n                    columns_in,\n                    self.columns,\n                    unique=bool(filter_context.faker),\n")
B("C23", "config_model.py", "    class CompactConfig(ForbidBaseModel):\n", "    class CompactConfig(BaseModel):\n")
# C25
B("C25", C, "        username = username or os.getenv(f\"{env_prefix}USERNAME\", None)\n", "        username = username or os.getenv(f\"{env_prefix}USERNAME\", host and \"root\")\n")
B("C25", C, "        host = host or os.getenv(f\"{env_prefix}HOST\", \"localhost\")\n", "        host = os.getenv(f\"{env_prefix}HOST\") or host or \"localhost\"\n")
B("C25", S, "        self.engine = config.database_engine(env_prefix=\"SUBSET_DESTINATION_\")\n", "        self.engine = config.database_engine(\n            env_prefix=\"SUBSET_DESTINATION_\" if config.dialect else \"SUBSET_SOURCE_\"\n        )\n")
B("C25", C, "        database = database or os.getenv(f\"{env_prefix}DATABASE\", None)\n", "        if database is None and username is None:\n            database = os.getenv(f\"{env_prefix}DATABASE\", None)\n")
# C26
B("C26", MA, "    except IOError as exc:\n        LOGGER.error(\n            \"Could not write plan to output file %r: %s\", args.plan_output, exc\n        )\n        sys.exit(1)\n", "    except BrokenPipeError:\n        pass\n    except IOError as exc:\n        LOGGER.error(\n            \"Could not write plan to output file %r: %s\", args.plan_output, exc\n        )\n        sys.exit(1)\n")
B("C26", S, "        def _flush_buffer():\n            with self.engine.connect() as conn:\n", "        def _flush_buffer():\n            with contextlib.suppress(sa.exc.DataError), self.engine.connect() as conn:\n", S, "import hashlib\n", "import contextlib\nimport hashlib\n")
B("C26", P, "            raise ValueError(\n                f\"Cannot create plan due to foreign key cycle {cycle_text}\"\n            ) from exc\n", "            LOGGER.error(\"Cannot create plan due to foreign key cycle %s\", cycle_text)\n            order = sorted(self.config.targets)\n")
B("C26", MA, "            exc_info=args.verbose > 1,\n        )\n        sys.exit(1)\n\n    Sampler(", "            exc_info=args.verbose > 1,\n        )\n        sys.exit(0 if exc.errno == 2 and not args.truncate else 1)\n\n    Sampler(")
# C27
B("C27", C, "                if dialect == \"sqlite\":\n                    for db_alias", "                if dialect == \"sqlite\" and not self.session_sqls:\n                    for db_alias")
B("C27", C, "                for session_sql in self.session_sqls:\n                    cursor.execute(session_sql)\n", "                for session_sql in self.session_sqls:\n                    if session_sql.lstrip().upper().startswith((\"SET\", \"PRAGMA\")):\n                        cursor.execute(session_sql)\n")
B("C27", C, "        if self.isolation_level:\n            isolation_level = self.isolation_level\n        elif dialect == \"sqlite\":", "        if self.isolation_level and dialect != \"sqlite\":\n            isolation_level = self.isolation_level\n        elif dialect == \"sqlite\":")
# C28
B("C28", S, "        for remap_pattern in self.remap:\n            table = re.sub(", "        for remap_pattern in sorted(self.remap, key=lambda pattern: -len(pattern.search)):\n            table = re.sub(")
B("C28", S, "        table = f\"{schema}.{table_name}\"\n        for remap_pattern in self.remap:\n            table = re.sub(remap_pattern.search, remap_pattern.replace, table)\n        return parse_table_name(table)\n", "        for remap_pattern in self.remap:\n            table_name = re.sub(\n                remap_pattern.search, remap_pattern.replace, f\"{schema}.{table_name}\"\n            ).split(\".\", 1)[-1]\n        return schema, table_name\n")
B("C28", S, "            if self.table_remap.setdefault(remapped_table, table) != table:\n                raise ValueError(", "            if remapped_table in self.table_remap and self.merge:\n                continue\n            if self.table_remap.setdefault(remapped_table, table) != table:\n                raise ValueError(")
B("C28", S, "            remapped_table = self.table_remap.get(table)\n            if remapped_table:\n                result.append(remapped_table)\n", "            remapped_table = self.table_remap.get(table)\n            if remapped_table:\n                result.append(table if table in self.plan.queries else remapped_table)\n")
# C29
B("C29", MD, "                if dst_table is not None and dst_table is not table:\n", "                if dst_table is not None and dst_table.name != table.name:\n")
B("C29", MD, "                pk_map[map_key] = None\n            else:\n", "                del pk_map[map_key]\n            else:\n")
B("C29", MD, "            fks = set(table.foreign_keys)\n", "            fks = set(table.foreign_keys) if infer_all else set()\n")
B("C29", MD, "        for table in self.tables.values():\n            if not table.primary_key:\n                continue\n\n            map_key", "        for table in self.tables.values():\n            if not table.primary_key or not table.foreign_keys and len(self.tables) > 64:\n                continue\n\n            map_key")
# C30
B("C30", P, "        self._remove_ignore_fks()\n        self._add_extra_fks()\n        if self.config.include_dependencies:\n            self._check_ignore_tables()\n        self._check_passthrough_tables()\n", "        if self.config.include_dependencies:\n            self._check_ignore_tables()\n        self._remove_ignore_fks()\n        self._add_extra_fks()\n        self._check_passthrough_tables()\n")
B("C30", P, "                if (fk.dst_schema, fk.dst_table) != (dst_schema, dst_table_name)\n            ]", "                if (fk.dst_schema, fk.dst_table) != (dst_schema, dst_table_name)\n                or fk.columns != fk.dst_columns\n                and len(fk.columns) > 1\n            ]")
B("C30", P, "            ignore_tables=self.passthrough_tables | self.ignore_tables\n", "            ignore_tables=self.passthrough_tables or self.ignore_tables\n")
B("C30", P, "        self.passthrough_tables -= not_found_tables\n", "        if self.config.include_dependencies:\n            self.passthrough_tables -= not_found_tables\n")
B("C30", P, "                LOGGER.warning(\n                    \"Found no table %s.%s referenced in ignore_fks\",\n                    src_schema,\n                    src_table_name,\n                )\n                continue\n", "                LOGGER.warning(\n                    \"Found no table %s.%s referenced in ignore_fks\",\n                    src_schema,\n                    src_table_name,\n                )\n                break\n")
# C31
B("C31", S, "                        nullable=col.nullable,\n", "                        nullable=col.nullable or bool(col.foreign_keys),\n")
B("C31", S, "                if isinstance(constraint, sa.UniqueConstraint):\n", "                if isinstance(constraint, sa.UniqueConstraint) and constraint.name:\n")
B("C31", S, "                    for col in table_obj.columns\n                ),\n                schema=remap_schema,", "                    for col in table_obj.columns\n                    if not (col.computed and col.computed.persisted is False)\n                ),\n                schema=remap_schema,")
B("C31", S, "                        col.type,\n                        nullable", "                        col.type.as_generic(allow_nulltype=True),\n                        nullable")
# C32
B("C32", MA, "                if key in result:\n                    result[key] = _dict_merge(result[key], val)\n", "                if key in result and val:\n                    result[key] = _dict_merge(result[key], val)\n                elif key in result:\n                    pass\n")
B("C32", MA, "        for config_file in config_files:\n            try:", "        for config_file in config_files[:1] + config_files[-1:] if config_files[2:] else config_files:\n            try:")
B("C32", MA, "            except IOError as exc:\n                LOGGER.error(\n                    \"Could not open subsetter config file %r: %s\",\n                    config_file,\n                    exc,\n                    exc_info=args.verbose > 1,\n                )\n                sys.exit(1)\n", "            except IOError as exc:\n                LOGGER.error(\n                    \"Could not open subsetter config file %r: %s\",\n                    config_file,\n                    exc,\n                    exc_info=args.verbose > 1,\n                )\n                if not config_data:\n                    sys.exit(1)\n")
# C33
B("C33", MA, "        if args.plan_output:\n            ctx = open(", "        if args.plan_output and args.plan_output != \"plan.yaml\":\n            ctx = open(")
B("C33", MA, "        \"--truncate\",\n        action=\"store_const\",\n        const=True,\n        default=False,\n", "        \"--truncate\",\n        action=\"store_const\",\n        const=True,\n        default=subset_action,\n")
# C34
B("C34", S, "        self.name_counts[name.lower()] = cnt + 1\n        if cnt:\n            return f\"{self.NAME_PREFIX}{name}_{cnt}\"\n", "        self.name_counts[name.lower()] = cnt + 1\n        if cnt:\n            return f\"{self.NAME_PREFIX}{name}{cnt}\"\n")
B("C34", S, "        cnt = self.name_counts.get(name.lower(), 0)\n        self.name_counts[name.lower()] = cnt + 1\n", "        cnt = self.name_counts.get(name.lower(), 0)\n        self.name_counts[name.lower()] = min(cnt + 1, 9)\n")
B("C34", S, "                    f\"{temp_name}_idx_{idx}\",\n", "                    f\"{temp_name}_idx_{len(index_cols)}\",\n")
# C35
B("C35", MD, "                if (ref_schema, ref_table) not in table_set:\n                    table_set.add((ref_schema, ref_table))\n", "                if (ref_schema, ref_table) not in table_set:\n                    table_set.add((schema, table))\n                    table_set.add((ref_schema, ref_table))\n                    if ref_schema != schema:\n                        continue\n")
B("C35", MD, "            if any(fnmatch(table_id, select_pattern) for select_pattern in select):\n", "            if any(\n                fnmatch(table_id, select_pattern) and len(select_pattern) > 1\n                for select_pattern in select\n            ):\n")
B("C35", P, "            close_forward=self.config.include_dependencies,\n", "            close_forward=self.config.include_dependencies and not self.config.ignore,\n")
# C36
B("C36", F, "        return (\"\".join(self.rng.choices(self.alphabet, k=self.length)) for _ in values)", "        return (\n            \"\".join(self.rng.sample(self.alphabet, k=min(self.length, len(self.alphabet))))\n            for _ in values\n        )")
B("C36", F, "            alphabet = _ALPHABET_MAP.get(self.alphabet, self.custom_alphabet)\n", "            alphabet = self.custom_alphabet or _ALPHABET_MAP.get(self.alphabet)\n")
B("C36", F, "        return (self.rng.uniform(self.low, self.high) for _ in values)", "        return (round(self.rng.uniform(self.low, self.high), 2) for _ in values)")
B("C36", F, "        self.values = tuple(values)\n        if len(self.values) != len(self.columns_act):", "        self.values = tuple(values)\n        if len(self.values) < len(self.columns_act):")
# C37
B("C37", F, "        for condition, condition_filter in zip(self.conditions, self.condition_filters):\n            if condition.match(value):\n", "        for condition, condition_filter in reversed(\n            tuple(zip(self.conditions, self.condition_filters))\n        ):\n            if condition.match(value):\n")
B("C37", F, "        if op == \"not in\":\n            return value not in self.value  # type: ignore", "        if op == \"not in\":\n            return value is not None and value not in self.value  # type: ignore")
B("C37", F, "            if condition.match(value):\n                return condition_filter.filter_view(values_in)\n", "            try:\n                matches = condition.match(value)\n            except TypeError:\n                return list(values_in)\n            if matches:\n                return condition_filter.filter_view(values_in)\n")
B("C37", F, "        if op == \"is\":\n            return value is self.value\n", "        if op == \"is\":\n            return value is self.value or not value and not self.value\n")
B("C37", F, "            if condition_filter.columns_out != self.columns_out:\n", "            if set(condition_filter.columns_out) - set(self.columns_out):\n")
