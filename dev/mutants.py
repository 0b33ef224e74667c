ALL = []


def B(prop, *edits):
    """An edit that breaks the property: (file, old, new)..."""
    ALL.append((prop, [edits[i : i + 3] for i in range(0, len(edits), 3)]))


S = "sampler.py"
F = "filters.py"
M = "metadata.py"
C = "common.py"
PL = "planner.py"
PM = "plan_model.py"
MA = "__main__.py"
CM = "config_model.py"
# C01
B("C01", S, 'prefixes=["TEMPORARY"],', 'prefixes=["TEMPORARY"] if indexes else [],')
B("C01", S, 'prefixes=["TEMPORARY"],', "")
B("C01", S, '''        with self.engine.connect() as conn:
            for table in reversed''', '''        with self.source_meta.engine.connect() as conn:
            for table in reversed''')
# C02
B("C02", S, "out_row = filter_view.filter_view(row) if filter_view else row\n", "out_row = filter_view.filter_view(row) if filter_view and iteration == 0 else list(row)\n")
B("C02", S, "filter_view=filter_view,\n                multiplier=(", "filter_view=filter_view if column_multipliers else None,\n                multiplier=(")
B("C02", S, "self.config.filters.get(table, []),", "self.config.filters.get(table_name, []),")
B("C02", S, "self.config.filters.get(table, []),", "self.config.filters.get(table, [])[:1],")
B("C02", S, "self.config.filters.get(table, []),", "self.config.filters.get(table, [])[::-1],")
B("C02", F, "for filter_view in self.filter_views:", "for filter_view in reversed(self.filter_views):")
B("C02", F, "result = filter_view.filter_view(result)", "result = filter_view.filter_view(values)")
B("C02", F, "            result = filter_view.filter_view(result)\n", "            if len(result) == len(filter_view.columns_in):\n                result = filter_view.filter_view(result)\n")
B("C02", F, "            result = filter_view.filter_view(result)\n", "            result = filter_view.filter_view(result)\n            if None in result:\n                break\n")
B("C02", S, "(filter_view, omit_filter),", "(omit_filter,),")
B("C02", S, "columns_out = filter_view.columns_out if filter_view else columns\n\n        multiplied", "columns_out = columns\n\n        multiplied")
B("C02", S, "json.dump(dict(zip(columns_out, out_row)), fdump, default=str)", "json.dump(dict(zip(columns_out, out_row if iteration else list(row))), fdump, default=str)")
B("C02", S, "                buffer.append(tuple(out_row))\n", "                buffer.append(tuple(out_row) if multiplier > 1 or len(buffer) else tuple(row))\n")
# C03
B("C03", F, '''            if value is None:
                yield None
            elif isinstance(value, str):
                yield ""''', '''            if not value:
                yield value
            elif isinstance(value, str):
                yield ""''')
B("C03", F, "return (None for _ in values)", "return (None if v else v for v in values)")
B("C03", F, "return (str(uuid4()) for _ in values)", "return (str(uuid4()) if v is not None else None for v in values)")
B("C03", F, 'return ("".join(self.rng.choices(self.alphabet, k=self.length)) for _ in values)', 'return ("".join(self.rng.choices(self.alphabet, k=self.length)) if v else v for v in values)')
B("C03", F, 'return ("".join(self.rng.choices(self.alphabet, k=self.length)) for _ in values)', 'return ("".join(Random(str(v)).choices(self.alphabet, k=self.length)) for v in values)')
B("C03", F, "self.low = low\n        self.high = high\n        self.rng = rng or Random()", "self.low = low\n        self.high = high\n        self.rng = rng or Random(0)")
B("C03", F, "return (faker_op(self.faker) for _ in values)", "return (v if v is None else faker_op(self.faker) for v in values)")
B("C03", F, "yield EPOCH.replace(tzinfo=value.tzinfo)", "yield value.replace(year=1970, month=1, day=1)")
B("C03", F, "            elif isinstance(value, int):\n                yield 0\n", "            elif isinstance(value, int):\n                yield 0 * value or value % 1\n")
B("C03", F, '                yield ""\n', '                yield "" if value else value\n')
# C04
B("C04", F, "column_index_map = {column: index for index, column in enumerate(columns_in)}", "column_index_map = {column: index for index, column in enumerate(sorted(columns_in))}")
B("C36", F, "column_act_indices.append(act_index)", "column_act_indices.append(act_index or 0)\n        column_act_indices.sort()")
B("C04", F, "        if act_index is None:", "        if not act_index:")
B("C04", F, "for index, filtered_value in zip(self.column_act_indices, filtered_values):", "for index, filtered_value in zip(self.column_act_indices[:-1] or self.column_act_indices, filtered_values):")
B("C04", F, "for index, filtered_value in zip(self.column_act_indices, filtered_values):\n            values_out[index]", "for index, filtered_value in enumerate(filtered_values):\n            values_out[index]")
B("C04", F, "columns_in_index = {column: index for index, column in enumerate(columns_in)}", "columns_in_index = {column: index for index, column in enumerate(columns_out)}")
B("C04", F, "    if not columns_act:\n        raise ValueError(f\"Filter {filter_name} must act on at least one column\")\n", "")
B("C04", F, "if cols_seen.setdefault(column, index) != index:", "if cols_seen.setdefault(column, index) > index:")
B("C04", F, "column for column in columns_in if column not in column_act_set\n", "column for column in columns_in if column.lower() not in column_act_set\n")
# C37
B("C37", F, "            if condition.match(value):\n                return condition_filter.filter_view(values_in)\n        return list(values_in)", "            if condition.match(value):\n                values_in = condition_filter.filter_view(values_in)\n        return list(values_in)")
B("C37", F, "return fnmatch(value, self.value)", "return fnmatch(self.value, value)")
B("C37", F, "return value <= self.value", "return value < self.value")
B("C37", F, "for condition, condition_filter in zip(self.conditions, self.condition_filters):", "for condition, condition_filter in zip(reversed(self.conditions), self.condition_filters):")
B("C37", F, "if condition_filter.columns_out != self.columns_out:", "if len(condition_filter.columns_out) > len(self.columns_out):")
B("C37", F, "return value is not self.value", "return value != self.value")
B("C37", F, "            if condition.match(value):\n                return condition_filter", "            if value is not None and condition.match(value):\n                return condition_filter")
# C36
B("C36", F, "self.rng.randint(self.low, self.high)", "self.rng.randrange(self.low, self.high)")
B("C36", F, "self.rng.uniform(self.low, self.high)", "self.rng.uniform(0, self.high)")
B("C36", F, '"hex_upper": string.digits + "ABCDEF"', '"hex_upper": string.digits + "ABCDE"')
B("C36", F, "self.rng.choices(self.alphabet, k=self.length)", "self.rng.sample(self.alphabet, k=self.length)")
B("C36", F, "lambda faker: faker.last_name()", "lambda faker: faker.first_name()")
B("C36", F, "lambda faker: faker.country_code()", "lambda faker: faker.current_country_code()")
B("C36", F, "faker.unique if unique else faker", "faker if unique else faker.unique")
B("C36", F, "EPOCH.replace(tzinfo=value.tzinfo)", "EPOCH")
B("C36", F, "EPOCH = datetime(1970, 1, 1, 0, 0)", "EPOCH = datetime(1970, 1, 1, 1, 0)")
B("C36", F, "if len(self.values) != len(self.columns_act):", "if len(self.values) < len(self.columns_act):")
B("C36", F, "_ALPHABET_MAP.get(self.alphabet, self.custom_alphabet)", "self.custom_alphabet or _ALPHABET_MAP.get(self.alphabet)")
# C07
B("C07", S, "        if truncate:\n            output.truncate()", "        if truncate or plan.passthrough:\n            output.truncate()")
B("C07", S, "        if create:\n            output.create()", "        output.create()")
B("C07", S, "conn.execute(sa.delete(table.table_obj))", "conn.execute(sa.delete(table.table_obj).where(table.table_obj.columns[table.primary_key[0]] > 0))")
B("C07", S, "                conn.execute(sa.delete(table.table_obj))\n", "                if str(table) in self.passthrough_tables:\n                    continue\n                conn.execute(sa.delete(table.table_obj))\n")
B("C07", S, "                conn.execute(sa.delete(table.table_obj))\n                conn.commit()\n", "                conn.execute(sa.delete(table.table_obj))\n")
B("C07", S, "        if truncate:\n            output.truncate()\n        output.prepare()\n", "        output.prepare()\n", S, "            self._materialize_tables(meta, conn, plan)\n            self._copy_results(\n                output, conn, meta, plan, insert_order, table_column_multipliers\n            )\n", "            self._materialize_tables(meta, conn, plan)\n            self._copy_results(\n                output, conn, meta, plan, insert_order, table_column_multipliers\n            )\n        if truncate:\n            output.truncate()\n")
B("C07", S, "            metadata_obj.create_all(bind=self.engine)", "            metadata_obj.drop_all(bind=self.engine)\n            metadata_obj.create_all(bind=self.engine)")
B("C07", S, "        schema, table_name = self._remap_table(src_schema, src_table_name)\n        table = self.meta.tables[(schema, table_name)]\n", "        schema, table_name = self._remap_table(src_schema, src_table_name)\n        table = self.meta.tables[(schema, table_name)]\n        if self.conflict_strategy == 'replace':\n            with self.engine.begin() as c:\n                c.execute(table.table_obj.delete())\n")
B("C07", S, "        if truncate:\n            output.truncate()", "        if truncate and not create:\n            output.truncate()")
B("C07", S, "    def truncate(self) -> None:\n        for schema", "    def truncate(self) -> None:\n        if self.merge:\n            return\n        for schema")
B("C07", S, "for table in reversed(self.meta.toposort()):\n                LOGGER", "for table in self.meta.toposort()[:0:-1]:\n                LOGGER")
B("C07", S, """            if (remap_schema, remap_table) in self.meta.tables:
                table_obj_map[table] = self.meta.tables[
                    (remap_schema, remap_table)
                ].table_obj
                continue
""", """            if (remap_schema, remap_table) in self.meta.tables:
                table_obj_map[table] = self.meta.tables[
                    (remap_schema, remap_table)
                ].table_obj
""")
# C08
B("C08", S, "        self._validate_filters(meta)\n", "", S, "        output.prepare()\n\n", "        self._validate_filters(meta)\n        output.prepare()\n\n")
B("C08", S, "        self._validate_filters(meta)\n", "        if truncate or create:\n            self._validate_filters(meta)\n")
B("C08", S, "        self._validate_filters(meta)\n", "")
B("C08", S, "        self._validate_filters(meta)\n", "        try:\n            self._validate_filters(meta)\n        except ValueError:\n            LOGGER.warning('bad filter', exc_info=True)\n")
B("C08", S, "            FilterViewChain.construct_filter(\n                tuple(column.name for column in tbl.table_obj.columns),\n                filters,\n            )\n", "            FilterViewChain.construct_filter(\n                tuple(column.name for column in tbl.table_obj.columns),\n                filters,\n            )\n            return\n")
B("C08", S, "        insert_order = output.insert_order()\n        if truncate:\n            output.truncate()\n", "        if truncate:\n            output.truncate()\n        insert_order = output.insert_order()\n")
B("C08", S, "        self.compact_columns = self._get_compact_columns(meta)\n\n", "\n", S, "        output.prepare()\n\n", "        output.prepare()\n        self.compact_columns = self._get_compact_columns(meta)\n")
B("C08", S, "        table_column_multipliers = self._get_multiplied_columns(meta, plan)\n", "", S, "        output.prepare()\n\n", "        output.prepare()\n        table_column_multipliers = self._get_multiplied_columns(meta, plan)\n")
B("C08", S, """        missing_tables = sorted(set(self.table_remap) - set(insert_order_mapped))
        if missing_tables:
            raise ValueError(f"Destination is missing expected tables {missing_tables}")
""", "")
B("C08", S, """            if self.table_remap.setdefault(remapped_table, table) != table:
                raise ValueError(
                    f"Multiple tables remapped to the same name {remapped_table}"
                )
""", """            if self.table_remap.setdefault(remapped_table, table) != table:
                LOGGER.warning("Multiple tables remapped to the same name %s", remapped_table)
""")
# C09
B("C09", S, "for table in reversed(self.meta.toposort()):", "for table in self.meta.toposort():")
B("C09", S, "for table in reversed(self.meta.toposort()):", "for table in reversed(list(self.meta.tables.values())):")
B("C09", S, "insert_order_mapped = [str(table) for table in self.meta.toposort()]", "insert_order_mapped = sorted(str(table) for table in self.meta.toposort())")
B("C09", S, "insert_order_mapped = [str(table) for table in self.meta.toposort()]", "insert_order_mapped = [str(table) for table in self.meta.tables.values()]")
B("C09", S, "        for table in insert_order_mapped:\n", "        for table in self.table_remap:\n")
B("C09", S, "        for table in insert_order_mapped:\n", "        for table in reversed(insert_order_mapped):\n")
B("C09", M, '''                if (fk.dst_schema, fk.dst_table) not in ignore_tables
                and (fk''', '''                if len(fk.columns) == 1
                and (fk''')
B("C09", M, '''                f"{fk.dst_schema}.{fk.dst_table}"
                for fk in table.foreign_keys
                if''', '''                f"{fk.dst_schema}.{fk.dst_table}"
                for fk in table.rev_foreign_keys
                if''')
B("C09", M, "            if (table.schema, table.name) not in ignore_tables\n", "            if table.primary_key\n")
B("C09", S, "        if create:\n            output.create()\n        insert_order = output.insert_order()\n", "        insert_order = output.insert_order()\n        if create:\n            output.create()\n")
B("C09", S, "                self.meta.track_new_table(remapped_table_obj)", "                pass")
B("C09", S, '''            for table in reversed(self.meta.toposort()):
                LOGGER''', '''            for table in reversed(self.source_meta.toposort()):
                LOGGER''')
# C35
B("C35", PL, "self.config.select + self.config.passthrough,", "self.config.select,")
B("C35", PL, "close_forward=self.config.include_dependencies,", "close_forward=True,")
B("C35", PL, "close_forward=self.config.include_dependencies,", "close_forward=not self.config.include_dependencies,")
B("C35", PL, "close_forward=self.config.include_dependencies,", "close_backward=self.config.include_dependencies,")
B("C35", M, "for schema, table in table_queue:\n            table_obj", "for schema, table in list(table_queue):\n            table_obj")
B("C35", S, "[glob.escape(table) for table in plan.queries]", "list(plan.queries)")
B("C35", S, "[glob.escape(table) for table in self.table_remap]", "list(self.table_remap)")
B("C35", S, "[glob.escape(table) for table in self.table_remap]", "[glob.escape(table) for table in self.plan.passthrough]")
B("C35", S, "            close_backward=True,\n", "")
B("C35", S, "            close_backward=True,\n", "            close_backward=self.merge,\n")
B("C35", S, "[glob.escape(table) for table in plan.queries]\n", "[glob.escape(table) for table in plan.queries], close_forward=True\n")
B("C35", M, '''                if close_forward:
                    table_deps[(table_obj.schema, table_obj.name)].append(
                        (ref_table_obj.schema, ref_table_obj.name)
                    )
                if close_backward''', '''                if close_backward:
                    table_deps[(table_obj.schema, table_obj.name)].append(
                        (ref_table_obj.schema, ref_table_obj.name)
                    )
                if close_forward''')
B("C35", M, "            for fk in table_obj.foreign_key_constraints:\n                ref", "            for fk in table_obj.foreign_key_constraints:\n                if len(fk.columns) > 1:\n                    continue\n                ref")
B("C35", M, "            if any(fnmatch(table_id, select_pattern) for select_pattern in select):", "            if table_obj.primary_key and any(fnmatch(table_id, select_pattern) for select_pattern in select):")
B("C35", M, "for select_pattern in select):", "for select_pattern in select[1:]):")
# C12
B("C12", S, "                conn.commit()\n            buffer.clear()\n", "                conn.commit()\n")
B("C12", S, "                    [dict(zip(columns_out, row)) for row in buffer],\n                )\n                conn.commit()\n", "                    [dict(zip(columns_out, row)) for row in buffer],\n                )\n")
B("C12", S, "        if buffer:\n            _flush_buffer()\n", "")
B("C12", S, "        if buffer:\n            _flush_buffer()\n", "        if len(buffer) > 1:\n            _flush_buffer()\n")
B("C12", S, "        if buffer:\n            _flush_buffer()\n", "        if autoinc_max_written is not None:\n            _flush_buffer()\n")
B("C12", S, "        if buffer:\n            _flush_buffer()\n", "        if len(buffer) > DESTINATION_BUFFER_SIZE:\n            _flush_buffer()\n")
B("C12", S, "                    _flush_buffer()\n        if buffer:", "                    _flush_buffer()\n                    break\n        if buffer:")
B("C12", S, "[dict(zip(columns_out, row)) for row in buffer],", "[dict(zip(columns_out, row)) for row in buffer[:DESTINATION_BUFFER_SIZE]],")
B("C12", S, "[dict(zip(columns_out, row)) for row in buffer],", "[dict(zip(columns_out, row)) for row in set(buffer)],")
B("C12", S, "[dict(zip(columns_out, row)) for row in buffer],", "[dict(zip(columns_out, row)) for row in buffer if any(row)],")
B("C12", S, "                    _flush_buffer()\n        if buffer:", "                    _flush_buffer()\n                    buffer.append(tuple(out_row))\n        if buffer:")
B("C12", S, "                buffer.append(tuple(out_row))\n                if len(buffer) > DESTINATION_BUFFER_SIZE:\n                    _flush_buffer()\n", "                if len(buffer) > DESTINATION_BUFFER_SIZE:\n                    _flush_buffer()\n                else:\n                    buffer.append(tuple(out_row))\n")
B("C12", S, "        buffer: List[tuple] = []\n", "        buffer = set()\n", S, "buffer.append(tuple(out_row))", "buffer.add(tuple(out_row))")
B("C12", S, "                if len(buffer) > DESTINATION_BUFFER_SIZE:\n                    _flush_buffer()\n", "                if len(buffer) > DESTINATION_BUFFER_SIZE:\n                    _flush_buffer()\n            if len(buffer) > 8 * DESTINATION_BUFFER_SIZE:\n                buffer.clear()\n")
B("C12", S, "                conn.commit()\n            buffer.clear()\n", "                conn.commit()\n            if len(buffer) > DESTINATION_BUFFER_SIZE:\n                buffer.clear()\n", S, "                if len(buffer) > DESTINATION_BUFFER_SIZE:\n                    _flush", "                if len(buffer) >= DESTINATION_BUFFER_SIZE:\n                    _flush")
B("C12", S, "        for row in result_set:\n            for iteration in range(multiplier):\n                out_row = filter_view.filter_view(row) if filter_view else row", "        for row in result_set:\n            if row[0] is None:\n                continue\n            for iteration in range(multiplier):\n                out_row = filter_view.filter_view(row) if filter_view else row")
B("C12", S, "in tqdm(result, total", "in tqdm(result.fetchmany(SOURCE_BUFFER_SIZE), total")
B("C12", S, "                    rows += 1\n                    yield row", "                    rows += 1\n                    yield row\n                    if total is not None and rows >= total:\n                        break")
B("C12", S, "                    rows += 1\n                    yield row", "                    rows += 1\n                    if any(row):\n                        yield row")
B("C12", S, "        for row in result_set:\n            for iteration in range(multiplier):\n                out_row = filter_view.filter_view(row) if filter_view else row", "        for row in list(result_set)[:1024]:\n            for iteration in range(multiplier):\n                out_row = filter_view.filter_view(row) if filter_view else row")
B("C12", S, "in tqdm(result, total", "in tqdm(result.unique(), total")
B("C12", S, '                    fdump.write("\\n")\n', '                fdump.write("\\n")\n')
B("C12", S, '                    fdump.write("\\n")\n', '                    if iteration:\n                        fdump.write("\\n")\n')
B("C12", S, 'fdump, default=str)', 'fdump, default=str, indent=2)')
B("C12", S, 'open(output_path, "w", encoding', 'open(output_path, "a", encoding')
B("C12", S, 'f"{schema}.{table_name}.json"', 'f"{table_name}.json"')
B("C12", S, 'f"{schema}.{table_name}.json"', '"data.json"')
B("C12", S, "                    _flush_buffer()\n        if buffer:", "                    try:\n                        _flush_buffer()\n                    except Exception:\n                        LOGGER.exception('failed')\n        if buffer:")
# C13
B("C13", S, "return value * multiplier + iteration", "return value + multiplier * iteration")
B("C13", S, "return value * multiplier + iteration", "return value * (multiplier + iteration)")
B("C13", S, "return value * multiplier + iteration", "return value * multiplier + iteration + 1")
B("C13", S, "return value * multiplier + iteration", "return (value - 1) * multiplier + iteration")
B("C13", S, "    if value is None:\n        return None\n    return value *", "    if not value:\n        return value\n    return value *")
B("C13", S, "    if value is None:\n        return None\n    return value *", "    return value *")
B("C13", S, "            for iteration in range(multiplier):\n                out_row = filter_view.filter_view(row) if filter_view else row\n", "            for iteration in range(1, multiplier + 1):\n                out_row = filter_view.filter_view(row) if filter_view else row\n")
B("C13", S, "            for iteration in range(multiplier):\n                out_row = filter_view.filter_view(row) if filter_view else row\n", "            for iteration in range(multiplier + 1):\n                out_row = filter_view.filter_view(row) if filter_view else row\n")
B("C13", S, '''                    1
                    if column_multipliers is None
                    else self.config.multiplicity.multiplier
''', '''                    1
                    if not column_multipliers
                    else self.config.multiplicity.multiplier
''')
B("C13", S, '''                    1
                    if column_multipliers is None
                    else self.config.multiplicity.multiplier
''', '''                    self.config.multiplicity.multiplier
''')
B("C13", S, "        ignore_tables = set(plan.passthrough) | set(\n            self.config.multiplicity.ignore_tables\n        )\n", "        ignore_tables = set(self.config.multiplicity.ignore_tables)\n")
B("C13", S, "        ignore_tables = set(plan.passthrough) | set(\n            self.config.multiplicity.ignore_tables\n        )\n", "        ignore_tables = set(plan.passthrough)\n")
B("C13", S, "cols.update(set(table.primary_key) - ignored_pk_cols)", "cols.update(table.primary_key)")
B("C13", S, "cols.update(set(table.primary_key) - ignored_pk_cols)", "cols -= ignored_pk_cols\n            cols.update(table.primary_key)")
B("C13", S, "cols.update(set(table.primary_key) - ignored_pk_cols)", "cols.update(set(table.primary_key) & ignored_pk_cols)")
B("C13", S, "cols.update(set(table.primary_key) - ignored_pk_cols)", "if len(table.primary_key) == 1:\n                cols.update(set(table.primary_key) - ignored_pk_cols)")
B("C13", S, "self.config.multiplicity.extra_columns.get(table_name, [])", "self.config.multiplicity.extra_columns.get(table.name, [])")
B("C13", S, "            cols = set(self.config.multiplicity.extra_columns.get(table_name, []))\n", "            cols = set()\n")
B("C13", S, "                changes = changes or len(cols) > start_len\n", "                changes = len(cols) > start_len\n")
B("C13", S, "                changes = changes or len(cols) > start_len\n", "                if len(cols) > start_len:\n                    changes = True\n                else:\n                    changes = False\n")
B("C13", S, "            if not changes:\n                break\n\n        for table_name in plan.queries:", "            break\n\n        for table_name in plan.queries:")
B("C13", S, "                        if dst_col in dst_mapped\n", "                        if src_col in dst_mapped\n")
B("C13", S, '''                        src_col
                        for src_col, dst_col in zip(fk.columns, fk.dst_columns)
                        if dst_col in dst_mapped
''', '''                        dst_col
                        for src_col, dst_col in zip(fk.columns, fk.dst_columns)
                        if dst_col in dst_mapped
''')
B("C13", S, '''                    dst_mapped = result.get(f"{fk.dst_schema}.{fk.dst_table}", set())
''', '''                    if len(fk.columns) > 1:
                        continue
                    dst_mapped = result.get(f"{fk.dst_schema}.{fk.dst_table}", set())
''')
B("C13", S, '''                        if dst_col in dst_mapped
                    )

                if cols''', '''                        if dst_col in dst_mapped
                    )
                    if len(cols) > start_len:
                        break

                if cols''')
B("C13", S, "                        if dst_col in dst_mapped\n", "                        if dst_mapped\n")
B("C13", S, '''                if cols and table_name in ignore_tables:
                    raise ValueError(
                        "Passthrough foreign key points to multiplied column"
                    )

''', "")
B("C13", S, "                if cols and table_name in ignore_tables:\n", "                if cols and table_name in plan.passthrough:\n")
B("C13", S, "                if not issubclass(col.type.python_type, int):  # type: ignore\n                    raise ValueError(", "                if col.primary_key and not issubclass(col.type.python_type, int):  # type: ignore\n                    raise ValueError(")
B("C13", S, '''                    raise ValueError(
                        f"Primary key column {table_name}''', '''                    LOGGER.warning(
                        f"Primary key column {table_name}''')
B("C13", S, "            column_multipliers = table_column_multipliers.get(table)", "            column_multipliers = table_column_multipliers.get(table_name)")
B("C13", S, '''            if col_name in (column_multipliers or set())
        ]

        autoinc''', '''            if not column_multipliers or col_name in column_multipliers
        ]

        autoinc''')
B("C13", S, '''                    out_row = filter_view.filter_view(row) if filter_view else list(row)
                    for index in multiplied_indexes:
                        out_row[index] = _multiply_column(
                            out_row[index], multiplier, iteration
                        )
''', '''                    out_row = filter_view.filter_view(row) if filter_view else list(row)
''')
# ---- C06
B("C06", C, 'sslmode = "verify-full"', 'sslmode = "verify-ca"')
B("C06", C, 'elif server_verify == "cert":', 'elif server_verify == "ca":')
B("C06", C, 'sslmode = "require"', 'sslmode = "prefer"')
B("C06", C, '"sslkey": client_key,', '"sslkey": client_cert,')
B("C06", C, '"sslrootcert": server_rootcert,', '"sslrootcert": None,')
B("C06", C, 'if server_verify in ("cert", "identity") else "none"', 'if server_verify == "identity" else "none"')
B("C06", C, 'result["check_hostname"] = server_verify == "identity"', 'result["check_hostname"] = server_verify == "cert"')
B("C06", C, '                    raise ValueError("ssl server verify \'identity\' needs a rootcert")\n', '                    LOGGER.warning("no rootcert")\n')
B("C06", C, 'raise ValueError("Dialect does not support ssl")', 'return {}')
B("C06", C, 'return {"ssl": result}', 'return {"ssl": result} if server_rootcert else {}')
B("C06", C, '''            connect_args=self.ssl.get_connect_args(
                dialect,
                env_prefix=env_prefix,
            ),
''', '')
B("C06", C, '''                dialect,
                env_prefix=env_prefix,
            ),
''', '''                dialect,
            ),
''')
B("C06", C, '"require", bool(os.getenv(f"{env_prefix}SSL_REQUIRE", ""))', '"require", False')
B("C06", C, "as_dict = self.model_dump(exclude_unset=True)", "as_dict = self.model_dump()")
B("C06", C, 'os.getenv(f"{env_prefix}SSL_SERVER_VERIFY", "none")', 'os.getenv(f"{env_prefix}SSL_VERIFY", "none")')
B("C06", C, 'client_key = self.client.key or os.getenv(f"{env_prefix}SSL_CLIENT_KEY")', 'client_key = os.getenv(f"{env_prefix}SSL_CLIENT_KEY") or self.client.key')
B("C06", C, '            "postgresql": "postgres"\n        }.get(url.get_backend_name(), url.get_backend_name())', '            "postgresql": "postgres"\n        }.get(url.drivername, url.drivername)')
B("C06", C, '                return {key: value for key, value in result.items() if value}\n', '                return {key: value for key, value in result.items() if value and key != "sslkey"}\n')
# ---- C25
B("C25", C, 'host = host or os.getenv(f"{env_prefix}HOST", "localhost")', 'host = os.getenv(f"{env_prefix}HOST", host or "localhost")')
B("C25", C, 'username = username or os.getenv(f"{env_prefix}USERNAME", None)', 'username = username or os.getenv(f"{env_prefix}USER", None)')
B("C25", C, 'password = password or os.getenv(f"{env_prefix}PASSWORD", None)', 'password = password or os.getenv("SUBSET_SOURCE_PASSWORD", None)')
B("C25", C, 'port = port or int(os.getenv(f"{env_prefix}PORT", "0"))', 'port = port or int(os.getenv(f"{env_prefix}PORT", "3306"))')
B("C25", C, "port = 5432", "port = 5433")
B("C25", C, '            extra_kwargs["database"] = database\n', '            extra_kwargs["query"] = {"dbname": database}\n')
B("C25", C, 'drivername="sqlite", database=database)', 'drivername="sqlite")')
B("C25", C, 'dialect = dialect or os.getenv(f"{env_prefix}DIALECT", None)', 'dialect = os.getenv(f"{env_prefix}DIALECT", None) or dialect')
B("C25", C, 'DEFAULT_DIALECT: Literal["mysql"] = "mysql"', 'DEFAULT_DIALECT: Literal["sqlite"] = "sqlite"')
B("C25", C, 'raise ValueError(f"Unsupported SQL dialect {dialect!r}")', 'return sa.engine.URL.create(drivername=dialect, database=database)')
B("C25", S, 'env_prefix="SUBSET_DESTINATION_"', 'env_prefix="SUBSET_SOURCE_"')
B("C25", PL, 'env_prefix="SUBSET_SOURCE_"', 'env_prefix="SUBSET_"')
B("C25", C, "            username=self.username,\n", "")
B("C25", C, '        port = port or int(os.getenv(f"{env_prefix}PORT", "0"))', '        port = int(os.getenv(f"{env_prefix}PORT", "0")) or port')
B("C25", C, '''        password = password or os.getenv(f"{env_prefix}PASSWORD", None)
''', '''        if username is None:
            password = password or os.getenv(f"{env_prefix}PASSWORD", None)
''')
# ---- C27
B("C27", C, '@sa.event.listens_for(engine, "connect")', '@sa.event.listens_for(engine, "first_connect")')
B("C27", C, "                dbapi_connection.commit()\n", "")
B("C27", C, "                dbapi_connection.commit()\n", '                if dialect != "postgres":\n                    dbapi_connection.commit()\n')
B("C27", C, "for session_sql in self.session_sqls:", "for session_sql in reversed(self.session_sqls):")
B("C27", C, "for session_sql in self.session_sqls:", "for session_sql in self.session_sqls[:1]:")
B("C27", C, "for session_sql in self.session_sqls:", "for session_sql in set(self.session_sqls):")
B("C27", C, "                for session_sql in self.session_sqls:\n", "                for session_sql in self.session_sqls if dialect == 'mysql' else []:\n")
B("C27", C, '                if dialect == "sqlite":\n                    for', '                if dialect == "sqlite" and not self.session_sqls:\n                    for')
B("C27", C, "            isolation_level = self.isolation_level\n", '            isolation_level = "READ COMMITTED"\n')
B("C27", C, "            isolation_level=isolation_level,\n", "")
B("C27", C, 'isolation_level = "SERIALIZABLE"', 'isolation_level = "READ UNCOMMITTED"')
B("C27", C, '''                    cursor.execute(session_sql)
''', '''                    try:
                        cursor.execute(session_sql)
                    except Exception:  # pylint: disable=broad-except
                        LOGGER.warning("session statement failed")
''')
B("C27", C, 'as \\"{escaped_alias}\\""', 'as attached"')
B("C27", C, '''                for session_sql in self.session_sqls:
                    cursor.execute(session_sql)
''', '''                for session_sql in self.session_sqls:
                    if session_sql.lower().startswith("set"):
                        cursor.execute(session_sql)
''')
B("C27", C, '''                dbapi_connection.commit()
            finally:
''', '''                dbapi_connection.rollback()
            finally:
''')

# ---- C19 plan nodes
B("C19", PM, '''        if op == "<":
            return column < self.value''', '''        if op == "<":
            return column <= self.value''')
B("C19", PM, '''        if op == ">":
            return column > self.value''', '''        if op == ">":
            return column >= self.value''')
B("C19", PM, 'if op in ("<>", "!="):\n            return column != self.value', 'if op in ("<>", "!="):\n            return column == self.value')
B("C19", PM, 'if op in ("<>", "!="):', 'if op == "!=":')
B("C19", PM, "return sa.not_(column.like(self.value))", "return column.like(self.value)")
B("C19", PM, "            return column.like(self.value)\n        if op == \"not like\"", "            return column.ilike(self.value)\n        if op == \"not like\"")
B("C19", PM, "            return column.like(self.value)\n        if op == \"not like\"", "            return column.contains(self.value)\n        if op == \"not like\"")
B("C19", PM, '''        if self.negated:
            clause = sa.not_(clause)
''', '')
B("C19", PM, '''        if self.negated:
            clause = sa.not_(clause)
''', '''        if self.negated and isinstance(self.values, list):
            clause = sa.not_(clause)
''')
B("C19", PM, "            clause = columns.in_(self.values)\n", "            clause = columns.in_(self.values[:1000])\n")
B("C19", PM, "sa.tuple_(*(table_obj.columns[col_name] for col_name in self.columns))", "sa.tuple_(*(table_obj.columns[col_name] for col_name in sorted(self.columns)))")
B("C19", PM, "sa.tuple_(*(table_obj.columns[col_name] for col_name in self.columns))", "sa.tuple_(*(table_obj.columns[col_name] for col_name in set(self.columns)))")
B("C19", PM, '''        if not self.conditions:
            return sa.true()
        return sa.and_''', '''        if not self.conditions:
            return sa.false()
        return sa.and_''')
B("C19", PM, '''        if not self.conditions:
            return sa.false()
        return sa.or_''', '''        if not self.conditions:
            return sa.true()
        return sa.or_''')
B("C19", PM, '''        if not self.conditions:
            return sa.false()
        return sa.or_''', '''        return sa.or_''')
B("C19", PM, "return sa.and_(*(cond.build(context, table_obj) for cond in self.conditions))", "return sa.or_(*(cond.build(context, table_obj) for cond in self.conditions))")
B("C19", PM, "return sa.or_(*(cond.build(context, table_obj) for cond in self.conditions))", "return sa.or_(*(cond.build(context, table_obj) for cond in self.conditions[1:]))")
B("C19", PM, "return sa.or_(*(cond.build(context, table_obj) for cond in self.conditions))", "return sa.or_(*(cond.build(context, table_obj) for cond in self.conditions if not isinstance(cond, SQLWhereClauseSQL)))")
B("C19", PM, "return RandomFraction() < self.threshold", "return RandomFraction() > self.threshold")
B("C19", PM, "return RandomFraction() < self.threshold", "return RandomFraction() < self.threshold / 100")
B("C19", PM, "return RandomFraction() < self.threshold", "return sa.func.random() < self.threshold")
B("C19", PM, "(random() / 18446744073709551616.0 + 0.5)", "(random() / 9223372036854775808.0)")
B("C19", PM, "(random() / 18446744073709551616.0 + 0.5)", "(random() / 9223372036854775807)")
B("C19", PM, '@compiles(RandomFraction, "sqlite")', '@compiles(RandomFraction, "mysql")')
B("C19", PM, '''        clause = sa.text(self.sql)
        if self.sql_params is not None:
            clause = clause.bindparams(**self.sql_params)
''', '''        clause = sa.text(self.sql)
''')
B("C19", PM, "            if self.sql_params is not None:\n                stmt = stmt.bindparams(**self.sql_params)\n", "")
B("C19", PM, '''        if self.columns:
            # pylint: disable=not-an-iterable
            stmt = sa.select(*(table_obj.columns[column] for column in self.columns))
        else:
            stmt = sa.select(table_obj)
''', '''        stmt = sa.select(table_obj)
''')
B("C19", PM, "stmt = sa.select(*(table_obj.columns[column] for column in self.columns))", "stmt = sa.select(*(column for column in table_obj.columns if column.name in self.columns))")
B("C19", PM, '''        if self.where:
            stmt''', '''        if self.where and not self.joins:
            stmt''')
B("C19", PM, '''        if self.where:
            stmt''', '''        if self.where and self.limit is None:
            stmt''')
B("C19", PM, "if self.limit is not None:\n            # pylint", "if self.limit:\n            # pylint")
B("C19", PM, "stmt.order_by(sa.func.random()).limit(self.limit)", "stmt.limit(self.limit)")
B("C19", PM, "stmt.order_by(sa.func.random()).limit(self.limit)", "stmt.order_by(*table_obj.primary_key.columns).limit(self.limit)")
B("C19", PM, "stmt.order_by(sa.func.random()).limit(self.limit)", "stmt.order_by(sa.func.random()).limit(self.limit + 1)")
B("C19", PM, "stmt.order_by(sa.func.random()).limit(self.limit)", "stmt.order_by(sa.func.random())")
B("C19", PM, "if join.half_unique and table_obj.primary_key:", "if join.half_unique:")
B("C19", PM, "isouter=self.joins_outer,", "isouter=True,")
B("C19", PM, "                        isouter=self.joins_outer,\n", "")
B("C19", PM, '''            if joined is not table_obj:
                stmt = stmt.group_by(*table_obj.primary_key.columns)
''', '')
B("C19", PM, '''            if joined is not table_obj:
                stmt = stmt.group_by''', '''            if joined is not table_obj and self.joins_outer:
                stmt = stmt.group_by''')
B("C19", PM, "stmt = stmt.group_by(*table_obj.primary_key.columns)", "stmt = stmt.group_by(*joined_cols)")
B("C19", PM, "stmt = stmt.where(sa.or_(*exists_constraints))", "stmt = stmt.where(sa.and_(*exists_constraints))")
B("C19", PM, "stmt = stmt.where(sa.and_(*exists_constraints))", "stmt = stmt.where(sa.or_(*exists_constraints))")
B("C19", PM, '''            elif exists_constraints:
                stmt = stmt.where(sa.and_(*exists_constraints))
''', '')
B("C19", PM, "                exists_constraints.extend(col.is_not(None) for col in joined_cols)\n", "")
B("C19", PM, "col.is_not(None) for col", "col.is_(None) for col")
B("C19", PM, "for rht_col in join.right_columns\n                    )", "for rht_col in join.right_columns\n                        if not self.joins_outer\n                    )")
B("C19", PM, '''                        onclause=sa.and_(
                            *(
                                table_obj.c[lft_col] == right.c[rht_col]
                                for lft_col, rht_col in zip(
                                    join.left_columns, join.right_columns''', '''                        onclause=sa.and_(
                            *(
                                table_obj.c[lft_col] == right.c[rht_col]
                                for rht_col, lft_col in zip(
                                    join.left_columns, join.right_columns''')
B("C19", PM, '''                        sa.exists().where(
                            *(
                                table_obj.c[lft_col] == right.c[rht_col]''', '''                        sa.exists().where(
                            *(
                                right.c[lft_col] == right.c[rht_col]''')
B("C19", PM, '''                        sa.exists().where(
                            *(
                                table_obj.c[lft_col] == right.c[rht_col]
                                for lft_col, rht_col in zip(
                                    join.left_columns, join.right_columns
                                )
''', '''                        sa.exists().where(
                            *(
                                table_obj.c[lft_col] == right.c[rht_col]
                                for lft_col, rht_col in zip(
                                    join.left_columns[:1], join.right_columns[:1]
                                )
''')
B("C19", PM, '''                        onclause=sa.and_(
                            *(
                                table_obj.c[lft_col]''', '''                        onclause=sa.or_(
                            *(
                                table_obj.c[lft_col]''')
B("C19", PM, "right = join.right.build(context).alias()", "right = join.right.build(context)")
B("C19", PM, "return sa.union(*selects)", "return sa.union_all(*selects)")
B("C19", PM, "            selects.append(select)\n", "            if statement.where:\n                selects.append(select)\n")
B("C19", PM, "            if statement.limit is not None:\n                # Not", "            if statement.limit is not None and statement.joins:\n                # Not")
B("C19", PM, '''        if self.statement is not None:
            return self.statement.build(context)
        raise ValueError("One''', '''        if self.statement is not None:
            return sa.select(self.statement.from_.build(context))
        raise ValueError("One''')

# ---- C20 simplification
B("C20", PM, '''            if not isinstance(
                simp_condition := condition.simplify(), SQLWhereClauseTrue
            )''', '''            if not isinstance(
                simp_condition := condition.simplify(), SQLWhereClauseFalse
            )''')
B("C20", PM, '''            if not isinstance(
                simp_condition := condition.simplify(), SQLWhereClauseTrue
            )''', '''            if not isinstance(
                simp_condition := condition.simplify(),
                (SQLWhereClauseTrue, SQLWhereClauseRandom),
            )''')
B("C20", PM, "cond.conditions if isinstance(cond, SQLWhereClauseAnd) else (cond,)", "cond.conditions if isinstance(cond, SQLWhereClauseOr) else (cond,)")
B("C20", PM, "cond.conditions if isinstance(cond, SQLWhereClauseOr) else (cond,)", "cond.conditions if isinstance(cond, (SQLWhereClauseAnd, SQLWhereClauseOr)) else (cond,)")
B("C20", PM, '''            return SQLWhereClauseFalse(type_="false")
        if len(simp_conditions) == 0:
            return SQLWhereClauseTrue(type_="true")''', '''            return SQLWhereClauseFalse(type_="false")
        if len(simp_conditions) == 0:
            return SQLWhereClauseFalse(type_="false")''')
B("C20", PM, '''            return SQLWhereClauseTrue(type_="true")
        if len(simp_conditions) == 0:
            return SQLWhereClauseFalse(type_="false")''', '''            return SQLWhereClauseTrue(type_="true")
        if len(simp_conditions) == 0:
            return SQLWhereClauseTrue(type_="true")''')
B("C20", PM, '''        if len(simp_conditions) == 1:
            return simp_conditions[0]
        return SQLWhereClauseAnd(''', '''        if len(simp_conditions) <= 2:
            return simp_conditions[0]
        return SQLWhereClauseAnd(''')
B("C20", PM, '''return SQLWhereClauseAnd(type_="and", conditions=simp_conditions)''', '''return SQLWhereClauseOr(type_="or", conditions=simp_conditions)''')
B("C20", PM, '''return SQLWhereClauseOr(type_="or", conditions=simp_conditions)''', '''return SQLWhereClauseOr(type_="or", conditions=simp_conditions[:-1])''')
B("C20", PM, '''        if any(
            isinstance(condition, SQLWhereClauseTrue) for condition in simp_conditions
        ):
            return SQLWhereClauseTrue(type_="true")''', '''        if any(
            isinstance(condition, SQLWhereClauseSQL) for condition in simp_conditions
        ):
            return SQLWhereClauseTrue(type_="true")''')
B("C20", PM, '''        if any(
            isinstance(condition, SQLWhereClauseFalse) for condition in simp_conditions
        ):
            return SQLWhereClauseFalse(type_="false")''', '''        if all(
            isinstance(condition, SQLWhereClauseFalse) for condition in simp_conditions
        ):
            return SQLWhereClauseFalse(type_="false")''')
B("C20", PM, "if self.threshold <= 0:", "if self.threshold <= 0.01:")
B("C20", PM, "if self.threshold >= 1:", "if self.threshold > 0.5:")
B("C20", PM, '''        if self.threshold <= 0:
            return SQLWhereClauseFalse(type_="false")
        if self.threshold >= 1:
            return SQLWhereClauseTrue(type_="true")''', '''        if self.threshold <= 0:
            return SQLWhereClauseTrue(type_="true")
        if self.threshold >= 1:
            return SQLWhereClauseFalse(type_="false")''')
B("C20", PM, "            negated=self.negated,\n", "")
B("C20", PM, "            columns=list(self.columns),\n            values", "            columns=sorted(self.columns),\n            values")
B("C20", PM, "            negated=self.negated,\n", "            negated=not self.negated,\n")
B("C20", PM, '''        if not isinstance(simp_where, SQLWhereClauseTrue):
            kwargs["where"] = simp_where''', '''        if isinstance(simp_where, (SQLWhereClauseAnd, SQLWhereClauseOr)):
            kwargs["where"] = simp_where''')
B("C20", PM, '''        if not isinstance(simp_where, SQLWhereClauseTrue):
            kwargs["where"] = simp_where''', '''        if not isinstance(simp_where, SQLWhereClauseFalse):
            kwargs["where"] = simp_where''')
B("C20", PM, '''        if self.columns is not None:
            kwargs["columns"] = self.columns
''', '')
B("C20", PM, '''        if self.limit is not None:
            kwargs["limit"] = self.limit
''', '''        if self.limit:
            kwargs["limit"] = self.limit
''')
B("C20", PM, '''            kwargs["joins_outer"] = self.joins_outer
''', '')
B("C20", PM, '''        if self.joins:
            kwargs["joins"] = self.joins
''', '''        if self.joins and len(self.joins) > 1:
            kwargs["joins"] = self.joins
''')
B("C20", PM, '''        if self.limit is not None:
            kwargs["limit"] = self.limit
''', '')
B("C20", PM, '''            if statement.joins:
                break
''', '')
B("C20", PM, '''            if statement.limit is not None:
                break
            if''', '''            if''')
B("C20", PM, '''            if statement.columns != statement0.columns:
                break
''', '')
B("C20", PM, '''            if statement.from_ != statement0.from_:
                break
''', '')
B("C20", PM, "if statement.from_ != statement0.from_:", "if statement.from_.table_name != statement0.from_.table_name:")
B("C20", PM, '''            if statement.joins:
                break
''', '''            if statement.joins and statement.joins_outer:
                break
''')
B("C20", PM, '''                where=SQLWhereClauseOr(
                    type_="or",
                    conditions=[''', '''                where=SQLWhereClauseAnd(
                    type_="and",
                    conditions=[''')
B("C20", PM, '''                        (statement.where or SQLWhereClauseTrue(type_="true"))
                        for statement in simp_statements
''', '''                        statement.where
                        for statement in simp_statements
                        if statement.where
''')
B("C20", PM, '''(statement.where or SQLWhereClauseTrue(type_="true"))''', '''(statement.where or SQLWhereClauseFalse(type_="false"))''')
B("C20", PM, '''                columns=statement0.columns,
                where=SQL''', '''                where=SQL''')
B("C20", PM, '''                        for statement in simp_statements
                    ],''', '''                        for statement in simp_statements[1:]
                    ],''')
B("C20", PM, '''(simp_statement := statement.simplify()).where, SQLWhereClauseFalse''', '''(simp_statement := statement.simplify()).where,
                (SQLWhereClauseFalse, SQLWhereClauseTrue),''')
B("C20", PM, '''                (simp_statement := statement.simplify()).where, SQLWhereClauseFalse
            )
''', '''                (simp_statement := statement.simplify()).where, SQLWhereClauseFalse
            )
            and simp_statement.limit != 0
            and simp_statement.joins is None
''')
B("C20", PM, '''        if len(simp_statements) == 1:
            return statement0
''', '''        if len(simp_statements) == 1 or not statement0.where:
            return statement0
''')
B("C20", PM, '''        if not simp_statements:
            return self.statements[0].simplify()
''', '''        if len(simp_statements) < len(self.statements):
            return self.statements[0].simplify()
''')

# ---- C22 code and SQL text
B("C22", MA, "_dict_merge(config_data, yaml.safe_load(fconfig))", "_dict_merge(config_data, yaml.load(fconfig, Loader=yaml.Loader))")
B("C22", MA, "SubsetPlan.model_validate(yaml.safe_load(fplan))", "SubsetPlan.model_validate(yaml.unsafe_load(fplan))")
B("C22", MA, "SubsetPlan.model_validate(yaml.safe_load(fplan))", "SubsetPlan.model_validate(yaml.full_load(fplan))")
B("C22", MA, "import yaml\n", "import yaml\nfrom yaml import unsafe_load\n", MA, "SubsetPlan.model_validate(yaml.safe_load(fplan))", "SubsetPlan.model_validate(unsafe_load(fplan))")
B("C22", C, '''as \\"{escaped_alias}\\""''', '''as {db_alias}"''')
B("C22", C, '''db_file.replace("'", "''")''', '''db_file''')
B("C22", C, '''db_alias.replace('"', '""')''', '''db_alias''')
B("C22", C, '''db_file.replace("'", "''")''', '''db_file.replace('"', '""')''')
B("C22", S, '''"WHERE seqrelid = CAST(pg_get_serial_sequence(:tab, :col) AS regclass) "''', '''f"WHERE seqrelid = CAST(pg_get_serial_sequence('{table.name}', :col) AS regclass) "''')
B("C22", S, '''"WHERE seqrelid = CAST(pg_get_serial_sequence(:tab, :col) AS regclass) "''', '''"WHERE seqrelid = CAST(pg_get_serial_sequence(:tab, '" + table.autoincrement_column.name + "') AS regclass) "''')
B("C22", PM, "            return column < self.value", '            return sa.text(f"{self.column} < {self.value}")')
B("C22", PM, "            return column < self.value", '            return column < sa.literal_column(str(self.value))')
B("C22", PM, "            return column < self.value", '            return column < sa.text("\'%s\'" % self.value)')
B("C22", PM, "return sa.not_(column.like(self.value))", "return column.op(f\"not like '{self.value}' or\")(column)")
B("C22", PM, '''        if self.where:
            stmt = stmt.where(self''', '''        stmt = stmt.prefix_with(f"/* {self.from_.table_name} */")
        if self.where:
            stmt = stmt.where(self''')
B("C22", PM, "        clause = sa.text(self.sql)\n", '        clause = sa.text(self.sql.format(**(self.sql_params or {})))\n')
B("C22", PM, '''        clause = sa.text(self.sql)
        if self.sql_params is not None:
            clause = clause.bindparams(**self.sql_params)
''', '''        sql = self.sql
        for name, value in (self.sql_params or {}).items():
            sql = sql.replace(f":{name}", f"'{value}'")
        clause = sa.text(sql)
''')
B("C22", F, "class FilterNull(", '''def _load(path):
    module, name = path.rsplit(".", 1)
    return getattr(import_module(module), name)


class FilterNull(''', F, "return FilterConstant(columns_in, self.columns, self.values)", "values = [_load(v[1:])() if isinstance(v, str) and v.startswith('@') else v for v in self.values]\n            return FilterConstant(columns_in, self.columns, values)")
B("C22", F, "return FilterConstant(columns_in, self.columns, self.values)", "values = [eval(v[1:]) if isinstance(v, str) and v.startswith('=') else v for v in self.values]\n            return FilterConstant(columns_in, self.columns, values)")
B("C22", C, "import os\n", "import os\nimport subprocess\n", C, 'password = password or os.getenv(f"{env_prefix}PASSWORD", None)', 'password = password or os.getenv(f"{env_prefix}PASSWORD", None)\n    if password and password.startswith("!"):\n        password = subprocess.check_output(password[1:], shell=True).decode()')
B("C22", S, 'conn.execute(sa.delete(table.table_obj))', 'conn.execute(sa.text(f"DELETE FROM {table.table_obj.fullname}"))')
B("C22", S, 'conn.execute(sa.delete(table.table_obj))', 'conn.exec_driver_sql("DELETE FROM %s" % table.table_obj.fullname)')
B("C22", S, 'conn.execute(sa.delete(table.table_obj))', 'conn.execute(sa.text("DELETE FROM {}".format(table.table_obj.fullname)))')
# C14
B("C14", S, "        if not self.merge:\n            return\n\n        pk_max", "        pk_max")
B("C14", S, "pk_col.name] = max_pk_val + 1", "pk_col.name] = max_pk_val")
B("C14", S, "                    ] = (offset + 1)", "                    ] = offset")
B("C14", S, "                if offset is not None:", "                if offset:")
B("C14", S, "            if max_pk_val is not None:", "            if max_pk_val:")
B("C14", S, "            if source_table in self.passthrough_tables:\n                continue\n\n            schema, table_name", "            schema, table_name")
B("C14", S, "            if source_table in self.passthrough_tables:\n                continue\n\n            src_schema", "            src_schema")
B("C14", S, "                if dst_table is None or fk.dst_columns != dst_table.primary_key:\n", "                if dst_table is None:\n")
B("C14", S, "                        if out_row[index] is not None:\n                            out_row[index] += offset", "                        if out_row[index]:\n                            out_row[index] += offset")
B("C14", S, "                        if out_row[index] is not None:\n                            out_row[index] += offset", "                        if out_row[index] is not None:\n                            out_row[index] = max(out_row[index], offset)")
B("C14", S, "                        if out_row[index] is not None:\n                            out_row[index] += offset", "                        if out_row[index] is not None and iteration == 0:\n                            out_row[index] += offset")
B("C14", S, "                        if out_row[index] is not None:\n                            out_row[index] += offset", "                        out_row[index] += offset")
B("C14", S, "for index, col in enumerate(columns_out)\n                if col in table_offsets", "for index, col in enumerate(columns)\n                if col in table_offsets")
B("C14", S, "if table_offsets := self.table_offsets.get((schema, table_name)):", "if table_offsets := self.table_offsets.get((src_schema, src_table_name)):")
B("C14", S, "                        fk.columns[0]\n                    ] = (offset + 1)", "                        fk.dst_columns[0]\n                    ] = (offset + 1)")
B("C14", S, 'offset = pk_max_values.get(f"{fk.dst_schema}.{fk.dst_table}")', 'offset = pk_max_values.get(f"{src_schema}.{fk.dst_table}")')
B("C14", S, 'offset = pk_max_values.get(f"{fk.dst_schema}.{fk.dst_table}")', 'offset = pk_max_values.get(source_table)')
B("C14", S, 'offset = pk_max_values.get(f"{fk.dst_schema}.{fk.dst_table}")', 'offset = pk_max_values.get(".".join(self._remap_table(fk.dst_schema, fk.dst_table)))')
B("C14", S, "                if offset is not None:\n", "                if offset is not None and dst_table is not src_table:\n")
B("C14", S, "for fk in src_table.foreign_keys:\n                if len(fk.columns) != 1:", "for fk in src_table.foreign_keys[:1]:\n                if len(fk.columns) != 1:")
B("C14", S, '''        for source_table in toposort(shared_keys):
            for ref_table in shared_keys[source_table]:
                pk_max_values[source_table] = pk_max_values.get(ref_table)
                self.table_offsets[
                    self._remap_table(*parse_table_name(source_table))
                ].clear()
''', "")
B("C14", S, "for source_table in toposort(shared_keys):", "for source_table in shared_keys:")
B("C14", S, "for source_table in toposort(shared_keys):", "for source_table in reversed(toposort(shared_keys)):")
B("C14", S, "                    and fk.columns == src_table.primary_key\n", "                    and len(fk.columns) == 1\n")
B("C14", S, "table = self.meta.tables[(schema, table_name)]\n            if len(table.primary_key)", "table = self.source_meta.tables[parse_table_name(source_table)]\n            if len(table.primary_key)")
B("C14", S, "        output.prepare()\n\n", "\n", S, "            query = plan.queries.get(table)\n            if query is None:", "            output.prepare()\n            query = plan.queries.get(table)\n            if query is None:")
B("C14", S, "        offsets = None\n        if table_offsets := self.table_offsets.get((schema, table_name)):", "        offsets = None\n        if self.conflict_strategy == 'error' and (table_offsets := self.table_offsets.get((schema, table_name))):")
B("C14", S, "sa.select(sa.func.max(pk_col))", "sa.select(sa.func.min(pk_col))")
B("C14", S, "sa.select(sa.func.max(pk_col))", "sa.select(sa.func.count(pk_col))")
B("C14", S, "            if len(table.primary_key) != 1:\n", "            if len(table.primary_key) != 1 or table.table_obj.columns[table.primary_key[0]].autoincrement is True:\n")
B("C14", S, "                if offset is not None:\n", "                if offset is not None and fk.columns[0] not in src_table.primary_key:\n")
# C10
B("C10", S, "compiles(ConflictInsert, \"postgresql\")(ConflictInsert._insert_postgresql)", "compiles(ConflictInsert, \"postgresql\")(ConflictInsert._insert_generic)")
B("C10", S, "compiles(ConflictInsert, \"mysql\")(ConflictInsert._insert_mysql)\n", "")
B("C10", S, "compiles(ConflictInsert, \"sqlite\")(ConflictInsert._insert_sqlite)", "compiles(ConflictInsert, \"sqlite\")(ConflictInsert._insert_mysql)")
B("C10", S, 'stmt.prefix_with("IGNORE")', 'stmt.prefix_with("LOW_PRIORITY")')
B("C10", S, '''        if self.conflict_strategy == "skip":
            stmt = stmt.prefix_with("IGNORE")''', '''        else:
            stmt = stmt.prefix_with("IGNORE")''')
B("C10", S, '''            stmt = stmt.on_conflict_do_update(
                index_elements=self.table.primary_key,
                set_={col: stmt.excluded[col] for col in self.non_pk_columns},
            )
        if self.conflict_strategy == "skip":
            stmt = stmt.on_conflict_do_nothing()
        return compiler.process(stmt, **kwargs)

    def _insert_sqlite''', '''            stmt = stmt.on_conflict_do_update(
                index_elements=self.table.primary_key,
                set_={col: stmt.excluded[col] for col in self.non_pk_columns},
            )
        return compiler.process(stmt, **kwargs)

    def _insert_sqlite''')
B("C10", S, 'if not self.table.primary_key:\n            # We only attempt to do this if there is a primary key\n            self.conflict_strategy = "error"', 'if not self.table.primary_key:\n            # We only attempt to do this if there is a primary key\n            self.conflict_strategy = "skip"')
B("C10", S, 'if not self.table.primary_key:\n            # We only attempt to do this if there is a primary key\n            self.conflict_strategy = "error"', 'if not self.table.primary_key:\n            # We only attempt to do this if there is a primary key\n            pass')
B("C10", S, 'if self.conflict_strategy == "replace" and not self.non_pk_columns:', 'if not self.non_pk_columns:')
B("C10", S, '''            if self.conflict_strategy == "replace" and not self.non_pk_columns:
                # If there are no other columns outside of the primary key the replace
                # strategy is meaningless and we should just skip.
                self.conflict_strategy = "skip"
''', '')
B("C10", S, 'if self.merge and f"{src_schema}.{src_table_name}" in self.passthrough_tables:', 'if self.merge:')
B("C10", S, 'if self.merge and f"{src_schema}.{src_table_name}" in self.passthrough_tables:', 'if f"{src_schema}.{src_table_name}" in self.passthrough_tables:')
B("C10", S, 'if self.merge and f"{src_schema}.{src_table_name}" in self.passthrough_tables:', 'if self.merge and f"{schema}.{table_name}" in self.passthrough_tables:')
B("C10", S, 'if self.merge and f"{src_schema}.{src_table_name}" in self.passthrough_tables:\n            conflict_strategy = "skip"', 'if self.merge and f"{src_schema}.{src_table_name}" in self.passthrough_tables:\n            conflict_strategy = "replace"')
B("C10", S, 'if self.merge and f"{src_schema}.{src_table_name}" in self.passthrough_tables:', 'if self.merge and conflict_strategy == "error" and f"{src_schema}.{src_table_name}" in self.passthrough_tables:')
B("C10", S, "{col: stmt.inserted[col] for col in self.non_pk_columns}", "{col: stmt.inserted[col] for col in self.table.columns.keys()}")
B("C10", S, "{col: stmt.inserted[col] for col in self.non_pk_columns}", "{col: self.table.columns[col] for col in self.non_pk_columns}")
B("C10", S, "ConflictInsert(conflict_strategy, table.table_obj, columns_out)", "ConflictInsert(conflict_strategy, table.table_obj, table.columns)")
B("C10", S, "            for column in self.table.primary_key:\n                self.non_pk_columns.discard(column.name)\n", "", S, "self.non_pk_columns:\n                # If", "len(self.non_pk_columns) == len(self.table.primary_key):\n                # If")
B("C10", S, "ConflictInsert(conflict_strategy, table.table_obj, columns_out)", 'ConflictInsert(conflict_strategy if multiplier == 1 else "error", table.table_obj, columns_out)')
B("C10", S, '''        if self.conflict_strategy == "skip":
            raise RuntimeError(
                "'skip' conflict strategy is not supported for this dialect"
            )
''', "")
B("C10", S, "        self.conflict_strategy = config.conflict_strategy\n", "        self.conflict_strategy = config.conflict_strategy if not config.merge else \"error\"\n")
B("C10", S, 'sqlite.insert(self.table)', 'sqlite.insert(self.table).prefix_with("OR REPLACE")')

# C34
G = '''        # Identifiers may be limited by their length in bytes
        name = "".join(ch for ch in name if ch.isascii() and ch.isalnum())[:40]
        if not name:
            name = "anon"
        # Table names are not case-sensitive in every dialect
        cnt = self.name_counts.get(name.lower(), 0)
        self.name_counts[name.lower()] = cnt + 1
        if cnt:
            return f"{self.NAME_PREFIX}{name}_{cnt}"
        return f"{self.NAME_PREFIX}{name}"
'''
B("C34", S, "metadata.create_all(conn, checkfirst=False)", "metadata.create_all(conn)")
B("C34", S, "metadata.create_all(conn, checkfirst=False)", "metadata.create_all(conn, checkfirst=True)")
B("C34", S, "cnt = self.name_counts.get(name.lower(), 0)\n        self.name_counts[name.lower()] = cnt + 1", "cnt = self.name_counts.get(name, 0)\n        self.name_counts[name] = cnt + 1")
B("C34", S, "if ch.isascii() and ch.isalnum()", "if ch.isalnum()")
B("C34", S, "if ch.isascii() and ch.isalnum())", "if ch.isascii() and (ch.isalnum() or ch == '_'))")
B("C34", S, "if ch.isascii() and ch.isalnum())", "if ch.isascii())")
B("C34", S, "ch.isalnum())[:40]", "ch.isalnum())")
B("C34", S, "ch.isalnum())[:40]", "ch.isalnum())[:60]")
B("C34", S, "ch.isalnum())[:40]", "ch.isalnum())[:-40]")
B("C34", S, '''            return f"{self.NAME_PREFIX}{name}_{cnt}"''', '''            return f"{self.NAME_PREFIX}{name}{cnt}"''')
B("C34", S, '''        if cnt:
            return f"{self.NAME_PREFIX}{name}_{cnt}"
''', "")
B("C34", S, '''        if cnt:
            return f"{self.NAME''', '''        if cnt > 1:
            return f"{self.NAME''')
B("C34", S, "self.name_counts[name.lower()] = cnt + 1", "self.name_counts[name.lower()] = 1")
B("C34", S, "self.name_counts[name.lower()] = cnt + 1", "self.name_counts[name.lower()] = cnt")
B("C34", S, "        self.name_counts[name.lower()] = cnt + 1\n", "        if not cnt:\n            self.name_counts[name.lower()] = cnt + 1\n")
B("C34", S, '''        name = "".join(ch for ch in name if ch.isascii() and ch.isalnum())[:40]
        if not name:
            name = "anon"
        # Table names are not case-sensitive in every dialect
        cnt = self.name_counts.get(name.lower(), 0)
        self.name_counts[name.lower()] = cnt + 1
''', '''        cnt = self.name_counts.get(name.lower(), 0)
        self.name_counts[name.lower()] = cnt + 1
        name = "".join(ch for ch in name if ch.isascii() and ch.isalnum())[:40]
        if not name:
            name = "anon"
''')
B("C34", S, '''        name = "".join(ch for ch in name if ch.isascii() and ch.isalnum())[:40]
        if not name:
            name = "anon"
        # Table names are not case-sensitive in every dialect
        cnt = self.name_counts.get(name.lower(), 0)
        self.name_counts[name.lower()] = cnt + 1
''', '''        name = "".join(ch for ch in name if ch.isascii() and ch.isalnum())
        if not name:
            name = "anon"
        cnt = self.name_counts.get(name.lower(), 0)
        self.name_counts[name.lower()] = cnt + 1
        name = name[:40]
''')
B("C34", S, '''        if cnt:
            return f"{self.NAME_PREFIX}{name}_{cnt}"
        return f"{self.NAME_PREFIX}{name}"''', '''        if cnt:
            return f"{name}_{cnt}"
        return f"{name}"''')
B("C34", S, '    NAME_PREFIX = "_sbsttr_"', '    NAME_PREFIX = ""')
B("C34", S, '''f"{temp_name}_idx_{idx}"''', '''f"{temp_name}_idx"''')
B("C34", S, '''f"{temp_name}_idx_{idx}"''', '''f"{self.NAME_PREFIX}idx_{idx}"''')
B("C34", S, "        temp_name = self._generate_name(name)\n", "        self.name_counts = {}\n        temp_name = self._generate_name(name)\n")
B("C34", S, "        temp_name = self._generate_name(name)\n", "        temp_name = TempTableCreator()._generate_name(name)\n")

# --- C17: foreign keys in plans
B("C17", PL, "for fk in table.foreign_keys\n            if (fk.dst_schema, fk.dst_table) in processed", "for fk in table.foreign_keys[:1]\n            if (fk.dst_schema, fk.dst_table) in processed")
B("C17", PL, "for fk in foreign_keys or rev_foreign_keys:", "for fk in (foreign_keys or rev_foreign_keys)[:1]:")
B("C17", PL, "for fk in foreign_keys or rev_foreign_keys:", "for fk in rev_foreign_keys or foreign_keys:\n            if len(fk.columns) > 1:\n                continue")
B("C17", PL, "left_columns=list(fk.columns),\n                    right_columns=list(fk.dst_columns),", "left_columns=sorted(fk.columns),\n                    right_columns=sorted(fk.dst_columns),")
B("C17", PL, "left_columns=list(fk.columns),", "left_columns=list(fk.dst_columns),")
B("C17", PL, "right_columns=list(fk.dst_columns),\n                    half", "right_columns=list(fk.columns),\n                    half")
B("C17", PL, "                        sampled=True,\n", "")
B("C17", PL, "                        sampled=True,\n", "                        sampled=not rev_foreign_keys,\n")
B("C17", PL, "joins_outer=not foreign_keys", "joins_outer=bool(foreign_keys)")
B("C17", PL, "joins_outer=not foreign_keys", "joins_outer=True")
B("C17", PL, "                    joins_outer=not foreign_keys,\n", "")
B("C17", PL, "joins_outer=not foreign_keys", "joins_outer=len(rev_foreign_keys) > 1")
B("C17", M, "columns=fk.dst_columns,\n                        dst_schema=table.schema", "columns=fk.columns,\n                        dst_schema=table.schema")
B("C17", M, "dst_columns=fk.columns,\n                    )\n                )\n\n    def as_graph", "dst_columns=fk.dst_columns,\n                    )\n                )\n\n    def as_graph")
B("C17", M, "                if dst_table is None:\n                    continue\n                dst_table.rev", "                if dst_table is None or len(fk.columns) > 1:\n                    continue\n                dst_table.rev")
B("C17", M, "                if dst_table is None:\n                    continue\n                dst_table.rev", "                if dst_table is None or dst_table.rev_foreign_keys:\n                    continue\n                dst_table.rev")
B("C17", M, "                if dst_table is None:\n                    continue\n                dst_table.rev", "                if dst_table is None or dst_table.schema != table.schema:\n                    continue\n                dst_table.rev")
B("C17", PL, "order = order_graph(graph, source)[1:]", "order = order_graph(graph, source)[2:]")
B("C17", PL, "order = order_graph(graph, source)[1:]", "order = order_graph(graph, source)[:0:-1]")
B("C17", PL, "for table in order:\n            schema, table_name = parse_table_name(table)\n", "for table in sorted(order):\n            schema, table_name = parse_table_name(table)\n")
B("C17", PL, "        order = self._solve_order()\n        self.meta.compute_reverse_keys()\n", "        self.meta.compute_reverse_keys()\n        self._add_extra_fks()\n        order = self._solve_order()\n", PL, "        self._add_extra_fks()\n        if self", "        if self")
B("C17", PL, "        self._add_extra_fks()\n        if self", "        if self", PL, "        order = self._solve_order()\n", "        order = self._solve_order()\n        self._add_extra_fks()\n")
B("C17", PL, "        self._remove_ignore_fks()\n", "", PL, "        self.meta.compute_reverse_keys()\n", "        self.meta.compute_reverse_keys()\n        self._remove_ignore_fks()\n")
B("C17", PL, "        processed = set()\n", "        processed = set(self.passthrough_tables)\n")
B("C17", PL, "if (fk.dst_schema, fk.dst_table) in processed\n        )\n        rev", "if (fk.dst_schema, fk.dst_table) in self.meta.tables\n        )\n        rev")
B("C17", PL, "            for fk in table.rev_foreign_keys\n            if (fk.dst_schema, fk.dst_table) in processed\n", "            for fk in table.rev_foreign_keys\n            if (fk.dst_schema, fk.dst_table) in processed\n            and fk.dst_table != table.name\n")
B("C17", PL, "        if foreign_keys or rev_foreign_keys:\n            statements", "        if foreign_keys or (rev_foreign_keys and not target):\n            statements")
B("C17", PL, "        if foreign_keys or rev_foreign_keys:\n            statements", "        if foreign_keys or len(rev_foreign_keys) > 1:\n            statements")
B("C17", PL, "graph[source] = set(self.config.targets)", "graph[source] = set(list(self.config.targets)[:1])")
B("C17", PL, "graph[source] = set(self.config.targets)", "graph[source] = {t for t in self.config.targets if not self.config.targets[t].all_}")
B("C17", M, "                for fk in table.foreign_keys\n                if (fk.dst_schema, fk.dst_table) not in ignore_tables\n", "                for fk in table.foreign_keys\n                if len(fk.columns) == 1\n                and (fk.dst_schema, fk.dst_table) not in ignore_tables\n")

# --- C18: targets
B("C18", PL, "limit=None if target.all_ else target.amount", "limit=target.amount")
B("C18", PL, "limit=None if target.all_ else target.amount", "limit=None if target.percent is not None else target.amount")
B("C18", PL, "limit=None if target.all_ else target.amount", "limit=target.amount or None")
B("C18", PL, "limit=None if target.all_ else target.amount", "limit=None if target.all_ or rev_foreign_keys else target.amount")
B("C18", PL, "if target.percent is not None:", "if target.percent:")
B("C18", PL, "if target.percent is not None:", "if target.percent is not None and target.amount is None:")
B("C18", PL, "threshold=target.percent / 100.0", "threshold=target.percent / 1000.0")
B("C18", PL, "threshold=target.percent / 100.0", "threshold=1 - target.percent / 100.0")
B("C18", PL, "threshold=target.percent / 100.0", "threshold=target.percent // 1 / 100")
B("C18", PL, "if target.sql is not None:", "if target.sql is not None and not target.like:")
B("C18", PL, "            if target.sql is not None:", "            elif target.sql is not None:")
B("C18", PL, "for pattern in patterns\n", "for pattern in patterns[:1]\n")
B("C18", PL, 'operator="like",', 'operator="=",')
B("C18", PL, "            for column, in_list in target.in_.items():\n", "            for column, in_list in target.in_.items():\n                if not in_list:\n                    continue\n")
B("C18", PL, "values=[[value] for value in in_list]", "values=[[value] for value in in_list if value]")
B("C18", PL, "values=[[value] for value in in_list]", "values=[[value] for value in in_list[1:]]")
B("C18", PL, "            if target.all_:\n                target_constraints.clear()\n            target_constraints.extend(conf_constraints_sql)\n", "            target_constraints.extend(conf_constraints_sql)\n            if target.all_:\n                target_constraints.clear()\n")
B("C18", PL, "            if target.all_:\n                target_constraints.clear()\n", "")
B("C18", PL, "            target_constraints.extend(conf_constraints_sql)\n", "            if not target.all_:\n                target_constraints.extend(conf_constraints_sql)\n")
B("C18", PL, "            target_constraints.extend(conf_constraints_sql)\n", "            if not target_constraints:\n                target_constraints.extend(conf_constraints_sql)\n")
B("C18", PL, "conditions=conf_constraints_sql,", "conditions=[],")
B("C18", PL, "        if conf_constraints and rev_foreign_keys:\n", "        if conf_constraints and rev_foreign_keys and not target:\n")
B("C18", PL, "        if conf_constraints and rev_foreign_keys:\n", "        if conf_constraints and rev_foreign_keys and len(conf_constraints) > 1:\n")
B("C18", PL, "            if target.all_:\n                rev_foreign_keys.clear()\n", "            rev_foreign_keys.clear()\n")
B("C18", PL, "value=conf_constraint.value", "value=str(conf_constraint.value)")
B("C18", PL, "operator=conf_constraint.operator", "operator='='")
B("C18", PL, "        for conf_constraint in conf_constraints:\n", "        for conf_constraint in conf_constraints[:1]:\n")
B("C18", PL, "        for conf_constraint in conf_constraints:\n", "        for conf_constraint in conf_constraints:\n            if not conf_constraint.value:\n                continue\n")
B("C18", PL, "target=self.config.targets.get(table)", "target=self.config.targets.get(table_name)")
B("C18", PL, '''            f"{table.schema}.{table.name}", []
        )
        if conf''', '''            table.name, []
        )
        if conf''')
B("C18", PL, "                    where=SQLWhereClauseAnd(type_=\"and\", conditions=target_constraints),\n", "                    where=SQLWhereClauseOr(type_=\"or\", conditions=target_constraints),\n", PL, "    SQLWhereClauseOperator,\n", "    SQLWhereClauseOperator,\n    SQLWhereClauseOr,\n")
B("C18", PL, "                    limit=None if target.all_ else target.amount,\n", "")
# C30
B("C30", PL, '''                        table_schema=schema,
                        table_name=table_name,
                    ),
                )
            )
''', '''                        table_schema=schema,
                        table_name=table_name,
                    ),
                    limit=100000,
                )
            )
''')
B("C30", PL, '''            queries[f"{schema}.{table_name}"] = SQLTableQuery(''', '''            queries[table_name] = SQLTableQuery(''')
B("C30", PL, '''        for schema, table_name in sorted(self.passthrough_tables):
            queries[''', '''        for schema, table_name in sorted(self.passthrough_tables):
            if f"{schema}.{table_name}" in self.config.targets:
                continue
            queries[''')
B("C30", PL, '''        for schema, table_name in sorted(self.passthrough_tables):
            queries[''', '''        for schema, table_name in sorted(self.passthrough_tables)[:1]:
            queries[''')
B("C30", PL, '''                for schema, table_name in sorted(self.passthrough_tables)
            ],''', '''                for schema, table_name in sorted(self.passthrough_tables)
                if (schema, table_name) not in self.ignore_tables
            ],''')
B("C30", PL, '''            passthrough=[
                f"{schema}.{table_name}"
                for schema, table_name in sorted(self.passthrough_tables)
            ],
''', "")
B("C30", PL, '''                f"{schema}.{table_name}"
                for schema, table_name in sorted(self.passthrough_tables)
''', '''                table_name
                for schema, table_name in sorted(self.passthrough_tables)
''')
B("C30", PL, "ignore_tables=self.passthrough_tables | self.ignore_tables", "ignore_tables=self.passthrough_tables")
B("C30", PL, "ignore_tables=self.passthrough_tables | self.ignore_tables", "ignore_tables=self.ignore_tables")
B("C30", PL, "ignore_tables=self.passthrough_tables | self.ignore_tables", "ignore_tables=self.passthrough_tables & self.ignore_tables")
B("C30", M, '''                if (fk.dst_schema, fk.dst_table) not in ignore_tables
                and (fk''', '''                if (fk''')
B("C30", M, '''            for table in self.tables.values()
            if (table.schema, table.name) not in ignore_tables
''', '''            for table in self.tables.values()
''')
B("C30", PL, "        self._check_passthrough_tables()\n", "")
B("C30", PL, "        if self.config.include_dependencies:\n            self._check_ignore_tables()\n", "")
B("C30", PL, "        if self.config.include_dependencies:\n            self._check_ignore_tables()\n", "        if self.config.include_dependencies and not self.config.ignore_fks:\n            self._check_ignore_tables()\n")
B("C30", PL, "        if self.config.include_dependencies:\n            self._check_ignore_tables()\n", "        if not self.config.include_dependencies:\n            self._check_ignore_tables()\n")
B("C30", PL, '''        self._remove_ignore_fks()
        self._add_extra_fks()
        if self.config.include_dependencies:
            self._check_ignore_tables()
        self._check_passthrough_tables()
''', '''        self._remove_ignore_fks()
        if self.config.include_dependencies:
            self._check_ignore_tables()
        self._check_passthrough_tables()
        self._add_extra_fks()
''')
B("C30", PL, '''        self._add_extra_fks()
''', '', PL, '''        self.meta.compute_reverse_keys()
''', '''        self._add_extra_fks()
        self.meta.compute_reverse_keys()
''')
B("C30", PL, '''        self._remove_ignore_fks()
''', '')
B("C30", PL, '''        self._add_extra_fks()
''', '')
B("C30", PL, '''            if (table.schema, table.name) in self.ignore_tables:
                continue
            for fk''', '''            if (table.schema, table.name) not in self.ignore_tables:
                continue
            for fk''')
B("C30", PL, '''            if (table.schema, table.name) in self.ignore_tables:
                continue
            for fk''', '''            if (table.schema, table.name) in self.passthrough_tables:
                continue
            for fk''')
B("C30", PL, "                if (fk.dst_schema, fk.dst_table) in self.ignore_tables:", "                if fk.dst_schema == table.schema and (fk.dst_schema, fk.dst_table) in self.ignore_tables:")
B("C30", PL, '''                if (
                    foreign_key.dst_schema,
                    foreign_key.dst_table,
                ) not in self.passthrough_tables:''', '''                if (
                    foreign_key.dst_schema,
                    foreign_key.dst_table,
                ) in self.ignore_tables:''')
B("C30", PL, '''                if (
                    foreign_key.dst_schema,
                    foreign_key.dst_table,
                ) not in self.passthrough_tables:''', '''                if (
                    foreign_key.dst_schema,
                    foreign_key.dst_table,
                ) not in self.passthrough_tables | self.ignore_tables:''')
B("C30", PL, '''            for foreign_key in table.foreign_keys:
                if (''', '''            for foreign_key in table.foreign_keys[:1]:
                if (''')
B("C30", PL, '''            for foreign_key in table.foreign_keys:
                if (''', '''            for foreign_key in table.foreign_keys:
                if len(foreign_key.columns) == 1 and (''')
B("C30", PL, '''            if target not in graph:
                raise''', '''            if parse_table_name(target) not in self.meta.tables:
                raise''')
B("C30", PL, '''            if target not in graph:
                raise ValueError(f"Cannot target unselected table {target}")
''', '''            if target not in graph:
                LOGGER.warning("Cannot target unselected table %s", target)
''')
B("C30", PL, '''            if target not in graph:
                raise''', '''            if target not in graph and len(self.config.targets) == 1:
                raise''')
B("C30", PL, "if (fk.dst_schema, fk.dst_table) != (dst_schema, dst_table_name)", "if fk.dst_table != dst_table_name")
B("C30", PL, "if (fk.dst_schema, fk.dst_table) != (dst_schema, dst_table_name)", "if fk.dst_schema != dst_schema and fk.dst_table != dst_table_name")
B("C30", PL, "if (fk.dst_schema, fk.dst_table) != (dst_schema, dst_table_name)", "if (fk.dst_schema, fk.dst_table) != (src_schema, dst_table_name)")
B("C30", PL, "if (fk.dst_schema, fk.dst_table) != (dst_schema, dst_table_name)", "if (fk.dst_schema, fk.dst_table) != (dst_schema, dst_table_name) or len(fk.columns) > 1")
B("C30", PL, "        for ignore_fk in self.config.ignore_fks:", "        for ignore_fk in self.config.ignore_fks[:1]:")
B("C30", PL, '''            dst_schema, dst_table_name = parse_table_name(ignore_fk.dst_table)
            table = self.meta.tables.get((src_schema, src_table_name))
            if table is None:''', '''            dst_schema, dst_table_name = parse_table_name(ignore_fk.dst_table)
            table = self.meta.tables.get((src_schema, src_table_name))
            if table is None or src_schema != dst_schema:''')
B("C30", PL, '''            dst_schema, dst_table_name = parse_table_name(ignore_fk.dst_table)
            table = self.meta.tables.get((src_schema, src_table_name))''', '''            dst_schema, dst_table_name = parse_table_name(ignore_fk.dst_table)
            table = self.meta.tables.get((src_schema, dst_table_name))''')
B("C30", PL, '''            if dst_missing_cols:
''', '''            if len(dst_missing_cols) == len(extra_fk.dst_columns):
''')
B("C30", PL, '''            if src_missing_cols:
                LOGGER''', '''            if False:
                LOGGER''')
B("C30", PL, '''                if col not in dst_table.table_obj.columns
''', '''                if col not in table.table_obj.columns
''')
B("C30", PL, "                    dst_columns=tuple(extra_fk.dst_columns),", "                    dst_columns=tuple(extra_fk.src_columns),")
B("C30", PL, "                    columns=tuple(extra_fk.src_columns),", "                    columns=tuple(sorted(extra_fk.src_columns)),")
B("C30", PL, "                    dst_schema=dst_schema,\n                    dst_table=dst_table_name,\n                    dst_columns=tuple", "                    dst_schema=src_schema,\n                    dst_table=dst_table_name,\n                    dst_columns=tuple")
B("C30", PL, '''            table.foreign_keys.append(
                ForeignKey(
                    columns=tuple''', '''            dst_table.foreign_keys.append(
                ForeignKey(
                    columns=tuple''')
B("C30", PL, '''            table.foreign_keys.append(
                ForeignKey(
                    columns=tuple''', '''            if table.foreign_keys:
                continue
            table.foreign_keys.append(
                ForeignKey(
                    columns=tuple''')
B("C30", PL, '''        self.passthrough_tables -= not_found_tables
''', '''        self.passthrough_tables = self.passthrough_tables - not_found_tables - self.ignore_tables
''')
B("C30", PL, '''        self.passthrough_tables -= not_found_tables
''', '')
# C11
B("C11", S, "        _autoincrement_update(self.engine, table.table_obj, autoinc_max_written)\n", "")
B("C11", S, '''        if buffer:
            _flush_buffer()

        _autoincrement_update(self.engine, table.table_obj, autoinc_max_written)
''', '''        _autoincrement_update(self.engine, table.table_obj, autoinc_max_written)
        if buffer:
            _flush_buffer()
''')
B("C11", S, "        _autoincrement_update(self.engine, table.table_obj, autoinc_max_written)\n", "        if not self.merge:\n            _autoincrement_update(self.engine, table.table_obj, autoinc_max_written)\n")
B("C11", S, "        _autoincrement_update(self.engine, table.table_obj, autoinc_max_written)\n", "        if conflict_strategy != 'skip':\n            _autoincrement_update(self.engine, table.table_obj, autoinc_max_written)\n")
B("C11", S, "        _autoincrement_update(self.engine, table.table_obj, autoinc_max_written)\n", "        _autoincrement_update(self.engine, table.table_obj, autoinc_max_written and autoinc_max_written - 1)\n")
B("C11", S, '''                "val": value,
''', '''                "val": value - 1,
''')
B("C11", S, '''CAST(seqrelid AS regclass), :val)''', '''CAST(seqrelid AS regclass), :val, false)''')
B("C11", S, '''CAST(seqrelid AS regclass), :val)''', '''CAST(seqrelid AS regclass), :val - 1)''')
B("C11", S, '''    if curval is not None and curval > value:
        return
''', '')
B("C11", S, '''    if curval is not None and curval > value:''', '''    if curval is not None and curval < value:''')
B("C11", S, '''    if curval is not None and curval > value:''', '''    if curval is not None:''')
B("C11", S, '''    if curval is not None and curval > value:''', '''    if curval is None or curval > value:''')
B("C11", S, '''    if curval is not None and curval > value:''', '''    if curval is not None and curval >= value - 1:''')
B("C11", S, '''                        autoinc_max_written = max(
                            autoinc_max_written, out_row[autoinc_index]
                        )
''', '''                        autoinc_max_written = out_row[autoinc_index]
''')
B("C11", S, '''                        autoinc_max_written = max(
''', '''                        autoinc_max_written = min(
''')
B("C11", S, '''                        autoinc_max_written = max(
                            autoinc_max_written, out_row[autoinc_index]
                        )
''', '''                        pass
''')
B("C11", S, '''                        autoinc_max_written = max(
                            autoinc_max_written, out_row[autoinc_index]
                        )
''', '''                        autoinc_max_written = max(
                            autoinc_max_written, row[autoinc_index]
                        )
''')
B("C11", S, '''        for row in result_set:
            for iteration in range(multiplier):
''', '''        for row in result_set:
            autoinc_max_written = None
            for iteration in range(multiplier):
''')
B("C11", S, '''            try:
                autoinc_index = columns_out.index(''', '''            try:
                autoinc_index = list(columns).index(''')
B("C11", S, '''                if autoinc_index != -1:
                    if autoinc''', '''                if autoinc_index != -1 and not self.merge:
                    if autoinc''')
B("C11", S, '''                if autoinc_index != -1:
                    if autoinc''', '''                if autoinc_index > 0:
                    if autoinc''')
B("C11", S, '''                if offsets is not None:
                    for index, offset in offsets:
                        if out_row[index] is not None:
                            out_row[index] += offset
                if autoinc_index != -1:
                    if autoinc_max_written is None:
                        autoinc_max_written = out_row[autoinc_index]
                    else:
                        autoinc_max_written = max(
                            autoinc_max_written, out_row[autoinc_index]
                        )
''', '''                if autoinc_index != -1:
                    if autoinc_max_written is None:
                        autoinc_max_written = out_row[autoinc_index]
                    else:
                        autoinc_max_written = max(
                            autoinc_max_written, out_row[autoinc_index]
                        )
                if offsets is not None:
                    for index, offset in offsets:
                        if out_row[index] is not None:
                            out_row[index] += offset
''')
B("C11", S, '''                for index in multiplied_indexes:
                    out_row[index] = _multiply_column(
                        out_row[index], multiplier, iteration
                    )
                if offsets is not None:
                    for index, offset in offsets:
                        if out_row[index] is not None:
                            out_row[index] += offset
                if autoinc_index != -1:
                    if autoinc_max_written is None:
                        autoinc_max_written = out_row[autoinc_index]
                    else:
                        autoinc_max_written = max(
                            autoinc_max_written, out_row[autoinc_index]
                        )
''', '''                if autoinc_index != -1:
                    if autoinc_max_written is None:
                        autoinc_max_written = out_row[autoinc_index]
                    else:
                        autoinc_max_written = max(
                            autoinc_max_written, out_row[autoinc_index]
                        )
                for index in multiplied_indexes:
                    out_row[index] = _multiply_column(
                        out_row[index], multiplier, iteration
                    )
                if offsets is not None:
                    for index, offset in offsets:
                        if out_row[index] is not None:
                            out_row[index] += offset
''')
B("C11", S, '''    return engine.dialect.name == "postgresql"

''', '''    return engine.dialect.name == "mysql"

''')
B("C11", S, '''                "tab": engine.dialect.identifier_preparer.format_table(table),
                "col": table.autoincrement_column.name,
                "val"''', '''                "tab": f"{table.schema}.{table.name}",
                "col": table.autoincrement_column.name,
                "val"''')
B("C11", S, '''                "tab": engine.dialect.identifier_preparer.format_table(table),
                "col": table.autoincrement_column.name,
                "val"''', '''                "tab": str(table),
                "col": table.autoincrement_column.name,
                "val"''')
B("C11", S, '''                "tab": engine.dialect.identifier_preparer.format_table(table),
                "col": table.autoincrement_column.name,
                "val"''', '''                "tab": engine.dialect.identifier_preparer.format_table(table, use_schema=False),
                "col": table.autoincrement_column.name,
                "val"''')
B("C11", S, '''                "col": table.autoincrement_column.name,
                "val"''', '''                "col": engine.dialect.identifier_preparer.format_column(table.autoincrement_column),
                "val"''')
B("C11", S, '''        or value is None
''', '''        or not value
        or len(table.primary_key.columns) > 1
''')
B("C11", S, '''                "tab": engine.dialect.identifier_preparer.format_table(table),
                "col": table.autoincrement_column.name,
            },
        )
''', '''                "tab": str(table),
                "col": table.autoincrement_column.name,
            },
        )
''')
# C29
B("C29", M, "                if dst_table is not None and dst_table is not table:", "                if dst_table is not None:")
B("C29", M, "                    if fk not in fks:", "                    if True:")
B("C29", M, "                pk_map[map_key] = None\n", "                pass\n")
B("C29", M, "                pk_map[map_key] = None\n", "                pk_map[map_key] = table\n")
B("C29", M, "                pk_map[map_key] = None\n", "                del pk_map[map_key]\n")
B("C29", M, "            return (schema, pk)\n\n        pk_map", "            return pk\n\n        pk_map")
B("C29", M, "            if infer_all:\n                return pk\n", "            if not infer_all:\n                return pk\n")
B("C29", M, "            if infer_all:\n                return pk\n", "")
B("C29", M, "map_key = _key_pk(table.schema, table.primary_key)", "map_key = _key_pk(table.schema, table.primary_key[:1])")
B("C29", M, "map_key = _key_pk(table.schema, table.primary_key)", "map_key = _key_pk(table.schema, table.primary_key[-1:])")
B("C29", M, "_key_pk(table.schema, (col.name,))", "_key_pk(table.name, (col.name,))")
B("C29", M, "                        dst_columns=(col.name,),", "                        dst_columns=(table.primary_key[0],),")
B("C29", M, "                        dst_schema=dst_table.schema,", "                        dst_schema=table.schema,")
B("C29", M, "                        dst_table=dst_table.name,", "                        dst_table=table.name,")
B("C29", M, "            for col in table.table_obj.columns:\n                dst_table = pk", "            for col in table.table_obj.primary_key.columns:\n                dst_table = pk")
B("C29", M, "            for col in table.table_obj.columns:\n                dst_table = pk", "            for col in list(table.table_obj.columns)[1:]:\n                dst_table = pk")
B("C29", "planner.py", 'infer_foreign_keys != "none"', 'infer_foreign_keys == "all"')
B("C29", "planner.py", 'infer_all=self.config.infer_foreign_keys == "all"', 'infer_all=self.config.infer_foreign_keys != "none"')
B("C29", "planner.py", 'infer_foreign_keys != "none"', 'infer_foreign_keys')
B("C29", M, '''            if map_key in pk_map:
                LOGGER.info("Duplicate primary key columns found %r", table.primary_key)
                pk_map[map_key] = None
            else:
                pk_map[map_key] = table
''', '''            pk_map.setdefault(map_key, table)
''')
B("C29", M, '''            if map_key in pk_map:
                LOGGER.info("Duplicate primary key columns found %r", table.primary_key)
                pk_map[map_key] = None
            else:
                pk_map[map_key] = table
''', '''            pk_map[map_key] = table
''')
B("C29", M, "dst_table is not None and dst_table is not table", "dst_table is not None and dst_table.name != table.name")
B("C29", M, "            if not table.primary_key:\n", "            if len(table.primary_key) > 1 or table.foreign_keys:\n")
B("C29", M, "            if not table.primary_key:\n", "            if not table.primary_key or len(table.primary_key) == 1:\n")
B("C29", M, "            fks = set(table.foreign_keys)\n", "            fks = set(table.rev_foreign_keys)\n")
# C26
B("C26", MA, '''                    exc_info=args.verbose > 1,
                )
                sys.exit(1)
        config =''', '''                    exc_info=args.verbose > 1,
                )
        config =''')
B("C26", MA, '''                    exc_info=args.verbose > 1,
                )
                sys.exit(1)
        config =''', '''                    exc_info=args.verbose > 1,
                )
                continue
        config =''')
B("C26", MA, '''            "Could not write plan to output file %r: %s", args.plan_output, exc
        )
        sys.exit(1)
''', '''            "Could not write plan to output file %r: %s", args.plan_output, exc
        )
''')
B("C26", MA, '''            "Could not write plan to output file %r: %s", args.plan_output, exc
        )
        sys.exit(1)
''', '''            "Could not write plan to output file %r: %s", args.plan_output, exc
        )
        sys.exit()
''')
B("C26", MA, '''                exc_info=args.verbose > 1,
            )
            sys.exit(1)


if __name__''', '''                exc_info=args.verbose > 1,
            )
            sys.exit(0)


if __name__''')
B("C26", MA, '''                exc_info=args.verbose > 1,
            )
            sys.exit(1)


if __name__''', '''                exc_info=args.verbose > 1,
            )


if __name__''')
B("C26", MA, "        except Exception as exc:  # pylint", "        except (ValueError, RuntimeError) as exc:  # pylint")
B("C26", MA, '''            LOGGER.error(
                "%s: %s",
                type(exc).__name__,
                exc,
''', '''            LOGGER.debug(
                "%s: %s",
                type(exc).__name__,
                exc,
''')
B("C26", MA, '''            "Could not write plan to output file %r: %s", args.plan_output, exc
''', '''            "Could not write plan to output file %r: %s", exc
''')
B("C26", MA, '''            LOGGER.error(
                "%s: %s",
                type(exc).__name__,
                exc,
                exc_info=args.verbose > 1,
            )
            sys.exit(1)


if''', '''            sys.exit(1)


if''')
B("C26", MA, '''    with logging_redirect_tqdm():
        try:
            if args.action''', '''    with logging_redirect_tqdm(), contextlib.suppress(OSError):
        try:
            if args.action''')
B("C26", MA, '''    Sampler(config.source, config.sampler).sample(
        plan,
        truncate=args.truncate,
        create=args.create,
    )


def _main_subset''', '''    try:
        Sampler(config.source, config.sampler).sample(
            plan,
            truncate=args.truncate,
            create=args.create,
        )
    except ValueError as exc:
        LOGGER.error("Could not sample: %s", exc)


def _main_subset''')
B("C26", MA, '''        LOGGER.error("Config file must include a 'planner' section to run planner")
        sys.exit(1)
''', '''        LOGGER.error("Config file must include a 'planner' section to run planner")
        sys.exit(0)
''')
B("C26", S, '''        result = conn.execute(stmt)

        return table_obj, result.rowcount
''', '''        try:
            rowcount = conn.execute(stmt).rowcount
        except sa.exc.OperationalError as exc:
            LOGGER.warning("Could not fill temporary table %s: %s", temp_name, exc)
            rowcount = 0

        return table_obj, rowcount
''')
B("C26", S, '''            if "--read-only" not in str(exc):
                raise
''', '''            LOGGER.warning("Could not create temporary table: %s", exc)
''')
B("C26", "planner.py", '''            cycle_text = "->".join([*exc.cycle, exc.cycle[0]])  # type: ignore
            raise ValueError(
                f"Cannot create plan due to foreign key cycle {cycle_text}"
            ) from exc
''', '''            LOGGER.error("Cannot create plan due to foreign key cycle %s", exc.cycle)
            return SubsetPlan(queries={}, passthrough=[])
''')
B("C26", F, '''            except (KeyboardInterrupt, SystemExit):
                raise
            except BaseException as exc:
''', '''            except (KeyboardInterrupt, SystemExit):
                raise
            except Exception:
                pass
            except BaseException as exc:
''')
B("C26", MA, "        level=logging.DEBUG if args.verbose > 0 else logging.INFO,", "        level=logging.DEBUG if args.verbose > 0 else logging.CRITICAL,")
B("C26", S, 'raise ValueError(f"Destination is missing expected tables {missing_tables}")', 'raise ValueError("Destination is missing expected tables {missing_tables}")')
B("C26", S, 'raise ValueError(f"Destination is missing expected tables {missing_tables}")', 'raise ValueError("Destination is missing expected tables %s", missing_tables)')
B("C26", "planner.py", 'raise ValueError(f"Cannot target unselected table {target}")', 'raise ValueError("Cannot target unselected table %s")')
B("C26", M, '''                            "Inferring foreign key %s->%s on %r",
''', '''                            "Inferring foreign key %s->%s",
''')
B("C26", MA, '''                exc_info=args.verbose > 1,
            )
            sys.exit(1)


if __name__''', '''                exc_info=args.verbose > 1,
            )
            raise SystemExit from exc


if __name__''')
# C33
B("C33", MA, '''        plan,
        truncate=args.truncate,
        create=args.create,
    )


def _main_subset''', '''        plan,
        truncate=args.create,
        create=args.truncate,
    )


def _main_subset''')
B("C33", MA, '''        plan,
        truncate=args.truncate,
        create=args.create,
    )


def _main_subset''', '''        plan,
        create=args.create,
    )


def _main_subset''')
B("C33", MA, '''        plan,
        truncate=args.truncate,
        create=args.create,
    )


def main''', '''        plan,
        truncate=args.truncate or args.create,
        create=args.create,
    )


def main''')
B("C33", MA, '''        plan,
        truncate=args.truncate,
        create=args.create,
    )


def main''', '''        plan,
        truncate=args.truncate,
        create=not args.truncate,
    )


def main''')
B("C33", MA, '''    plan = Planner(config.source, config.planner).plan()
    Sampler(config''', '''    plan = Planner(config.source, config.planner).plan()
    with _open_config_path("plan.yaml") as fplan:
        plan = SubsetPlan.model_validate(yaml.safe_load(fplan))
    Sampler(config''')
B("C33", MA, '''                plan.model_dump(exclude_unset=True, by_alias=True),
''', '''                plan.model_dump(exclude_unset=True),
''')
B("C33", MA, '''                plan.model_dump(exclude_unset=True, by_alias=True),
''', '''                plan.model_dump(exclude={"passthrough"}, exclude_unset=True, by_alias=True),
''')
B("C33", MA, '''                plan.model_dump(exclude_unset=True, by_alias=True),
''', '''                plan.model_dump(exclude_unset=True, by_alias=True)["queries"],
''')
B("C33", MA, 'ctx = open(args.plan_output, "w", encoding="utf-8")', 'ctx = open(args.plan_output, "a", encoding="utf-8")')
B("C33", MA, 'ctx = open(args.plan_output, "w", encoding="utf-8")', 'ctx = open("plan.yaml", "w", encoding="utf-8")')
B("C33", MA, 'if args.plan_output:\n', 'if not args.plan_output:\n')
B("C33", MA, '        with ctx as fplan:', '        with contextlib.nullcontext(sys.stdout) as fplan:')
B("C33", MA, 'ctx = contextlib.nullcontext(sys.stdout)', 'ctx = contextlib.nullcontext(sys.stderr)')
B("C33", MA, 'with _open_config_path(args.plan) as fplan', 'with _open_config_path("plan.yaml") as fplan')
B("C33", MA, 'with _open_config_path(args.plan) as fplan', 'with open(args.plan, encoding="utf-8") as fplan')
B("C33", MA, '''        "--truncate",
        action="store_const",
        const=True,
        default=False,''', '''        "--truncate",
        action="store_const",
        const=True,
        default=True,''')
B("C33", MA, '''        "--create",
        action="store_const",
        const=True,
        default=False,''', '''        "--create",
        action="store_const",
        const=False,
        default=False,''')
B("C33", MA, '''        "--create",
        action="store_const",
        const=True,
        default=False,''', '''        "--create",
        action="store_false",''')
B("C33", MA, '''        "--create",
        action="store_const",
        const=True,
        default=False,''', '''        "--create",
        action="store_const",
        const=True,
        dest="truncate",
        default=False,''')
B("C33", MA, '''    _add_sample_args(subset_parser, subset_action=True)
''', '')
B("C33", MA, '''        action="append",
''', '')
B("C33", MA, '''            if args.action == "plan":
                _main_plan(args)
            elif args.action == "sample":''', '''            if args.action == "plan":
                _main_subset(args)
            elif args.action == "sample":''')
B("C33", MA, '''                _main_sample(args)
            elif''', '''                _main_subset(args)
            elif''')
B("C33", MA, '''    plan = Planner(config.source, config.planner).plan()
    Sampler(config.source, config.sampler).sample(
        plan,
        truncate=args.truncate,
        create=args.create,
    )
''', '''    plan = Planner(config.source, config.planner).plan()
    if args.truncate or args.create:
        Sampler(config.source, config.sampler).sample(
            plan,
            truncate=args.truncate,
            create=args.create,
        )
''')
B("C33", MA, '''    plan = Planner(config.source, config.planner).plan()
    Sampler(''', '''    plan = Planner(config.sampler.output, config.planner).plan()
    Sampler(''')
B("C33", MA, '''            "--output",
            default=None,''', '''            "--output",
            default="plan.yaml",''')
B("C33", MA, '''    plan = Planner(config.source, config.planner).plan()
    Sampler(config''', '''    plan = Planner(config.source, config.planner).plan()
    with open("plan.yaml", "w", encoding="utf-8") as fplan:
        yaml.dump(plan.model_dump(exclude_unset=True, by_alias=True), stream=fplan)
    Sampler(config''')
# C32
MERGE = '''                if key in result:
                    result[key] = _dict_merge(result[key], val)
                else:
                    result[key] = val
'''
B("C32", MA, "result[key] = _dict_merge(result[key], val)", "result[key] = _dict_merge(val, result[key])")
B("C32", MA, MERGE, '''                if key not in result:
                    result[key] = val
                elif val:
                    result[key] = _dict_merge(result[key], val)
''')
B("C32", MA, MERGE, '''                if key in result and isinstance(val, dict):
                    result[key] = _dict_merge(result[key], val)
                elif key not in result:
                    result[key] = val
''')
B("C32", MA, MERGE, '''                if key in result and val is not None:
                    result[key] = _dict_merge(result[key], val)
                elif key not in result:
                    result[key] = val
''')
B("C32", MA, MERGE, '''                if key in result:
                    result[key] = _dict_merge(result[key], val)
''')
B("C32", MA, MERGE, '''                result[key] = val
''')
B("C32", MA, "            result = dict(lhs)\n", "            result = {}\n")
B("C32", MA, "        return rhs\n\n    try", '''        if isinstance(lhs, list) and isinstance(rhs, list):
            return lhs + rhs
        return rhs

    try''')
B("C32", MA, "        return rhs\n\n    try", '''        return rhs if rhs is not None else lhs

    try''')
B("C32", MA, "        return rhs\n\n    try", '''        return rhs or lhs

    try''')
B("C32", MA, "        return rhs\n\n    try", '''        return lhs

    try''')
B("C32", MA, "config_data = _dict_merge(config_data, yaml.safe_load(fconfig))", "config_data = _dict_merge(yaml.safe_load(fconfig), config_data)")
B("C32", MA, "config_data = _dict_merge(config_data, yaml.safe_load(fconfig))", "config_data = yaml.safe_load(fconfig)")
B("C32", MA, "config_data = _dict_merge(config_data, yaml.safe_load(fconfig))", "config_data = {**config_data, **yaml.safe_load(fconfig)}")
B("C32", MA, "config_data = _dict_merge(config_data, yaml.safe_load(fconfig))", "config_data.update(yaml.safe_load(fconfig))")
B("C32", MA, "config_data = _dict_merge(config_data, yaml.safe_load(fconfig))", "config_data = _dict_merge({}, yaml.safe_load(fconfig))")
B("C32", MA, "for config_file in config_files:", "for config_file in reversed(config_files):")
B("C32", MA, "for config_file in config_files:", "for config_file in sorted(config_files):")
B("C32", MA, "for config_file in config_files:", "for config_file in set(config_files):")
B("C32", MA, 'config_files = ["subsetter.yaml"]', 'config_files = ["subsetter.yml"]')
B("C32", MA, '''    if path == "-":
        yield sys.stdin
    else:
        with open(path, "r", encoding="utf-8") as fconfig:
            yield fconfig
''', '''    with open(path, "r", encoding="utf-8") as fconfig:
        yield fconfig
''')
B("C32", MA, '''            except IOError as exc:
                LOGGER.error(
                    "Could not open subsetter config file %r: %s",''', '''            except FileNotFoundError:
                LOGGER.warning("Config file %r does not exist", config_file)
            except IOError as exc:
                LOGGER.error(
                    "Could not open subsetter config file %r: %s",''')
B("C32", MA, "    if not config_files:\n", "    if config_files:\n        config_files = [\"subsetter.yaml\", *config_files[1:]]\n    else:\n")
B("C32", MA, '''            for key, val in rhs.items():
                if key in result:
                    result[key] = _dict_merge(result[key], val)''', '''            for key, val in rhs.items():
                if key in result and isinstance(result[key], dict):
                    result[key].update(val)
                elif key in result:
                    result[key] = _dict_merge(result[key], val)''')
B("C32", MA, "if isinstance(lhs, dict) and isinstance(rhs, dict):", "if isinstance(lhs, dict) and lhs and isinstance(rhs, dict) and rhs:")
B("C32", MA, "if isinstance(lhs, dict) and isinstance(rhs, dict):", "if isinstance(lhs, dict) or isinstance(rhs, dict):")
# C16
B("C16", S, "            if (schema, table_name, 0) in meta.temp_tables:\n", "            if (schema, table_name, 0) in meta.temp_tables and (\n                schema,\n                table_name,\n            ) in self.compact_columns:\n")
B("C16", S, '''            if (schema, table_name, 0) in meta.temp_tables:
                query_stmt = meta.temp_tables[(schema, table_name, 0)].select()
            else:
                query_stmt = query.build(build_ctx)
''', '''            query_stmt = query.build(build_ctx)
''')
B("C16", S, '''                        meta.temp_tables[(schema, table_name, 0)].select(),
                        name=table_name,''', '''                        query.build(meta.sql_build_context()),
                        name=table_name,''')
B("C16", S, '''                        meta.temp_tables[(schema, table_name, 0)].select(),
                        name=table_name,''', '''                        table_q,
                        name=table_name,''')
B("C16", M, "            if ident.sampled:\n                if", "            if ident.sampled and (ident.table_schema, ident.table_name, 0) in self.temp_tables:\n                if")
B("C16", M, '''                return self.temp_tables[(ident.table_schema, ident.table_name, index)]
            return''', '''                if index:
                    return self.temp_tables[(ident.table_schema, ident.table_name, 0)]
            return''')
B("C16", S, "            if (schema, table_name) in max_ref_counts\n", "            if max_ref_counts.get((schema, table_name), 0) > 1\n")
B("C16", S, '''                if any(col in compact_cols for col in fk.dst_columns):
                    counter[key]''', '''                if fk.dst_columns and all(col in compact_cols for col in fk.dst_columns):
                    counter[key]''')
B("C16", S, '''                if any(col in compact_cols for col in fk.dst_columns):
                    counter[key]''', '''                if any(col in compact_cols for col in fk.columns):
                    counter[key]''')
B("C16", S, '''                if any(col in compact_cols for col in fk.dst_columns):
                    counter[key] = counter.get(key, 0) + 1
''', '''                if key in counter and any(col in compact_cols for col in fk.dst_columns):
                    counter[key] = counter.get(key, 0) + 1
''')
B("C16", S, "order: List[Tuple[str, str]] = toposort(dep_graph)", "order: List[Tuple[str, str]] = list(reversed(toposort(dep_graph)))")
B("C16", S, "order: List[Tuple[str, str]] = toposort(dep_graph)", "order: List[Tuple[str, str]] = sorted(dep_graph)")
B("C16", S, "order: List[Tuple[str, str]] = toposort(dep_graph)", "order: List[Tuple[str, str]] = list(dep_graph)")
B("C16", S, '''            self._materialize_tables(meta, conn, plan)
            self._copy_results(''', '''            with self.source_engine.connect() as temp_conn:
                self._materialize_tables(meta, temp_conn, plan)
            self._copy_results(''')
B("C16", S, '''            result = conn.execution_options(
                stream_results=True,
                yield_per=SOURCE_BUFFER_SIZE,
            ).execute(query_stmt)
''', '''            result = (
                conn.engine.connect()
                .execution_options(
                    stream_results=True,
                    yield_per=SOURCE_BUFFER_SIZE,
                )
                .execute(query_stmt)
            )
''')
B("C16", S, '''            if ident.sampled:
                counter[key]''', '''            if ident.sampled and key not in self.compact_columns:
                counter[key]''')
B("C16", S, '''            for key, count in counter.items():
                max_ref_counts[key] = max(max_ref_counts.get(key, 0), count)
''', '''            for key, count in counter.items():
                if count > 1:
                    max_ref_counts[key] = max(max_ref_counts.get(key, 0), count)
''')
B("C16", S, '''            query.build(functools.partial(_record_sampled_tables, counter))
            dep_graph[parse_table_name(table)] = set(counter.keys())

''', '''            query.build(functools.partial(_record_sampled_tables, counter))
            for key in counter:
                dep_graph.setdefault(key, set()).add(parse_table_name(table))
            dep_graph.setdefault(parse_table_name(table), set())

''')
B("C16", S, '''            if (schema, table_name, 0) in meta.temp_tables:
                query_stmt = meta.temp_tables[(schema, table_name, 0)].select()
            else:''', '''            if (schema, table_name, 0) in meta.temp_tables and table not in plan.passthrough:
                query_stmt = meta.temp_tables[(schema, table_name, 0)].select()
            else:''')
# C15
B("C15", S, "            elif table in self.passthrough_tables:", "            elif table_key in self.passthrough_tables:")
B("C15", S, '''            if f"{table_key[0]}.{table_key[1]}" in self.passthrough_tables:
                continue
''', "")
B("C15", S, '''            if len(table_meta.primary_key) != 1:
                continue
            if f"''', '''            if not table_meta.primary_key:
                continue
            if f"''')
B("C15", S, '''            if not issubclass(col.type.python_type, int):  # type: ignore
                continue
''', "")
B("C15", S, '''                self.config.compact.primary_keys
                or table_meta''', '''                self.config.compact.primary_keys
                and self.config.compact.auto_increment_keys
                or table_meta''')
B("C15", S, '''                or table_meta.table_obj.autoincrement_column is not None
''', '''                or table_meta.table_obj.autoincrement_column is None
''')
B("C15", S, '''                not self.config.compact.primary_keys
                and not self.config.compact.auto_increment_keys''', '''                not self.config.compact.primary_keys''')
B("C15", S, "                        + self.config.compact.start_key\n                        - 1\n", "                        + self.config.compact.start_key\n")
B("C15", S, "                    + self.config.compact.start_key\n                    - 1,\n", "                    + max(self.config.compact.start_key, 1)\n                    - 1,\n")
B("C15", S, '''                            order_by=[
                                subq.c[col.name] for col in table.table_obj.primary_key
                            ],
''', "")
B("C15", S, '''                            order_by=[
                                subq.c[col.name] for col in table.table_obj.primary_key
                            ],
''', '''                            order_by=[
                                subq.c[col.name] for col in table.table_obj.columns
                            ],
''')
B("C15", S, '''                        order_by=[
                            subq.c[col.name] for col in src_table.table_obj.primary_key
                        ],
''', '''                        order_by=[
                            subq.c[col.name].desc() for col in src_table.table_obj.primary_key
                        ],
''')
B("C15", S, '''                        raise ValueError(
                            f"Cannot compact column''', '''                        LOGGER.warning(
                            f"Cannot compact column''')
B("C15", S, "                for col_name in fk.columns:\n", "                for col_name in fk.columns[:1]:\n")
B("C15", S, '''                for col_name in fk.columns:
                    if col_name in''', '''                for col_name in fk.dst_columns:
                    if col_name in''')
B("C15", S, '''                            isouter=True,
                        )
                    else:''', '''                        )
                    else:''')
B("C15", S, '''                            isouter=True,
                        )
                    else:''', '''                            isouter=True,
                            full=True,
                        )
                    else:''')
B("C15", S, '''                        if dst_table in joined_tables:
                            dst_table = dst_table.alias()
                        else:
                            joined_tables.add(dst_table)
''', "")
B("C15", S, '''                        cols.append(
                            dst_table.columns[SUBSETTER_COMPACT_COLUMN].label(col.name)
                        )
''', '''                        cols.append(
                            dst_table.columns[dst_col].label(col.name)
                        )
''')
B("C15", S, '''                            sa.and_(
                                *(
                                    subq.columns[src_col] == dst_table.columns[dst_col]
                                    for src_col, dst_col in zip(
                                        fk.columns, fk.dst_columns
                                    )
                                )
                            ),
''', '''                            subq.columns[col.name] == dst_table.columns[dst_col],
''')
B("C15", S, "                                    subq.columns[src_col] == dst_table.columns[dst_col]\n", "                                    subq.columns[src_col] == dst_table.columns[src_col]\n")
B("C15", S, '''                    if dst_col in self.compact_columns.get(
                        (fk.dst_schema, fk.dst_table), set()
                    ):
                        remote_compact_cols[src_col] = fk
''', '''                    if dst_col in self.compact_columns.get(
                        (fk.dst_schema, fk.dst_table), set()
                    ):
                        remote_compact_cols[dst_col] = fk
''')
B("C15", S, '''                    if dst_col in self.compact_columns.get(
                        (fk.dst_schema, fk.dst_table), set()
                    ):
                        remote_compact_cols[src_col] = fk
''', '''                    if src_col in self.compact_columns.get(
                        (fk.dst_schema, fk.dst_table), set()
                    ):
                        remote_compact_cols[src_col] = fk
''')
B("C15", S, '''                for src_col, dst_col in zip(fk.columns, fk.dst_columns):
                    if dst_col in self''', '''                if len(fk.columns) > 1:
                    continue
                for src_col, dst_col in zip(fk.columns, fk.dst_columns):
                    if dst_col in self''')
B("C15", S, "            if remote_compact_cols or compact_cols:\n", "            if compact_cols:\n")
B("C15", S, "            if remote_compact_cols or compact_cols:\n", "            if remote_compact_cols:\n")
B("C15", S, "                                table_name=fk.dst_table,\n                                sampled=True,", "                                table_name=table_name,\n                                sampled=True,")
B("C15", S, "                                sampled=True,\n                            )\n                        )\n                        if dst_table", "                                sampled=False,\n                            )\n                        )\n                        if dst_table")
B("C15", S, "                compact_columns.setdefault(table_key, set()).add(col.name)", "                compact_columns.setdefault(table_key, {col.name})")
B("C15", S, "                        cols.append(id_col.label(col.name))", "                        cols.append(id_col)")
B("C15", S, '''                    if col.name in compact_cols:
                        cols.append(id_col.label(col.name))
                    elif''', '''                    if col.name in compact_cols and col.primary_key:
                        cols.append(id_col.label(col.name))
                    elif''')
B("C15", S, '''            else:
                compact_columns[table_key] = set(cols)
''', '''            else:
                compact_columns[table_key] = set(cols[:1])
''')
B("C15", S, '''            if (schema, table_name) in self.compact_columns:
                subq =''', '''            if (schema, table_name) in self.compact_columns and table.primary_key:
                subq =''')
# C28
B("C28", S, '''            table = re.sub(remap_pattern.search, remap_pattern.replace, table)
        return''', '''            table = re.sub(remap_pattern.search, remap_pattern.replace, table, count=1)
        return''')
B("C28", S, '''            table = re.sub(remap_pattern.search, remap_pattern.replace, table)
        return''', '''            table = re.sub(remap_pattern.search, remap_pattern.replace, table)
            break
        return''')
B("C28", S, '''            table = re.sub(remap_pattern.search, remap_pattern.replace, table)
        return''', '''            if re.search(remap_pattern.search, table):
                table = re.sub(remap_pattern.search, remap_pattern.replace, table)
                break
        return''')
B("C28", S, "        for remap_pattern in self.remap:\n", "        for remap_pattern in reversed(self.remap):\n")
B("C28", S, "        for remap_pattern in self.remap:\n", "        for remap_pattern in self.remap[:1]:\n")
B("C28", S, '''        table = f"{schema}.{table_name}"
        for remap_pattern in self.remap:
            table = re.sub(remap_pattern.search, remap_pattern.replace, table)
        return parse_table_name(table)''', '''        for remap_pattern in self.remap:
            table_name = re.sub(remap_pattern.search, remap_pattern.replace, table_name)
        return schema, table_name''')
B("C28", S, '''            if self.table_remap.setdefault(remapped_table, table) != table:
                raise ValueError(
                    f"Multiple tables remapped to the same name {remapped_table}"
                )
''', '''            self.table_remap[remapped_table] = table
''')
B("C28", S, '''            if self.table_remap.setdefault(remapped_table, table) != table:
                raise ValueError(
                    f"Multiple tables remapped to the same name {remapped_table}"
                )
''', '''            if self.table_remap.setdefault(remapped_table, table) != table:
                LOGGER.warning(
                    f"Multiple tables remapped to the same name {remapped_table}"
                )
''')
B("C28", S, '''            if self.table_remap.setdefault(remapped_table, table) != table:
                raise''', '''            if self.table_remap.setdefault(remapped_table, table) != table and not self.merge:
                raise''')
B("C28", S, '''        if self.merge and f"{src_schema}.{src_table_name}" in self.passthrough_tables:''', '''        if self.merge and f"{schema}.{table_name}" in self.passthrough_tables:''')
B("C28", S, "            [glob.escape(table) for table in self.table_remap],\n", "            [glob.escape(table) for table in plan.queries],\n")
B("C28", S, "        table = self.meta.tables[(schema, table_name)]\n\n        columns_out", "        table = self.meta.tables[(src_schema, src_table_name)]\n\n        columns_out")
B("C28", S, "        if table_offsets := self.table_offsets.get((schema, table_name)):", "        if table_offsets := self.table_offsets.get((src_schema, src_table_name)):")
B("C28", S, '''            if remapped_table:
                result.append(remapped_table)
''', '''            if remapped_table:
                result.append(table)
''')
B("C28", S, '''            if (remap_schema, remap_table) in self.meta.tables:
                table_obj_map[table]''', '''            if parse_table_name(table) in self.meta.tables:
                table_obj_map[table]''')
B("C28", S, "                remap_table,\n                metadata_obj,", "                table_obj.name,\n                metadata_obj,")
B("C28", S, "                schema=remap_schema,\n", "                schema=table_obj.schema,\n")
B("C28", S, "                    self.table_offsets[self._remap_table(src_schema, src_table_name)][\n", "                    self.table_offsets[(src_schema, src_table_name)][\n")
B("C28", S, '''                offset = pk_max_values.get(f"{fk.dst_schema}.{fk.dst_table}")''', '''                offset = pk_max_values.get(
                    ".".join(self._remap_table(fk.dst_schema, fk.dst_table))
                )''')
B("C28", S, '''                    if f"{ref_table.schema}.{ref_table.name}" not in table_obj_map:''', '''                    if f"{ref_table.schema}.{ref_table.name}" not in self.table_remap:''')
B("C28", S, '''            if source_table in self.passthrough_tables:
                continue

            schema, table_name = self._remap_table(*parse_table_name(source_table))
''', '''            schema, table_name = self._remap_table(*parse_table_name(source_table))
            if f"{schema}.{table_name}" in self.passthrough_tables:
                continue

''')

# C31
B("C31", S, "                        nullable=col.nullable,\n", "")
B("C31", S, "                        nullable=col.nullable,\n", "                        nullable=True,\n")
B("C31", S, "                        nullable=col.nullable,\n", "                        nullable=col.nullable or not col.primary_key,\n")
B("C31", S, "                        primary_key=col.primary_key,\n                    )\n                    for col in table_obj.columns", "                    )\n                    for col in table_obj.columns")
B("C31", S, "                    for col in table_obj.columns\n                ),\n                schema", "                    for col in table_obj.columns\n                    if not col.computed\n                ),\n                schema")
B("C31", S, '''                if isinstance(constraint, sa.UniqueConstraint):
                    remapped_table_obj.append_constraint(
                        sa.UniqueConstraint(*_remap_cols(constraint.columns))
                    )
''', "")
B("C31", S, '''                if isinstance(constraint, sa.CheckConstraint):
                    remapped_table_obj.append_constraint(
                        sa.CheckConstraint(constraint.sqltext)
                    )
''', "")
B("C31", S, '''                    remapped_table_obj.append_constraint(
                        sa.CheckConstraint(constraint.sqltext)
                    )
''', '''                    sa.CheckConstraint(constraint.sqltext)
''')
B("C31", S, '''                if isinstance(constraint, sa.UniqueConstraint):
''', '''                if isinstance(constraint, sa.UniqueConstraint) and constraint.name:
''')
B("C31", S, '''                        sa.UniqueConstraint(*_remap_cols(constraint.columns))
''', '''                        sa.UniqueConstraint(*_remap_cols(list(constraint.columns)[:1]))
''')
B("C31", S, '''                    if f"{ref_table.schema}.{ref_table.name}" not in table_obj_map:
                        # The referenced table is not part of the sample
                        continue
''', "")
B("C31", S, '''                    if f"{ref_table.schema}.{ref_table.name}" not in table_obj_map:
                        # The referenced table is not part of the sample
                        continue
''', '''                    if ref_table is table_obj:
                        continue
                    if f"{ref_table.schema}.{ref_table.name}" not in table_obj_map:
                        continue
''')
B("C31", S, '''                        # The referenced table is not part of the sample
                        continue
''', '''                        # The referenced table is not part of the sample
                        break
''')
B("C31", S, '''                    if f"{ref_table.schema}.{ref_table.name}" not in table_obj_map:
                        # The''', '''                    if (
                        table_obj_map.get(f"{ref_table.schema}.{ref_table.name}")
                        not in tables_created
                    ):
                        # The''')
B("C31", S, "fk_cols = _remap_cols(elem.column for elem in constraint.elements)", "fk_cols = [elem.column for elem in constraint.elements]")
B("C31", S, "fk_cols = _remap_cols(elem.column for elem in constraint.elements)", "fk_cols = [elem.target_fullname for elem in constraint.elements]")
B("C31", S, "fk_cols = _remap_cols(elem.column for elem in constraint.elements)", "fk_cols = _remap_cols(constraint.columns)")
B("C31", S, '''                if isinstance(constraint, sa.ForeignKeyConstraint):
                    ref_table''', '''                if isinstance(constraint, sa.ForeignKeyConstraint) and not self.merge:
                    ref_table''')
B("C31", S, '''                if isinstance(constraint, sa.ForeignKeyConstraint):
                    ref_table''', '''                if (
                    isinstance(constraint, sa.ForeignKeyConstraint)
                    and len(constraint.columns) == 1
                ):
                    ref_table''')
B("C31", S, "                    unique=index.unique,\n", "")
B("C31", S, "                    unique=index.unique,\n", "                    unique=False,\n")
B("C31", S, "            for index_idx, index in enumerate(table_obj.indexes):\n", "            for index_idx, index in enumerate(table_obj.indexes):\n                if not index.unique:\n                    continue\n")
B("C31", S, "                    **index.dialect_kwargs,\n", "")
B("C31", S, '''                if any(isinstance(expr, sa.TextClause) for expr in index.expressions):
                    # An index of the remaining columns alone would not be
                    # equivalent and, if unique, could reject sampled rows
                    LOGGER.warning(
                        "Not creating index %s of %s, it indexes expressions",
                        index.name,
                        table,
                    )
                    continue
''', "")
B("C31", S, '''                        "Not creating index %s of %s, it indexes expressions",
                        index.name,
                        table,
                    )
                    continue
''', '''                        "Not creating index %s of %s, it indexes expressions",
                        index.name,
                        table,
                    )
                    break
''')
B("C31", S, '''                        "Not creating partial index %s of %s in another dialect",
                        index.name,
                        table,
                    )
                    continue
''', '''                        "Not creating partial index %s of %s in another dialect",
                        index.name,
                        table,
                    )
''')
B("C31", S, '''                index_name = f"idx_subsetter_{remapped_table_obj.name}_{index_idx}"
''', '''                index_name = f"idx_subsetter_{remapped_table_obj.name}"
''')
B("C31", S, "                if len(index_name.encode()) > MAX_INDEX_NAME_BYTES:\n", "                if len(index_name.encode()) > MAX_INDEX_NAME_BYTES and self.merge:\n")
B("C31", S, '''                        f"idx_subsetter_{name_hash.hexdigest()[:32]}_{index_idx}"
''', '''                        f"idx_subsetter_{remapped_table_obj.name[:32]}_{index_idx}"
''')
B("C31", S, '''        # Copy table constraints including foreign key constraints.
''', '''        if tables_created:
            metadata_obj.create_all(bind=self.engine)

        # Copy table constraints including foreign key constraints.
''', S, '''            metadata_obj.create_all(bind=self.engine)
            for remapped''', '''            for remapped''')
B("C31", S, '''                            remapped_table_obj.columns[col.name]
                            if isinstance(col, sa.Column)
                            else col
                        )
                        for col in index.columns
''', '''                            remapped_table_obj.columns[col.name]
                            if isinstance(col, sa.Column)
                            else col
                        )
                        for col in list(index.columns)[:1]
''')
B("C31", S, '''            if remapped_table_obj not in tables_created:
                continue
''', '''            if remapped_table_obj in tables_created:
                continue
''')
B("C31", S, '''            if remapped_table_obj not in tables_created:
                continue
''', '''            if remapped_table_obj not in tables_created:
                break
''')
B("C31", S, '''                ].table_obj
                continue

            table_obj =''', '''                ].table_obj
                break

            table_obj =''')

# C05
B("C05", C, '''        engine = sa.create_engine(
            url,
''', '''        LOGGER.debug("Connecting to %s", url.render_as_string(hide_password=False))
        engine = sa.create_engine(
            url,
''')
B("C05", C, '''    if dialect is None:
        dialect = DEFAULT_DIALECT
        LOGGER.warning("No database dialect selected, defaulting to '%s'", dialect)
''', '''    LOGGER.debug("Connecting as %s", f"{username}:{password}@{host}:{port}")
    if dialect is None:
        dialect = DEFAULT_DIALECT
        LOGGER.warning("No database dialect selected, defaulting to '%s'", dialect)
''')
B("C05", C, '''        raise ValueError(f"Unsupported SQL dialect {dialect!r}")
''', '''        raise ValueError(
            f"Unsupported SQL dialect {dialect!r} for {(host, port, username, password)}"
        )
''')
B("C05", C, '''        url = self.database_url(env_prefix=env_prefix)
''', '''        LOGGER.debug("Using database settings %r", self)
        url = self.database_url(env_prefix=env_prefix)
''')
B("C05", C, '''        url = self.database_url(env_prefix=env_prefix)
''', '''        LOGGER.debug(
            "Using database settings %s",
            {k: v for k, v in self.model_dump().items() if v is not None},
        )
        url = self.database_url(env_prefix=env_prefix)
''')
B("C05", C, "            echo=self.echo,\n", "            echo=True,\n")
B("C05", C, "    echo: bool = False\n", "    echo: bool = True\n")
B("C05", CM, '    model_config = ConfigDict(extra="forbid", hide_input_in_errors=True)', '    model_config = ConfigDict(extra="forbid")')
B("C05", CM, '    model_config = ConfigDict(extra="forbid", hide_input_in_errors=True)', '    model_config = ConfigDict(extra="forbid", hide_input_in_errors=False)')
B("C05", MA, '''    if args.verbose > 2:
''', '''    LOGGER.debug("Using configuration %s", config)
    if args.verbose > 2:
''')
B("C05", MA, '''        config = SubsetterConfig.model_validate(config_data)
''', '''        LOGGER.debug("Loaded configuration %s", config_data)
        config = SubsetterConfig.model_validate(config_data)
''')
B("C05", MA, '''        config = SubsetterConfig.model_validate(config_data)
''', '''        LOGGER.debug("Source %s", config_data.get("source"))
        config = SubsetterConfig.model_validate(config_data)
''')
B("C05", MA, '''                plan.model_dump(exclude_unset=True, by_alias=True),
''', '''                {
                    **plan.model_dump(exclude_unset=True, by_alias=True),
                    "source": config.source.model_dump(exclude_unset=True),
                },
''')
B("C05", MA, '''    if args.verbose > 2:
''', '''    if config.source:
''')
B("C05", S, '''                buffer.append(tuple(out_row))
''', '''                LOGGER.debug("Writing %s", out_row)
                buffer.append(tuple(out_row))
''')
B("C05", S, '''        def _flush_buffer():
            with''', '''        def _flush_buffer():
            LOGGER.debug("Writing %d rows, first is %r", len(buffer), buffer[0])
            with''')
B("C05", S, '''                    json.dump(dict(''', '''                    LOGGER.debug("dumping %s", dict(zip(columns_out, out_row)))
                    json.dump(dict(''')
B("C05", F, '''                raise ValueError(f"Cannot zero unknown type {str(type(value))}")''', '''                raise ValueError(f"Cannot zero value {value!r}")''')
B("C05", S, '''        self.source_engine = source.database_engine(env_prefix="SUBSET_SOURCE_")
''', '''        self.source_engine = source.database_engine(env_prefix="SUBSET_SOURCE_")
        LOGGER.debug("Sampling from %s with %s", self.source_engine, self.config.output)
''')
B("C05", PL, '''        self.engine = source.database_engine(env_prefix="SUBSET_SOURCE_")
''', '''        self.engine = source.database_engine(env_prefix="SUBSET_SOURCE_")
        print(f"Planning on {source}")
''')
# C23
B("C23", C, "            echo=self.echo,\n", "")
B("C23", C, "for session_sql in self.session_sqls:", "for session_sql in ():")
B("C23", C, '''        if self.isolation_level:
            isolation_level = self.isolation_level
        elif dialect''', '''        if dialect''')
B("C23", C, "self.client.key or os.getenv", "os.getenv")
B("C23", S, "self.merge = config.merge\n", "self.merge = False\n")
B("C23", S, "self.conflict_strategy = config.conflict_strategy\n", 'self.conflict_strategy = "error"\n        LOGGER.info("Conflicts: %s", config.conflict_strategy)\n')
B("C23", S, "+ self.config.compact.start_key", "+ 1", S, "+ self.config.compact.start_key", "+ 1")
B("C23", S, "set(table.primary_key) - ignored_pk_cols", "set(table.primary_key)")
B("C23", S, "cols = set(self.config.multiplicity.extra_columns.get(table_name, []))", "cols: Set[str] = set()")
B("C23", PL, "close_forward=self.config.include_dependencies,", "close_forward=True,", PL, "if self.config.include_dependencies:", "if self.config.select:")
B("C23", CM, "    class CompactConfig(ForbidBaseModel):\n", "    class CompactConfig(BaseModel):\n")
B("C23", CM, "class SamplerConfig(ForbidBaseModel):\n", "class SamplerConfig(ForbidBaseModel, extra=\"ignore\"):\n")
B("C23", CM, 'ConfigDict(extra="forbid", hide', 'ConfigDict(hide')
# C21
B("C21", PL, '''        foreign_keys = sorted(
            fk
            for fk in table.foreign_keys
            if (fk.dst_schema, fk.dst_table) in processed
        )
''', '''        foreign_keys = [
            fk
            for fk in table.foreign_keys
            if (fk.dst_schema, fk.dst_table) in processed
        ]
''')
B("C21", PL, '''        rev_foreign_keys = sorted(
            fk
            for fk in table.rev_foreign_keys
            if (fk.dst_schema, fk.dst_table) in processed
        )
''', '''        rev_foreign_keys = list(
            {
                fk
                for fk in table.rev_foreign_keys
                if (fk.dst_schema, fk.dst_table) in processed
            }
        )
''')
B("C21", PL, '''        rev_foreign_keys = sorted(
            fk
            for fk in table.rev_foreign_keys
            if (fk.dst_schema, fk.dst_table) in processed
        )
''', '''        rev_foreign_keys = sorted(
            (
                fk
                for fk in table.rev_foreign_keys
                if (fk.dst_schema, fk.dst_table) in processed
            ),
            key=lambda fk: (fk.dst_schema, fk.dst_table),
        )
''')
B("C21", PL, "for schema, table_name in sorted(self.passthrough_tables):", "for schema, table_name in self.passthrough_tables:")
B("C21", PL, '''                for schema, table_name in sorted(self.passthrough_tables)
            ],''', '''                for schema, table_name in self.passthrough_tables
            ],''')
B("C21", PL, "sorted(self.passthrough_tables)\n            ],", "sorted(self.passthrough_tables, key=len)\n            ],")
B("C21", "solver.py", "key=lambda x: (x[1], x[0]), reverse", "key=lambda x: x[1], reverse")
B("C21", "solver.py", "x[0] for x in sorted(weight.items(), key=lambda x: (x[1], x[0]), reverse=True)", "x for x in weight")
B("C21", PL, "for pattern in patterns\n", "for pattern in set(patterns)\n")
B("C21", PL, "values=[[value] for value in in_list],", "values=[[value] for value in {*in_list}],")
B("C21", M, "                pk_map[map_key] = None\n            else:\n                pk_map[map_key] = table", "                continue\n            pk_map[map_key] = table")
B("C21", M, '''            if map_key in pk_map:
                LOGGER.info("Duplicate primary key columns found %r", table.primary_key)
                pk_map[map_key] = None
            else:
                pk_map[map_key] = table''', '''            pk_map[map_key] = table''')
B("C21", PL, "type_=\"random\", threshold=target.percent / 100.0", "type_=\"random\", threshold=target.percent / 100.0 * random.uniform(0.99, 1.01)", PL, "import logging\n", "import logging\nimport random\n")
B("C21", PL, '''        fk_joins = []
        for fk in foreign_keys or rev_foreign_keys:''', '''        fk_joins = []
        for fk in set(foreign_keys or rev_foreign_keys):''')
B("C21", PL, '''        fk_joins = []
        for fk in foreign_keys or rev_foreign_keys:''', '''        fk_joins = []
        for fk in dict.fromkeys(table.foreign_keys if foreign_keys else table.rev_foreign_keys):
            if (fk.dst_schema, fk.dst_table) not in processed:
                continue''')
B("C22", PM, "            return column.like(self.value)\n", "            return sa.text(f\"{column} LIKE '%s'\" % str(self.value).replace(\"'\", \"''\"))\n")
B("C22", PM, "            return column.like(self.value)\n", "            return sa.text(\"%s LIKE '%s'\" % (column, self.value))\n")
B("C26", MA, '            "Could not write plan to output file %r: %s", args.plan_output, exc\n        )\n        sys.exit(1)\n', '            "Could not write plan to output file %r: %s", args.plan_output, exc\n        )\n        if not isinstance(exc, FileNotFoundError):\n            sys.exit(1)\n')
B("C26", MA, '            exc_info=args.verbose > 1,\n        )\n        sys.exit(1)\n\n    Sampler', '            exc_info=args.verbose > 1,\n        )\n        if args.verbose:\n            sys.exit(1)\n        return\n\n    Sampler')
