"""Bugs in the functions that other sets touch least, most of them in a rewritten form."""

SO = "solver.py"

# --- filters
B("C36", F, '''        return (self.rng.randint(self.low, self.high) for _ in values)
''', '''        return [self.rng.randint(self.low, self.high - 1) for _ in range(len(values))]
''')
B("C37", F, '''            if condition_filter.columns_out != self.columns_out:
''', '''            if len(condition_filter.columns_out) > len(self.columns_out):
''')
B("C37", F, '''            if condition_filter.columns_out != self.columns_out:
''', '''            if condition_filter.columns_in != self.columns_in:
''')
B("C37", F, '''        for condition, condition_filter in zip(self.conditions, self.condition_filters):
            if condition.match(value):
                return condition_filter.filter_view(values_in)
        return list(values_in)
''', '''        matching = [
            nested
            for condition, nested in zip(self.conditions, self.condition_filters)
            if condition.match(value)
        ]
        return matching[-1].filter_view(values_in) if matching else list(values_in)
''')
B("C04", F, '''    for index, column in enumerate(columns_act):
        if cols_seen.setdefault(column, index) != index:
''', '''    for index, column in enumerate(columns_act):
        if column in columns_act[1:index]:
''')
B("C04", F, '''    column_act_indices = []
    for column in columns_act:
        act_index = column_index_map.get(column)
        if act_index is None:
            raise ValueError(
                f"Filter {filter_name} refers to non-existant column {column}"
            )
        column_act_indices.append(act_index)
    return tuple(column_act_indices)
''', '''    if not column_index_map.keys() & set(columns_act):
        raise ValueError(
            f"Filter {filter_name} refers to non-existant columns {columns_act}"
        )
    return tuple(
        column_index_map[column]
        for column in columns_act
        if column in column_index_map
    )
''')
B("C36", F, '''        faker = faker or Faker()
        self.faker: Faker = faker.unique if unique else faker  # type: ignore
''', '''        self.faker: Faker = faker or Faker()
        if unique and not faker:
            self.faker = self.faker.unique  # type: ignore
''')
B("C36", F, '''            alphabet = _ALPHABET_MAP.get(self.alphabet, self.custom_alphabet)
            if not alphabet:
''', '''            alphabet = (self.custom_alphabet or "")[:26]
            if self.alphabet != "custom":
                alphabet = _ALPHABET_MAP[self.alphabet]
            if not alphabet:
''')

# --- planner
B("C30", PL, '''            table.foreign_keys = [
                fk
                for fk in table.foreign_keys
                if (fk.dst_schema, fk.dst_table) != (dst_schema, dst_table_name)
            ]
''', '''            table.foreign_keys[:] = [
                fk
                for fk in table.foreign_keys
                if fk.dst_schema != dst_schema and fk.dst_table != dst_table_name
            ]
''')
B("C30", PL, '''            table.foreign_keys = [
                fk
                for fk in table.foreign_keys
                if (fk.dst_schema, fk.dst_table) != (dst_schema, dst_table_name)
            ]
''', '''            for fk in list(table.foreign_keys):
                if (fk.dst_schema, fk.dst_table) == (dst_schema, dst_table_name):
                    table.foreign_keys.remove(fk)
                    break
''')
B("C30", PL, '''            src_schema, src_table_name = parse_table_name(ignore_fk.src_table)
            dst_schema, dst_table_name = parse_table_name(ignore_fk.dst_table)
            table = self.meta.tables.get((src_schema, src_table_name))
''', '''            (dst_schema, dst_table_name), (src_schema, src_table_name) = map(
                parse_table_name, (ignore_fk.src_table, ignore_fk.dst_table)
            )
            table = self.meta.tables.get((src_schema, src_table_name))
''')
B("C35", PL, '''            self.config.select + self.config.passthrough,
''', '''            self.config.select or self.config.passthrough,
''')
B("C35", PL, '''            self.config.select + self.config.passthrough,
''', '''            sorted(set(self.config.select) - set(self.config.passthrough)),
''')

# --- metadata
B("C09", M, '''        return [  # type: ignore
            self.tables[parse_table_name(u)] for u in toposort(self.as_graph())
        ]
''', '''        by_name = {table.name: table for table in self.tables.values()}
        return [by_name[u.split(".", 1)[1]] for u in toposort(self.as_graph())]
''')
B("C09", M, '''        return [  # type: ignore
            self.tables[parse_table_name(u)] for u in toposort(self.as_graph())
        ]
''', '''        ordered = {self.tables[parse_table_name(u)] for u in toposort(self.as_graph())}
        return [table for table in self.tables.values() if table in ordered]
''')

# --- command line
B("C32", MA, '''            for key, val in rhs.items():
                if key in result:
                    result[key] = _dict_merge(result[key], val)
                else:
                    result[key] = val
            return result
''', '''            result.update(
                (key, _dict_merge(lhs.get(key, {}), val))
                for key, val in rhs.items()
                if key not in lhs or isinstance(lhs[key], dict)
            )
            return result
''')

# --- solver
B("C17", SO, '''    RG = {u: (set(edges) if union else set()) for u, edges in G.items()}
    for u, edges in G.items():
        for v in edges:
            RG[v].add(u)
    return RG
''', '''    RG = {u: (set(edges) if union else set()) for u, edges in G.items()}
    for u, edges in G.items():
        for v in edges:
            RG[v] = {u}
    return RG
''')
B("C17", SO, '''    vis = {source}
    H = [source]
    result = [source]
    while H:
        H = toposort_reachable(G, H, vis)
        result.extend(H)
        vis.update(H)
        G, RG = RG, G

    return result
''', '''    H = [source]
    result = [source]
    while H:
        H = toposort_reachable(G, H, {source, *H})
        result += [u for u in H if u not in result]
        if len(result) == len(G):
            break
        G, RG = RG, G

    return result
''')

# --- sampler
B("C09", S, '''            for table in reversed(self.meta.toposort()):
                LOGGER.info("Truncating table %s", table)
                conn.execute(sa.delete(table.table_obj))
                conn.commit()
''', '''            ordered = self.meta.toposort()
            ordered.sort(key=lambda table: (table.schema, table.name), reverse=True)
            for table in ordered:
                LOGGER.info("Truncating table %s", table)
                conn.execute(sa.delete(table.table_obj))
                conn.commit()
''')
B("C09", S, '''            for table in reversed(self.meta.toposort()):
                LOGGER.info("Truncating table %s", table)
                conn.execute(sa.delete(table.table_obj))
                conn.commit()
''', '''            pending = list(reversed(self.meta.toposort()))
            while pending:
                table = pending.pop()
                LOGGER.info("Truncating table %s", table)
                conn.execute(sa.delete(table.table_obj))
                conn.commit()
''')
B("C28", S, '''            if self.table_remap.setdefault(remapped_table, table) != table:
                raise ValueError(
                    f"Multiple tables remapped to the same name {remapped_table}"
                )
''', '''            if remapped_table in plan.queries and remapped_table != table:
                raise ValueError(
                    f"Multiple tables remapped to the same name {remapped_table}"
                )
            self.table_remap[remapped_table] = table
''')
B("C28", S, '''        for remap_pattern in self.remap:
            table = re.sub(remap_pattern.search, remap_pattern.replace, table)
        return parse_table_name(table)
''', '''        for remap_pattern in self.remap:
            table, count = re.subn(remap_pattern.search, remap_pattern.replace, table)
            if count > 1:
                break
        return parse_table_name(table)
''')
B("C15", S, '''                            order_by=[
                                subq.c[col.name] for col in table.table_obj.primary_key
                            ],
                        )
                        + self.config.compact.start_key
                        - 1
''', '''                            order_by=[
                                subq.c[col.name] for col in table.table_obj.primary_key
                            ],
                        )
                        - 1
                        + (self.config.compact.start_key or 1)
''')
B("C11", S, '''    curval = _autoincrement_get(engine, table)
    if curval is not None and curval > value:
        return
''', '''    if (_autoincrement_get(engine, table) or value) >= value:
        return
''')
B("C11", S, '''                    if autoinc_max_written is None:
                        autoinc_max_written = out_row[autoinc_index]
                    else:
                        autoinc_max_written = max(
                            autoinc_max_written, out_row[autoinc_index]
                        )
''', '''                    if not autoinc_max_written or row[autoinc_index] > autoinc_max_written:
                        autoinc_max_written = out_row[autoinc_index]
''')
