"""More edits that keep the behaviour: filters, metadata, solver, config."""
SO = "solver.py"

# --- filters: column indexes
N(F, '''    column_index_map = {column: index for index, column in enumerate(columns_in)}
    column_act_indices = []
    for column in columns_act:
        act_index = column_index_map.get(column)
        if act_index is None:
            raise ValueError(
                f"Filter {filter_name} refers to non-existant column {column}"
            )
        column_act_indices.append(act_index)
    return tuple(column_act_indices)
''', '''    column_index_map = {column: index for index, column in enumerate(columns_in)}
    for column in columns_act:
        if column not in column_index_map:
            raise ValueError(
                f"Filter {filter_name} refers to non-existant column {column}"
            )
    return tuple(column_index_map[column] for column in columns_act)
''')
N(F, '''    column_index_map = {column: index for index, column in enumerate(columns_in)}
    column_act_indices = []
    for column in columns_act:
        act_index = column_index_map.get(column)
        if act_index is None:
            raise ValueError(
                f"Filter {filter_name} refers to non-existant column {column}"
            )
        column_act_indices.append(act_index)
    return tuple(column_act_indices)
''', '''    column_index_map = dict(zip(columns_in, range(len(columns_in))))

    def _index_of(column: str) -> int:
        try:
            return column_index_map[column]
        except KeyError:
            raise ValueError(
                f"Filter {filter_name} refers to non-existant column {column}"
            ) from None

    return tuple(_index_of(column) for column in columns_act)
''')
N(F, '''    column_index_map = {column: index for index, column in enumerate(columns_in)}
    column_act_indices = []
    for column in columns_act:
        act_index = column_index_map.get(column)
        if act_index is None:
            raise ValueError(
                f"Filter {filter_name} refers to non-existant column {column}"
            )
        column_act_indices.append(act_index)
    return tuple(column_act_indices)
''', '''    column_index_map = {column: index for index, column in enumerate(columns_in)}
    missing = [column for column in columns_act if column not in column_index_map]
    if missing:
        raise ValueError(
            f"Filter {filter_name} refers to non-existant column {missing[0]}"
        )
    return tuple(map(column_index_map.__getitem__, columns_act))
''')
N(F, '''    cols_seen: Dict[str, int] = {}
    for index, column in enumerate(columns_act):
        if cols_seen.setdefault(column, index) != index:
            raise ValueError(f"Filter {filter_name} has duplicate column {column}")
''', '''    for index, column in enumerate(columns_act):
        if column in columns_act[:index]:
            raise ValueError(f"Filter {filter_name} has duplicate column {column}")
''')
N(F, '''    cols_seen: Dict[str, int] = {}
    for index, column in enumerate(columns_act):
        if cols_seen.setdefault(column, index) != index:
            raise ValueError(f"Filter {filter_name} has duplicate column {column}")
''', '''    if len(set(columns_act)) != len(columns_act):
        raise ValueError(f"Filter {filter_name} has a duplicate column")
''')
N(F, '''def _validate_and_index(
    filter_name: str, columns_in: Tuple[str, ...], columns_act: Tuple[str, ...]
) -> Tuple[int, ...]:
    if not columns_act:
        raise ValueError(f"Filter {filter_name} must act on at least one column")

    cols_seen: Dict[str, int] = {}
    for index, column in enumerate(columns_act):
        if cols_seen.setdefault(column, index) != index:
            raise ValueError(f"Filter {filter_name} has duplicate column {column}")
''', '''def _check_columns(filter_name: str, columns_act: Tuple[str, ...]) -> None:
    if len(columns_act) == 0:
        raise ValueError(f"Filter {filter_name} must act on at least one column")

    cols_seen: Dict[str, int] = {}
    for index, column in enumerate(columns_act):
        if cols_seen.setdefault(column, index) != index:
            raise ValueError(f"Filter {filter_name} has duplicate column {column}")


def _validate_and_index(
    filter_name: str, columns_in: Tuple[str, ...], columns_act: Tuple[str, ...]
) -> Tuple[int, ...]:
    _check_columns(filter_name, columns_act)
''')
# --- filters: applying them
N(F, '''        values_out = list(values)
        filtered_values = self.filter_values(
            [values_out[index] for index in self.column_act_indices]
        )
        for index, filtered_value in zip(self.column_act_indices, filtered_values):
            values_out[index] = filtered_value
        return values_out
''', '''        values_in = list(values)
        replaced = dict(
            zip(
                self.column_act_indices,
                self.filter_values(
                    [values_in[index] for index in self.column_act_indices]
                ),
            )
        )
        return [replaced.get(index, value) for index, value in enumerate(values_in)]
''')
N(F, '''        values_out = list(values)
        filtered_values = self.filter_values(
            [values_out[index] for index in self.column_act_indices]
        )
        for index, filtered_value in zip(self.column_act_indices, filtered_values):
            values_out[index] = filtered_value
        return values_out
''', '''        values_out = [*values]
        indices = self.column_act_indices
        filtered_values = iter(self.filter_values([values_out[i] for i in indices]))
        for position, filtered_value in zip(indices, filtered_values):
            values_out[position] = filtered_value
        return values_out
''')
N(F, '''        values_out = list(values)
        filtered_values = self.filter_values(
            [values_out[index] for index in self.column_act_indices]
        )
        for index, filtered_value in zip(self.column_act_indices, filtered_values):
            values_out[index] = filtered_value
        return values_out
''', '''        values_out = list(values)
        self._apply(values_out)
        return values_out

    def _apply(self, row: List[Any]) -> None:
        filtered_values = self.filter_values(self._select(row))
        for index, filtered_value in zip(self.column_act_indices, filtered_values):
            row[index] = filtered_value

    def _select(self, row: List[Any]) -> List[Any]:
        return [row[index] for index in self.column_act_indices]
''')
N(F, '''        result = list(values)
        for filter_view in self.filter_views:
            result = filter_view.filter_view(result)
        return result
''', '''        return functools.reduce(
            lambda row, view: view.filter_view(row), self.filter_views, list(values)
        )
''', F, "import dataclasses\n", "import dataclasses\nimport functools\n")
N(F, '''        cols_in = tuple(columns_in)
        cols_out = cols_in
        filter_views = []
        for filter_config in filter_configs:
            filter_view = filter_config.construct_filter(cols_out, filter_context=filter_context)  # type: ignore
            cols_out = filter_view.columns_out
            filter_views.append(filter_view)
        return cls(cols_in, cols_out, filter_views)
''', '''        cols_in = tuple(columns_in)
        filter_views: List[FilterView] = []
        for filter_config in filter_configs:
            cols = filter_views[-1].columns_out if filter_views else cols_in
            filter_views.append(
                filter_config.construct_filter(cols, filter_context=filter_context)  # type: ignore
            )
        cols_out = filter_views[-1].columns_out if filter_views else cols_in
        return cls(cols_in, cols_out, filter_views)
''')
# --- filters: zero
N(F, '''        for value in values:
            if value is None:
                yield None
            elif isinstance(value, str):
                yield ""
            elif isinstance(value, int):
                yield 0
            elif isinstance(value, float):
                yield 0.0
            elif isinstance(value, datetime):
                yield EPOCH.replace(tzinfo=value.tzinfo)
            else:
                raise ValueError(f"Cannot zero unknown type {str(type(value))}")
''', '''        return [self._zero(value) for value in values]

    @staticmethod
    def _zero(value: Any) -> Any:
        if value is None:
            return None
        if isinstance(value, str):
            return ""
        if isinstance(value, int):
            return 0
        if isinstance(value, float):
            return 0.0
        if isinstance(value, datetime):
            return EPOCH.replace(tzinfo=value.tzinfo)
        raise ValueError(f"Cannot zero unknown type {str(type(value))}")
''')
N(F, '''        for value in values:
            if value is None:
                yield None
            elif isinstance(value, str):
                yield ""
            elif isinstance(value, int):
                yield 0
            elif isinstance(value, float):
                yield 0.0
            elif isinstance(value, datetime):
                yield EPOCH.replace(tzinfo=value.tzinfo)
            else:
                raise ValueError(f"Cannot zero unknown type {str(type(value))}")
''', '''        result: List[Any] = []
        for value in values:
            if isinstance(value, datetime):
                result.append(datetime(1970, 1, 1, tzinfo=value.tzinfo))
            elif value is None:
                result.append(None)
            elif isinstance(value, float):
                result.append(0.0)
            elif isinstance(value, int):
                result.append(0)
            elif isinstance(value, str):
                result.append("")
            else:
                raise ValueError(f"Cannot zero unknown type {str(type(value))}")
        return result
''')
N(F, '''            if value is None:
                yield None
            elif isinstance(value, str):
                yield ""
            elif isinstance(value, int):
                yield 0
            elif isinstance(value, float):
                yield 0.0
            elif isinstance(value, datetime):
''', '''            if value is None:
                yield value
                continue
            for kind, zero in _ZEROES:
                if isinstance(value, kind):
                    yield zero
                    break
            else:
                if not isinstance(value, datetime):
                    raise ValueError(f"Cannot zero unknown type {str(type(value))}")
                yield EPOCH.replace(tzinfo=value.tzinfo)
            continue
            if isinstance(value, datetime):
''', F, '''class FilterZero(FilterColumns):
''', '''_ZEROES = ((str, ""), (int, 0), (float, 0.0))


class FilterZero(FilterColumns):
''')
# --- filters: omit
N(F, '''        column_act_set = set(self.columns_act)
        columns_out = tuple(
            column for column in columns_in if column not in column_act_set
        )
        super().__init__(columns_in, columns_out=columns_out)
        columns_in_index = {column: index for index, column in enumerate(columns_in)}
        self.columns_out_indices = [columns_in_index[column] for column in columns_out]
''', '''        column_act_set = frozenset(self.columns_act)
        self.columns_out_indices = [
            index
            for index, column in enumerate(columns_in)
            if column not in column_act_set
        ]
        super().__init__(
            columns_in,
            columns_out=[columns_in[index] for index in self.columns_out_indices],
        )
''')
N(F, '''        column_act_set = set(self.columns_act)
        columns_out = tuple(
            column for column in columns_in if column not in column_act_set
        )
        super().__init__(columns_in, columns_out=columns_out)
        columns_in_index = {column: index for index, column in enumerate(columns_in)}
        self.columns_out_indices = [columns_in_index[column] for column in columns_out]

    def filter_view(self, values: Iterable[Any]) -> List[Any]:
        values_in = list(values)
        return [values_in[index] for index in self.columns_out_indices]
''', '''        dropped = set(self.columns_act)
        super().__init__(
            columns_in,
            columns_out=(column for column in columns_in if column not in dropped),
        )
        self.kept = [column not in dropped for column in columns_in]

    def filter_view(self, values: Iterable[Any]) -> List[Any]:
        return [value for value, kept in zip(values, self.kept) if kept]
''')
N(F, '''        columns_in_index = {column: index for index, column in enumerate(columns_in)}
        self.columns_out_indices = [columns_in_index[column] for column in columns_out]
''', '''        self.columns_out_indices = [columns_in.index(column) for column in columns_out]
''')
# --- filters: random and constant values
N(F, '''        return (self.rng.randint(self.low, self.high) for _ in values)
''', '''        for _ in values:
            yield self.rng.randint(self.low, self.high)
''')
N(F, '''        return (self.rng.randint(self.low, self.high) for _ in values)
''', '''        return (self.rng.randrange(self.low, self.high + 1) for _ in values)
''')
N(F, '''        return ("".join(self.rng.choices(self.alphabet, k=self.length)) for _ in values)
''', '''        return [self._random_string() for _ in values]

    def _random_string(self) -> str:
        characters = self.rng.choices(self.alphabet, k=self.length)
        return "".join(characters)
''')
N(F, '''            alphabet = _ALPHABET_MAP.get(self.alphabet, self.custom_alphabet)
            if not alphabet:
''', '''            if self.alphabet == "custom":
                alphabet = self.custom_alphabet
            else:
                alphabet = _ALPHABET_MAP[self.alphabet]
            if not alphabet:
''')
N(F, '''        return (str(uuid4()) for _ in values)
''', '''        return map(lambda _: str(uuid4()), values)
''')
N(F, '''        return self.values


class FilterUuid''', '''        return list(self.values)


class FilterUuid''')
N(F, '''        self.values = tuple(values)
        if len(self.values) != len(self.columns_act):
            raise ValueError(
                "Number of columns and values must match for constant filter"
            )
''', '''        constants = tuple(values)
        if len(constants) == len(self.columns_act):
            self.values = constants
        else:
            raise ValueError(
                "Number of columns and values must match for constant filter"
            )
''')
N(F, '''        faker = faker or Faker()
        self.faker: Faker = faker.unique if unique else faker  # type: ignore
''', '''        if faker is None:
            faker = Faker()
        if unique:
            self.faker: Faker = faker.unique  # type: ignore
        else:
            self.faker = faker
''')
# --- filters: multiplex
N(F, '''        for condition, condition_filter in zip(self.conditions, self.condition_filters):
            if condition.match(value):
                return condition_filter.filter_view(values_in)
        return list(values_in)
''', '''        chosen = next(
            (
                condition_filter
                for condition, condition_filter in zip(
                    self.conditions, self.condition_filters
                )
                if condition.match(value)
            ),
            None,
        )
        if chosen is None:
            return list(values_in)
        return chosen.filter_view(values_in)
''')
N(F, '''        for condition, condition_filter in zip(self.conditions, self.condition_filters):
            if condition.match(value):
                return condition_filter.filter_view(values_in)
        return list(values_in)
''', '''        selected = self._select_filter(value)
        if selected is not None:
            return selected.filter_view(values_in)
        return list(values_in)

    def _select_filter(self, value: Any) -> Optional[FilterView]:
        for condition, condition_filter in zip(self.conditions, self.condition_filters):
            if condition.match(value):
                return condition_filter
        return None
''')
N(F, '''        for condition, condition_filter in zip(self.conditions, self.condition_filters):
            if condition.match(value):
                return condition_filter.filter_view(values_in)
        return list(values_in)
''', '''        index = 0
        while index < len(self.conditions):
            if self.conditions[index].match(value):
                return self.condition_filters[index].filter_view(values_in)
            index += 1
        return list(values_in)
''')
N(F, '''        if op == "=":
            return value == self.value
        if op == "!=":
            return value != self.value
        if op == "<":
            return value < self.value
        if op == ">":
            return value > self.value
        if op == "<=":
            return value <= self.value
        if op == ">=":
            return value >= self.value
''', '''        if op in _COMPARE:
            return _COMPARE[op](value, self.value)
''', F, '''class MultiplexCondition(BaseModel):
''', '''_COMPARE = {
    "=": operator.eq,
    "!=": operator.ne,
    "<": operator.lt,
    ">": operator.gt,
    "<=": operator.le,
    ">=": operator.ge,
}


class MultiplexCondition(BaseModel):
''', F, "import dataclasses\n", "import dataclasses\nimport operator\n")
N(F, '''        if op == "is":
            return value is self.value
        if op == "is not":
            return value is not self.value
        if op == "in":
            return value in self.value  # type: ignore
        if op == "not in":
            return value not in self.value  # type: ignore
''', '''        if op in ("is", "is not"):
            same = value is self.value
            return same if op == "is" else not same
        if op in ("in", "not in"):
            found = value in self.value  # type: ignore
            return found == (op == "in")
''')
N(F, '''        for condition_filter in self.condition_filters:
            if condition_filter.columns_out != self.columns_out:
                raise ValueError(
                    "Cannot use filters with multiplex that modify columns"
                )
''', '''        if any(
            condition_filter.columns_out != self.columns_out
            for condition_filter in self.condition_filters
        ):
            raise ValueError("Cannot use filters with multiplex that modify columns")
''')
N(F, '''        self.conditions = tuple(conditions)
        self.condition_filters = tuple(
            condition.apply.construct_filter(columns_in, filter_context=filter_context)  # type: ignore
            for condition in self.conditions
        )
        for condition_filter in self.condition_filters:
            if condition_filter.columns_out != self.columns_out:
                raise ValueError(
                    "Cannot use filters with multiplex that modify columns"
                )
''', '''        self.conditions = tuple(conditions)
        filters = []
        for condition in self.conditions:
            view = condition.apply.construct_filter(  # type: ignore
                self.columns_in, filter_context=filter_context
            )
            if view.columns_out != self.columns_in:
                raise ValueError(
                    "Cannot use filters with multiplex that modify columns"
                )
            filters.append(view)
        self.condition_filters = tuple(filters)
''')
N(F, '''        try:
            self.column_index = self.columns_in.index(column)
        except ValueError as exc:
            raise ValueError("Multiplex column does not exist") from exc
''', '''        if column not in self.columns_in:
            raise ValueError("Multiplex column does not exist")
        self.column_index = self.columns_in.index(column)
''')
# --- metadata: closure
N(M, '''            if any(fnmatch(table_id, select_pattern) for select_pattern in select):
                table_set.add((table_obj.schema, table_obj.name))
                table_queue.append((table_obj.schema, table_obj.name))
''', '''            for select_pattern in select:
                if fnmatch(table_id, select_pattern):
                    key = (table_obj.schema, table_obj.name)
                    table_set.add(key)
                    table_queue.append(key)
                    break
''')
N(M, '''            if any(fnmatch(table_id, select_pattern) for select_pattern in select):
                table_set.add((table_obj.schema, table_obj.name))
                table_queue.append((table_obj.schema, table_obj.name))
''', '''            if not any(fnmatch(table_id, pattern) for pattern in select):
                continue
            table_queue.append((table_obj.schema, table_obj.name))
        table_set.update(table_queue)
''')
N(M, '''        num_selected_tables = len(table_queue)
        for schema, table in table_queue:
            table_obj = metadata_obj.tables[f"{schema}.{table}"]
            for ref_schema, ref_table in table_deps[(schema, table)]:
                if (ref_schema, ref_table) not in table_set:
                    table_set.add((ref_schema, ref_table))
                    table_queue.append((ref_schema, ref_table))
''', '''        num_selected_tables = len(table_queue)
        index = 0
        while index < len(table_queue):
            for ref in table_deps[table_queue[index]]:
                if ref in table_set:
                    continue
                table_set.add(ref)
                table_queue.append(ref)
            index += 1
''')
N(M, '''                if close_forward:
                    table_deps[(table_obj.schema, table_obj.name)].append(
                        (ref_table_obj.schema, ref_table_obj.name)
                    )
                if close_backward:
                    table_deps[(ref_table_obj.schema, ref_table_obj.name)].append(
                        (table_obj.schema, table_obj.name)
                    )
''', '''                src = (table_obj.schema, table_obj.name)
                dst = (ref_table_obj.schema, ref_table_obj.name)
                if close_backward:
                    table_deps[dst].append(src)
                if close_forward:
                    table_deps[src].append(dst)
''')
N(M, '''        num_selected_tables = len(table_queue)
        for schema, table in table_queue:
            table_obj = metadata_obj.tables[f"{schema}.{table}"]
            for ref_schema, ref_table in table_deps[(schema, table)]:
                if (ref_schema, ref_table) not in table_set:
                    table_set.add((ref_schema, ref_table))
                    table_queue.append((ref_schema, ref_table))

        return (
            cls(
                metadata_obj,
                {
                    (schema, table): TableMetadata(
                        metadata_obj.tables[f"{schema}.{table}"]
                    )
                    for schema, table in table_queue
                },
                supports_temp_reopen=engine.dialect.name != "mysql",
            ),
            table_queue[num_selected_tables:],
        )
''', '''        extra_tables: List[Tuple[str, str]] = []
        pending = list(table_queue)
        for key in pending:
            for ref in table_deps[key]:
                if ref not in table_set:
                    table_set.add(ref)
                    pending.append(ref)
                    extra_tables.append(ref)

        tables = {}
        for schema, table in pending:
            tables[(schema, table)] = TableMetadata(
                metadata_obj.tables[f"{schema}.{table}"]
            )
        result = cls(
            metadata_obj,
            tables,
            supports_temp_reopen=not engine.dialect.name == "mysql",
        )
        return result, extra_tables
''')
# --- metadata: inference
N(M, '''        pk_map: Dict[Tuple[str, Tuple[str, ...]], Optional[TableMetadata]] = {}
        for table in self.tables.values():
            if not table.primary_key:
                continue

            map_key = _key_pk(table.schema, table.primary_key)
            if map_key in pk_map:
                LOGGER.info("Duplicate primary key columns found %r", table.primary_key)
                pk_map[map_key] = None
            else:
                pk_map[map_key] = table
''', '''        owners = collections.defaultdict(list)
        for table in self.tables.values():
            if table.primary_key:
                owners[_key_pk(table.schema, table.primary_key)].append(table)

        pk_map: Dict[Tuple[str, Tuple[str, ...]], Optional[TableMetadata]] = {}
        for map_key, tables in owners.items():
            if len(tables) > 1:
                LOGGER.info("Duplicate primary key columns found %r", map_key)
                pk_map[map_key] = None
            else:
                pk_map[map_key] = tables[0]
''')
N(M, '''                dst_table = pk_map.get(_key_pk(table.schema, (col.name,)))
                if dst_table is not None and dst_table is not table:
                    fk = ForeignKey(
                        columns=(col.name,),
                        dst_schema=dst_table.schema,
                        dst_table=dst_table.name,
                        dst_columns=(col.name,),
                    )
                    if fk not in fks:
                        LOGGER.info(
                            "Inferring foreign key %s->%s on %r",
                            table,
                            dst_table,
                            fk.columns,
                        )
                        table.foreign_keys.append(fk)
''', '''                dst_table = pk_map.get(_key_pk(table.schema, (col.name,)))
                if dst_table is None or dst_table is table:
                    continue
                columns = (col.name,)
                fk = ForeignKey(columns, dst_table.schema, dst_table.name, columns)
                if fk in fks:
                    continue
                LOGGER.info(
                    "Inferring foreign key %s->%s on %r", table, dst_table, columns
                )
                table.foreign_keys.append(fk)
''')
N(M, '''        return {
            f"{table.schema}.{table.name}": {
                f"{fk.dst_schema}.{fk.dst_table}"
                for fk in table.foreign_keys
                if (fk.dst_schema, fk.dst_table) not in ignore_tables
                and (fk.dst_schema, fk.dst_table) in self.tables
            }
            for table in self.tables.values()
            if (table.schema, table.name) not in ignore_tables
        }
''', '''        graph: Dict[str, Set[str]] = {}
        for key, table in self.tables.items():
            if key in ignore_tables:
                continue
            edges = graph[str(table)] = set()
            for fk in table.foreign_keys:
                dst = (fk.dst_schema, fk.dst_table)
                if dst in self.tables and dst not in ignore_tables:
                    edges.add(".".join(dst))
        return graph
''')
N(M, '''                dst_table = self.tables.get((fk.dst_schema, fk.dst_table))
                if dst_table is None:
                    continue
                dst_table.rev_foreign_keys.append(
                    ForeignKey(
                        columns=fk.dst_columns,
                        dst_schema=table.schema,
                        dst_table=table.name,
                        dst_columns=fk.columns,
                    )
                )
''', '''                key = (fk.dst_schema, fk.dst_table)
                if key in self.tables:
                    reverse = ForeignKey(
                        fk.dst_columns, table.schema, table.name, fk.columns
                    )
                    self.tables[key].rev_foreign_keys.append(reverse)
''')
N(M, '''                if self.supports_temp_reopen:
                    index = 0
                else:
                    index = reference_count.get(
                        (ident.table_schema, ident.table_name), 0
                    )
                    reference_count[(ident.table_schema, ident.table_name)] = index + 1
                return self.temp_tables[(ident.table_schema, ident.table_name, index)]
''', '''                key = (ident.table_schema, ident.table_name)
                index = 0
                if not self.supports_temp_reopen:
                    index = reference_count[key]
                    reference_count[key] += 1
                return self.temp_tables[(*key, index)]
''', M, '''        reference_count = {}
''', '''        reference_count: Dict[Tuple[str, str], int] = collections.defaultdict(int)
''')
N(M, '''            columns=tuple(col.name for col in fk.columns),
            dst_schema=fk.referred_table.schema,
            dst_table=fk.referred_table.name,
            dst_columns=tuple(elem.column.name for elem in fk.elements),
''', '''            columns=tuple(elem.parent.name for elem in fk.elements),
            dst_schema=fk.referred_table.schema,
            dst_table=fk.referred_table.name,
            dst_columns=tuple([elem.column.name for elem in fk.elements]),
''')
# --- solver
N(SO, '''    q = []
    for u, edges in G.items():
        if not edges:
            q.append(u)

    RG = reverse_graph(G)
    deg = {u: len(edges) for u, edges in G.items()}
''', '''    RG = reverse_graph(G)
    deg = {u: len(edges) for u, edges in G.items()}
    q = [u for u in G if deg[u] == 0]
''')
N(SO, '''    RG = {u: (set(edges) if union else set()) for u, edges in G.items()}
    for u, edges in G.items():
        for v in edges:
            RG[v].add(u)
    return RG
''', '''    RG: GraphT = {}
    for u in G:
        RG[u] = set()
    for u, edges in G.items():
        for v in edges:
            RG[v].add(u)
        if union:
            RG[u] |= edges
    return RG
''')
N(SO, '''    vis = {source}
    H = [source]
    result = [source]
    while H:
        H = toposort_reachable(G, H, vis)
        result.extend(H)
        vis.update(H)
        G, RG = RG, G

    return result
''', '''    vis = {source}
    result = [source]
    layer = [source]
    while True:
        layer = toposort_reachable(G, layer, vis)
        if not layer:
            return result
        result += layer
        vis |= set(layer)
        G, RG = RG, G
''')
N(SO, '''    return [
        x[0] for x in sorted(weight.items(), key=lambda x: (x[1], x[0]), reverse=True)
    ]
''', '''    ordered = sorted(((w, u) for u, w in weight.items()), reverse=True)
    return [u for _, u in ordered]
''')
# --- common
N(C, '''        dialect: DatabaseDialect = {  # type: ignore
            "postgresql": "postgres"
        }.get(url.get_backend_name(), url.get_backend_name())

        if self.isolation_level:
            isolation_level = self.isolation_level
        elif dialect == "sqlite":
            isolation_level = "SERIALIZABLE"
        else:
            isolation_level = "READ COMMITTED"
''', '''        dialect = url.get_backend_name()
        if dialect == "postgresql":
            dialect = "postgres"

        default_level = "SERIALIZABLE" if dialect == "sqlite" else "READ COMMITTED"
        isolation_level = self.isolation_level or default_level
''')
N(C, '''            cursor = dbapi_connection.cursor()
            try:
                if dialect == "sqlite":
                    for db_alias, db_file in self.sqlite_databases.items():
                        escaped_db_file = db_file.replace("'", "''")
                        escaped_alias = db_alias.replace('"', '""')
                        cursor.execute(
                            f"ATTACH DATABASE '{escaped_db_file}' as \\"{escaped_alias}\\""
                        )

                for session_sql in self.session_sqls:
                    cursor.execute(session_sql)
                # Session settings would otherwise be lost in the first rollback
                dbapi_connection.commit()
            finally:
                cursor.close()
''', '''            statements = []
            if dialect == "sqlite":
                statements.extend(
                    _attach_sql(alias, path)
                    for alias, path in self.sqlite_databases.items()
                )
            statements.extend(self.session_sqls)
            cursor = dbapi_connection.cursor()
            try:
                for statement in statements:
                    cursor.execute(statement)
                # Session settings would otherwise be lost in the first rollback
                dbapi_connection.commit()
            finally:
                cursor.close()
''', C, '''class DatabaseConfig(BaseModel):
''', '''def _attach_sql(alias: str, path: str) -> str:
    quoted_path = "'" + path.replace("'", "''") + "'"
    quoted_alias = '"' + alias.replace('"', '""') + '"'
    return f"ATTACH DATABASE {quoted_path} as {quoted_alias}"


class DatabaseConfig(BaseModel):
''')
N(C, '''    if dialect == "mysql":
        drivername = "mysql+pymysql"
        if not port:
            port = 3306
        extra_kwargs["query"] = {"charset": "utf8mb4"}
    elif dialect == "postgres":
        drivername = "postgresql+psycopg2"
        if not port:
            port = 5432
        if database:
            extra_kwargs["database"] = database
    elif dialect == "sqlite":
        return sa.engine.URL.create(drivername="sqlite", database=database)
    else:
        raise ValueError(f"Unsupported SQL dialect {dialect!r}")
''', '''    if dialect == "sqlite":
        return sa.engine.URL.create(drivername="sqlite", database=database)
    if dialect not in ("mysql", "postgres"):
        raise ValueError(f"Unsupported SQL dialect {dialect!r}")

    if dialect == "mysql":
        drivername, default_port = "mysql+pymysql", 3306
        extra_kwargs["query"] = {"charset": "utf8mb4"}
    else:
        drivername, default_port = "postgresql+psycopg2", 5432
        if database:
            extra_kwargs["database"] = database
    port = port or default_port
''')
N(C, '''    def _push(key: Any, value: Any):
        if isinstance(value, (BaseModel, list, dict)):
            if id(value) not in vis:
                vis.add(id(value))
                stack.append(value)

    _push(None, root)
    while stack:
        data = stack.pop()
        if isinstance(data, BaseModel):
            yield data
            for field, _ in data.model_fields.items():
                _push(field, getattr(data, field))

        if isinstance(data, list):
            for idx, elem in enumerate(data):
                _push(idx, elem)

        if isinstance(data, dict):
            for key, elem in data.items():
                _push(key, elem)''', '''    def _push(value: Any):
        if not isinstance(value, (BaseModel, list, dict)) or id(value) in vis:
            return
        vis.add(id(value))
        stack.append(value)

    _push(root)
    while stack:
        data = stack.pop()
        if isinstance(data, BaseModel):
            yield data
            children = [getattr(data, field) for field in data.model_fields]
        elif isinstance(data, dict):
            children = list(data.values())
        else:
            children = data
        for child in children:
            _push(child)''')
