"""Edits that keep the behaviour: helpers extracted and loops rewritten in filters, solver, metadata, common."""
SO = "solver.py"

# --- filters
N(F, '''    def filter_values(self, values: List[Any]) -> Iterable[Any]:
        for value in values:
            if value is None:
                yield None
            elif isinstance(value, str):
                yield ""
            elif isinstance(value, int):
                yield 0
            elif isinstance(value, float):
                yield 0.0
            elif isinstance(value, datetime):
                yield EPOCH.replace(tzinfo=value.tzinfo)
            else:
                raise ValueError(f"Cannot zero unknown type {str(type(value))}")
''', '''    @staticmethod
    def _zero(value: Any) -> Any:
        if value is None:
            return None
        if isinstance(value, datetime):
            return EPOCH.replace(tzinfo=value.tzinfo)
        if isinstance(value, str):
            return ""
        if isinstance(value, int):
            return 0
        if isinstance(value, float):
            return 0.0
        raise ValueError(f"Cannot zero unknown type {str(type(value))}")

    def filter_values(self, values: List[Any]) -> Iterable[Any]:
        return map(self._zero, values)
''')
N(F, '''    def filter_values(self, values: List[Any]) -> Iterable[Any]:
        for value in values:
            if value is None:
                yield None
            elif isinstance(value, str):
                yield ""
            elif isinstance(value, int):
                yield 0
            elif isinstance(value, float):
                yield 0.0
            elif isinstance(value, datetime):
                yield EPOCH.replace(tzinfo=value.tzinfo)
            else:
                raise ValueError(f"Cannot zero unknown type {str(type(value))}")
''', '''    def filter_values(self, values: List[Any]) -> Iterable[Any]:
        zeroed: List[Any] = []
        for value in values:
            if value is None:
                zeroed.append(None)
                continue
            if isinstance(value, datetime):
                zeroed.append(EPOCH.replace(tzinfo=value.tzinfo))
                continue
            for kind, zero in ((str, ""), (int, 0), (float, 0.0)):
                if isinstance(value, kind):
                    zeroed.append(zero)
                    break
            else:
                raise ValueError(f"Cannot zero unknown type {str(type(value))}")
        return zeroed
''')
N(F, '''        columns_out = tuple(
            column for column in columns_in if column not in column_act_set
        )
        super().__init__(columns_in, columns_out=columns_out)
        columns_in_index = {column: index for index, column in enumerate(columns_in)}
        self.columns_out_indices = [columns_in_index[column] for column in columns_out]
''', '''        kept = [
            (index, column)
            for index, column in enumerate(columns_in)
            if column not in column_act_set
        ]
        super().__init__(columns_in, columns_out=(column for _, column in kept))
        self.columns_out_indices = [index for index, _ in kept]
''')
N(F, '''        columns_out = tuple(
            column for column in columns_in if column not in column_act_set
        )
        super().__init__(columns_in, columns_out=columns_out)
        columns_in_index = {column: index for index, column in enumerate(columns_in)}
        self.columns_out_indices = [columns_in_index[column] for column in columns_out]
''', '''        self.columns_out_indices: List[int] = []
        columns_out: List[str] = []
        for index, column in enumerate(columns_in):
            if column in column_act_set:
                continue
            self.columns_out_indices.append(index)
            columns_out.append(column)
        super().__init__(columns_in, columns_out=columns_out)
''')
N(F, '''        values_in = list(values)
        return [values_in[index] for index in self.columns_out_indices]
''', '''        values_in = tuple(values)
        values_out = []
        for index in self.columns_out_indices:
            values_out.append(values_in[index])
        return values_out
''')
N(F, '''        result = list(values)
        for filter_view in self.filter_views:
            result = filter_view.filter_view(result)
        return result
''', '''        def _step(row: List[Any], view: FilterView) -> List[Any]:
            return view.filter_view(row)

        return functools.reduce(_step, self.filter_views, list(values))
''', F, '''import dataclasses
''', '''import dataclasses
import functools
''')
N(F, '''        cols_in = tuple(columns_in)
        cols_out = cols_in
        filter_views = []
        for filter_config in filter_configs:
            filter_view = filter_config.construct_filter(cols_out, filter_context=filter_context)  # type: ignore
            cols_out = filter_view.columns_out
            filter_views.append(filter_view)
        return cls(cols_in, cols_out, filter_views)
''', '''        cols_in = tuple(columns_in)
        filter_views: List[FilterView] = []

        def _columns() -> Tuple[str, ...]:
            if not filter_views:
                return cols_in
            return filter_views[-1].columns_out

        for filter_config in filter_configs:
            filter_views.append(
                filter_config.construct_filter(_columns(), filter_context=filter_context)  # type: ignore
            )
        return cls(cols_in, _columns(), filter_views)
''')
N(F, '''        for condition, condition_filter in zip(self.conditions, self.condition_filters):
            if condition.match(value):
                return condition_filter.filter_view(values_in)
        return list(values_in)
''', '''        chosen = next(
            (
                condition_filter
                for condition, condition_filter in zip(
                    self.conditions, self.condition_filters
                )
                if condition.match(value)
            ),
            None,
        )
        return list(values_in) if chosen is None else chosen.filter_view(values_in)
''')
N(F, '''        for condition, condition_filter in zip(self.conditions, self.condition_filters):
            if condition.match(value):
                return condition_filter.filter_view(values_in)
        return list(values_in)
''', '''        for index, condition in enumerate(self.conditions):
            if not condition.match(value):
                continue
            return self.condition_filters[index].filter_view(values_in)
        return [*values_in]
''')
N(F, '''        if op == "=":
            return value == self.value
        if op == "!=":
            return value != self.value
        if op == "<":
            return value < self.value
        if op == ">":
            return value > self.value
        if op == "<=":
            return value <= self.value
        if op == ">=":
            return value >= self.value
        if op == "matches":
            return fnmatch(value, self.value)
        raise ValueError("Unknown op")
''', '''        if op == "matches":
            return fnmatch(value, self.value)
        compare = _COMPARISONS.get(op)
        if compare is None:
            raise ValueError("Unknown op")
        return compare(value, self.value)
''', F, '''class MultiplexCondition(BaseModel):
''', '''_COMPARISONS = {
    "=": operator.eq,
    "!=": operator.ne,
    "<": operator.lt,
    ">": operator.gt,
    "<=": operator.le,
    ">=": operator.ge,
}


class MultiplexCondition(BaseModel):
''', F, '''import dataclasses
''', '''import dataclasses
import operator
''')
N(F, '''        op = self.op
        if op == "is":
            return value is self.value
        if op == "is not":
            return value is not self.value
        if op == "in":
            return value in self.value  # type: ignore
        if op == "not in":
            return value not in self.value  # type: ignore
        if op == "=":
''', '''        op, expected = self.op, self.value
        if op in ("is", "is not"):
            return (value is expected) == (op == "is")
        if op in ("in", "not in"):
            return (value in expected) == (op == "in")  # type: ignore
        if op == "=":
''')
N(F, '''        if op == "is":
            return value is self.value
        if op == "is not":
            return value is not self.value
        if op == "in":
            return value in self.value  # type: ignore
        if op == "not in":
            return value not in self.value  # type: ignore
        if op == "=":
            return value == self.value
        if op == "!=":
            return value != self.value
        if op == "<":
            return value < self.value
        if op == ">":
            return value > self.value
        if op == "<=":
            return value <= self.value
        if op == ">=":
            return value >= self.value
        if op == "matches":
            return fnmatch(value, self.value)
        raise ValueError("Unknown op")
''', '''        match op:
            case "is":
                return value is self.value
            case "is not":
                return value is not self.value
            case "in":
                return value in self.value  # type: ignore
            case "not in":
                return value not in self.value  # type: ignore
            case "=":
                return value == self.value
            case "!=":
                return value != self.value
            case "<":
                return value < self.value
            case ">":
                return value > self.value
            case "<=":
                return value <= self.value
            case ">=":
                return value >= self.value
            case "matches":
                return fnmatch(value, self.value)
            case _:
                raise ValueError("Unknown op")
''')
N(F, '''        self.conditions = tuple(conditions)
        self.condition_filters = tuple(
            condition.apply.construct_filter(columns_in, filter_context=filter_context)  # type: ignore
            for condition in self.conditions
        )
        for condition_filter in self.condition_filters:
            if condition_filter.columns_out != self.columns_out:
                raise ValueError(
                    "Cannot use filters with multiplex that modify columns"
                )
''', '''        self.conditions = tuple(conditions)
        self.condition_filters = tuple(
            self._construct(condition, filter_context) for condition in self.conditions
        )

    def _construct(
        self, condition: MultiplexCondition, filter_context: FilterContext
    ) -> FilterView:
        view = condition.apply.construct_filter(  # type: ignore
            self.columns_in, filter_context=filter_context
        )
        if view.columns_out != self.columns_out:
            raise ValueError("Cannot use filters with multiplex that modify columns")
        return view
''')
N(F, '''        try:
            self.column_index = self.columns_in.index(column)
        except ValueError as exc:
            raise ValueError("Multiplex column does not exist") from exc
''', '''        if column not in self.columns_in:
            raise ValueError("Multiplex column does not exist")
        self.column_index = self.columns_in.index(column)
''')
N(F, '''        return (None for _ in values)
''', '''        return [None] * len(values)
''')
N(F, '''        self.low = low
        self.high = high
        self.rng = rng or Random()

    def filter_values(self, values: List[Any]) -> Iterable[Any]:
        return (self.rng.randint(self.low, self.high) for _ in values)
''', '''        self.rng = Random() if rng is None else rng
        self.low, self.high = low, high

    def filter_values(self, values: List[Any]) -> Iterable[Any]:
        for _ in range(len(values)):
            yield self.rng.randint(self.low, self.high)
''')
N(F, '''            alphabet = _ALPHABET_MAP.get(self.alphabet, self.custom_alphabet)
            if not alphabet:
                raise ValueError("Custom alphabet cannot be empty")
''', '''            if self.alphabet == "custom":
                if not self.custom_alphabet:
                    raise ValueError("Custom alphabet cannot be empty")
                alphabet = self.custom_alphabet
            else:
                alphabet = _ALPHABET_MAP[self.alphabet]
''')
N(F, '''        super().__init__(columns_in, columns_act)
        self.values = tuple(values)
        if len(self.values) != len(self.columns_act):
            raise ValueError(
                "Number of columns and values must match for constant filter"
            )
''', '''        constants = tuple(values)
        super().__init__(columns_in, columns_act)
        if len(constants) > len(self.columns_act) or len(constants) < len(
            self.columns_act
        ):
            raise ValueError(
                "Number of columns and values must match for constant filter"
            )
        self.values = constants
''')
N(F, '''        faker = faker or Faker()
        self.faker: Faker = faker.unique if unique else faker  # type: ignore
''', '''        if faker is None:
            faker = Faker()
        if unique:
            faker = faker.unique  # type: ignore
        self.faker = faker
''')
N(F, '''FilterFakeEmail = _simple_faker_class("fake_email", lambda faker: faker.email())
FilterFakeFirstName = _simple_faker_class(
    "fake_first_name", lambda faker: faker.first_name()
)
''', '''FilterFakeEmail = _simple_faker_class("fake_email", operator.methodcaller("email"))
FilterFakeFirstName = _simple_faker_class(
    "fake_first_name", operator.methodcaller("first_name")
)
''', F, '''import dataclasses
''', '''import dataclasses
import operator
''')
N(F, '''            try:
                try:
                    module = import_module(self.module)
                except ImportError as exc:
                    raise ValueError(
                        f"Failed to import module {self.module} for plugin"
                    ) from exc
                try:
                    clazz = getattr(module, self.clazz)
                except AttributeError as exc:
                    raise ValueError(
                        f"Could not find plugin attribute {self.clazz} in {self.module}"
                    ) from exc
                plugin = clazz(**self.kwargs)
            except''', '''            try:
                plugin = self._load_class()(**self.kwargs)
            except''', F, '''            return FilterPlugin(columns_in, self.columns, plugin)
''', '''            return FilterPlugin(columns_in, self.columns, plugin)

        def _load_class(self) -> Any:
            try:
                module = import_module(self.module)
            except ImportError as exc:
                raise ValueError(
                    f"Failed to import module {self.module} for plugin"
                ) from exc
            try:
                return getattr(module, self.clazz)
            except AttributeError as exc:
                raise ValueError(
                    f"Could not find plugin attribute {self.clazz} in {self.module}"
                ) from exc
''')
N(F, '''        self.columns_in = tuple(columns_in)
        self.columns_out = (
            self.columns_in if columns_out is None else tuple(columns_out)
        )
''', '''        self.columns_in = tuple(columns_in)
        if columns_out is None:
            columns_out = self.columns_in
        self.columns_out = tuple(columns_out)
''')
N(F, '''        values_out = list(values)
        filtered_values = self.filter_values(
            [values_out[index] for index in self.column_act_indices]
        )
        for index, filtered_value in zip(self.column_act_indices, filtered_values):
            values_out[index] = filtered_value
        return values_out
''', '''        values_out = list(values)
        acted_on = []
        for index in self.column_act_indices:
            acted_on.append(values_out[index])
        remaining = iter(self.column_act_indices)
        for filtered_value in self.filter_values(acted_on):
            index = next(remaining, None)
            if index is None:
                break
            values_out[index] = filtered_value
        return values_out
''')

# --- solver
N(SO, '''    q = []
    for u, edges in G.items():
        if not edges:
            q.append(u)

    RG = reverse_graph(G)
    deg = {u: len(edges) for u, edges in G.items()}
    for u in q:
        for v in RG[u]:
            deg[v] -= 1
            if not deg[v]:
                # This is intended and well-defined behavior
                # pylint: disable=modified-iterating-list
                q.append(v)

    if len(q) < len(G):
        raise ValueError("Cycle detected in graph")

    return q
''', '''    q = collections.deque(u for u, edges in G.items() if not edges)

    RG = reverse_graph(G)
    deg = {u: len(edges) for u, edges in G.items()}
    order = []
    while q:
        u = q.popleft()
        order.append(u)
        for v in RG[u]:
            deg[v] -= 1
            if deg[v] == 0:
                q.append(v)

    if len(order) != len(G):
        raise ValueError("Cycle detected in graph")

    return order
''', SO, '''import logging
''', '''import collections
import logging
''')
N(SO, '''    q = []
    for u, edges in G.items():
        if not edges:
            q.append(u)

    RG = reverse_graph(G)
    deg = {u: len(edges) for u, edges in G.items()}
    for u in q:
''', '''    deg = {u: len(edges) for u, edges in G.items()}
    q = [u for u, count in deg.items() if count == 0]

    RG = reverse_graph(G)
    for u in q:
''')
N(SO, '''    RG = {u: (set(edges) if union else set()) for u, edges in G.items()}
    for u, edges in G.items():
        for v in edges:
            RG[v].add(u)
    return RG
''', '''    RG: GraphT = {}
    for u in G:
        RG[u] = set(G[u]) if union else set()
    for u, v in ((u, v) for u, edges in G.items() for v in edges):
        RG[v].add(u)
    return RG
''')
N(SO, '''    vis = {source}
    H = [source]
    result = [source]
    while H:
        H = toposort_reachable(G, H, vis)
        result.extend(H)
        vis.update(H)
        G, RG = RG, G

    return result
''', '''    vis = {source}
    result = [source]
    H = [source]
    while True:
        H = toposort_reachable(G, H, vis)
        if not H:
            return result
        for u in H:
            vis.add(u)
            result.append(u)
        G, RG = RG, G
''')
N(SO, '''    RG = reverse_graph(G)

    if not G[source]:
        G, RG = RG, G
''', '''    RG = reverse_graph(G)
    G, RG = (G, RG) if G[source] else (RG, G)
''')
N(SO, '''                if v in on_stk:
                    cyc = []
                    for w, _ in reversed(stk):
                        cyc.append(w)
                        if w == v:
                            break
                    raise CycleException(cyc[::-1])
''', '''                if v in on_stk:
                    path = [w for w, _ in stk]
                    raise CycleException(path[path.index(v) :])
''')
N(SO, '''    return [
        x[0] for x in sorted(weight.items(), key=lambda x: (x[1], x[0]), reverse=True)
    ]
''', '''    def _rank(u: NodeT):
        return (weight[u], u)

    return sorted(weight, key=_rank, reverse=True)
''')

# --- metadata
N(MD, '''        table_set: Set[Tuple[str, str]] = set()
        table_queue: List[Tuple[str, str]] = []
        for table_id, table_obj in metadata_obj.tables.items():
            assert table_obj.schema is not None
            if any(fnmatch(table_id, select_pattern) for select_pattern in select):
                table_set.add((table_obj.schema, table_obj.name))
                table_queue.append((table_obj.schema, table_obj.name))
''', '''        table_queue: List[Tuple[str, str]] = []
        for table_id, table_obj in metadata_obj.tables.items():
            assert table_obj.schema is not None
            for select_pattern in select:
                if fnmatch(table_id, select_pattern):
                    table_queue.append((table_obj.schema, table_obj.name))
                    break
        table_set: Set[Tuple[str, str]] = set(table_queue)
''')
N(MD, '''        num_selected_tables = len(table_queue)
        for schema, table in table_queue:
            table_obj = metadata_obj.tables[f"{schema}.{table}"]
            for ref_schema, ref_table in table_deps[(schema, table)]:
                if (ref_schema, ref_table) not in table_set:
                    table_set.add((ref_schema, ref_table))
                    table_queue.append((ref_schema, ref_table))
''', '''        num_selected_tables = len(table_queue)
        position = 0
        while position < len(table_queue):
            for ref_id in table_deps[table_queue[position]]:
                if ref_id in table_set:
                    continue
                table_set.add(ref_id)
                table_queue.append(ref_id)
            position += 1
''')
N(MD, '''        table_deps: Dict[Tuple[str, str], List[Tuple[str, str]]] = (
            collections.defaultdict(list)
        )
        for table_obj in metadata_obj.tables.values():
            assert table_obj.schema is not None
            for fk in table_obj.foreign_key_constraints:
                ref_table_obj = fk.referred_table
                assert ref_table_obj.schema is not None
                if close_forward:
                    table_deps[(table_obj.schema, table_obj.name)].append(
                        (ref_table_obj.schema, ref_table_obj.name)
                    )
                if close_backward:
                    table_deps[(ref_table_obj.schema, ref_table_obj.name)].append(
                        (table_obj.schema, table_obj.name)
                    )
''', '''        table_deps: Dict[Tuple[str, str], List[Tuple[str, str]]] = {}
        for table_obj in metadata_obj.tables.values():
            assert table_obj.schema is not None
            table_key = (table_obj.schema, table_obj.name)
            table_deps.setdefault(table_key, [])
            for fk in table_obj.foreign_key_constraints:
                ref_table_obj = fk.referred_table
                assert ref_table_obj.schema is not None
                ref_key = (ref_table_obj.schema, ref_table_obj.name)
                if close_forward:
                    table_deps[table_key].append(ref_key)
                if close_backward:
                    table_deps.setdefault(ref_key, []).append(table_key)
''')
N(MD, '''        return (
            cls(
                metadata_obj,
                {
                    (schema, table): TableMetadata(
                        metadata_obj.tables[f"{schema}.{table}"]
                    )
                    for schema, table in table_queue
                },
                supports_temp_reopen=engine.dialect.name != "mysql",
            ),
            table_queue[num_selected_tables:],
        )
''', '''        tables: Dict[Tuple[str, str], TableMetadata] = {}
        for table_id in table_queue:
            tables[table_id] = TableMetadata(metadata_obj.tables[".".join(table_id)])

        supports_temp_reopen = engine.dialect.name != "mysql"
        meta = cls(metadata_obj, tables, supports_temp_reopen=supports_temp_reopen)
        return meta, table_queue[num_selected_tables:]
''')
N(MD, '''            map_key = _key_pk(table.schema, table.primary_key)
            if map_key in pk_map:
                LOGGER.info("Duplicate primary key columns found %r", table.primary_key)
                pk_map[map_key] = None
            else:
                pk_map[map_key] = table
''', '''            map_key = _key_pk(table.schema, table.primary_key)
            duplicate = map_key in pk_map
            if duplicate:
                LOGGER.info("Duplicate primary key columns found %r", table.primary_key)
            pk_map[map_key] = None if duplicate else table
''')
N(MD, '''                dst_table = pk_map.get(_key_pk(table.schema, (col.name,)))
                if dst_table is not None and dst_table is not table:
                    fk = ForeignKey(
                        columns=(col.name,),
                        dst_schema=dst_table.schema,
                        dst_table=dst_table.name,
                        dst_columns=(col.name,),
                    )
                    if fk not in fks:
                        LOGGER.info(
                            "Inferring foreign key %s->%s on %r",
                            table,
                            dst_table,
                            fk.columns,
                        )
                        table.foreign_keys.append(fk)
''', '''                columns = (col.name,)
                dst_table = pk_map.get(_key_pk(table.schema, columns))
                if dst_table is None or dst_table is table:
                    continue
                fk = ForeignKey(columns, dst_table.schema, dst_table.name, columns)
                if fk in fks:
                    continue
                LOGGER.info(
                    "Inferring foreign key %s->%s on %r", table, dst_table, columns
                )
                table.foreign_keys.append(fk)
''')
N(MD, '''        for table in self.tables.values():
            for fk in table.foreign_keys:
                dst_table = self.tables.get((fk.dst_schema, fk.dst_table))
                if dst_table is None:
                    continue
                dst_table.rev_foreign_keys.append(
                    ForeignKey(
                        columns=fk.dst_columns,
                        dst_schema=table.schema,
                        dst_table=table.name,
                        dst_columns=fk.columns,
                    )
                )
''', '''        for table in self.tables.values():
            for fk in table.foreign_keys:
                dst_key = (fk.dst_schema, fk.dst_table)
                if dst_key in self.tables:
                    self.tables[dst_key].rev_foreign_keys.append(table.reverse_key(fk))
''', MD, '''    def __str__(self) -> str:
        return f"{self.schema}.{self.name}"
''', '''    def __str__(self) -> str:
        return f"{self.schema}.{self.name}"

    def reverse_key(self, fk: ForeignKey) -> ForeignKey:
        return ForeignKey(
            columns=fk.dst_columns,
            dst_schema=self.schema,
            dst_table=self.name,
            dst_columns=fk.columns,
        )
''')
N(MD, '''        if ignore_tables is None:
            ignore_tables = set()
        return {
            f"{table.schema}.{table.name}": {
                f"{fk.dst_schema}.{fk.dst_table}"
                for fk in table.foreign_keys
                if (fk.dst_schema, fk.dst_table) not in ignore_tables
                and (fk.dst_schema, fk.dst_table) in self.tables
            }
            for table in self.tables.values()
            if (table.schema, table.name) not in ignore_tables
        }
''', '''        included = set(self.tables) - (ignore_tables or set())
        graph: Dict[str, Set[str]] = {}
        for table in self.tables.values():
            if (table.schema, table.name) not in included:
                continue
            edges = graph[str(table)] = set()
            for fk in table.foreign_keys:
                if (fk.dst_schema, fk.dst_table) in included:
                    edges.add(f"{fk.dst_schema}.{fk.dst_table}")
        return graph
''')
N(MD, '''        reference_count = {}

        def _context(ident: SQLTableIdentifier) -> sa.Table:
            if ident.sampled:
                if self.supports_temp_reopen:
                    index = 0
                else:
                    index = reference_count.get(
                        (ident.table_schema, ident.table_name), 0
                    )
                    reference_count[(ident.table_schema, ident.table_name)] = index + 1
                return self.temp_tables[(ident.table_schema, ident.table_name, index)]
            return self.tables[(ident.table_schema, ident.table_name)].table_obj
''', '''        reference_count: Dict[Tuple[str, str], int] = collections.defaultdict(int)

        def _context(ident: SQLTableIdentifier) -> sa.Table:
            key = (ident.table_schema, ident.table_name)
            if not ident.sampled:
                return self.tables[key].table_obj
            index = 0
            if not self.supports_temp_reopen:
                index = reference_count[key]
                reference_count[key] += 1
            return self.temp_tables[key + (index,)]
''')

# --- common
N(C, '''    parts = full_table_name.split(".", 1)
    if len(parts) != 2:
        raise ValueError(f"Table name {full_table_name!r} contains no schema")
    return (parts[0], parts[1])
''', '''    schema, dot, table_name = full_table_name.partition(".")
    if not dot:
        raise ValueError(f"Table name {full_table_name!r} contains no schema")
    return schema, table_name
''')
N(C, '''        as_dict = self.model_dump(exclude_unset=True)
            require = as_dict.get(
                "require", bool(os.getenv(f"{env_prefix}SSL_REQUIRE", ""))
            )
''', '''        as_dict = self.model_dump(exclude_unset=True)
            if "require" in as_dict:
                require = as_dict["require"]
            else:
                require = bool(os.getenv(f"{env_prefix}SSL_REQUIRE", ""))
''')
N(C, '''            result: Dict
            if dialect == "postgres":
                if server_verify == "identity":
                    sslmode = "verify-full"
                elif server_verify == "cert":
                    sslmode = "verify-ca"
                else:
                    sslmode = "require"

                result = {
''', '''            result: Dict
            if dialect == "postgres":
                sslmode = {"identity": "verify-full", "cert": "verify-ca"}.get(
                    server_verify, "require"
                )

                result = {
''')
N(C, '''        dialect: DatabaseDialect = {  # type: ignore
            "postgresql": "postgres"
        }.get(url.get_backend_name(), url.get_backend_name())

        if self.isolation_level:
            isolation_level = self.isolation_level
        elif dialect == "sqlite":
            isolation_level = "SERIALIZABLE"
        else:
            isolation_level = "READ COMMITTED"
''', '''        dialect: Any = url.get_backend_name()
        if dialect == "postgresql":
            dialect = "postgres"

        isolation_level = self.isolation_level or (
            "SERIALIZABLE" if dialect == "sqlite" else "READ COMMITTED"
        )
''')
N(C, '''        @sa.event.listens_for(engine, "connect")
        def _set_session_sqls(dbapi_connection, _):
            cursor = dbapi_connection.cursor()
            try:
                if dialect == "sqlite":
                    for db_alias, db_file in self.sqlite_databases.items():
                        escaped_db_file = db_file.replace("'", "''")
                        escaped_alias = db_alias.replace('"', '""')
                        cursor.execute(
                            f"ATTACH DATABASE '{escaped_db_file}' as \\"{escaped_alias}\\""
                        )

                for session_sql in self.session_sqls:
                    cursor.execute(session_sql)
                # Session settings would otherwise be lost in the first rollback
                dbapi_connection.commit()
            finally:
                cursor.close()
''', '''        statements: List[str] = []
        if dialect == "sqlite":
            for db_alias, db_file in self.sqlite_databases.items():  # type: ignore
                escaped_db_file = db_file.replace("'", "''")
                escaped_alias = db_alias.replace('"', '""')
                statements.append(
                    f"ATTACH DATABASE '{escaped_db_file}' as \\"{escaped_alias}\\""
                )
        statements.extend(self.session_sqls)

        @sa.event.listens_for(engine, "connect")
        def _set_session_sqls(dbapi_connection, _):
            with contextlib.closing(dbapi_connection.cursor()) as cursor:
                for statement in statements:
                    cursor.execute(statement)
                # Session settings would otherwise be lost in the first rollback
                dbapi_connection.commit()
''', C, '''import logging
''', '''import contextlib
import logging
''')
N(C, '''    extra_kwargs: Dict[str, Any] = {}
    if dialect == "mysql":
        drivername = "mysql+pymysql"
        if not port:
            port = 3306
        extra_kwargs["query"] = {"charset": "utf8mb4"}
    elif dialect == "postgres":
        drivername = "postgresql+psycopg2"
        if not port:
            port = 5432
        if database:
            extra_kwargs["database"] = database
    elif dialect == "sqlite":
        return sa.engine.URL.create(drivername="sqlite", database=database)
    else:
        raise ValueError(f"Unsupported SQL dialect {dialect!r}")
''', '''    if dialect == "sqlite":
        return sa.engine.URL.create(drivername="sqlite", database=database)

    extra_kwargs: Dict[str, Any] = {}
    drivers = {
        "mysql": ("mysql+pymysql", 3306),
        "postgres": ("postgresql+psycopg2", 5432),
    }
    if dialect not in drivers:
        raise ValueError(f"Unsupported SQL dialect {dialect!r}")
    drivername, default_port = drivers[dialect]
    port = port or default_port
    if dialect == "mysql":
        extra_kwargs["query"] = {"charset": "utf8mb4"}
    elif database:
        extra_kwargs["database"] = database
''')
N(C, '''    vis = set()
    stack = []

    def _push(key: Any, value: Any):
        if isinstance(value, (BaseModel, list, dict)):
            if id(value) not in vis:
                vis.add(id(value))
                stack.append(value)

    _push(None, root)
    while stack:
        data = stack.pop()
        if isinstance(data, BaseModel):
            yield data
            for field, _ in data.model_fields.items():
                _push(field, getattr(data, field))

        if isinstance(data, list):
            for idx, elem in enumerate(data):
                _push(idx, elem)

        if isinstance(data, dict):
            for key, elem in data.items():
                _push(key, elem)
''', '''    vis = set()
    stack = [root]
    while stack:
        data = stack.pop()
        if not isinstance(data, (BaseModel, list, dict)) or id(data) in vis:
            continue
        vis.add(id(data))
        if isinstance(data, BaseModel):
            yield data
            stack.extend(getattr(data, field) for field in data.model_fields)
        elif isinstance(data, dict):
            stack.extend(data.values())
        else:
            stack.extend(data)
''')
