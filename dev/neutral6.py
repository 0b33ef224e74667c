"""Edits that keep the behaviour: a sixth set, the smaller modules."""

SO = "solver.py"

# --- metadata
N(MD, '''        table_set: Set[Tuple[str, str]] = set()
        table_queue: List[Tuple[str, str]] = []
        for table_id, table_obj in metadata_obj.tables.items():
            assert table_obj.schema is not None
            if any(fnmatch(table_id, select_pattern) for select_pattern in select):
                table_set.add((table_obj.schema, table_obj.name))
                table_queue.append((table_obj.schema, table_obj.name))
''', '''        def is_selected(table_id: str) -> bool:
            for select_pattern in select:
                if fnmatch(table_id, select_pattern):
                    return True
            return False

        table_queue: List[Tuple[str, str]] = []
        for table_id, table_obj in metadata_obj.tables.items():
            assert table_obj.schema is not None
            if not is_selected(table_id):
                continue
            table_queue.append((table_obj.schema, table_obj.name))
        table_set: Set[Tuple[str, str]] = set(table_queue)
''')
N(MD, '''        num_selected_tables = len(table_queue)
        for schema, table in table_queue:
            table_obj = metadata_obj.tables[f"{schema}.{table}"]
            for ref_schema, ref_table in table_deps[(schema, table)]:
                if (ref_schema, ref_table) not in table_set:
                    table_set.add((ref_schema, ref_table))
                    table_queue.append((ref_schema, ref_table))
''', '''        num_selected_tables = len(table_queue)
        position = 0
        while position < len(table_queue):
            current = table_queue[position]
            position += 1
            for ref in table_deps[current]:
                if ref in table_set:
                    continue
                table_set.add(ref)
                table_queue.append(ref)
''')
N(MD, '''                ref_table_obj = fk.referred_table
                assert ref_table_obj.schema is not None
                if close_forward:
                    table_deps[(table_obj.schema, table_obj.name)].append(
                        (ref_table_obj.schema, ref_table_obj.name)
                    )
                if close_backward:
                    table_deps[(ref_table_obj.schema, ref_table_obj.name)].append(
                        (table_obj.schema, table_obj.name)
                    )
''', '''                ref_table_obj = fk.referred_table
                assert ref_table_obj.schema is not None
                src_key = (table_obj.schema, table_obj.name)
                dst_key = (ref_table_obj.schema, ref_table_obj.name)
                if close_forward:
                    table_deps[src_key].append(dst_key)
                if close_backward:
                    table_deps[dst_key].append(src_key)
''')
N(MD, '''        return (
            cls(
                metadata_obj,
                {
                    (schema, table): TableMetadata(
                        metadata_obj.tables[f"{schema}.{table}"]
                    )
                    for schema, table in table_queue
                },
                supports_temp_reopen=engine.dialect.name != "mysql",
            ),
            table_queue[num_selected_tables:],
        )
''', '''        tables: Dict[Tuple[str, str], TableMetadata] = {}
        for key in table_queue:
            tables[key] = TableMetadata(metadata_obj.tables[".".join(key)])
        additional = table_queue[num_selected_tables:]
        supports_temp_reopen = not engine.dialect.name == "mysql"
        result = cls(metadata_obj, tables, supports_temp_reopen=supports_temp_reopen)
        return result, additional
''')
N(MD, '''            map_key = _key_pk(table.schema, table.primary_key)
            if map_key in pk_map:
                LOGGER.info("Duplicate primary key columns found %r", table.primary_key)
                pk_map[map_key] = None
            else:
                pk_map[map_key] = table
''', '''            map_key = _key_pk(table.schema, table.primary_key)
            duplicate = map_key in pk_map
            if duplicate:
                LOGGER.info("Duplicate primary key columns found %r", table.primary_key)
            pk_map[map_key] = None if duplicate else table
''')
N(MD, '''        # Only infer single column primary keys
        for table in self.tables.values():
            fks = set(table.foreign_keys)
            for col in table.table_obj.columns:
                dst_table = pk_map.get(_key_pk(table.schema, (col.name,)))
                if dst_table is not None and dst_table is not table:
''', '''        # Only infer single column primary keys
        for table in list(self.tables.values()):
            fks = frozenset(table.foreign_keys)
            for col in table.table_obj.columns:
                lookup_key = _key_pk(table.schema, (col.name,))
                dst_table = pk_map[lookup_key] if lookup_key in pk_map else None
                if not (dst_table is None or dst_table is table):
''')
N(MD, '''        def _key_pk(schema: str, pk: Tuple[str, ...]):
            if infer_all:
                return pk
            return (schema, pk)
''', '''        def _key_pk(schema: str, pk: Tuple[str, ...]):
            return pk if infer_all else (schema, pk)
''')
N(MD, '''        return cls(
            columns=tuple(col.name for col in fk.columns),
            dst_schema=fk.referred_table.schema,
            dst_table=fk.referred_table.name,
            dst_columns=tuple(elem.column.name for elem in fk.elements),
        )
''', '''        referred = fk.referred_table
        own_columns = [col.name for col in fk.columns]
        referred_columns = [elem.column.name for elem in fk.elements]
        return cls(
            tuple(own_columns),
            referred.schema,
            referred.name,
            tuple(referred_columns),
        )
''')
N(MD, '''        self.foreign_keys = [
            ForeignKey.from_schema(fk) for fk in table_obj.foreign_key_constraints
        ]
        self.rev_foreign_keys: List[ForeignKey] = []
''', '''        self.rev_foreign_keys: List[ForeignKey] = []
        self.foreign_keys: List[ForeignKey] = []
        for constraint in table_obj.foreign_key_constraints:
            self.foreign_keys.append(ForeignKey.from_schema(constraint))
''')

# --- solver
N(SO, '''    q = []
    for u, edges in G.items():
        if not edges:
            q.append(u)

    RG = reverse_graph(G)
    deg = {u: len(edges) for u, edges in G.items()}
    for u in q:
        for v in RG[u]:
            deg[v] -= 1
            if not deg[v]:
                # This is intended and well-defined behavior
                # pylint: disable=modified-iterating-list
                q.append(v)

    if len(q) < len(G):
        raise ValueError("Cycle detected in graph")

    return q
''', '''    remaining = {u: len(edges) for u, edges in G.items()}
    RG = reverse_graph(G)
    order = [u for u, count in remaining.items() if count == 0]
    index = 0
    while index < len(order):
        for v in RG[order[index]]:
            remaining[v] -= 1
            if remaining[v] == 0:
                order.append(v)
        index += 1

    if len(order) != len(G):
        raise ValueError("Cycle detected in graph")

    return order
''')
N(SO, '''                if v in on_stk:
                    cyc = []
                    for w, _ in reversed(stk):
                        cyc.append(w)
                        if w == v:
                            break
                    raise CycleException(cyc[::-1])
                if v in weight:
''', '''                if v in on_stk:
                    path = [w for w, _ in stk]
                    raise CycleException(path[path.index(v) :])
                if v in weight:
''')
N(SO, '''            on_stk: Set[NodeT] = {u}
            stk: List[Tuple[NodeT, Iterator[NodeT]]] = [(u, iter(G[u]))]
            weight[u] = 1

            while stk:
                u, it = stk[-1]
                try:
                    v = next(it)
                except StopIteration:
                    stk.pop()
                    on_stk.remove(u)
                    if stk:
                        weight[stk[-1][0]] += weight[u]
                    continue

                if v in ignore:
                    continue
                if v in on_stk:
                    cyc = []
                    for w, _ in reversed(stk):
                        cyc.append(w)
                        if w == v:
                            break
                    raise CycleException(cyc[::-1])
                if v in weight:
                    weight[u] += weight[v]
                else:
                    weight[v] = 1
                    on_stk.add(v)
                    stk.append((v, iter(G[v])))

    return [
        x[0] for x in sorted(weight.items(), key=lambda x: (x[1], x[0]), reverse=True)
    ]
''', '''            _visit(G, u, ignore, weight)

    return sorted(weight, key=lambda u: (weight[u], u), reverse=True)


def _visit(
    G: GraphT, root: NodeT, ignore: Set[NodeT], weight: Dict[NodeT, int]
) -> None:
    on_stk: Set[NodeT] = {root}
    stk: List[Tuple[NodeT, Iterator[NodeT]]] = [(root, iter(G[root]))]
    weight[root] = 1

    while stk:
        u, it = stk[-1]
        try:
            v = next(it)
        except StopIteration:
            stk.pop()
            on_stk.remove(u)
            if stk:
                weight[stk[-1][0]] += weight[u]
            continue

        if v in ignore:
            continue
        if v in on_stk:
            cyc = []
            for w, _ in reversed(stk):
                cyc.append(w)
                if w == v:
                    break
            raise CycleException(cyc[::-1])
        if v in weight:
            weight[u] += weight[v]
        else:
            weight[v] = 1
            on_stk.add(v)
            stk.append((v, iter(G[v])))
''')
N(SO, '''    RG = reverse_graph(G)

    if not G[source]:
        G, RG = RG, G

    vis = {source}
    H = [source]
    result = [source]
    while H:
        H = toposort_reachable(G, H, vis)
        result.extend(H)
        vis.update(H)
        G, RG = RG, G

    return result
''', '''    RG = reverse_graph(G)
    directions = (G, RG) if G[source] else (RG, G)

    result = [source]
    vis = {source}
    layer = [source]
    step = 0
    while layer:
        layer = toposort_reachable(directions[step % 2], layer, vis)
        result += layer
        vis |= set(layer)
        step += 1

    return result
''')
N(SO, '''    RG = {u: (set(edges) if union else set()) for u, edges in G.items()}
    for u, edges in G.items():
        for v in edges:
            RG[v].add(u)
    return RG
''', '''    if union:
        RG = {u: set(edges) for u, edges in G.items()}
    else:
        RG = {u: set() for u in G}
    for u in G:
        for v in G[u]:
            RG[v].add(u)
    return RG
''')

# --- filters
N(F, '''    column_index_map = {column: index for index, column in enumerate(columns_in)}
    column_act_indices = []
    for column in columns_act:
        act_index = column_index_map.get(column)
        if act_index is None:
            raise ValueError(
                f"Filter {filter_name} refers to non-existant column {column}"
            )
        column_act_indices.append(act_index)
    return tuple(column_act_indices)
''', '''    for column in columns_act:
        if column not in columns_in:
            raise ValueError(
                f"Filter {filter_name} refers to non-existant column {column}"
            )
    return tuple(columns_in.index(column) for column in columns_act)
''')
N(F, '''    cols_seen: Dict[str, int] = {}
    for index, column in enumerate(columns_act):
        if cols_seen.setdefault(column, index) != index:
            raise ValueError(f"Filter {filter_name} has duplicate column {column}")
''', '''    cols_seen = set()
    for column in columns_act:
        if column in cols_seen:
            raise ValueError(f"Filter {filter_name} has duplicate column {column}")
        cols_seen.add(column)
''')
N(F, '''        values_out = list(values)
        filtered_values = self.filter_values(
            [values_out[index] for index in self.column_act_indices]
        )
        for index, filtered_value in zip(self.column_act_indices, filtered_values):
            values_out[index] = filtered_value
        return values_out
''', '''        values_in = list(values)
        acted = [values_in[index] for index in self.column_act_indices]
        replaced = dict(zip(self.column_act_indices, self.filter_values(acted)))
        return [replaced.get(index, value) for index, value in enumerate(values_in)]
''')
N(F, '''        column_act_set = set(self.columns_act)
        columns_out = tuple(
            column for column in columns_in if column not in column_act_set
        )
        super().__init__(columns_in, columns_out=columns_out)
        columns_in_index = {column: index for index, column in enumerate(columns_in)}
        self.columns_out_indices = [columns_in_index[column] for column in columns_out]
''', '''        kept = [
            (index, column)
            for index, column in enumerate(columns_in)
            if column not in self.columns_act
        ]
        super().__init__(columns_in, columns_out=[column for _, column in kept])
        self.columns_out_indices = [index for index, _ in kept]
''')
N(F, '''        for value in values:
            if value is None:
                yield None
            elif isinstance(value, str):
                yield ""
            elif isinstance(value, int):
                yield 0
            elif isinstance(value, float):
                yield 0.0
            elif isinstance(value, datetime):
                yield EPOCH.replace(tzinfo=value.tzinfo)
            else:
                raise ValueError(f"Cannot zero unknown type {str(type(value))}")
''', '''        return [self._zero(value) for value in values]

    @staticmethod
    def _zero(value: Any) -> Any:
        if value is None:
            return None
        if isinstance(value, datetime):
            return EPOCH.replace(tzinfo=value.tzinfo)
        for type_, zero in ((str, ""), (int, 0), (float, 0.0)):
            if isinstance(value, type_):
                return zero
        raise ValueError(f"Cannot zero unknown type {str(type(value))}")
''')
N(F, '''        return ("".join(self.rng.choices(self.alphabet, k=self.length)) for _ in values)
''', '''        return [self._random_string() for _ in values]

    def _random_string(self) -> str:
        chars = self.rng.choices(self.alphabet, k=self.length)
        return "".join(chars)
''')
N(F, '''            alphabet = _ALPHABET_MAP.get(self.alphabet, self.custom_alphabet)
            if not alphabet:
                raise ValueError("Custom alphabet cannot be empty")
''', '''            if self.alphabet == "custom":
                if not self.custom_alphabet:
                    raise ValueError("Custom alphabet cannot be empty")
                alphabet = self.custom_alphabet
            else:
                alphabet = _ALPHABET_MAP[self.alphabet]
''')
N(F, '''        super().__init__(columns_in, columns_act)
        faker = faker or Faker()
        self.faker: Faker = faker.unique if unique else faker  # type: ignore
''', '''        super().__init__(columns_in, columns_act)
        if faker is None:
            faker = Faker()
        if unique:
            self.faker: Faker = faker.unique  # type: ignore
        else:
            self.faker = faker
''')
N(F, '''        cols_in = tuple(columns_in)
        cols_out = cols_in
        filter_views = []
        for filter_config in filter_configs:
            filter_view = filter_config.construct_filter(cols_out, filter_context=filter_context)  # type: ignore
            cols_out = filter_view.columns_out
            filter_views.append(filter_view)
        return cls(cols_in, cols_out, filter_views)
''', '''        cols_in = tuple(columns_in)
        filter_views: List[FilterView] = []
        for filter_config in filter_configs:
            current = filter_views[-1].columns_out if filter_views else cols_in
            filter_views.append(
                filter_config.construct_filter(current, filter_context=filter_context)  # type: ignore
            )
        cols_out = filter_views[-1].columns_out if filter_views else cols_in
        return cls(cols_in, cols_out, filter_views)
''')
N(F, '''        return (self.rng.randint(self.low, self.high) for _ in values)
''', '''        rng, low, high = self.rng, self.low, self.high
        result = []
        for _ in values:
            result.append(rng.randint(low, high))
        return result
''')
N(F, '''            try:
                try:
                    module = import_module(self.module)
                except ImportError as exc:
                    raise ValueError(
                        f"Failed to import module {self.module} for plugin"
                    ) from exc
                try:
                    clazz = getattr(module, self.clazz)
                except AttributeError as exc:
                    raise ValueError(
                        f"Could not find plugin attribute {self.clazz} in {self.module}"
                    ) from exc
                plugin = clazz(**self.kwargs)
            except''', '''            try:
                plugin = self._load_class()(**self.kwargs)
            except''', F, '''    def __init__(
        self,
        columns_in: Iterable[str],
        columns_act: Iterable[str],
        plugin: PluginType,
''', '''        def _load_class(self) -> Any:
            try:
                module = import_module(self.module)
            except ImportError as exc:
                raise ValueError(
                    f"Failed to import module {self.module} for plugin"
                ) from exc
            if not hasattr(module, self.clazz):
                raise ValueError(
                    f"Could not find plugin attribute {self.clazz} in {self.module}"
                )
            return getattr(module, self.clazz)

    def __init__(
        self,
        columns_in: Iterable[str],
        columns_act: Iterable[str],
        plugin: PluginType,
''')

# --- plan_model
N(PM, '''        op = self.operator
        column = table_obj.columns[self.column]
        if op == "<":
            return column < self.value
        if op == ">":
            return column > self.value
        if op == "=":
            return column == self.value
        if op in ("<>", "!="):
            return column != self.value
        if op == "like":
            return column.like(self.value)
        if op == "not like":
            return sa.not_(column.like(self.value))
        raise ValueError(f"Unknown operator {op!r}")
''', '''        column = table_obj.columns[self.column]
        builders = {
            "<": lambda col, val: col < val,
            ">": lambda col, val: col > val,
            "=": lambda col, val: col == val,
            "<>": lambda col, val: col != val,
            "!=": lambda col, val: col != val,
            "like": lambda col, val: col.like(val),
            "not like": lambda col, val: sa.not_(col.like(val)),
        }
        if self.operator not in builders:
            raise ValueError(f"Unknown operator {self.operator!r}")
        return builders[self.operator](column, self.value)
''')
N(PM, '''        columns = sa.tuple_(*(table_obj.columns[col_name] for col_name in self.columns))
        if isinstance(self.values, list):
            clause = columns.in_(self.values)
        else:
            clause = columns.in_(self.values.build(context))
        if self.negated:
            clause = sa.not_(clause)
        return clause
''', '''        columns = sa.tuple_(*[table_obj.columns[name] for name in self.columns])
        values = (
            self.values
            if isinstance(self.values, list)
            else self.values.build(context)
        )
        clause = columns.in_(values)
        return sa.not_(clause) if self.negated else clause
''')
N(PM, '''            stmt = stmt.select_from(joined)
            if joined is not table_obj:
                stmt = stmt.group_by(*table_obj.primary_key.columns)

            if self.joins_outer:
                exists_constraints.extend(col.is_not(None) for col in joined_cols)
                stmt = stmt.where(sa.or_(*exists_constraints))
            elif exists_constraints:
                stmt = stmt.where(sa.and_(*exists_constraints))
''', '''            stmt = stmt.select_from(joined)
            if joined is not table_obj:
                stmt = stmt.group_by(*table_obj.primary_key.columns)

            if not self.joins_outer:
                if exists_constraints:
                    stmt = stmt.where(sa.and_(*exists_constraints))
            else:
                alternatives = exists_constraints + [
                    col.is_not(None) for col in joined_cols
                ]
                stmt = stmt.where(sa.or_(*alternatives))
''')
N(PM, '''            for join in self.joins:  # pylint: disable=not-an-iterable
                right = join.right.build(context).alias()

                if join.half_unique and table_obj.primary_key:
                    joined = joined.join(
                        right,
                        onclause=sa.and_(
                            *(
                                table_obj.c[lft_col] == right.c[rht_col]
                                for lft_col, rht_col in zip(
                                    join.left_columns, join.right_columns
                                )
                            )
                        ),
                        isouter=self.joins_outer,
                    )
                    joined_cols.extend(
                        right.c[rht_col] for rht_col in join.right_columns
                    )
                else:
                    exists_constraints.append(
                        sa.exists().where(
                            *(
                                table_obj.c[lft_col] == right.c[rht_col]
                                for lft_col, rht_col in zip(
                                    join.left_columns, join.right_columns
                                )
                            )
                        )
                    )
''', '''            for join in self.joins:  # pylint: disable=not-an-iterable
                right = join.right.build(context).alias()
                conditions = [
                    table_obj.c[lft_col] == right.c[rht_col]
                    for lft_col, rht_col in zip(join.left_columns, join.right_columns)
                ]

                if not (join.half_unique and table_obj.primary_key):
                    exists_constraints.append(sa.exists().where(*conditions))
                    continue

                joined = joined.join(
                    right,
                    onclause=sa.and_(*conditions),
                    isouter=self.joins_outer,
                )
                for rht_col in join.right_columns:
                    joined_cols.append(right.c[rht_col])
''')
N(PM, '''        kwargs = {
            "type_": self.type_,
            "from_": self.from_,
        }
        if not isinstance(simp_where, SQLWhereClauseTrue):
            kwargs["where"] = simp_where
        if self.columns is not None:
            kwargs["columns"] = self.columns
        if self.limit is not None:
            kwargs["limit"] = self.limit
        if self.joins:
            kwargs["joins"] = self.joins
            kwargs["joins_outer"] = self.joins_outer

        return SQLStatementSelect(**kwargs)  # type: ignore
''', '''        kwargs: Dict[str, Any] = {}
        if not isinstance(simp_where, SQLWhereClauseTrue):
            kwargs["where"] = simp_where
        for name in ("columns", "limit"):
            value = getattr(self, name)
            if value is not None:
                kwargs[name] = value
        if self.joins:
            kwargs.update(joins=self.joins, joins_outer=self.joins_outer)

        return SQLStatementSelect(type_=self.type_, from_=self.from_, **kwargs)
''')
N(PM, '''        selects = []
        for statement in self.statements:
            select = statement.build(context)
            if statement.limit is not None:
                # Not all dialects support ordering or limits directly within a union
                select = sa.select(select.subquery())
            selects.append(select)
        return sa.union(*selects)
''', '''        def build_part(statement: SQLStatementSelect):
            select = statement.build(context)
            if statement.limit is None:
                return select
            # Not all dialects support ordering or limits directly within a union
            return sa.select(select.subquery())

        return sa.union(*map(build_part, self.statements))
''')
N(PM, '''        for statement in simp_statements:
            if statement.from_ != statement0.from_:
                break
            if statement.columns != statement0.columns:
                break
            if statement.limit is not None:
                break
            if statement.joins:
                break
        else:
            return SQLStatementSelect(
''', '''        if all(
            statement.from_ == statement0.from_
            and statement.columns == statement0.columns
            and statement.limit is None
            and not statement.joins
            for statement in simp_statements
        ):
            return SQLStatementSelect(
''')
N(PM, '''        simp_conditions: List["SQLWhereClause"] = [
            simp_condition
            for condition in self.conditions
            if not isinstance(
                simp_condition := condition.simplify(), SQLWhereClauseTrue
            )
        ]
        simp_conditions = list(
            itertools.chain(
                *(
                    cond.conditions if isinstance(cond, SQLWhereClauseAnd) else (cond,)
                    for cond in simp_conditions
                )
            )
        )
        if any(
            isinstance(condition, SQLWhereClauseFalse) for condition in simp_conditions
        ):
            return SQLWhereClauseFalse(type_="false")
        if len(simp_conditions) == 0:
            return SQLWhereClauseTrue(type_="true")
        if len(simp_conditions) == 1:
            return simp_conditions[0]
        return SQLWhereClauseAnd(type_="and", conditions=simp_conditions)
''', '''        simp_conditions: List["SQLWhereClause"] = []
        for condition in self.conditions:
            simp_condition = condition.simplify()
            if isinstance(simp_condition, SQLWhereClauseTrue):
                continue
            if isinstance(simp_condition, SQLWhereClauseAnd):
                simp_conditions.extend(simp_condition.conditions)
            else:
                simp_conditions.append(simp_condition)
        for simp_condition in simp_conditions:
            if isinstance(simp_condition, SQLWhereClauseFalse):
                return SQLWhereClauseFalse(type_="false")
        if not simp_conditions:
            return SQLWhereClauseTrue(type_="true")
        if len(simp_conditions) > 1:
            return SQLWhereClauseAnd(type_="and", conditions=simp_conditions)
        return simp_conditions[0]
''')
N(PM, '''        if self.sql is not None:
            stmt = sa.text(self.sql)
            if self.sql_params is not None:
                stmt = stmt.bindparams(**self.sql_params)
            return stmt
        if self.statement is not None:
            return self.statement.build(context)
        raise ValueError("One of 'sql' or 'select' must be set")
''', '''        if self.sql is None and self.statement is None:
            raise ValueError("One of 'sql' or 'select' must be set")
        if self.sql is None:
            return self.statement.build(context)
        return self._build_sql()

    def _build_sql(self):
        stmt = sa.text(self.sql)
        if self.sql_params is None:
            return stmt
        return stmt.bindparams(**self.sql_params)
''')

# --- common
N(C, '''    if env_prefix is not None:
        dialect = dialect or os.getenv(f"{env_prefix}DIALECT", None)  # type: ignore
        host = host or os.getenv(f"{env_prefix}HOST", "localhost")
        port = port or int(os.getenv(f"{env_prefix}PORT", "0"))
        database = database or os.getenv(f"{env_prefix}DATABASE", None)
        username = username or os.getenv(f"{env_prefix}USERNAME", None)
        password = password or os.getenv(f"{env_prefix}PASSWORD", None)
''', '''    def _env(name: str, default: Optional[str] = None) -> Optional[str]:
        return os.environ.get(f"{env_prefix}{name}", default)

    if env_prefix is not None:
        if not dialect:
            dialect = _env("DIALECT")  # type: ignore
        if not host:
            host = _env("HOST", "localhost")
        if not port:
            port = int(_env("PORT", "0"))  # type: ignore
        if not database:
            database = _env("DATABASE")
        if not username:
            username = _env("USERNAME")
        if not password:
            password = _env("PASSWORD")
''')
N(C, '''        if self.isolation_level:
            isolation_level = self.isolation_level
        elif dialect == "sqlite":
            isolation_level = "SERIALIZABLE"
        else:
            isolation_level = "READ COMMITTED"
''', '''        default_isolation_levels: Dict[str, IsolationLevel] = {"sqlite": "SERIALIZABLE"}
        isolation_level = self.isolation_level or default_isolation_levels.get(
            dialect, "READ COMMITTED"
        )
''')
N(C, '''        @sa.event.listens_for(engine, "connect")
        def _set_session_sqls(dbapi_connection, _):
            cursor = dbapi_connection.cursor()
            try:
                if dialect == "sqlite":
                    for db_alias, db_file in self.sqlite_databases.items():
                        escaped_db_file = db_file.replace("'", "''")
                        escaped_alias = db_alias.replace('"', '""')
                        cursor.execute(
                            f"ATTACH DATABASE '{escaped_db_file}' as \\"{escaped_alias}\\""
                        )

                for session_sql in self.session_sqls:
                    cursor.execute(session_sql)
                # Session settings would otherwise be lost in the first rollback
                dbapi_connection.commit()
            finally:
                cursor.close()

        return engine
''', '''        sa.event.listen(
            engine,
            "connect",
            lambda dbapi_connection, _: self._prepare_session(
                dbapi_connection, dialect
            ),
        )
        return engine

    def _prepare_session(self, dbapi_connection, dialect: DatabaseDialect) -> None:
        statements = []
        if dialect == "sqlite":
            for db_alias, db_file in self.sqlite_databases.items():
                escaped_db_file = db_file.replace("'", "''")
                escaped_alias = db_alias.replace('"', '""')
                statements.append(
                    f"ATTACH DATABASE '{escaped_db_file}' as \\"{escaped_alias}\\""
                )
        statements.extend(self.session_sqls)

        cursor = dbapi_connection.cursor()
        try:
            for statement in statements:
                cursor.execute(statement)
            # Session settings would otherwise be lost in the first rollback
            dbapi_connection.commit()
        finally:
            cursor.close()
''')
N(C, '''            if dialect == "postgres":
                if server_verify == "identity":
                    sslmode = "verify-full"
                elif server_verify == "cert":
                    sslmode = "verify-ca"
                else:
                    sslmode = "require"

                result = {
                    "sslcert": client_cert,
                    "sslkey": client_key,
                    "sslmode": sslmode,
                    "sslrootcert": server_rootcert,
                }
                return {key: value for key, value in result.items() if value}
''', '''            if dialect == "postgres":
                sslmodes = {"identity": "verify-full", "cert": "verify-ca"}
                result = {"sslmode": sslmodes.get(server_verify, "require")}
                if client_cert:
                    result["sslcert"] = client_cert
                if client_key:
                    result["sslkey"] = client_key
                if server_rootcert:
                    result["sslrootcert"] = server_rootcert
                return result
''')
N(C, '''    extra_kwargs: Dict[str, Any] = {}
    if dialect == "mysql":
        drivername = "mysql+pymysql"
        if not port:
            port = 3306
        extra_kwargs["query"] = {"charset": "utf8mb4"}
    elif dialect == "postgres":
        drivername = "postgresql+psycopg2"
        if not port:
            port = 5432
        if database:
            extra_kwargs["database"] = database
    elif dialect == "sqlite":
        return sa.engine.URL.create(drivername="sqlite", database=database)
    else:
        raise ValueError(f"Unsupported SQL dialect {dialect!r}")

    return sa.engine.URL.create(
        drivername=drivername,
        host=host,
        port=port,
        username=username,
        password=password,
        **extra_kwargs,
    )
''', '''    if dialect == "sqlite":
        return sa.engine.URL.create(drivername="sqlite", database=database)
    if dialect == "mysql":
        return sa.engine.URL.create(
            "mysql+pymysql",
            username=username,
            password=password,
            host=host,
            port=port or 3306,
            query={"charset": "utf8mb4"},
        )
    if dialect == "postgres":
        return sa.engine.URL.create(
            "postgresql+psycopg2",
            username=username,
            password=password,
            host=host,
            port=port or 5432,
            database=database or None,
        )
    raise ValueError(f"Unsupported SQL dialect {dialect!r}")
''')

# --- __main__
N(MA, '''    def _dict_merge(lhs, rhs):
        if isinstance(lhs, dict) and isinstance(rhs, dict):
            result = dict(lhs)
            for key, val in rhs.items():
                if key in result:
                    result[key] = _dict_merge(result[key], val)
                else:
                    result[key] = val
            return result
        return rhs
''', '''    def _dict_merge(lhs, rhs):
        if not (isinstance(lhs, dict) and isinstance(rhs, dict)):
            return rhs
        merged = {
            key: _dict_merge(val, rhs[key]) if key in rhs else val
            for key, val in lhs.items()
        }
        merged.update((key, val) for key, val in rhs.items() if key not in lhs)
        return merged
''')
N(MA, '''    plan = Planner(config.source, config.planner).plan()
    Sampler(config.source, config.sampler).sample(
        plan,
        truncate=args.truncate,
        create=args.create,
    )


def main():
''', '''    planner = Planner(config.source, config.planner)
    sampler = Sampler(config.source, config.sampler)
    _run_sampler(sampler, planner.plan(), args)


def _run_sampler(sampler, plan, args):
    options = {"truncate": args.truncate, "create": args.create}
    sampler.sample(plan, **options)


def main():
''')
N(MA, '''        config_data: Any = {}
        for config_file in config_files:
            try:
                with _open_config_path(config_file) as fconfig:
                    config_data = _dict_merge(config_data, yaml.safe_load(fconfig))
            except IOError as exc:
                LOGGER.error(
                    "Could not open subsetter config file %r: %s",
                    config_file,
                    exc,
                    exc_info=args.verbose > 1,
                )
                sys.exit(1)
        config = SubsetterConfig.model_validate(config_data)
''', '''        def _load(config_file):
            try:
                with _open_config_path(config_file) as fconfig:
                    return yaml.safe_load(fconfig)
            except IOError as exc:
                LOGGER.error(
                    "Could not open subsetter config file %r: %s",
                    config_file,
                    exc,
                    exc_info=args.verbose > 1,
                )
                sys.exit(1)

        config_data: Any = {}
        for config_file in config_files:
            config_data = _dict_merge(config_data, _load(config_file))
        config = SubsetterConfig.model_validate(config_data)
''')
